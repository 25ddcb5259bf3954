"""Cases: random smooth functions of one to three matrices (traces of words in the matrices, their adjoints and constants,
products and powers of such, single entries, real/imaginary parts, scalar and vector valued), elements of SU(2)..SU(4) and
U(1), Lie algebra bases (standard, random, incomplete), argument positions, keyword arguments, auxiliary outputs, pytrees of
batches of matrices.  Oracle: central differences along explicit exponential curves, index sums.  Non-trivial: the matrices
and directions do not commute."""
import jax
import jax.numpy as jnp
import numpy as np
from bijx import lie
from scipy.linalg import expm

from vf import close, facet, must, shape


def su(g, n):
    a = np.linalg.qr(g.standard_normal((n, n)) + 1j * g.standard_normal((n, n)))[0]
    return a / np.linalg.det(a) ** (1 / n)


def basis(n):
    """orthonormal basis of su(n) with respect to tr(A^dagger B)/2"""
    out = []
    for i in range(n):
        for j in range(i):
            m = np.zeros((n, n), complex)
            m[i, j], m[j, i] = 1j, 1j
            out.append(m)
            m = np.zeros((n, n), complex)
            m[i, j], m[j, i] = 1, -1
            out.append(m)
    for k in range(1, n):
        v = np.zeros(n)
        v[:k], v[k] = 1, -k
        out.append(1j * np.diag(v) * np.sqrt(2 / (k * (k + 1))))
    return np.array(out)


def algebra_element(g, n):
    return np.einsum("k,kij->ij", g.standard_normal(n * n - 1), basis(n))


def d1(f, h=2e-3):
    """derivative at 0 of a function of one real variable (array valued), fourth order"""
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


def d2(f, h=1e-2):
    c = [2 / 180, -27 / 180, 270 / 180]
    return (c[0] * (f(3 * h) + f(-3 * h)) + c[1] * (f(2 * h) + f(-2 * h)) + c[2] * (f(h) + f(-h)) - 490 / 180 * f(0.0)) / h**2


def draw_fn(d, g, n, nargs, complex_out=False):
    """function of nargs matrices -> scalar; jnp operations"""
    words = []
    for _ in range(d.int(1, 3, "terms")):
        letters = []
        for _ in range(d.int(1, 4, "length")):
            kind = d.pick(["u", "udag", "const", "conj"], "letter")
            k = d.int(0, nargs - 1, "matrix") if nargs > 1 else 0
            letters.append((kind, k, (g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))) / np.sqrt(n)))
        words.append((letters, complex(g.standard_normal(), g.standard_normal()), d.pick(["re", "abs2", "sin", "entry"], "part")))

    def fn(*us):
        total = 0.0
        for letters, c, part in words:
            m = jnp.eye(n)
            for kind, k, a in letters:
                u = us[k]
                m = m @ {"u": u, "udag": u.conj().T, "const": a, "conj": u.conj()}[kind]
            t = c * jnp.trace(m)
            if complex_out:
                total = total + (t if part != "abs2" else t * t)
            else:
                total = total + {"re": t.real, "abs2": jnp.abs(t) ** 2 / n, "sin": jnp.sin(t.imag), "entry": (c * m[0, -1]).imag * m[-1, 0].real}[part]
        return total

    fn.words = words
    return fn


@facet(quick=20, thorough=250, shards=2, tshards=4)
def gradient(d):
    g = d.gen()
    n, nargs = d.int(2, 4, "n"), d.int(1, 3, "matrices")
    fn = draw_fn(d, g, n, nargs)
    us = [su(g, n) for _ in range(nargs)]
    pos = d.int(0, nargs - 1, "argnum")
    aux, val, kw = d.bool("aux"), d.bool("value"), d.bool("keyword")
    scale = 1.7 if kw else 1.0

    def wrapped(*args, factor=1.0):
        r = fn(*args) * factor
        return (r, dict(s=r * 2, m=args[0])) if aux else r

    which = d.pick(["default", "basis", "repo generators", "partial basis"], "algebra")
    gens = basis(n)
    if which == "repo generators" and n < 4:
        gens = np.asarray({2: lie.SU2_GEN, 3: lie.SU3_GEN}[n])
    elif which == "partial basis":
        gens = np.array([algebra_element(g, n) for _ in range(2)])
    opts = {} if which == "default" else dict(algebra=jnp.asarray(gens))
    gr = lie.grad(wrapped, argnum=pos, return_value=val, has_aux=aux, **opts)
    kwargs = dict(factor=scale) if kw else {}
    out = gr(*[jnp.asarray(u) for u in us], **kwargs)
    if val:
        v, G = out
        if aux:
            v, ax = v
    elif aux:
        G, ax = out
    else:
        G = out
    ref = float(fn(*us)) * scale
    if val:
        close(v, ref, "returned value", rtol=1e-9, atol=1e-9)
    if aux:
        close(ax["s"], 2 * ref, "auxiliary output", rtol=1e-9, atol=1e-9)
        close(ax["m"], us[0], "auxiliary output", rtol=1e-12, atol=1e-12)
    shape(G, (n, n), "gradient")
    G = np.asarray(G)

    def along(X):
        return d1(lambda t: float(fn(*[expm(t * X) @ u if k == pos else u for k, u in enumerate(us)])) * scale)

    if which == "partial basis":
        want = sum(along(X) * X for X in gens)
        close(G, want, "gradient is the sum of derivatives along the given generators", rtol=1e-6, atol=1e-6)
    else:
        close(G, -G.conj().T, "gradient is skew-hermitian", rtol=0, atol=1e-10 * (1 + np.abs(G).max()))
        close(np.trace(G), 0.0, "gradient is traceless", rtol=0, atol=1e-10 * (1 + np.abs(G).max()))
        for X in [algebra_element(g, n) for _ in range(3)]:
            a = along(X)
            close(np.asarray(lie.scalar_prod(jnp.asarray(G), jnp.asarray(X))).real, a, f"pairing of the gradient ({which}) with a direction", rtol=1e-6, atol=1e-6 * (1 + np.abs(G).max()))
            close(np.trace(G.conj().T @ X).real / 2, a, f"half trace of the gradient ({which}) with a direction", rtol=1e-6, atol=1e-6 * (1 + np.abs(G).max()))
    d.note(n=n, matrices=nargs, argnum=pos, algebra=which, words=len(fn.words))
    return np.abs(G).max() > 1e-6


@facet(quick=30, thorough=300)
def divergence(d):
    """value, gradient and Laplacian with an explicit basis"""
    g = d.gen()
    n = d.int(2, 3, "n")
    fn = draw_fn(d, g, n, 1)
    u = su(g, n)
    gens = d.pick([basis(n), np.array([algebra_element(g, n) for _ in range(d.int(1, 3, "generators"))])], "generators")
    v, G, L = lie.value_grad_divergence(fn, jnp.asarray(u), jnp.asarray(gens))
    curve = lambda X: lambda t: float(fn(expm(t * X) @ u))
    s = 1 + np.abs(np.asarray(G)).max()
    close(v, float(fn(u)), "value", rtol=1e-9, atol=1e-9)
    shape(G, (n, n), "gradient")
    close(G, sum(d1(curve(X)) * X for X in gens), "gradient in the given generators", rtol=1e-6, atol=1e-6 * s)
    parts = [d2(curve(X)) for X in gens]
    close(L, sum(parts), "divergence of the gradient", rtol=1e-5, atol=1e-5 * (1 + np.abs(parts).sum()))
    d.note(n=n, generators=len(gens), laplacian=float(L))
    return np.abs(np.asarray(G)).max() > 1e-6


@facet(quick=40, thorough=400)
def curves(d):
    """directional derivatives: side, argument position, value, auxiliary output, defaults, vector and complex outputs"""
    g = d.gen()
    n, nargs = d.int(2, 3, "n"), d.int(1, 3, "matrices")
    fns = [draw_fn(d, g, n, nargs, complex_out=c) for c in (False, d.bool("complex"))]
    vector = d.bool("vector")
    raw = (lambda *a: jnp.stack([fns[0](*a) + 0j, fns[1](*a) + 0j])) if vector else fns[1]
    us = [su(g, n) for _ in range(nargs)]
    pos, left = d.int(0, nargs - 1, "argnum"), d.bool("left")
    aux, val, kw = d.bool("aux"), d.bool("value"), d.pick(["none", "keyword", "positional"], "scale")
    factor = 1.0 if kw == "none" else 0.6

    def fun(*args):
        r = raw(*args[:nargs]) * (args[nargs] if len(args) > nargs else 1.0)
        return (r, r * 3) if aux else r

    if nargs == 2:  # named arguments with a default
        base = fun
        fun = lambda a, b, c=1.0: base(a, b, c)
    elif kw == "keyword":
        kw = "positional"
    X = algebra_element(g, n)
    cg = lie.curve_grad(fun, jnp.asarray(X), argnum=pos, has_aux=aux, return_value=val, left=left)
    args = [jnp.asarray(u) for u in us] + ([factor] if kw == "positional" else [])
    if d.bool("jit"):
        cg = jax.jit(cg)
    out = cg(*args, **(dict(c=factor) if kw == "keyword" else {}))

    def curve(t):
        e = expm(t * X)
        return np.asarray(raw(*[(u @ e if left else e @ u) if k == pos else u for k, u in enumerate(us)])) * factor

    want, ref = d1(curve), curve(0.0)
    if val:
        close(out[0], ref, "value", rtol=1e-9, atol=1e-9)
        der = out[1]
        ax = out[2] if aux else None
    else:
        der, ax = out if aux else (out, None)
    if aux:
        close(ax, 3 * ref, "auxiliary output", rtol=1e-9, atol=1e-9)
    s = 1 + np.abs(want).max()
    close(der, want, f"derivative along {'u exp(tX)' if left else 'exp(tX) u'}, argument {pos}", rtol=1e-6, atol=1e-6 * s)
    d.note(n=n, matrices=nargs, argnum=pos, left=left, aux=aux, value=val, vector=vector)
    return np.abs(want).max() > 1e-6


def draw_tree(d, g, n):
    """pytree of batches of matrices, and a function: list of all matrices"""
    k = d.pick(["array", "list", "dict", "batch", "mixed"], "tree")
    b = lambda *s: jnp.asarray(np.array([su(g, n) for _ in range(int(np.prod(s, dtype=int)))]).reshape(s + (n, n)))
    t = {"array": lambda: b(), "list": lambda: [b(), b()], "dict": lambda: dict(x=b(), y=b()), "batch": lambda: b(3), "mixed": lambda: (b(2), dict(z=b(), w=b(1, 2)))}[k]()
    return k, t


def flat(tree, n):
    return [m for leaf in jax.tree.leaves(tree) for m in np.asarray(leaf).reshape(-1, n, n)]


def at(tree, n, idx, fnmat):
    """tree with matrix number idx replaced by fnmat(matrix)"""
    leaves, td = jax.tree.flatten(tree)
    out, c = [], 0
    for leaf in leaves:
        a = np.array(leaf).reshape(-1, n, n)
        for i in range(len(a)):
            if c == idx:
                a[i] = fnmat(a[i])
            c += 1
        out.append(jnp.asarray(a.reshape(leaf.shape)))
    return jax.tree.unflatten(td, out)


@facet(quick=20, thorough=250, shards=2, tshards=4)
def paths(d):
    """first and second derivatives with respect to every matrix of a tree"""
    g = d.gen()
    n = d.int(2, 3, "n")
    k, us = draw_tree(d, g, n)
    count = len(flat(us, n))
    fn = draw_fn(d, g, n, min(count, 3), complex_out=d.bool("complex"))
    vec = d.bool("vector")

    def fun(tree):
        ms = [m for leaf in jax.tree.leaves(tree) for m in jnp.reshape(leaf, (-1, n, n))]
        r = fn(*ms[: min(count, 3)])
        for m in ms[3:]:
            r = r + jnp.trace(m @ ms[0]).real * r
        return jnp.stack([r, r * r]) if vec else r

    gens = d.pick([basis(n), np.array([algebra_element(g, n) for _ in range(2)])], "generators")
    second = d.bool("second")
    if second:
        out, jac, jac2 = lie.path_grad2(fun, jnp.asarray(gens), us)
    else:
        out, jac = lie.path_grad(fun, jnp.asarray(gens), us)
    close(out, np.asarray(fun(us)), "value", rtol=1e-9, atol=1e-9)
    must(jax.tree.structure(jac) == jax.tree.structure(us), "structure of the derivatives", got=jax.tree.structure(jac))
    os = np.shape(out)
    probes = [(i, j) for i in range(count) for j in range(len(gens))]
    probes = [probes[i] for i in g.permutation(len(probes))[:6]]
    rows = lambda tr: np.concatenate([np.asarray(leaf).reshape(os + (-1, len(gens))) for leaf in jax.tree.leaves(tr)], axis=-2)
    for a, b in zip(jax.tree.leaves(jac), jax.tree.leaves(us)):
        shape(a, os + b.shape[:-2] + (len(gens),), "derivative")
    J = rows(jac)
    J2 = rows(jac2) if second else None
    for i, j in probes:
        curve = lambda t: np.asarray(fun(at(us, n, i, lambda m: expm(t * gens[j]) @ m)))
        w = d1(curve)
        close(J[..., i, j], w, f"derivative of matrix {i} along generator {j}", rtol=1e-6, atol=1e-6 * (1 + np.abs(w).max() + np.abs(np.asarray(out)).max()))
        if second:
            w = d2(curve)
            close(J2[..., i, j], w, f"second derivative of matrix {i} along generator {j}", rtol=1e-5, atol=1e-5 * (1 + np.abs(w).max() + np.abs(np.asarray(out)).max()))
    d.note(n=n, tree=k, matrices=count, second=second, vector=vec)
    return np.abs(J).max() > 1e-6


@facet(quick=14, thorough=150)
def path_divergence(d):
    g = d.gen()
    n, m = d.int(2, 3, "n"), d.int(1, 3, "matrices")
    us = np.array([su(g, n) for _ in range(m)])
    single = d.bool("single") and m == 1
    gens = d.pick([basis(n), np.array([algebra_element(g, n) for _ in range(2)])], "generators")
    fn = [draw_fn(d, g, n, m, complex_out=False) for _ in range(2)]
    c = g.standard_normal((m, len(gens), 2))

    def fun(u):
        ms = u.reshape(-1, n, n)
        v = jnp.stack([f(*[ms[i] for i in range(m)]) for f in fn])
        r = jnp.tanh(jnp.einsum("mkj,j->mk", c, v))
        return r[0] if single else r

    arg = jnp.asarray(us[0] if single else us)
    out, div = lie.path_div(fun, jnp.asarray(gens), arg)
    ref = np.asarray(fun(arg)).reshape(m, len(gens))
    close(out, ref, "components of the vector field", rtol=1e-9, atol=1e-9)
    want, size = 0.0, 1.0
    for i in range(m):
        for j, X in enumerate(gens):
            t = d1(lambda t: np.asarray(fun(at(arg, n, i, lambda q: expm(t * X) @ q))).reshape(m, len(gens))[i, j])
            want, size = want + t, size + abs(t)
    close(div, want, "divergence of the vector field", rtol=1e-6, atol=1e-6 * size)
    d.note(n=n, matrices=m, generators=len(gens))
    return abs(want) > 1e-6


@facet(quick=60, thorough=600)
def operations(d):
    """contract, adjoint, scalar product, generators"""
    g = d.gen()
    lead = d.pick([(), (3,), (2, 3), (1,)], "leading")
    k = d.int(1, 5, "factors")
    dims = g.integers(1, 4, k + 1)
    trace = d.bool("trace")
    if trace:
        dims[-1] = dims[0]
    cplx = d.bool("complex")
    fs = []
    for i in range(k):
        L = lead if i == 0 or d.bool("batched") else ()
        f = g.standard_normal(L + (dims[i], dims[i + 1]))
        fs.append(f + 1j * g.standard_normal(f.shape) if cplx else f)
    order = fs
    ref = np.broadcast_to(fs[0], lead + fs[0].shape[-2:])
    for f in fs[1:]:
        ref = np.matmul(ref, f)
    if trace:
        ref = np.einsum("...ii->...", ref)
    got = lie.contract(*[jnp.asarray(f) for f in order], trace=trace)
    close(got, ref, f"product of {k} matrices{' with trace' if trace else ''}", rtol=1e-10, atol=1e-10)
    a = fs[0]
    close(lie.adjoint(jnp.asarray(a)), np.swapaxes(a, -1, -2).conj(), "adjoint", rtol=0, atol=0)
    n = d.int(2, 4, "n")
    X = np.array([algebra_element(g, n) for _ in range(int(np.prod(lead, dtype=int)))]).reshape(lead + (n, n))
    Y = np.array([algebra_element(g, n) for _ in range(int(np.prod(lead, dtype=int)))]).reshape(lead + (n, n))
    close(lie.scalar_prod(jnp.asarray(X), jnp.asarray(Y)), 0.5 * np.einsum("...ji,...ji->...", X.conj(), Y), "scalar product", rtol=1e-10, atol=1e-10)
    ug, w = d.pick([(lie.SU2_GEN, 2), (lie.SU3_GEN, 3)], "generators")
    ug = np.asarray(ug)
    must(len(ug) == w * w - 1, "number of generators")
    close(np.einsum("aij,bij->ab", ug.conj(), ug) / 2, np.eye(len(ug)), "generators are orthonormal", rtol=0, atol=1e-12)
    close(ug, -ug.conj().swapaxes(-1, -2), "generators are skew-hermitian", rtol=0, atol=0)
    close(np.trace(ug, axis1=-2, axis2=-1), np.zeros(len(ug)), "generators are traceless", rtol=0, atol=1e-12)
    d.note(factors=k, leading=lead, trace=trace)
    return k > 1
