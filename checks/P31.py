"""Cases: bijections of every kind (both directions, near and far from the origin), distributions, Fourier representations, scalar
and gauge lattices, group elements, fixed-step integration, networks and embeddings, diagnostics and Metropolis steps, with drawn
parameters and inputs that are single-precision numbers; evaluated with jax's default 32-bit types, eagerly or compiled; values and
gradients.  Oracle: the same function of the same numbers in double
precision; the tolerance is 1e-5 of the scale plus the observed effect of relative perturbations of inputs and parameters by
single-precision rounding.  Random samples: support, group membership and the returned log-density.  Non-trivial: the outcome is
finite and the tolerance resolves it."""
from functools import partial

import bijx
import jax
import jax.numpy as jnp
import numpy as np
from bijx import cg, lie
from flax import nnx

from vf import bij, facet, fail, jx, must, shape, zoo
from vf.dist import distribution

EPS = 2.0**-23
DOWN = {"float64": "float32", "complex128": "complex64", "int64": "int32", "uint64": "uint32"}
UP = {"float32": "float64", "complex64": "complex128"}


def is_key(a):
    return isinstance(a, jax.Array) and jnp.issubdtype(a.dtype, jax.dtypes.prng_key)


def single(tree):
    """32-bit numpy arrays"""
    return jax.tree.map(lambda a: a if is_key(a) else (lambda v: v.astype(DOWN.get(str(v.dtype), v.dtype)))(np.asarray(a)), tree)


def double(tree):
    return jax.tree.map(lambda a: a if is_key(a) else a.astype(UP.get(str(a.dtype), a.dtype)), tree)


def on_device(tree):
    return jax.tree.map(lambda a: a if is_key(a) else jnp.asarray(a), tree)


def host(tree):
    return jax.tree.map(lambda a: a if is_key(a) else np.asarray(a), tree)


def nudge(tree, g):
    def f(a):
        if is_key(a) or a.dtype.kind not in "fc":
            return a
        return a * (1 + 4 * EPS * g.uniform(-1, 1, a.shape))

    return jax.tree.map(f, tree)


def both(d, fn, args, what, entry=False, rtol=1e-5, overall=False):
    """fn(args) in single precision against double precision; entry: accuracy relative to each entry, else to the largest one of the
    array, or (overall) of all arrays"""
    g = d.gen("nudge").spawn(1)[0]
    a32 = single(args)
    a64 = double(a32)
    ref = host(fn(on_device(a64)))
    near = [host(fn(on_device(nudge(a64, g)))) for _ in range(3)]
    mode = d.pick(["eager", "compiled"], "mode")
    with jax.enable_x64(False):
        got = host((jax.jit(fn) if mode == "compiled" else fn)(on_device(a32)))
    must(jax.tree.structure(got) == jax.tree.structure(ref), f"{what}: another structure in single precision")
    used = 0
    largest = max([np.abs(v[np.isfinite(v)]).max(initial=0) for v in jax.tree.leaves(ref) if not is_key(v) and v.dtype.kind in "fc"], default=0) if overall else 0
    for i, (u, v, *ws) in enumerate(zip(*[jax.tree.leaves(t) for t in (got, ref, *near)])):
        part = f"{what}, {mode}" + (f", part {i}" if len(jax.tree.leaves(ref)) > 1 else "")
        if is_key(v):
            continue
        shape(u, v.shape, f"{part}: single precision")
        if v.dtype.kind not in "fc":
            continue
        must(u.dtype.kind == v.dtype.kind and u.dtype.itemsize * 2 == v.dtype.itemsize, f"{part}: type in single precision", got=u.dtype, double=v.dtype)
        with np.errstate(all="ignore"):
            spread = np.max([np.abs(w - v) for w in ws], axis=0)
            size = np.abs(v)
            ok = np.isfinite(v) & np.isfinite(spread) & (size < 1e30)
            scale = size if entry else np.full(v.shape, max(largest, size[ok].max(initial=0)))
            tol = rtol * (scale + (1 if entry else 0)) + 30 * spread + 1e-30
            ok &= tol < 0.1 * (1 + scale)
            err = np.abs(u - v)
        bad = ok & ~(err <= tol)
        used += int(ok.sum())
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            fail(f"{part}: single precision differs from double precision", index=k, single=u[k], double=v[k], tolerance=tol[k], wrong=int(bad.sum()), of=int(ok.sum()))
    return used > 0


def module(m):
    """graph definition and state"""
    return nnx.split(m)


# ------------------------------------------------------------------------------------------ bijections
@facet(quick=10, thorough=250, shards=6, tshards=8)
def bijections(d):
    c = bij.draw_case(d)
    g = d.gen("data").spawn(1)[0]
    batch = d.pick([(3,), (), (2, 2)], "batch")
    x, ld = c.sample(g, batch), g.standard_normal(batch)
    gd, s = module(c.b)
    kw = {k: np.asarray(v) if not isinstance(v, (dict, str)) else v for k, v in c.kwargs.items()}
    if any(isinstance(v, (dict, str)) for v in kw.values()):
        kw = {}
    reverse = d.bool("reverse")
    if reverse:
        x = np.asarray(c.b.forward(jnp.asarray(x), jnp.zeros(batch), **c.kwargs)[0])

    def run(a):
        s, x, ld, kw = a
        b = nnx.merge(gd, s)
        return (b.reverse if reverse else b.forward)(x, ld, **kw)

    ok = both(d, run, (s, x, ld, kw), f"{c.name}, {'reverse' if reverse else 'forward'}", rtol=1e-4 if reverse else 2e-5)
    d.note(bijection=c.name, direction="reverse" if reverse else "forward", batch=batch)
    return ok


@facet(quick=40, thorough=600, shards=3, tshards=6)
def tails(d):
    """elementwise maps anywhere in their domain, entry by entry"""
    e = zoo.BY_NAME[d.pick([e.name for e in zoo.ENTRIES], "bijection")]
    b, eff = zoo.draw_bijection(d, e, (4,))[:2]
    x = zoo.draw_x(d, e, eff, (4,))
    gd, s = module(b)

    def run(a):
        s, x = a
        y, l = jax.vmap(lambda v: nnx.merge(gd, s).forward(v, jnp.zeros((), v.dtype)))(x[None])
        return y[0], l[0]

    ok = both(d, run, (s, x), f"{e.name}, anywhere", entry=True)
    d.note(bijection=e.name, x=x)
    return ok


@facet(quick=8, thorough=200, shards=3, tshards=6)
def gradients(d):
    """derivatives of the training loss with respect to inputs and parameters"""
    c = bij.draw_case(d)
    if c.kwargs or "Diffrax" in c.name or "CG" in c.name:
        c = c._replace(kwargs={})
    g = d.gen("data").spawn(1)[0]
    x = c.sample(g, (3,))
    gd, p, rest = nnx.split(c.b, nnx.Param, ...)
    probe = c.b.forward(jnp.asarray(x), jnp.zeros(3))
    w, v = g.standard_normal(np.asarray(probe[0]).shape), g.standard_normal(3)

    def run(a):
        p, rest, x, w, v = a

        def loss(x, p):
            y, l = nnx.merge(gd, p, rest).forward(x, jnp.zeros(3, x.dtype))
            return jnp.sum(jnp.real(w * y)) + jnp.sum(v * l)

        return jax.grad(loss, argnums=(0, 1), allow_int=True)(x, p)

    ok = both(d, run, (p, rest, x, w, v), f"{c.name}, gradient", rtol=1e-4, overall=True)
    d.note(bijection=c.name)
    return ok


# ------------------------------------------------------------------------------------------ distributions
@facet(quick=18, thorough=300, shards=3, tshards=6)
def distributions(d):
    m, kind, ev, own = distribution(d)
    g = d.gen("data").spawn(1)[0]
    batch = d.pick([(3,), (), (2, 3)], "batch")
    x = g.uniform(0.02, 0.98, batch + ev) * d.pick([1.0, 1.0, 6.0], "radius")
    if kind == "uniform":
        x = x % 1.0
    gd, s = module(m)
    ok = both(d, lambda a: nnx.merge(gd, a[0]).log_density(a[1]), (s, x), f"{kind}: log-density", entry=True)
    key = d.key()
    s32 = single(s)
    with jax.enable_x64(False):
        dist = nnx.merge(gd, on_device(s32))
        y, l = host(dist.sample(batch, rng=key))
        again = host(dist.sample(batch, rng=key))
    must(np.array_equal(y, again[0]) and np.array_equal(l, again[1]), f"{kind}: another sample for the same key")
    shape(y, batch + ev, f"{kind}: samples"), shape(l, batch, f"{kind}: log-density of samples")
    must(y.dtype == np.float32 and l.dtype == np.float32, f"{kind}: type of samples", got=(y.dtype, l.dtype))
    must(np.isfinite(y) & True, f"{kind}: samples are finite")
    if kind == "uniform":
        must((y >= 0) & (y <= 1), "uniform samples lie in the unit interval", got=y)
    want = np.asarray(nnx.merge(gd, on_device(double(s32))).log_density(jnp.asarray(y.astype(float))))
    must(np.abs(l - want) <= 1e-3 * (1 + np.abs(want)), f"{kind}: log-density returned with a sample", got=l, double=want)
    d.note(distribution=kind, batch=batch)
    return ok


@facet(quick=2, thorough=20, tshards=2)
def laws(d):
    """many samples in single precision: finite, distinct, of the right mean and variance"""
    k = d.pick(["normal", "mvn", "haar", "transformed"], "kind")
    g = d.gen("parameters")
    n, key = 40000, d.key()
    a = np.asarray(g.standard_normal(2), np.float32)
    with jax.enable_x64(False):
        if k == "normal":
            y, l = bijx.IndependentNormal((2,)).sample((n,), rng=key)
        elif k == "mvn":
            y, l = bijx.MultivariateNormal(jnp.asarray(a), jnp.asarray([1.0, 0.4, 0.8], jnp.float32)).sample((n,), rng=key)
        elif k == "transformed":
            y, l = bijx.Transformed(bijx.IndependentNormal((2,)), bijx.AffineLinear(jnp.zeros(2), jnp.asarray(a))).sample((n,), rng=key)
        else:
            y, l = lie.HaarDistribution(2).sample((n,), rng=key)
        y, l = np.asarray(y), np.asarray(l)
    must(np.isfinite(y), f"{k}: samples are finite")
    must(np.isfinite(l), f"{k}: log-densities are finite")
    if k == "haar":
        must(y.dtype == np.complex64, "type of group elements", got=y.dtype)
        t = np.trace(y.astype(complex), axis1=-2, axis2=-1).real
        must(abs(t.mean()) < 8 / np.sqrt(n) and abs((t**2).mean() - 1) < 10 / np.sqrt(n), "moments of the trace", got=(t.mean(), (t**2).mean()))
        must(np.abs(t).max() > 1.95, "the trace reaches its limits", got=np.abs(t).max())
        return True
    z = y.astype(float)
    L = np.array([[1, 0], [0.4, 0.8]]) if k == "mvn" else np.eye(2)
    z = np.linalg.solve(L, (z - (0 if k == "normal" else a)).T).T
    must(np.abs(z.mean(0)) < 8 / np.sqrt(n), f"{k}: mean", got=z.mean(0))
    must(np.abs(z.T @ z / n - np.eye(2)) < 12 / np.sqrt(n), f"{k}: covariance", got=z.T @ z / n)
    must(np.abs(z).max() > 3.3, f"{k}: the tails are sampled", got=np.abs(z).max())
    d.note(kind=k)
    return True


# ------------------------------------------------------------------------------------------ lattices and groups
@facet(quick=40, thorough=600, shards=3, tshards=4)
def lattices(d):
    g = d.gen("fields")
    k = d.pick(["phi4", "phi4_alt", "kinetic", "poly", "two_point", "central", "tensor", "corr", "matrix", "length", "fourier", "momenta", "spectrum"], "function")
    sh = d.pick([(4,), (5,), (3, 4), (5, 2), (2, 3, 2), (1, 4)], "lattice")
    r = lambda *s: g.standard_normal(s)
    sc = bijx.lattice.scalar
    if k == "phi4":
        f, args = lambda a: sc.phi4_term(*a), (r(*sh), r(), r())
    elif k == "phi4_alt":
        f, args = lambda a: sc.phi4_term_alt(*a), (r(*sh), r(), r())
    elif k == "kinetic":
        f, args = lambda a: sc.kinetic_term(a[0]), (r(*sh),)
    elif k == "poly":
        even = d.bool("even")
        f, args = lambda a: sc.poly_term(a[0], a[1], even), (r(*sh), r(3))
    elif k in ("two_point", "central"):
        average = d.bool("average")
        f = (lambda a: sc.two_point(a[0], average)) if k == "two_point" else lambda a: sc.two_point_central(a[0])
        args = (r(3, *sh) + d.pick([0.0, 1.0], "mean"),)
    elif k == "tensor":
        f, args = lambda a: sc.cyclic_tensor(*a), (r(*sh), r(*sh))
    elif k == "corr":
        f, args = lambda a: sc.cyclic_corr(*a), (r(*sh), r(*sh))
    elif k == "matrix":
        f, args = lambda a: sc.cyclic_corr_mat(a[0]), (np.multiply.outer(r(*sh), r(*sh)),)
    elif k == "length":
        L = d.int(4, 7, "length")
        args = (np.cosh(g.uniform(0.3, 1) * (np.arange(L) - L / 2)) * np.ones((3, 1)) * (1 + 1e-2 * r(3, L)),)
        f = lambda a: sc.correlation_length(a[0])
    elif k == "momenta":
        kw = dict(lattice=d.bool("lattice momenta"), reduced=d.bool("reduced"))
        f, args = lambda a: a[0] * bijx.fourier.fft_momenta(sh, **kw), (np.asarray(1.0),)
    elif k == "spectrum":
        m = bijx.FreeTheoryScaling(g.uniform(0.3, 2), sh)
        gd, s = module(m)
        f, args = lambda a: nnx.merge(gd, a[0]).forward(a[1], jnp.zeros(2, a[1].dtype)), (s, r(2, *sh))
    else:
        rep = d.pick(list(bijx.fourier.FFTRep), "representation")
        back = d.pick(list(bijx.fourier.FFTRep), "second representation")

        def f(a):
            z = bijx.fourier.FourierData.from_real(a[0], sh)
            u = z.to(rep)
            return u.data, u.to(back).data, u.to(back).to(bijx.fourier.FFTRep.real_space).data

        args = (r(*d.pick([(), (2,)], "batch"), *sh),)
    ok = both(d, f, args, k, rtol=2e-5)
    d.note(function=k, lattice=sh)
    return ok


@facet(quick=30, thorough=400, shards=3, tshards=4)
def groups(d):
    g = d.gen("links")
    k = d.pick(["wilson", "symmetry", "gradient", "curve", "sampled", "density", "matrices", "integration", "projection"], "function")
    n = d.pick([2, 3, 1], "group")
    n = max(n, 2) if k in ("density", "matrices", "gradient", "projection") else n
    z = lambda *s: g.standard_normal(s) + 1j * g.standard_normal(s)
    unitary = lambda *s: np.linalg.qr(z(*s, n, n))[0]

    def alg():
        a = z(n, n)
        a = (a - a.conj().T) / 2
        return a - np.trace(a) / n * np.eye(n) if n > 1 else a

    if k in ("wilson", "symmetry"):
        dim = d.pick([2, 3], "dimension")
        ls = tuple(d.pick([1, 2, 3], "extent") for _ in range(dim))
        if k == "wilson":
            f, args = lambda a: bijx.lattice.gauge.wilson_action(*a), (unitary(*ls, dim), g.standard_normal())
        else:
            ax = d.int(0, dim - 1, "axis")
            f, args = lambda a: bijx.lattice.gauge.flip_axis(bijx.lattice.gauge.swap_axes(a[0], 0, dim - 1), ax), (unitary(*ls, dim),)
    elif k == "gradient":
        f = lambda a: lie.grad(lambda u: jnp.real(jnp.trace(u @ a[1] @ u)), return_value=True)(a[0])
        args = (unitary(), z(n, n))
    elif k == "curve":
        left = d.bool("left")
        f = lambda a: lie.curve_grad(lambda u: jnp.real(jnp.trace(u @ a[1] @ u)), a[2], return_value=True, left=left)(a[0])
        args = (unitary(), z(n, n), alg())
    elif k == "density":
        f, args = lambda a: lie.compute_haar_density(a[0]), (g.uniform(-3, 3, (3, n - 1)),)
    elif k == "matrices":
        key = d.key()
        f = lambda a: jnp.trace(jnp.linalg.matrix_power(lie.construct_su_matrix_from_eigenvalues(key, a[0]), 2), axis1=-2, axis2=-1)
        args = (g.uniform(-3, 3, (3, n - 1)),)
    elif k == "projection":
        f, args = lambda a: lie.skew_traceless_cot(*a), (z(n, n), unitary())
    elif k == "integration":
        tab = d.pick([cg.EULER, cg.CG2, cg.CG3], "tableau")
        h = d.pick([0.1, 0.07], "step")
        mt = d.pick([cg.Unitary(), cg.Matrix()], "manifold")

        def f(a):
            vf = lambda t, u, p: jnp.cos(t) * p[0] + jnp.sin(jnp.real(jnp.trace(u))) * p[1]
            return cg.crouch_grossmann(vf, a[0], (a[1], a[2]), 0.0, 1.0, h, mt, tableau=tab)

        args = (unitary(), alg(), alg())
    if k == "sampled":
        batch, key = d.pick([(), (3,), (2, 2)], "batch"), d.key()
        n = max(n, 2)
        with jax.enable_x64(False):
            u = np.asarray(lie.sample_haar(key, n, batch))
        shape(u, batch + (n, n), "sampled matrices")
        must(u.dtype == np.complex64, "type of sampled matrices", got=u.dtype)
        u = u.astype(complex)
        must(np.abs(u @ np.swapaxes(u.conj(), -1, -2) - np.eye(n)) < 1e-5 * n, "unitarity in single precision")
        must(np.abs(np.linalg.det(u) - 1) < 2e-5 * n, "determinant in single precision", got=np.linalg.det(u))
        d.note(function=k, n=n)
        return True
    ok = both(d, f, args, f"{k}, n={n}", rtol=1e-4 if k == "integration" else 3e-5)
    d.note(function=k, n=n)
    return ok


# ------------------------------------------------------------------------------------------ networks, diagnostics
@facet(quick=24, thorough=300, shards=2, tshards=4)
def networks(d):
    g = d.gen("net")
    rngs = nnx.Rngs(int(g.integers(1000)))
    k = d.pick(["mlp", "resnet", "convnet", "convsym", "gauss", "lin", "fourier", "reduced", "positional", "features", "convvf"], "network")
    r = lambda *s: g.standard_normal(s)
    nn = bijx.nn
    more = ()
    if k == "mlp":
        m, x = nn.nets.MLP(3, 2, [4, 5], activation=jnp.tanh, rngs=rngs), r(2, 3)
    elif k == "resnet":
        m, x = nn.nets.ResNet(3, 2, 4, 2, activation=jnp.tanh, rngs=rngs), r(2, 3)
    elif k == "convnet":
        m, x = nn.nets.ConvNet(1, 2, (3, 3), [2], activation=jnp.tanh, rngs=rngs), r(2, 3, 4, 1)
    elif k == "convsym":
        m, x = nn.conv.ConvSym(2, 3, (3, 3), d.pick([nn.conv.kernel_d4, nn.conv.kernel_equidist, None], "symmetry"), rngs=rngs), r(2, 4, 3, 2)
    elif k == "gauss":
        m = nn.embeddings.KernelGauss(d.int(2, 5, "features"), val_range=d.pick([None, (-1.0, 2.0)], "range"), norm=d.bool("norm"), rngs=rngs)
        x = r(3) * d.pick([1.0, 30.0], "distance")
    elif k == "lin":
        m, x = nn.embeddings.KernelLin(4, val_range=(-2.0, 2.0), rngs=rngs), r(3)
    elif k == "fourier":
        m, x = nn.embeddings.KernelFourier(d.pick([5, 21], "count"), rngs=rngs), r(3)
    elif k == "reduced":
        m, x = nn.embeddings.KernelReduced(nn.embeddings.KernelFourier(5), 3, rngs=rngs), r(3)
    elif k == "positional":
        m, x = nn.embeddings.PositionalEmbedding(4, append_input=d.bool("append"), max_positions=50.0, rngs=rngs), r(3)
    elif k == "features":
        c = d.int(1, 2, "channels")
        m = nn.features.ConcatFeatures([nn.features.FourierFeatures(3, c, rngs=rngs), nn.features.PolynomialFeatures([1, 2], c, rngs=rngs)])
        x, more = r(2, 4, c), (r(5 * c, c),)
    else:
        ch = d.pick([(), (2,)], "channels")
        m = bijx.ConvVF.build((3, 3), ch, time_kernel=nn.embeddings.KernelGauss(3, rngs=rngs), time_kernel_reduced=d.pick([None, 2], "reduced time"),
                              features=(partial(nn.features.FourierFeatures, 3), partial(nn.features.PolynomialFeatures, (1,))),
                              features_reduced=d.pick([None, 2], "reduced features"), rngs=rngs)
        x = r(2, 3, 4, *ch)
    m = jx.leaves_random(m, g, 0.6) if k not in ("lin", "fourier", "positional", "gauss") else m
    gd, s = module(m)

    def run(a):
        n = nnx.merge(gd, a[0])
        return n(0.3, a[1]) if k == "convvf" else n(a[1], *a[2:])

    ok = both(d, run, (s, x, *more), k, rtol=1e-4)
    d.note(network=k)
    return ok


@facet(quick=30, thorough=400, shards=2, tshards=4)
def diagnostics(d):
    g = d.gen("weights")
    k = d.pick(["ess", "dkl", "average", "imh"], "function")
    n = d.pick([1, 2, 9, 100], "count")
    t, s = g.standard_normal((2, n)) * d.pick([1.0, 5.0, 0.0], "spread") + d.pick([0.0, 50.0, -300.0], "offset")
    if k == "ess":
        f, args = lambda a: bijx.effective_sample_size(*a), (t, s)
    elif k == "dkl":
        f, args = lambda a: bijx.reverse_dkl(*a), (t, s)
    elif k == "average":
        w = d.int(1, 12, "window")
        f, args = lambda a: bijx.moving_average(a[0], w), (t,)
    else:
        key = d.key()
        with jax.enable_x64(False):
            m = np.asarray(g.standard_normal(2), np.float32)
            imh = bijx.IMH(bijx.IndependentNormal((2,)), lambda x: -jnp.sum((x - m) ** 2))
            k0, k1 = jax.random.split(key)
            s0 = imh.init(k0)
            s1, info = imh.step(k1, s0)
            q = lambda z: [np.asarray(v, float) for v in (z.position, z.log_prob_target, z.log_prob_proposal)]
            a, b, p = q(s0), q(s1), q(info.proposal)
            acc, prob = bool(info.is_accepted), float(info.accept_prob)
        for st, what in ((a, "initial state"), (b, "new state"), (p, "proposal")):
            must(abs(st[1] + ((st[0] - m.astype(float)) ** 2).sum()) < 1e-4 * (1 + abs(st[1])), f"{what}: target log-density", got=st)
            must(abs(st[2] + 0.5 * (st[0] ** 2).sum() + np.log(2 * np.pi)) < 1e-4 * (1 + abs(st[2])), f"{what}: proposal log-density", got=st)
        want = min(1.0, np.exp((p[1] - p[2]) - (a[1] - a[2])))
        must(abs(prob - want) < 1e-4, "acceptance probability", got=prob, want=want)
        must(np.array_equal(b[0], p[0] if acc else a[0]), "the new state is the proposal if accepted, else the old one")
        d.note(function=k)
        return True
    ok = both(d, f, args, k, rtol=1e-4)
    d.note(function=k, count=n)
    return ok
