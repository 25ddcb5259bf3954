"""Cases: specifications, shapes and arguments drawn at random, either consistent or with one inconsistency: parameter specifications,
missing random keys, dimensions of means and covariances, shapes given to reshaping, masks, coupling layers and rebuilt modules,
integration schemes and their states, FlowJAX conversions, symmetry groups and kernels, lattice functions, Fourier representations,
group functions.  Oracle: the inconsistent one raises an exception at construction or on first use, the consistent one does not.
Non-trivial: the specification is inconsistent."""
import bijx
import jax
import jax.numpy as jnp
import numpy as np
from bijx import cg, lie
from flax import nnx

from vf import facet, fail, must, shape, zoo


def accepts(f, what, **ctx):
    try:
        return jax.block_until_ready(f())
    except Exception as e:  # noqa: BLE001
        fail(f"{what}: a consistent specification is rejected", error=f"{type(e).__name__}: {e}"[:300], **ctx)


def rejects(f, what, **ctx):
    try:
        r = f()
    except Exception:  # noqa: BLE001
        return
    fail(f"{what}: an inconsistent specification is accepted", result=jax.tree.map(jnp.shape, r) if not isinstance(r, nnx.Module) else type(r).__name__, **ctx)


def decide(valid, f, what, **ctx):
    r = (accepts if valid else rejects)(f, what, **ctx)
    return r


def other(d, n, name, low=1):
    """a number near n, but not n"""
    return d.pick([k for k in (n - 2, n - 1, n + 1, n + 2, 2 * n) if k >= low and k != n], name)


# ------------------------------------------------------------------------------------------ parameters and keys
@facet(quick=60, thorough=800, tshards=2)
def parameters(d):
    g = d.gen("p").spawn(1)[0]
    sh = d.pick([(), (3,), (2, 3)], "shape")
    rngs = nnx.Rngs(int(g.integers(1000)))
    good = d.bool("consistent")
    if good:
        spec = d.pick([g.standard_normal(sh) if sh else np.ones(()), jnp.ones(sh), sh, nnx.Param(jnp.ones(sh)), nnx.Variable(jnp.ones(sh)), bijx.Const(jnp.ones(sh))], "specification")
    else:
        spec = d.pick(["ones", 1.5, 3, None, (1.5, 2), (2, -1), {}, {"scale": 1}, object(), nnx.initializers.ones, ("a",), True], "specification")
    target = d.pick(["AffineLinear", "Shift", "Scaling", "IndependentNormal", "wrap"], "target")
    ctx = dict(specification=str(spec)[:60])
    if target == "wrap":
        decide(good, lambda: bijx.utils.default_wrap(spec, rngs=rngs), "parameter", **ctx)
    elif target == "AffineLinear":
        decide(good, lambda: bijx.AffineLinear(jnp.ones(sh), spec, rngs=rngs), "AffineLinear, shift", **ctx)
        if d.bool("scale"):
            decide(good, lambda: bijx.AffineLinear(spec, jnp.ones(sh), rngs=rngs), "AffineLinear, scale", **ctx)
    elif target == "Shift":
        decide(good, lambda: bijx.Shift(spec, rngs=rngs), "Shift", **ctx)
    elif target == "Scaling":
        decide(good, lambda: bijx.Scaling(spec, rngs=rngs), "Scaling", **ctx)
    else:
        if good or spec is None:
            spec, good = (2, 3), True
        decide(good, lambda: bijx.DiagonalNormal(jnp.ones(3) if good else spec, rngs=rngs), "DiagonalNormal", **ctx)
    if not good or isinstance(spec, tuple):
        s = sh or (2,)
        rejects(lambda: bijx.Shift(s), "a shape without random numbers to initialise from", shape=s)
    d.note(target=target, good=good, spec=str(spec)[:40])
    return not good


@facet(quick=40, thorough=400, tshards=2)
def keys(d):
    from vf.dist import distribution

    m, kind, ev, own = distribution(d)
    batch = d.pick([(), (2,), (2, 3)], "batch")
    key = d.key()
    x, l = accepts(lambda: m.sample(batch, rng=key), f"{kind}: sample with a key")
    must(np.shape(l) == batch, f"{kind}: shape of the log-density", got=np.shape(l), want=batch)
    if own:
        a = accepts(lambda: m.sample(batch), f"{kind}: sample with numbers of its own")
        must(not any(np.array_equal(u, v) for u, v in zip(jax.tree.leaves(a[0]), jax.tree.leaves(m.sample(batch)[0])) if np.size(u)), f"{kind}: the same sample twice")
    else:
        rejects(lambda: m.sample(batch), f"{kind}: sample without any random numbers")
        rejects(lambda: bijx.Transformed(m, bijx.Tanh()).sample(batch), f"transformed {kind}: sample without any random numbers")
    d.note(kind=kind, own=own)
    return not own


@facet(quick=60, thorough=600, tshards=2)
def normals(d):
    """dimensions of mean, covariance, scales"""
    g = d.gen("n").spawn(1)[0]
    n = d.int(1, 4, "dim")
    good = d.bool("consistent")
    rngs = nnx.Rngs(int(g.integers(1000)))
    k = d.pick(["cholesky", "covariance", "not square", "diagonal", "cholesky size"], "what")

    def use(m):
        return m.sample((2,), rng=jax.random.key(0)), m.log_density(jnp.zeros((3, n)))

    if k == "cholesky":
        m = n if good else other(d, n, "other")
        decide(good, lambda: use(bijx.MultivariateNormal(jnp.zeros(n), jnp.ones(m * (m + 1) // 2))), "mean and triangular part", dim=n, got=m)
    elif k == "cholesky size":
        full = n * (n + 1) // 2
        m = full if good else d.int(1, 14, "size")
        good = m == full
        decide(good, lambda: use(bijx.MultivariateNormal(jnp.zeros(n), jnp.ones(m))), "number of triangular entries", dim=n, got=m)
    elif k == "covariance":
        m = n if good else other(d, n, "other")
        as_shape = d.bool("as shape")
        decide(good, lambda: use(bijx.MultivariateNormal.given_cov(jnp.zeros(n), (m, m) if as_shape else jnp.eye(m), rngs=rngs)), "mean and covariance", dim=n, got=m)
    elif k == "not square":
        m = n if good else other(d, n, "other")
        if n == 1 or m == 1:
            n, m = 2, 2 if good else 3
        as_shape = d.bool("as shape")
        decide(good, lambda: bijx.MultivariateNormal.given_cov(jnp.zeros(m), (n, m) if as_shape else jnp.ones((n, m)) + jnp.eye(n, m), rngs=rngs), "rows and columns of a covariance", rows=n, columns=m)
    else:
        m = n if good else other(d, n, "other")
        decide(good, lambda: use(bijx.DiagonalNormal(jnp.zeros(n), jnp.ones(m))), "mean and scales", dim=n, got=m)
    d.note(what=k, n=n, m=m, good=good)
    return not good


# ------------------------------------------------------------------------------------------ bijections
@facet(quick=60, thorough=600, tshards=2)
def shapes(d):
    """reshaping and masking"""
    good = d.bool("consistent")
    batch = d.pick([(), (2,)], "batch")
    k = d.pick(["sizes", "event", "image", "mask product", "mask rank"], "what")
    a = d.pick([(2, 3), (6,), (3, 2, 1), (4, 3), (2, 2, 3)], "shape")
    n = int(np.prod(a))
    forms = [s for s in [(n,), (1, n), (2, n // 2), (n // 2, 2), (n // 3, 3), (3, n // 3)] if np.prod(s) == n]
    b = d.pick(forms, "other shape")
    ld = jnp.zeros(batch)
    if k == "sizes":
        b = b if good else b[:-1] + (b[-1] + d.int(1, 2, "more"),)
        decide(good, lambda: bijx.Reshape(a, b).forward(jnp.ones(batch + a), ld), "Reshape, sizes", old=a, new=b)
        decide(good, lambda: bijx.Reshape(a, b).reverse(jnp.ones(batch + b), ld), "Reshape, sizes, inverse", old=a, new=b)
    elif k in ("event", "image"):
        src = a if k == "event" else b
        x = src if good else d.pick([s for s in [src[::-1], src[1:], (n,), src[:-1] + (src[-1] + 1,), src[:-1] + (1,)] if s != src and (batch + s)[-len(src):] != src], "input")
        r = bijx.Reshape(a, b)
        decide(good, lambda: (r.forward if k == "event" else r.reverse)(jnp.ones(batch + x), ld), f"Reshape, {k}", old=a, new=b, input=batch + x)
    elif k == "mask rank":
        m = bijx.checker_mask(a, d.bool("parity"))
        x = batch + a if good else a[d.int(1, len(a), "dropped"):]
        decide(good, lambda: jnp.ones(x) * m, "array times mask", mask=a, array=x)
    else:
        a = a if a[-1] > 1 else a[:-1]  # an axis of length one would be broadcast
        m = bijx.checker_mask(a, d.bool("parity"))
        x = a if good else a[:-1] + (a[-1] + d.pick([1, 2], "more"),)
        decide(good, lambda: m * jnp.ones(batch + x), "mask times array", mask=a, array=batch + x)
        decide(good, lambda: jnp.ones(batch + x) * m, "array times mask", mask=a, array=batch + x)
    d.note(what=k, good=good, shape=a)
    return not good


@facet(quick=24, thorough=300, shards=2, tshards=4)
def couplings(d):
    good = d.bool("consistent")
    split = d.bool("split")
    ms = d.pick([(4,), (6,), (2, 3), (4, 2)], "mask shape")
    m = bijx.checker_mask(ms, d.bool("parity"))
    wrong = None if good else d.pick(["rank", "count", "entries"], "what is wrong")
    rank = 0
    if wrong == "rank":
        rank = d.int(2, 3, "rank") if split else len(ms) + d.int(1, 2, "more")
    inner = bijx.AffineLinear(jnp.ones(()), jnp.zeros(()))
    rec = bijx.ModuleReconstructor(inner)
    active, passive = m.counts if hasattr(m, "counts") else (m.count_primary, m.count_secondary)
    p = 2 if wrong != "count" else d.pick([1, 3, 4], "parameters")
    q = (active,) if split else ms
    if wrong == "entries":
        q = q[:-1] + (q[-1] + d.int(1, 2, "more"),)

    def net(x):
        lead = x.shape[: x.ndim - (1 if split else len(ms))]
        return jnp.ones(lead + q + (p,)) * (1 + jnp.sum(x))

    batch = d.pick([(), (3,)], "batch")
    layer = lambda: bijx.GeneralCouplingLayer(net, m, rec, bijection_event_rank=rank, split=split)
    x = jnp.ones(batch + ms)
    ctx = dict(split=split, mask=ms, rank=rank, parameters=q + (p,))
    decide(good, lambda: layer().forward(x, jnp.zeros(batch)), "coupling layer", **ctx)
    decide(good, lambda: layer().reverse(x, jnp.zeros(batch)), "coupling layer, reverse", **ctx)
    d.note(wrong=wrong, **ctx)
    return not good


@facet(quick=50, thorough=500, tshards=2)
def rebuilt(d):
    """parameters given to rebuild a module"""
    k, l = d.int(1, 3, "scales"), d.int(1, 3, "shifts")
    b = bijx.AffineLinear(jnp.ones(k), jnp.zeros(l)) if d.bool("affine") else bijx.Chain(bijx.Scaling(jnp.ones(k)), bijx.Shift(jnp.ones(l)))
    rec = bijx.ModuleReconstructor(b)
    good = d.bool("consistent")
    form = d.pick(["array", "list", "dict", "type"], "form")
    if form == "array":
        n = k + l if good else other(d, k + l, "size")
        decide(good, lambda: rec.from_params(jnp.ones(n)), "array of parameters", size=n, expected=k + l)
    elif form == "list":
        ls = [jnp.ones(np.shape(p)) for p in rec.params_leaves]
        if not good:
            ls = d.pick([ls[:1], ls + ls[:1], [], ls + ls], "list")
        decide(good, lambda: rec.from_params(ls), "list of parameters", length=len(ls), expected=2)
    elif form == "dict":
        ps = jax.tree.map(lambda v: v, rec.params_dict)
        if not good:
            ps = {**ps, "another": jnp.ones(2)}
        decide(good, lambda: rec.from_params(ps), "dictionary of parameters", names=list(ps))
    else:
        p = d.pick(["scale", 1.0, None, (jnp.ones(k), jnp.ones(l)), 3], "type") if not good else jnp.ones(k + l)
        decide(good, lambda: rec.from_params(p), "type of the parameters", type=type(p).__name__)
    d.note(form=form, good=good)
    return not good


# ------------------------------------------------------------------------------------------ integration
@facet(quick=60, thorough=600, tshards=2)
def schemes(d):
    """explicit Runge-Kutta schemes"""
    g = d.gen("scheme").spawn(1)[0]
    s = d.int(1, 4, "stages")
    a = np.tril(g.standard_normal((s, s)), -1)
    b = g.standard_normal(s)
    b = b + (1 - b.sum()) / s
    wrong = d.pick([None, None, "sum", "length", "columns", "implicit", "rows"], "what is wrong")
    a, b = a.tolist(), b.tolist()
    if wrong == "sum":
        b[d.int(0, s - 1, "entry")] += d.pick([0.5, -1.0, 1e-2], "change")
    elif wrong == "length":
        b = b + [0.0] if d.bool("longer") or s == 1 else b[:-2] + [b[-1] + b[-2]]
    elif wrong == "columns":
        i = d.int(0, s - 1, "row")
        a[i] = a[i] + [0.0] if d.bool("more") or s == 1 else a[i][:-1]
    elif wrong == "rows":
        a = a + [[0.0] * s]
    elif wrong == "implicit":
        i = d.int(0, s - 1, "row")
        a[i][d.int(i, s - 1, "column")] = d.pick([0.5, 1e-3, -2.0], "entry")
    decide(wrong is None, lambda: cg.ButcherTableau(a, b), "scheme", a=a, b=b, wrong=wrong)
    d.note(stages=s, wrong=wrong)
    return wrong is not None


@facet(quick=30, thorough=300, tshards=2)
def states(d):
    """states, velocities and arguments of integrators"""
    n = d.int(2, 3, "dim")
    solver = d.pick(["rk4", "cg"], "solver")
    wrong = d.pick([None, None, "velocity", "argument", "structure"], "what is wrong")
    y = jnp.eye(n) * 1.0
    arg = d.pick(["text", None, object()][:1] + [print], "argument") if wrong == "argument" else 0.5
    if wrong == "velocity":
        vf = lambda t, y, a: jnp.zeros((n + 1, n + 1)) * t
    elif wrong == "structure":
        vf = lambda t, y, a: (y, y)
    else:
        vf = lambda t, y, a: -y * (a if not callable(a) and not isinstance(a, str) else 1.0)
    if solver == "rk4":
        run = lambda: bijx.odeint_rk4(vf, y, 0.5, arg, step_size=0.25)
    else:
        mt = d.pick([cg.Euclidean(), cg.Matrix(), cg.Unitary()], "manifold")
        run = lambda: cg.crouch_grossmann(vf, y, arg, 0.0, 0.5, 0.25, mt)
    decide(wrong is None, run, f"{solver}, state, velocity and arguments", wrong=wrong)
    if d.bool("projection"):
        deriv = d.pick([dict(project_step=True), dict(project_stage=True), dict()], "derivative")
        transport = d.bool("transport")
        decide(transport or not deriv, lambda: cg.Unitary(transport_adjoint=transport, derivative=cg.UnitaryDeriv(**deriv)), "projection of the adjoint", derivative=deriv, transport=transport)
    d.note(solver=solver, wrong=wrong)
    return wrong is not None


# ------------------------------------------------------------------------------------------ FlowJAX
@facet(quick=40, thorough=400, tshards=2)
def conversions(d):
    from bijx.flowjax import from_flowjax, to_flowjax

    class Cond(bijx.Bijection):
        def forward(self, x, log_density, condition=None, **kwargs):
            return x + (0 if condition is None else jnp.sum(condition)), log_density

        def reverse(self, x, log_density, condition=None, **kwargs):
            return x - (0 if condition is None else jnp.sum(condition)), log_density

    k = d.pick(["shape", "condition", "type"], "what")
    good = d.bool("consistent")
    dist = d.bool("distribution")
    ev = d.pick([(), (3,), (2, 2)], "event")
    m = bijx.IndependentNormal(ev, rngs=nnx.Rngs(0)) if dist else Cond()
    if k == "shape":
        decide(good, lambda: to_flowjax(m, shape=ev if good else None) and None, "conversion to FlowJAX, shape", shape=ev if good else None)
    elif k == "type":
        t = d.pick([None, 3, "bijection", jnp.ones(2), {}, lambda x: x, object()], "object")
        if not good:
            rejects(lambda: to_flowjax(t, shape=ev) and None, "conversion to FlowJAX of something else", type=type(t).__name__)
            rejects(lambda: from_flowjax(t) and None, "conversion from FlowJAX of something else", type=type(t).__name__)
        else:
            f = accepts(lambda: to_flowjax(m, shape=ev), "conversion to FlowJAX")
            accepts(lambda: from_flowjax(f) and None, "conversion back")
    else:
        cs = d.pick([(), (2,), (2, 3)], "condition shape")
        given = cs if good else d.pick([s for s in [(3,), (3, 2), (1,), (2, 2), (2, 1), (4, 3)] if cs and s != cs and s[-len(cs):] != cs] or ["none declared"], "condition")
        none = given == "none declared"
        f = to_flowjax(Cond(), shape=ev, cond_shape=None if none else cs)
        c = jnp.ones(() if none else given)
        for call in (f.transform_and_log_det, f.inverse_and_log_det):
            decide(good, lambda: call(jnp.ones(ev), c), "condition of a converted bijection", declared=None if none else cs, given=np.shape(c))
    d.note(what=k, good=good)
    return not good


# ------------------------------------------------------------------------------------------ kernels, lattices, groups
@facet(quick=80, thorough=800, tshards=2)
def lattices(d):
    g = d.gen("l").spawn(1)[0]
    good = d.bool("consistent")
    k = d.pick(["rotation", "resize", "fold", "positional", "outer", "correlation", "plaquettes", "representation", "contract", "matching", "grid", "axis", "directions"], "what")
    conv, sc = bijx.nn.conv, bijx.lattice.scalar
    n = d.int(2, 4, "size")
    dim = d.int(1, 3, "dimension")
    if k == "rotation":
        s = [n] * max(dim, 2)
        if not good:
            s[d.int(0, len(s) - 1, "axis")] += d.int(1, 2, "more")
        decide(good, lambda: conv.kernel_d4(tuple(s)) and None, "rotation symmetry", shape=s)
    elif k == "resize":
        w = np.ones((3,) * dim + (1, 2))
        new = (5,) * (dim if good else other(d, dim, "other"))
        decide(good, lambda: conv.resize_kernel_weights(w, new), "new shape of a kernel", kernel=w.shape, new=new)
    elif k == "fold":
        o, orbits = conv.kernel_equidist((3,) * dim)
        w = np.ones(((3,) * dim if good else (3,) * (dim - 1) + (4,)) + (1, 2))
        decide(good, lambda: conv.fold_kernel(w, orbits, o), "kernel and its orbits", kernel=w.shape, orbits=orbits.shape)
    elif k == "positional":
        m = 2 * n + (not good)
        decide(good, lambda: bijx.nn.embeddings.PositionalEmbedding(m), "number of features of a positional embedding", count=m)
    elif k in ("outer", "correlation"):
        s = tuple(int(v) for v in g.integers(1, 5, dim))
        t = s if good else d.pick([v for v in [s[::-1], s[:-1] + (s[-1] + 1,), (s[0] + 1,) + s[1:], s[1:]] if v != s], "second shape")
        if k == "outer":
            decide(good, lambda: sc.cyclic_corr_mat(jnp.ones(s + t)), "matrix of correlations", first=s, second=t)
        else:
            f = d.pick([sc.cyclic_corr, sc.cyclic_tensor], "function")
            decide(good, lambda: f(jnp.ones(s), jnp.ones(t)), "fields of a correlation", first=s, second=t)
    elif k == "plaquettes":
        D = d.int(2, 3, "directions")
        lead = (2,) * (D if good else d.int(0, D - 1, "extents"))
        decide(good, lambda: bijx.lattice.gauge.wilson_action(jnp.ones(lead + (D, n, n), complex), 1.0), "links of a lattice", shape=lead + (D, n, n))
    elif k == "representation":
        z = bijx.fourier.FourierData.from_real(jnp.ones((n,) * dim), (n,) * dim)
        rep = d.pick(list(bijx.fourier.FFTRep), "representation") if good else d.pick(["real", 17, "rfft", 2.5], "representation")
        decide(good, lambda: z.to(rep).data, "Fourier representation", representation=str(rep))
    elif k == "contract":
        u, v = (3, n, n), (3, n, n) if good else d.pick([(n,), (3, n + 1, n + 1), (3, n + 1, n), (), (n + 1, n)], "shape")
        decide(good, lambda: lie.contract(jnp.ones(u), jnp.ones(v), trace=d.bool("trace")), "product of matrices", first=u, second=v)
    elif k == "matching":
        N = 2 if good else 3
        u = jnp.eye(N, dtype=complex)
        f = d.pick([lie.path_grad, lie.path_div], "function")
        vf = (lambda u: jnp.real(jnp.trace(u))) if f is lie.path_grad else (lambda u: jnp.stack([jnp.real(jnp.trace(lie.SU2_GEN[i] @ (u[:2, :2]))) for i in range(3)]))
        decide(good, lambda: f(vf, lie.SU2_GEN, u), "group and generators", group=N)
    elif k == "grid":
        m = d.int(2, 3, "n") if good else d.pick([1, 0, -1], "n")
        decide(good, lambda: lie.create_eigenvalue_grid(m, 5), "size of the group", n=m)
    elif k == "axis":
        D = 2
        ax = d.pick([0, 1], "axis") if good else d.pick([5, 6, 9, -8], "axis")
        decide(good, lambda: bijx.lattice.gauge.flip_axis(jnp.ones((2, 3, D, n, n), complex), ax), "axis of a reflection", axis=ax)
    else:
        info = bijx.utils.ShapeInfo(event_shape=(n, 3)) if d.bool("known") else bijx.utils.ShapeInfo(event_dim=2)
        known = info.event_shape is not None
        x = (2, n, 3) if good or not known else d.pick([(2, 3, n + 4), (3,), (n + 1, 3), (n, 1)], "shape")
        decide(good or not known, lambda: info.process_event(x) and None, "event shape", shape=x, known=known)
        rejects(lambda: bijx.utils.ShapeInfo().process_event(x) and None, "event of unknown dimension", shape=x)
    d.note(what=k, good=good)
    return not good
