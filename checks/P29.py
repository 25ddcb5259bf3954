"""Cases: bijections of every kind and compositions of them, distributions of every kind, parameter specifications (arrays,
shapes, variables of several classes), frozen and fixed parts at several depths, noise with all kinds of filters.  Oracle: the
direct call in python, a snapshot of all state bit by bit, and what each specification documents.  Non-trivial: an object with
parameters, or a composition."""
import copy
from functools import partial

import bijx
import jax
import jax.numpy as jnp
import numpy as np
from bijx import cg
from bijx.fourier import FFTRep
from flax import nnx

from vf import bij, close, facet, fail, jx, must, shape
from vf.dist import distribution


def snapshot(m):
    s = m if isinstance(m, nnx.State) else nnx.state(m)
    return {tuple(map(str, p)): (type(v).__name__ if isinstance(v, nnx.Variable) else "array", jx.host(v).copy()) for p, v in nnx.to_flat_state(s)}


def unchanged(before, m, what, cast=False):
    now = snapshot(m)
    must(set(now) == set(before), f"{what}: variables appear or disappear", got=sorted(now), expected=sorted(before))
    for k, (c, v) in before.items():
        c2, v2 = now[k]
        must(c == c2 and v.shape == v2.shape and (cast or v.dtype == v2.dtype) and np.array_equal(v, v2, equal_nan=v.dtype.kind in "fc"), f"{what}: variable {k} altered", got=v2, expected=v)


def data(out):
    """arrays of a result that may be a pytree"""
    return [np.asarray(v) for v in jax.tree.leaves(out)]


def same(got, want, what, rtol):
    a, b = data(got), data(want)
    must(len(a) == len(b), f"{what}: other structure")
    for u, v in zip(a, b):
        must(u.shape == v.shape, f"{what}: shape {u.shape}, expected {v.shape}")
        must(u.dtype == v.dtype, f"{what}: dtype {u.dtype}, expected {v.dtype}")
        if u.size == 0:
            continue
        big = max(1.0, float(np.abs(v[np.isfinite(v)]).max(initial=0)))
        if not np.isfinite(v).all():
            must(np.array_equal(np.isfinite(u), np.isfinite(v)), f"{what}: finite in one way of evaluation only", got=u, expected=v)
            u, v = np.where(np.isfinite(v), u, 0), np.where(np.isfinite(v), v, 0)
        close(u, v, what, rtol=rtol, atol=rtol * big)


def identical(got, want, what):
    a, b = data(got), data(want)
    must(len(a) == len(b) and all(u.shape == v.shape and np.array_equal(u, v, equal_nan=True) for u, v in zip(a, b)), what, got=got, expected=want)


# ------------------------------------------------------------------------------------------ ways of evaluation
def composed(d):
    """a bijection, alone or inside of wrappers that leave its meaning alone"""
    c = bij.draw_case(d)
    w = d.pick(["none", "none", "chain", "frozen", "inverse", "list"], "around")
    b = c.b
    if w == "chain":
        b = bijx.Chain(bijx.Chain(c.b))
    elif w == "frozen":
        b = bijx.Frozen(c.b)
    elif w == "inverse":
        b = bijx.Inverse(bijx.Inverse(c.b))
    elif w == "list":
        b = bijx.Chain(bijx.Frozen(bijx.Chain(c.b)))
    return c._replace(b=b), w


@nnx.jit
def nnx_forward(b, x, ld, kw):
    return b.forward(x, ld, **kw)


@nnx.jit
def nnx_reverse(b, x, ld, kw):
    return b.reverse(x, ld, **kw)


@partial(jax.jit, static_argnums=(0, 5))
def split_call(g, params, rest, x, ld, reverse, kw):
    b = nnx.merge(g, params, rest)
    return (b.reverse if reverse else b.forward)(x, ld, **kw)


@facet(16, 300, shards=4)
def bijections(d):
    c, around = composed(d)
    g = d.gen("data").spawn(1)[0]
    batch = d.pick([(3,), (2, 2), (2,)], "batch")
    x = jnp.asarray(c.sample(g, batch))
    ld = jnp.asarray(g.standard_normal(batch))
    before = snapshot(c.b)
    kw = dict(c.kwargs)
    a, e = nnx.graphdef(c.b), nnx.graphdef(nnx.clone(c.b))
    must(hash(a) == hash(e) and a == e, f"{c.name}: the static part of a copy is another one, so that it would be compiled again")
    for reverse in (False, True):
        what = f"{c.name} {'reverse' if reverse else 'forward'}"
        if reverse:
            x, ld = ref
        f = c.b.reverse if reverse else c.b.forward
        x0 = jax.tree.map(lambda v: np.array(v), x)
        ref = f(x, ld, **kw)
        identical(f(x, ld, **kw), ref, f"{what}: a repeated call gives another result")
        unchanged(before, c.b, f"{what}, called")
        identical(x, x0, f"{what}: input altered")
        rt = c.rtol
        same((nnx_reverse if reverse else nnx_forward)(c.b, x, ld, kw), ref, f"{what}, under nnx.jit", rt)
        unchanged(before, c.b, f"{what}, called under nnx.jit", cast=True)
        gd, p, rest = nnx.split(c.b, nnx.Param, ...)
        same(split_call(gd, p, rest, x, ld, reverse, kw), ref, f"{what}, split and compiled", rt)
        merged = nnx.merge(gd, p, rest)
        identical((merged.reverse if reverse else merged.forward)(x, ld, **kw), ref, f"{what}: result after split and merge differs")
        kind = d.pick(["clone", "deepcopy", "inverse twice", "closure", "by inverse"], "copy")
        if kind == "closure":
            if around != "inverse":
                same(jax.jit(lambda x, l: f(x, l, **kw))(x, ld), ref, f"{what}, compiled with the bijection closed over", rt)
        elif kind == "by inverse":
            same(nnx.merge(*nnx.split(c.b)).invert().invert().forward(x, ld, **kw) if not reverse else c.b.invert().forward(x, ld, **kw), ref, f"{what} by way of its inverse", rt)
        else:
            other = nnx.clone(c.b) if kind == "clone" else copy.deepcopy(c.b) if kind == "deepcopy" else c.b.invert().invert()
            identical((other.reverse if reverse else other.forward)(x, ld, **kw), ref, f"{what} of a {kind}: other result")
            if kind != "inverse twice":
                a = {id(v) for _, v in nnx.iter_graph(c.b) if isinstance(v, nnx.Variable)}
                must(not any(id(v) in a for _, v in nnx.iter_graph(other) if isinstance(v, nnx.Variable)), f"{kind} of {c.name} shares variables")
        # over the samples
        v = f
        for _ in batch:
            v = jax.vmap(v)
        lead = len(batch)
        if all(len(np.shape(l)) >= lead for l in jax.tree.leaves(x)):
            got = jax.jit(lambda x, l: jax.tree.map(lambda t: t, _vmapped(c.b, reverse, kw, lead)(x, l)))(x, ld) if d.bool("compiled") else _vmapped(c.b, reverse, kw, lead)(x, ld)
            same(got, ref, f"{what}, vectorised over samples", max(rt, 1e-10))
        unchanged(before, c.b, f"{what}, evaluated in all ways")
    d.note(bijection=c.name, around=around)
    return len(before) > 0


def _vmapped(b, reverse, kw, lead):
    f = lambda x, l: (b.reverse if reverse else b.forward)(x, l, **kw)
    for _ in range(lead):
        f = jax.vmap(f)
    return f


class Indexed(nnx.Module):
    """velocity field with index, mask and key arrays in its state besides its parameters"""

    def __init__(self, n, g):
        self.field = bij.Field(n, g)
        self.order = jnp.asarray(g.permutation(n))
        self.mask = nnx.Variable(jnp.asarray(g.integers(0, 2, n) > 0))
        self.key = jax.random.key(int(g.integers(1000)))

    def __call__(self, t, x, rate=0.0):
        v = self.field(t, x, rate=rate)[..., self.order]
        return jnp.where(self.mask.get_value(), v, 0.5 * x) + 0.1 * jax.random.normal(self.key, x.shape[-1:], x.dtype)


def indexed_flow(d):
    n, g = d.int(1, 3, "dim"), d.gen("flow")
    vf = bijx.AutoJacVF(Indexed(n, g), event_dim=1)
    b = bijx.ContFlowRK4(vf, steps=4) if d.bool("rk4") else bijx.ContFlowCG(vf, cg.Euclidean(), steps=4, tableau=cg.CG2)
    return bij.Case("flow with index arrays", b, (n,), bij.normal((n,)), {}, inv=5e-2)


@facet(6, 200, shards=4)
def differentiated(d):
    """derivatives of a loss by inputs and parameters, with every leaf of the module's state an argument of the compiled function"""
    k = d.pick(["any", "any", "flow", "indexed"], "kind")
    if k != "any":
        c = bij.flow(d) if k == "flow" else indexed_flow(d)
    else:
        c = composed(d)[0]
    g = d.gen("data").spawn(1)[0]
    x, ld = jnp.asarray(c.sample(g, (3,))), jnp.asarray(g.standard_normal(3))
    kw = dict(c.kwargs)
    reverse = d.bool("reverse")
    if reverse:
        x, ld = c.b.forward(x, ld, **kw)
    what = f"{c.name} {'reverse' if reverse else 'forward'}, derivative"
    if not (isinstance(x, jax.Array) and jnp.issubdtype(x.dtype, jnp.floating)):
        return False

    def loss(b, x, ld):
        y, l = (b.reverse if reverse else b.forward)(x, ld, **kw)
        return sum(jnp.sum(jnp.cos(jnp.arange(v.size).reshape(v.shape)) * jnp.real(v)) for v in [*jax.tree.leaves(y), l])

    gd, p, rest = nnx.split(c.b, nnx.Param, ...)
    pure = lambda p, rest, x, ld: loss(nnx.merge(gd, p, rest), x, ld)
    ref = jax.grad(pure, argnums=(0, 2, 3))(p, rest, x, ld)
    how = d.pick(["nnx.jit of nnx.grad", "nnx.grad of nnx.jit", "jit of grad", "grad of jit", "scan", "map"], "how")
    before = snapshot(c.b)
    args = (nnx.DiffState(0, nnx.Param), 1, 2)
    if how == "nnx.jit of nnx.grad":
        got = nnx.jit(nnx.grad(loss, argnums=args))(c.b, x, ld)
    elif how == "nnx.grad of nnx.jit":
        got = nnx.grad(nnx.jit(loss), argnums=args)(c.b, x, ld)
    elif how == "jit of grad":
        got = jax.jit(jax.grad(pure, argnums=(0, 2, 3)))(p, rest, x, ld)
    elif how == "grad of jit":
        got = jax.grad(jax.jit(pure), argnums=(0, 2, 3))(p, rest, x, ld)
    else:
        over = (lambda f, a: jax.lax.map(lambda v: f(*v), a)) if how == "map" else (lambda f, a: jax.lax.scan(lambda k, v: (k, f(*v)), 0, a)[1])
        two = jax.tree.map(lambda v: jnp.stack([v, v]), (p, rest, x, ld))
        got = jax.tree.map(lambda v: v[1], over(jax.grad(pure, argnums=(0, 2, 3)), two))
    same(got, ref, f"{what}, {how}", max(c.rtol, 1e-8))
    unchanged(before, c.b, f"{what}, {how}", cast=True)
    d.note(bijection=c.name, how=how)
    return any(np.any(np.asarray(v) != 0) for v in jax.tree.leaves(ref[0]))


@facet(12, 250, shards=2)
def over_parameters(d):
    """a stack of parameter sets evaluated with vmap or scan over the state equals the members one by one"""
    c, around = composed(d)
    g = d.gen("data").spawn(1)[0]
    x = jnp.asarray(c.sample(g, (2,)))
    ld = jnp.asarray(g.standard_normal(2))
    kw = dict(c.kwargs)
    gd, s = nnx.split(c.b)
    leaves = jax.tree.leaves(s)
    fl = [l for l in leaves if jnp.issubdtype(jnp.asarray(l).dtype, jnp.floating)]
    if not fl:
        return False
    s = jax.tree.map(jnp.asarray, s)
    eps = [jax.tree.map(lambda l: l + 0.02 * g.standard_normal(l.shape) * jnp.abs(l) if jnp.issubdtype(l.dtype, jnp.floating) else l, s) for _ in range(3)]
    stack = jax.tree.map(lambda *v: jnp.stack(v), *eps)
    refs = [nnx.merge(gd, e).forward(x, ld, **kw) for e in eps]
    one = lambda s: nnx.merge(gd, s).forward(x, ld, **kw)
    how = d.pick(["vmap", "scan", "map", "nnx.vmap"], "how")
    if how == "vmap":
        got = jax.vmap(one)(stack)
    elif how == "map":
        got = jax.lax.map(one, stack)
    elif how == "scan":
        got = jax.lax.scan(lambda a, s: (a, one(s)), 0, stack)[1]
    else:
        got = nnx.vmap(lambda b: b.forward(x, ld, **kw))(nnx.merge(gd, stack))
    same(got, jax.tree.map(lambda *v: jnp.stack(v), *refs), f"{c.name} with stacked parameters, {how}", max(c.rtol, 1e-10))
    d.note(bijection=c.name, how=how)
    return True


@facet(8, 200, shards=4)
def distributions(d):
    m, kind, ev, own = distribution(d)
    g = d.gen("data").spawn(1)[0]
    batch = d.pick([(), (3,), (2, 3)], "batch")
    key = d.key()
    before, start = snapshot(m), snapshot(params_of(m))
    ref = m.sample(batch, rng=key)
    shape(ref[0], batch + ev, f"samples of {kind}")
    shape(ref[1], batch, f"log-density of {kind}")
    identical(m.sample(batch, rng=key), ref, f"{kind}: another sample for the same key")
    unchanged(before, m, f"{kind}, sampled with a given key")
    close(m.log_density(ref[0]), ref[1], f"{kind}: log-density of its samples", rtol=1e-10, atol=1e-10)
    x = jnp.asarray(g.uniform(0.02, 0.98, batch + ev))
    lref = m.log_density(x)
    close(m.density(x), np.exp(np.asarray(lref)), f"{kind}: density", rtol=1e-12, atol=0)
    gd, s = nnx.split(m)
    samp = lambda s, k: nnx.merge(gd, s).sample(batch, rng=k)
    same(jax.jit(samp)(s, key), ref, f"{kind}: compiled sampling", 1e-10)
    dens = lambda s, x: nnx.merge(gd, s).log_density(x)
    same(jax.jit(dens)(s, x), lref, f"{kind}: compiled log-density", 1e-11)
    same(nnx.jit(lambda m, x: m.log_density(x))(m, x), lref, f"{kind}: log-density under nnx.jit", 1e-11)
    same(nnx.jit(lambda m, k: m.sample(batch, rng=k))(m, key), ref, f"{kind}: sampling under nnx.jit", 1e-10)
    unchanged(before, m, f"{kind}, evaluated and sampled")
    for other, how in ((nnx.merge(*nnx.split(m)), "split and merged"), (nnx.clone(m), "cloned"), (copy.deepcopy(m), "copied")):
        identical(other.log_density(x), lref, f"{kind} {how}: other log-density")
        identical(other.sample(batch, rng=key), ref, f"{kind} {how}: other samples")
    f = lambda x: m.log_density(x)
    for _ in batch:
        f = jax.vmap(f)
    same(f(x), lref, f"{kind}: vectorised log-density", 1e-11)
    same(jax.jit(m.log_density)(x), lref, f"{kind}: compiled log-density, distribution closed over", 1e-11)
    same(jax.jit(lambda k: m.sample(batch, rng=k))(key), ref, f"{kind}: compiled sampling, distribution closed over", 1e-10)
    # derivative of the density closed over, against central differences
    v = g.standard_normal(batch + ev)
    fd = (np.asarray(m.log_density(x + 1e-5 * v)) - np.asarray(m.log_density(x - 1e-5 * v))) / 2e-5
    close(jax.jvp(m.log_density, (x,), (jnp.asarray(v),))[1], fd, f"{kind}: derivative of the log-density", rtol=1e-4, atol=1e-5 * (1 + np.abs(fd).max()))
    keys = jax.random.split(key, 3)
    many = jax.vmap(lambda k: m.sample(batch, rng=k))(keys)
    same(many, jax.tree.map(lambda *v: jnp.stack(v), *[m.sample(batch, rng=k) for k in keys]), f"{kind}: sampling vectorised over keys", 1e-10)
    flat = np.asarray(many[0]).reshape(3, -1)
    must(len(np.unique(flat[:, 0])) == 3, f"{kind}: equal samples for different keys")
    if own:
        # own generator: consecutive samples differ, and the parameters stay
        first, second = nnx.clone(m), nnx.clone(m)
        a, b = m.sample(batch)[0], m.sample(batch)[0]
        must(not np.array_equal(a, b), f"{kind}: repeated sampling with the own generator gives the same sample")
        unchanged(start, params_of(m), f"{kind}, sampled with its own generator")
        identical(first.sample(batch)[0], a, f"{kind}: not reproducible from the same generator state")
        if True:
            two = nnx.jit(lambda m: m.sample(batch)[0])
            same(two(second), a, f"{kind}: compiled sampling with the own generator, first call", 1e-10)
            same(two(second), b, f"{kind}: compiled sampling with the own generator, second call", 1e-10)
    d.note(distribution=kind, own_rngs=own)
    return kind not in ("normal", "normal0", "uniform")


def params_of(m):
    return nnx.state(m, nnx.Not(nnx.RngState))


@facet(14, 200)
def fourier_data(d):
    """a field with its Fourier bookkeeping passes through compilation and vectorisation like an array"""
    g = d.gen("f").spawn(1)[0]
    sh = d.pick([(4,), (5,), (3, 4), (4, 3), (2, 2)], "lattice")
    rep = d.pick([FFTRep.rfft, FFTRep.comp_complex, FFTRep.comp_real], "rep")
    ch = d.pick([0, 0, 1], "channels")
    lat = jnp.asarray(g.standard_normal(sh + (2,) * ch))
    fd = bijx.fourier.FourierData.from_real(lat, sh, rep, channel_dim=ch)
    leaves, tree = jax.tree.flatten(fd)
    back = jax.tree.unflatten(tree, leaves)
    must(type(back) is type(fd) and back.rep == fd.rep and back.data.shape == fd.data.shape, "flattened and rebuilt field has other metadata")
    identical(back.data, fd.data, "flattened and rebuilt field")
    must(jax.tree.structure(bijx.fourier.FourierData.from_real(2 * lat, sh, rep, channel_dim=ch)) == tree, "fields of equal kind have different tree structure")
    reps = [r for r in (FFTRep.rfft, FFTRep.comp_complex, FFTRep.comp_real)]
    to = d.pick(reps, "to")
    f = lambda v: v.to(to)
    ref = f(fd)
    got = jax.jit(f)(fd)
    must(got.rep == to, "compiled conversion has another representation", got=got.rep)
    same(got.data, ref.data, "compiled conversion", 1e-12)
    n = 3
    many = jnp.asarray(g.standard_normal((n,) + sh + (2,) * ch))
    ones = [bijx.fourier.FourierData.from_real(m, sh, rep, channel_dim=ch).to(to) for m in many]
    v = jax.vmap(lambda m: bijx.fourier.FourierData.from_real(m, sh, rep, channel_dim=ch).to(to))(many)
    must(v.rep == to, "vectorised conversion has another representation")
    same(v.data, jnp.stack([o.data for o in ones]), "vectorised conversion", 1e-12)
    bt = bijx.ToFourierData(sh, rep, channel_dim=ch, unpack=False)
    y, l = bt.forward(many, jnp.zeros(n))
    yj, lj = jax.jit(lambda x, l: bt.forward(x, l))(many, jnp.zeros(n))
    same((yj.data, lj), (y.data, l), "compiled ToFourierData", 1e-12)
    xr, _ = jax.jit(lambda y, l: bt.reverse(y, l))(yj, lj)
    same(xr, many, "compiled ToFourierData and its inverse", 1e-11)
    return True


# ------------------------------------------------------------------------------------------ parameter specifications
class Other(nnx.Variable):
    pass


def specs(d, sh, g, types=(np.float64,)):
    """(kind, specification, expected class, expected value or None)"""
    k = d.pick(["array", "numpy", "param", "const", "other", "shape", "list"], "specification")
    v = g.uniform(0.5, 1.5, sh)
    if k in ("array", "numpy"):
        dt = d.pick(types, "type")
        v = np.asarray(10 * v * (1 + 1j if dt is np.complex128 else 1)).astype(dt)
    if k == "array":
        return k, jnp.asarray(v), nnx.Param, v
    if k == "numpy":
        return k, v, nnx.Param, v
    if k == "param":
        return k, nnx.Param(jnp.asarray(v)), nnx.Param, v
    if k == "const":
        return k, bijx.Const(jnp.asarray(v)), bijx.Const, v
    if k == "other":
        return k, Other(jnp.asarray(v)), Other, v
    if k == "shape":
        return k, tuple(sh), nnx.Param, None
    return k, list(sh), nnx.Param, None


@facet(40, 600)
def wrapping(d):
    g = d.gen("w").spawn(1)[0]
    sh = d.pick([(), (3,), (2, 3), (1,), (4, 1, 2)], "shape")
    k, spec, cls, v = specs(d, sh, g, [np.float64, np.float32, np.int32, np.complex128])
    seed = d.int(0, 10**6, "rngs")
    acls = d.pick([nnx.Param, bijx.Const, Other], "cls")
    icls = d.pick([nnx.Param, bijx.Const, Other], "init_cls")
    init = d.pick([None, nnx.initializers.ones, nnx.initializers.normal(2.0), nnx.initializers.zeros], "init")
    kw = {} if init is None else dict(init_fn=init)
    got = bijx.default_wrap(spec, cls=acls, init_cls=icls, rngs=nnx.Rngs(seed), **kw)
    must(isinstance(got, nnx.Variable), "a wrapped specification is not a variable", got=type(got))
    if k in ("param", "const", "other"):
        must(got is spec, "a given variable is not used as it is")
        must(type(got) is cls, "class of a given variable", got=type(got))
    elif k in ("array", "numpy"):
        must(type(got) is acls, "class of a wrapped array", got=type(got), expected=acls)
    else:
        must(type(got) is icls, "class of an initialised parameter", got=type(got), expected=icls)
        shape(got.get_value(), sh, "initialised parameter")
        want = (init or nnx.initializers.normal())(nnx.Rngs(seed).params(), tuple(sh))
        identical(got.get_value(), want, "an initialised parameter is not what the initialiser gives for the stream of parameters")
        if init is None or init not in (nnx.initializers.ones, nnx.initializers.zeros):
            rngs = nnx.Rngs(seed)
            a, b = bijx.default_wrap(spec, rngs=rngs, **kw), bijx.default_wrap(spec, rngs=rngs, **kw)
            must(not np.array_equal(a.get_value(), b.get_value()), "two parameters initialised from one generator are equal")
    if v is not None:
        identical(got.get_value(), v, "value of a wrapped specification")
        must(got.get_value().dtype == np.asarray(v).dtype, "type of a wrapped specification", got=got.get_value().dtype, expected=np.asarray(v).dtype)
        must(isinstance(got.get_value(), jax.Array), "a wrapped specification holds no jax array", got=type(got.get_value()))
    bad = d.pick([1.5, "x", None, (2, -1), (2.0,), {"a": 1}, (0, 3), 3, [2, "a"]], "unsupported")
    try:
        r = bijx.default_wrap(bad, rngs=nnx.Rngs(0))
    except ValueError:
        pass
    else:
        fail("an unsupported specification is accepted", spec=bad, got=r)
    return True


TARGETS = {  # class -> names of the parameter attributes and constructor arguments
    "AffineLinear": ["scale", "shift"],
    "GaussianCDF": ["scale", "mean"],
    "Scaling": ["scale"],
    "Shift": ["shift"],
    "Power": ["exponent"],
    "BetaStretch": ["a"],
    "SinhConjugation": ["loc", "alpha", "beta", "mu", "nu"],
    "CubicRational": ["loc", "alpha", "beta"],
    "CubicConjugation": ["loc", "beta", "a", "b"],
    "Radial": ["center", "scale"],
    "RadialConditional": ["center", "scale"],
    "DiagonalNormal": ["mean", "scales"],
    "MultivariateNormal": ["mean", "cholesky"],
    "MixtureStack": ["weights"],
}
ALIAS = {("Radial", "scale"): "log_scale", ("RadialConditional", "scale"): "log_scale", ("Power", "exponent"): "exponent", ("DiagonalNormal", "scales"): "scales_bare"}


def variables_of(m):
    return [(p, v) for p, v in nnx.iter_graph(m) if isinstance(v, nnx.Variable) and not isinstance(v, nnx.RngState)]


@facet(70, 800)
def specifications(d):
    """for each class with parameters: what is given as array, shape, variable, constant"""
    g = d.gen("s").spawn(1)[0]
    name = d.pick(list(TARGETS), "class")
    if not hasattr(bijx, name):
        return False
    args = TARGETS[name]
    n = d.pick([2, 3], "dim")
    base = (n,) if name in ("Radial", "RadialConditional", "DiagonalNormal", "MultivariateNormal", "MixtureStack") else d.pick([(), (3,), (3, 2)], "param shape")
    given, want = {}, {}
    for a in args:
        sh = (n * (n + 1) // 2,) if a == "cholesky" else base
        k, spec, cls, v = specs(d, sh, g)
        given[a], want[a] = spec, (k, cls, v, sh)
    rngs = nnx.Rngs(d.int(0, 1000, "rngs"))
    C = getattr(bijx, name)
    var = None
    if name == "Radial":
        m = C(bijx.Scaling(bijx.Const(jnp.asarray(1.3))), rngs=rngs, **given)
    elif name == "RadialConditional":
        m = C(bijx.Scaling(jnp.asarray(1.3)), lambda u: 1.0 + u[..., :1] ** 2, rngs=rngs, **given)
    elif name == "MixtureStack":
        m = C(bijx.DiagonalNormal(bijx.Const(jnp.asarray(g.standard_normal((n, 2)))), bijx.Const(jnp.ones((n, 2)))), rngs=rngs, **given)
    elif name in ("DiagonalNormal", "MultivariateNormal"):
        var = d.pick([nnx.Param, bijx.Const, Other], "var_cls")
        m = C(rngs=rngs, var_cls=var, **given)
    else:
        m = C(rngs=rngs, **given)
    have = {id(v): v for _, v in variables_of(m)}
    for a, (k, cls, v, sh) in want.items():
        if k in ("param", "const", "other"):
            hit = have.get(id(given[a]))
            must(hit is not None and type(hit) is cls, f"{name}: a given variable is not kept for {a}", kinds=[type(x).__name__ for x in have.values()])
    # count by class, with values
    exp = []
    for a, (k, cls, v, sh) in want.items():
        if k in ("array", "numpy") and var is not None:
            cls = var
        exp.append((cls.__name__, tuple(sh)))
    got = sorted((type(v).__name__, v.get_value().shape) for v in have.values() if not (name in ("Radial", "RadialConditional") and v.get_value().shape == () and float(v.get_value()) == 1.3)
                 and not (name == "MixtureStack" and v.get_value().shape == (n, 2)))
    must(got == sorted(exp), f"{name}: classes and shapes of the parameters", got=got, expected=sorted(exp), given={a: w[0] for a, w in want.items()})
    # trainable exactly the expected ones; constants matched by the filter for frozen parts
    pstate = jax.tree.leaves(nnx.state(m, nnx.Param))
    must(len(pstate) == sum(c == "Param" for c, _ in exp), f"{name}: number of trainable parameters", got=len(pstate), expected=exp)
    frozen = nnx.split(m, bijx.FrozenFilter, ...)[1]
    extra = {"Radial": 1, "MixtureStack": 2}.get(name, 0)
    must(len(jax.tree.leaves(frozen)) == sum(c == "Const" for c, _ in exp) + extra, f"{name}: number of constants", got=len(jax.tree.leaves(frozen)), expected=exp)
    # arrays keep their value
    vals = [np.asarray(v.get_value()) for v in have.values()]
    for a, (k, cls, v, sh) in want.items():
        if v is not None:
            must(any(u.shape == v.shape and np.array_equal(u, v) for u in vals), f"{name}: value of {a} not found among the parameters", expected=v, got=vals)
    if hasattr(m, "forward"):
        x = jnp.asarray(g.uniform(0.2, 0.8, (3,) + (base or (2,))))
        y, l = m.forward(x, jnp.zeros(3))
        shape(y, x.shape, f"{name}: output")
        if name == "AffineLinear" and want["scale"][2] is not None and want["shift"][2] is not None:
            s, t = want["scale"][2], want["shift"][2]
            close(y, np.asarray(x) * np.exp(s) + t, f"{name} with given parameters", rtol=1e-12)
        if name == "Scaling" and want["scale"][2] is not None:
            close(y, np.asarray(x) * want["scale"][2], f"{name} with given parameters", rtol=1e-12)
    d.note(cls=name, given={a: w[0] for a, w in want.items()})
    return True


@facet(70, 800)
def derived_parameters(d):
    """parameters computed from given ones: variances and covariances; given variables keep their class, arrays get the requested one"""
    g = d.gen("s").spawn(1)[0]
    n = d.int(1, 4, "dim")
    cls = d.pick([None, nnx.Param, bijx.Const, Other], "var_cls")
    kw = {} if cls is None else dict(var_cls=cls)
    k, mean, mcls, mv = specs(d, (n,), g)
    rngs = nnx.Rngs(d.int(0, 1000, "rngs"))
    if d.bool("diagonal"):
        kk, spec, vcls, v = specs(d, (n,), g)
        before = None if not isinstance(spec, nnx.Variable) else np.asarray(spec.get_value())
        m = bijx.DiagonalNormal.given_variances(mean, spec, rngs=rngs, **kw)
        default, want = nnx.Param, v
        close(m.variances, np.ones(n) if v is None else v, "variances", rtol=1e-8)
        if before is not None:
            identical(spec.get_value(), before, "a given variable was changed")
        if kk in ("array", "numpy"):
            vcls = cls or default
    else:
        L = np.tril(g.uniform(0.5, 1.5, (n, n)))
        v, kk = L @ L.T, d.pick(["array", "shape"], "covariance")
        m = bijx.MultivariateNormal.given_cov(mean, jnp.asarray(v) if kk == "array" else (n, n), rngs=rngs, **kw)
        default = bijx.Const
        vcls = cls or default
        if kk == "array":
            close(m.cov, v, "covariance", rtol=1e-10)
    if k in ("array", "numpy"):
        mcls = cls or default
    got = sorted(type(x).__name__ for _, x in variables_of(m))
    exp = sorted([mcls.__name__, vcls.__name__])
    must(got == exp, "classes of the parameters", got=got, expected=exp, mean=k, second=kk)
    must(len(jax.tree.leaves(nnx.state(m, nnx.Param))) == exp.count("Param"), "number of trainable parameters")
    if mv is not None:
        close(m.mean.get_value(), mv, "mean", rtol=1e-12)
    d.note(cls=type(m).__name__, mean=k, second=kk, var_cls=str(cls))
    return True


# ------------------------------------------------------------------------------------------ frozen parts
def tree_of(d, g, depth=0):
    """(bijection, reference function of x, number of trainable leaves, number of frozen leaves)"""
    ks = ["affine", "shift", "const", "mixed"] + (["chain", "chain", "frozen", "inverse", "module"] if depth < 3 else [])
    k = d.pick(ks, "part")
    r = lambda: jnp.asarray(0.4 * g.standard_normal(2))
    if k == "affine":
        a, b = r(), r()
        return bijx.AffineLinear(a, b), (lambda x: x * np.exp(a) + b), 2, 0
    if k == "shift":
        b = r()
        return bijx.Shift(b), (lambda x: x + b), 1, 0
    if k == "const":
        b = r()
        return bijx.Shift(bijx.Const(b)), (lambda x: x + b), 0, 1
    if k == "mixed":
        a, b = r(), r()
        return bijx.AffineLinear(bijx.Const(a), b), (lambda x: x * np.exp(a) + b), 1, 1
    if k == "chain":
        parts = [tree_of(d, g, depth + 1) for _ in range(d.int(1, 3, "parts"))]

        def f(x):
            for p in parts:
                x = p[1](x)
            return x

        return bijx.Chain(*[p[0] for p in parts]), f, sum(p[2] for p in parts), sum(p[3] for p in parts)
    b, f, t, z = tree_of(d, g, depth + 1)
    if k == "frozen":
        return bijx.Frozen(b), f, 0, t + z
    if k == "module":
        return bijx.Chain(bijx.Partial(b, some=1)), f, t, z
    return bijx.Inverse(bijx.Inverse(b)), f, t, z


@facet(25, 400)
def freezing(d):
    g = d.gen("frozen").spawn(1)[0]
    b, f, t, z = tree_of(d, g)
    x = g.standard_normal((3, 2))
    y, l = b.forward(jnp.asarray(x), jnp.zeros(3))
    close(y, f(x), "partly frozen bijection", rtol=1e-11, atol=1e-11)
    xr, lr = b.reverse(y, l)
    close(xr, x, "inverse of a partly frozen bijection", rtol=1e-10, atol=1e-10)
    close(lr, np.zeros(3), "round trip of the log-density", rtol=0, atol=1e-10)
    gd, fr, tr, rest = nnx.split(b, bijx.FrozenFilter, nnx.Param, ...)
    must(len(jax.tree.leaves(fr)) == z and len(jax.tree.leaves(tr)) == t and not jax.tree.leaves(rest), "frozen and trainable parameters",
         got=(len(jax.tree.leaves(fr)), len(jax.tree.leaves(tr)), len(jax.tree.leaves(rest))), expected=(z, t, 0))
    # a gradient step on the trainable ones leaves the frozen ones untouched
    loss = lambda tr: (nnx.merge(gd, fr, tr, rest).forward(jnp.asarray(x), jnp.zeros(3))[0] ** 2).sum()
    if t:
        new = jax.tree.map(lambda p, q: p - 0.1 * q, tr, jax.grad(loss)(tr))
        b2 = nnx.merge(gd, fr, new, rest)
        _, fr2, tr2, _ = nnx.split(b2, bijx.FrozenFilter, nnx.Param, ...)
        identical(fr2, fr, "frozen parameters altered by a step on the trainable ones")
        identical(tr2, new, "trainable parameters after a step")
        nnx.update(b, new)
        identical(b.forward(jnp.asarray(x), jnp.zeros(3)), b2.forward(jnp.asarray(x), jnp.zeros(3)), "update in place and merge differ")
    d.note(trainable=t, frozen=z)
    return t + z > 1


# ------------------------------------------------------------------------------------------ noise
@facet(60, 800)
def noise(d):
    g = d.gen("noise").spawn(1)[0]
    what = d.pick(["tree", "tree", "catalogue", "dist", "net"], "model")
    if what == "tree":
        m = bijx.Chain(tree_of(d, g)[0], bijx.AffineLinear(jnp.asarray(g.standard_normal(2)), bijx.Const(jnp.asarray(g.standard_normal(2)))))
    elif what == "dist":
        m = distribution(d)[0]
    elif what == "net":
        m = bijx.nn.nets.MLP(2, 3, [4], rngs=nnx.Rngs(0))
    else:
        m = bij.draw_case(d).b
    filt = d.pick(["default", "default", "const", "frozen", "path", "two", "of_type"], "filter")
    F = {"default": (), "const": (bijx.Const,), "frozen": (bijx.FrozenFilter,), "path": (nnx.All(nnx.PathContains("scale"), nnx.Param),),
         "two": (bijx.Const, nnx.All(nnx.PathContains("shift"), nnx.Param)), "of_type": (nnx.OfType(nnx.Param),)}[filt]
    before = snapshot(m)
    variables = {tuple(map(str, p)): v for p, v in nnx.to_flat_state(nnx.state(m))}
    pred = nnx.filterlib.to_predicate(nnx.Any(*F) if F else nnx.Param)
    chosen = {tuple(map(str, p)) for p, v in nnx.to_flat_state(nnx.state(m)) if pred(p, v)}
    key = d.key()
    kind = d.pick(["key", "rngs"], "rng")
    rng = (lambda: key) if kind == "key" else (lambda: nnx.Rngs(key))
    scale = d.float(-2, 2, "scale")
    fn = d.pick([None, jax.random.uniform, lambda k, s: jnp.ones(s)], "noise")
    if any(before[c][1].dtype.kind not in "f" for c in chosen):
        return False
    kw = {} if fn is None else dict(noise_fn=fn)
    new = bijx.noise_model(rng(), m, scale, *F, **kw)
    unchanged(before, m, "model that noise was added to a copy of")
    unit = snapshot(bijx.noise_model(rng(), m, 1, *F, **kw)) if d.bool("explicit") else snapshot(bijx.noise_model(rng(), m, 1.0, *F, **kw))
    now = snapshot(new)
    must(type(new) is type(m), "noise changes the type of the model")
    must(set(now) == set(before), "noise adds or removes variables", got=sorted(now), expected=sorted(before))
    seen = []
    for k, (c, v) in before.items():
        c2, v2 = now[k]
        must(c2 == c and v2.shape == v.shape and v2.dtype == v.dtype, f"noise changes the kind of variable {k}", got=(c2, v2.shape, v2.dtype), expected=(c, v.shape, v.dtype))
        if k not in chosen:
            must(np.array_equal(v, v2, equal_nan=v.dtype.kind in "fc"), f"noise changes variable {k} that was not selected")
            continue
        if v.size == 0:
            continue
        close(v2 - v, scale * (unit[k][1] - v), f"noise on {k} is not proportional to its scale", rtol=1e-9, atol=8 * np.finfo(v.dtype).eps * (1 + 10 * abs(scale) + np.abs(v).max()))
        e = unit[k][1] - v
        if fn is None or fn is jax.random.uniform:
            must(np.all(e != 0), f"selected variable {k} gets no noise", got=e)
            seen.append(e.ravel()[0])
        else:
            close(e, np.ones_like(e), f"noise of the given function on {k}", rtol=0, atol=8 * np.finfo(v.dtype).eps * (1 + np.abs(v).max()))
        if fn is jax.random.uniform:
            must(np.all((e >= -1e-6) & (e <= 1 + 1e-6)), "noise outside of the range of the given function", got=e)
    for i in range(len(seen)):
        for j in range(i):
            must(abs(seen[i] - seen[j]) > 1e-9, "two parameters get the same noise", got=seen)
    # the copy is independent of the original
    for p, v in nnx.iter_graph(new):
        if isinstance(v, nnx.Variable):
            must(not any(v is w for _, w in nnx.iter_graph(m) if isinstance(w, nnx.Variable)), "noisy model shares a variable with the original", path=p)
    other = snapshot(bijx.noise_model(jax.random.fold_in(key, 1), m, 1.0, *F, **kw))
    if seen:
        must(any(not np.array_equal(other[k][1], unit[k][1]) for k in chosen), "other key, same noise")
    d.note(model=what, filter=filt, selected=len(chosen))
    return len(chosen) > 0 and scale != 0


@facet(4, 60)
def noise_law(d):
    """default noise: standard normal, independent per entry"""
    from scipy import stats as sp

    n = d.pick([3000, 5000], "size")
    m = bijx.Chain(bijx.Shift(jnp.zeros(n)), bijx.Scaling(jnp.ones((n // 10, 10))))
    s = d.pick([1, 0.3, 2.5], "scale")
    r = bijx.noise_model(d.key(), m, s)
    a, b = np.asarray(r.bijections[0].shift.get_value()), np.asarray(r.bijections[1].scale.get_value()).ravel() - 1
    for v in (a, b):
        p = sp.kstest(v / s, "norm").pvalue
        must(p > 1e-9, "noise is not standard normal times the scale", p=p, mean=v.mean(), std=v.std())
    z = np.corrcoef(a, b)[0, 1] * np.sqrt(n)
    must(abs(z) < 6.5, "noise of two parameters is correlated", z=z)
    return True
