"""Cases: modules of different structure (bijections, networks, distributions, chains, modules with constants, with
integer or 32-bit parameters) or their states, a parameter filter, and random parameter values; the parameters are
given as flat array, list, dictionary and state, unbatched or with batch dimensions.  Oracle: the same module with
its parameters set through nnx, called directly, in a Python loop over the batch.  Non-trivial: the module has
at least one parameter."""
import numpy as np

import bijx
import jax
import jax.numpy as jnp
from flax import nnx
from vf import bij, close, facet, jx, must, shape


class Odd(nnx.Module):
    """nested containers, constants, unused and scalar parameters"""

    def __init__(self, g, dt):
        self.z = nnx.Param(jnp.asarray(g.standard_normal((2, 3)), dt))
        self.a = nnx.List([nnx.Param(jnp.asarray(g.standard_normal(), dt)), nnx.Dict(w=nnx.Param(jnp.asarray(g.standard_normal(3), dt)))])
        self.k = bijx.Const(jnp.asarray(g.standard_normal(3)))
        self.e = nnx.Param(jnp.zeros((0,), dt))
        self.s = 2.5
        self.one = nnx.Param(jnp.asarray(g.standard_normal((1, 2, 1)), dt))

    def f(self, x, power=1):
        return ((x @ self.z.get_value() + self.a[1]["w"].get_value()) * self.a[0].get_value() + self.k.get_value() + self.one.get_value().sum()) ** power * self.s

    def forward(self, x, ld, **kw):
        return self.f(x), ld + jnp.sum(self.one.get_value())

    @property
    def total(self):
        return self.z.get_value().sum()


def modules(d, g):
    k = d.pick(["odd", "affine", "spline", "chain", "mlp", "dense", "coupling", "normal", "const", "mixture"], "module")
    if k == "odd":
        return Odd(g, d.pick([jnp.float64, jnp.float32], "dtype")), lambda m, x: m.f(x), (2,)
    if k == "affine":
        ev = d.pick([(), (3,), (2, 1)], "event")
        return bijx.AffineLinear(jnp.zeros(ev), jnp.zeros(ev)), lambda m, x: m.forward(x, jnp.zeros(())), ev
    if k == "spline":
        ev = d.pick([(), (3,)], "event")
        return bijx.MonotoneRQSpline(d.int(1, 5, "knots"), ev, rngs=nnx.Rngs(0)), lambda m, x: m.forward(x, jnp.zeros(())), ev
    if k == "chain":
        return bijx.Chain(bij.real_scalar(d, g, (3,)), bijx.Inverse(bij.real_scalar(d, g, ()))), lambda m, x: m.forward(x, jnp.zeros(())), (3,)
    if k == "mlp":
        return bijx.nn.nets.MLP(2, 3, [4], rngs=nnx.Rngs(0)), lambda m, x: m(x), (2,)
    if k == "dense":
        return nnx.Sequential(bij.Dense(2, (3,), g), jnp.tanh, bij.Dense(3, (1, 2), g)), lambda m, x: m(x), (2,)
    if k == "coupling":
        rec = bijx.ModuleReconstructor(bijx.AffineLinear(jnp.zeros(()), jnp.zeros(())))
        return bijx.GeneralCouplingLayer(bij.Dense(2, (2, 2), g), bijx.checker_mask((4,), False), rec), lambda m, x: m.forward(x, jnp.zeros(())), (4,)
    if k == "normal":
        return bijx.DiagonalNormal(jnp.zeros(3), jnp.ones(3), rngs=nnx.Rngs(0)), lambda m, x: m.log_density(x), (3,)
    if k == "const":
        return bijx.AffineLinear(bijx.Const(jnp.asarray(0.7)), jnp.zeros((3,))), lambda m, x: m.forward(x, jnp.zeros(())), (3,)
    return bijx.GaussianMixture(jnp.zeros((2, 2)), jnp.stack([jnp.eye(2)] * 2), jnp.zeros(2)), lambda m, x: m.log_density(x), (2,)


def tree_close(a, b, what):
    la, lb = jax.tree.leaves(a), jax.tree.leaves(b)
    must(len(la) == len(lb), f"{what}: different structure")
    for u, v in zip(la, lb):
        u, v = jx.host(u), jx.host(v)
        close(u, v, what, rtol=1e-6 if v.dtype == np.float32 else 1e-11, atol=1e-6 if v.dtype == np.float32 else 1e-10)


def flat_order(m, flt):
    """leaves of the selected state, and a function that sets them"""
    graph, sel, rest = nnx.split(m, flt, ...)
    leaves, td = jax.tree.flatten(sel)
    return leaves, lambda new: nnx.merge(graph, jax.tree.unflatten(td, list(new)), rest)


def forms(rec, leaves, which):
    """the same parameters in one of the representations (leaves may carry batch dimensions)"""
    if which == "list":
        return list(leaves)
    if which == "dict":
        return jax.tree.unflatten(jax.tree.structure(rec.params_dict), list(leaves))
    if which == "state":
        return jax.tree.unflatten(jax.tree.structure(rec.params), list(leaves))
    nb = leaves[0].ndim - len(rec.params_shapes[0])
    return jnp.concatenate([l.reshape(l.shape[:nb] + (int(np.prod(l.shape[nb:])),)) for l in leaves], -1)


@facet(quick=60, thorough=900, shards=3, tshards=5)
def representations(d):
    g = d.gen("g")
    m, call, ev = modules(d, g)
    m0 = nnx.clone(m)
    flt = d.pick([nnx.Param, nnx.Param, bijx.Const], "filter")
    leaves, setter = flat_order(m, flt)
    if not leaves:
        return False
    rec = bijx.ModuleReconstructor(m) if flt is nnx.Param and d.bool("default") else bijx.ModuleReconstructor(m, flt)
    # description
    must([tuple(s) for s in rec.params_shapes] == [tuple(l.shape) for l in leaves], "params_shapes", got=rec.params_shapes)
    must([np.dtype(t) for t in rec.params_dtypes] == [np.dtype(l.dtype) for l in leaves], "params_dtypes", got=rec.params_dtypes)
    sizes = [l.size for l in leaves]
    must([int(s) for s in rec.params_sizes] == sizes, "params_sizes", got=rec.params_sizes)
    must(int(rec.params_total_size) == sum(sizes), "params_total_size", got=rec.params_total_size)
    must([int(i) for i in rec.params_array_splits] == list(np.cumsum(sizes)[:-1]), "params_array_splits")
    must(not rec.has_complex_params, "has_complex_params")
    sd = [tuple(v) for v in jax.tree.leaves(rec.params_shape_dict, is_leaf=lambda v: isinstance(v, tuple))]
    must(sorted(sd) == sorted(tuple(l.shape) for l in leaves), "params_shape_dict")
    new = [jnp.asarray(0.5 * g.standard_normal(l.shape), l.dtype) for l in leaves]
    ref = setter(new)
    x = jnp.asarray(g.standard_normal(ev))
    want = call(ref, x)
    which = d.pick(["array", "list", "dict", "state"], "representation")
    p = forms(rec, new, which)
    if which == "array" and d.bool("numpy array"):
        p = np.asarray(p)
    r = rec.from_params(p)
    must(type(r) is type(m), "rebuilt module has another type")
    tree_close(call(r, x), want, f"module from {which}")
    # every variable: value and type
    s1, s2 = nnx.state(r), nnx.state(ref)
    must(jax.tree.structure(s1) == jax.tree.structure(s2), f"module from {which}: state structure differs", got=s1, want=s2)
    for u, v in zip(jax.tree.leaves(s1), jax.tree.leaves(s2)):
        must(np.array_equal(jx.host(u), jx.host(v)), f"module from {which}: values differ", got=jx.host(u), want=jx.host(v))
    # building a second module is not affected by the first, the original is unchanged
    r2 = rec.from_params(forms(rec, leaves, d.pick(["dict", "state", "list", "array"], "second")))
    tree_close(call(r2, x), call(m0, x), "second module")
    tree_close(call(r, x), want, "first module after building a second one")
    tree_close(nnx.state(m), nnx.state(m0), "original module")
    # reconstruct states
    if d.bool("state"):
        rs = bijx.ModuleReconstructor(nnx.state(m), flt).from_params(p)
        must(isinstance(rs, nnx.State), "reconstructing a state gives no state")
        for u, v in zip(jax.tree.leaves(rs), jax.tree.leaves(s2)):
            must(np.array_equal(jx.host(u), jx.host(v)), "state from parameters: values differ")
    d.note(module=type(m).__name__, representation=which)
    return True


def _vec_calls(name):
    return {"f": ("f", 1)}.get(name)


@facet(quick=30, thorough=500, shards=3, tshards=5)
def vectorised(d):
    """from_params(autovmap=True): loop over the batch of parameters and inputs"""
    g = d.gen("g")
    m, call, ev = modules(d, g)
    leaves, setter = flat_order(m, nnx.Param)
    if not leaves:
        return False
    rec = bijx.ModuleReconstructor(m)
    pb, xb = d.pick([((3,), (3,)), ((2, 3), (2, 3)), ((3,), ()), ((), (3,)), ((), ()), ((1, 3), (2, 3)), ((3,), (2, 3)), ((2, 3), (3,))], "batches")
    out_b = np.broadcast_shapes(pb, xb)
    # autovmap aligns leading dimensions on the right like broadcasting
    new = [jnp.asarray(0.5 * g.standard_normal(pb + l.shape), l.dtype) for l in leaves]
    x = jnp.asarray(g.standard_normal(xb + ev))
    which = d.pick(["array", "list", "dict", "state"], "representation")
    av = rec.from_params(forms(rec, new, which), autovmap=True)
    fwd = hasattr(m, "forward")
    ld = jnp.asarray(g.standard_normal(xb))
    if fwd:
        got = (av.forward if d.bool("attribute") else lambda *a, **k: av("forward", *a, **k))(x, ld, input_ranks=(len(ev), 0))
    elif hasattr(m, "log_density"):
        got = (av.log_density(x, input_ranks=(len(ev),)),)
    else:
        got = (av("__call__", x, input_ranks=(len(ev),)),)
    for a in got:
        must(np.shape(a)[: len(out_b)] == out_b, "batch shape of vectorised call", got=np.shape(a), want=out_b)
    idx = list(np.ndindex(*out_b))
    for i in [idx[j] for j in {0, len(idx) - 1, d.int(0, len(idx) - 1, "index")}]:
        pick = lambda b: tuple(0 if s == 1 else i[len(out_b) - len(b) + j] for j, s in enumerate(b))
        ref = setter([l[pick(pb)] for l in new])
        xi = x[pick(xb)]
        w = ref.forward(xi, ld[pick(xb)]) if fwd else (ref.log_density(xi),) if hasattr(m, "log_density") else (ref(xi),)
        for a, b in zip(got, w):
            tree_close(np.asarray(a)[i], b, f"vectorised {type(m).__name__} ({which}), parameters {pb}, inputs {xb}")
    d.note(module=type(m).__name__, representation=which, params=pb, inputs=xb)
    return True


class Multi(nnx.Module):
    """methods with several arguments of different ranks, keyword arguments and several results"""

    def __init__(self, n):
        self.w = nnx.Param(jnp.ones((n, 2)))
        self.c = nnx.Param(jnp.ones(()))

    def three(self, x, l, t, scale=1.0):
        return scale * (x @ self.w.get_value()) + l + jnp.sum(t), l * self.c.get_value() + t.reshape(-1)[0]

    def one(self, x):
        return x * self.c.get_value()


@facet(quick=20, thorough=300)
def further_arguments(d):
    """vectorised calls of methods with more arguments: ranks per argument, arguments without a given rank go to each call unchanged"""
    g = d.gen("g")
    n = d.int(1, 3, "n")
    rec = bijx.ModuleReconstructor(Multi(n))
    pb, xb = d.pick([((3,), (3,)), ((2, 3), (2, 3)), ((3,), ()), ((), (3,)), ((), ()), ((2, 3), (3,))], "batches")
    out_b = np.broadcast_shapes(pb, xb)
    p = g.standard_normal(pb + (2 * n + 1,))
    x, l = g.standard_normal(xb + (n,)), g.standard_normal(xb)
    rank = d.pick([None, 1, 0], "rank of the third argument")
    tsh = d.pick([(3,), (2,), (4, 2)], "third argument") if rank is None else xb + ((2,) if rank else ())
    t = g.standard_normal(tsh)
    ranks = (1, 0) if rank is None and d.bool("short") else (1, 0, rank)
    scale = d.pick([1.0, -0.5], "keyword")
    av = rec.from_params(jnp.asarray(p), autovmap=True)
    kw = {} if scale == 1.0 else {"scale": scale}
    args = tuple(jnp.asarray(v) for v in (x, l, t))
    got = av.three(*args, input_ranks=ranks, **kw) if d.bool("attribute") else av("three", *args, input_ranks=ranks, **kw)
    order = [tuple(s) for s in rec.params_shapes]
    for i in np.ndindex(*out_b):
        pick = lambda b: tuple(i[len(out_b) - len(b):])
        q, xi, li, ti = p[pick(pb)], x[pick(xb)], l[pick(xb)], (t if rank is None else t[pick(xb)])
        vals, o = {}, 0
        for s in order:
            k = int(np.prod(s, dtype=int))
            vals[s], o = q[o:o + k].reshape(s), o + k
        w, c = vals[(n, 2)], vals[()]
        close(np.asarray(got[0])[i], scale * (xi @ w) + li + np.sum(ti), "first result", rtol=1e-12, atol=1e-12)
        close(np.asarray(got[1])[i], li * c + np.reshape(ti, -1)[0], "second result", rtol=1e-12, atol=1e-12)
    d.note(params=pb, inputs=xb, rank=rank)
    return out_b != ()
