"""Cases: expression trees of Chain (with and without per-element arguments), Inverse, invert(), CondInverse,
Frozen, Partial, ScanChain and shape layers over non-commuting probe layers that use keyword arguments, or over
real bijections of the library; drawn batch shape, inputs, log-densities, keyword arguments and direction.  The
reference evaluates the same tree by plain function composition in numpy.  Non-trivial: the tree has at least
two nodes."""
import numpy as np

import bijx
import jax
import jax.numpy as jnp
from flax import nnx
from vf.bij import KEYS, Probe
from vf import bij, close, facet, jx, must, shape

class Ref:
    def __init__(self, fwd, rev, size=1):
        self.fwd, self.rev, self.size = fwd, rev, size


def probe_ref(a, b, c, e):
    def parts(kw):
        return sum(c[i] * kw.get(k, 0.25) for i, k in enumerate(KEYS)), sum(e[i] * kw.get(k, 0.25) for i, k in enumerate(KEYS)) + np.log(abs(a))

    def fwd(x, ld, kw):
        s, l = parts(kw)
        return a * x + b + s, ld - l

    def rev(x, ld, kw):
        s, l = parts(kw)
        return (x - b - s) / a, ld + l

    return Ref(fwd, rev)


def probe_par(g, ev):
    return (float(np.sign(g.standard_normal()) * np.exp(0.4 * g.standard_normal())), g.standard_normal(ev),
            g.standard_normal(2), g.standard_normal(2))


def chain_ref(refs, argl=None):
    argl = argl or [{}] * len(refs)

    def fwd(x, ld, kw):
        for r, a in zip(refs, argl):
            x, ld = r.fwd(x, ld, {**kw, **a})
        return x, ld

    def rev(x, ld, kw):
        for r, a in list(zip(refs, argl))[::-1]:
            x, ld = r.rev(x, ld, {**kw, **a})
        return x, ld

    return Ref(fwd, rev, 1 + sum(r.size for r in refs))


def leaf(d, g, ev):
    k = d.pick(["probe", "probe", "probe", "library"], "leaf")
    if k == "probe":
        p = probe_par(g, ev)
        return Probe(*p, len(ev)), probe_ref(*p)
    b = bij.real_scalar(d, g, ev)
    call = lambda f: (lambda x, ld, kw: tuple(map(np.asarray, f(jnp.asarray(x), jnp.asarray(ld)))))
    return b, Ref(call(b.forward), call(b.reverse))


def shapes_of(ev):
    n = int(np.prod(ev))
    return {6: [(6,), (2, 3), (3, 2), (1, 6), (3, 1, 2)], 4: [(4,), (2, 2), (4, 1)]}[n]


def shaper(d, ev):
    k = d.pick(["reshape", "inv-reshape", "expand", "squeeze", "meta"], "shape layer")
    if k == "squeeze" and 1 not in ev:
        k = "expand"
    if k == "meta":
        perm = np.arange(ev[-1])[::-1].copy() if d.bool("reverse_order") else np.roll(np.arange(ev[-1]), 1)
        inv = np.argsort(perm)
        return bijx.MetaLayer(lambda x: x[..., perm], lambda x: x[..., inv]), Ref(lambda x, l, k: (x[..., perm], l), lambda x, l, k: (x[..., inv], l)), ev
    if k in ("reshape", "inv-reshape"):
        to = d.pick(shapes_of(ev), "to")
        f = lambda x, l, kw: (x.reshape(x.shape[: x.ndim - len(ev)] + to), l)
        r = lambda x, l, kw: (x.reshape(x.shape[: x.ndim - len(to)] + ev), l)
        b = bijx.Reshape(ev, to) if k == "reshape" else bijx.Reshape(to, ev).invert()
        return b, Ref(f, r), to
    if k == "expand":
        ax = -d.int(1, len(ev) + 1, "axis")
        pos = len(ev) + 1 + ax
        to = ev[:pos] + (1,) + ev[pos:]
        b = bijx.ExpandDims(ax) if d.bool("direct") else bijx.SqueezeDims(ax).invert()
    else:
        pos = d.pick([i for i, s in enumerate(ev) if s == 1], "axis")
        ax = pos - len(ev)
        to = ev[:pos] + ev[pos + 1:]
        b = bijx.SqueezeDims(ax) if d.bool("direct") else bijx.ExpandDims(ax).invert()
    f = lambda x, l, kw: (x.reshape(x.shape[: x.ndim - len(ev)] + to), l)
    r = lambda x, l, kw: (x.reshape(x.shape[: x.ndim - len(to)] + ev), l)
    return b, Ref(f, r), to


def tree(d, g, ev, depth, arg_ok=True):
    """shape-preserving expression"""
    if depth == 0:
        return leaf(d, g, ev)
    k = d.pick(["chain", "inverse", "invert", "invert2", "cond", "frozen", "partial", "scan", "scancond", "shaped", "leaf"], "node")
    if k == "leaf":
        return leaf(d, g, ev)
    if k == "chain":
        parts = [tree(d, g, ev, depth - 1) for _ in range(d.int(0, 3, "length"))]
        return bijx.Chain(*[p[0] for p in parts]), chain_ref([p[1] for p in parts])
    if k == "shaped":
        b1, r1, to = shaper(d, ev)
        b2, r2 = tree(d, g, to, depth - 1)
        return bijx.Chain(b1, b2, bijx.Inverse(b1)), chain_ref([r1, r2, Ref(r1.rev, r1.fwd)])
    if k in ("scan", "scancond"):
        n = d.int(1, 4, "layers")
        pars = [probe_par(g, ev) for _ in range(n)]
        stack = Probe(*[np.stack([np.asarray(p[i]) for p in pars]) for i in range(4)], len(ev))
        refs = [probe_ref(*p) for p in pars]
        if k == "scancond":
            flags = [d.bool("flag") for _ in range(n)]
            stack = bijx.CondInverse(stack, np.array(flags))
            refs = [Ref(r.rev, r.fwd) if f else r for r, f in zip(refs, flags)]
        return bijx.ScanChain(stack), chain_ref(refs)
    b, r = tree(d, g, ev, depth - 1)
    sw = Ref(r.rev, r.fwd, r.size + 1)
    if k == "inverse":
        return bijx.Inverse(b), sw
    if k == "invert":
        return b.invert(), sw
    if k == "invert2":
        return b.invert().invert(), Ref(r.fwd, r.rev, r.size + 1)
    if k == "cond":
        flag = d.bool("flag")
        c = bijx.CondInverse(b, flag)
        if d.bool("inverted"):
            c, flag = c.invert(), not flag
        return c, (sw if flag else Ref(r.fwd, r.rev, r.size + 1))
    if k == "frozen":
        return bijx.Frozen(b), Ref(r.fwd, r.rev, r.size + 1)
    fixed = {key: float(g.standard_normal()) for key in KEYS if d.bool("fix " + key)}
    return bijx.Partial(b, **fixed), Ref(lambda x, l, kw: r.fwd(x, l, {**fixed, **kw}), lambda x, l, kw: r.rev(x, l, {**fixed, **kw}), r.size + 1)


def check(d, b, r, ev, g, extra=None):
    batch = d.pick([(), (3,), (3, 2), (1,)], "batch")
    x, ld = g.standard_normal(batch + ev), g.standard_normal(batch)
    kw = {k: float(g.standard_normal()) for k in KEYS if d.bool("pass " + k)}
    rev = d.bool("reverse")
    call = dict(kw, **(extra or {}))
    how = d.pick(["method", "method", "call", "jit"], "how")
    if how == "call" and not rev:
        y, l = b(jnp.asarray(x), jnp.asarray(ld), **call)
    elif how == "jit":
        y, l = nnx.jit(lambda b, x, l: (b.reverse if rev else b.forward)(x, l, **call))(b, jnp.asarray(x), jnp.asarray(ld))
    else:
        y, l = (b.reverse if rev else b.forward)(jnp.asarray(x), jnp.asarray(ld), **call)
    wy, wl = (r.rev if rev else r.fwd)(x, ld, kw)
    s = 1 + np.max(np.abs(wy), initial=0)
    close(y, wy, f"value ({'reverse' if rev else 'forward'})", rtol=1e-8, atol=1e-8 * s)
    close(l, wl, f"log-density ({'reverse' if rev else 'forward'})", rtol=1e-8, atol=1e-6)
    # opposite direction undoes it
    x2, l2 = (b.forward if rev else b.reverse)(y, l, **call)
    close(x2, x, "round trip", rtol=1e-4, atol=1e-4 * s)
    close(l2, ld, "log-density of round trip", rtol=1e-4, atol=1e-4)


@facet(quick=150, thorough=2000, shards=3, tshards=6)
def trees(d):
    g = d.gen("g")
    ev = d.pick([(6,), (2, 3), (2, 2)], "event")
    b, r = tree(d, g, ev, d.pick([2, 1, 3], "depth"))
    check(d, b, r, ev, g)
    return r.size > 1


@facet(quick=80, thorough=1000, shards=1, tshards=2)
def per_element_arguments(d):
    """arg_list: one dictionary per element, in both directions, also for nested chains"""
    g = d.gen("g")
    ev = (3,)
    n = d.int(1, 4, "length")
    bs, rs, args, rargs = [], [], [], []
    for i in range(n):
        kind = d.pick(["probe", "chain", "frozen", "inverse", "scan", "partial"], "element")
        kw = {k: float(g.standard_normal()) for k in KEYS[: d.int(0, 2, "own")]}
        p = [probe_par(g, ev) for _ in range(2)]
        pr, rr = [Probe(*q, 1) for q in p], [probe_ref(*q) for q in p]
        if kind == "probe":
            b, r, a = pr[0], rr[0], kw
        elif kind == "chain":
            inner = [{k: float(g.standard_normal()) for k in KEYS} for _ in p]
            b, r, a = bijx.Chain(*pr), chain_ref(rr, inner), {"arg_list": inner}
        elif kind == "frozen":
            b, r, a = bijx.Frozen(pr[0]), rr[0], kw
        elif kind == "inverse":
            b, r, a = pr[0].invert(), Ref(rr[0].rev, rr[0].fwd), kw
        elif kind == "scan":
            stack = Probe(*[np.stack([np.asarray(q[j]) for q in p]) for j in range(4)], 1)
            b, r, a = bijx.ScanChain(stack), chain_ref(rr), kw
        else:
            b, a = bijx.Partial(pr[0], u=0.7, v=-0.3), kw
            r = Ref(lambda x, l, k, R=rr[0]: R.fwd(x, l, {"u": 0.7, "v": -0.3, **k}), lambda x, l, k, R=rr[0]: R.rev(x, l, {"u": 0.7, "v": -0.3, **k}))
        bs.append(b), rs.append(r), args.append(a)
        rargs.append({} if kind == "chain" else kw)
    # keys must not be given twice: global keywords only for keys not used per element
    used = set().union(*[set(a) for a in args]) | ({"u", "v"} if any("arg_list" in a for a in args) else set())
    glob = {k: float(g.standard_normal()) for k in KEYS if k not in used}
    chain, ref = bijx.Chain(*bs), chain_ref(rs, rargs)
    batch = d.pick([(), (2,)], "batch")
    x, ld = g.standard_normal(batch + ev), g.standard_normal(batch)
    for rev in (False, True):
        y, l = (chain.reverse if rev else chain.forward)(jnp.asarray(x), jnp.asarray(ld), arg_list=args, **glob)
        wy, wl = (ref.rev if rev else ref.fwd)(x, ld, glob)
        close(y, wy, f"value with arg_list ({'reverse' if rev else 'forward'})", rtol=1e-9, atol=1e-9 * (1 + np.abs(wy).max()))
        close(l, wl, f"log-density with arg_list ({'reverse' if rev else 'forward'})", rtol=1e-9, atol=1e-9)
    return n > 1


@facet(quick=30, thorough=300, shards=1)
def inversion(d):
    """inverting twice restores the very same object; ScanChain == Chain of its layers for library bijections"""
    c = d.pick([bij.elementwise, bij.radial, bij.coupling, bij.fourier], "kind")(d)
    must(c.b.invert().invert() is c.b, f"{c.name}.invert().invert() is not the original")
    g = d.gen("g")
    x = c.sample(g, (3,))
    y0, l0 = c.b.forward(jnp.asarray(x), jnp.zeros(3))
    y1, l1 = c.b.invert().reverse(jnp.asarray(x), jnp.zeros(3))
    must(np.array_equal(np.asarray(y0), np.asarray(y1), equal_nan=True) and np.array_equal(np.asarray(l0), np.asarray(l1), equal_nan=True),
         f"{c.name}: inverse.reverse differs from forward")
    x0, m0 = c.b.reverse(y0, l0)
    x1, m1 = bijx.Inverse(c.b).forward(y0, l0)
    must(np.array_equal(np.asarray(x0), np.asarray(x1), equal_nan=True) and np.array_equal(np.asarray(m0), np.asarray(m1), equal_nan=True),
         f"{c.name}: Inverse.forward differs from reverse")


@facet(quick=30, thorough=300, shards=1)
def scan_of_library(d):
    g = d.gen("g")
    n, ev = d.int(1, 4, "layers"), (3,)
    kind = d.pick(["affine", "spline", "cubic", "chain", "coupling"], "layer")
    if kind == "affine":
        mk = lambda: bijx.AffineLinear(jnp.zeros(ev), jnp.zeros(ev))
    elif kind == "spline":
        mk = lambda: bijx.MonotoneRQSpline(4, ev, rngs=nnx.Rngs(0))
    elif kind == "cubic":
        mk = lambda: bijx.CubicConjugation(*[jnp.zeros(ev)] * 4)
    elif kind == "chain":
        mk = lambda: bijx.Chain(bijx.AffineLinear(jnp.zeros(ev), jnp.zeros(ev)), bijx.Inverse(bijx.SinhConjugation(*[jnp.zeros(())] * 5)))
    else:
        rec = bijx.ModuleReconstructor(bijx.AffineLinear(jnp.zeros(()), jnp.zeros(())))
        mask = bijx.checker_mask((4,), False)
        ev = (4,)
        mk = lambda: bijx.GeneralCouplingLayer(bij.Dense(2, (2, 2), np.random.default_rng(0)), mask, rec)
    layers = [jx.leaves_random(mk(), g, 0.5) for _ in range(n)]
    graph = nnx.split(layers[0])[0]
    params = [nnx.split(l, nnx.Param, ...) for l in layers]
    stacked = jax.tree.map(lambda *a: jnp.stack(a), *[p[1] for p in params])
    rest = jax.tree.map(lambda a: jnp.stack([a] * n), params[0][2])
    scan = bijx.ScanChain(nnx.merge(params[0][0], stacked, rest))
    chain = bijx.Chain(*layers)
    x, ld = g.standard_normal((2,) + ev), g.standard_normal(2)
    for rev in (False, True):
        a = (scan.reverse if rev else scan.forward)(jnp.asarray(x), jnp.asarray(ld))
        b = (chain.reverse if rev else chain.forward)(jnp.asarray(x), jnp.asarray(ld))
        close(a[0], b[0], f"ScanChain vs Chain, {kind}", rtol=1e-9, atol=1e-9 * (1 + np.abs(np.asarray(b[0])).max()))
        close(a[1], b[1], f"ScanChain vs Chain log-density, {kind}", rtol=1e-9, atol=1e-8)
    return n > 1
