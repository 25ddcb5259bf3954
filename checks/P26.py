"""Cases: FlowJAX bijections (elementwise, splines, triangular, permutations, coupling, autoregressive, conditional, chains,
inverses, stacks, whole flows) and distributions (plain, heavy tailed, multivariate, mixtures, transformed, conditional) with
random parameters; bijections and distributions of this library of every kind and conditional ones; event and batch shapes,
conditions shared or per sample, condition names, incoming log-densities, conversions there and back, mixed compositions,
compiled and differentiated.  Oracle: the unwrapped object, sample by sample in its own library.  Non-trivial: a batch or a
condition, and a map that changes volume."""
import bijx
import bijx.flowjax as bf
import equinox as eqx
import flowjax.bijections as B
import flowjax.distributions as D
import flowjax.flows as F
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx
from scipy import stats

from vf import bij, close, fail, facet, jx, must, shape

KW = dict(rtol=1e-8, atol=1e-8)


def randomise(m, g, scale=0.3):
    """add noise to all floating point parameters that FlowJAX regards as trainable"""
    p, s = eqx.partition(m, eqx.is_inexact_array)
    p = jax.tree.map(lambda v: v + jnp.asarray(scale * g.standard_normal(v.shape), v.dtype), p)
    return eqx.combine(p, s)


def fj_bijection(d, depth=0):
    """(bijection, sampler of inputs, tolerance of the inverse)"""
    g = d.gen("fj").spawn(1)[0]
    key = jax.random.key(int(g.integers(2**31)))
    kinds = ["affine", "affine0", "affine2d", "tri", "rqs", "vmap", "tanhchain", "permute", "flip", "coupling", "coupling-c",
             "maf", "maf-c", "additive", "planar", "reshape", "stack", "concat", "softplus", "scan", "flow", "flow-c", "householder"]
    if depth == 0:
        kinds += ["chain", "invert", "chain-c"]
    k = d.pick(kinds, "flowjax bijection")
    n = d.pick([2, 3], "dim")
    r = lambda *s: jnp.asarray(g.standard_normal(s))
    pos = lambda *s: jnp.asarray(np.exp(0.4 * g.standard_normal(s)))
    inp = None
    if k == "affine":
        b = B.Affine(r(n), pos(n))
    elif k == "affine0":
        b = B.Affine(r(), pos())
    elif k == "affine2d":
        b = B.Affine(r(2, n), pos(2, n))
    elif k == "tri":
        b = B.TriangularAffine(r(n), np.tril(g.standard_normal((n, n)), -1) + np.diag(np.exp(0.3 * g.standard_normal(n))), lower=d.bool("lower"))
    elif k == "rqs":
        b = randomise(B.RationalQuadraticSpline(knots=4, interval=(-2, 2)), g, 1.0)
    elif k == "vmap":
        b = randomise(B.Vmap(B.RationalQuadraticSpline(knots=4, interval=2.0), axis_size=n), g, 1.0)
    elif k == "tanhchain":
        b = B.Chain([B.Affine(r(n), pos(n)), B.LeakyTanh(1.5, (n,))])
    elif k == "permute":
        b = B.Chain([B.Permute(jnp.asarray(g.permutation(n))), B.Affine(r(n), pos(n))])
    elif k == "flip":
        b = B.Chain([B.Affine(r(n), pos(n)), B.Flip((n,))])
    elif k.startswith("coupling"):
        b = B.Coupling(key, transformer=B.Affine(), untransformed_dim=1, dim=n, nn_width=4, nn_depth=1, cond_dim=2 if k.endswith("c") else None)
        b = randomise(b, g)
    elif k.startswith("maf"):
        b = B.MaskedAutoregressive(key, transformer=B.Affine(), dim=n, nn_width=5, nn_depth=1, cond_dim=2 if k.endswith("c") else None)
        b = randomise(b, g)
    elif k == "additive":
        cs = d.pick([(), (2,), (2, 2)], "cond shape")
        b = B.AdditiveCondition(lambda c: jnp.sum(c**2) + jnp.arange(1.0, n + 1), (n,), cs)
    elif k == "planar":
        b = randomise(B.Planar(key, dim=n, negative_slope=0.1), g, 0.7)
    elif k == "reshape":
        b = B.Reshape(B.Affine(r(2 * n), pos(2 * n)), (2, n))
    elif k == "stack":
        b = B.Stack([B.Affine(r(n), pos(n)), B.Scale(pos(n))], axis=d.pick([0, 1], "axis"))
    elif k == "concat":
        b = B.Concatenate([B.Affine(r(n), pos(n)), B.Scale(pos(2))])
    elif k == "softplus":
        b = B.Chain([B.Affine(r(n), pos(n)), B.SoftPlus((n,))])
    elif k == "householder":
        b = B.Chain([B.Householder(r(n)), B.Affine(r(n), pos(n))])
    elif k == "scan":
        b = B.Scan(eqx.filter_vmap(B.Affine)(r(3, n), pos(3, n)))
    elif k.startswith("flow"):
        c = 2 if k.endswith("c") else None
        f = d.pick([F.coupling_flow, F.masked_autoregressive_flow], "flow")
        b = f(key, base_dist=D.Normal(jnp.zeros(n)), flow_layers=2, nn_width=4, nn_depth=1, cond_dim=c, invert=d.bool("invert")).bijection
        b = randomise(b, g, 0.2)
    elif k == "chain":
        b1, _, _ = fj_bijection(d, 1)
        b = B.Chain([b1, B.Affine(r(*b1.shape), pos(*b1.shape))])
    elif k == "chain-c":
        b = B.Chain([B.AdditiveCondition(lambda c: jnp.sin(c).sum() * jnp.ones(n), (n,), (2,)), B.Affine(r(n), pos(n))])
    else:
        b1, _, _ = fj_bijection(d, 1)
        b = B.Invert(b1)
    d.note(kind=k)
    return b, k, 1e-5


def draw_batch(d):
    return d.pick([(), (3,), (1,), (3, 2)], "batch")


def draw_cond(d, g, cs, batch, shared=True):
    """(condition passed, condition per sample)"""
    if cs is None:
        return None, None
    if batch and shared and d.bool("shared condition"):
        c = g.standard_normal(cs)
        return jnp.asarray(c), np.broadcast_to(c, batch + cs)
    c = g.standard_normal(batch + cs)
    return jnp.asarray(c), c


def loop(f, event, x, c, cs, jit=True):
    """apply a single-sample function to every sample of a batch"""
    batch = x.shape[: x.ndim - len(event)]
    xs = np.reshape(x, (-1,) + event)
    cc = [None] * len(xs) if c is None else np.reshape(c, (-1,) + cs)
    f = eqx.filter_jit(f) if jit else f
    out = [f(jnp.asarray(a), None if b is None else jnp.asarray(b)) for a, b in zip(xs, cc)]
    return [np.stack([np.asarray(o[i]) for o in out]).reshape(batch + np.shape(out[0][i])) for i in range(len(out[0]))]


@facet(30, 500, shards=2)
def flowjax_bijections(d):
    b, kind, itol = fj_bijection(d)
    batch = draw_batch(d)
    g = d.gen("data").spawn(1)[0]
    via = d.pick(["from_flowjax", "class", "named"], "constructor")
    name = "condition"
    if via == "from_flowjax":
        w = bf.from_flowjax(b)
    elif via == "class":
        w = bf.FlowjaxToBijxBijection(b)
    else:
        name = d.pick(["c", "theta", "x_cond"], "condition name")
        w = bf.FlowjaxToBijxBijection(b, name)
    must(isinstance(w, bijx.Bijection), "a converted bijection is not a bijection of this library")
    event, cs = b.shape, b.cond_shape
    x = g.standard_normal(batch + event)
    c, cc = draw_cond(d, g, cs, batch)
    kw = {} if c is None else {name: c}
    if d.bool("unrelated keyword"):
        kw["unrelated"] = 1.5
    ld0 = g.standard_normal(batch)
    how = d.pick(["eager", "nnx.jit", "split"], "evaluated")

    def run(z, l, reverse):
        f = lambda m, z, l: (m.reverse if reverse else m.forward)(z, l, **kw)
        if how == "eager":
            return f(w, jnp.asarray(z), jnp.asarray(l))
        if how == "nnx.jit":
            return nnx.jit(f)(w, jnp.asarray(z), jnp.asarray(l))
        gd, st = nnx.split(w)
        return jax.jit(lambda st, z, l: f(nnx.merge(gd, st), z, l))(st, jnp.asarray(z), jnp.asarray(l))

    fwd_ok = True
    try:
        ry, rl = loop(b.transform_and_log_det, event, x, cc, cs)
    except NotImplementedError:
        fwd_ok = False
    fwd_ok = fwd_ok and bool(np.isfinite(ry).all() and np.isfinite(rl).all())
    if fwd_ok:
        y, ld = run(x, ld0, False)
        close(y, ry, f"forward of a wrapped FlowJAX {kind}", **KW)
        close(ld, ld0 - rl, f"log-density after forward of a wrapped FlowJAX {kind}", **KW)
    else:
        ry, rl = x, np.zeros(batch)
    try:
        rx, ril = loop(b.inverse_and_log_det, event, ry, cc, cs)
    except NotImplementedError:
        return False
    if np.isfinite(rx).all() and np.isfinite(ril).all():
        xi, li = run(ry, ld0, True)
        close(xi, rx, f"reverse of a wrapped FlowJAX {kind}", **KW)
        close(li, ld0 - ril, f"log-density after reverse of a wrapped FlowJAX {kind}", **KW)
        # there and back again
        back = bf.to_flowjax(w, event, cs) if name == "condition" else bf.BijxToFlowjaxBijection.from_bijection(w, event, cs, name)
        must(back.shape == event and back.cond_shape == cs, "shapes of the bijection converted back", got=(back.shape, back.cond_shape))
        if fwd_ok:
            by, bl = loop(back.transform_and_log_det, event, x, cc, cs)
            close(by, ry, "transform of the bijection converted back", **KW)
            close(bl, rl, "log-determinant of the bijection converted back", **KW)
        bx, bil = loop(back.inverse_and_log_det, event, ry, cc, cs)
        close(bx, rx, "inverse of the bijection converted back", **KW)
        close(bil, ril, "inverse log-determinant of the bijection converted back", **KW)
    return bool(batch or c is not None) and bool(np.abs(rl).max() > 1e-9)


class CondAffine(bijx.Bijection):
    """y = x exp(s.c) + t.c with the condition taken from a named keyword"""

    def __init__(self, g, event, cs, name):
        self.s = nnx.Param(jnp.asarray(0.4 * g.standard_normal(event + cs)))
        self.t = nnx.Param(jnp.asarray(g.standard_normal(event + cs)))
        self.name, self.e, self.k = name, len(event), len(cs)

    def st(self, kw):
        c = kw[self.name]
        c = c.reshape(c.shape[: c.ndim - self.k] + (1,) * self.e + c.shape[c.ndim - self.k :])
        ax = tuple(range(-self.k, 0))
        return (self.s.get_value() * c).sum(ax), (self.t.get_value() * c).sum(ax)

    def forward(self, x, ld, **kw):
        s, t = self.st(kw)
        tot = jnp.broadcast_to(s, x.shape).sum(tuple(range(-self.e, 0)))
        return x * jnp.exp(s) + t, ld - tot

    def reverse(self, x, ld, **kw):
        s, t = self.st(kw)
        tot = jnp.broadcast_to(s, x.shape).sum(tuple(range(-self.e, 0)))
        return (x - t) * jnp.exp(-s), ld + tot


class CondNormal(bijx.Distribution):
    """N(m.c, exp(2 s)) with the condition taken from a named keyword"""

    def __init__(self, g, n, cs, name):
        super().__init__(None)
        self.m = nnx.Param(jnp.asarray(g.standard_normal((n,) + cs)))
        self.s = nnx.Param(jnp.asarray(0.4 * g.standard_normal(n)))
        self.name, self.k = name, len(cs)

    def mean(self, kw):
        c = kw[self.name]
        c = c.reshape(c.shape[: c.ndim - self.k] + (1,) + c.shape[c.ndim - self.k :])
        return (self.m.get_value() * c).sum(tuple(range(-self.k, 0)))

    def sample(self, batch_shape=(), rng=None, **kw):
        m = self.mean(kw)
        s = self.s.get_value()
        x = m + jnp.exp(s) * jax.random.normal(rng, tuple(batch_shape) + m.shape)
        return x, self.log_density(x, **kw)

    def log_density(self, x, **kw):
        s = self.s.get_value()
        z = (x - self.mean(kw)) * jnp.exp(-s)
        return (-0.5 * z**2 - s - 0.5 * jnp.log(2 * jnp.pi)).sum(-1)

    def get_batch_shape(self, x):
        return x.shape[:-1]


@facet(20, 400, shards=2)
def own_bijections(d):
    g = d.gen("data").spawn(1)[0]
    name, cs = "condition", None
    if d.int(0, 3, "conditional") == 0:
        event = d.pick([(3,), (2, 2)], "event")
        cs = d.pick([(2,), (), (2, 2)], "cond shape")
        name = d.pick(["condition", "theta"], "condition name")
        b = CondAffine(g, event, cs, name)
        if d.bool("in a chain"):
            b = bijx.Chain(b, bijx.AffineLinear(jnp.asarray(0.3 * g.standard_normal(event)), jnp.asarray(g.standard_normal(event))))
        rtol, x1 = 1e-9, g.standard_normal(event)
    else:
        c = bij.draw_case(d)
        if c.kwargs:
            b = bijx.Partial(c.b, **c.kwargs)
        else:
            b = c.b
        event, rtol = c.event, max(c.rtol, 1e-9)
        x1 = np.asarray(c.sample(g, ()))
    f = bf.to_flowjax(b, event, cs) if name == "condition" and d.bool("entry point") else bf.BijxToFlowjaxBijection.from_bijection(b, event, cs, name)
    must(isinstance(f, B.AbstractBijection), "a converted bijection is not a FlowJAX bijection")
    must(tuple(f.shape) == event and f.cond_shape == cs, "shapes of the converted bijection", got=(f.shape, f.cond_shape))
    cond = None if cs is None else jnp.asarray(g.standard_normal(cs))
    kw = {} if cs is None else {name: cond}
    y0, l0 = b.forward(jnp.asarray(x1), jnp.zeros(()), **kw)
    if y0.shape != event or np.iscomplexobj(y0):
        return False  # FlowJAX bijections preserve the shape
    wrap = eqx.filter_jit if d.bool("filter_jit") else (lambda h: h)
    tol = dict(rtol=10 * rtol, atol=10 * rtol)
    y, ld = wrap(f.transform_and_log_det)(jnp.asarray(x1), cond)
    close(y, y0, "transform of a converted bijection", **tol)
    close(ld, -np.asarray(l0), "log-determinant of a converted bijection", **tol)
    x0, r0 = b.reverse(y0, jnp.zeros(()), **kw)
    x, rl = wrap(f.inverse_and_log_det)(y0, cond)
    close(x, x0, "inverse of a converted bijection", **tol)
    close(rl, -np.asarray(r0), "inverse log-determinant of a converted bijection", **tol)
    close(f.transform(jnp.asarray(x1), cond), y0, "transform alone", **tol)
    close(f.inverse(y0, cond), x0, "inverse alone", **tol)
    iv = B.Invert(f)
    z, zl = iv.transform_and_log_det(y0, cond)
    close(z, x0, "FlowJAX inverse of a converted bijection", **tol)
    close(zl, -np.asarray(r0), "log-determinant of the FlowJAX inverse of a converted bijection", **tol)
    a = B.Affine(jnp.asarray(g.standard_normal(event)), jnp.asarray(np.exp(0.3 * g.standard_normal(event))))
    ch = B.Chain([f, a])
    w, wl = ch.transform_and_log_det(jnp.asarray(x1), cond)
    ra, la = a.transform_and_log_det(y0)
    close(w, ra, "FlowJAX chain with a converted bijection", **tol)
    close(wl, la - l0, "log-determinant of a FlowJAX chain with a converted bijection", **tol)
    # there and back again: original behaviour on batches
    back = bf.from_flowjax(f)
    xb = np.stack([x1, np.asarray(x1)[..., ::-1] if event else x1])
    kb = {} if cs is None else {"condition": jnp.stack([cond, cond])}
    ld0 = jnp.asarray(g.standard_normal(2))
    yb, lb = back.forward(jnp.asarray(xb), ld0, **kb)
    for i in range(2):
        yi, li = b.forward(jnp.asarray(xb[i]), ld0[i], **kw)
        close(yb[i], yi, "bijection converted there and back", **tol)
        close(lb[i], li, "log-density of the bijection converted there and back", **tol)
    xr, lr = back.reverse(jnp.stack([y0, y0]), ld0, **kb)
    for i in range(2):
        close(xr[i], x0, "reverse of the bijection converted there and back", **tol)
        close(lr[i], ld0[i] + r0, "log-density of the reverse converted there and back", **tol)
    kc = f.bijx_bijection
    yk, lk = kc.forward(jnp.asarray(x1), jnp.zeros(()), **kw)
    close(yk, y0, "reconstructed bijection", **tol)
    if cs is None:
        for m in (f.transform_and_log_det, f.inverse_and_log_det):
            try:
                m(jnp.asarray(x1), jnp.ones(2))
            except (TypeError, ValueError):
                pass
            else:
                fail("a condition passed to an unconditional converted bijection is silently ignored")
    return bool(np.abs(np.asarray(l0)).max() > 1e-9)


def fj_distribution(d):
    g = d.gen("fj").spawn(1)[0]
    key = jax.random.key(int(g.integers(2**31)))
    n = d.pick([2, 3], "dim")
    r = lambda *s: jnp.asarray(g.standard_normal(s))
    pos = lambda *s: jnp.asarray(np.exp(0.4 * g.standard_normal(s)))
    k = d.pick(["normal", "normal0", "normal2d", "uniform", "student", "cauchy", "gamma", "beta", "mvn", "exponential", "laplace", "lognormal",
                "mixture", "transformed", "flow", "flow-c", "shift-c"], "flowjax distribution")
    if k == "normal":
        m = D.Normal(r(n), pos(n))
    elif k == "normal0":
        m = D.Normal(r(), pos())
    elif k == "normal2d":
        m = D.Normal(r(2, n), pos(2, n))
    elif k == "uniform":
        lo = r(n)
        m = D.Uniform(lo, lo + pos(n))
    elif k == "student":
        m = D.StudentT(3 * pos(n), r(n), pos(n))
    elif k == "cauchy":
        m = D.Cauchy(r(n), pos(n))
    elif k == "gamma":
        m = D.Gamma(1 + pos(n), pos(n))
    elif k == "beta":
        m = D.Beta(1 + pos(n), 1 + pos(n))
    elif k == "mvn":
        a = g.standard_normal((n, n))
        m = D.MultivariateNormal(r(n), jnp.asarray(a @ a.T + 0.5 * np.eye(n)))
    elif k == "exponential":
        m = D.Exponential(pos(n))
    elif k == "laplace":
        m = D.Laplace(r(n), pos(n))
    elif k == "lognormal":
        m = D.LogNormal(r(n), pos(n))
    elif k == "mixture":
        m = D.VmapMixture(eqx.filter_vmap(D.Normal)(2 * r(3, n), pos(3, n)), pos(3))
    elif k == "transformed":
        m = D.Transformed(D.Normal(r(n), pos(n)), B.Chain([B.LeakyTanh(1.5, (n,)), B.TriangularAffine(r(n), jnp.eye(n) + jnp.tril(r(n, n), -1))]))
    elif k.startswith("flow"):
        f = F.masked_autoregressive_flow if d.bool("maf") else F.coupling_flow
        m = f(key, base_dist=D.Normal(jnp.zeros(n)), flow_layers=2, nn_width=4, nn_depth=1, cond_dim=2 if k.endswith("c") else None, invert=False)
        m = randomise(m, g, 0.2)
    else:
        cs = d.pick([(2,), ()], "cond shape")
        m = D.Transformed(D.Normal(r(n), pos(n)), B.AdditiveCondition(lambda c: 2 * c.sum() * jnp.arange(1.0, n + 1), (n,), cs))
    d.note(kind=k)
    return m, k


def same_law(a, b, what):
    """two-sample Kolmogorov-Smirnov test of every coordinate and of one combination"""
    a, b = np.reshape(a, (len(a), -1)), np.reshape(b, (len(b), -1))
    cols = [(a[:, i], b[:, i]) for i in range(a.shape[1])]
    if a.shape[1] > 1:
        cols.append((a[:, 0] - a[:, 1], b[:, 0] - b[:, 1]))
    for i, (u, v) in enumerate(cols):
        p = stats.ks_2samp(u, v, method="asymp").pvalue
        must(p > 1e-11, f"{what}: samples do not follow the distribution (column {i}, p={p:.2g})")


@facet(13, 250, shards=2)
def flowjax_distributions(d):
    m, kind = fj_distribution(d)
    g = d.gen("data").spawn(1)[0]
    event, cs = m.shape, m.cond_shape
    via = d.pick(["from_flowjax", "class", "named"], "constructor")
    name = "condition"
    rngs = nnx.Rngs(int(g.integers(2**31)))
    if via == "from_flowjax":
        w = bf.from_flowjax(m)
    elif via == "class":
        w = bf.FlowjaxToBijxDistribution(m, rngs=rngs)
    else:
        name = "theta"
        w = bf.FlowjaxToBijxDistribution(m, name, rngs)
    must(isinstance(w, bijx.Distribution), "a converted distribution is not a distribution of this library")
    c = None if cs is None else jnp.asarray(g.standard_normal(cs))
    kw = {} if c is None else {name: c}
    key = d.key()
    batch = draw_batch(d)
    x, lp = w.sample(batch, rng=key, **kw)
    shape(x, batch + event, "samples")
    shape(lp, batch, "log-density of samples")
    ref = loop(lambda x, c: (m.log_prob(x, c),), event, np.asarray(x), None if c is None else np.broadcast_to(c, batch + cs), cs)[0]
    close(lp, ref, f"log-density returned with samples of a wrapped {kind}", **KW)
    close(w.log_density(x, **kw), ref, f"log-density of samples of a wrapped {kind}", **KW)
    must(tuple(w.get_batch_shape(x)) == batch, "batch shape", got=w.get_batch_shape(x), want=batch)
    x2, _ = w.sample(batch, rng=key, **kw)
    close(x2, x, "samples with the same key", rtol=1e-12, atol=1e-12)
    if via != "from_flowjax" and c is None:
        a, _ = w.sample((2,))
        b2, _ = w.sample((2,))
        must(not np.allclose(a, b2), "consecutive samples without key are equal")
    # arbitrary points, outside the support too
    pts = 2 * g.standard_normal((3,) + event)
    cc = None if c is None else g.standard_normal((3,) + cs)
    kc = {} if c is None else {name: jnp.asarray(cc)}
    ref = loop(lambda x, c: (m.log_prob(x, c),), event, pts, cc, cs)[0]
    got = np.asarray(w.log_density(jnp.asarray(pts), **kc))
    close(got, ref, f"log-density of a wrapped {kind} at arbitrary points", **KW)
    gd, st = nnx.split(w)
    got = jax.jit(lambda st, x: nnx.merge(gd, st).log_density(x, **kc))(st, jnp.asarray(pts))
    close(got, ref, f"compiled log-density of a wrapped {kind}", **KW)
    if c is not None:
        # conditions per sample: one sample for each
        xs, ls = w.sample((2,), rng=key, **kc)
        shape(xs, (2, 3) + event, "samples for a batch of conditions")
        rr = loop(lambda x, c: (m.log_prob(x, c),), event, np.asarray(xs), np.broadcast_to(cc, (2, 3) + cs), cs)[0]
        close(ls, rr, "log-density of samples for a batch of conditions", **KW)
    n = 1500
    k1, k2 = jax.random.split(key)
    same_law(w.sample((n,), rng=k1, **kw)[0], m.sample(k2, (n,), c), f"wrapped {kind}")
    back = bf.to_flowjax(w, event, cs) if name == "condition" else bf.BijxToFlowjaxDistribution.from_distribution(w, event, cs, name)
    must(back.shape == event and back.cond_shape == cs, "shapes of the distribution converted back")
    close(back.log_prob(jnp.asarray(pts), None if cc is None else jnp.asarray(cc)), ref, "log-density of the distribution converted back", **KW)
    return True


def own_distribution(d):
    g = d.gen("own").spawn(1)[0]
    n = d.pick([2, 3], "dim")
    r = lambda *s: jnp.asarray(g.standard_normal(s))
    k = d.pick(["normal", "normal0", "normal2d", "uniform", "diag", "mvn", "mixture", "stack", "transformed", "cond", "cond-transformed"], "own distribution")
    rngs = nnx.Rngs(0) if d.bool("rngs") else None
    ev = (n,)
    cs, name = None, "condition"
    if k == "normal":
        m = bijx.IndependentNormal((n,), rngs=rngs)
    elif k == "normal0":
        m, ev = bijx.IndependentNormal((), rngs=rngs), ()
    elif k == "normal2d":
        m, ev = bijx.IndependentNormal((2, n), rngs=rngs), (2, n)
    elif k == "uniform":
        m = bijx.IndependentUniform((n,), rngs=rngs)
    elif k == "diag":
        m = bijx.DiagonalNormal(r(n), jnp.exp(0.4 * r(n)), rngs=rngs)
    elif k == "mvn":
        a = g.standard_normal((n, n))
        m = bijx.MultivariateNormal.given_cov(r(n), jnp.asarray(a @ a.T + 0.5 * np.eye(n)), rngs=rngs)
    elif k == "mixture":
        a = g.standard_normal((2, n, n))
        m = bijx.GaussianMixture(2 * r(2, n), jnp.asarray(a @ np.swapaxes(a, 1, 2) + 0.5 * np.eye(n)), jnp.exp(r(2)), rngs=rngs)
    elif k == "stack":
        m = bijx.Transformed(bijx.IndependentNormal((n,), rngs=rngs), bijx.Shift(r(n)))
    elif k == "transformed":
        m = bijx.Transformed(bijx.IndependentNormal((n,), rngs=rngs), bijx.Chain(bijx.AffineLinear(0.4 * r(n), r(n)), bijx.Tanh()))
    else:
        cs = d.pick([(2,), (), (2, 2)], "cond shape")
        name = d.pick(["condition", "theta"], "condition name")
        if k == "cond":
            m = CondNormal(g, n, cs, name)
        else:
            m = bijx.Transformed(bijx.IndependentNormal((n,), rngs=rngs), CondAffine(g, (n,), cs, name))
    d.note(kind=k)
    return m, k, ev, cs, name


@facet(13, 250, shards=2)
def own_distributions(d):
    m, kind, event, cs, name = own_distribution(d)
    g = d.gen("data").spawn(1)[0]
    f = bf.to_flowjax(m, event, cs) if name == "condition" else bf.BijxToFlowjaxDistribution.from_distribution(m, event, cs, name)
    must(isinstance(f, D.AbstractDistribution), "a converted distribution is not a FlowJAX distribution")
    must(tuple(f.shape) == event and f.cond_shape == cs, "shapes of the converted distribution", got=(f.shape, f.cond_shape))
    c = None if cs is None else jnp.asarray(g.standard_normal(cs))
    kw = {} if c is None else {name: c}
    key = d.key()
    batch = draw_batch(d)
    dens = lambda x, c: (m.log_density(x, **({} if c is None else {name: c})),)
    x, lp = f.sample_and_log_prob(key, batch, c)
    shape(x, batch + event, "samples")
    ref = loop(dens, event, np.asarray(x), None if c is None else np.broadcast_to(c, batch + cs), cs, False)[0]
    close(lp, ref, f"log-probability returned with samples of a converted {kind}", **KW)
    xs = f.sample(key, batch, c)
    shape(xs, batch + event, "samples alone")
    # each sample of a batch gets its own randomness
    if batch and int(np.prod(batch)) > 1:
        flat = np.reshape(xs, (int(np.prod(batch)), -1))
        must(len(np.unique(flat[:, 0])) == len(flat), "samples of a batch repeat", got=flat)
    pts = g.uniform(0.02, 0.98, (3,) + event) if kind in ("uniform", "transformed") else 2 * g.standard_normal((3,) + event)
    cc = None if c is None else g.standard_normal((3,) + cs)
    ref = loop(dens, event, pts, cc, cs, False)[0]
    jc = None if cc is None else jnp.asarray(cc)
    close(f.log_prob(jnp.asarray(pts), jc), ref, f"log-probability of a converted {kind}", **KW)
    close(eqx.filter_jit(lambda f, x, c: f.log_prob(x, c))(f, jnp.asarray(pts), jc), ref, f"compiled log-probability of a converted {kind}", **KW)
    n = 1500
    k1, k2, k3 = jax.random.split(key, 3)
    a = np.asarray(f.sample(k1, (n,), c))
    same_law(a, m.sample((n,), rng=k2, **kw)[0], f"converted {kind}")
    same_law(f.sample_and_log_prob(k3, (n,), c)[0], a, f"converted {kind}, sampled with log-probability")
    # composed with FlowJAX maps, and converted back
    if kind not in ("uniform",):
        sc, sh = np.exp(0.3 * g.standard_normal(event)), g.standard_normal(event)
        t = D.Transformed(f, B.Affine(jnp.asarray(sh), jnp.asarray(sc)))
        close(t.log_prob(jnp.asarray(pts * sc + sh), jc), ref - np.log(sc).sum(), "converted distribution under a FlowJAX transformation", **KW)
    back = bf.from_flowjax(f)
    kb = {} if jc is None else {"condition": jc}
    close(back.log_density(jnp.asarray(pts), **kb), ref, "log-density of the distribution converted there and back", **KW)
    xb, lb = back.sample(batch, rng=key, **({} if c is None else {"condition": c}))
    shape(xb, batch + event, "samples of the distribution converted there and back")
    rb = loop(dens, event, np.asarray(xb), None if c is None else np.broadcast_to(c, batch + cs), cs, False)[0]
    close(lb, rb, "log-density of samples converted there and back", **KW)
    return True


@facet(18, 250, shards=2)
def mixed_and_trained(d):
    """mixed compositions, gradients with respect to the parameters of either library, and updates of them"""
    g = d.gen("data").spawn(1)[0]
    n = d.pick([2, 3], "dim")
    fb, kind, _ = None, None, None
    key = jax.random.key(int(g.integers(2**31)))
    k = d.pick(["affine", "coupling", "rqs", "maf", "permuted"], "flowjax part")
    r = lambda *s: jnp.asarray(g.standard_normal(s))
    if k == "affine":
        fb = B.Affine(r(n), jnp.exp(0.3 * r(n)))
    elif k == "coupling":
        fb = randomise(B.Coupling(key, transformer=B.Affine(), untransformed_dim=1, dim=n, nn_width=4, nn_depth=1), g)
    elif k == "maf":
        fb = randomise(B.MaskedAutoregressive(key, transformer=B.Affine(), dim=n, nn_width=4, nn_depth=1), g)
    elif k == "permuted":
        fb = B.Chain([B.Permute(jnp.asarray(g.permutation(n))), B.Affine(r(n), jnp.exp(0.3 * r(n)))])
    else:
        fb = randomise(B.Vmap(B.RationalQuadraticSpline(knots=4, interval=2.0), axis_size=n), g, 1.0)
    own = bijx.AffineLinear(0.3 * r(n), r(n))
    x = jnp.asarray(g.standard_normal((4, n)))
    w = bf.from_flowjax(fb)
    flow = bijx.Transformed(bijx.IndependentNormal((n,)), bijx.Chain(own, w))
    base = D.Normal(jnp.zeros(n), jnp.ones(n))
    fflow = D.Transformed(base, B.Chain([bf.to_flowjax(own, (n,)), fb]))
    ref = fflow.log_prob(x)
    close(flow.log_density(x), ref, f"mixed flow (own map, then FlowJAX {k}) in both libraries", **KW)
    # gradient with respect to the FlowJAX parameters
    gf = eqx.filter_grad(lambda b: jax.vmap(b.inverse_and_log_det)(x)[1].sum() + jnp.sin(jax.vmap(b.inverse)(x)).sum())(fb)

    def loss(m):
        z, l = m.reverse(x, jnp.zeros(4))
        return -l.sum() + jnp.sin(z).sum()

    gb = nnx.grad(loss)(w)
    a = sorted(float(np.linalg.norm(v)) for v in jax.tree.leaves(eqx.filter(gf, eqx.is_inexact_array)))
    b = sorted(float(np.linalg.norm(v)) for v in jax.tree.leaves(gb))
    must(len(a) == len(b), "number of parameters exposed for training differs from FlowJAX's own", got=len(b), want=len(a))
    close(np.array(b), np.array(a), "gradients with respect to the FlowJAX parameters", rtol=1e-7, atol=1e-8)
    # and with respect to the own parameters, inside FlowJAX
    fo = bf.to_flowjax(own, (n,))
    go = eqx.filter_grad(lambda f: jax.vmap(f.inverse_and_log_det)(x)[1].sum() + jnp.sin(jax.vmap(f.inverse)(x)).sum())(fo)
    gn = nnx.grad(loss)(own)
    a = sorted(float(np.linalg.norm(v)) for v in jax.tree.leaves(gn))
    b = sorted(float(np.linalg.norm(v)) for v in jax.tree.leaves(eqx.filter(go, eqx.is_inexact_array)))
    close(np.array(b), np.array(a), "gradients with respect to the own parameters inside FlowJAX", rtol=1e-7, atol=1e-8)
    # a changed parameter changes the behaviour like in the original
    ps = eqx.filter(fb, eqx.is_inexact_array)
    step = d.float(0.05, 0.3, "step")
    fb2 = eqx.combine(jax.tree.map(lambda p: p + step, ps), fb)
    gd, st, rest = nnx.split(w, nnx.Param, ...)
    w2 = nnx.merge(gd, jax.tree.map(lambda p: p + step, st), rest)
    y, l = w2.forward(x, jnp.zeros(4))
    ry, rl = jax.vmap(fb2.transform_and_log_det)(x)
    close(y, ry, f"wrapped FlowJAX {k} after a parameter update", **KW)
    close(l, -rl, f"log-density of the wrapped FlowJAX {k} after a parameter update", **KW)
    y1, _ = jax.vmap(w2.flowjax_bijection.transform_and_log_det)(x)
    close(y1, ry, "FlowJAX bijection reconstructed after a parameter update", **KW)
    # errors
    for bad in (lambda: bf.to_flowjax(own), lambda: bf.to_flowjax(bijx.IndependentNormal((n,)))):
        try:
            bad()
        except TypeError:
            pass
        else:
            fail("a missing shape is not reported")
    for bad in (lambda: bf.to_flowjax(jnp.ones(3), (3,)), lambda: bf.from_flowjax(own)):
        try:
            bad()
        except (TypeError, ValueError):
            pass
        else:
            fail("an unsupported module is not reported")
    return True
