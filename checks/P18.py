"""Cases: a prior (standard normal, uniform, general or diagonal normal, mixture, transformed prior, a distribution over
dictionaries) transformed by a bijection of any kind (drawn structure and parameters), batch shapes, keys, keyword arguments.
Oracle: the prior density computed with numpy at a known preimage minus the log-determinant of the Jacobian from central
differences of the forward map; numerical integration in one dimension; the preimages of samples follow the prior.
Non-trivial: the log-determinant is not zero."""
import bijx
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx
from scipy import stats
from scipy.special import logsumexp

from vf import bij, close, facet, jx, must, shape, stat

BATCH = [(3,), (2, 2), (1,), (), (2, 1)]


def draw_prior(d, event, g, rngs=None):
    """prior with given event shape, and its log-density in numpy"""
    n = int(np.prod(event, dtype=int))
    kinds = ["normal", "normal"] + (["full", "diag", "mixture"] if len(event) == 1 and n else []) + (["moved"] if True else [])
    k = d.pick(kinds, "prior")
    if k == "normal":
        return k, bijx.IndependentNormal(event, rngs=rngs), lambda x: stats.norm.logpdf(x).reshape(x.shape[: x.ndim - len(event)] + (-1,)).sum(-1)
    if k == "moved":
        s, l = np.exp(0.4 * g.standard_normal(event)), g.standard_normal(event)
        inner = bijx.Transformed(bijx.IndependentNormal(event, rngs=rngs), bijx.AffineLinear(jnp.log(s), jnp.asarray(l)))
        return k, inner, lambda x: stats.norm.logpdf(x, l, s).reshape(x.shape[: x.ndim - len(event)] + (-1,)).sum(-1)
    m = g.standard_normal(n)
    if k == "diag":
        s = np.exp(0.4 * g.standard_normal(n))
        return k, bijx.DiagonalNormal(jnp.asarray(m), jnp.asarray(s), rngs=rngs), lambda x: stats.norm.logpdf(x, m, s).sum(-1)
    a = g.standard_normal((n, n)) * 0.4
    cov = a @ a.T + 0.5 * np.eye(n)
    full = lambda x, m=m: stats.multivariate_normal(m, cov).logpdf(x).reshape(x.shape[:-1])
    if k == "full":
        return k, bijx.MultivariateNormal.given_cov(jnp.asarray(m), jnp.asarray(cov), rngs=rngs), full
    w = np.array([0.3, -0.5])
    dist = bijx.GaussianMixture(jnp.asarray(np.stack([m, -m])), jnp.asarray(np.stack([cov, cov])), jnp.asarray(w), rngs=rngs)
    lw = w - logsumexp(w)
    return k, dist, lambda x: np.logaddexp(full(x, m) + lw[0], full(x, -m) + lw[1])


def slogdet(f, x, event):
    """log |det| of the Jacobian of f at each of the rows of x (m, *event), and its uncertainty; from central differences"""
    m, n = len(x), int(np.prod(event, dtype=int))
    hs = np.array([1e-4, 2e-4])
    step = (np.concatenate([hs, -hs])[:, None, None] * np.eye(n)).reshape((4 * n,) + event)
    pts = (x[:, None] + step).reshape((m * 4 * n,) + event)
    y = np.asarray(f(jnp.asarray(pts))).reshape(m, 4, n, n)
    out = [np.linalg.slogdet((y[:, i] - y[:, 2 + i]) / (2 * hs[i]))[1] for i in range(2)]
    return out[0], np.abs(out[1] - out[0])


def _pushforward(d, c):
    g = d.gen("data").spawn(1)[0]  # unrelated to the parameters' generator, also for equal seeds
    batch = d.pick(BATCH, "batch")
    k, prior, logp = draw_prior(d, c.event, g)
    dist = bijx.Transformed(prior, c.b)
    x = np.asarray(c.sample(g, batch))
    fwd = lambda v: c.b.forward(v, jnp.zeros(v.shape[: v.ndim - len(c.event)]), **c.kwargs)[0]
    y = np.asarray(fwd(jnp.asarray(x)))
    shape(y, batch + c.event, "transformed points")
    flat = x.reshape((-1,) + c.event)
    ld, unc = [v.reshape(batch) for v in slogdet(fwd, flat, c.event)]
    ok = np.isfinite(ld) & (np.abs(ld) < 12) & (unc < 2e-2)
    got = dist.log_density(jnp.asarray(y), **c.kwargs)
    shape(got, batch, f"{c.name}: log-density of the transformed distribution")
    must(tuple(dist.get_batch_shape(jnp.asarray(y))) == batch, "batch shape of points", got=dist.get_batch_shape(jnp.asarray(y)))
    want = logp(x) - ld
    ref = np.asarray(logp(x))
    back = np.asarray(c.b.reverse(jnp.asarray(y), jnp.zeros(batch), **c.kwargs)[0])
    # conditioning: how much the prior changes within the accuracy of the inverse
    err = np.abs(back - x).reshape(batch + (-1,)).max(-1, initial=0)
    good = ok & (err <= c.inv * 10 * (1 + np.abs(x).reshape(batch + (-1,)).max(-1, initial=0)))
    tol = 1e-5 + 10 * unc + 40 * c.inv * (2 + np.abs(x).reshape(batch + (-1,)).max(-1, initial=0)) * (1 + np.abs(x).reshape(batch + (-1,)).sum(-1))
    d.note(bijection=c.name, prior=k, batch=batch, logdet=ld)
    close(np.where(good, np.asarray(got), 0), np.where(good, want, 0), f"{c.name}, prior {k}: log-density at images of known points", rtol=1e-6, atol=tol)
    dens = dist.density(jnp.asarray(y), **c.kwargs)
    close(dens, np.exp(np.asarray(got)), "density is the exponential of the log-density", rtol=1e-6)
    # samples
    key = d.key()
    s, ls = dist.sample(batch, rng=key, **c.kwargs)
    shape(s, batch + c.event, f"{c.name}: samples")
    shape(ls, batch, f"{c.name}: log-density of samples")
    s = np.asarray(s)
    pre = np.asarray(c.b.reverse(jnp.asarray(s), jnp.zeros(batch), **c.kwargs)[0])
    lds, unc = [v.reshape(batch) for v in slogdet(fwd, pre.reshape((-1,) + c.event), c.event)]
    ok = np.isfinite(lds) & (np.abs(lds) < 12) & (unc < 2e-2)
    pmax = np.abs(pre).reshape(batch + (-1,)).max(-1, initial=0)
    tol = 1e-5 + 10 * unc + 40 * c.inv * (2 + pmax) * (1 + np.abs(pre).reshape(batch + (-1,)).sum(-1))
    redo = np.asarray(fwd(jnp.asarray(pre)))
    ok &= np.abs(redo - s).reshape(batch + (-1,)).max(-1, initial=0) <= c.inv * 10 * (1 + np.abs(s).reshape(batch + (-1,)).max(-1, initial=0))
    close(np.where(ok, np.asarray(ls), 0), np.where(ok, logp(pre) - lds, 0), f"{c.name}, prior {k}: log-density returned with samples", rtol=1e-6, atol=tol)
    l2 = np.asarray(dist.log_density(jnp.asarray(s), **c.kwargs))
    close(np.where(ok, np.asarray(ls), 0), np.where(ok, l2, 0), f"{c.name}: log-density of a sample and the one returned with it", rtol=1e-6, atol=tol)
    return bool(np.abs(ld).max() > 1e-3) and bool(good.any())


def _facet(kind, name):
    def f(d):
        return _pushforward(d, kind(d))

    f.__name__ = name
    return f


elementwise = facet(quick=14, thorough=400, shards=2, tshards=3)(_facet(lambda d: bij.elementwise(d, True), "elementwise"))
coupling = facet(quick=7, thorough=150, shards=2, tshards=3)(_facet(bij.coupling, "coupling"))
radial = facet(quick=8, thorough=150, shards=2, tshards=3)(_facet(bij.radial, "radial"))
flow = facet(quick=4, thorough=100, shards=2, tshards=3)(_facet(bij.flow, "flow"))
fourier = facet(quick=16, thorough=250)(_facet(lambda d: _only(d, bij.fourier), "fourier"))
wrapped = facet(quick=8, thorough=150, shards=2, tshards=3)(_facet(lambda d: _only(d, bij.wrapped), "wrapped"))


def _only(d, kind):
    from hypothesis import assume

    c = kind(d)
    if not c.onto:
        assume(False)
    return c


@facet(quick=30, thorough=300)
def total_probability(d):
    """one dimension: the density integrates to one over the image, for line and interval priors and maps between them"""
    g = d.gen("data")
    event = d.pick([(), (1,)], "event")
    if d.bool("uniform prior"):
        prior, grid = bijx.IndependentUniform(event), 1 / (1 + np.exp(-np.linspace(-17, 17, 8001)))
        parts = [d.pick([lambda: bijx.BetaStretch(jnp.asarray(np.exp(0.5 * g.standard_normal()))), lambda: bijx.MonotoneRQSpline(5, event, rngs=nnx.Rngs(0)),
                         lambda: bijx.Chain(bijx.Sigmoid().invert(), bij.real_scalar(d, g, event))], "map")()]
        parts[0] = jx.leaves_random(parts[0], g, 0.6) if isinstance(parts[0], bijx.MonotoneRQSpline) else parts[0]
    else:
        k, prior, logp = draw_prior(d, event, g)
        grid = np.linspace(-15, 15, 16001)
        parts = [bij.real_scalar(d, g, event) for _ in range(d.int(0, 2, "maps"))]
        last = d.pick([None, bijx.Sigmoid, bijx.Tanh, bijx.Exponential, bijx.SoftPlus, "neg"], "last")
        if last == "neg":
            parts.append(bijx.Scaling(jnp.asarray(-1.7)))
        elif last is not None:
            parts.append(last())
    b = bijx.Chain(*parts)
    dist = bijx.Transformed(prior, b)
    x = grid.reshape((-1,) + (1,) * len(event))
    y = np.asarray(b.forward(jnp.asarray(x), jnp.zeros(grid.size))[0]).reshape(-1)
    keep = np.isfinite(y)
    if isinstance(parts[-1] if parts else None, (bijx.Sigmoid, bijx.Tanh)):
        keep &= (y > -1 + 1e-9) & (y < 1 - 1e-9) & (y != 0)
    if isinstance(prior, bijx.IndependentUniform) and not isinstance(parts[0], bijx.Chain):
        keep &= (y > 1e-12) & (y < 1 - 1e-9)
    y = y[keep]
    dens = np.exp(np.asarray(dist.log_density(jnp.asarray(y.reshape((-1,) + (1,) * len(event))))))
    parts_ = np.abs((dens[1:] + dens[:-1]) / 2 * np.diff(y))
    total = parts_.sum()
    if parts_.max() > 1e-3:  # too steep for the grid
        return False
    d.note(maps=[type(p).__name__ for p in parts], prior=type(prior).__name__, total=total)
    must(abs(total - 1) < 5e-3, "the density does not integrate to one", total=total)
    return len(parts) > 0


@facet(quick=30, thorough=300)
def keywords(d):
    """keyword arguments reach the bijection (and those of the prior) for sampling, density and log-density"""
    g = d.gen("data")
    n, batch = 3, d.pick(BATCH, "batch")
    depth = d.int(1, 3, "depth")
    kw = {k: float(v) for k, v in zip(bij.KEYS, g.standard_normal(2))}
    if d.bool("only one"):
        kw.pop("u")
    prior, shift, scale, const = bijx.IndependentNormal((n,)), np.zeros(n), np.ones(()), 0.0
    for _ in range(depth):
        a, b0 = np.exp(0.3 * g.standard_normal()), g.standard_normal(n)
        c, e = g.standard_normal(2), g.standard_normal(2)
        prior = bijx.Transformed(prior, bij.Probe(a, b0, c, e, 1))
        s = sum(c[i] * kw.get(k, 0.25) for i, k in enumerate(bij.KEYS))
        const += sum(e[i] * kw.get(k, 0.25) for i, k in enumerate(bij.KEYS)) + np.log(a)
        shift, scale = a * shift + b0 + s, scale * a
    x = g.standard_normal(batch + (n,))
    want = stats.norm.logpdf(x).sum(-1) - const
    y = scale * x + shift
    close(prior.log_density(jnp.asarray(y), **kw), want, "log-density with keyword arguments", rtol=1e-9, atol=1e-9)
    close(prior.density(jnp.asarray(y), **kw), np.exp(want), "density with keyword arguments", rtol=1e-7)
    s, ls = prior.sample(batch, rng=d.key(), **kw)
    pre = (np.asarray(s) - shift) / scale
    close(ls, stats.norm.logpdf(pre).sum(-1) - const, "log-density of samples with keyword arguments", rtol=1e-9, atol=1e-8)
    d.note(depth=depth, kwargs=kw)


@facet(quick=14, thorough=250)
def nested(d):
    """a transformed distribution as prior is the distribution of the composed map, also in its random state"""
    g = d.gen("data")
    event = d.pick([(3,), (2, 2), ()], "event")
    batch = d.pick(BATCH, "batch")
    seed = d.int(0, 10**6, "rngs")
    parts = [bij.real_scalar(d, g, event) for _ in range(d.int(2, 3, "count"))]
    outer = bijx.IndependentNormal(event, rngs=nnx.Rngs(seed))
    for p in parts:
        outer = bijx.Transformed(outer, p)
    flat = bijx.Transformed(bijx.IndependentNormal(event, rngs=nnx.Rngs(seed)), bijx.Chain(*parts))
    key = d.key()
    for kw in [dict(rng=key), {}, {}]:
        (a, la), (b, lb) = outer.sample(batch, **kw), flat.sample(batch, **kw)
        close(b, np.asarray(a), "samples of nested and composed distributions", rtol=1e-9, atol=1e-9)
        close(lb, np.asarray(la), "log-densities of nested and composed distributions", rtol=1e-8, atol=1e-8)
    y = jnp.asarray(np.asarray(a) + 0.1)
    close(outer.log_density(y), np.asarray(flat.log_density(y)), "log-density of nested and composed distributions", rtol=1e-7, atol=1e-7)
    first, second = outer.sample(batch)[0], outer.sample(batch)[0]
    must(np.all(np.asarray(first) != np.asarray(second)), "stored random state does not advance")
    d.note(event=event, batch=batch)


@facet(quick=8, thorough=80)
def sample_law(d):
    """preimages of samples follow the prior and samples are independent"""
    g = d.gen("data")
    n = 8000
    which = d.pick(["scalar", "coupling", "radial"], "kind")
    if which == "scalar":
        b, event = bijx.Chain(bij.real_scalar(d, g, (2,)), bij.real_scalar(d, g, (2,))), (2,)
    else:
        c = (bij.coupling if which == "coupling" else bij.radial)(d)
        b, event = c.b, c.event
    dist = bijx.Transformed(bijx.IndependentNormal(event), b)
    batch = d.pick([(n,), (2, n // 2), (n // 5, 5)], "batch")
    s, _ = dist.sample(batch, rng=d.key())
    pre = np.asarray(b.reverse(s, jnp.zeros(batch))[0]).reshape(n, -1)
    stat.whiten_independent(pre, f"preimages of samples ({which})")
    d.note(kind=which, event=event, batch=batch)


class DictPrior(bijx.Distribution):
    """a: (2,) standard normal, b: () normal with deviation 2"""

    def get_batch_shape(self, x):
        return x["b"].shape

    def sample(self, batch_shape=(), rng=None, **kwargs):
        k1, k2 = jax.random.split(self._get_rng(rng))
        x = dict(a=jax.random.normal(k1, (*batch_shape, 2)), b=2 * jax.random.normal(k2, batch_shape))
        return x, self.log_density(x)

    def log_density(self, x, **kwargs):
        return jax.scipy.stats.norm.logpdf(x["a"]).sum(-1) + jax.scipy.stats.norm.logpdf(x["b"], 0, 2)


class DictMap(bijx.Bijection):
    def __init__(self, s, w):
        self.s, self.w = nnx.Param(jnp.asarray(s)), nnx.Param(jnp.asarray(w))

    def forward(self, x, ld, **kwargs):
        a = x["a"] * jnp.exp(self.s.get_value() * jnp.tanh(x["b"]))[..., None]
        return dict(a=a, b=x["b"] * self.w.get_value()), ld - 2 * self.s.get_value() * jnp.tanh(x["b"]) - jnp.log(self.w.get_value())

    def reverse(self, y, ld, **kwargs):
        b = y["b"] / self.w.get_value()
        return dict(a=y["a"] * jnp.exp(-self.s.get_value() * jnp.tanh(b))[..., None], b=b), ld + 2 * self.s.get_value() * jnp.tanh(b) + jnp.log(self.w.get_value())


@facet(quick=15, thorough=150)
def structured(d):
    """distributions over dictionaries"""
    g = d.gen("data")
    s, w, batch = float(g.standard_normal()), float(np.exp(g.standard_normal())), d.pick(BATCH, "batch")
    dist = bijx.Transformed(DictPrior(nnx.Rngs(0)), DictMap(s, w))
    a, b = g.standard_normal(batch + (2,)), 2 * g.standard_normal(batch)
    t = np.tanh(b)
    y = dict(a=jnp.asarray(a * np.exp(s * t)[..., None]), b=jnp.asarray(b * w))
    want = stats.norm.logpdf(a).sum(-1) + stats.norm.logpdf(b, 0, 2) - 2 * s * t - np.log(w)
    got = dist.log_density(y)
    shape(got, batch, "log-density over dictionaries")
    close(got, want, "log-density over dictionaries", rtol=1e-9, atol=1e-9)
    z, lz = dist.sample(batch, rng=d.key())
    shape(z["a"], batch + (2,), "sample a"), shape(z["b"], batch, "sample b"), shape(lz, batch, "log-density of samples")
    close(lz, dist.log_density(z), "log-density returned with dictionary samples", rtol=1e-8, atol=1e-8)
    chained = bijx.Transformed(dist, bijx.Chain(DictMap(0.3, 1.5), DictMap(-s, 1 / w)))
    close(chained.sample(batch, rng=d.key())[1].shape, np.array(batch), "batch shape of nested dictionary samples")
    d.note(batch=batch)
