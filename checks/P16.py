"""Cases: every distribution with drawn dimension, parameters (general covariances, negative Cholesky factors and scales,
widely different variances, every form of specification), points (also far tails and outside the support), batch shapes and
random keys.  Oracle: numpy/scipy formulas of the documented densities; for samples, Kolmogorov-Smirnov and correlation tests
of the whitened values.  Non-trivial: not a standard normal at one point."""
import bijx
import jax
import jax.numpy as jnp
import numpy as np
from bijx.utils import Const
from flax import nnx
from scipy import stats

from vf import close, facet, fail, must, shape, stat

BATCH = [(), (3,), (2, 3), (1,), (4, 1, 2), (0,)]
EVENT = [(), (1,), (4,), (2, 3), (3, 1, 2), (5,)]


def spec(d, value, label):
    """a parameter in one of its accepted forms"""
    k = d.pick(["array", "numpy", "param", "variable", "const"], label)
    v = jnp.asarray(value)
    return {"array": v, "numpy": np.asarray(value), "param": nnx.Param(v), "variable": nnx.Variable(v), "const": Const(v)}[k]


def tri(d, n, g):
    """lower triangular factor with entries of any sign, moderate conditioning"""
    L = np.tril(g.standard_normal((n, n)) * d.pick([0.0, 0.3, 1.0], "corr"))
    s = np.exp(g.uniform(-1, 1, n) * d.pick([0.0, 1.0, 2.0], "spread"))
    L = (np.tril(L, -1) / max(1, np.sqrt(n))) * s[:, None]
    sign = g.choice([-1, 1], n) if d.bool("signs") else np.ones(n)
    return L + np.diag(s * sign)


def pack(L):
    return L[np.tril_indices(L.shape[0])]


def points(d, g, mean, L, batch):
    scale = d.pick([1.0, 0.1, 30.0], "radius")
    return mean + scale * g.standard_normal(tuple(batch) + mean.shape) @ L.T


def normal_ref(x, mean, cov):
    n = mean.size
    diff = (x - mean).reshape(-1, n)
    q = np.einsum("bi,ib->b", diff, np.linalg.solve(cov, diff.T)) if diff.size else np.zeros(diff.shape[0])
    out = -0.5 * q - 0.5 * n * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(cov)[1]
    return out.reshape(x.shape[:-1])


def check_density(dist, x, want, batch, what, rtol=1e-9, atol=1e-8):
    got = dist.log_density(jnp.asarray(x))
    shape(got, batch, f"{what}: shape of the log-density")
    close(got, want, f"{what}: log-density", rtol=rtol, atol=atol)
    close(dist.density(jnp.asarray(x)), np.exp(want), f"{what}: density", rtol=1e-6 + 10 * atol, atol=1e-300)
    must(tuple(dist.get_batch_shape(jnp.asarray(x))) == tuple(batch), f"{what}: batch shape", got=dist.get_batch_shape(jnp.asarray(x)), want=batch)
    close(dist.log_density(jnp.asarray(x), whatever=1), want, f"{what}: log-density with a keyword argument", rtol=rtol, atol=atol)


@facet(quick=60, thorough=600)
def independent(d):
    ev, batch = d.pick(EVENT, "event"), d.pick(BATCH, "batch")
    g = d.gen()
    axes = tuple(range(len(batch), len(batch) + len(ev)))
    if d.bool("uniform"):
        dist = bijx.IndependentUniform(ev)
        x = g.uniform(0, 1, batch + ev)
        if x.size and d.bool("outside"):
            x.reshape(-1)[g.integers(x.size)] = d.pick([-0.3, 1.2, -1e-9, 5.0, 1 + 1e-9], "value")
        want = np.where((x >= 0) & (x <= 1), 0.0, -np.inf).sum(axes)
    else:
        dist = bijx.IndependentNormal(ev)
        x = g.standard_normal(batch + ev) * d.pick([1.0, 0.0, 40.0], "scale") + d.pick([0.0, 3.0], "shift")
        want = stats.norm.logpdf(x).sum(axes)
    d.note(dist=type(dist).__name__, event=ev, batch=batch)
    check_density(dist, x, want, batch, type(dist).__name__)
    must(dist.event_dim == len(ev) and dist.event_size == int(np.prod(ev)) and tuple(dist.event_shape) == ev, "event description", dist=dist.event_size)
    must(dist.sample(batch, rng=d.key())[0].shape == batch + ev, "shape of samples")
    return x.size > 1


@facet(quick=70, thorough=800)
def multivariate(d):
    n, batch = d.int(1, 5, "dim"), d.pick(BATCH, "batch")
    g = d.gen()
    mean = g.standard_normal(n) * d.pick([0.0, 2.0], "mean")
    L = tri(d, n, g)
    cov = L @ L.T
    how = d.pick(["cholesky", "cov"], "how")
    S = np.ones(n)
    if how == "cholesky":
        if d.bool("different units"):
            S = 10.0 ** g.integers(-4, 3, n)
            L = L * S[:, None]
        dist = bijx.MultivariateNormal(spec(d, mean, "mean form"), spec(d, pack(L), "cholesky form"))
    else:
        dist = bijx.MultivariateNormal.given_cov(spec(d, mean, "mean form"), jnp.asarray(cov))
    x = points(d, g, mean, L, batch)
    cond = np.linalg.cond(cov)
    d.note(dim=n, how=how, cond=cond)
    # reference in units where the covariance is `cov`; the documented regularisation adds 1e-10 to the diagonal of the factor
    ref = lambda x: normal_ref((x - mean) / S, 0 * mean, cov) - np.log(S).sum()
    eps = 4e-10 / np.abs(np.diag(L)).min()
    rel = 1e-9 + 1e-15 * cond + eps
    check_density(dist, x, ref(x), batch, "MultivariateNormal", rtol=rel, atol=1e-8 + eps * n)
    close(dist.cov / np.outer(S, S), cov, "covariance accessor", rtol=1e-9, atol=1e-11)
    close(dist.mean.get_value(), mean, "mean", rtol=1e-12)
    must(dist.dim == n and tuple(dist.event_shape) == (n,), "dimension", dim=dist.dim)
    y, ld = dist.sample(batch, rng=d.key())
    shape(y, batch + (n,), "sample")
    shape(ld, batch, "log-density of a sample")
    close(ld, ref(np.asarray(y)), "log-density returned with a sample", rtol=1e-8 + 1e-14 * cond + eps, atol=1e-8 + 100 * eps * n + 1e-15 * (np.abs(mean) / S).max() ** 2)
    return n > 1


@facet(quick=60, thorough=700)
def diagonal(d):
    n, batch = d.int(1, 5, "dim"), d.pick(BATCH, "batch")
    g = d.gen()
    mean = g.standard_normal(n) * d.pick([0.0, 2.0], "mean")
    s = np.exp(g.uniform(-1, 1, n) * d.pick([0.0, 1.0, 4.0, 8.0], "spread"))
    how = d.pick(["scales", "variances"], "how")
    if how == "scales":
        sign = g.choice([-1, 1], n) if d.bool("signs") else np.ones(n)
        dist = bijx.DiagonalNormal(spec(d, mean, "mean form"), spec(d, s * sign, "scales form"))
    else:
        dist = bijx.DiagonalNormal.given_variances(spec(d, mean, "mean form"), spec(d, s**2, "variances form"))
    x = points(d, g, mean, np.diag(s), batch)
    d.note(dim=n, how=how)
    want = stats.norm.logpdf(x, mean, s).sum(-1)
    # the documented regularisation adds 1e-10 to the scales
    eps = 4e-10 / s.min()
    check_density(dist, x, want, batch, "DiagonalNormal", rtol=1e-9 + eps, atol=1e-8 + eps * n * (1 + (((x - mean) / s) ** 2).max(initial=0)))
    close(dist.variances, s**2, "variances accessor", rtol=1e-6)
    close(dist.scales, s, "scales accessor", rtol=1e-6)
    close(dist.cov, np.diag(s**2), "covariance accessor", rtol=1e-6, atol=1e-12)
    must(dist.dim == n and tuple(dist.event_shape) == (n,), "dimension", dim=dist.dim)
    y, ld = dist.sample(batch, rng=d.key())
    shape(y, batch + (n,), "sample")
    close(ld, stats.norm.logpdf(np.asarray(y), mean, s).sum(-1), "log-density returned with a sample", rtol=1e-7, atol=1e-7 + 200 * eps * n)
    return n > 1


@facet(quick=40, thorough=400)
def initialised(d):
    """parameters given by shapes only: still the density described by the accessors"""
    n, batch = d.int(1, 5, "dim"), d.pick(BATCH[:4], "batch")
    g = d.gen()
    rngs = nnx.Rngs(d.int(0, 10**6, "rngs"))
    cls = d.pick([bijx.MultivariateNormal, bijx.DiagonalNormal], "cls")
    how = d.pick(["mean", "given_dim", "both", "cov"], "how")
    if how == "mean":
        dist = cls((n,), rngs=rngs)
    elif how == "given_dim":
        dist = cls.given_dim(n, rngs=rngs)
    elif how == "both":
        dist = cls((n,), ((n * (n + 1)) // 2,) if cls is bijx.MultivariateNormal else (n,), rngs=rngs)
    elif cls is bijx.MultivariateNormal:
        dist = cls.given_cov((n,), (n, n), rngs=rngs)
    else:
        dist = cls.given_variances((n,), (n,), rngs=rngs)
    mean, cov = np.asarray(dist.mean.get_value()), np.asarray(dist.cov)
    shape(mean, (n,), "mean")
    shape(cov, (n, n), "covariance")
    must(np.abs(mean).max() < 0.2, "the initial mean is small", mean=mean)
    must(np.abs(cov - np.eye(n)).max() < 0.3, "the initial covariance is close to the unit matrix", cov=cov)
    close(cov, cov.T, "covariance is symmetric", rtol=1e-12)
    x = g.standard_normal(batch + (n,)) * 2
    check_density(dist, x, normal_ref(x, mean, cov), batch, cls.__name__, rtol=1e-8)
    d.note(cls=cls.__name__, how=how, dim=n)
    return n > 1


def make(d, g, rngs=None):
    """distribution and map of samples (n, *event) to independent standard normal columns"""
    k = d.pick(["normal", "uniform", "full", "diag"], "dist")
    if k == "normal":
        ev = d.pick(EVENT[:4], "event")
        return k, bijx.IndependentNormal(ev, rngs=rngs), lambda x: x.reshape(len(x), -1)
    if k == "uniform":
        ev = d.pick(EVENT[:4], "event")
        return k, bijx.IndependentUniform(ev, rngs=rngs), lambda x: stats.norm.ppf(x.reshape(len(x), -1))
    n = d.int(1, 4, "dim")
    mean = g.standard_normal(n) * 3
    if k == "full":
        L = tri(d, n, g)
        C = np.linalg.cholesky(L @ L.T)
        if d.bool("given cov"):
            dist = bijx.MultivariateNormal.given_cov(jnp.asarray(mean), jnp.asarray(L @ L.T), rngs=rngs)
        else:
            dist = bijx.MultivariateNormal(jnp.asarray(mean), jnp.asarray(pack(L)), rngs=rngs)
        return k, dist, lambda x: np.linalg.solve(C, (x - mean).T).T
    s = np.exp(g.standard_normal(n)) * (g.choice([-1, 1], n))
    return k, bijx.DiagonalNormal(jnp.asarray(mean), jnp.asarray(s), rngs=rngs), lambda x: (x - mean) / np.abs(s)


@facet(quick=30, thorough=300, shards=1, tshards=3)
def sampling(d):
    g = d.gen()
    k, dist, white = make(d, g)
    n = 24000
    batch = d.pick([(n,), (n // 4, 4), (3, n // 6, 2)], "batch")
    key = d.key()
    x, ld = dist.sample(batch, rng=key)
    x = np.asarray(x)
    shape(x, batch + tuple(dist.event_shape), "sample")
    shape(ld, batch, "log-density of samples")
    close(ld, dist.log_density(jnp.asarray(x)), "log-density returned with samples", rtol=1e-8, atol=1e-9)
    z = white(x.reshape((n,) + tuple(dist.event_shape)))
    d.note(dist=k, event=dist.event_shape, batch=batch)
    stat.whiten_independent(z, f"{k} samples of shape {batch}")
    if k == "uniform":
        must((x >= 0) & (x <= 1), "uniform samples lie in the unit interval")


@facet(quick=40, thorough=400)
def randomness(d):
    """function of the key; stored random state advances and is reproducible; key needed"""
    g, seed = d.gen(), d.int(0, 10**6, "rngs seed")
    k, dist, white = make(d, g, nnx.Rngs(seed))
    other = nnx.clone(dist)
    batch = d.pick([(), (3,), (3, 2)], "batch")
    k1, k2 = d.key("key 1"), d.key("key 2")
    a, b = dist.sample(batch, rng=k1), dist.sample(batch, rng=k1)
    close(b[0], np.asarray(a[0]), "sampling twice with one key", rtol=0, atol=0)
    close(b[1], np.asarray(a[1]), "log-density for one key", rtol=0, atol=0)
    same = bool(jnp.all(jax.random.key_data(k1) == jax.random.key_data(k2)))
    c = dist.sample(batch, rng=k2)
    if not same:
        must(np.all(np.asarray(a[0]) != np.asarray(c[0])), "samples of two keys share values", a=a[0], c=c[0])
    hist = [np.asarray(dist.sample(batch)[0]) for _ in range(3)]
    for i in range(3):
        for j in range(i):
            must(np.all(hist[i] != hist[j]), "the stored random state does not advance", i=i, j=j)
    seq = [np.asarray(other.sample(batch)[0]) for _ in range(3)]
    for i in range(3):
        close(seq[i], hist[i], "explicit keys leave the stored random state alone, and it is reproducible", rtol=1e-12, atol=1e-12)
    flat = np.concatenate([h.reshape(-1) for h in hist])
    must(len(np.unique(flat)) == flat.size, "values repeat within a batch", values=flat)
    bare = nnx.clone(dist)
    bare.rngs = None
    try:
        bare.sample(batch)
    except ValueError:
        pass
    else:
        fail("sampling without any random state should raise ValueError", dist=k)
    d.note(dist=k, batch=batch)
