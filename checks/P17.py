"""Cases: mixtures of 1 to 5 Gaussians (full, diagonal, default covariances) or of other stacked distributions, drawn weights
(very unequal, also extreme logits), points near and very far from the components, batch shapes, random keys.  Oracle: numpy
log-sum-exp of the component densities; samples are identified with well separated components for their frequencies and
distribution.  Non-trivial: at least two components."""
import bijx
import jax
import jax.numpy as jnp
import numpy as np
from bijx.utils import Const
from flax import nnx
from scipy import stats
from scipy.special import log_softmax, logsumexp

from vf import close, facet, must, shape, stat

BATCH = [(), (3,), (2, 3), (1,), (2, 1, 2), (0,)]


def log_normal(x, mean, cov):
    """x (..., n), mean (n,), cov (n, n)"""
    n = mean.size
    diff = (x - mean).reshape(-1, n)
    q = np.einsum("bi,ib->b", diff, np.linalg.solve(cov, diff.T)) if diff.size else np.zeros(diff.shape[0])
    return (-0.5 * q - 0.5 * n * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(cov)[1]).reshape(x.shape[:-1])


def weights(d, k, g):
    kind = d.pick(["none", "unequal", "extreme", "shifted"], "weights")
    if kind == "none":
        return None, np.zeros(k)
    w = g.standard_normal(k) * (1.5 if kind != "extreme" else 40)
    if kind == "shifted":
        w = w + 500
    form = d.pick(["array", "param", "const"], "weights form")
    return {"array": jnp.asarray, "param": lambda v: nnx.Param(jnp.asarray(v)), "const": lambda v: Const(jnp.asarray(v))}[form](w), w


def components(d, k, n, g, spread):
    means = g.standard_normal((k, n)) * spread
    kind = d.pick(["full", "diag", "default"], "covariances")
    if kind == "full":
        a = g.standard_normal((k, n, n)) * 0.5
        covs = a @ a.transpose(0, 2, 1) + np.eye(n) * 0.3
        arg = jnp.asarray(covs)
    elif kind == "diag":
        v = np.exp(g.standard_normal((k, n)))
        covs = np.stack([np.diag(r) for r in v])
        arg = jnp.asarray(v)
    else:
        covs, arg = np.stack([np.eye(n)] * k), None
    if arg is not None and kind == "diag" and d.bool("as variable"):
        arg = nnx.Param(arg)
    return means, covs, arg, kind


@facet(quick=28, thorough=350, shards=2, tshards=3)
def gaussian_density(d):
    k, n, batch = d.int(1, 5, "components"), d.int(1, 3, "dim"), d.pick(BATCH, "batch")
    g = d.gen()
    means, covs, arg, kind = components(d, k, n, g, d.pick([1.0, 0.0, 30.0], "spread"))
    warg, w = weights(d, k, g)
    marg = d.pick([jnp.asarray, lambda v: nnx.Param(jnp.asarray(v)), np.asarray], "means form")(means)
    dist = bijx.GaussianMixture(marg, arg, warg, rngs=nnx.Rngs(0) if warg is None or arg is None or d.bool("rngs") else None)
    x = means[g.integers(0, k, batch)] + g.standard_normal(batch + (n,)) * d.pick([1.0, 0.1, 100.0], "radius")
    parts = np.stack([log_normal(x, means[i], covs[i]) for i in range(k)], -1)
    want = logsumexp(parts + log_softmax(w), axis=-1) if x.size else np.zeros(batch)
    got = dist.log_density(jnp.asarray(x))
    d.note(components=k, dim=n, covariances=kind, batch=batch)
    shape(got, batch, "log-density of a mixture")
    close(got, want, "log-density of a mixture", rtol=1e-7, atol=1e-7)
    close(dist.density(jnp.asarray(x)), np.exp(want), "density of a mixture", rtol=1e-3, atol=1e-300)
    close(dist.log_density(jnp.asarray(x), some=2), want, "log-density with a keyword argument", rtol=1e-7, atol=1e-7)
    must(tuple(dist.get_batch_shape(jnp.asarray(x))) == batch, "batch shape", got=dist.get_batch_shape(jnp.asarray(x)), want=batch)
    close(dist.weights, np.exp(log_softmax(w)), "normalised weights", rtol=1e-9, atol=1e-300)
    close(np.sum(np.asarray(dist.weights)), 1.0, "sum of the weights", rtol=1e-9)
    m, c = dist.means, dist.covs
    close(m.get_value() if isinstance(m, nnx.Variable) else m, means, "means", rtol=1e-12)
    close(c, covs, "covariances", rtol=1e-7, atol=1e-8)
    y, ld = dist.sample(batch, rng=d.key())
    shape(y, batch + (n,), "sample of a mixture")
    shape(ld, batch, "log-density of a sample")
    close(ld, dist.log_density(y), "log-density returned with a sample", rtol=1e-8, atol=1e-8)
    return k > 1


@facet(quick=30, thorough=300)
def initialised(d):
    """means, covariances and weights given by shapes"""
    k, n, batch = d.int(1, 4, "components"), d.int(1, 3, "dim"), d.pick(BATCH[:4], "batch")
    g = d.gen()
    cov = d.pick([None, (k, n), (k, n, n)], "covariances")
    dist = bijx.GaussianMixture((k, n), cov, d.pick([None, (k,)], "weights"), rngs=nnx.Rngs(d.int(0, 10**6, "rngs")))
    m, c = dist.means, np.asarray(dist.covs)
    m = np.asarray(m.get_value() if isinstance(m, nnx.Variable) else m)
    shape(m, (k, n), "means")
    shape(c, (k, n, n), "covariances")
    must(np.abs(c - np.eye(n)).max() < 0.3 and np.abs(m).max() < 0.2, "initial components are close to standard normal", means=m, covs=c)
    close(dist.weights, np.full(k, 1 / k), "initial weights are equal", rtol=1e-9)
    x = 2 * g.standard_normal(batch + (n,))
    want = logsumexp(np.stack([log_normal(x, m[i], c[i]) for i in range(k)], -1) - np.log(k), axis=-1)
    close(dist.log_density(jnp.asarray(x)), want, "log-density of an initialised mixture", rtol=1e-7, atol=1e-7)
    return k > 1


@facet(quick=18, thorough=200, shards=2, tshards=3)
def stack_density(d):
    """MixtureStack of other distributions: normal, uniform behind elementwise maps"""
    k, n, batch = d.int(1, 4, "components"), d.int(1, 3, "dim"), d.pick(BATCH[:5], "batch")
    g = d.gen()
    warg, w = weights(d, k, g)
    loc, sc = g.standard_normal((k, n)), np.exp(0.5 * g.standard_normal((k, n)))
    what = d.pick(["diag", "affine", "tanh", "nested"], "component")
    event = (n,)
    x = g.standard_normal(batch + event) * d.pick([1.0, 5.0], "radius")
    aff = lambda s, l: bijx.AffineLinear(jnp.log(s), l)
    if what == "diag":
        stack = nnx.vmap(lambda s, l: bijx.DiagonalNormal(l, s))(jnp.asarray(sc), jnp.asarray(loc))
    elif what == "affine":
        stack = nnx.vmap(lambda s, l: bijx.Transformed(bijx.IndependentNormal(event), aff(s, l)))(jnp.asarray(sc), jnp.asarray(loc))
    elif what == "tanh":
        stack = nnx.vmap(lambda s, l: bijx.Transformed(bijx.IndependentNormal(event), bijx.Chain(aff(s, l), bijx.Tanh())))(jnp.asarray(sc), jnp.asarray(loc))
        x = np.tanh(x) * 0.999
    else:
        stack = nnx.vmap(lambda s, l: bijx.Transformed(bijx.Transformed(bijx.IndependentNormal(event), bijx.Scaling(s)), bijx.Shift(l)))(
            jnp.asarray(sc), jnp.asarray(loc))
    dist = bijx.MixtureStack(stack, (k,) if warg is None else warg, rngs=nnx.Rngs(0))
    pre = np.arctanh(x) if what == "tanh" else x
    jac = -np.log1p(-(x**2)).sum(-1) if what == "tanh" else 0.0
    parts = np.stack([stats.norm.logpdf(pre, loc[i], sc[i]).sum(-1) + jac for i in range(k)], -1)
    want = logsumexp(parts + log_softmax(w), axis=-1)
    d.note(component=what, components=k, batch=batch)
    got = dist.log_density(jnp.asarray(x))
    shape(got, batch, "log-density of a stack")
    close(got, want, "log-density of a stack", rtol=1e-6, atol=1e-6)
    must(tuple(dist.get_batch_shape(jnp.asarray(x))) == batch, "batch shape of a stack", got=dist.get_batch_shape(jnp.asarray(x)))
    y, ld = dist.sample(batch, rng=d.key())
    shape(y, batch + event, "sample of a stack")
    close(ld, dist.log_density(y), "log-density returned with a sample", rtol=1e-6, atol=1e-6)
    return k > 1


@facet(quick=14, thorough=160, tshards=3)
def sampling(d):
    """separated components: frequencies, law within each component, independence of choice and draw"""
    k, dim = d.int(2, 4, "components"), d.int(1, 3, "dim")
    g = d.gen()
    w = g.standard_normal(k)
    p = np.exp(log_softmax(w))
    means = 100.0 * g.permutation(k)[:, None] + g.standard_normal((k, dim))
    n = 12000
    batch = d.pick([(n,), (n // 3, 3), (2, n // 4, 2)], "batch")
    kind = d.pick(["full", "diag", "stack"], "kind")
    if kind == "full":
        L = np.tril(g.standard_normal((k, dim, dim))) * 0.7
        L[:, range(dim), range(dim)] = np.exp(0.5 * g.standard_normal((k, dim)))
        dist = bijx.GaussianMixture(jnp.asarray(means), jnp.asarray(L @ L.transpose(0, 2, 1)), jnp.asarray(w))
    else:
        s = np.exp(0.5 * g.standard_normal((k, dim)))
        L = np.stack([np.diag(r) for r in s])
        if kind == "diag":
            dist = bijx.GaussianMixture(jnp.asarray(means), jnp.asarray(s**2), jnp.asarray(w))
        else:
            stack = nnx.vmap(lambda s, l: bijx.Transformed(bijx.IndependentNormal((dim,)), bijx.AffineLinear(jnp.log(s), l)))(jnp.asarray(s), jnp.asarray(means))
            dist = bijx.MixtureStack(stack, jnp.asarray(w))
    key = d.key()
    x, ld = dist.sample(batch, rng=key)
    again = dist.sample(batch, rng=key)[0]
    close(again, np.asarray(x), "samples of one key", rtol=0, atol=0)
    close(ld, dist.log_density(x), "log-density returned with samples", rtol=1e-7, atol=1e-7)
    x = np.asarray(x).reshape(n, dim)
    which = np.argmin(np.abs(x[:, :1] - means[:, 0][None]), axis=1)
    stat.frequencies(np.bincount(which, minlength=k), p, "component")
    z = np.stack([np.linalg.solve(L[i], x[j] - means[i]) for j, i in enumerate(which)])
    d.note(kind=kind, components=k, dim=dim, weights=p)
    for i in range(k):
        zi = z[which == i]
        if len(zi) > 500:
            for c in range(dim):
                stat.ks_normal(zi[:, c], f"component {i}, coordinate {c}")
    stat.whiten_independent(z, "whitened samples")
    ind = which[:, None] == np.arange(k)
    for lag in (1, 2, n // 2):
        stat.mean_zero((ind[:-lag] - p) * (ind[lag:] - p), f"components of samples {lag} apart are independent")


@facet(quick=25, thorough=250)
def random_state(d):
    """stored random state: advances, reproducible, independent of the state of the components"""
    g, seed = d.gen(), d.int(0, 10**6, "rngs")
    k, n = 2, d.int(1, 3, "dim")
    means, var = g.standard_normal((k, n)), np.exp(g.standard_normal((k, n)))
    batch = d.pick([(), (4,), (3, 2)], "batch")

    def make():
        if stacked:
            stack = bijx.DiagonalNormal(jnp.asarray(means), jnp.asarray(np.sqrt(var)), rngs=nnx.Rngs(seed + 1) if own else None)
            return bijx.MixtureStack(stack, jnp.zeros(k), rngs=nnx.Rngs(seed))
        return bijx.GaussianMixture(jnp.asarray(means), jnp.asarray(var), jnp.zeros(k), rngs=nnx.Rngs(seed))

    stacked, own = d.bool("stack"), d.bool("components have rngs")
    a, b = make(), make()
    ha = [np.asarray(a.sample(batch)[0]) for _ in range(3)]
    b.sample(batch, rng=d.key())
    hb = [np.asarray(b.sample(batch)[0]) for _ in range(3)]
    for i in range(3):
        close(hb[i], ha[i], "stored random state: reproducible and untouched by explicit keys", rtol=1e-12, atol=1e-12)
        for j in range(i):
            must(np.all(ha[i] != ha[j]), "stored random state does not advance", i=i, j=j)
    d.note(stacked=stacked, dim=n, batch=batch)
