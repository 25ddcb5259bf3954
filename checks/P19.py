"""Cases: call histories (length up to 40) of single draws, keyed single draws, batch draws with and without key, density and
shape queries, on a sampler with buffer size 1 to 9, eager, compiled and scanned, over an underlying distribution whose every
sample is tagged (and over real distributions, also of dictionaries and with keyword arguments).  Oracle: a model of the buffer
that knows only: refill when empty, hand out each entry once.  Non-trivial: the history exhausts the buffer at least once."""
import bijx
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

from vf import bij, close, facet, fail, must, shape


class Tagged(bijx.Distribution):
    """sample number k of call number c is 10000 c + k (c replaced by a function of the key if given); log-density is a function of it"""

    def __init__(self, form):
        super().__init__(None)
        self.calls = nnx.Variable(jnp.array(0))
        self.form = form

    def sample(self, batch_shape=(), rng=None, **kwargs):
        c = self.calls.get_value()
        self.calls.set_value(c + 1)
        if rng is not None:
            c = -1 - jax.random.randint(rng, (), 0, 2**20)
        n = int(np.prod(batch_shape, dtype=int))
        x = (c * 10000.0 + jnp.arange(n)).reshape(batch_shape) + kwargs.get("offset", 0.0)
        return self.pack(x), self.ld(x)

    def ld(self, x):
        return -0.5 * x + 3

    def pack(self, x):
        if self.form == "array":
            return x
        if self.form == "vector":
            return jnp.stack([x, -x, x + 1], -1)
        return dict(a=x, b=jnp.stack([x, 2 * x], -1))

    def log_density(self, x, **kwargs):
        return self.ld(tag(self.form, x)) + kwargs.get("offset", 0.0)

    def get_batch_shape(self, x):
        return tag(self.form, x).shape


def tag(form, x):
    return x if form == "array" else x[..., 0] if form == "vector" else x["a"]


def whole(form, x, t, what):
    """all parts of a sample belong to tag t"""
    if form == "vector":
        close(x, np.stack([t, -t, t + 1], -1), what, rtol=0, atol=0)
    elif form == "tree":
        close(x["b"], np.stack([t, 2 * t], -1), what, rtol=0, atol=0)


class Model:
    def __init__(self, size):
        self.size, self.left, self.calls = size, set(), 0

    def refilled(self, key):
        c = self.calls if key is None else -1 - int(jax.random.randint(key, (), 0, 2**20))
        self.calls += 1
        return c

    def single(self, t, key, what, offset=0.0):
        """`offset` (a keyword argument of the call) reaches the distribution if this call refills the buffer"""
        if not self.left:
            c = self.refilled(key)
            self.left = {c * 10000.0 + i + offset for i in range(self.size)}
        must(t in self.left, f"{what}: not an unused entry of the buffer (repeated, skipped block or foreign)", got=t, unused=sorted(self.left))
        self.left.remove(t)


def _history(d, step):
    form, size = d.pick(["array", "vector", "tree"], "form"), d.int(1, 9, "buffer")
    dist = Tagged(form)
    s = bijx.BufferedSampler(dist, size)
    dist.calls.set_value(jnp.array(0))
    m = Model(size)
    ops = d.pick([["single"], ["single", "single", "single", "batch"], ["single", "keyed", "batch", "keyed batch", "density", "single"]], "mix")
    n, singles = d.int(1, 40, "length"), 0
    log = []
    for i in range(n):
        op = d.pick(ops, "op")
        log.append(op)
        what = f"call {i} ({op})"
        kw = {"offset": d.pick([1000.0, 2000.0], "offset")} if op != "density" and d.pick([0, 0, 0, 1], "keyword argument") else {}
        off = kw.get("offset", 0.0)
        if op in ("single", "keyed"):
            key = d.key() if op == "keyed" else None
            x, ld = step(s, (), key, kw)
            t = np.asarray(tag(form, x))
            shape(t, (), what), shape(ld, (), what)
            m.single(float(t), key, what, off)
            singles += 1
        elif op in ("batch", "keyed batch"):
            key = d.key() if op == "keyed batch" else None
            shp = d.pick([(2,), (1,), (3, 2), (size,)], "batch")
            x, ld = step(s, shp, key, kw)
            t = np.asarray(tag(form, x))
            c = m.refilled(key)
            close(t, (c * 10000.0 + off + np.arange(np.prod(shp))).reshape(shp), f"{what}: forwarded to the distribution", rtol=0, atol=0)
        else:
            t = np.asarray([1.0, 2.5])
            x = dist.pack(jnp.asarray(t))
            ld = s.log_density(x)
            close(s.log_density(x, offset=2.0), -0.5 * t + 5, f"{what}: keyword argument", rtol=1e-12)
            close(s.density(x), np.exp(-0.5 * t + 3), f"{what}: density", rtol=1e-12)
            must(tuple(s.get_batch_shape(x)) == (2,), f"{what}: batch shape")
        whole(form, x, t, f"{what}: parts of one sample")
        close(ld, -0.5 * t + 3, f"{what}: log-density belongs to the sample", rtol=1e-12, atol=0)
        must(int(dist.calls.get_value()) == m.calls, f"{what}: number of draws from the underlying distribution", got=int(dist.calls.get_value()), want=m.calls, history=log)
    d.note(form=form, buffer=size, history=log)
    return singles > size


@nnx.jit(static_argnums=1)
def _jitkw(s, shp, key, kw):
    x, ld = s.sample(shp, rng=key, **kw)
    return x, ld


@facet(quick=12, thorough=200, shards=2, tshards=4)
def eager(d):
    return _history(d, lambda s, shp, key, kw: s.sample(shp, rng=key, **kw))


@facet(quick=45, thorough=600, tshards=3)
def compiled(d):
    return _history(d, _jitkw)


@facet(quick=25, thorough=250)
def mixed(d):
    """compiled and eager calls interleaved"""

    def step(s, shp, key, kw):
        return _jitkw(s, shp, key, kw) if d.bool("compiled") else s.sample(shp, rng=key, **kw)

    return _history(d, step)


@facet(quick=16, thorough=200)
def scanned(d):
    """all draws inside one compiled loop"""
    form, size, n = d.pick(["array", "vector", "tree"], "form"), d.int(1, 7, "buffer"), d.int(1, 25, "draws")
    per = d.int(1, 3, "draws per iteration")
    dist = Tagged(form)
    s = bijx.BufferedSampler(dist, size)
    dist.calls.set_value(jnp.array(0))
    before = d.int(0, 3, "draws before")
    m = Model(size)

    def body(s, i):
        return s, [tuple(s.sample()) for _ in range(per)]

    for _ in range(before):
        x, ld = s.sample()
        m.single(float(tag(form, x)), None, "draw before the loop")
    s, out = nnx.scan(body, in_axes=(nnx.Carry, 0), out_axes=(nnx.Carry, 0))(s, jnp.arange(n))
    for i in range(n):
        for x, ld in out:
            t = np.asarray(tag(form, x))[i]
            m.single(float(t), None, f"iteration {i} of the loop")
            close(ld[i], -0.5 * t + 3, "log-density belongs to the sample", rtol=1e-12, atol=0)
    for i in range(size + 1):
        x, ld = s.sample()
        m.single(float(tag(form, x)), None, "draw after the loop")
    must(int(s.dist.calls.get_value()) == m.calls, "number of draws from the underlying distribution", got=int(s.dist.calls.get_value()), want=m.calls)
    d.note(form=form, buffer=size, draws=n * per)
    return n * per > size


@facet(quick=24, thorough=250, tshards=3)
def real(d):
    """buffers over the provided distributions: entries are distribution samples with their density, keys decide refills"""
    g, size = d.gen(), d.int(1, 5, "buffer")
    k = d.pick(["normal", "diag", "mixture", "transformed", "buffered"], "dist")
    rngs = nnx.Rngs(d.int(0, 10**6, "rngs"))
    n = 2
    if k == "normal":
        dist = bijx.IndependentNormal((n,), rngs=rngs)
    elif k == "diag":
        dist = bijx.DiagonalNormal(jnp.asarray(g.standard_normal(n)), jnp.asarray([0.3, 2.0]), rngs=rngs)
    elif k == "mixture":
        dist = bijx.GaussianMixture(jnp.asarray(g.standard_normal((2, n))), jnp.asarray(np.exp(g.standard_normal((2, n)))), rngs=rngs)
    else:
        probe = bij.Probe(1.5, g.standard_normal(n), g.standard_normal(2), g.standard_normal(2), 1)
        dist = bijx.Transformed(bijx.IndependentNormal((n,), rngs=rngs), probe)
        if k == "buffered":
            dist = bijx.BufferedSampler(dist, d.int(1, 3, "inner buffer"))
    s = bijx.BufferedSampler(dist, size)
    seen, left, kw = set(), [], {}
    if k == "transformed" and d.bool("kwargs"):
        kw = dict(u=0.7)
    for i in range(d.int(1, 14, "draws")):
        key = d.key() if d.bool("keyed") else None
        if d.int(0, 4, "batch?") == 4:
            x, ld = _jitkw(s, (3,), key, kw)
            close(ld, dist.log_density(x, **kw), f"call {i}: log-density of a batch", rtol=1e-8, atol=1e-8)
            if key is not None:
                close(x, np.asarray(dist.sample((3,), rng=key, **kw)[0]), f"call {i}: batch of a key", rtol=1e-12)
            continue
        if not left:
            ref = np.asarray(dist.sample((size,), rng=key, **kw)[0]) if key is not None else None
            left = list(ref) if key is not None else [None] * size
        x, ld = _jitkw(s, (), key, kw) if i % 4 else s.sample(rng=key, **kw)
        close(ld, dist.log_density(x, **kw), f"call {i}: log-density", rtol=1e-8, atol=1e-8)
        shape(x, (n,), f"call {i}"), shape(ld, (), f"call {i}")
        x = np.asarray(x)
        if left[0] is None:
            left.pop()
            must(tuple(x) not in seen, f"call {i}: repeated sample", x=x)
        else:
            hit = [j for j, v in enumerate(left) if np.allclose(v, x, rtol=1e-12, atol=1e-12)]
            must(len(hit) >= 1, f"call {i}: not an unused sample of the refill with this key", x=x, unused=left)
            left.pop(hit[0])
        seen.add(tuple(x))
    y = jnp.asarray(g.standard_normal((2, 3, n)))
    close(s.log_density(y, **kw), np.asarray(dist.log_density(y, **kw)), "log-density query", rtol=1e-12)
    d.note(dist=k, buffer=size)
    return len(seen) > size
