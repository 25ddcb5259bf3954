"""Cases: convolutional vector fields built with every kind of kernel symmetry, feature map, time embedding, channel shape
and reduction, random parameters, lattices of rank 1 to 3 at least as large as the kernel, arbitrary batches and times;
feature maps with arbitrary coupling matrices and masks; automatic-divergence wrappers of random fields.  Oracle: the trace
of the full Jacobian (forward-mode differentiation of a single sample), explicit translations, flips and rotations, explicit
feature formulas.  Non-trivial: more than one site."""
from functools import partial
from itertools import permutations

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

import bijx
from bijx import nn
from bijx.bijections.conv_cnf import ConvVF
from bijx.nn import embeddings, features
from bijx.nn.conv import kernel_d4, kernel_equidist
from vf import close, facet, fail, must, shape
from vf.jx import leaves_random

BATCH = [(), (3,), (3, 2), (1,)]


def time_kernel(d, g):
    k = d.pick(["fourier", "gauss", "lin", "positional-like"], "time kernel")
    if k == "fourier":
        return embeddings.KernelFourier(d.pick([3, 5, 4], "count"))
    if k == "gauss":
        return embeddings.KernelGauss(d.int(2, 5, "count"), rngs=nnx.Rngs(0))
    if k == "lin":
        return embeddings.KernelLin(d.int(2, 5, "count"))
    return embeddings.KernelFourier(3, val_range=(-1.0, 2.0))


def feature_maps(d):
    four = partial(features.FourierFeatures, d.int(1, 4, "frequencies"))
    poly = partial(features.PolynomialFeatures, d.pick([(1,), (0, 1), (2, 1), (3,), (0,)], "powers"))
    return d.pick([(four, poly), (poly, four), (four,), (poly,), (four, poly, four)], "features")


@partial(jax.jit, static_argnums=0)
def _vf(graph, state, t, x):
    return nnx.merge(graph, state)(t, x)


@partial(jax.jit, static_argnums=0)
def _jac(graph, state, t, x):
    f = lambda v: nnx.merge(graph, state)(t, v.reshape(x.shape))[0].ravel()
    return jax.jacfwd(f)(x.ravel())


@facet(quick=6, thorough=80, shards=5, tshards=8)
def conv_vector_field(d):
    kernel = d.pick([(3, 3), (3,), (2, 2), (5,), (4,), (1, 1), (3, 3, 3), (5, 5), (4, 4), (2,), (3, 2)], "kernel")
    sym = kernel_equidist if len(set(kernel)) > 1 or d.bool("distance symmetry") else kernel_d4
    cubic = d.bool("cubic lattice")
    grow = 0 if len(kernel) == 3 else 2
    lat = (max(kernel) + d.int(0, grow, "L"),) * len(kernel) if cubic else tuple(k + d.int(0, grow, "L") for k in kernel)
    if np.prod(lat) > 36:
        lat = tuple(kernel)
        cubic = len(set(kernel)) == 1
    chan = d.pick([(), (1,), (2,), (2, 2)] if np.prod(lat) < 20 else [(), (2,)], "channels")
    batch = d.pick(BATCH, "batch")
    g = d.gen("g")
    kw = {}
    if sym is not kernel_d4:
        kw["symmetry"] = sym
    if d.bool("default embedding") and d.bool("again"):
        pass
    else:
        kw.update(time_kernel=time_kernel(d, g), time_kernel_reduced=d.pick([None, 3], "reduced time"))
        kw.update(features=feature_maps(d), features_reduced=d.pick([None, 4, 2], "reduced features"))
        kw["use_bias"] = d.bool("bias")
    nfeat = sum(f(1, rngs=nnx.Rngs(0)).out_channel_size for f in kw.get("features", ())) or 50
    if kw.get("features_reduced") and kw["features_reduced"] > nfeat * max(1, int(np.prod(chan))):
        kw["features_reduced"] = 1
    vf = ConvVF.build(kernel, chan, rngs=nnx.Rngs(d.int(0, 5, "rngs")), **kw)
    if d.bool("random parameters"):
        vf = leaves_random(vf, g, 0.5)
    graph, state = nnx.split(vf)
    x = g.standard_normal(batch + lat + chan)
    t = d.pick([0.3, 0.0, 1.0, 0.77], "t")
    v, nd = _vf(graph, state, jnp.asarray(t), jnp.asarray(x))
    shape(v, x.shape, "velocity"), shape(nd, batch, "divergence")
    v, nd = np.asarray(v), np.asarray(nd)
    ev = lat + chan
    for i, xs in enumerate(x.reshape((-1,) + ev)[:2]):
        J = np.asarray(_jac(graph, state, jnp.asarray(t), jnp.asarray(xs)))
        tol = 1e-9 * (1 + np.abs(np.diag(J)).sum())
        close(nd.reshape(-1)[i], -np.trace(J), "minus divergence against the trace of the Jacobian", rtol=0, atol=tol)
        one = _vf(graph, state, jnp.asarray(t), jnp.asarray(xs))
        close(v.reshape((-1,) + ev)[i], one[0], "velocity of one sample of the batch", atol=1e-9, rtol=1e-9)
    # symmetries: translations, and (on cubic lattices, d4 or distance kernels) the symmetries of the kernel
    off = len(batch)
    axes = tuple(range(off, off + len(lat)))
    ops = [lambda z, s=tuple(d.int(0, n - 1, "shift") for n in lat): np.roll(z, s, axes)]
    # reflection about a site: x -> -x mod L; even kernels hold only one of their two outermost neighbours
    if all(k % 2 for k in kernel) or all(k == n for k, n in zip(kernel, lat)):
        ax = axes[d.int(0, len(axes) - 1, "axis")]
        ops.append(lambda z: np.roll(np.flip(z, ax), 1, ax))
    if cubic and len(lat) > 1 and len(set(kernel)) == 1:
        perm = d.pick(list(permutations(axes)), "permutation")
        full = list(range(x.ndim))
        full[off : off + len(lat)] = perm
        ops.append(lambda z: np.transpose(z, full))
    for i, op in enumerate(ops):
        w, wd = _vf(graph, state, jnp.asarray(t), jnp.asarray(op(x)))
        scale = 1 + np.abs(v).max()
        close(w, op(v), f"velocity under {['translation', 'reflection or permutation', 'permutation'][i]}", atol=1e-9 * scale)
        close(wd, nd, "divergence under a symmetry", atol=1e-8 * (1 + np.abs(nd).max()))
    d.note(kernel=kernel, lattice=lat, channels=chan, batch=batch, symmetry=sym.__name__, **{k: str(kw.get(k))[:60] for k in ("time_kernel_reduced", "features_reduced", "use_bias")})
    return np.prod(lat) > 1


def make_features(d, g, channels, depth=0):
    kind = d.pick(["fourier", "polynomial", "concat"] if depth == 0 else ["fourier", "polynomial"], "map")
    if kind == "fourier":
        k = d.int(1, 4, "count")
        f = features.FourierFeatures(k, channels, rngs=nnx.Rngs(d.int(0, 3, "rngs")))
        w = np.asarray(f.phi_freq.get_value())
        must(w.shape == (channels, k) and np.all(w >= 0) and np.all(w <= 5), "initial frequencies", shape=w.shape)
        if d.bool("new frequencies"):
            w = g.standard_normal(w.shape)
            f.phi_freq = nnx.Param(jnp.asarray(w))
        return f, lambda x: np.sin(x[..., None] * w), lambda x: w * np.cos(x[..., None] * w), k
    if kind == "polynomial":
        ps = d.pick([(1,), (0, 1), [2, 1, 3], (0,), [4]], "powers")
        f = features.PolynomialFeatures(ps, channels)
        return f, lambda x: np.stack([x**p for p in ps], -1), lambda x: np.stack([p * x ** max(p - 1, 0) for p in ps], -1), len(ps)
    parts = [make_features(d, g, channels, 1) for _ in range(d.int(1, 3, "parts"))]
    f = features.ConcatFeatures([p[0] for p in parts])
    return f, lambda x: np.concatenate([p[1](x) for p in parts], -1), lambda x: np.concatenate([p[2](x) for p in parts], -1), sum(p[3] for p in parts)


@facet(quick=60, thorough=1000, shards=1, tshards=4)
def feature_layers(d):
    c = d.int(1, 3, "channels")
    space, b = d.pick([(4,), (2, 3), (), (2, 2, 2), (1,)], "space"), d.int(1, 3, "batch")
    g = d.gen("g")
    f, val, der, k = make_features(d, g, c)
    must(f.out_channel_size == c * k, "declared number of features", got=f.out_channel_size, want=c * k)
    x = g.standard_normal((b,) + space + (c,))
    flat = d.bool("flatten")
    W = g.standard_normal((c, k, c))
    if flat:
        coupling = W.reshape(c * k, c)
    else:
        coupling = np.moveaxis(W, -1, 1)
    mask = (g.uniform(size=d.pick([space, (b,) + space], "mask shape")) < 0.6).astype(float) if d.bool("mask") else None
    kw = {} if flat and d.bool("default") else {"flatten_features": flat}
    y, div = f(jnp.asarray(x), jnp.asarray(coupling), mask=None if mask is None else jnp.asarray(mask), **kw)
    want = val(x)
    close(y, want.reshape(want.shape[:-2] + (c * k,)) if flat else want, "features", atol=1e-10, rtol=1e-10)
    w = np.einsum("cfc->cf", W)
    dd = np.einsum("...cf,cf->...", der(x), w)
    if mask is not None:
        dd = dd * mask
    close(div, dd.reshape(b, -1).sum(1), "divergence", atol=1e-9, rtol=1e-9)
    d.note(channels=c, space=space, count=k, flatten=flat, mask=mask is not None)
    return np.prod(space) > 1


@facet(quick=40, thorough=600, shards=2, tshards=4)
def automatic_divergence(d):
    ev = d.pick([(3,), (1,), (2, 2), (2, 1, 3), (4,)], "event")
    batch = d.pick(BATCH + [ev], "batch")
    g = d.gen("g")
    n = int(np.prod(ev))
    W, V, a = g.standard_normal((n, n)), g.standard_normal((n, n)), g.standard_normal(n)

    def base(t, x, scale=1.0, shift=None):
        """not batched: sees one event"""
        v = x.reshape(n)
        out = scale * (V @ jnp.tanh(W @ v + t * a)) * jnp.cos(v.sum())
        if shift is not None:
            out = out + shift["s"] * v
        return out.reshape(ev)

    def base_batched(t, x, scale=1.0, shift=None):
        v = x.reshape(x.shape[: x.ndim - len(ev)] + (n,))
        out = scale * (jnp.tanh(v @ W.T + t * a) @ V.T) * jnp.cos(v.sum(-1, keepdims=True))
        if shift is not None:
            out = out + shift["s"] * v
        return out.reshape(x.shape)

    kw = {}
    if d.bool("scale"):
        kw["scale"] = d.pick([0.5, -2.0], "scale value")
    if d.bool("shift"):
        kw["shift"] = {"s": 0.7}
    f = base_batched
    t, x = d.float(-1, 2, "t"), g.standard_normal(batch + ev)
    opt = {} if len(ev) == 1 and d.bool("default") else {"event_dim": len(ev)}
    vf = bijx.AutoJacVF(f, **opt)
    call = lambda x: vf(t, x, **kw)
    if d.bool("jit"):
        call = jax.jit(call)
    v, nd = call(jnp.asarray(x))
    shape(v, x.shape, "velocity"), shape(nd, batch, "divergence")
    xs = x.reshape((-1,) + ev)
    want = jax.vmap(lambda s: base(t, s, **kw))(xs)
    close(v, np.asarray(want).reshape(x.shape), "velocity", atol=1e-10, rtol=1e-10)
    jac = jax.vmap(jax.jacrev(lambda s: base(t, s.reshape(ev), **kw).ravel()))(xs.reshape(-1, n))
    close(nd, -np.trace(np.asarray(jac), axis1=-2, axis2=-1).reshape(batch), "minus the trace of the Jacobian", atol=1e-9, rtol=1e-9)
    d.note(event=ev, batch=batch, kwargs=kw)
    return n > 1
