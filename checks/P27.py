"""Cases: all scalar embeddings with 1 to 24 features, value ranges (also decreasing and far from the inputs), width parameters,
trainable and fixed, option flags, nested reductions; inputs of any shape (scalars, empty, python numbers, integers) inside, at
the ends of and far outside the range; local feature maps (Fourier, polynomial, concatenated and nested) with several channels
and lattices, local couplings, flattened or not; convolutional, residual and plain networks of random depth, widths, kernel
sizes, activations, initialisers, paddings, batch shapes.  Oracle: numpy formulas, explicit loops over lattice sites, dense
Jacobians.  Non-trivial: more than one feature or hidden layer and more than one input."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from bijx.nn import embeddings as E
from bijx.nn import features as Fe
from bijx.nn import nets as N
from flax import nnx
from scipy.special import logsumexp, softmax

from vf import close, facet, jx, must, shape


def softplus(x):
    return np.logaddexp(0, x)


def draw_values(d, g, lo, hi):
    """inputs (as passed), float array"""
    form = d.pick(["array", "scalar", "python", "integer", "grid", "far", "empty"], "inputs")
    w = hi - lo
    if form == "scalar":
        v = np.asarray(lo + w * g.uniform(-0.2, 1.2))
        return jnp.asarray(v), v
    if form == "python":
        v = float(lo + w * g.uniform(0, 1))
        return v, np.asarray(v)
    if form == "integer":
        v = g.integers(-3, 4, (2, 3))
        return jnp.asarray(v), v.astype(float)
    if form == "grid":
        v = np.linspace(lo, hi, d.int(2, 7, "grid"))
        return jnp.asarray(v), v
    if form == "far":
        v = lo + w * g.choice([-1, 1], (3,)) * 10 ** g.uniform(0, 2, (3,))
        return jnp.asarray(v), v
    s = (0, 2) if form == "empty" else d.pick([(4,), (2, 3), (1, 2, 2), (3, 2), (3, 1, 2)], "shape")
    v = lo + w * g.uniform(-0.5, 1.5, s)
    return jnp.asarray(v), v


def gauss(v, n, wf, norm):
    u = v[..., None]
    e = -((u - np.linspace(0, 1, n)) ** 2) * softplus(wf) * (n - 1)
    return np.exp(e - logsumexp(e, axis=-1, keepdims=True)) if norm else np.exp(e)


def fourier(v, n):
    k = np.arange(1, (n - 1) // 2 + 1)
    a = 2 * np.pi * v[..., None] * k
    return np.concatenate([np.sin(a), np.cos(a), np.ones(v.shape + (1,))], -1)


def positional(v, n, mx, append):
    h = n // 2
    w = mx ** (-np.arange(h) / max(h - 1, 1))
    a = v[..., None] * w
    return np.concatenate([np.sin(a), np.cos(a)] + ([v[..., None]] if append else []), -1)


def embedding(d, g, depth=0):
    """(module, reference of the raw input, range, name)"""
    k = d.pick(["gauss", "linear", "fourier", "positional"] + (["reduced", "reduced"] if depth < 2 else []), "embedding")
    rng = nnx.Rngs(int(g.integers(2**31)))
    r = d.pick([None, None, (0.0, 1.0), (-1.0, 1.0), (2.0, 7.0), (1.0, 0.0)], "range")
    lo, hi = (0.0, 1.0) if r is None else r
    unit = lambda v: v if r is None else (v - lo) / (hi - lo)
    kw = {} if r is None and d.bool("omit range") else dict(val_range=r)
    if k == "gauss":
        n = d.int(1, 24, "features")
        adaptive, norm, one = d.bool("adaptive"), d.bool("norm"), d.bool("one width")
        kw.update(adaptive_width=adaptive, norm=norm, one_width=one)
        wf = np.log(np.exp(1) - 1)
        if d.bool("width"):
            wf = float(g.normal())
            kw["width_factor"] = wf
        m = E.KernelGauss(n, rngs=rng, **kw)
        p = jax.tree.leaves(nnx.state(m, nnx.Param))
        if not adaptive:
            must(not p, "a fixed width is exposed as a parameter")
        else:
            must(len(p) == 1, "the adaptive width is not exposed as one parameter", got=len(p))
            shape(p[0], () if one else (n,), "adaptive width")
            close(p[0], np.full(np.shape(p[0]), wf), "initial width", rtol=1e-6)
            m = jx.leaves_random(m, g)
            wf = np.asarray(jax.tree.leaves(nnx.state(m, nnx.Param))[0])
        return m, lambda v: gauss(unit(v), n, wf, norm), (lo, hi), k, n
    if k == "linear":
        n = d.int(2, 24, "features")
        m = E.KernelLin(n, rngs=rng, **kw)
        return m, lambda v: np.maximum(0, 1 - np.abs(unit(v)[..., None] - np.linspace(0, 1, n)) * (n - 1)), (lo, hi), k, n
    if k == "fourier":
        n = d.int(1, 24, "features")
        n_out = 2 * ((n - 1) // 2) + 1
        m = E.KernelFourier(n, rngs=rng, **kw)
        return m, lambda v: fourier(unit(v), n), (lo, hi), k, n_out
    if k == "positional":
        n = 2 * d.int(1, 12, "features")
        kw = {}
        mx = 10000.0
        if d.bool("max positions"):
            mx = d.pick([10.0, 1000.0, 2.5], "max")
            kw["max_positions"] = mx
        app = d.bool("append input")
        if app or d.bool("explicit"):
            kw["append_input"] = app
        m = E.PositionalEmbedding(n, rngs=rng, **kw)
        s = d.pick([1.0, 50.0], "span")
        return m, lambda v: positional(v, n, mx, app), (0.0, s), k, n + app
    inner, ref, (lo, hi), name, n = embedding(d, g, depth + 1)
    o = d.int(1, 8, "reduced features")
    ikw = dict(init=nnx.initializers.normal()) if d.bool("init") else {}
    m = E.KernelReduced(inner, o, rngs=rng, **ikw)
    own = [v for path, v in jax.tree.leaves_with_path(nnx.state(m, nnx.Param)) if "kernel" not in jax.tree_util.keystr(path)]
    must(len(own) == 1, "the reduction has one matrix parameter", got=len(own))
    shape(own[0], (o, n), "reduction matrix")
    a = np.asarray(own[0])
    if not ikw:
        q = a @ a.T if o <= n else a.T @ a
        close(q, np.eye(len(q)), "default reduction matrix is orthogonal", atol=1e-5)
    return m, lambda v: ref(v) @ a.T / n, (lo, hi), "reduced-" + name, o


@facet(80, 1200, shards=2)
def embeddings(d):
    g = d.gen().spawn(1)[0]
    m, ref, (lo, hi), name, n = embedding(d, g)
    d.note(kind=name)
    must(m.feature_count == n, f"{name}: feature_count", got=m.feature_count, want=n)
    v, a = draw_values(d, g, lo, hi)
    how = d.pick(["eager", "jit", "vmap"], "evaluated")
    if how == "jit":
        got = nnx.jit(lambda m, v: m(v))(m, v)
    elif how == "vmap" and a.ndim:
        gd, st = nnx.split(m)
        got = jax.vmap(lambda v: nnx.merge(gd, st)(v))(v)
    else:
        got = m(v)
    shape(got, a.shape + (n,), f"{name} features")
    want = ref(a)
    big = 1 + np.abs(a).max(initial=0)
    close(got, want, f"{name} features", rtol=1e-8, atol=1e-10 * big * n)
    if a.size:
        must(np.isfinite(np.asarray(got)).all(), f"{name} features are not finite", got=got)
    if a.ndim and a.shape[0] > 1 and a.size:
        one = m(v[1])
        close(one, np.asarray(got)[1], f"{name}: one element of a batch", rtol=1e-8, atol=1e-10 * big * n)
    if name == "gauss" and m.norm and a.size:
        close(np.asarray(got).sum(-1), np.ones(a.shape), "normalised features sum to one", rtol=1e-6)
    if name == "linear" and a.size:
        must((np.sum(np.asarray(got) > 1e-12, -1) <= 2).all(), "more than two features of a piecewise linear embedding are active")
    # derivative with respect to the input is finite (trainable time dependence)
    if how == "eager" and a.dtype == float and np.size(a) == 1 and name != "linear":
        x = jnp.asarray(a.reshape(()))
        c = g.standard_normal(n)
        gr = jax.grad(lambda t: (m(t) * c).sum())(x)
        h = 1e-6 * max(1.0, abs(float(x)))
        fd = (ref(a.reshape(()) + h) - ref(a.reshape(()) - h)) @ c / (2 * h)
        close(gr, fd, f"derivative of {name}", rtol=1e-3, atol=1e-4 * (1 + np.abs(c).sum() * n * 40))
    return n > 1


@facet(30, 400)
def rescaling(d):
    lo = d.float(-50, 50, "min")
    hi = lo + d.pick([1.0, -1.0], "sign") * d.float(0.01, 50, "width")
    g = d.gen().spawn(1)[0]
    v = g.standard_normal(d.pick([(), (3,), (3, 2)], "shape")) * 30
    close(E.rescale_range(jnp.asarray(v), (lo, hi)), (v - lo) / (hi - lo), "rescale_range", rtol=1e-9)
    close(E.rescale_range(jnp.asarray(v), None), v, "rescale_range without range", rtol=0, atol=0)
    close(E.rescale_range(jnp.asarray([lo, hi]), (lo, hi)), [0, 1], "ends of the range", atol=1e-12)
    return v.ndim > 0


def feature_map(d, g, c, depth=0):
    """(module, reference per channel: x (..., c) -> (..., c, f), derivative, number of features per channel)"""
    k = d.pick(["fourier", "polynomial"] + (["concat"] if depth < 2 else []), "features")
    rng = nnx.Rngs(int(g.integers(2**31)))
    if k == "fourier":
        n = d.int(1, 5, "count")
        kw = dict(freq_init=nnx.initializers.normal(2.0)) if d.bool("init") else {}
        m = Fe.FourierFeatures(n, c, rngs=rng, **kw)
        w = np.asarray(jax.tree.leaves(nnx.state(m, nnx.Param))[0])
        shape(w, (c, n), "frequencies")
        if not kw:
            must(((w >= 0) & (w <= 5)).all(), "default frequencies out of their range")
        return m, lambda x: np.sin(x[..., None] * w), lambda x: w * np.cos(x[..., None] * w), n
    if k == "polynomial":
        n = d.int(1, 3, "count")
        ps = [d.int(0, 4, "power") for _ in range(n)]
        m = Fe.PolynomialFeatures(d.pick([list, tuple], "as")(ps), c, rngs=rng)
        p = np.array(ps)
        return m, lambda x: x[..., None] ** p, lambda x: p * x[..., None] ** np.maximum(p - 1, 0), n
    parts = [feature_map(d, g, c, depth + 1) for _ in range(d.int(1, 3, "parts"))]
    m = Fe.ConcatFeatures([q[0] for q in parts], rngs=rng)
    return (m, lambda x: np.concatenate([q[1](x) for q in parts], -1), lambda x: np.concatenate([q[2](x) for q in parts], -1),
            sum(q[3] for q in parts))


@facet(50, 700, shards=2)
def local_features(d):
    g = d.gen().spawn(1)[0]
    c = d.int(1, 3, "channels")
    m, ref, der, f = feature_map(d, g, c)
    must(m.out_channel_size == c * f, "out_channel_size", got=m.out_channel_size, want=c * f)
    batch = d.pick([(3,), (1,), (2,)], "batch")
    space = d.pick([(), (4,), (2, 3)], "lattice")
    x = g.standard_normal(batch + space + (c,))
    flat = True if d.bool("default") else d.bool("flatten")
    # strength with which the feature (i, k) couples back to channel j at the same site
    w = g.standard_normal((c, f, c))
    if flat:
        lc = w.reshape(c * f, c)
    else:
        lc = np.moveaxis(w, -1, 1)
    kw = {} if flat and d.bool("omit") else dict(flatten_features=flat)
    mask = None
    if d.int(0, 3, "masked") == 0:
        mask = g.integers(0, 2, space).astype(float) if d.bool("shared mask") else g.integers(0, 2, batch + space).astype(float)
        kw["mask"] = jnp.asarray(mask)
    how = d.pick(["eager", "jit"], "evaluated")
    if how == "jit":
        mk = kw.pop("mask", None)
        run = nnx.jit(lambda m, x, lc, mk: m(x, lc, **kw, **({} if mk is None else dict(mask=mk))))
        y, div = run(m, jnp.asarray(x), jnp.asarray(lc), mk)
    else:
        y, div = m(jnp.asarray(x), jnp.asarray(lc), **kw)
    fx = ref(x)
    want = fx.reshape(batch + space + (c * f,)) if flat else fx
    tol = 1e-9 * (1 + np.abs(x).max() ** 4)
    close(y, want, "features", rtol=1e-9, atol=tol)
    # divergence of the local map x -> sum_ik w_ikj features_ik(x), per sample
    loc = np.einsum("...ik,iki->...", der(x), w)
    if mask is not None:
        loc = loc * mask
    close(div, loc.reshape(batch + (-1,)).sum(-1), "divergence", rtol=1e-8, atol=tol * x.size)
    if mask is None and x[0].size <= 12:
        gd, st = nnx.split(m)

        def local(x1):
            z, _ = nnx.merge(gd, st)(x1[None], jnp.asarray(lc), **{k: v for k, v in kw.items() if k != "mask"})
            return jnp.einsum("...a,aj->...j", z[0].reshape(x1.shape[:-1] + (c * f,)), w.reshape(c * f, c)).reshape(-1)

        jac = jax.jacfwd(lambda v: local(v.reshape(x[0].shape)))(jnp.asarray(x[0].reshape(-1)))
        close(div[0], np.trace(jac), "divergence versus dense Jacobian", rtol=1e-8, atol=tol * x.size)
    return c * f > 1


ACTS = [("default", None, None), ("tanh", jnp.tanh, np.tanh), ("sin", jnp.sin, np.sin), ("relu", nnx.relu, lambda x: np.maximum(x, 0))]


def act(d, default, label):
    n, j, f = d.pick(ACTS, label)
    return (None, default) if j is None else (j, f)


def np_gelu(x):
    return 0.5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + 0.044715 * x**3)))


def conv_periodic(x, k, b):
    """direct sum over offsets: kernel (spatial..., in, out) centred at (s-1)//2"""
    sp = k.shape[:-2]
    nd = len(sp)
    y = np.zeros(x.shape[:-1] + (k.shape[-1],))
    ax = tuple(range(x.ndim - 1 - nd, x.ndim - 1))
    for o in itertools.product(*[range(s) for s in sp]):
        sh = [-(i - (s - 1) // 2) for i, s in zip(o, sp)]
        y = y + np.roll(x, sh, ax) @ k[o]
    return y + b


def weights(layer):
    st = nnx.state(layer, nnx.Param)
    out = {}
    for path, v in jax.tree.leaves_with_path(st):
        out["kernel" if "kernel" in jax.tree_util.keystr(path) else "bias"] = np.asarray(v)
    return out["kernel"], out["bias"]


def batches(d, net, event, g, what):
    """outputs for a batch; every sample computed alone gives the same"""
    batch = d.pick([(), (3,), (3, 2), (1,)], "batch")
    x = g.standard_normal(batch + event)
    y = np.asarray(nnx.jit(lambda m, x: m(x))(net, jnp.asarray(x)) if d.bool("jit") else net(jnp.asarray(x)))
    if batch:
        i = tuple(d.int(0, b - 1, "which") for b in batch)
        close(net(jnp.asarray(x[i])), y[i], f"{what}: one sample of a batch alone", rtol=1e-5, atol=1e-6)
    return x, y, batch


@facet(24, 300, shards=2)
def conv_net(d):
    g = d.gen().spawn(1)[0]
    nd = d.int(1, 3, "lattice rank")
    lat = tuple(d.int(1, 5, "extent") for _ in range(nd))
    ks = tuple(d.int(1, 4, "kernel") for _ in range(nd))
    hid = [d.int(1, 4, "hidden") for _ in range(d.int(1, 3, "layers"))]
    ci, co = d.int(1, 3, "in"), d.int(1, 3, "out")
    a, fa = act(d, lambda x: np.where(x > 0, x, 0.01 * x), "activation")
    b, fb = act(d, np.tanh, "final activation")
    kw = {k: v for k, v in (("activation", a), ("final_activation", b)) if v is not None}
    default_kernel = ks == (3, 3) and d.bool("default kernel")
    if not default_kernel:
        kw["kernel_size"] = ks
    if hid != [8, 8] or d.bool("explicit"):
        kw["hidden_channels"] = d.pick([list, tuple], "as")(hid)
    if d.bool("constant output"):
        v = float(g.normal())
        net = N.ConvNet(ci, co, final_kernel_init=nnx.initializers.zeros, final_bias_init=nnx.initializers.constant(v), rngs=nnx.Rngs(0), **kw)
        y = net(jnp.asarray(g.standard_normal((2,) + lat + (ci,))))
        close(y, np.full((2,) + lat + (co,), fb(v)), "network with constant initialisation of the last layer", rtol=1e-5, atol=1e-6)
    net = jx.leaves_random(N.ConvNet(ci, co, rngs=nnx.Rngs(int(g.integers(2**31))), **kw), g, 0.5)
    layers = list(net.conv_layers)
    must(len(layers) == len(hid) + 1, "number of layers", got=len(layers), want=len(hid) + 1)
    x, y, batch = batches(d, net, lat + (ci,), g, "ConvNet")
    shape(y, batch + lat + (co,), "ConvNet output")
    h = x
    for i, (l, c) in enumerate(zip(layers, hid + [co])):
        k, bb = weights(l)
        shape(k, ks + (h.shape[-1], c), f"kernel of layer {i}")
        h = conv_periodic(h, k, bb)
        h = (fb if i == len(hid) else fa)(h)
    close(y, h, "ConvNet versus direct periodic convolutions", rtol=1e-5, atol=1e-5)
    sh = [d.int(0, s - 1, "shift") for s in lat]
    ax = tuple(range(len(batch), len(batch) + nd))
    close(net(jnp.asarray(np.roll(x, sh, ax))), np.roll(y, sh, ax), "ConvNet of the translated field", rtol=1e-5, atol=1e-5)
    return int(np.prod(lat)) > 1


@facet(35, 400)
def dense_nets(d):
    g = d.gen().spawn(1)[0]
    i, o = d.int(1, 4, "in"), d.int(1, 4, "out")
    a, fa = act(d, np_gelu, "activation")
    b, fb = act(d, lambda x: x, "final activation")
    kw = {k: v for k, v in (("activation", a), ("final_activation", b)) if v is not None}
    rngs = nnx.Rngs(int(g.integers(2**31)))
    kind = d.pick(["mlp", "resnet"], "network")
    if kind == "mlp":
        hid = [d.int(1, 5, "hidden") for _ in range(d.int(1, 4, "layers"))]
        net = jx.leaves_random(N.MLP(i, o, d.pick([list, tuple], "as")(hid), rngs=rngs, **kw), g, 0.7)
        ls = list(net.layers)
        must(len(ls) == len(hid) + 1, "number of layers", got=len(ls))
        x, y, batch = batches(d, net, (i,), g, "MLP")
        h = x
        for n, l in enumerate(ls):
            k, bb = weights(l)
            shape(k, (h.shape[-1], (hid + [o])[n]), f"layer {n}")
            h = (fb if n == len(hid) else fa)(h @ k + bb)
    else:
        wd, dp = d.int(1, 5, "width"), d.int(0, 4, "depth")
        if d.bool("constant output"):
            v = float(g.normal())
            net = N.ResNet(i, o, wd, dp, final_kernel_init=nnx.initializers.zeros, final_bias_init=nnx.initializers.constant(v), rngs=rngs, **kw)
            close(net(jnp.asarray(g.standard_normal((2, i)))), np.full((2, o), fb(v)), "network with constant initialisation of the last layer", rtol=1e-5, atol=1e-6)
        rate = 0.0
        if d.bool("dropout"):
            rate = d.pick([0.3, 0.8], "rate")
            kw["dropout"] = rate
        net = jx.leaves_random(N.ResNet(i, o, wd, dp, rngs=rngs, **kw), g, 0.7)
        if rate:
            net.eval()
        x, y, batch = batches(d, net, (i,), g, "ResNet")
        k, bb = weights(net.first_layer)
        h = x @ k + bb
        hl = list(net.hidden_layers)
        must(len(hl) == dp, "number of residual blocks", got=len(hl), want=dp)
        for l in hl:
            k, bb = weights(l)
            shape(k, (wd, wd), "residual block")
            h = h + fa(h) @ k + bb
        k, bb = weights(net.final_layer)
        h = fb(h @ k + bb)
    shape(y, batch + (o,), f"{kind} output")
    close(y, h, f"{kind} versus the documented composition", rtol=1e-5, atol=1e-5 * (1 + np.abs(h).max(initial=0)))
    return True


@facet(12, 150)
def dropout(d):
    """in training mode the residual branches see randomly dropped, rescaled units: unbiased for linear activations"""
    g = d.gen().spawn(1)[0]
    wd, dp = d.int(1, 5, "width"), d.int(1, 3, "depth")
    rate = d.pick([0.2, 0.5, 0.8], "rate")
    lin = lambda x: x
    net = jx.leaves_random(N.ResNet(2, 2, wd, dp, activation=lin, dropout=rate, rngs=nnx.Rngs(int(g.integers(2**31)))), g, 0.5)
    x = g.standard_normal(2)
    n = 4000
    net.eval()
    ref = np.asarray(net(jnp.asarray(x)))
    net.train()
    y = np.asarray(net(jnp.asarray(np.broadcast_to(x, (n, 2)))))
    shape(y, (n, 2), "output")
    z = (y.mean(0) - ref) * np.sqrt(n) / np.maximum(y.std(0), 1e-12)
    must(np.all(y.std(0) > 0), "dropout has no effect in training mode", rate=rate)
    # heavy tails of products of dropout factors: a wide threshold
    must((np.abs(z) < 9).all() or np.allclose(y.mean(0), ref, rtol=1e-4, atol=1e-4), "mean over dropout masks differs from the network without dropout", z=z)
    if dp == 1:
        # per-sample difference comes in multiples of the single units
        k0, b0 = weights(net.first_layer)
        h = x @ k0 + b0
        k1, b1 = weights(net.hidden_layers[0])
        k2, b2 = weights(net.final_layer)
        outs = []
        for m in itertools.product([0, 1], repeat=wd):
            dlt = (h * np.array(m) / (1 - rate)) @ k1 + b1
            outs.append((h + dlt) @ k2 + b2)
        outs = np.array(outs)
        dist = np.abs(y[:60, None] - outs[None]).max(-1).min(1)
        must((dist < 1e-4 * (1 + np.abs(outs).max())).all(), "a training-mode output corresponds to no dropout mask", dist=dist.max())
    return True
