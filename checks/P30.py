"""Cases: scalar losses built with random weights from the values and log-densities of bijections of every kind (both
directions), of distributions (log-densities, samples for fixed keys), of transformed distributions, of lattice actions and
diagnostics; derivatives with respect to every input and every real parameter, in reverse mode, forward mode, compiled,
vectorised over samples and of second order; elementwise maps and splines far in their tails, outside of their interval and at
special points.  Oracle: central differences at two step sizes (cases where these disagree, e.g. at a kink, count as trivial),
closed-form derivatives in the tails.  Non-trivial: the derivative is not zero and resolved by the differences."""
import bijx
import bijx.lattice.gauge
import bijx.lattice.scalar
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

from vf import bij, close, facet, jx, must, zoo
from vf.dist import distribution


def real_leaf(v):
    return jnp.issubdtype(jnp.asarray(v).dtype, jnp.inexact)


def parts(tree):
    """real (floating) leaves, and how to put them back"""
    leaves, tree_def = jax.tree.flatten(tree)
    pick = [i for i, v in enumerate(leaves) if real_leaf(v)]

    def back(vals):
        out = list(leaves)
        for i, v in zip(pick, vals):
            out[i] = v
        return jax.tree.unflatten(tree_def, out)

    return [jnp.asarray(leaves[i]) for i in pick], back


def weigh(out, g):
    """random real linear functional of all (real or complex) leaves of a result"""
    ws = [g.standard_normal(np.shape(v)) + 1j * g.standard_normal(np.shape(v)) for v in jax.tree.leaves(out)]
    return lambda out: sum(jnp.sum((jnp.asarray(w) * v).real) for w, v in zip(ws, jax.tree.leaves(out), strict=True))


def inner(a, b):
    return float(sum(np.sum(np.asarray(u) * np.asarray(v)) for u, v in zip(a, b, strict=True)))


def along(f, args, vec, h=2e-4):
    """directional derivative by differences of fourth order, None if two step sizes disagree"""
    at = lambda t: float(f([a + t * v for a, v in zip(args, vec)]))
    d1 = lambda h: (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
    a, b = d1(h), d1(h / 2)
    size = max(abs(at(0.0)), abs(a), 1e-3)
    if not np.isfinite(a) or not np.isfinite(b) or abs(a - b) > 1e-6 * size:
        return None, size
    return b, size


def check(f, args, g, what, rtol=2e-6, directions=2, forward=True, second=True):
    """derivative of f, a scalar function of a list of real arrays"""
    fj = jax.jit(f)
    # small against the scale of each argument
    rs = lambda: [g.standard_normal(a.shape) * np.where(np.abs(np.asarray(a)) > 1, np.abs(np.asarray(a)), 1.0) for a in args]
    val, gr = jax.jit(jax.value_and_grad(f))(args)
    if not np.isfinite(float(val)):
        return False
    for k, v in enumerate(gr):
        must(np.isfinite(np.asarray(v)).all(), f"{what}: derivative with respect to argument {k} of {len(gr)} is not finite", got=v)
    done = False
    for _ in range(directions):
        vec = rs()
        want, size = along(fj, args, vec)
        if want is None:
            continue
        norm = np.sqrt(sum(float(np.sum((np.asarray(u) * v) ** 2)) for u, v in zip(gr, vec)))
        tol = rtol * max(size, norm)
        close(inner(gr, vec), want, f"{what}: derivative (reverse mode) against differences", rtol=0, atol=tol)
        done = done or abs(want) > 10 * tol
        if forward:
            fw = jax.jit(lambda a, v: jax.jvp(f, (a,), (v,))[1])(args, [jnp.asarray(v) for v in vec])
            close(fw, inner(gr, vec), f"{what}: forward against reverse mode", rtol=0, atol=1e-9 * max(size, norm))
    if second and done:
        grad = jax.jit(jax.grad(f))
        u, v = rs(), rs()
        want, size = along(lambda a: inner(grad(a), u), args, v)
        if want is not None:
            hv = jax.jit(lambda a, v: jax.jvp(jax.grad(f), (a,), (v,))[1])(args, [jnp.asarray(w) for w in v])
            norm = np.sqrt(sum(float(np.sum((np.asarray(p) * q) ** 2)) for p, q in zip(hv, u)))
            close(inner(hv, u), want, f"{what}: second derivative", rtol=0, atol=10 * rtol * max(size, norm))
    return done


# ------------------------------------------------------------------------------------------ bijections
@facet(8, 150, shards=6, tshards=8)
def bijections(d):
    c = bij.draw_case(d)
    g = d.gen("data").spawn(1)[0]
    batch = d.pick([(2,), (), (3,)], "batch")
    reverse = d.bool("reverse")
    x = jnp.asarray(c.sample(g, batch))
    ld = jnp.asarray(g.standard_normal(batch))
    kw = dict(c.kwargs)
    if reverse:
        x, ld = c.b.forward(x, ld, **kw)
    gd, s = nnx.split(c.b)
    args, back = parts((s, x, ld, kw))
    if any(jnp.issubdtype(a.dtype, jnp.complexfloating) for a in args):
        # complex input of a reversed transform to Fourier space: as pairs of real numbers
        flags = [jnp.issubdtype(a.dtype, jnp.complexfloating) for a in args]
        raw, inner_back = args, back
        args = [jnp.stack([a.real, a.imag]) if f else a for a, f in zip(raw, flags)]
        back = lambda v: inner_back([a[0] + 1j * a[1] if f else a for a, f in zip(v, flags)])

    def run(a):
        s, x, ld, kw = back(a)
        b = nnx.merge(gd, s)
        return (b.reverse if reverse else b.forward)(x, ld, **kw)

    loss = weigh(run(args), g)
    flow = "ContFlow" in c.name or c.name == "partial"
    inexact = c.name.startswith("ContFlow") and "diffrax" not in c.name or c.name == "partial"
    # adjoint integration is as accurate as the integrator only
    rtol = 3e-2 if "cg" in c.name else 1e-2 if inexact else 2e-6
    what = f"{c.name} {'reverse' if reverse else 'forward'}"
    more = d.pick(["none", "forward", "second"], "more")
    ok = check(lambda a: loss(run(a)), args, g, what, rtol=rtol, forward=more == "forward" and not flow, second=more == "second" and not flow)
    d.note(bijection=c.name, reverse=reverse, arguments=len(args))
    return ok


@facet(40, 600, shards=2, tshards=4)
def tails(d):
    """elementwise maps anywhere in their domain: the derivative of the value is the exponential of the documented
    log-derivative, that of the log-density its derivative; nothing becomes undefined"""
    e = zoo.BY_NAME[d.pick([e.name for e in zoo.ENTRIES], "bijection")]
    g = d.gen("x")
    b, eff = zoo.draw_bijection(d, e, ())
    u = np.concatenate([g.standard_normal(4), 4 * g.standard_normal(4)])
    xs = np.asarray(np.broadcast_to(e.xs(u, eff), u.shape), float)
    y = jax.vmap(lambda x: b.forward(x, jnp.zeros(()))[0])(jnp.asarray(xs))
    dy = np.asarray(jax.vmap(jax.grad(lambda x: b.forward(x, jnp.zeros(()))[0]))(jnp.asarray(xs)))
    dl = np.asarray(jax.vmap(jax.grad(lambda x: b.forward(x, jnp.zeros(()))[1]))(jnp.asarray(xs)))
    gd, s = nnx.split(b)
    ps, back = parts(s)
    for k in (0, 1):
        gp = jax.vmap(lambda x: jax.grad(lambda p: nnx.merge(gd, back(p)).forward(x, jnp.zeros(()))[k])(ps))(jnp.asarray(xs))
        for v in gp:
            must(np.isfinite(np.asarray(v)).all(), f"{e.name}: derivative of the {'log-density' if k else 'value'} with respect to a parameter is not finite", got=v, expected=f"at x = {xs}")
    must(np.isfinite(dy).all() and np.isfinite(dl).all(), f"{e.name}: derivative is not finite", got=[dy, dl], expected=f"at x = {xs}")
    want = np.exp(np.asarray(e.logdf(xs, eff), float))
    extra = np.expm1(np.broadcast_to(np.asarray(e.lj_extra(xs, eff), float), xs.shape))
    close(np.abs(dy), np.broadcast_to(want, xs.shape), f"{e.name}: derivative of the value", rtol=1e-6, atol=1e-12 + want * extra)
    h = 1e-4 * np.maximum(1e-2, np.abs(xs))
    with np.errstate(all="ignore"):
        D = lambda h: (np.asarray(e.logdf(xs + h, eff), float) - np.asarray(e.logdf(xs - h, eff), float)) / (2 * h)
        fd, fd2 = D(h), D(h / 2)
    ok = np.isfinite(fd) & np.isfinite(fd2) & (np.abs(fd - fd2) < 1e-3 * (1 + np.abs(fd2)))
    tol = 4 * np.abs(fd - fd2) + 1e-5 * (1 + np.abs(fd2)) + np.broadcast_to(np.asarray(e.lj_extra(xs, eff), float), xs.shape) / h
    close(np.where(ok, -dl, 0), np.where(ok, fd2, 0), f"{e.name}: derivative of the log-density", rtol=0, atol=np.where(ok, tol, 1))
    d.note(bijection=e.name)
    return bool(ok.any())


@facet(30, 400)
def spline_points(d):
    """splines at, outside and next to the ends of their interval and on knots: derivatives stay finite; outside, the map is
    the identity with derivative one and does not depend on the parameters"""
    g = d.gen("spline")
    n = d.int(1, 6, "knots")
    kw = dict(min_bin_width=d.pick([1e-3, 1e-2], "minimal width"), min_bin_height=1e-3, min_slope=d.pick([1e-3, 0.1], "minimal slope"))
    b = jx.leaves_random(bijx.MonotoneRQSpline(n, (), rngs=nnx.Rngs(0), **kw), g, d.pick([0.5, 2.0, 5.0], "scale"))
    gd, s = nnx.split(b)
    ps, back = parts(s)
    w = kw["min_bin_width"] + (1 - n * kw["min_bin_width"]) * np.asarray(jax.nn.softmax(b.widths.get_value()))
    xs = np.concatenate([[-3.0, -1e-9, 0.0, 1e-9, 1 - 1e-9, 1.0, 1 + 1e-9, 40.0], np.cumsum(w)[:-1], g.uniform(-0.5, 1.5, 4)])
    def run(p, x, reverse, k):
        m = nnx.merge(gd, back(p))
        return (m.reverse if reverse else m.forward)(x, jnp.zeros(()))[k]

    every = [(r, k) for r in (False, True) for k in (0, 1)]
    outs = jax.jit(jax.vmap(lambda p, x: [jax.value_and_grad(run, argnums=(0, 1))(p, x, r, k) for r, k in every], in_axes=(None, 0)))(ps, jnp.asarray(xs))
    for (reverse, k), (val, (gp, gx)) in zip(every, outs):
        gx = np.asarray(gx)
        name = f"spline {'reverse' if reverse else 'forward'} {'log-density' if k else 'value'}"
        must(np.isfinite(gx).all() and all(np.isfinite(np.asarray(v)).all() for v in gp), f"{name}: derivative is not finite", got=gx, expected=f"at x = {xs}")
        outside = (xs < 0) | (xs > 1)
        close(gx[outside], np.full(outside.sum(), 1.0 - k), f"{name}: derivative outside of the interval", rtol=0, atol=0)
        must(all(np.all(np.asarray(v)[outside] == 0) for v in gp), f"{name}: depends on the parameters outside of the interval")
        if k == 0 and not reverse:
            ld = np.asarray(outs[1][0])
            inside = (xs > 1e-6) & (xs < 1 - 1e-6) & (np.abs(xs[:, None] - np.cumsum(w)).min(1) > 1e-6)
            close(gx[inside], np.exp(-ld[inside]), f"{name}: derivative against the log-density", rtol=1e-7, atol=0)
    d.note(knots=n)
    return True


# ------------------------------------------------------------------------------------------ distributions
@facet(8, 150, shards=3, tshards=6)
def distributions(d):
    m, kind, ev, _ = distribution(d)
    g = d.gen("data").spawn(1)[0]
    batch = d.pick([(3,), (), (3, 2)], "batch")
    gd, p, rest = nnx.split(m, nnx.Not(nnx.RngState), ...)
    scale = d.pick([1.0, 1.0, 8.0], "distance")
    x = jnp.asarray(g.uniform(0.02, 0.98, batch + ev)) if kind == "uniform" else jnp.asarray(scale * g.standard_normal(batch + ev))
    args, back = parts((p, x))

    def dens(a):
        p, x = back(a)
        return nnx.merge(gd, p, rest, copy=True).log_density(x)

    l = weigh(dens(args), g)
    more = d.pick(["none", "forward", "second", "samples"], "more")
    ok = check(lambda a: l(dens(a)), args, g, f"{kind}: log-density", rtol=2e-6, forward=more == "forward", second=more == "second")
    if kind == "uniform":
        ok = True  # constant
    key = d.key()
    args, back2 = parts(p)
    if args and more == "samples":
        def samp(a):
            return nnx.merge(gd, back2(a), rest, copy=True).sample(batch, rng=key)

        w = weigh(samp(args), g)
        check(lambda a: w(samp(a)), args, g, f"{kind}: samples for a fixed key", rtol=2e-6, second=False)
    d.note(distribution=kind)
    return ok


@facet(5, 120, shards=4, tshards=6)
def likelihood(d):
    """the usual training losses of transformed distributions, with respect to trainable parameters only; frozen parts and
    constants take no part, and a small step along the derivative changes the loss as predicted"""
    c = bij.draw_real(d, flows=False)
    g = d.gen("data").spawn(1)[0]
    extra = bijx.Frozen(bijx.AffineLinear(jnp.asarray(0.3 * g.standard_normal(c.event)), jnp.asarray(g.standard_normal(c.event))))
    out = c.b.forward(jnp.asarray(c.sample(g, ())), jnp.zeros(()))[0]
    if np.shape(out) != tuple(c.event) or not jnp.issubdtype(out.dtype, jnp.floating):
        return False  # the batch shape is inferred from the event shape of the prior
    fixed = bijx.Shift(bijx.Const(jnp.asarray(g.standard_normal(c.event))))
    m = bijx.Transformed(bijx.IndependentNormal(c.event), bijx.Chain(extra, bijx.Shift(nnx.Param(jnp.asarray(g.standard_normal(c.event)))), c.b, fixed))
    train = nnx.All(nnx.Param, nnx.Not(bijx.FrozenFilter))
    gd, p, rest = nnx.split(m, train, ...)
    paths = ["/".join(map(str, k)) for k, _ in nnx.to_flat_state(p)]
    must(not any("frozen" in q for q in paths), "frozen parameters are among the trainable ones", got=paths)
    key = d.key()
    x = m.sample((4,), rng=key)[0]
    args, back = parts(p)
    merge = lambda a: nnx.merge(gd, back(a), rest, copy=True)
    losses = {
        "likelihood": lambda a: -jnp.mean(merge(a).log_density(x)),
        "reverse KL": lambda a: (lambda y, l: bijx.reverse_dkl(-jnp.sum(y.reshape(4, -1) ** 2, -1), l))(*merge(a).sample((4,), rng=key)),
    }
    name = d.pick(sorted(losses), "loss")
    f = losses[name]
    ok = check(f, args, g, f"{c.name}: {name}", rtol=2e-6, second=False, forward=False)

    got = jax.grad(f)(args)
    lossm = (lambda m: -jnp.mean(m.log_density(x))) if name == "likelihood" else (lambda m: (lambda y, l: bijx.reverse_dkl(-jnp.sum(y.reshape(4, -1) ** 2, -1), l))(*m.sample((4,), rng=key)))
    st = nnx.jit(lambda m: nnx.grad(lossm, argnums=nnx.DiffState(0, train))(m))(m)
    mine = jax.tree.leaves(st)
    must(len(mine) == len(jax.tree.leaves(p)), f"{c.name}: nnx.grad differentiates other parameters than those selected", got=len(mine), expected=len(jax.tree.leaves(p)))
    fl = [np.asarray(v) for v in mine if real_leaf(v)]
    for u, v in zip(fl, got, strict=True):
        close(u, v, f"{c.name}: {name}, derivative by nnx.grad", rtol=1e-8, atol=1e-9 * max(1, np.abs(np.asarray(v)).max(initial=0)))
    d.note(bijection=c.name, loss=name)
    return ok


# ------------------------------------------------------------------------------------------ actions, diagnostics, networks
@facet(24, 300, shards=2)
def actions(d):
    g = d.gen("fields")
    k = d.pick(["phi4", "phi4_alt", "kinetic", "poly", "two_point", "central", "wilson", "ess", "dkl", "average", "length"], "function")
    sh = d.pick([(4,), (3, 4), (5, 2), (2, 3, 2), (1, 4)], "lattice")
    r = lambda *s: jnp.asarray(g.standard_normal(s))
    sc = bijx.lattice.scalar
    if k == "phi4":
        f, args = lambda a: sc.phi4_term(a[0], a[1], a[2]), [r(*sh), r(), r()]
    elif k == "phi4_alt":
        f, args = lambda a: sc.phi4_term_alt(a[0], a[1], a[2]), [r(*sh), r(), r()]
    elif k == "kinetic":
        f, args = lambda a: sc.kinetic_term(a[0]), [r(*sh)]
    elif k == "poly":
        even = d.bool("even")
        f, args = lambda a: sc.poly_term(a[0], a[1], even), [r(*sh), r(3)]
    elif k == "two_point":
        f, args = lambda a: sc.two_point(a[0], d_average), [r(3, *sh)]
        d_average = d.bool("average")
    elif k == "central":
        f, args = lambda a: sc.two_point_central(a[0]), [r(3, *sh)]
    elif k == "length":
        L = d.int(4, 7, "length")
        t = np.arange(L)
        base = np.cosh(g.uniform(0.3, 1) * (t - L / 2)) * np.ones((3, 1))
        f, args = lambda a: sc.correlation_length(a[0]), [jnp.asarray(base * (1 + 1e-3 * g.standard_normal((3, L))))]
    elif k == "wilson":
        n = d.pick([1, 2, 3], "group")
        dim = d.pick([2, 3], "dim")
        ls = tuple(d.pick([1, 2, 3], "extent") for _ in range(dim))
        f = lambda a: bijx.lattice.gauge.wilson_action(a[0] + 1j * a[1], a[2])
        args = [r(*ls, dim, n, n), r(*ls, dim, n, n), r()]
    elif k == "ess":
        f, args = lambda a: bijx.effective_sample_size(a[0], a[1]), [r(12), r(12)]
    elif k == "dkl":
        f, args = lambda a: bijx.reverse_dkl(a[0], a[1]), [r(9), r(9)]
    else:
        f, args = lambda a: bijx.moving_average(a[0], 4), [r(d.pick([3, 4, 9], "length"))]
    l = weigh(f(args), g)
    ok = check(lambda a: l(f(a)), args, g, k, second=k not in ("length",))
    d.note(function=k)
    return ok


@facet(16, 250, shards=2)
def networks(d):
    g = d.gen("net")
    rngs = nnx.Rngs(int(g.integers(1000)))
    k = d.pick(["mlp", "resnet", "convnet", "convsym", "gauss", "lin", "fourier", "reduced", "positional", "features", "convvf"], "network")
    r = lambda *s: jnp.asarray(g.standard_normal(s))
    nn = bijx.nn
    tanh = jnp.tanh
    if k == "mlp":
        m, x = nn.nets.MLP(3, 2, [4, 5], activation=tanh, rngs=rngs), r(2, 3)
    elif k == "resnet":
        m, x = nn.nets.ResNet(3, 2, 4, 2, activation=tanh, rngs=rngs), r(2, 3)
    elif k == "convnet":
        m, x = nn.nets.ConvNet(1, 2, (3, 3), [2], activation=tanh, rngs=rngs), r(2, 3, 4, 1)
    elif k == "convsym":
        m, x = nn.conv.ConvSym(2, 3, (3, 3), d.pick([nn.conv.kernel_d4, nn.conv.kernel_equidist, None], "symmetry"), rngs=rngs), r(2, 4, 3, 2)
    elif k == "gauss":
        m = nn.embeddings.KernelGauss(d.int(2, 5, "features"), val_range=d.pick([None, (-1.0, 2.0)], "range"), norm=d.bool("norm"), one_width=d.bool("one width"), rngs=rngs)
        x = r(3)
    elif k == "lin":
        m, x = nn.embeddings.KernelLin(4, val_range=(-2.0, 2.0), rngs=rngs), r(3)
    elif k == "fourier":
        m, x = nn.embeddings.KernelFourier(5, rngs=rngs), r(3)
    elif k == "reduced":
        m, x = nn.embeddings.KernelReduced(nn.embeddings.KernelFourier(5), 3, rngs=rngs), r(3)
    elif k == "positional":
        m, x = nn.embeddings.PositionalEmbedding(4, append_input=d.bool("append"), max_positions=50.0, rngs=rngs), r(3)
    elif k == "features":
        c = d.int(1, 2, "channels")
        m = nn.features.ConcatFeatures([nn.features.FourierFeatures(3, c, rngs=rngs), nn.features.PolynomialFeatures([1, 2], c, rngs=rngs)])
        x = r(2, 4, c)
        w = r(5 * c, c)
    else:
        from functools import partial

        ch = d.pick([(), (2,)], "channels")
        m = bijx.ConvVF.build((3, 3), ch, time_kernel=nn.embeddings.KernelGauss(3, rngs=rngs), time_kernel_reduced=d.pick([None, 2], "reduced time"),
                              features=(partial(nn.features.FourierFeatures, 3), partial(nn.features.PolynomialFeatures, (1,))),
                              features_reduced=d.pick([None, 2], "reduced features"), rngs=rngs)
        x = r(2, 3, 4, *ch)
    m = jx.leaves_random(m, g, 0.6) if k not in ("lin", "fourier", "positional") else m
    gd, s = nnx.split(m)
    s = jax.tree.map(lambda v: jnp.asarray(v, float) if real_leaf(v) else v, s)
    args, back = parts((s, x))

    def run(a):
        s, x = back(a)
        n = nnx.merge(gd, s)
        if k == "features":
            return n(x, w)
        if k == "convvf":
            return n(0.3, x)
        return n(x)

    l = weigh(run(args), g)
    ok = check(lambda a: l(run(a)), args, g, k, forward=False, second=d.bool("second") and k != "lin")
    d.note(network=k)
    return ok
