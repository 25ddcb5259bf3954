"""Cases: an elementwise bijection (or rational-quadratic spline) with drawn parameters, event and batch shapes,
incoming log-densities and inputs, including far tails, in both directions; the change of the log-density is
compared with a closed-form reference and with automatic differentiation of the map itself.  Every case has
random parameters and inputs; non-trivial cases have a change of the log-density that is not identically zero."""
import numpy as np

from vf import splines as P01
from vf import close, facet, jx, must, shape, zoo
from vf.zoo import EPS


def _sum(a, batch):
    return a.reshape(*batch, -1).sum(-1) if a.ndim > len(batch) else a


@facet(quick=260, thorough=3000, shards=4, tshards=8)
def elementwise(d):
    import jax
    import jax.numpy as jnp

    e = d.pick(zoo.ENTRIES, "bijection")
    batch, event = d.pick(zoo.SHAPES, "shape")
    b, eff = zoo.draw_bijection(d, e, event)
    x = zoo.draw_x(d, e, eff, batch + event)
    ld0 = 10 * d.gen("ld").standard_normal(batch)
    with np.errstate(all="ignore"):
        logdf = np.broadcast_to(e.logdf(x, eff), x.shape)
        extra = e.lj_extra(x, eff) * np.ones(x.shape)
    y, ld1 = b.forward(jnp.asarray(x), jnp.asarray(ld0))
    shape(ld1, batch, f"{e.name} log-density")
    close(ld1, ld0 - _sum(logdf, batch), f"{e.name}: forward log-density vs closed form", rtol=1e-11,
          atol=_sum(extra + 1e-11 * (1 + np.abs(logdf)), batch))
    # the map it actually applies: derivative by automatic differentiation
    _, dy = jax.jvp(lambda t: b.forward(t, jnp.asarray(ld0))[0], (jnp.asarray(x),), (jnp.ones(x.shape),))
    dy = np.abs(np.asarray(dy))
    ok = np.isfinite(np.log(np.maximum(dy, 1e-320))) & (logdf > -25)
    adtol = 1e-7 + 20 * extra + 1e-14 * np.exp(-logdf)
    if e.name == "CubicRational":
        adtol = adtol + 1e-9 * np.exp(-logdf)
    if ok.all():
        close(np.asarray(ld1), ld0 - _sum(np.log(dy), batch), f"{e.name}: forward log-density vs derivative of forward",
              rtol=1e-9, atol=_sum(adtol, batch))
    close(_sum(np.broadcast_to(np.asarray(b.log_jac(jnp.asarray(x), y)), x.shape), batch) * 1.0, _sum(logdf, batch), f"{e.name}.log_jac",
          rtol=1e-11, atol=_sum(extra + 1e-11 * (1 + np.abs(logdf)), batch))
    # reverse direction at y: opposite change, evaluated at the recovered point
    xr, ld2 = b.reverse(y, jnp.asarray(ld0))
    shape(ld2, batch, f"{e.name} reverse log-density")
    xr = np.asarray(xr)
    if np.all(np.isfinite(xr)):
        with np.errstate(all="ignore"):
            lr = np.broadcast_to(e.logdf(xr, eff), x.shape)
            extra = e.lj_extra(xr, eff) * np.ones(x.shape)
        close(ld2, ld0 + _sum(lr, batch), f"{e.name}: reverse log-density vs closed form", rtol=1e-10,
              atol=_sum(extra + 1e-10 * (1 + np.abs(lr)), batch))
    d.note(bijection=e.name, batch=batch, event=event, eff={k: np.round(v, 4).tolist() for k, v in eff.items()})
    return bool(np.any(logdf != 0))


FAR = {"Sigmoid": 300.0, "Tanh": 300.0, "SoftPlus": 600.0, "Exponential": 600.0, "Sinh": 600.0, "GaussianCDF": 60.0}


@facet(quick=120, thorough=1500, shards=1, tshards=4)
def tails(d):
    """far tails: finite and accurate although the image itself may saturate"""
    import jax.numpy as jnp

    e = zoo.BY_NAME[d.pick(sorted(FAR), "bijection")]
    b, eff = zoo.draw_bijection(d, e, ())
    u = np.array(d.floats(-1, 1, 6, "u"))
    x = FAR[e.name] * u
    if e.name == "GaussianCDF":
        x = eff["mean"] + eff["scale"] * x
    _, ld = b.forward(jnp.asarray(x), jnp.zeros(6))
    ref = np.asarray(e.logdf(x, eff))
    must(np.isfinite(np.asarray(ld)), f"{e.name}: log-density not finite in the tail", x=x, ld=np.asarray(ld))
    close(ld, -ref, f"{e.name}: log-density in the tail", rtol=1e-11, atol=1e-9)
    if e.name in ("Exponential", "SoftPlus", "Sinh"):  # image resolvable everywhere
        y, _ = b.forward(jnp.asarray(x), jnp.zeros(6))
        xr, ldr = b.reverse(y, jnp.zeros(6))
        close(xr, x, f"{e.name}: round trip in the tail", rtol=1e-12, atol=1e-12)
        close(ldr, ref, f"{e.name}: reverse log-density in the tail", rtol=1e-11, atol=1e-9)
    d.note(bijection=e.name, x=x)
    return bool(np.any(np.abs(u) > 0.2))


@facet(quick=180, thorough=2500, shards=3, tshards=8)
def spline(d):
    import jax
    import jax.numpy as jnp

    event, batch = d.pick([((), (40,)), ((3,), (20,)), ((2, 2), (2, 8))], "shapes")
    sp, (X, Y, S), p, g = P01.draw_spline(d, event)
    x = P01.draw_spline_x(d, X, batch, event, g, 0)
    ld0 = 10 * g.standard_normal(batch)
    y, ld1 = jx.apply(sp, x, ld0)
    f, logdf = P01.ref_spline(x, X, Y, S, event)
    # one-sided: at knots and at the boundary both one-sided derivatives coincide (C1), so no case split
    close(ld1, ld0 - _sum(logdf, batch), "spline: forward log-density vs closed form", rtol=1e-10,
          atol=1e-7 + 0 * ld0)
    eps = 1e-6
    inner = np.all(((x > 2 * eps) & (x < 1 - 2 * eps)) | (x < -2 * eps) | (x > 1 + 2 * eps), axis=tuple(range(len(batch), x.ndim)))
    yr = np.asarray(y)
    xr, ld2 = jx.apply(sp, yr, ld0, True)
    fr, lr = P01.ref_spline(np.asarray(xr), X, Y, S, event)
    w = np.diff(X, axis=-1).min()
    close(ld2, ld0 + _sum(lr, batch), "spline: reverse log-density vs closed form", rtol=1e-9, atol=1e-6 + 1e-9 / w + 0 * ld0)
    # central finite differences of the applied map
    h = 1e-7
    yp, ym = (np.asarray(jx.apply(sp, x + s * h, ld0)[0]) for s in (1, -1))
    with np.errstate(all="ignore"):
        fd = np.log((yp - ym) / (2 * h))
    refs = [P01.ref_spline(x + q * h, X, Y, S, event)[1] for q in (-1, -0.5, 0.5, 1)]
    spread = np.max(refs, 0) - np.min(refs, 0)
    tol = 1e-4 + 2 * spread + 2e-8 * np.exp(-logdf)
    okfd = inner & (_sum(tol, batch) < 0.5)
    close(np.where(okfd, ld1, 0), np.where(okfd, ld0 - _sum(fd, batch), 0), "spline: forward log-density vs finite differences",
          rtol=1e-8, atol=np.where(okfd, _sum(tol, batch), 0) + 1e-12)
    d.note(knots=X.shape[-1] - 1, event=event, inside=int(((x >= 0) & (x <= 1)).sum()))
    return bool(np.any(logdf != 0))


@facet(quick=30, thorough=400, shards=1, tshards=4)
def spline_function(d):
    """the bare spline function: value and log-derivative in both directions, parameters broadcast over inputs"""
    import bijx
    import jax.numpy as jnp

    k = d.pick([2, 3, 5], "bins")
    mw, mh, ms = d.pick(P01.MINS[:2] + [None], "mins") or (1e-3, 1e-3, 1e-3)
    kw = dict(min_bin_width=mw, min_bin_height=mh, min_slope=ms)
    g = d.gen("params")
    lay = d.pick([((7,), ()), ((4, 3), (3,)), ((4, 3), (4, 3)), ((), ())], "layout")
    w, h = g.standard_normal((2, *lay[1], k))
    s = g.standard_normal((*lay[1], k - 1))
    X, Y, S = zoo.rqs_params(w, h, s, mw, mh, ms)
    x = g.uniform(-0.2, 1.2, lay[0])
    y, ld = bijx.rational_quadratic_spline(jnp.asarray(x), jnp.asarray(w), jnp.asarray(h), jnp.asarray(s), **kw)
    full = np.broadcast_to(np.zeros(lay[1]), lay[0])
    want, wl = np.empty(lay[0]), np.empty(lay[0])
    for i in np.ndindex(*full.shape):
        j = i[len(i) - len(lay[1]):]
        want[i], wl[i] = zoo.rqs_scalar(x[i], X[j], Y[j], S[j])
    close(y, want, "spline function", rtol=1e-10, atol=1e-10)
    close(ld, wl, "spline function: log derivative", rtol=1e-9, atol=1e-8)
    xr, lr = bijx.rational_quadratic_spline(y, jnp.asarray(w), jnp.asarray(h), jnp.asarray(s), inverse=True, **kw)
    close(xr, x, "spline function: inverse", rtol=1e-9, atol=1e-6)
    close(lr, -wl, "spline function: log derivative of the inverse", rtol=1e-6, atol=1e-4)
    return True
