"""Cases: an elementwise bijection with drawn parameters (transform, form, scalar or per element) and
inputs over its resolvable domain plus special points, or a rational-quadratic spline with drawn bins
and inputs inside, outside, on the boundary and on knots.  Non-trivial: the map has parameters away from
the default or the input is not only zeros; every generated case here contains both, so triviality is
counted only for splines with a single bin and no interior input."""
import numpy as np
from hypothesis import strategies as st

import vf
from vf import close, facet, must, shape
from vf import jx, zoo
from vf.splines import draw_spline, draw_spline_x, ref_spline, spline_tol
from vf.zoo import EPS


def _setup(d):
    import jax.numpy as jnp

    e = d.pick(zoo.ENTRIES, "bijection")
    batch, event = d.pick(zoo.SHAPES, "shape")
    b, eff = zoo.draw_bijection(d, e, event)
    x = zoo.draw_x(d, e, eff, batch + event)
    d.note(bijection=e.name, batch=batch, event=event, eff={k: np.round(v, 4).tolist() for k, v in eff.items()})
    return jnp, e, batch, event, b, eff, x


def _ref(e, x, eff):
    with np.errstate(all="ignore"):
        f = np.broadcast_to(e.f(x, eff), x.shape)
        ld = np.broadcast_to(e.logdf(x, eff), x.shape)
    return f, ld


def _rt_tol(e, x, eff):
    """tolerance of x recovered from its rounded image"""
    f, ld = _ref(e, x, eff)
    with np.errstate(all="ignore"):
        return 40 * EPS * (np.abs(f) * np.exp(-ld) + np.abs(x)) + 1e-300 + e.inv_extra(x, eff) + e.f_extra(x, eff) * np.exp(-ld)


@facet(quick=260, thorough=3000, shards=4, tshards=8)
def elementwise(d):
    """formula, range, monotonicity and both round trips of all elementwise bijections"""
    jnp, e, batch, event, b, eff, x = _setup(d)
    ld0 = d.gen("ld").standard_normal(batch)
    y, ld1 = b.forward(jnp.asarray(x), jnp.asarray(ld0))
    f, logdf = _ref(e, x, eff)
    shape(y, x.shape, f"{e.name}.forward"), shape(ld1, batch, f"{e.name} log-density")
    y = np.asarray(y)
    with np.errstate(all="ignore"):
        ftol = 20 * EPS * (np.abs(f) + np.abs(x) * np.exp(logdf)) + e.f_extra(x, eff)
    close(y, f, f"{e.name}: documented formula", rtol=1e-12, atol=ftol)
    lo, hi = e.yrange
    must((y >= lo) & (y <= hi), f"{e.name}: value outside its documented range", y=y)
    # the three-line interface of the elementwise maps agrees with forward / reverse
    close(b.fwd(jnp.asarray(x)), y, f"{e.name}.fwd", rtol=1e-13, atol=0)
    x2, ld2 = b.reverse(jnp.asarray(y), ld1)
    shape(x2, x.shape, f"{e.name}.reverse")
    tol = _rt_tol(e, x, eff)
    good = tol < 1e-3 * (1 + np.abs(x))  # not saturated
    close(np.where(good, x2, x), x, f"{e.name}: reverse(forward(x))", rtol=0, atol=np.maximum(tol, 0))
    if good.all():
        lt = 1e-8 + (20 * tol).sum() + np.sum(e.lj_extra(x, eff) * np.ones(x.shape))
        ex = tuple(range(len(batch), x.ndim))
        close(ld2, ld0, f"{e.name}: log-density after forward and reverse", rtol=1e-9, atol=lt + 0 * ld0)
    return True


@facet(quick=160, thorough=2000, shards=2, tshards=8)
def reverse_first(d):
    """forward(reverse(y)) == y for y anywhere in the range (points chosen in the image, then perturbed away from images of floats)"""
    jnp, e, batch, event, b, eff, x = _setup(d)
    f, logdf = _ref(e, x, eff)
    g = d.gen("y")
    with np.errstate(all="ignore"):
        if e.yrange == (0, 1):
            y = np.where(np.abs(f) < 0.2, f * g.uniform(0.5, 1.5, f.shape), np.clip(f * g.uniform(0.9, 1.0, f.shape), 0.0, 1 - 1e-6))
        elif e.yrange == (-1, 1):
            y = np.clip(f * g.uniform(0.9, 1.0, f.shape), -1 + 1e-6, 1 - 1e-6)
        else:
            y = f * g.uniform(0.5, 2.0, f.shape)
    y = np.where((y == 0) & (e.yrange[0] == 0), 0.5, y)
    xr, ldr = b.reverse(jnp.asarray(y), jnp.zeros(batch))
    shape(xr, y.shape, f"{e.name}.reverse"), shape(ldr, batch, f"{e.name} log-density")
    xr_ = np.asarray(xr)
    must(np.isfinite(xr_), f"{e.name}.reverse is not finite inside the range", y=y, x=xr_)
    fr, ldf = _ref(e, xr_, eff)
    with np.errstate(all="ignore"):
        tol = (40 * EPS * np.abs(xr_) + e.inv_extra(xr_, eff)) * np.exp(ldf) + 40 * EPS * (1 + np.abs(y)) * (np.abs(y) if e.yrange[0] == 0 else 1) + e.f_extra(xr_, eff)
        if e.yrange == (0, 1):  # 1-y carries an absolute rounding error
            tol = tol + 40 * EPS
    close(fr, y, f"{e.name}: reference map of reverse(y)", rtol=1e-12, atol=tol)
    y2, ld2 = b.forward(xr, ldr)
    close(y2, y, f"{e.name}: forward(reverse(y))", rtol=1e-12, atol=2 * tol)
    close(b.rev(jnp.asarray(y)), xr_, f"{e.name}.rev", rtol=1e-13, atol=0)
    lt = 1e-7 + float(np.sum(e.lj_extra(xr_, eff) * np.ones(y.shape))) * 2
    if np.all(np.abs(xr_) < 1e6):
        close(ld2, np.zeros(batch), f"{e.name}: log-density after reverse and forward", rtol=0, atol=lt + 1e-9 * np.abs(np.asarray(ldr)))
    return True


@facet(quick=120, thorough=1500, shards=1, tshards=4)
def monotone(d):
    """strictly monotone on well separated ordered points, one scalar map, both directions"""
    import jax.numpy as jnp

    e = d.pick(zoo.ENTRIES, "bijection")
    b, eff = zoo.draw_bijection(d, e, ())
    g = d.gen("x")
    u = np.sort(np.concatenate([g.uniform(-1, 1, 30), [0.0, -1.0], 0.05 * g.standard_normal(8)]))
    x = e.xs(u, eff)
    f, logdf = _ref(e, x, eff)
    s = float(e.sign(eff))
    y = np.asarray(b.forward(jnp.asarray(x), jnp.zeros(x.shape))[0])
    shape(y, x.shape, e.name)
    df = np.diff(f) * s
    with np.errstate(all="ignore"):
        tol = 4 * (20 * EPS * (np.abs(f) + np.abs(x) * np.exp(logdf)) + e.f_extra(x, eff))
    clear = df > tol[1:] + tol[:-1]
    must((np.diff(y) * s > 0) | ~clear, f"{e.name}: not strictly monotone", x=x, y=y)
    d.note(bijection=e.name)
    return clear.any()


@facet(quick=60, thorough=400)
def default_parameters(d):
    """modules built from shapes only (the documented initial values) still match their formula"""
    import bijx
    import jax.numpy as jnp
    from flax import nnx

    ident = {"GaussianCDF": {"scale": 1.0, "mean": 0.0}, "Power": {"exponent": 1.0}, "AffineLinear": {"scale": 1.0, "shift": 0.0},
             "Scaling": {"scale": 1.0}, "Shift": {"shift": 0.0}, "BetaStretch": {"a": 1.0}}
    name = d.pick(sorted(ident), "bijection")
    e = zoo.BY_NAME[name]
    event = d.pick([(), (3,), (3, 2)], "event")
    explicit = d.bool("explicit_shape")
    if explicit:
        kw = {p.kw: event for p in e.pars}
        b = getattr(bijx, name)(rngs=nnx.Rngs(d.int(0, 1000, "seed")), **kw)
    else:
        b = getattr(bijx, name)(rngs=nnx.Rngs(d.int(0, 1000, "seed")))
    eff = {k: np.asarray(v) for k, v in ident[name].items()}
    x = zoo.draw_x(d, e, eff, (4,) + event)
    y, ld = b.forward(jnp.asarray(x), jnp.zeros(4))
    f, logdf = _ref(e, x, eff)
    close(y, f, f"{name} at its initial parameters", rtol=1e-6, atol=1e-6)
    close(ld, -logdf.reshape(4, -1).sum(-1), f"{name}: log-density at initial parameters", rtol=1e-5, atol=1e-4)
    return True


@facet(quick=200, thorough=2500, shards=3, tshards=8)
def spline(d):
    """spline values against the published formula; both round trips; identity outside; fixed end points"""
    import jax.numpy as jnp

    event, batch = d.pick([((), (40,)), ((3,), (20,)), ((2, 2), (2, 8))], "shapes")
    eager = d.int(0, 24, "eager") == 24
    run = (lambda r, x, l: (sp.reverse if r else sp.forward)(jnp.asarray(x), jnp.asarray(l))) if eager else (lambda r, x, l: jx.apply(sp, x, l, r))
    sp, (X, Y, S), p, g = draw_spline(d, event)
    x = draw_spline_x(d, X, batch, event, g, 0)
    y, ld = run(False, x, jnp.zeros(batch))
    f, logdf = ref_spline(x, X, Y, S, event)
    close(y, f, "spline: documented formula", rtol=1e-10, atol=1e-10)
    y = np.asarray(y)
    out = (x < 0) | (x > 1)
    must(y[out] == x[out], "spline is not the identity outside the unit interval", x=x[out], y=y[out])
    must((y[~out] >= -1e-12) & (y[~out] <= 1 + 1e-12), "spline leaves the unit interval", x=x, y=y)
    x2, ld2 = run(True, y, ld)
    with np.errstate(all="ignore"):
        tol = 1e-10 + 2e-12 * np.exp(-logdf) + spline_tol(x, X, Y, S, event)
    close(x2, x, "spline: reverse(forward(x))", rtol=1e-12, atol=tol)
    lds = [ref_spline(np.clip(x + q * tol, 0, 1), X, Y, S, event)[1] for q in (-3, -1, 1, 3)]
    lt = 4 * (np.max(lds, 0) - np.min(lds, 0))
    close(ld2, np.zeros(batch), "spline: log-density after forward and reverse", rtol=0, atol=1e-5 + lt.reshape(*batch, -1).sum(-1))
    yy = draw_spline_x(d, Y, batch, event, g, 1)
    xr, ldr = run(True, yy, jnp.zeros(batch))
    fr, ldf = ref_spline(np.asarray(xr), X, Y, S, event)
    close(fr, yy, "spline: reference of reverse(y)", rtol=1e-12, atol=1e-11 + (1e-10 + spline_tol(np.asarray(xr), X, Y, S, event)) * np.exp(ldf))
    y3, _ = run(False, xr, ldr)
    close(y3, yy, "spline: forward(reverse(y))", rtol=1e-12, atol=1e-11 + (1e-10 + spline_tol(np.asarray(xr), X, Y, S, event)) * np.exp(ldf))
    d.note(knots=X.shape[-1] - 1, event=event)
    return X.shape[-1] > 2
