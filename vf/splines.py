"""Generators and reference values for the rational-quadratic spline bijection."""
import numpy as np

from vf import zoo


MINS = [(1e-3, 1e-3, 1e-3), (1e-2, 3e-2, 0.1), (0.05, 1e-3, 1e-4), (1e-3, 0.05, 0.5), (1e-4, 1e-4, 1e-3)]


KNOTS_MINS = [(2, MINS[0]), (3, MINS[1]), (5, MINS[2]), (8, MINS[0]), (8, MINS[3]), (1, MINS[1]), (5, MINS[4]), (3, MINS[2])]


def draw_spline(d, event):
    import bijx
    import jax.numpy as jnp
    from flax import nnx

    knots, (mw, mh, ms) = d.pick(KNOTS_MINS, "knots,mins")
    g = d.gen("params")
    scale = d.pick([0.0, 0.5, 2.0, 4.0], "param_scale")
    w, h = scale * g.standard_normal((2, *event, knots))
    s = scale * g.standard_normal((*event, knots - 1)) + d.pick([0.0, 2.0, -2.0], "slope_offset")
    sp = bijx.MonotoneRQSpline(knots, event, min_bin_width=mw, min_bin_height=mh, min_slope=ms, rngs=nnx.Rngs(0))
    sp.widths.set_value(jnp.asarray(w)), sp.heights.set_value(jnp.asarray(h)), sp.slopes.set_value(jnp.asarray(s))
    X, Y, S = zoo.rqs_params(w, h, s, mw, mh, ms)
    return sp, (X, Y, S), dict(w=w, h=h, s=s, mw=mw, mh=mh, ms=ms), g


def draw_spline_x(d, K, batch, event, g, axis):
    n = int(np.prod(batch + event, dtype=int))
    x = g.uniform(-0.2, 1.2, n).reshape(batch + event)
    flatK = K.reshape(-1, K.shape[-1])
    xf = x.reshape(-1, max(1, int(np.prod(event, dtype=int))))
    for i in range(min(len(xf), 8)):
        j = i % xf.shape[1]
        kind = d.pick(["knot", "0", "1", "edge", "out", "interior"], "special")
        xf[i, j] = {"knot": flatK[j][d.int(0, flatK.shape[1] - 1, "k")], "0": 0.0, "1": 1.0,
                    "edge": d.pick([1e-12, 1 - 1e-12, -1e-12, 1 + 1e-12], "e"),
                    "out": d.pick([-3.0, 7.5, -1e6, 1e6], "o"), "interior": d.float(0, 1, "xi")}[kind]
    return xf.reshape(batch + event)


def ref_spline(x, X, Y, S, event):
    xb = x.reshape((-1,) + event)
    out, ld = np.empty_like(xb), np.empty_like(xb)
    for i in np.ndindex(*xb.shape):
        out[i], ld[i] = zoo.rqs_scalar(xb[i], X[i[1:]], Y[i[1:]], S[i[1:]])
    return out.reshape(x.shape), ld.reshape(x.shape)


def spline_tol(x, X, Y, S, event):
    xb = x.reshape((-1,) + event)
    out = np.empty_like(xb)
    for i in np.ndindex(*xb.shape):
        out[i] = zoo.rqs_inverse_tol(xb[i], X[i[1:]], Y[i[1:]], S[i[1:]])
    return out.reshape(x.shape)
