"""Elementwise bijections with independent numpy references (P01, P02, and parts of others)."""
import numpy as np
import scipy.special as sp
import scipy.stats as ss

EPS = np.finfo(float).eps


def softplus(x):
    return np.logaddexp(x, 0.0)


# name -> (numpy function, how to get the jax function)
def _jax_transform(name):
    import jax.numpy as jnp
    from flax import nnx

    return {
        "none": None, "exp": jnp.exp, "softplus": nnx.softplus, "abs": jnp.abs,
        "sq": _sq, "dbl": _dbl,
    }[name]


def _sq(x):
    return x * x + 0.5


def _dbl(x):
    return 2 * x - 1


NP_TRANSFORM = {
    "none": lambda x: x, "exp": np.exp, "softplus": softplus, "abs": np.abs,
    "sq": lambda x: x * x + 0.5, "dbl": lambda x: 2 * x - 1,
    "softplus001": lambda x: softplus(x) + 0.01, "arcsinh": np.arcsinh,
    "cr_beta": lambda x: 0.1 + softplus(x + 1),
}


def _cr_alpha(a):
    lo, hi = -1 + 1e-3, 8 - 1e-3
    d = hi - lo
    return lo + d * sp.expit(a + sp.logit(-lo / d))


NP_TRANSFORM["cr_alpha"] = _cr_alpha


class Par:
    """One parameter: keyword, transform keyword, default transform, range of effective values."""

    def __init__(self, kw, tkw, default, lo, hi, alts=(), rlo=None, rhi=None):
        self.kw, self.tkw, self.default = kw, tkw, default
        self.lo, self.hi = lo, hi  # raw range for default transform
        self.alts = alts  # (transform name, raw lo, raw hi)


class Entry:
    def __init__(self, name, pars, f, logdf, xs, yrange, sign=lambda e: 1, lj_extra=None,
                 inv_extra=None, f_extra=None, cls=None, far=None):
        self.far = far or xs  # inputs further out, where overflow threatens
        self.name, self.pars, self.f, self.logdf, self.xs = name, pars, f, logdf, xs
        self.yrange, self.sign = yrange, sign
        self.lj_extra = lj_extra or (lambda x, e: 0.0)  # extra absolute tolerance of log|f'|
        self.inv_extra = inv_extra or (lambda x, e: 0.0)  # extra absolute tolerance of round trips
        self.f_extra = f_extra or (lambda x, e: 0.0)  # extra absolute tolerance of values
        self.cls = cls or name


def _icubic(z, a, b):
    """real root t of a t + b t^3 = z"""
    s = np.sqrt(a / (3 * b))
    return 2 * s * np.sinh(np.arcsinh(3 * z / (2 * a) / s) / 3)


def _tails(u, scale):
    return scale * u


def _sinh_f(x, e):
    a = (x - e["loc"]) / e["alpha"]
    return np.arcsinh(np.exp(e["mu"]) * (np.exp(e["nu"]) * np.sinh(a) + e["beta"])) * e["alpha"] + e["loc"]


def _sinh_ld(x, e):
    a = (x - e["loc"]) / e["alpha"]
    arg = np.exp(e["mu"]) * (np.exp(e["nu"]) * np.sinh(a) + e["beta"])
    return e["mu"] + e["nu"] + np.log(np.cosh(a)) - 0.5 * np.log1p(arg * arg)


def _sinh_tols(x, e):
    """(value, log-derivative, inverse): absolute errors in units of alpha.  Beyond |a| = 15 the documented asymptotic form is
    used, whose error is below 4 exp(-15); otherwise rounding errors, amplified where the terms cancel"""
    a = np.abs(x - e["loc"]) / e["alpha"]
    ay = np.abs(_sinh_f(x, e) - e["loc"]) / e["alpha"]
    da = EPS * (1 + a + (np.abs(x) + np.abs(e["loc"])) / e["alpha"])  # of a
    emu, enu, beta = np.exp(e["mu"]), np.exp(e["nu"]), np.abs(e["beta"])
    arg = emu * (enu * np.sinh(a * np.sign(x - e["loc"])) + e["beta"])
    darg = emu * (enu * np.cosh(a) * da + EPS * (enu * np.sinh(a) + beta))
    f = 32 * darg / np.sqrt(1 + arg * arg) + np.where(a > 14.9, 1.5e-6, 0.0)
    lj = 32 * (darg * np.abs(arg) / (1 + arg * arg) + da) + np.where(a > 14.9, 1.5e-6, 0.0)
    dy = EPS * (1 + ay + (np.abs(_sinh_f(x, e)) + np.abs(e["loc"])) / e["alpha"])
    dinv = (np.cosh(ay) / emu * dy + EPS * (np.sinh(ay) / emu + beta)) / enu
    inv = 32 * (dinv / np.cosh(a) + da) + np.where(np.maximum(a, ay) > 14.9, 1.5e-6, 0.0)
    return f, lj, inv


def _cc_t(x, e):
    u = x - e["loc"]
    return _icubic(e["a"] * u + e["b"] * u**3 + e["beta"], e["a"], e["b"])


POS = (("exp", -1.5, 1.5), ("sq", -1.5, 1.5), ("none", 0.3, 3.0))
ANY = (("dbl", -2.0, 2.0),)

ENTRIES = [
    Entry("GaussianCDF",
          [Par("scale", "transform_scale", "softplus", -1.5, 3.5, POS), Par("mean", "transform_mean", "none", -5, 5, ANY)],
          lambda x, e: ss.norm.cdf(x, e["mean"], e["scale"]),
          lambda x, e: ss.norm.logpdf(x, e["mean"], e["scale"]),
          lambda u, e: e["mean"] + e["scale"] * np.where(u < 0, 10 * u, 5 * u), (0, 1),
          inv_extra=lambda x, e: 1e-12 * e["scale"], f_extra=lambda x, e: 1e-13 * ss.norm.cdf(x, e["mean"], e["scale"]) * (1 + x * x)),
    Entry("Tan", [], lambda x, e: np.tan(np.pi * (x - 0.5)),
          lambda x, e: np.log(np.pi) - 2 * np.log(np.cos(np.pi * (x - 0.5))),
          lambda u, e: 0.5 + 0.499 * np.clip(u, -1, 1), (-np.inf, np.inf),
          lj_extra=lambda x, e: 1e-12, f_extra=lambda x, e: 1e-12 * (1 + np.tan(np.pi * (x - 0.5)) ** 2)),
    Entry("Sigmoid", [], lambda x, e: sp.expit(x), lambda x, e: -softplus(x) - softplus(-x),
          lambda u, e: 25 * u, (0, 1), far=lambda u, e: np.where(u < 0, 300 * u, 20 * u)),
    Entry("Tanh", [], lambda x, e: np.tanh(x), lambda x, e: 2 * (np.log(2) - np.abs(x) - softplus(-2 * np.abs(x))),
          lambda u, e: 12 * u, (-1, 1), far=lambda u, e: 300 * u),
    Entry("Exponential", [], lambda x, e: np.exp(x), lambda x, e: x, lambda u, e: 50 * u, (0, np.inf), far=lambda u, e: 340 * u),
    Entry("SoftPlus", [], lambda x, e: softplus(x), lambda x, e: -softplus(-x), lambda u, e: 60 * u, (0, np.inf), far=lambda u, e: np.where(u < 0, 350 * u, 1e4 * u**3)),
    Entry("Power",
          [Par("exponent", "transform_exponent", "abs", 0.2, 4, (("abs", -4, -0.2),) + POS + (("none", -3.0, -0.3),))],
          lambda x, e: x ** e["exponent"],
          lambda x, e: np.log(np.abs(e["exponent"])) + (e["exponent"] - 1) * np.log(x),
          lambda u, e: np.exp(3 * u), (0, np.inf), sign=lambda e: np.sign(e["exponent"]),
          inv_extra=lambda x, e: 1e-13 * x * (1 + 1 / np.abs(e["exponent"])), f_extra=lambda x, e: 1e-13 * x ** e["exponent"]),
    Entry("Sinh", [], lambda x, e: np.sinh(x), lambda x, e: np.logaddexp(x, -x) - np.log(2),
          lambda u, e: 20 * u, (-np.inf, np.inf), f_extra=lambda x, e: 1e-13 * np.cosh(x), far=lambda u, e: 350 * u),
    Entry("AffineLinear",
          [Par("scale", "transform_scale", "exp", -2, 2, (("softplus", -1.5, 3.0), ("none", 0.2, 3.0), ("none", -3.0, -0.2), ("sq", -1.5, 1.5))),
           Par("shift", "transform_shift", "none", -5, 5, ANY)],
          lambda x, e: e["scale"] * x + e["shift"],
          lambda x, e: np.log(np.abs(e["scale"])) + 0 * x,
          lambda u, e: 20 * u, (-np.inf, np.inf), sign=lambda e: np.sign(e["scale"]),
          f_extra=lambda x, e: 1e-14 * (np.abs(e["scale"] * x) + np.abs(e["shift"])),
          inv_extra=lambda x, e: 1e-14 * (1 + np.abs(e["shift"] / e["scale"]))),
    Entry("Scaling",
          [Par("scale", "transform_scale", "none", -3, -0.2, (("none", 0.2, 3.0), ("exp", -2, 2), ("sq", -1.5, 1.5), ("exp", -28, 28)))],
          lambda x, e: e["scale"] * x, lambda x, e: np.log(np.abs(e["scale"])) + 0 * x,
          lambda u, e: 20 * u, (-np.inf, np.inf), sign=lambda e: np.sign(e["scale"])),
    Entry("Shift", [Par("shift", "transform_shift", "none", -5, 5, ANY + (("exp", -2, 2),))],
          lambda x, e: x + e["shift"], lambda x, e: 0 * x, lambda u, e: 20 * u, (-np.inf, np.inf),
          f_extra=lambda x, e: 1e-14 * (np.abs(x) + np.abs(e["shift"])),
          inv_extra=lambda x, e: 1e-14 * np.abs(e["shift"])),
    Entry("BetaStretch", [Par("a", "transform_a", "softplus", -1.0, 5.0, POS)],
          lambda x, e: sp.expit(e["a"] * (np.log(x) - np.log1p(-x))),
          lambda x, e: np.log(e["a"]) - softplus(e["a"] * sp.logit(x)) - softplus(-e["a"] * sp.logit(x)) - np.log(x) - np.log1p(-x),
          lambda u, e: sp.expit(4 * np.clip(u, -2.5, 2.5)), (0, 1), lj_extra=lambda x, e: 1e-11, f_extra=lambda x, e: 1e-13,
          inv_extra=lambda x, e: 1e-13),
    Entry("CubicRational",
          [Par("loc", "loc_transform", "none", -4, 4, ANY), Par("alpha", "alpha_transform", "cr_alpha", -4, 4, (("none", -0.95, 7.5),)),
           Par("beta", "beta_transform", "cr_beta", -3, 4, POS)],
          lambda x, e: x + e["alpha"] * (x - e["loc"]) / (1 + e["beta"] * (x - e["loc"]) ** 2),
          lambda x, e: np.log1p(e["alpha"] * (1 - e["beta"] * (x - e["loc"]) ** 2) / (1 + e["beta"] * (x - e["loc"]) ** 2) ** 2),
          lambda u, e: e["loc"] + np.sign(u) * np.abs(u) * (0.5 + 4 * np.abs(u)), (-np.inf, np.inf),
          lj_extra=lambda x, e: 1e-12 * (1 + 1 / np.abs(1 + e["alpha"] * (1 - e["beta"] * (x - e["loc"]) ** 2) / (1 + e["beta"] * (x - e["loc"]) ** 2) ** 2)),
          inv_extra=lambda x, e: 1e-9,
          f_extra=lambda x, e: 1e-13 * (1 + np.abs(x) + np.abs(e["loc"]))),
    Entry("SinhConjugation",
          [Par("loc", None, "none", -4, 4), Par("alpha", "alpha_transform", "softplus001", -1.0, 3.0, POS),
           Par("beta", None, "none", -4, 4, (("none", -40, 40),)), Par("mu", "mu_transform", "arcsinh", -3, 3, (("none", -1.5, 1.5), ("none", -8, 8))),
           Par("nu", "nu_transform", "arcsinh", -3, 3, (("none", -1.5, 1.5), ("none", -8, 8)))],
          _sinh_f, _sinh_ld, lambda u, e: e["loc"] + e["alpha"] * 8 * u, (-np.inf, np.inf), far=lambda u, e: e["loc"] + e["alpha"] * 35 * u,
          lj_extra=lambda x, e: _sinh_tols(x, e)[1] + 2e-8, f_extra=lambda x, e: _sinh_tols(x, e)[0] * e["alpha"],
          inv_extra=lambda x, e: _sinh_tols(x, e)[2] * e["alpha"]),
    Entry("CubicConjugation",
          [Par("loc", None, "none", -4, 4), Par("beta", None, "none", -5, 5),
           Par("a", "a_transform", "softplus", -1.5, 3, POS), Par("b", "b_transform", "softplus", -1.5, 3, POS)],
          lambda x, e: _cc_t(x, e) + e["loc"],
          lambda x, e: np.log(e["a"] + 3 * e["b"] * (x - e["loc"]) ** 2) - np.log(e["a"] + 3 * e["b"] * _cc_t(x, e) ** 2),
          lambda u, e: e["loc"] + np.sign(u) * np.abs(u) * (0.5 + 3 * np.abs(u)), (-np.inf, np.inf),
          f_extra=lambda x, e: 1e-11 * (1 + np.abs(x)), inv_extra=lambda x, e: 1e-9, lj_extra=lambda x, e: 1e-7),
]
BY_NAME = {e.name: e for e in ENTRIES}

# (batch shape, event shape)
SHAPES = [((), ()), ((12,), ()), ((), (3,)), ((4,), (3,)), ((2, 2), (2, 2)), ((3,), (3,))]


def draw_bijection(d, entry, event, default_ok=True):
    """Draw parameters; returns (bijection, dict of effective parameter arrays, description)."""
    import bijx
    import jax.numpy as jnp
    from flax import nnx

    kwargs, eff = {}, {}
    for p in entry.pars:
        opts = [(p.default, p.lo, p.hi, True)] + [(*a, False) for a in p.alts]
        tr, lo, hi, is_default = d.pick(opts, f"{p.kw}.transform")
        per_element = event != () and d.bool(f"{p.kw}.per_element")
        if per_element:
            raw = lo + (hi - lo) * d.gen(f"{p.kw}.seed").random(event)
        else:
            raw = np.asarray(d.float(lo, hi, p.kw))
        form = d.pick(["jax", "numpy", "Param", "Const"], f"{p.kw}.form")
        val = jnp.asarray(raw)
        kwargs[p.kw] = {"jax": val, "numpy": raw, "Param": None, "Const": None}[form]
        if form == "Param":
            kwargs[p.kw] = nnx.Param(val)
        if form == "Const":
            kwargs[p.kw] = bijx.Const(val)
        if not is_default and p.tkw:
            kwargs[p.tkw] = _jax_transform(tr)
        eff[p.kw] = NP_TRANSFORM[tr](np.asarray(raw, float))
    b = getattr(bijx, entry.cls)(**kwargs, **({"rngs": nnx.Rngs(0)}))  if entry.pars else getattr(bijx, entry.cls)()
    return b, eff


def draw_x(d, entry, eff, shape):
    """Inputs: bulk from a seed, some places replaced by drawn special values of u."""
    g = d.gen("x.seed")
    n = int(np.prod(shape, dtype=int))
    style = d.pick(["normal", "wide", "tiny", "far"], "x.style")
    u = {"normal": lambda: 0.4 * g.standard_normal(n), "wide": lambda: g.uniform(-1, 1, n),
         "tiny": lambda: 1e-3 * g.standard_normal(n), "far": lambda: g.uniform(-1, 1, n)}[style]()
    from hypothesis import strategies as st

    specials = d(st.lists(st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1e-9]),
                                    st.floats(-1, 1, allow_subnormal=False)), max_size=3), "x.special_u")
    for i, s in enumerate(specials[:n]):
        u[(i * 7) % n] = s
    u = u.reshape(shape)
    with np.errstate(all="ignore"):
        return np.broadcast_to((entry.far if style == "far" else entry.xs)(u, eff), shape).copy()


# ---------------------------------------------------------------- spline reference
def rqs_params(w, h, s, mw, mh, ms):
    """normalised knots and slopes (last axis), from unnormalised parameters"""
    n = w.shape[-1]
    W = mw + (1 - mw * n) * sp.softmax(w, -1)
    H = mh + (1 - mh * n) * sp.softmax(h, -1)
    c = np.log(2) / (1 - ms)
    S = ms + softplus(c * s) / c
    one = np.ones(S.shape[:-1] + (1,))
    S = np.concatenate([one, S, one], -1)
    z = np.zeros(W.shape[:-1] + (1,))
    X = np.concatenate([z, np.cumsum(W, -1)], -1)
    Y = np.concatenate([z, np.cumsum(H, -1)], -1)
    return X, Y, S


def rqs_scalar(x, X, Y, S):
    """Durkan et al. eq. (4) and (5): value and log derivative; identity outside [0, 1]."""
    if not (0 <= x <= 1):
        return x, 0.0
    k = int(np.clip(np.searchsorted(X, x, side="right") - 1, 0, len(X) - 2))
    w, h = X[k + 1] - X[k], Y[k + 1] - Y[k]
    s = h / w
    t = min(max((x - X[k]) / w, 0.0), 1.0)
    den = s + (S[k + 1] + S[k] - 2 * s) * t * (1 - t)
    y = Y[k] + h * (s * t * t + S[k] * t * (1 - t)) / den
    dy = s * s * (S[k + 1] * t * t + 2 * s * t * (1 - t) + S[k] * (1 - t) ** 2) / den**2
    return y, np.log(dy)


def rqs_inverse_tol(x, X, Y, S):
    """rounding-error bound of the inverse at (the image of) x: the code solves a quadratic and adds
    10 eps (1 + |b|) to its denominator, which matters for small bins with small slopes"""
    if not (0 <= x <= 1):
        return 0.0
    k = int(np.clip(np.searchsorted(X, x, side="right") - 1, 0, len(X) - 2))
    w, h = X[k + 1] - X[k], Y[k + 1] - Y[k]
    s, l, r = h / w, S[k], S[k + 1]
    yo = rqs_scalar(x, X, Y, S)[0] - Y[k]
    a = yo * (l + r - 2 * s) + h * (s - l)
    b = h * l - yo * (l + r - 2 * s)
    c = -s * yo
    disc = max(b * b - 4 * a * c, 1e-30)
    den = abs(b + np.sqrt(disc)) + 1e-30
    t = (x - X[k]) / w
    dden = 11 * EPS * (1 + abs(b)) + 8 * EPS * (b * b + abs(4 * a * c)) / np.sqrt(disc) + 8 * EPS * (h * l + abs(yo * (l + r - 2 * s)))
    return w * (t + 1e-3) * dden / den * 8
