"""Catalogue of bijections of every kind, with drawn structure and parameters (P03, P18, P26, P29)."""
from typing import NamedTuple

import bijx
import jax
import jax.numpy as jnp
import numpy as np
from bijx import cg
from flax import nnx

from vf import jx, splines, zoo


class Case(NamedTuple):
    name: str
    b: object  # the bijection
    event: tuple  # shape of one input sample
    sample: object  # (numpy generator, batch shape) -> inputs
    kwargs: dict = {}
    onto: bool = True  # R^n -> R^n, differentiable
    rtol: float = 1e-11  # accuracy of repeated evaluations in another arrangement
    inv: float = 1e-8  # accuracy of the inverse


def normal(event, scale=1.0):
    return lambda g, batch: scale * g.standard_normal(tuple(batch) + event)


class Dense(nnx.Module):
    """conditioner: x (..., n_in) -> (..., *out)"""

    def __init__(self, n_in, out, g, scale=0.5):
        n = int(np.prod(out, dtype=int))
        self.w = nnx.Param(jnp.asarray(scale * g.standard_normal((n_in, n))))
        self.b = nnx.Param(jnp.asarray(scale * g.standard_normal((n,))))
        self.out = out

    def __call__(self, x):
        y = jnp.tanh(x @ self.w.get_value()) * 2 + self.b.get_value()
        return y.reshape(x.shape[:-1] + self.out)


class Field(nnx.Module):
    """velocity field on R^n, any batch; t and keyword dependent"""

    def __init__(self, n, g):
        self.w = nnx.Param(jnp.asarray(0.6 * g.standard_normal((n, n))))
        self.c = nnx.Param(jnp.asarray(g.standard_normal((2, n))))

    def __call__(self, t, x, rate=0.0):
        c = self.c.get_value()
        return jnp.tanh(x @ self.w.get_value() + c[0] + t * c[1]) + rate * x


def elementwise(d, real=False):
    names = [e.name for e in zoo.ENTRIES]
    if real:
        names = [e.name for e in zoo.ENTRIES if e.yrange == (-np.inf, np.inf) and e.name != "Tan"]
    e = zoo.BY_NAME[d.pick(names, "bijection")]
    event = d.pick([(3,), (3, 2), ()] if not real else [(2,), (3,), ()], "event")
    b, eff = zoo.draw_bijection(d, e, event)
    sample = lambda g, batch: np.broadcast_to(e.xs(0.3 * g.standard_normal(tuple(batch) + event), eff), tuple(batch) + event).copy()
    return Case(e.name, b, event, sample, onto=e.yrange == (-np.inf, np.inf) and e.name != "Tan", rtol=1e-10, inv=1e-6)


def spline(d, event=None):
    event = d.pick([(3,), (3, 2), ()], "event") if event is None else event
    b, _, _, _ = splines.draw_spline(d, event)
    return Case("MonotoneRQSpline", b, event, lambda g, batch: g.uniform(-0.3, 1.3, tuple(batch) + event), inv=1e-6)


def real_scalar(d, g, event=()):
    """an elementwise bijection of the real line with parameters of shape event"""
    k = d.pick(["affine", "sinhconj", "cubicconj", "cubicrat", "spline", "shift"], "inner")
    if k == "affine":
        return bijx.AffineLinear(jnp.asarray(0.5 * g.standard_normal(event)), jnp.asarray(g.standard_normal(event)))
    if k == "shift":
        return bijx.Shift(jnp.asarray(g.standard_normal(event)))
    if k == "spline":
        s = bijx.MonotoneRQSpline(4, event, rngs=nnx.Rngs(0))
        return jx.leaves_random(s, g)
    if k == "sinhconj":
        b = bijx.SinhConjugation(*[jnp.zeros(event)] * 5)
    elif k == "cubicconj":
        b = bijx.CubicConjugation(*[jnp.zeros(event)] * 4)
    else:
        b = bijx.CubicRational(*[jnp.zeros(event)] * 3)
    return jx.leaves_random(b, g, 0.7)


def coupling(d):
    mode = d.pick(["split0", "split1", "mult0", "mult1"], "mode")
    g = d.gen("coupling")
    if mode == "split1":
        event = d.pick([(4,), (2, 3)], "event")
    elif mode == "mult1":
        event = (3, 2)
    else:
        event = d.pick([(4,), (3,), (2, 3)], "event")
    if mode == "mult1":
        bm = np.zeros(event, bool)
        bm[[0, 2] if d.bool("which") else [1]] = True
        mask = bijx.BinaryMask.from_boolean_mask(bm)
    elif d.bool("checker"):
        mask = bijx.checker_mask(event, d.bool("parity"))
    else:
        bm = np.zeros(event, bool)
        n = int(np.prod(event))
        bm.reshape(-1)[g.permutation(n)[: d.int(1, n - 1, "active")]] = True
        mask = bijx.BinaryMask.from_boolean_mask(bm)
    rank = 1 if mode.endswith("1") else 0
    if rank == 0:
        inner = real_scalar(d, g)
    elif mode == "split1":
        inner = real_scalar(d, g, (mask.count_primary,))
    else:
        inner = real_scalar(d, g, (2,))
    rec = bijx.ModuleReconstructor(inner)
    p = rec.params_total_size
    if mode == "split0":
        net = Dense(mask.count_secondary, (mask.count_primary, p), g)
    elif mode == "split1":
        net = Dense(mask.count_secondary, (p,), g)
    elif mode == "mult0":
        net = _Flat(Dense(int(np.prod(event)), event + (p,), g), len(event))
    else:
        net = _Flat(Dense(int(np.prod(event)), event[:1] + (p,), g), len(event))
    b = bijx.GeneralCouplingLayer(net, mask, rec, bijection_event_rank=rank, split=mode.startswith("split"))
    return Case(f"GeneralCouplingLayer[{mode}]", b, event, normal(event), inv=1e-7)


class _Flat(nnx.Module):
    def __init__(self, net, rank):
        self.net, self.rank = net, rank

    def __call__(self, x):
        b = x.ndim - self.rank
        return self.net(x.reshape(x.shape[:b] + (int(np.prod(x.shape[b:])),)))


def half_line(d, g, event=()):
    """increasing bijection of the half-line fixing 0"""
    k = d.pick(["scale", "power", "ray-affine", "ray-sinhconj", "spline", "ray-cubicconj"], "scalar")
    if k == "scale":
        return bijx.Scaling(jnp.asarray(np.exp(0.5 * g.standard_normal(event))))
    if k == "power":
        return bijx.Power(jnp.asarray(np.exp(0.4 * g.standard_normal(event))))
    if k == "spline":
        return jx.leaves_random(bijx.MonotoneRQSpline(4, event, rngs=nnx.Rngs(0)), g)
    if k == "ray-affine":
        return bijx.RayTransform(bijx.AffineLinear(jnp.asarray(0.5 * g.standard_normal(event)), jnp.asarray(g.standard_normal(event))))
    if k == "ray-sinhconj":
        return bijx.RayTransform(jx.leaves_random(bijx.SinhConjugation(*[jnp.zeros(event)] * 5), g, 0.6))
    return bijx.RayTransform(jx.leaves_random(bijx.CubicConjugation(*[jnp.zeros(event)] * 4), g, 0.6))


def radial(d):
    g = d.gen("radial")
    n = d.pick([2, 3, 1], "dim")
    cen, sc = jnp.asarray(g.standard_normal(n)), jnp.asarray(0.4 * g.standard_normal(n))
    if d.bool("conditional"):
        inner = half_line(d, g)
        rec = bijx.ModuleReconstructor(inner)
        net = Dense(n, (rec.params_total_size,), g, 0.3)
        if isinstance(inner, (bijx.Scaling, bijx.Power)):
            net = nnx.Sequential(net, jnp.exp)
        b = bijx.RadialConditional(inner, net, cen, sc)
        return Case("RadialConditional", b, (n,), normal((n,)), inv=1e-6)
    return Case("Radial", bijx.Radial(half_line(d, g), cen, sc), (n,), normal((n,)), inv=1e-6)


def fourier(d):
    g = d.gen("fourier")
    shape = d.pick([(4,), (5,), (3, 4), (4, 3)], "lattice")
    ch = d.pick([0, 0, 1], "channels")
    event = shape + (2,) * ch
    k = d.pick(["spectrum", "free", "free-var", "to"], "kind")
    if k == "spectrum":
        rs = shape[:-1] + (shape[-1] // 2 + 1,)
        # a real field needs a scale that is even in the momentum
        k2 = np.add.outer(np.minimum(np.arange(rs[0]), rs[0] - np.arange(rs[0])), np.arange(rs[1])) if len(rs) == 2 else np.arange(rs[0])
        s = np.exp(0.3 * np.cos(k2 * g.uniform(0.3, 2)))
        b = bijx.SpectrumScaling(nnx.Param(jnp.asarray(s)) if d.bool("param") else jnp.asarray(s), channel_dim=ch)
    elif k == "to":
        from bijx.fourier import FFTRep

        rep = d.pick([FFTRep.rfft, FFTRep.comp_complex, FFTRep.comp_real], "rep")
        b = bijx.ToFourierData(shape, rep, channel_dim=ch, unpack=True)
        return Case("ToFourierData", b, event, normal(event), onto=False, inv=1e-11)
    else:
        m2 = float(g.uniform(0.2, 2))
        b = bijx.FreeTheoryScaling(nnx.Param(jnp.asarray(m2)) if k == "free-var" else m2, shape, channel_dim=ch,
                                   finite_size=d.bool("lattice_momenta"), half=d.bool("half"))
    return Case(type(b).__name__, b, event, normal(event), inv=1e-11)


def flow(d):
    g = d.gen("flow")
    k = d.pick(["rk4", "cg", "diffrax", "rk4-conv"], "solver")
    kw = {}
    if k == "rk4-conv":
        from functools import partial

        event = (3, 4)
        vf = bijx.ConvVF.build((3, 3), (), symmetry=bijx.nn.conv.kernel_d4, time_kernel=bijx.nn.embeddings.KernelGauss(3, rngs=nnx.Rngs(0)),
                               time_kernel_reduced=None,
                               features=(partial(bijx.nn.features.FourierFeatures, 3), partial(bijx.nn.features.PolynomialFeatures, (1,))),
                               features_reduced=None, rngs=nnx.Rngs(0))
        vf = jx.leaves_random(vf, g, 0.15)
        b = bijx.ContFlowRK4(vf, steps=4)
        return Case("ContFlowRK4[ConvVF]", b, event, normal(event), inv=1e-2)
    event = (d.pick([2, 3], "dim"),)
    vf = bijx.AutoJacVF(Field(event[0], g), event_dim=1)
    if d.bool("kwargs"):
        kw = dict(rate=0.3)
    if k == "rk4":
        b = bijx.ContFlowRK4(vf, steps=8)
    elif k == "cg":
        b = bijx.ContFlowCG(vf, cg.Euclidean(), steps=8, tableau=cg.CG3)
    else:
        import diffrax

        b = bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(solver=diffrax.Tsit5(), dt=0.125))
    return Case(f"ContFlow[{k}]", b, event, normal(event), kw, inv=5e-2)


def wrapped(d):
    g = d.gen("wrapped")
    k = d.pick(["chain", "inverse", "condinverse", "frozen", "scan", "partial", "meta", "reshape", "expand"], "wrapper")
    if k in ("meta", "reshape", "expand"):
        event = (2, 3)
        if k == "meta":
            b = bijx.MetaLayer(lambda x: x[..., ::-1], lambda x: x[..., ::-1])
        elif k == "reshape":
            b = bijx.Reshape((2, 3), d.pick([(6,), (3, 2), (1, 6)], "to"))
        else:
            b = bijx.ExpandDims(d.pick([-1, -2], "axis"))
        return Case(k, b, event, normal(event), onto=k == "meta", inv=0.0)
    event = d.pick([(3,), (3, 2), ()], "event")
    parts = [real_scalar(d, g, event) for _ in range(2)]
    if k == "chain":
        b = bijx.Chain(*parts)
    elif k == "inverse":
        b = bijx.Chain(parts[0].invert(), parts[1])
    elif k == "condinverse":
        b = bijx.CondInverse(bijx.Chain(*parts), d.bool("flag"))
    elif k == "frozen":
        b = bijx.Frozen(bijx.Chain(*parts))
    elif k == "partial":
        vf = bijx.AutoJacVF(Field(event[0], g), event_dim=1) if event == (3,) else None
        b = bijx.Partial(bijx.ContFlowRK4(vf, steps=8), rate=0.2) if vf is not None else bijx.Partial(parts[0], whatever=1)
        return Case("partial", b, event, normal(event), inv=5e-2)
    else:
        a = bijx.AffineLinear(jnp.asarray(0.3 * g.standard_normal((3,) + event)), jnp.asarray(g.standard_normal((3,) + event)))
        b = bijx.ScanChain(a)
    return Case(k, b, event, normal(event), inv=1e-6)


KINDS = [elementwise, spline, coupling, radial, fourier, flow, wrapped]


def draw_case(d):
    kind = d.pick(KINDS, "kind")
    return kind(d)


def draw_real(d, flows=True):
    """a differentiable bijection of R^n (any kind)"""
    kind = d.pick([lambda d: elementwise(d, True), coupling, radial] + [flow] * flows + [wrapped, fourier], "kind")
    c = kind(d)
    return c


KEYS = ["u", "v"]


class Probe(bijx.Bijection):
    """y = a x + b + c.kw, with a log-density change that also depends on the keyword arguments"""

    def __init__(self, a, b, c, e, rank, form=0):
        self.a, self.b = nnx.Param(jnp.asarray(a)), nnx.Param(jnp.asarray(b))
        self.c, self.e = nnx.Param(jnp.asarray(c)), nnx.Param(jnp.asarray(e))
        self.rank = rank

    def _parts(self, kw):
        c, e = self.c.get_value(), self.e.get_value()
        s = sum(c[i] * kw.get(k, 0.25) for i, k in enumerate(KEYS))
        l = sum(e[i] * kw.get(k, 0.25) for i, k in enumerate(KEYS))
        return s, l + jnp.log(jnp.abs(self.a.get_value()))

    def forward(self, x, ld, **kw):
        s, l = self._parts(kw)
        return self.a.get_value() * x + self.b.get_value() + s, ld - l

    def reverse(self, x, ld, **kw):
        s, l = self._parts(kw)
        return (x - self.b.get_value() - s) / self.a.get_value(), ld + l
