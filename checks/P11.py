"""Cases: vector fields with closed-form flows (linear, sine, logistic, swirl, shift; each times a time-dependent speed and
a keyword argument), all solver back-ends, time intervals of both orientations, overrides at the call (also to 0), step
numbers and step sizes that do not divide the interval, batches, parameters held in modules; group-valued states; sampled
solutions at intermediate times; stochastic equations.  Oracle: the closed-form flow and its log-determinant (tolerance of
the method's order), numpy integrators on the same grid (tight), reverse against forward.  Non-trivial: the flow moves the
points."""
import diffrax
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx
from scipy import stats
from scipy.linalg import expm

import bijx
from bijx import cg
from vf import close, facet, must, ode, shape

BATCH = [(), (3,), (3, 2), (1,)]


def problem(d):
    kind = d.pick(ode.KINDS, "field")
    n = d.int(2 if kind == "swirl" else 1, 3, "n")
    g = d.gen("g")
    p = ode.Prob(kind, g, n)
    x = p.sample(g, d.pick(BATCH, "batch"))
    ld = g.standard_normal(x.shape[:-1])
    return p, x, ld, g


TIMES = [0.0, 1.0, 0.5, -0.4, 0.3, 1.3, 0.75, 2.0]


def interval(d):
    """constructor interval, overrides, and the interval in effect"""
    c = (d.pick(TIMES, "t0"), d.pick(TIMES, "t1"))
    o = tuple(d.pick([None, None] + TIMES, f"override{i}") for i in range(2))
    eff = tuple(b if b is not None else a for a, b in zip(c, o))
    kw = {k: v for k, v in zip(("t_start", "t_end"), o) if v is not None}
    return c, kw, eff


def rates(d):
    r = d.pick([None, 0.5, -0.7, 1.2], "rate")
    return ({} if r is None else {"rate": r}), (1.0 if r is None else r)


def run(flow, x, ld, rev, jit, kw):
    f = flow.reverse if rev else flow.forward
    if jit:
        f = jax.jit(lambda x, ld, kw, f=f, st={k: v for k, v in kw.items() if k in ("steps", "dt")}: f(x, ld, **kw, **st))
        kw = {k: v for k, v in kw.items() if k not in ("steps", "dt")}
        return f(x, ld, kw)
    return f(jnp.asarray(x), jnp.asarray(ld), **kw)


def judge(got, x, ld, want, tol, what):
    y, l = want
    shape(got[0], x.shape, what), shape(got[1], ld.shape, what + " log-density")
    close(got[0], y, what + ": end point", rtol=tol, atol=tol)
    close(got[1], l, what + ": log-density", rtol=tol, atol=tol)


@facet(quick=35, thorough=900, shards=2, tshards=6)
def rk4(d):
    p, x, ld, g = problem(d)
    c, kw, (t0, t1) = interval(d)
    rkw, rate = rates(d)
    s0, so = d.int(1, 12, "steps"), d.pick([None, None, 7, 20, 33], "steps override")
    steps = so or s0
    if so:
        kw["steps"] = so
    flow = bijx.ContFlowRK4(p.field(), t_start=c[0], t_end=c[1], steps=s0)
    rev, jit = d.bool("reverse"), d.bool("jit")
    a, b = (t1, t0) if rev else (t0, t1)
    got = run(flow, x, ld, rev, jit, {**kw, **rkw})
    f = lambda t, y: p.rhs(t, y[0], rate)
    judge(got, x, ld, ode.rk4(f, (x, ld), a, b, steps), 1e-9, "RK4 flow against RK4 on the uniform grid")
    if p.speed(a, b, rate) * abs(b - a) < min(6, 0.2 * steps):
        y, dl = p.exact(x, a, b, rate)
        judge(got, x, ld, (y, ld + dl), 3e-3, "RK4 flow against the exact flow")
        back = run(flow, np.asarray(got[0]), np.asarray(got[1]), not rev, False, {**kw, **rkw})
        judge(back, x, ld, (x, ld), 3e-3, "RK4 round trip")
    d.note(field=p.kind, times=(a, b), steps=steps, rate=rate)
    return a != b


@facet(quick=35, thorough=600, shards=2, tshards=6)
def crouch_grossmann_flow(d):
    p, x, ld, g = problem(d)
    c, kw, (t0, t1) = interval(d)
    rkw, rate = rates(d)
    name = d.pick(list(ode.TABLEAUX), "tableau")
    s0, so = d.int(1, 8, "steps"), d.pick([None, None, 5, 20, 33], "steps override")
    steps = so or s0
    if so:
        kw["steps"] = so
    opt = {"tableau": getattr(cg, name)} if name != "CG2" or d.bool("explicit") else {}
    flow = bijx.ContFlowCG(p.field(), cg.Euclidean(), t_start=c[0], t_end=c[1], steps=s0, **opt)
    rev, jit = d.bool("reverse"), d.bool("jit")
    a, b = (t1, t0) if rev else (t0, t1)
    if jit:
        kw = {k: v for k, v in kw.items() if k not in ("t_start", "t_end")}
        a, b = (c[1], c[0]) if rev else c
    got = run(flow, x, ld, rev, jit, {**kw, **rkw})
    f = lambda t, y: p.rhs(t, y[0], rate)
    want = ode.cg(f, (x, ld), np.linspace(a, b, steps + 1), name, "ee")
    judge(got, x, ld, want, 1e-9, f"{name} flow against the method on the uniform grid")
    if name != "EULER" and p.speed(a, b, rate) * abs(b - a) < min(4, 0.15 * steps):
        y, dl = p.exact(x, a, b, rate)
        judge(got, x, ld, (y, ld + dl), 0.1 if name == "CG2" else 0.03, "CG flow against the exact flow")
    d.note(field=p.kind, times=(a, b), steps=steps, tableau=name)
    return a != b


def algebra(g, n, traceless=True):
    a = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
    a = (a - a.conj().T) / 2
    return a - np.trace(a) / n * np.eye(n) if traceless else a


def group(g, n, batch=()):
    return np.stack([expm(2 * algebra(g, n)) for _ in range(int(np.prod(batch)))]).reshape(batch + (n, n)) if batch else expm(2 * algebra(g, n))


@facet(quick=18, thorough=400, shards=2, tshards=4)
def group_valued(d):
    n = d.int(1, 3, "n")
    g = d.gen("g")
    batch = d.pick(BATCH, "batch")
    A, x, ld = algebra(g, n), group(g, n, batch), g.standard_normal(batch)
    w, q = g.uniform(0.5, 2, 2)
    c, kw, (t0, t1) = interval(d)
    rkw, rate = rates(d)
    steps = d.int(1, 10, "steps")
    name = d.pick(list(ode.TABLEAUX), "tableau")
    const = d.bool("constant velocity")

    def vf(t, u, rate=1.0):
        s = rate if const else rate * jnp.cos(w * t)
        return s * jnp.broadcast_to(A, u.shape), rate * q * t + jnp.zeros(u.shape[:-2])

    flow = bijx.ContFlowCG(vf, t_start=c[0], t_end=c[1], steps=steps, tableau=getattr(cg, name))
    rev = d.bool("reverse")
    a, b = (t1, t0) if rev else (t0, t1)
    got = run(flow, x, ld, rev, False, {**kw, **rkw})
    f = lambda t, y: ((rate if const else rate * np.cos(w * t)) * A, rate * q * t)
    xs, ls = x.reshape(-1, n, n), ld.reshape(-1)
    want = [ode.cg(f, (u, l), np.linspace(a, b, steps + 1), name, "me") for u, l in zip(xs, ls)]
    judge(got, x, ld, (np.array([u for u, _ in want]).reshape(x.shape), np.array([l for _, l in want]).reshape(ld.shape)), 1e-9, "group flow")
    if const:
        close(got[0], expm(rate * (b - a) * A) @ x, "exponential flow", atol=1e-9)
    if name != "EULER":
        close(got[1], ld + rate * q * (b * b - a * a) / 2, "integrated divergence (linear in time)", atol=1e-9)
    d.note(n=n, times=(a, b), tableau=name, constant=const)
    return a != b and n > 1


class Module(nnx.Module):
    """field with parameters (and a nested, non-trainable scale)"""

    def __init__(self, p):
        self.p = nnx.static(p)
        self.speed = nnx.Param(jnp.asarray(0.8))
        self.scale = bijx.Const(jnp.asarray(1.5))

    def __call__(self, t, x, rate=1.0):
        return self.p.rhs(t, x, rate * self.speed[...] * self.scale.get_value(), jnp)


_GRID = jax.jit(lambda t0, t1, dt: diffrax.diffeqsolve(
    diffrax.ODETerm(lambda t, y, a: 0 * y), diffrax.Euler(), t0, t1, dt, jnp.zeros(()),
    saveat=diffrax.SaveAt(t0=True, steps=True), max_steps=256, adjoint=diffrax.DirectAdjoint()).ts)


def grid(t0, t1, dt):
    """the times at which diffrax itself steps for this constant step size"""
    ts = np.asarray(_GRID(float(t0), float(t1), float(np.sign(t1 - t0) * dt)))
    return ts[np.isfinite(ts)]


SOLVERS = {"Tsit5": (diffrax.Tsit5, 5), "Dopri5": (diffrax.Dopri5, 5), "Heun": (diffrax.Heun, 2), "Euler": (diffrax.Euler, 1), "Bosh3": (diffrax.Bosh3, 3)}


@facet(quick=15, thorough=300, shards=3, tshards=6)
def diffrax_flow(d):
    p, x, ld, g = problem(d)
    c, kw, (t0, t1) = interval(d)
    rkw, rate = rates(d)
    name = d.pick(["Tsit5", "Tsit5", "Dopri5", "Heun", "Euler", "Bosh3"], "solver")
    dt, dto = d.pick([0.05, 0.1, 0.037, 0.21], "dt"), d.pick([None, None, 0.03, 0.11], "dt override")
    adaptive = d.bool("adaptive") and name not in ("Euler",)
    conf = dict(dt=dt)
    if name != "Tsit5" or d.bool("explicit"):
        conf["solver"] = SOLVERS[name][0]()
    if adaptive:
        rt = 1e-7 if SOLVERS[name][1] == 5 else 1e-5
        conf["stepsize_controller"] = diffrax.PIDController(rtol=rt, atol=rt / 10)
    if c != (0.0, 1.0) or d.bool("explicit times"):
        conf.update(t_start=c[0], t_end=c[1])
    if dto:
        kw["dt"] = dto
    h = dto or dt
    mod = d.pick([False, True], "parameters")
    flow = bijx.ContFlowDiffrax(Module(p) if mod else p.field(), bijx.DiffraxConfig(**conf))
    rev, jit = d.bool("reverse"), d.bool("jit")
    a, b = (t1, t0) if rev else (t0, t1)
    if a == b:
        return False
    R = rate * (1.2 if mod else 1.0)
    speed = p.speed(a, b, R)
    smooth = speed * abs(b - a) < 5
    if adaptive and not smooth:
        return False
    got = run(flow, x, ld, rev, jit, {**kw, **rkw})
    y, dl = p.exact(x, a, b, R)
    order = SOLVERS[name][1]
    f = lambda t, s: p.rhs(t, s[0], R)
    if adaptive:
        judge(got, x, ld, (y, ld + dl), 3e-4 if order == 5 else 1e-2, "adaptive solution")
    elif name in ("Euler", "Heun"):
        ts = grid(a, b, h)
        z = (x, ld)
        for t, u in zip(ts[:-1], ts[1:]):
            k = f(t, z)
            e = tuple(s + (u - t) * v for s, v in zip(z, k))
            if name == "Heun":
                k2 = f(u, e)
                e = tuple(s + (u - t) * (v + w) / 2 for s, v, w in zip(z, k, k2))
            z = e
        judge(got, x, ld, z, 1e-8, f"{name} with step {h}")
    elif smooth and speed * h < 0.25:
        judge(got, x, ld, (y, ld + dl), 3e-3 if order == 5 else 3e-2, "fixed-step solution")
    d.note(field=p.kind, times=(a, b), dt=h, solver=name, adaptive=adaptive, module=mod)
    return smooth


@facet(quick=8, thorough=100, shards=1, tshards=4)
def saved_trajectory(d):
    """solve_flow: states at requested times are the flow up to those times"""
    p, x, ld, g = problem(d)
    c, kw, (t0, t1) = interval(d)
    if t0 == t1 or p.speed(t0, t1, 1.0) * abs(t1 - t0) > 4:
        return False
    ts = np.sort(g.uniform(0, 1, 3)) * (t1 - t0) + t0
    at = diffrax.SaveAt(ts=jnp.asarray(ts))
    conf = bijx.DiffraxConfig(t_start=c[0], t_end=c[1], dt=0.03)
    if d.bool("override"):
        kw["saveat"] = at
    else:
        conf = conf.replace(saveat=at)
    sol = bijx.ContFlowDiffrax(p.field(), conf).solve_flow(jnp.asarray(x), jnp.asarray(ld), **kw)
    must(len(sol.ys) == 2, "solution has two components")
    for i, t in enumerate(ts):
        y, dl = p.exact(x, t0, t, 1.0)
        close(sol.ys[0][i], y, f"state at time {t}", rtol=2e-3, atol=2e-3)
        close(sol.ys[1][i], ld + dl, f"log-density at time {t}", rtol=2e-3, atol=2e-3)
    close(sol.ts, ts, "times")
    d.note(field=p.kind, times=(t0, t1))


@facet(quick=10, thorough=100, shards=1, tshards=4)
def config_overrides(d):
    """overridden fields change, all others stay, the original is untouched"""
    fields = dict(t_start=0.4, t_end=1.7, dt=0.2)
    conf = bijx.DiffraxConfig(**fields, max_steps=77, throw=False, solver=diffrax.Heun())
    new = {}
    for k in fields:
        v = d.pick([None, 0.0, 0.5, -1.0], k)
        if v is not None:
            new[k] = v
    if d.bool("none passed"):
        new.setdefault("dt", None)
    if d.bool("states"):
        new.update(solver_state=1.5, controller_state=2.5)
    if d.bool("saveat"):
        new["saveat"] = diffrax.SaveAt(steps=True)
    out = conf.optional_override(**new)
    want = {**fields, "solver_state": None, "controller_state": None, **{k: v for k, v in new.items() if v is not None}}
    for k, v in want.items():
        must(getattr(out, k) == v, f"overridden {k}", got=getattr(out, k), want=v)
    must(out.max_steps == 77 and out.throw is False and isinstance(out.solver, diffrax.Heun), "other settings kept")
    must(all(getattr(conf, k) == v for k, v in fields.items()) and conf.solver_state is None, "original configuration altered")
    return len(new) > 0


@facet(quick=3, thorough=60, shards=2, tshards=4)
def stochastic(d):
    """no noise: Euler; constant noise: exact Gaussian law; scaled noise; reproducible"""
    g = d.gen("g")
    m, q = g.uniform(-1, 1), g.uniform(0.3, 2)
    t0, t1 = d.pick([(0.0, 1.0), (0.5, 2.5), (-0.3, 0.4)], "times")
    dt = d.pick([0.1, 0.13], "dt")
    conf = bijx.DiffraxConfig(t_start=t0, t_end=t1, dt=dt)
    n = 4000
    key, y0 = d.key(), g.standard_normal((2, n // 2))
    drift = lambda t, y, a: -a["m"] * y + t
    args = {"m": m, "q": q}
    ts = grid(t0, t1, dt)
    y = y0
    var = 0.0
    for s, u in zip(ts[:-1], ts[1:]):
        y = y + (u - s) * (-m * y + s)
        var = var * (1 - m * (u - s)) ** 2 + q * q * (u - s)
    run = lambda diff, k=key, **kw: np.asarray(conf.solve_sde(drift, diff, jnp.asarray(y0), k, args, **kw).ys[-1])
    close(run(lambda t, y, a: 0 * y), y, "no noise", atol=1e-8)
    a = run(lambda t, y, a: a["q"] + 0 * y)
    shape(a, y0.shape, "solution")
    z = ((a - y) / np.sqrt(var)).ravel()
    pv = stats.kstest(z, "norm").pvalue
    must(pv > 1e-7, "law of the solution for constant noise", p=pv, std=z.std(), mean=z.mean())
    r = stats.pearsonr(z[::2], z[1::2])
    must(r.pvalue > 1e-7, "components must have independent noise", correlation=r.statistic)
    close(run(lambda t, y, a: a["q"] + 0 * y), a, "same key", atol=1e-12)
    close(run(lambda t, y, a: 1 + 0 * y, noise_transform=lambda w: q * w), a, "transformed noise", atol=1e-8)
    other = run(lambda t, y, a: a["q"] + 0 * y, k=jax.random.fold_in(key, 1))
    must(np.mean(other == a) < 0.01, "different keys must give different noise")
    d.note(times=(t0, t1), dt=dt, p=pv)
