"""Cases: vector fields with closed-form flows and random pytree states, step sizes that do and do not divide the interval,
shifted and reversed intervals, random explicit coefficient tableaux, non-commuting and state-dependent matrix velocities.
Oracle: numpy integrators with the literature's formulas on the same grid (tight), closed-form solutions and their
numerical derivatives or high-accuracy scipy solutions (tolerance of the method's order), the order conditions in exact
rational arithmetic.  Non-trivial: the interval and the derivative are not zero."""
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm

from bijx import cg
from bijx.solvers import odeint_rk4
from vf import close, facet, fail, must, ode, shape

TIMES = [0.0, 1.0, 0.5, -0.4, 0.3, 1.3, 0.75, 2.0]
STEPS = [0.1, 0.25, 0.3, 0.07, 0.5, 1.0, 3.0, 0.13]


def problem(d, batch=((), (3,), (2, 2))):
    kind = d.pick(ode.KINDS, "field")
    n = d.int(2 if kind == "swirl" else 1, 3, "n")
    g = d.gen("g")
    p = ode.Prob(kind, g, n)
    x = p.sample(g, d.pick(batch, "batch"))
    return p, x, g.standard_normal(x.shape[:-1]), g


def packer(kind):
    """the pair (x, ld) as different pytrees"""
    if kind == "dict":
        return lambda x, l: {"x": x, "l": l}, lambda s: (s["x"], s["l"])
    if kind == "nested":
        return lambda x, l: (x, [l]), lambda s: (s[0], s[1][0])
    if kind == "array":
        return lambda x, l: x, None
    return lambda x, l: (x, l), lambda s: s


@facet(quick=30, thorough=900, shards=2, tshards=6)
def rk4_values(d):
    p, x, ld, g = problem(d)
    t0 = d.pick(TIMES, "t0")
    t1 = t0 + d.pick([1.0, 0.7, 0.33, 2.0, 0.05, 0.0], "duration")
    h = d.pick(STEPS, "h")
    kind = d.pick(["tuple", "dict", "nested", "array"], "tree")
    pack, unpack = packer(kind)
    r = d.pick([1.0, -0.6, 1.3], "rate")
    style = d.pick(["positional", "closure", "two arguments"], "arguments")

    def fun(t, s, *a):
        if kind == "array":
            return p.rhs(t, s, *(a or (r,)), jnp)[0]
        return pack(*p.rhs(t, unpack(s)[0], a[0] * a[1]["q"] if len(a) > 1 else a[0] if a else r, jnp))

    args = {"positional": (r,), "closure": (), "two arguments": (2 * r, {"q": 0.5})}[style]
    if kind == "array":
        args = args if style == "positional" else ()
    kw = {} if t0 == 0.0 and d.bool("default start") else {"start_time": t0}
    f = lambda y: odeint_rk4(fun, y, t1, *args, step_size=h, **kw)
    y0 = pack(jnp.asarray(x), jnp.asarray(ld))
    out = jax.jit(f)(y0) if d.bool("jit") else f(y0)
    must(jax.tree.structure(out) == jax.tree.structure(y0), "structure of the state")
    want = ode.rk4_grid(lambda t, y: p.rhs(t, y[0], r), (x, ld), ode.fixed_grid(t0, t1, h))
    got = (out,) if kind == "array" else unpack(out)
    for a, b, what in zip(got, want, ("state", "second component")):
        close(a, b, f"RK4 {what}", rtol=1e-9, atol=1e-9)
    sp = p.speed(t0, t1, r)
    if sp * h < 0.2 and sp * (t1 - t0) < 4:
        close(got[0], p.exact(x, t0, t1, r)[0], "RK4 state against the exact solution", rtol=2e-3, atol=2e-3)
    d.note(field=p.kind, t0=t0, t1=t1, h=h, tree=kind, arguments=style)
    return t1 > t0


def tableau(d):
    """one of the module's tableaux, or a random explicit one"""
    name = d.pick(["EULER", "CG2", "CG3", "random", "random"], "tableau")
    if name != "random":
        return name, getattr(cg, name), ode.TABLEAUX[name][:2]
    s, g = d.int(1, 4, "stages"), d.gen("tableau")
    A = [list(np.round(g.uniform(-1, 1, i), 3) * (g.uniform(size=i) < 0.8)) for i in range(s)]
    B = np.round(g.uniform(-1, 1, s), 3) * (g.uniform(size=s) < 0.8)
    B[g.integers(s)] += 1 - B.sum()
    return name, cg.ButcherTableau(a=[a + [0] * (s - len(a)) for a in A], b=list(B)), (A, list(B))


@facet(quick=35, thorough=1000, shards=2, tshards=6)
def crouch_grossmann_values(d):
    """Euclidean and matrix components, any tableau, against the definition"""
    p, x, ld, g = problem(d, ((), (2,)))
    name, tab, ref = tableau(d)
    t0, t1 = d.pick(TIMES, "t0"), d.pick(TIMES, "t1")
    h = d.pick(STEPS, "h") * (-1 if t1 < t0 else 1)
    n = d.int(1, 3, "n")
    a = lambda: (lambda m: (m - m.conj().T) / 2)(g.standard_normal((n, n)) + 1j * g.standard_normal((n, n)))
    A, K, u = a(), a() @ a(), expm(a())
    w = g.uniform(0.5, 2)
    mixed = d.bool("matrix component")
    r = d.pick([1.0, -0.6], "rate")

    def velocity(t, m, y, xp):
        """state-dependent algebra element, coupled to the vector component"""
        q = m @ K
        q = (q - q.conj().T) / 2
        return xp.cos(w * t) * A + xp.sin(xp.sum(y)) * q

    def vf(t, s, rate):
        if not mixed:
            return p.rhs(t, s[0], rate, jnp)
        return (*p.rhs(t, s[0], rate, jnp), rate * velocity(t, s[2], s[0], jnp))

    def f(t, s):
        if not mixed:
            return p.rhs(t, s[0], r)
        return (*p.rhs(t, s[0], r), r * velocity(t, s[2], s[0], np))

    y0 = (jnp.asarray(x), jnp.asarray(ld)) + ((jnp.asarray(u),) if mixed else ())
    types = (cg.Euclidean(), cg.Euclidean(), cg.Matrix() if d.bool("Matrix") else cg.Unitary()) if mixed else cg.Euclidean()
    kw = {} if name == "EULER" and d.bool("default tableau") else {"tableau": tab}
    if d.bool("args_types"):
        kw["args_types"] = cg.Euclidean()
    F = lambda y, r: cg.crouch_grossmann(vf, y, r, t0, t1, h, types, **kw)
    out = jax.jit(F)(y0, r) if d.bool("jit") else F(y0, r)
    with np.errstate(all="ignore"):
        want = ode.cg(f, (x, ld, u)[: len(y0)], ode.fixed_grid(t0, t1, h), ref, "eem"[: len(y0)])
    if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e6 for v in want):
        return False  # unstable random method
    for got, v, what in zip(out, want, ("vector", "scalar", "matrix")):
        close(got, v, f"{what} component", rtol=1e-8, atol=1e-8)
    d.note(tableau=name, t0=t0, t1=t1, h=h, mixed=mixed)
    return t0 != t1


@facet(quick=1, thorough=1)
def order_conditions(d):
    """the module's tableaux satisfy the conditions of their order, also for non-commuting flows"""
    for name, (_, _, order) in ode.TABLEAUX.items():
        tab = getattr(cg, name)
        frac = lambda v: Fraction(v).limit_denominator(10000)
        a = [[frac(v) for v in row] for row in tab.a]
        b, c = [frac(v) for v in tab.b], [frac(v) for v in tab.c]
        s = len(b)
        must(tab.stages == s and all(len(row) == s for row in a), f"{name}: sizes")
        must(all(a[i][j] == 0 for i in range(s) for j in range(i, s)), f"{name}: explicit")
        must(all(c[i] == sum(a[i]) for i in range(s)), f"{name}: nodes")
        conds = [("order 1", sum(b), Fraction(1))]
        if order >= 2:
            conds.append(("order 2", sum(x * y for x, y in zip(b, c)), Fraction(1, 2)))
        if order >= 3:
            conds += [
                ("order 3 (b c^2)", sum(x * y * y for x, y in zip(b, c)), Fraction(1, 3)),
                ("order 3 (b a c)", sum(b[i] * a[i][j] * c[j] for i in range(s) for j in range(s)), Fraction(1, 6)),
                ("order 3 (commutators)", sum(b[i] ** 2 * c[i] for i in range(s)) + 2 * sum(b[i] * b[j] * c[i] for i in range(s) for j in range(i + 1, s)), None),
            ]
        for what, got, want in conds:
            if want is not None and abs(float(got - want)) > 1e-12:
                fail(f"{name}: condition of {what}", got=got, want=want)
        # non-commuting velocities: the observed order (deterministic example, errors far above rounding)
        g = np.random.default_rng(7)
        al = lambda: (lambda m: (m - m.conj().T) / 2)(g.standard_normal((2, 2)) + 1j * g.standard_normal((2, 2)))
        A, B, u = al(), al(), expm(al())
        vf = lambda t, m, _: jnp.cos(2 * t) * A + jnp.sin(3 * t) * B + (lambda q: (q - q.conj().T) / 2)(m @ B)
        rhs = lambda t, y: ((np.cos(2 * t) * A + np.sin(3 * t) * B + (lambda q: (q - q.conj().T) / 2)(y.reshape(2, 2) @ B)) @ y.reshape(2, 2)).ravel()
        exact = solve_ivp(rhs, (0, 1), u.ravel().astype(complex), method="DOP853", rtol=1e-12, atol=1e-13).y[:, -1].reshape(2, 2)
        errs = [np.abs(np.asarray(cg.crouch_grossmann(vf, jnp.asarray(u), 0.0, 0.0, 1.0, 1 / k, cg.Unitary(), tableau=tab)) - exact).max() for k in (20, 40, 80)]
        rates = np.log2(np.array(errs[:-1]) / np.array(errs[1:]))
        must(np.all(rates > order - 0.35), f"{name}: observed order on a matrix group", rates=rates, errors=errs)
        d.note(**{name: rates.round(3)})


@facet(quick=30, thorough=300)
def tableau_construction(d):
    """nodes are row sums; non-explicit, unnormalised or ragged coefficients are rejected"""
    s, g = d.int(1, 4, "stages"), d.gen("g")
    a = np.tril(g.uniform(-1, 1, (s, s)), -1)
    b = g.uniform(-1, 1, s)
    b[-1] += 1 - b.sum()
    t = cg.ButcherTableau(a=a.tolist() if d.bool("lists") else a, b=b)
    close(np.array(t.c), a.sum(1), "nodes", atol=1e-12)
    close(np.array(t.a), a, "coefficients", atol=0, rtol=0), close(np.array(t.b), b, "weights", atol=0, rtol=0)
    must(t.stages == s, "stages")
    bad = d.pick(["diagonal", "upper", "weights", "length"], "defect")
    a2, b2 = a.copy(), b.copy()
    i = d.int(0, s - 1, "i")
    if bad == "diagonal":
        a2[i, i] = 0.5
    elif bad == "upper":
        if s == 1:
            return False
        j = d.int(0, s - 2, "j")
        a2[j, d.int(j + 1, s - 1, "k")] = 0.5
    elif bad == "weights":
        b2[i] += 0.2
    else:
        b2 = np.append(b2, 0.0)
    try:
        cg.ButcherTableau(a=a2, b=b2)
    except AssertionError:
        return True
    fail(f"tableau with wrong {bad} accepted", a=a2, b=b2)


def derivative(f, x, e=1e-5):
    """numerical gradient of a scalar function of an array"""
    x = np.asarray(x, float)
    out = np.zeros(x.shape)
    for i in np.ndindex(*x.shape):
        dx = np.zeros(x.shape)
        dx[i] = e
        out[i] = (8 * (f(x + dx) - f(x - dx)) - (f(x + 2 * dx) - f(x - 2 * dx))) / (12 * e)
    return out


def smooth_problem(d):
    p, x, ld, g = problem(d, ((), (2,)))
    r = d.pick([1.0, -0.6, 1.3], "rate")
    t0 = d.pick([0.0, 0.3, -0.4], "t0")
    t1 = t0 + d.pick([1.0, 0.7, 0.33], "duration")
    sp = p.speed(t0 - 0.1, t1 + 0.1, r)
    scale = min(1.0, 1.5 / max(sp * (t1 - t0), 1e-3))  # moderate total motion
    return p, x, ld, g, r * scale, t0, t1, sp * scale


def exact_gradients(p, w, v, x, ld, r, t0, t1):
    def loss(x, ld, r, t0, t1):
        y, dl = p.exact(np.asarray(x), float(t0), float(t1), float(r))
        return float(np.sum(w * y) + np.sum(v * (ld + dl)) + 0.5 * np.sum(v * y.sum(-1) ** 2))

    args = [x, ld, np.float64(r), np.float64(t0), np.float64(t1)]
    return [derivative(lambda z, i=i: loss(*[z if j == i else a for j, a in enumerate(args)]), args[i]) for i in range(5)]


NAMES = ["initial value", "initial second component", "parameter", "start time", "end time"]


@facet(quick=10, thorough=200, shards=2, tshards=6)
def rk4_gradients(d):
    p, x, ld, g, r, t0, t1, sp = smooth_problem(d)
    w, v = g.standard_normal(x.shape), g.standard_normal(ld.shape)
    h = min(0.07, 0.15 / sp) * d.pick([1.0, 0.7, 0.931], "h")
    style = d.pick(["argument", "closure", "tree"], "parameter")

    def loss(x, ld, r, t0, t1):
        fun = {
            "argument": lambda t, s, a: p.rhs(t, s[0], a, jnp),
            "closure": lambda t, s: p.rhs(t, s[0], r, jnp),
            "tree": lambda t, s, a, b: p.rhs(t, s[0], a["r"] * b[0], jnp),
        }[style]
        args = {"argument": (r,), "closure": (), "tree": ({"r": 2 * r, "unused": jnp.zeros(2)}, [0.5])}[style]
        y, l = odeint_rk4(fun, (x, ld), t1, *args, step_size=h, start_time=t0)
        return jnp.sum(w * y) + jnp.sum(v * l) + 0.5 * jnp.sum(v * y.sum(-1) ** 2)

    gr = jax.grad(loss, argnums=(0, 1, 2, 3, 4))
    if d.bool("jit"):
        gr = jax.jit(gr)
    got = gr(jnp.asarray(x), jnp.asarray(ld), r, t0, t1)
    for a, b, what in zip(got, exact_gradients(p, w, v, x, ld, r, t0, t1), NAMES):
        m = 1 + np.abs(b).max()
        close(a, b, f"RK4 gradient: {what}", rtol=0, atol=1e-3 * m)
    d.note(field=p.kind, t0=t0, t1=t1, h=h, parameter=style)


@facet(quick=9, thorough=200, shards=2, tshards=6)
def crouch_grossmann_gradients(d):
    p, x, ld, g, r, t0, t1, sp = smooth_problem(d)
    if d.bool("backward"):
        t0, t1 = t1, t0
    w, v = g.standard_normal(x.shape), g.standard_normal(ld.shape)
    name = d.pick(["CG2", "CG3", "CG3"], "tableau")
    h = min(0.03, 0.05 / sp) * d.pick([1.0, 0.7, 0.931], "h") * np.sign(t1 - t0)
    closure = d.bool("closure")

    def loss(x, ld, r, t0, t1):
        fun = lambda t, s, a: p.rhs(t, s[0], r if closure else a["r"], jnp)
        y, l = cg.crouch_grossmann(fun, (x, ld), {} if closure else {"r": r}, t0, t1, h, cg.Euclidean(), tableau=getattr(cg, name))
        return jnp.sum(w * y) + jnp.sum(v * l) + 0.5 * jnp.sum(v * y.sum(-1) ** 2)

    gr = jax.grad(loss, argnums=(0, 1, 2, 3, 4))
    if d.bool("jit"):
        gr = jax.jit(gr)
    got = gr(jnp.asarray(x), jnp.asarray(ld), r, t0, t1)
    for a, b, what in zip(got, exact_gradients(p, w, v, x, ld, r, t0, t1), NAMES):
        m = 1 + np.abs(b).max()
        close(a, b, f"{name} gradient: {what}", rtol=0, atol=(5e-3 if name == "CG2" else 1e-3) * m)
    d.note(field=p.kind, t0=t0, t1=t1, h=h, tableau=name)


@facet(quick=5, thorough=120, shards=3, tshards=6)
def matrix_gradients(d):
    """non-commuting, state-dependent velocities: all adjoint conventions give the derivative of the exact solution"""
    n = d.int(2, 3, "n")
    g = d.gen("g")

    def alg():
        m = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
        m = (m - m.conj().T) / 2
        m = m - np.trace(m) / n * np.eye(n)
        return m / np.linalg.norm(m)

    A, B, K, u, z = alg(), alg(), alg() @ alg(), expm(2 * alg()), g.standard_normal(2)
    C = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
    th = g.uniform(-1, 1, 3)
    t0, t1 = d.pick([(0.0, 1.0), (0.2, 0.9), (1.0, 0.1), (-0.5, 0.4)], "times")
    h = 0.03 * d.pick([1.0, 0.7], "h") * np.sign(t1 - t0)
    mixed = d.pick([True, True, True, False], "vector component")
    mode = d.pick(["ambient", "Matrix ambient", "ambient", "transport", "transport, projected steps", "transport, projected stages", "Matrix ambient", "Matrix transport"], "adjoint")
    mt = {
        "ambient": lambda: cg.Unitary(),
        "transport": lambda: cg.Unitary(transport_adjoint=True),
        "transport, projected steps": lambda: cg.Unitary(transport_adjoint=True, derivative=cg.UnitaryDeriv(project_step=True)),
        "transport, projected stages": lambda: cg.Unitary(transport_adjoint=True, derivative=cg.UnitaryDeriv(project_stage=True)),
        "Matrix ambient": lambda: cg.Matrix(),
        "Matrix transport": lambda: cg.Matrix(transport_adjoint=True),
    }[mode]()

    style = d.pick(["vector", "matrices", "closed over", "matrices closed over"], "parameters")

    def matrices(th):
        return th, th[0] * A, th[1] * B

    def velocity(t, m, y, th, xp):
        th, TA, TB = th if isinstance(th, tuple) else matrices(th)
        q = m @ K
        q = (q - xp.swapaxes(xp.conj(q), -1, -2)) / 2
        q = q - xp.trace(q) / n * xp.eye(n)
        return xp.cos(t) * TA + (1 + (xp.sin(y[0]) if mixed else 0)) * TB + th[2] * q

    def vector(t, m, y, th, xp):
        th = th[0] if isinstance(th, tuple) else th
        return xp.stack([th[0] * xp.real(xp.sum(m * K)), -th[2] * y[0]])

    def loss(m, y, th, t0, t1):
        p = matrices(th) if "matrices" in style else th
        a = () if "closed" in style else p
        of = (lambda a: p) if "closed" in style else (lambda a: a)
        if mixed:
            f = lambda t, s, a: (velocity(t, s[0], s[1], of(a), jnp), vector(t, s[0], s[1], of(a), jnp))
            M, Y = cg.crouch_grossmann(f, (m, y), a, t0, t1, h, (mt, cg.Euclidean()), tableau=cg.CG3)
        else:
            f = lambda t, s, a: velocity(t, s, None, of(a), jnp)
            M, Y = cg.crouch_grossmann(f, m, a, t0, t1, h, mt, tableau=cg.CG3), y
        return jnp.real(jnp.sum(C * M)) + Y[0] * Y[1]

    def exact(m, y, th, t0, t1):
        def rhs(t, s):
            M, Y = s[: n * n].reshape(n, n), s[n * n :].real
            dY = vector(t, M, Y, th, np) if mixed else 0 * Y
            return np.concatenate([(velocity(t, M, Y, th, np) @ M).ravel(), dY])

        s = solve_ivp(rhs, (t0, t1), np.concatenate([m.ravel(), y.astype(complex)]), method="DOP853", rtol=1e-11, atol=1e-12).y[:, -1]
        return float(np.real(np.sum(C * s[: n * n].reshape(n, n))) + np.real(s[n * n]) * np.real(s[n * n + 1]))

    gm, gy, gth, g0, g1 = jax.grad(loss, argnums=(0, 1, 2, 3, 4))(jnp.asarray(u), jnp.asarray(z), jnp.asarray(th), t0, t1)
    tol, e = 3e-3, 1e-4
    close(gth, derivative(lambda v: exact(u, z, v, t0, t1), th, e), "gradient: parameters", atol=tol, rtol=tol)
    close(gy, derivative(lambda v: exact(u, v, th, t0, t1), z, e), "gradient: initial vector", atol=tol, rtol=tol)
    close(g0, derivative(lambda v: exact(u, z, th, float(v), t1), np.float64(t0), e), "gradient: start time", atol=tol, rtol=tol)
    close(g1, derivative(lambda v: exact(u, z, th, t0, float(v)), np.float64(t1), e), "gradient: end time", atol=tol, rtol=tol)
    X = alg()
    want = derivative(lambda v: exact(expm(float(v) * X) @ u, z, th, t0, t1), np.float64(0.0), e)
    got = np.real(np.sum(np.asarray(gm) * (X if "transport" in mode else X @ u)))
    close(got, want, "gradient: initial group element, along a curve", atol=tol, rtol=tol)
    d.note(n=n, adjoint=mode, times=(t0, t1), mixed=mixed, parameters=style)
