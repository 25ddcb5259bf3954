"""Cases: U(N), SU(N), SO(N) and general matrices (N = 1..4) with batches, state- and time-dependent algebra velocities,
step numbers up to 200, steps that do not divide the interval, backward integration, all tableaux, projections switched on
and off, velocities with a component outside the algebra, mixed pytree states.  Oracle: unitarity and determinant, scipy's
matrix exponential acting from the left, scipy's polar decomposition, component-wise integration, numpy integrators on the
same grid.  Non-trivial: matrices larger than 1x1 that move."""
import jax
import jax.numpy as jnp
import numpy as np
from scipy.linalg import expm, polar

import bijx
from bijx import cg
from vf import close, facet, must, ode, shape

BATCH = [(), (3,), (3, 2), (1,)]
TIMES = [(0.0, 1.0), (0.0, 0.4), (1.0, 0.0), (-0.5, 0.8), (0.3, -0.6), (2.0, 2.5)]


def rnd(g, n, kind, batch=()):
    m = g.standard_normal(batch + (n, n))
    if kind not in ("so", "glr"):
        m = m + 1j * g.standard_normal(batch + (n, n))
    m = m * 0.8
    if kind in ("gl", "glr"):
        return m
    m = (m - np.conj(np.swapaxes(m, -1, -2))) / 2
    if kind == "su":
        m = m - np.trace(m, axis1=-2, axis2=-1)[..., None, None] / n * np.eye(n)
    return m


def over(f, x):
    """apply to every matrix of a batch"""
    n = x.shape[-1]
    return np.array([f(m) for m in x.reshape(-1, n, n)]).reshape(x.shape)


def mexp(x):
    return over(expm, x)


def dag(x):
    return np.conj(np.swapaxes(x, -1, -2))


def on_group(u, kind, tol=1e-11):
    n = u.shape[-1]
    close(u @ dag(u), np.broadcast_to(np.eye(n), u.shape), "unitarity", atol=tol)
    if kind in ("su", "so"):
        close(np.linalg.det(u), np.ones(u.shape[:-2]), "determinant", atol=tol)


@facet(quick=25, thorough=500, shards=2, tshards=6)
def stays_on_group(d):
    kind = d.pick(["su", "su", "u", "so"], "group")
    n, batch = d.pick([2, 3, 4] if kind == "so" else [2, 3, 1, 4], "n"), d.pick(BATCH, "batch")
    g = d.gen("g")
    A, K, u = rnd(g, n, kind), rnd(g, n, "gl" if kind != "so" else "glr"), mexp(2 * rnd(g, n, kind, batch))
    (t0, t1), steps = d.pick(TIMES, "times"), d.pick([1, 2, 3, 7, 20, 200], "steps")
    name = d.pick(list(ode.TABLEAUX), "tableau")

    def vf(t, m, s):
        q = m @ K
        q = (q - jnp.conj(jnp.swapaxes(q, -1, -2))) / 2
        if kind == "su":
            q = q - jnp.trace(q, axis1=-2, axis2=-1)[..., None, None] / n * jnp.eye(n)
        return s * (jnp.cos(3 * t) * A + q)

    mt = {"su": [cg.Unitary(), cg.Unitary(project_step=True), cg.Unitary(project_stage=True), cg.Matrix(), cg.Unitary(special=False)], "u": [cg.Unitary(special=False), cg.Matrix(), cg.Unitary(special=False, project_step=True)], "so": [cg.Matrix()]}[kind]
    mt = d.pick(mt, "type")
    h = (t1 - t0) / steps * d.pick([1.0, 0.83], "fraction")
    out = np.asarray(cg.crouch_grossmann(vf, jnp.asarray(u), 2.0, t0, t1, h, mt, tableau=getattr(cg, name)))
    shape(out, u.shape, "state")
    on_group(out, kind, 1e-11 + 2e-13 * steps)
    if kind == "u":  # the determinant follows the trace
        must(np.abs(np.abs(np.linalg.det(out)) - 1).max() < 1e-10, "modulus of the determinant")
    d.note(group=kind, n=n, batch=batch, steps=steps, tableau=name)
    return n > 1


@facet(quick=30, thorough=500, shards=1, tshards=4)
def constant_velocity(d):
    """exactly exp((t1 - t0) A) g, for every method, step size and kind of matrix"""
    kind = d.pick(["su", "u", "so", "gl", "glr"], "group")
    n, batch = d.pick([2, 3, 1, 4], "n"), d.pick(BATCH, "batch")
    g = d.gen("g")
    per = d.bool("velocity per sample")
    A = rnd(g, n, kind, batch if per else ())
    x = mexp(rnd(g, n, kind, batch)) if kind in ("su", "u", "so") or d.bool("group element") else rnd(g, n, kind, batch)
    (t0, t1), steps = d.pick(TIMES, "times"), d.pick([1, 2, 3, 7, 20], "steps")
    name = d.pick(list(ode.TABLEAUX), "tableau")
    h = (t1 - t0) / steps * d.pick([1.0, 0.83, 1.7], "fraction")
    mt = cg.Matrix() if kind in ("so", "gl", "glr") or d.bool("Matrix") else cg.Unitary(special=kind == "su")
    flow = d.bool("flow")
    if flow:
        f = bijx.ContFlowCG(lambda t, m: (jnp.broadcast_to(jnp.asarray(A), m.shape), jnp.zeros(m.shape[:-2])), mt, t_start=t0, t_end=t1, steps=steps, tableau=getattr(cg, name))
        out, ld = f.forward(jnp.asarray(x), jnp.zeros(batch))
        close(ld, np.zeros(batch), "log-density without divergence", atol=0)
        back, _ = f.reverse(out, ld)
        close(back, x, "reverse", atol=1e-9, rtol=1e-9)
    else:
        vf = lambda t, m, a: jnp.broadcast_to(a, m.shape)
        out = cg.crouch_grossmann(vf, jnp.asarray(x), jnp.asarray(A), t0, t1, h, mt, tableau=getattr(cg, name))
    close(out, mexp((t1 - t0) * A) @ x, "exponential acting from the left", rtol=1e-9, atol=1e-9)
    d.note(group=kind, n=n, batch=batch, flow=flow, tableau=name)
    return n > 1


def special_polar(special):
    def f(m):
        u = polar(m)[0]
        return u / np.linalg.det(u).astype(complex) ** (1 / len(m)) if special else u

    return f


@facet(quick=60, thorough=1500)
def projections(d):
    """the projection is the closest unitary matrix (times a phase), and the identity on the group"""
    n, batch = d.pick([2, 3, 1, 4], "n"), d.pick(BATCH, "batch")
    g = d.gen("g")
    special = d.bool("special")
    t = cg.Unitary(special=special)
    m = rnd(g, n, "gl", batch) if d.bool("far") else mexp(rnd(g, n, "su" if special else "u", batch)) + 1e-3 * rnd(g, n, "gl", batch)
    if np.linalg.svd(m, compute_uv=False).min() < 1e-2:
        return False
    p = np.asarray(t.project(jnp.asarray(m)))
    shape(p, m.shape, "projected matrix")
    on_group(p, "su" if special else "u")
    want = over(special_polar(special), m)
    dp = np.linalg.det(over(special_polar(False), m))
    if not special or np.abs(np.angle(dp)).max() < 3.1:  # away from the cut of the root
        close(p, want, "polar factor", atol=1e-9)
    u = mexp(2 * rnd(g, n, "su" if special else "u", batch))
    close(t.project(jnp.asarray(u)), u, "group elements are unchanged", atol=1e-11)
    a = rnd(g, n, "gl", batch)
    td = cg.UnitaryDeriv(special=special)
    q = np.asarray(td.project(jnp.asarray(a)))
    ref = (a - dag(a)) / 2
    if special:
        ref = ref - np.trace(ref, axis1=-2, axis2=-1)[..., None, None] / n * np.eye(n)
    close(q, ref, "projection to the algebra", atol=1e-12)
    close(td.project(jnp.asarray(ref)), ref, "algebra elements are unchanged", atol=1e-12)
    # which projections act where
    ps, pg = d.bool("project_step"), d.bool("project_stage")
    for ty, proj, val in ((cg.Unitary(project_step=ps, project_stage=pg, special=special), want if np.allclose(p, want) else p, m), (cg.UnitaryDeriv(project_step=ps, project_stage=pg, special=special), ref, a)):
        close(ty.post_stage(jnp.asarray(val)), proj if pg else val, "after a stage", atol=1e-9)
        close(ty.post_stage(ty.post_step(jnp.asarray(val))), proj if pg or ps else val, "after a step", atol=1e-9)
    d.note(n=n, batch=batch, special=special, project_step=ps, project_stage=pg)
    return n > 1


@facet(quick=14, thorough=200, shards=2, tshards=4)
def projected_integration(d):
    """velocities leaving the algebra: the state is put back on the group after each step or stage"""
    n = d.pick([2, 3, 1], "n")
    g = d.gen("g")
    special = d.bool("special")
    A, H, K, u = rnd(g, n, "su" if special else "u"), 0.2 * rnd(g, n, "gl"), rnd(g, n, "gl"), mexp(rnd(g, n, "su" if special else "u"))
    (t0, t1), steps = d.pick(TIMES, "times"), d.pick([1, 2, 3, 8], "steps")
    name = d.pick(list(ode.TABLEAUX), "tableau")
    where = d.pick(["step", "stage", "both", "none"], "projection")
    mt = cg.Unitary(project_step=where in ("step", "both"), project_stage=where in ("stage", "both"), special=special)
    f = lambda t, m, xp: xp.cos(t) * A + 0.3 * (m @ K) + H
    out = np.asarray(cg.crouch_grossmann(lambda t, m, _: f(t, m, jnp), jnp.asarray(u), 0.0, t0, t1, (t1 - t0) / steps, mt, tableau=getattr(cg, name)))
    pr = special_polar(special)
    ref = ode.cg(lambda t, s: (f(t, s[0], np),), (u,), np.linspace(t0, t1, steps + 1), name, "m", pr if where in ("stage", "both") else None, pr if where == "step" else None)[0]
    if where != "none":
        on_group(out, "su" if special else "u")
    if np.abs(ref).max() < 1e4:
        close(out, ref, f"state with projection after {where}", atol=1e-8, rtol=1e-8)
    d.note(n=n, special=special, projection=where, tableau=name, steps=steps)
    return n > 1


@facet(quick=12, thorough=200, shards=2, tshards=4)
def mixed_states(d):
    """each component of a pytree state is integrated as its own type"""
    n, k = d.int(1, 3, "n"), d.int(1, 3, "k")
    g = d.gen("g")
    A, B, O = rnd(g, n, "su"), rnd(g, k, "gl"), rnd(g, 3, "so")
    u, x, o, z = mexp(rnd(g, n, "su", (2,))), g.standard_normal((2, k)), mexp(rnd(g, 3, "so")), rnd(g, k, "gl")
    w = g.uniform(0.5, 2)
    (t0, t1), steps = d.pick(TIMES, "times"), d.pick([1, 2, 5], "steps")
    name = d.pick(list(ode.TABLEAUX), "tableau")
    f = {
        "u": lambda t, s, xp: xp.cos(w * t) * A * (1 + 0 * s["u"]),
        "x": lambda t, s, xp: xp.sin(w * t) + s["x"] @ xp.real(xp.asarray(B)),
        "o": lambda t, s, xp: (1 + t) * O + 0 * s["o"],
        "z": lambda t, s, xp: xp.asarray(B) @ s["z"],
    }
    couple = d.bool("coupled")
    if couple:
        f["o"] = lambda t, s, xp: xp.sum(s["x"]) * O + 0 * s["o"]
        f["x"] = lambda t, s, xp: xp.real(s["u"][:, 0, :1]) + 0 * s["x"]
    keys = d.pick([["u", "x"], ["u", "x", "o", "z"], ["x", "o"] if not couple else ["u", "x", "o"], ["z", "u", "x"]], "components")
    y0 = {"u": u, "x": x, "o": o, "z": z}
    types = {"u": cg.Unitary(), "x": cg.Euclidean(), "o": cg.Matrix(), "z": cg.Euclidean()}
    nest = d.pick(["dict", "tuple"], "tree")
    pack = (lambda s: {c: s[c] for c in keys}) if nest == "dict" else (lambda s: tuple(s[c] for c in keys))
    unpack = (lambda s: dict(s)) if nest == "dict" else (lambda s: dict(zip(keys, s)))
    vf = lambda t, s, _: pack({c: f[c](t, unpack(s), jnp) for c in keys})
    y = jax.tree.map(jnp.asarray, pack(y0))
    out = unpack(cg.crouch_grossmann(vf, y, 0.0, t0, t1, (t1 - t0) / steps, pack(types), tableau=getattr(cg, name)))
    # batch of two group elements: two matrix components in the reference
    flat = [(c, i) for c in keys for i in ([0, 1] if c == "u" else [None])]

    def fr(t, s):
        full = {}
        for (c, i), v in zip(flat, s):
            full.setdefault(c, []).append(v)
        full = {c: np.stack(v) if c == "u" else v[0] for c, v in full.items()}
        r = {c: f[c](t, full, np) for c in keys}
        return tuple(r[c] if i is None else r[c][i] for c, i in flat)

    ref = ode.cg(fr, tuple(y0[c] if i is None else y0[c][i] for c, i in flat), np.linspace(t0, t1, steps + 1), name, ["m" if c in "uo" else "e" for c, _ in flat])
    for (c, i), v in zip(flat, ref):
        got = np.asarray(out[c]) if i is None else np.asarray(out[c])[i]
        close(got, v, f"component {c}", atol=1e-8, rtol=1e-8)
    d.note(components=keys, tree=nest, tableau=name, coupled=couple)
    return True
