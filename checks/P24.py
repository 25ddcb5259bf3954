"""Cases: lattices of dimension 2 to 4 with unequal sides (1, 2, odd, even), groups U(1), SU(2), SU(3), general complex links
for purely geometric statements, batches, couplings, random local gauge transformations, sequences of translations, axis
exchanges, reflections and rotations.  Oracle: loops over sites and planes; products of links along random paths compared with
the product along the geometrically mapped path in the original lattice.  Non-trivial: the links do not commute or the lattice
has more than one site."""
import jax
import jax.numpy as jnp
import numpy as np
from bijx.lattice import gauge
from bijx.lattice.general import roll_lattice

from vf import close, facet, must, shape


def group(g, n, lead):
    a = g.standard_normal(lead + (n, n)) + 1j * g.standard_normal(lead + (n, n))
    q = np.linalg.qr(a)[0]
    return q / np.linalg.det(q)[..., None, None] ** (1 / n) if n > 1 else q


def draw_lattice(d, g, dims=(2, 3, 4), batch=(), general=False):
    dim = d.pick(list(dims), "dimension")
    top = {2: 5, 3: 3, 4: 2}[dim]
    shp = tuple(d.int(1, top, "side") for _ in range(dim))
    n = d.pick([1, 2, 3, 4], "group")
    lead = tuple(batch) + shp + (dim,)
    return shp, n, (g.standard_normal(lead + (n, n)) + 1j * g.standard_normal(lead + (n, n))) if general else group(g, n, lead)


def brute_log_prob(U, beta):
    dim = U.shape[-3]
    shp, n = U.shape[:dim], U.shape[-1]
    total = 0.0
    for x in np.ndindex(*shp):
        for mu in range(dim):
            for nu in range(mu + 1, dim):
                xm = tuple((x[i] + (i == mu)) % shp[i] for i in range(dim))
                xn = tuple((x[i] + (i == nu)) % shp[i] for i in range(dim))
                total += np.trace(U[x][mu] @ U[xm][nu] @ U[xn][mu].conj().T @ U[x][nu].conj().T).real
    return beta / n * total


@facet(quick=40, thorough=500, shards=2, tshards=4)
def action(d):
    g = d.gen()
    batch = d.pick([(), (2,), (2, 2), (1,), (3, 1)], "batch")
    shp, n, U = draw_lattice(d, g, batch=batch, general=d.int(0, 3, "general") == 3)
    beta = d.float(-3, 8, "beta")
    lp = gauge.wilson_log_prob(jnp.asarray(U), beta)
    shape(lp, batch, "log-probability")
    flat = U.reshape((-1,) + U.shape[len(batch):])
    want = np.array([brute_log_prob(u, beta) for u in flat]).reshape(batch)
    s = 1 + abs(beta) * flat[0].size * np.abs(U).max() ** 4
    close(lp, want, "log-probability", rtol=1e-9, atol=1e-12 * s)
    act = gauge.wilson_action(jnp.asarray(U), beta)
    shape(act, batch, "action")
    close(act, -want, "action", rtol=1e-9, atol=1e-12 * s)
    close(jax.jit(gauge.wilson_action)(jnp.asarray(U), beta), -want, "compiled action", rtol=1e-9, atol=1e-12 * s)
    d.note(lattice=shp, n=n, batch=batch, beta=beta)
    return abs(beta) > 1e-3


def walk(U, x, steps):
    """product of links along steps (+-(mu+1)) from site x"""
    dim = U.shape[-3]
    shp = U.shape[:dim]
    out, x = np.eye(U.shape[-1], dtype=complex), list(x)
    for s in steps:
        mu = abs(s) - 1
        if s > 0:
            out = out @ U[tuple(x)][mu]
            x[mu] = (x[mu] + 1) % shp[mu]
        else:
            x[mu] = (x[mu] - 1) % shp[mu]
            out = out @ U[tuple(x)][mu].conj().T
    return out, tuple(x)


class Geo:
    """site and step map from a transformed lattice back to the original one"""

    def __init__(self, shp):
        self.shape, self.site, self.step = shp, lambda x: x, lambda s: s

    def then(self, shp, site, step):
        """site, step: from the new lattice (shape shp) to the one before"""
        s0, t0 = self.site, self.step
        self.shape, self.site, self.step = shp, lambda x: s0(site(x)), lambda s: t0(step(s))


def swap_geo(geo, a, b):
    perm = list(range(len(geo.shape)))
    perm[a], perm[b] = b, a
    shp = tuple(geo.shape[p] for p in perm)
    geo.then(shp, lambda x: tuple(x[p] for p in perm), lambda s: int(np.sign(s)) * (perm[abs(s) - 1] + 1))


def flip_geo(geo, a):
    L = geo.shape[a]
    geo.then(geo.shape, lambda x: tuple(L - 1 - v if i == a else v for i, v in enumerate(x)), lambda s: -s if abs(s) - 1 == a else s)


def roll_geo(geo, loc, invert):
    shp, sg = geo.shape, -1 if invert else 1
    geo.then(shp, lambda x: tuple((v + sg * (loc[i] if i < len(loc) else 0)) % shp[i] for i, v in enumerate(x)), lambda s: s)


def apply_op(d, U, geo):
    dim = len(geo.shape)
    op = d.pick(["roll", "swap", "flip", "rotate"], "op")
    a = d.int(0, dim - 1, "axis")
    b = d.pick([i for i in range(dim) if i != a], "axis 2")
    if op == "roll":
        loc = tuple(d.int(-4, 5, "shift") for _ in range(d.int(1, dim, "shifted axes")))
        inv = d.bool("invert")
        U = roll_lattice(U, loc, invert=inv)
        roll_geo(geo, loc, inv)
    elif op == "swap":
        U = gauge.swap_axes(U, a, b)
        swap_geo(geo, a, b)
    elif op == "flip":
        U = gauge.flip_axis(U, a)
        flip_geo(geo, a)
    else:
        U = gauge.rotate_lat(U, a, b)
        swap_geo(geo, a, b)
        flip_geo(geo, a)
    return op, U


@facet(quick=40, thorough=500, shards=2, tshards=4)
def symmetries(d):
    """sequences of symmetry operations relocate, re-orient and conjugate every link, and leave the action unchanged"""
    g = d.gen()
    general = d.bool("general")
    shp, n, U0 = draw_lattice(d, g, general=general)
    dim = len(shp)
    geo, U, ops = Geo(shp), jnp.asarray(U0), []
    for _ in range(d.int(1, 4, "operations")):
        op, U = apply_op(d, U, geo)
        ops.append(op)
    U1 = np.asarray(U)
    shape(U1, geo.shape + (dim, n, n), f"lattice after {ops}")
    # every single link
    for x in np.ndindex(*geo.shape):
        for mu in range(dim):
            want, _ = walk(U0, geo.site(x), [geo.step(mu + 1)])
            close(U1[x][mu], want, f"link {mu} at {x} after {ops}", rtol=1e-12, atol=1e-12)
    for _ in range(4):
        steps = [int(s) for s in g.choice([s for s in range(-dim, dim + 1) if s], d.int(2, 6, "path length"))]
        x = tuple(int(v) for v in [g.integers(L) for L in geo.shape])
        w1, e1 = walk(U1, x, steps)
        w0, e0 = walk(U0, geo.site(x), [geo.step(s) for s in steps])
        close(w1, w0, f"product along a path after {ops}", rtol=1e-9, atol=1e-9 * max(1, np.abs(w0).max()))
    if not general:
        beta = 1.7
        close(gauge.wilson_action(U, beta), brute_log_prob(U0, -beta), f"action after {ops}", rtol=1e-9, atol=1e-9)
    d.note(lattice=shp, n=n, operations=ops)
    return int(np.prod(shp)) > 1


@facet(quick=40, thorough=400)
def group_relations(d):
    g = d.gen()
    shp, n, U0 = draw_lattice(d, g, general=True)
    dim = len(shp)
    U = jnp.asarray(U0)
    a = d.int(0, dim - 1, "axis")
    b = d.pick([i for i in range(dim) if i != a], "axis 2")
    eq = lambda got, want, what: close(got, np.asarray(want), what, rtol=1e-12, atol=1e-12)
    r = U
    for _ in range(4):
        r = gauge.rotate_lat(r, a, b)
    eq(r, U, "four quarter turns")
    eq(gauge.rotate_lat(gauge.rotate_lat(U, a, b), b, a), U, "turn and turn back")
    r2 = gauge.rotate_lat(gauge.rotate_lat(U, a, b), a, b)
    eq(r2, gauge.flip_axis(gauge.flip_axis(U, a), b), "half turn is both reflections")
    eq(gauge.flip_axis(gauge.flip_axis(U, a), a), U, "two reflections")
    eq(gauge.flip_axis(gauge.flip_axis(U, a), b), gauge.flip_axis(gauge.flip_axis(U, b), a), "reflections commute")
    eq(gauge.swap_axes(gauge.swap_axes(U, a, b), a, b), U, "two exchanges")
    eq(gauge.swap_axes(U, a, b), gauge.swap_axes(U, b, a), "exchange is symmetric")
    eq(gauge.swap_axes(gauge.flip_axis(U, a), a, b), gauge.flip_axis(gauge.swap_axes(U, a, b), b), "exchange and reflection")
    s = tuple(int(v) for v in g.integers(-3, 4, dim))
    eq(roll_lattice(roll_lattice(U, s), s, invert=True), U, "translation and back")
    eq(roll_lattice(roll_lattice(U, s), tuple(-v for v in s)), U, "opposite translations")
    eq(roll_lattice(U, tuple(shp)), U, "translation by the lattice size")
    t = tuple(int(v) for v in g.integers(-3, 4, dim))
    eq(roll_lattice(roll_lattice(U, s), t), roll_lattice(U, tuple(x + y for x, y in zip(s, t))), "translations add")
    m = tuple(-v if i == a else v for i, v in enumerate(s))
    eq(gauge.flip_axis(roll_lattice(U, s), a), roll_lattice(gauge.flip_axis(U, a), m), "translation and reflection")
    if (a, b) in [(0, 1)]:
        eq(gauge.rotate_lat(U), gauge.rotate_lat(U, 0, 1), "default plane of rotations")
        eq(gauge.swap_axes(U), gauge.swap_axes(U, 0, 1), "default axes of exchanges")
    d.note(lattice=shp, n=n, axes=(a, b))
    return int(np.prod(shp)) > 1


@facet(quick=40, thorough=400)
def gauge_transformations(d):
    g = d.gen()
    shp, n, U0 = draw_lattice(d, g)
    dim = len(shp)
    gs, hs = group(g, n, shp), group(g, n, shp)
    V = np.asarray(gauge.apply_gauge_sym(jnp.asarray(U0), jnp.asarray(gs)))
    shape(V, U0.shape, "transformed lattice")
    for x in np.ndindex(*shp):
        for mu in range(dim):
            y = tuple((x[i] + (i == mu)) % shp[i] for i in range(dim))
            close(V[x][mu], gs[x] @ U0[x][mu] @ gs[y].conj().T, f"gauge transformed link {mu} at {x}", rtol=1e-11, atol=1e-11)
    for _ in range(3):
        steps = [int(s) for s in g.choice([s for s in range(-dim, dim + 1) if s], 5)]
        x = tuple(int(g.integers(L)) for L in shp)
        w1, e = walk(V, x, steps)
        w0, _ = walk(U0, x, steps)
        close(w1, gs[x] @ w0 @ gs[e].conj().T, "product along a path of the transformed lattice", rtol=1e-10, atol=1e-10)
    W = gauge.apply_gauge_sym(jnp.asarray(V), jnp.asarray(hs))
    close(W, np.asarray(gauge.apply_gauge_sym(jnp.asarray(U0), jnp.asarray(hs @ gs))), "gauge transformations compose", rtol=1e-10, atol=1e-10)
    inv = gauge.apply_gauge_sym(jnp.asarray(V), jnp.asarray(gs.conj().swapaxes(-1, -2)))
    close(inv, U0, "inverse gauge transformation", rtol=1e-10, atol=1e-10)
    beta = d.float(0.1, 6, "beta")
    close(gauge.wilson_action(jnp.asarray(V), beta), brute_log_prob(U0, -beta), "action of the transformed lattice", rtol=1e-9, atol=1e-9)
    d.note(lattice=shp, n=n)
    return n > 1


@facet(quick=40, thorough=400)
def translations(d):
    """roll_lattice on fields of any kind: site x holds what was at x + loc"""
    g = d.gen()
    dim, ch = d.int(1, 4, "dimension"), d.pick([(), (2,), (3, 2)], "channels")
    shp = tuple(d.int(1, 4, "side") for _ in range(dim))
    f = g.standard_normal(shp + ch)
    k = d.int(1, dim, "shifted axes")
    loc = tuple(d.int(-6, 6, "shift") for _ in range(k))
    inv = d.bool("invert")
    out = np.asarray(roll_lattice(jnp.asarray(f), loc, invert=inv) if inv or d.bool("explicit") else roll_lattice(jnp.asarray(f), loc))
    shape(out, f.shape, "shifted lattice")
    for x in np.ndindex(*shp):
        y = tuple((v + (loc[i] if i < k else 0) * (-1 if inv else 1)) % shp[i] for i, v in enumerate(x))
        close(out[x], f[y], f"value at {x}", rtol=0, atol=0)
    d.note(lattice=shp, loc=loc, invert=inv)
    return int(np.prod(shp)) > 1
