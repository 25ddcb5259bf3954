"""Cases: radial and conditional radial layers in dimension 1 to 6 with drawn centre, scaling (scalar or vector) and
scalar maps of the half-line (scalings, powers, splines, rays of line bijections, chains), batch shapes and points
including points near and at the centre; ray wrappers around line bijections.  Oracle: the scalar map applied to the
distance in numpy arithmetic along the ray; log-determinant by automatic differentiation of the layer in
full dimension.  Non-trivial: dimension at least two, or a non-linear scalar map."""
import numpy as np

import bijx
import jax
import jax.numpy as jnp
from flax import nnx
from vf import bij, close, facet, jx, must, shape

from vf.bij import Probe


def scal(f, r):
    """values and log-derivatives of a scalar bijection, one point at a time"""
    out = [f.forward(jnp.asarray(v), jnp.zeros(())) for v in np.ravel(r)]
    return np.array([float(o[0]) for o in out]), -np.array([float(o[1]) for o in out])


def half_line(d, g):
    f = bij.half_line(d, g)
    if d.bool("chained"):
        f = bijx.Chain(f, bij.half_line(d, g))
    if d.bool("inverted"):
        f = f.invert()
    return f


def points(d, g, c, s, n, batch):
    """points with special distances"""
    x = g.standard_normal(batch + (n,)) * d.pick([1.0, 0.1, 3.0], "spread")
    x = x / np.exp(s) + c
    flat = x.reshape(-1, n)
    for i in range(min(2, len(flat))):
        k = d.pick(["as is", "near centre", "axis", "centre"], "special")
        if k == "near centre":
            flat[i] = c + 1e-3 * (flat[i] - c)
        elif k == "axis":
            e = np.zeros(n)
            e[d.int(0, n - 1, "axis")] = d.pick([1.0, -1.0], "sign")
            flat[i] = c + e
        elif k == "centre":
            flat[i] = c
    return flat.reshape(x.shape)


def common(d):
    n = d.pick([2, 3, 1, 5, 4], "dim")
    g = d.gen("g")
    c = g.standard_normal(n) * 2 if d.bool("centre vector") else g.standard_normal()
    s = 0.6 * g.standard_normal(n) if d.bool("scale vector") else 0.6 * g.standard_normal()
    return n, g, c, s, np.broadcast_to(c, (n,)), np.broadcast_to(s, (n,))


def verify(d, b, n, g, cv, sv, scalar_at, what):
    batch = d.pick([(4,), (2, 2), ()], "batch")
    x, ld = points(d, g, cv, sv, n, batch), g.standard_normal(batch)
    y, l = jx.call_jit(b, x, ld) if d.bool("jit") else b.forward(jnp.asarray(x), jnp.asarray(ld))
    shape(y, batch + (n,), f"{what} output"), shape(l, batch, f"{what} log-density")
    y, l = np.asarray(y), np.asarray(l)
    X, Y, L, D = x.reshape(-1, n), y.reshape(-1, n), l.reshape(-1), ld.reshape(-1)
    at_centre = False
    for i in range(len(X)):
        z = (X[i] - cv) * np.exp(sv)
        r = np.linalg.norm(z)
        f = scalar_at(z / r if r > 0 else np.zeros(n))
        fr, lf = scal(f, r)
        if not (np.isfinite(fr[0]) and np.isfinite(lf[0])):
            return False
        if r == 0:
            at_centre = True
            close(Y[i], cv, f"{what}: image of the centre", rtol=1e-12, atol=1e-12)
            close(L[i], D[i] - n * lf[0], f"{what}: log-density at the centre", rtol=1e-9, atol=1e-8)
            continue
        want = cv + (z / r) * fr[0] / np.exp(sv)
        tol = 1e-10 * (1 + np.abs(want).max())
        close(Y[i], want, f"{what}: image", rtol=1e-10, atol=tol)
        if fr[0] > 0:
            close(L[i], D[i] - (lf[0] + (n - 1) * (np.log(fr[0]) - np.log(r))), f"{what}: log-density", rtol=1e-9, atol=1e-8)
        if i < 2 and r > 1e-2:
            J = np.asarray(jax.jacfwd(lambda v: b.forward(v, jnp.zeros(()))[0])(jnp.asarray(X[i])))
            if np.all(np.isfinite(J)):
                sg, ldet = np.linalg.slogdet(J)
                must(sg > 0, f"{what}: Jacobian determinant not positive")
                close(L[i], D[i] - ldet, f"{what}: log-density vs log-determinant", rtol=1e-6, atol=1e-6)
    xr, lr = b.reverse(jnp.asarray(y), jnp.asarray(l))
    shape(xr, batch + (n,), f"{what} reverse"), shape(lr, batch, f"{what} reverse log-density")
    if np.all(np.isfinite(np.asarray(xr))) or not at_centre:
        close(xr, x, f"{what}: reverse of forward", rtol=1e-6, atol=1e-6)
        close(lr, ld, f"{what}: log-density of reverse of forward", rtol=1e-5, atol=1e-4)
    d.note(dim=n, what=what)
    return n > 1


@facet(quick=45, thorough=700, shards=2, tshards=4)
def radial(d):
    n, g, c, s, cv, sv = common(d)
    f = half_line(d, g)
    b = bijx.Radial(f, jnp.asarray(c), jnp.asarray(s))
    close(b.scale, np.exp(s), "Radial.scale")
    return verify(d, b, n, g, cv, sv, lambda u: f, "Radial")


@facet(quick=40, thorough=600, shards=2, tshards=4)
def conditional(d):
    n, g, c, s, cv, sv = common(d)
    f = bij.half_line(d, g)
    rec = bijx.ModuleReconstructor(f)
    net = bij.Dense(n, (rec.params_total_size,), g, 0.3)
    if isinstance(f, (bijx.Scaling,)):
        net = nnx.Sequential(net, jnp.exp)
    elif isinstance(f, bijx.Power):
        net = nnx.Sequential(net, lambda v: jnp.exp(0.4 * v))
    b = bijx.RadialConditional(f, net, jnp.asarray(c), jnp.asarray(s))
    graph, par, rest = nnx.split(f, nnx.Param, ...)
    leaves, td = jax.tree.flatten(par)

    def at(u):
        p, o, new = net(jnp.asarray(u)), 0, []
        for v in leaves:
            new.append(p[o:o + v.size].reshape(v.shape))
            o += v.size
        return nnx.merge(graph, jax.tree.unflatten(td, new), rest)

    return verify(d, b, n, g, cv, sv, at, "RadialConditional")


@facet(quick=60, thorough=800)
def ray(d):
    g = d.gen("g")
    ev = ()
    kw = {}
    if d.bool("keyword"):
        p = (float(np.exp(g.standard_normal())), g.standard_normal(), g.standard_normal(2), g.standard_normal(2))
        inner, kw, ev = Probe(*p, 0), {"u": float(g.standard_normal())}, ()
    else:
        inner = bij.real_scalar(d, g, ev)
    b = bijx.RayTransform(inner)
    batch = d.pick([(3,), (), (3, 2)], "batch")
    x, ld = g.standard_normal(batch + ev), g.standard_normal(batch)
    y0, l0 = inner.forward(jnp.asarray(x), jnp.asarray(ld), **kw)
    z0 = np.asarray(inner.forward(jnp.zeros(ev), jnp.zeros(()), **kw)[0])
    y, l = b.forward(jnp.asarray(x), jnp.asarray(ld), **kw)
    close(y, np.asarray(y0) - z0, "RayTransform forward", rtol=1e-10, atol=1e-10)
    close(l, np.asarray(l0), "RayTransform log-density", rtol=1e-10, atol=1e-10)
    close(b.forward(jnp.zeros(ev), jnp.zeros(()), **kw)[0], np.zeros(ev), "RayTransform of zero", atol=1e-13)
    must(np.all(np.sign(np.asarray(y)) == np.sign(x)), "RayTransform does not preserve the half-lines")
    xr, lr = b.reverse(y, l, **kw)
    close(xr, x, "RayTransform reverse", rtol=1e-6, atol=1e-6)
    close(lr, ld, "RayTransform reverse log-density", rtol=1e-6, atol=1e-6)
