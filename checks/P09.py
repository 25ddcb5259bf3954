"""Cases: spectrum scalings (given as array, parameter or constant, either sign) and free-field scalings (drawn mass,
momentum type, convention, precomputed or not, mass as parameter) on lattices of rank 1 to 3 with odd, even and
trivial sizes, channel dimensions and batches, both directions.  Oracle: full complex DFT in numpy with the scale at every
momentum, dense Jacobian determinant, free propagator from the formula.  Non-trivial: more than one site."""
import numpy as np

import bijx
import jax
import jax.numpy as jnp
from flax import nnx
from vf import close, facet, jx, must, shape

LATS = [(4,), (5,), (3, 4), (4, 3), (2, 2), (3, 3), (1, 4), (4, 1), (6,), (2, 3, 2), (1,), (2,), (3, 2, 4), (2, 5)]


def full_even(g, shp, scale=0.6):
    """random positive-or-negative scale, even in the momentum, on the full grid"""
    s = np.exp(scale * g.standard_normal(shp)) * np.where(g.random(shp) < 0.2, -1, 1)
    out = np.empty(shp)
    for k in np.ndindex(*shp):
        kc = tuple((-a) % n for a, n in zip(k, shp))
        out[k] = s[min(k, kc)]
    return out


def apply_full(x, s, nsp, nch):
    ax = tuple(range(x.ndim - nsp - nch, x.ndim - nch))
    y = np.fft.ifftn(np.fft.fftn(x, axes=ax) * s.reshape(s.shape + (1,) * nch), axes=ax)
    return y.real, np.abs(y.imag).max(initial=0)


def verify(d, b, s, lat, g, what):
    nch = b.channel_dim
    ch = (2, 3)[:nch]
    batch = d.pick([(), (3,), (3, 2)], "batch")
    x, ld = g.standard_normal(batch + lat + ch), g.standard_normal(batch)
    logdet = np.log(np.abs(s)).sum() * int(np.prod(ch, dtype=int))
    how = d.bool("jit")
    y, l = jx.call_jit(b, x, ld) if how else b.forward(jnp.asarray(x), jnp.asarray(ld))
    want, im = apply_full(x, s, len(lat), nch)
    must(not np.iscomplexobj(np.asarray(y)), f"{what}: result is not real")
    close(y, want, f"{what}: forward vs mode by mode multiplication", rtol=1e-11, atol=1e-11 * (1 + np.abs(want).max()))
    shape(l, batch, f"{what} log-density")
    close(l, ld - logdet, f"{what}: forward log-density", rtol=1e-11, atol=1e-9)
    z, l2 = b.reverse(jnp.asarray(x), jnp.asarray(ld))
    want, _ = apply_full(x, 1 / s, len(lat), nch)
    close(z, want, f"{what}: reverse vs mode by mode division", rtol=1e-10, atol=1e-10 * (1 + np.abs(want).max()))
    close(l2, ld + logdet, f"{what}: reverse log-density", rtol=1e-11, atol=1e-9)
    xr, l3 = b.reverse(y, l)
    close(xr, x, f"{what}: reverse of forward", rtol=1e-9, atol=1e-9)
    close(l3, ld, f"{what}: log-density of reverse of forward", rtol=1e-9, atol=1e-9)
    if np.prod(lat + ch) <= 24:
        f = lambda v: b.forward(v.reshape(lat + ch), jnp.zeros(()))[0].reshape(-1)
        J = np.asarray(jax.jacfwd(f)(jnp.asarray(x[(0,) * len(batch)].reshape(-1))))
        close(np.asarray(l).reshape(-1)[0], ld.reshape(-1)[0] - np.linalg.slogdet(J)[1], f"{what}: log-density vs dense determinant", rtol=1e-8, atol=1e-7)
        return J
    return None


@facet(quick=70, thorough=1200, shards=2, tshards=4)
def spectrum(d):
    lat = d.pick(LATS, "lattice")
    g = d.gen("g")
    nch = d.pick([0, 1, 2], "channels")
    s = full_even(g, lat)
    red = s[..., : lat[-1] // 2 + 1]
    form = d.pick(["array", "Param", "Const"], "form")
    arg = {"array": jnp.asarray(red), "Param": nnx.Param(jnp.asarray(red)), "Const": bijx.Const(jnp.asarray(red))}[form]
    b = bijx.SpectrumScaling(arg, channel_dim=nch) if nch or d.bool("explicit") else bijx.SpectrumScaling(arg)
    close(b.scaling, red, "scaling")
    n_par = len(jax.tree.leaves(nnx.state(b, nnx.Param)))
    must(n_par == (1 if form == "Param" else 0), "scaling given as an array must be constant, as a parameter trainable", params=n_par)
    verify(d, b, s, lat, g, "SpectrumScaling")
    d.note(lattice=lat, channels=nch)
    return np.prod(lat) > 1


def free_scale(lat, m2, lattice, half):
    out = np.empty(lat)
    for k in np.ndindex(*lat):
        k2 = 0.0
        for a, n in zip(k, lat):
            if lattice:
                k2 += 4 * np.sin(np.pi * a / n) ** 2
            else:
                k2 += (2 * np.pi * min(a, n - a) / n) ** 2
        out[k] = np.sqrt((1.0 if half else 0.5) / (m2 + k2))
    return out


@facet(quick=60, thorough=1000, shards=2, tshards=4)
def free_theory(d):
    lat = d.pick(LATS, "lattice")
    g = d.gen("g")
    nch = d.pick([0, 0, 1], "channels")
    m2 = d.pick([0.5, 1.0, 0.01, 7.3], "m2")
    lattice, half, pre = d.bool("lattice"), d.bool("half"), d.bool("precompute")
    form = d.pick(["float", "array", "Param", "Const"], "form")
    arg = {"float": m2, "array": jnp.asarray(m2), "Param": nnx.Param(jnp.asarray(m2)), "Const": bijx.Const(jnp.asarray(m2))}[form]
    defaults = d.bool("defaults")
    if defaults:
        lattice = half = True
        b = bijx.FreeTheoryScaling(arg, lat, nch)
    else:
        b = bijx.FreeTheoryScaling(arg, lat, channel_dim=nch, finite_size=lattice, precompute_spectrum=pre, half=half)
    s = free_scale(lat, m2, lattice, half)
    close(b.scaling, s[..., : lat[-1] // 2 + 1], "free scaling", rtol=1e-12)
    J = verify(d, b, s, lat, g, "FreeTheoryScaling")
    if J is not None and nch == 0:
        # white noise -> covariance with spectrum 1 / (m^2 + k^2)
        n = int(np.prod(lat))
        F = np.stack([np.fft.fftn(e.reshape(lat), norm="ortho").reshape(-1) for e in np.eye(n)], -1)
        prop = F @ (J @ J.T) @ F.conj().T
        close(prop, np.diag(s.reshape(-1) ** 2).astype(complex), "propagator of the transformed white noise", rtol=1e-9, atol=1e-9 * (1 + (s**2).max()))
    if form in ("Param", "Const"):
        b.m2.set_value(jnp.asarray(2.5 * m2))
        close(b.scaling, free_scale(lat, 2.5 * m2, lattice, half)[..., : lat[-1] // 2 + 1], "scaling after changing the mass", rtol=1e-12)
        verify(d, b, free_scale(lat, 2.5 * m2, lattice, half), lat, g, "FreeTheoryScaling with changed mass")
    d.note(lattice=lat, m2=m2, lattice_momenta=lattice, half=half)
    return np.prod(lat) > 1
