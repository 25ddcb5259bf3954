"""Cases: real fields on lattices of rank 1 to 3 (odd, even, trivial sizes) with channels and batches, and a random walk
through the representations (also started from arbitrary independent real numbers); momentum grids with all option
combinations; the metadata of every lattice.  Oracle: numpy's DFT, explicit loops over modes.  Non-trivial: more than
one site and at least one conversion."""
import numpy as np

import bijx
import jax.numpy as jnp
from bijx.fourier import FFTRep, FourierData, FourierMeta, fft_momenta
from vf import close, facet, must, shape

LATS = [(4,), (5,), (3, 4), (4, 3), (2, 2), (3, 3), (1, 4), (4, 1), (6,), (2, 3, 2), (1,), (2,), (3, 2, 4), (2, 5), (4, 4), (3, 3, 3), (4, 2, 2), (1, 1), (2, 4, 3), (2, 2, 2, 2)]
REPS = [FFTRep.rfft, FFTRep.comp_complex, FFTRep.comp_real, FFTRep.real_space]


def conj(k, lat):
    return tuple((-a) % n for a, n in zip(k, lat))


@facet(quick=60, thorough=400)
def metadata(d):
    lat = d.pick(LATS, "lattice") if d.bool("listed") else tuple(d.int(1, 6, "L") for _ in range(d.int(1, 3, "rank")))
    m = FourierMeta.create(lat)
    red = lat[:-1] + (lat[-1] // 2 + 1,)
    mr, mi = np.asarray(m.mr), np.asarray(m.mi)
    shape(mr, red, "mr"), shape(mi, red, "mi")
    must(int(mr.sum() + mi.sum()) == int(np.prod(lat)), "number of independent real degrees of freedom", got=int(mr.sum() + mi.sum()), want=int(np.prod(lat)))
    must(not np.any(mi & ~mr), "imaginary part of a dependent mode counted")
    copies = {tuple(int(v) for v in t): tuple(int(v) for v in f) for t, f in zip(np.asarray(m.copy_to), np.asarray(m.copy_from))}
    must(len(copies) == len(np.asarray(m.copy_to)), "a mode is copied to twice")
    for k in np.ndindex(*red):
        kc = conj(k, lat)
        if kc == k:
            must(mr[k] and not mi[k], "self-conjugate mode must be real and independent", mode=k)
            must(k not in copies, "self-conjugate mode copied", mode=k)
        elif kc[-1] < red[-1]:  # the partner is stored as well: exactly one of the two is independent
            must(bool(mr[k]) != bool(mr[kc]), "exactly one of a conjugate pair must be independent", mode=k)
            must(bool(mr[k]) == bool(mi[k]), "imaginary part of mode", mode=k)
            must((k in copies) == (not mr[k]), "dependent mode not copied", mode=k)
            if k in copies:
                must(copies[k] == kc, "conjugate pairing", mode=k, source=copies[k], want=kc)
        else:
            must(mr[k] and mi[k] and k not in copies, "mode without stored partner must be independent", mode=k)
    ksf = np.array([sum(min(a, n - a) ** 2 for a, n in zip(k, lat)) for k in np.ndindex(*red)]).reshape(red)
    must(np.array_equal(np.asarray(m.ks_full), ksf), "ks_full", got=np.asarray(m.ks_full), want=ksf)
    must(np.array_equal(np.asarray(m.ks_reduced), ksf[mr]), "ks_reduced")
    uv = np.asarray(m.ks_reduced)[np.asarray(m.unique_idc)]
    must(np.array_equal(uv, np.unique(ksf[mr])), "unique momenta")
    must(np.array_equal(uv[np.asarray(m.unique_unfold).reshape(-1)], ksf[mr]), "unfolding of unique momenta")
    must(np.array_equal(np.asarray(m.have_imag), mi[mr]), "have_imag")
    must(tuple(m.real_shape) == lat, "real_shape")
    d.note(lattice=lat)
    return np.prod(lat) > 1


def refs(x, lat, nch):
    ax = tuple(range(x.ndim - len(lat) - nch, x.ndim - nch))
    return np.fft.rfftn(x, axes=ax, norm="ortho")


@facet(quick=80, thorough=1500, shards=2, tshards=4)
def conversions(d):
    lat = d.pick(LATS, "lattice")
    nch = d.pick([0, 1, 2], "channels")
    ch, batch = (2, 3)[:nch], d.pick([(), (3,), (3, 2)], "batch")
    g = d.gen("g")
    dt = d.pick([np.float64, np.float64, np.float32], "dtype")
    tol = 1e-11 if dt is np.float64 else 1e-5
    meta = FourierMeta.create(lat, nch)
    mr, mi = np.asarray(meta.mr), np.asarray(meta.mi)
    n = int(np.prod(lat))
    start = d.pick(["field", "from_real", "dof"], "start")
    if start == "dof":
        dof = g.standard_normal(batch + (n,) + ch).astype(dt)
        f = FourierData(jnp.asarray(dof), FFTRep.comp_real, meta)
        x = np.asarray(f.to(FFTRep.real_space).data)
        shape(x, batch + lat + ch, "field from degrees of freedom")
    else:
        x = g.standard_normal(batch + lat + ch).astype(dt)
        if start == "field":
            f = FourierData(jnp.asarray(x), FFTRep.real_space, meta)
        else:
            to = d.pick([None] + REPS, "to")
            f = FourierData.from_real(jnp.asarray(x), lat, to, nch) if to is not None else FourierData.from_real(jnp.asarray(x), lat, channel_dim=nch)
            must(f.rep == (to if to is not None else FFTRep.real_space), "from_real: representation")
    rf = refs(x.astype(float), lat, nch)
    pos = len(batch)
    flat = rf.reshape(batch + (mr.size,) + ch)
    comp = np.compress(mr.reshape(-1), flat, axis=pos)
    dofs = np.concatenate([comp.real, np.compress(mi[mr], comp.imag, axis=pos)], axis=pos)
    want = {FFTRep.real_space: x, FFTRep.rfft: rf, FFTRep.comp_complex: comp, FFTRep.comp_real: dofs}
    if start == "dof":
        close(dofs, dof, "degrees of freedom of the field built from them", rtol=tol, atol=tol * 10)
    steps = [d.pick(REPS, "next") for _ in range(d.int(1, 5, "steps"))]
    for r in steps:
        f = f.to(r)
        must(f.rep == r, "representation label")
        w = want[r]
        must(np.iscomplexobj(np.asarray(f.data)) == np.iscomplexobj(w), f"{r.name}: real or complex", dtype=np.asarray(f.data).dtype)
        close(f.data, w, f"{r.name} on lattice {lat}", rtol=tol, atol=10 * tol * (1 + np.abs(w).max()))
        if dt is np.float32:
            must(np.asarray(f.data).dtype in (np.float32, np.complex64), "precision changed", dtype=np.asarray(f.data).dtype)
    close(f.to(FFTRep.real_space).data, x, "back to the field", rtol=tol, atol=10 * tol)
    close(f.to(None).data, np.asarray(f.data), "to(None)")
    d.note(lattice=lat, channels=nch, walk=[r.name for r in steps])
    return n > 1


@facet(quick=50, thorough=600)
def bijection(d):
    lat = d.pick(LATS, "lattice")
    nch = d.pick([0, 1], "channels")
    g = d.gen("g")
    x, ld = g.standard_normal((2,) + lat + (3,) * nch), g.standard_normal(2)
    rep = d.pick(REPS[:3] + [None], "rep")
    unpack = rep is not None and d.bool("unpack")
    b = bijx.ToFourierData(lat, rep, nch, unpack)
    y, l = b.forward(jnp.asarray(x), jnp.asarray(ld))
    close(l, ld, "ToFourierData log-density")
    data = y if unpack else y.data
    meta = FourierMeta.create(lat, nch)
    close(data, np.asarray(FourierData(jnp.asarray(x), FFTRep.real_space, meta).to(rep).data), "ToFourierData forward", rtol=1e-12, atol=1e-12)
    if rep == FFTRep.rfft:
        close(data, refs(x, lat, nch), "ToFourierData rfft", rtol=1e-11, atol=1e-10)
    if not unpack and d.bool("convert between"):
        y = y.to(d.pick(REPS, "other"))
    xr, l = b.reverse(y, l)
    close(xr, x, "ToFourierData reverse", rtol=1e-11, atol=1e-11)
    close(l, ld, "ToFourierData reverse log-density")


@facet(quick=60, thorough=500)
def momenta(d):
    lat = d.pick(LATS, "lattice") if d.bool("listed") else tuple(d.int(1, 9, "L") for _ in range(d.int(1, 3, "rank")))
    red, lattice, unit = d.bool("reduced"), d.bool("lattice"), d.bool("unit")
    kw = {}
    if not (red and d.bool("default")):
        kw["reduced"] = red
    if lattice:
        kw["lattice"] = True
    if unit:
        kw["unit"] = True
    ks = np.asarray(fft_momenta(lat, **kw))
    shp = lat[:-1] + (lat[-1] // 2 + 1,) if red else lat
    want = np.empty(shp + (len(lat),))
    for k in np.ndindex(*shp):
        for i, (a, n) in enumerate(zip(k, lat)):
            if unit:
                want[k + (i,)] = a
            elif lattice:
                want[k + (i,)] = 2 * np.sin(np.pi * a / n)
            else:
                want[k + (i,)] = 2 * np.pi * (a if 2 * a <= n else a - n) / n
    close(ks.astype(float), want, f"fft_momenta{lat}{kw}", rtol=1e-12, atol=1e-12)
    if not unit:  # dispersion relations
        k2 = (ks**2).sum(-1)
        for k in np.ndindex(*shp):
            kc = conj(k, lat)
            if all(a < m for a, m in zip(kc, shp)):
                close(k2[kc], k2[k], "momentum squared of conjugate modes", rtol=1e-11, atol=1e-11)
        # a plane wave has this momentum: its discrete Laplacian eigenvalue
        if lattice:
            k = tuple(d.int(0, n - 1, "k") for n in shp)
            lam = sum(2 - 2 * np.cos(2 * np.pi * a / n) for a, n in zip(k, lat))
            close(k2[k], lam, "lattice momentum squared vs Laplacian", rtol=1e-10, atol=1e-10)
    d.note(shape=lat, options=kw)
    return np.prod(lat) > 1
