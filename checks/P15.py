"""Cases: kernels and lattices of rank 1 to 3 (odd, even, unequal, size 1, kernels as large as or larger than the lattice),
all parameter-sharing schemes, channels, groups, strides, dilations, masks, batches; random site permutations as symmetry
generators; random target shapes for resizing (growing, shrinking, mixed).  Oracle: explicit sums over periodic sites,
union-find orbits of the explicitly generated group, coordinate-wise re-indexing for resizing.  Non-trivial: more than one
site."""
from itertools import permutations, product

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx

from bijx.nn import conv
from vf import close, facet, fail, must, shape

KERNELS = [(3,), (3, 3), (2,), (4,), (5,), (2, 2), (4, 4), (1, 1), (1,), (3, 3, 3), (2, 2, 2), (5, 5), (3, 2), (4, 3), (1, 3), (2, 3, 1), (5, 2), (6, 6), (7, 7)]


def centre(shape):
    return tuple((s - 1) // 2 for s in shape)


def coords(shape):
    """position of every site relative to the centre"""
    return [tuple(i - c for i, c in zip(site, centre(shape))) for site in np.ndindex(*shape)]


def classes(n, pairs):
    """union-find: label of each of n items"""
    parent = list(range(n))

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a

    for a, b in pairs:
        parent[find(a)] = find(b)
    return np.array([find(a) for a in range(n)])


def same_partition(got, want, what):
    got, want = np.asarray(got).ravel(), np.asarray(want).ravel()
    pairs = set(zip(got.tolist(), want.tolist()))
    must(len(pairs) == len(set(got.tolist())) == len(set(want.tolist())), f"{what}: sites share a parameter exactly if related", got=got, want=want)


def check_orbits(count, orbits, want, shp, what, distance_order=False):
    orbits = np.asarray(orbits)
    must(tuple(orbits.shape) == tuple(shp), f"{what}: shape of the orbit array", got=orbits.shape)
    must(sorted(set(orbits.ravel().tolist())) == list(range(int(count))), f"{what}: orbit labels are 0..count-1", count=count, labels=np.unique(orbits))
    same_partition(orbits, want, what)
    must(orbits[centre(shp)] == 0, f"{what}: the centre is the first orbit")


@facet(quick=60, thorough=800, shards=1, tshards=3)
def orbits(d):
    which = d.pick(["d4", "equidist", "random generators", "index"], "scheme")
    if which == "d4":
        s, r = d.int(1, 6, "size"), d.int(1, 3, "rank")
        shp = (s,) * (r if s < 5 else min(r, 2))
        n = int(np.prod(shp))
        flat = lambda site: int(np.ravel_multi_index(site, shp))
        c = centre(shp)
        back = lambda rel: flat(tuple((a + b) % k for a, b, k in zip(rel, c, shp)))
        pairs = []
        for i, rel in enumerate(coords(shp)):
            for signs in product([1, -1], repeat=len(shp)):
                for perm in permutations(range(len(shp))):
                    pairs.append((i, back([signs[k] * rel[perm[k]] for k in range(len(shp))])))
        check_orbits(*conv.kernel_d4(shp), classes(n, pairs), shp, f"d4 on {shp}")
        if r > 1:
            try:
                conv.kernel_d4(shp[:-1] + (s + 1,))
            except AssertionError:
                pass
            else:
                fail("d4 orbits of a non-cubic shape", shape=shp)
    elif which == "equidist":
        shp = d.pick(KERNELS, "shape")
        dist = np.array([sum(v * v for v in rel) for rel in coords(shp)])
        count, orb = conv.kernel_equidist(shp)
        check_orbits(count, orb, dist, shp, f"equal distance on {shp}")
        must(np.array_equal(np.unique(dist)[np.asarray(orb).ravel()], dist), "orbits are numbered by distance")
    elif which == "index":
        shp = d.pick(KERNELS, "shape")
        idx = np.asarray(conv.unique_index_kernel(shp))
        must(sorted(idx.ravel().tolist()) == list(range(idx.size)), "indices are unique", got=idx)
        dist = np.array([sum(v * v for v in rel) for rel in coords(shp)])
        order = np.argsort(idx.ravel())
        must(np.all(np.diff(dist[order]) >= 0) and idx[centre(shp)] == 0, "indices increase with the distance", got=idx)
    else:
        shp = d.pick(KERNELS, "shape")
        g, k = d.gen("g"), d.int(0, 3, "generators")
        n = int(np.prod(shp))
        gens, pairs = [], []
        for _ in range(k):
            p = np.arange(n)
            move = g.choice(n, size=int(g.integers(1, min(n, 5) + 1)), replace=False)  # few sites move
            p[move] = np.roll(move, 1)
            gens.append(p)
            pairs += list(zip(range(n), p))
        count, orb = conv.gather_orbits(shp, [lambda lat, p=p: lat.reshape(-1)[p].reshape(lat.shape) for p in gens])
        orb = np.asarray(orb)
        must(tuple(orb.shape) == tuple(shp), "shape of the orbit array")
        must(sorted(set(orb.ravel().tolist())) == list(range(int(count))), "orbit labels are 0..count-1")
        same_partition(orb, classes(n, pairs), f"orbits of {k} generators")
    d.note(scheme=which, shape=shp)
    return np.prod(shp) > 1


@facet(quick=60, thorough=600)
def lattice_operations(d):
    """reflections and rotations about the centre"""
    r = d.int(1, 3, "rank")
    shp = (d.int(2, 5, "L"),) * r if d.bool("cubic") else tuple(d.int(1, 5, "L") for _ in range(r))
    a, b = d.int(0, r - 1, "axis"), d.int(0, r - 1, "axis2")
    lat = np.arange(np.prod(shp)).reshape(shp)
    c = centre(shp)
    f = np.asarray(conv.flip_lattice(lat, a))
    for site in np.ndindex(*shp):
        img = list(site)
        img[a] = (2 * c[a] - site[a]) % shp[a]
        must(f[site] == lat[tuple(img)], "reflection about the centre", site=site, got=f)
    if a != b and shp[a] == shp[b]:
        rot = np.asarray(conv.rot_lattice_90(lat, a, b))
        must(rot[c] == lat[c], "rotation keeps the centre")
        z = lat
        for _ in range(4):
            z = np.asarray(conv.rot_lattice_90(z, a, b))
        must(np.array_equal(z, lat), "four quarter turns")
        swapped = np.swapaxes(lat, a, b)
        must(np.array_equal(rot, np.asarray(conv.flip_lattice(swapped, a))), "quarter turn")
    # displacement table
    cen, flat = d.bool("center"), d.bool("flat")
    if np.prod(shp) <= 40:
        t = np.asarray(conv.conv_indices(shp, return_flat=flat, center=cen))
        n = int(np.prod(shp))
        shape(t, (r, n, n) if flat else (r, *shp, *shp), "displacements")
        t = t.reshape(r, n, n)
        sites = list(np.ndindex(*shp))
        want = np.array([[[(y[i] - x[i] + (shp[i] // 2 if cen else 0)) % shp[i] for y in sites] for x in sites] for i in range(r)])
        must(np.array_equal(t, want), "displacements between sites", got=t)
    return np.prod(shp) > 1


@facet(quick=60, thorough=1000, shards=1, tshards=4)
def folding(d):
    shp = d.pick(KERNELS, "shape")
    cubic = len(set(shp)) == 1
    count, orb = (conv.kernel_d4 if cubic and d.bool("d4") else conv.kernel_equidist)(shp)
    g, cin, cout = d.gen("g"), d.int(1, 3, "in"), d.int(1, 3, "out")
    p = g.standard_normal((count, cin, cout))
    K = np.asarray(conv.unfold_kernel(p, orb))
    shape(K, shp + (cin, cout), "unfolded kernel")
    for site in np.ndindex(*shp):
        must(np.array_equal(K[site], p[orb[site]]), "unfolded kernel", site=site)
    close(conv.fold_kernel(K, orb, count), p, "folding a symmetric kernel", atol=1e-12)
    close(conv.unfold_kernel(np.asarray(conv.fold_kernel(K, orb, count)), orb), K, "unfold after fold", atol=1e-12)
    R = g.standard_normal(K.shape)
    R0 = R.copy()
    f = np.asarray(conv.fold_kernel(R, orb, count))
    want = np.array([R.reshape(-1, cin, cout)[np.asarray(orb).ravel() == k].mean(0) for k in range(count)])
    close(f, want, "folding averages over orbits", atol=1e-12)
    must(np.array_equal(R, R0), "folding changed its argument")
    return np.prod(shp) > 1


def resized(K, new, fill=0.0):
    """defining re-indexing: sites keep their position relative to the centre, an even kernel's far edge is shared"""
    for ax, n in enumerate(new):
        old = K.shape[ax]
        out = np.full(K.shape[:ax] + (n,) + K.shape[ax + 1 :], fill)
        sl = (np.s_[:],) * ax
        for i in range(old):
            r = i - (old - 1) // 2
            targets = [(r, 1.0)]
            if n > old and old % 2 == 0 and r == old // 2:
                targets = [(r, 0.5), (-r, 0.5)]
            for q, w in targets:
                j = q + (n - 1) // 2
                if 0 <= j < n:
                    out[sl + (j,)] = w * K[sl + (i,)]
        K = out
    return K


@facet(quick=80, thorough=1500, shards=1, tshards=4)
def resizing(d):
    shp = d.pick(KERNELS, "shape")
    g, cin, cout = d.gen("g"), d.int(1, 2, "in"), d.int(1, 2, "out")
    cubic = len(set(shp)) == 1
    count, orb = (conv.kernel_d4 if cubic else conv.kernel_equidist)(shp)
    sym = d.bool("symmetric")
    K = p = g.standard_normal((count, cin, cout))[orb] if sym else g.standard_normal(shp + (cin, cout))
    new = tuple(d.int(1, 8, "new") for _ in shp)
    if d.bool("same size in all directions") and cubic:
        new = (new[0],) * len(shp)
    K0 = K.copy()
    arg = new[0] if len(set(new)) == 1 and d.bool("integer") else new
    R = np.asarray(conv.resize_kernel_weights(jnp.asarray(K) if d.bool("jax") else K, arg))
    must(np.array_equal(K, K0), "resizing changed its argument")
    shape(R, new + (cin, cout), "resized kernel")
    close(R, resized(K, new), "resized kernel", atol=1e-12)
    if all(n >= s for n, s in zip(new, shp)):
        close(R.reshape(-1, cin, cout).sum(0), K.reshape(-1, cin, cout).sum(0), "total weight after enlarging", atol=1e-10)
    if all(s % 2 or n == s for n, s in zip(new, shp)):
        close(R[centre(new)], K[centre(shp)], "weight of the centre", atol=1e-12)
    if sym and cubic and len(set(new)) == 1 and all(n >= s or n % 2 for n, s in zip(new, shp)):
        for ax in range(len(new)):
            close(conv.flip_lattice(R, ax), R, "reflection symmetry after resizing", atol=1e-12)
        for a in range(len(new) - 1):
            close(np.swapaxes(R, a, a + 1), R, "permutation symmetry after resizing", atol=1e-12)
    return new != shp


def periodic(x, K, b, strides, dil, groups):
    """cross-correlation with periodic boundaries; kernel origin at its (dilated) centre"""
    lat, ks = x.shape[1:-1], K.shape[:-2]
    cin, cout = x.shape[-1], K.shape[-1]
    y = np.zeros(x.shape[:-1] + (cout,))
    gi, go = cin // groups, cout // groups
    for off in np.ndindex(*ks):
        s = tuple(-(dl * o - (dl * (k - 1)) // 2) for o, k, dl in zip(off, ks, dil))
        z = np.roll(x, s, tuple(range(1, 1 + len(lat))))
        for q in range(groups):
            y[..., q * go : (q + 1) * go] += z[..., q * gi : (q + 1) * gi] @ K[off][:, q * go : (q + 1) * go]
    y = y[(np.s_[:],) + tuple(np.s_[::st] for st in strides)]
    return y if b is None else y + b


@facet(quick=16, thorough=200, shards=4, tshards=8)
def convolution(d):
    ks = d.pick([k for k in KERNELS if np.prod(k) < 30], "kernel")
    r = len(ks)
    lat = tuple(k + d.int(0, 3, "L") for k in ks)
    cubic = len(set(ks)) == 1
    orbit = d.pick([conv.kernel_d4, conv.kernel_equidist, None] if cubic else [conv.kernel_equidist, None], "symmetry")
    g = d.gen("g")
    groups = d.pick([1, 1, 2], "groups")
    cin, cout = groups * d.int(1, 2, "in"), groups * d.int(1, 2, "out")
    bias, plain = d.bool("bias"), d.pick([True, True, False], "plain")
    strides, dil, kw = (1,) * r, (1,) * r, {}
    if not plain:
        if d.bool("strided"):
            strides = tuple(d.int(1, 2, "stride") for _ in range(r))
            kw["strides"] = strides
        elif all(dl * (k - 1) + 1 <= n for dl, k, n in zip((2,) * r, ks, lat)):
            dil = (2,) * r
            kw["kernel_dilation"] = dil
    mask = (g.uniform(size=ks + (cin // groups, cout)) < 0.7).astype(float) if not plain and d.bool("mask") else None
    if not (orbit is conv.kernel_d4 and d.bool("default symmetry")):
        kw["orbit_function"] = orbit
    size = ks[0] if r == 1 and d.bool("integer size") else ks
    c = conv.ConvSym(cin, cout, size, use_bias=bias, mask=None if mask is None else jnp.asarray(mask), feature_group_count=groups, rngs=nnx.Rngs(0), **kw)
    n_par = {None: int(np.prod(ks))}.get(orbit) or int(orbit(ks)[0])
    shape(c.kernel_params, (n_par, cin // groups, cout), "kernel parameters")
    p = g.standard_normal(c.kernel_params.shape)
    c.kernel_params = nnx.Param(jnp.asarray(p))
    b = None
    if bias:
        shape(c.bias, (cout,), "bias")
        b = g.standard_normal(cout)
        c.bias = nnx.Param(jnp.asarray(b))
    else:
        must(c.bias is None, "no bias requested")
    K = p[np.asarray(orbit(ks)[1])] if orbit is not None else p.reshape(ks + p.shape[1:])
    close(np.asarray(c.kernel.get_value()), K, "unfolded kernel", atol=0)
    if mask is not None:
        K = K * mask
    batch = d.pick([(3,), (), (2, 2), (1,)], "batch")
    x = g.standard_normal(batch + lat + (cin,))
    f = nnx.jit(lambda c, x: c(x)) if d.bool("jit") else (lambda c, x: c(x))
    y = f(c, jnp.asarray(x))
    want = periodic(x.reshape((-1,) + lat + (cin,)), K, b, strides, dil, groups)
    shape(y, batch + want.shape[1:], "output")
    y = np.asarray(y)
    close(y.reshape(want.shape), want, "periodic convolution", atol=1e-10, rtol=1e-10)
    if strides == (1,) * r:
        axes = tuple(range(len(batch), len(batch) + r))
        s = tuple(d.int(0, n - 1, "shift") for n in lat)
        close(f(c, jnp.asarray(np.roll(x, s, axes))), np.roll(y, s, axes), "translation", atol=1e-10, rtol=1e-9)
        if orbit is not None and mask is None and all(k % 2 for k in ks):
            ax = axes[d.int(0, r - 1, "axis")]
            flip = lambda z: np.roll(np.flip(z, ax), 1, ax)
            close(f(c, jnp.asarray(flip(x))), flip(y), "reflection", atol=1e-10, rtol=1e-9)
            if r > 1 and cubic and len(set(lat)) == 1:
                a, q = axes[0], axes[d.int(1, r - 1, "axis2")]
                close(f(c, jnp.asarray(np.swapaxes(x, a, q))), np.swapaxes(y, a, q), "axis exchange", atol=1e-10, rtol=1e-9)
    d.note(kernel=ks, lattice=lat, symmetry=getattr(orbit, "__name__", None), strides=strides, dilation=dil, groups=groups, mask=mask is not None)
    return np.prod(lat) > 1
