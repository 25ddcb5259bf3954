"""Cases: group sizes 2 to 5, angles (random, coinciding, large), batch shapes, grid sizes, class functions, normalisation
domains.  Oracle: explicit product formula; integration of trigonometric polynomials, which is exact on the grids used;
eigenvalues from numpy; exact Haar averages of class functions.  Non-trivial: generic angles."""
import math
from itertools import permutations

import jax
import jax.numpy as jnp
import numpy as np
from bijx import lie

from vf import close, facet, must, shape

BATCH = [(), (3,), (2, 3), (1,), (2, 1, 2)]


def complete(a):
    return np.concatenate([a, -a.sum(-1, keepdims=True)], -1)


def vandermonde(a):
    e = np.exp(1j * complete(a))
    out = np.ones(a.shape[:-1])
    for i in range(e.shape[-1]):
        for j in range(i):
            out = out * np.abs(e[..., i] - e[..., j]) ** 2
    return out


@facet(quick=80, thorough=800)
def density(d):
    n, batch = d.int(2, 5, "n"), d.pick(BATCH, "batch")
    g = d.gen()
    a = g.uniform(-np.pi, np.pi, batch + (n - 1,)) * d.pick([1.0, 0.05, 4.0], "scale")
    got = lie.compute_haar_density(jnp.asarray(a))
    shape(got, batch, "density")
    want = vandermonde(a)
    close(got, want, "density", rtol=1e-9, atol=1e-12)
    perm = g.permutation(n)
    close(lie.compute_haar_density(jnp.asarray(complete(a)[..., perm][..., :-1])), want, "density under a permutation of the eigenvalues", rtol=1e-8, atol=1e-11)
    close(lie.compute_haar_density(jnp.asarray(-a)), want, "density under inversion", rtol=1e-8, atol=1e-11)
    shift = 2 * np.pi * g.integers(-2, 3, n - 1)
    close(lie.compute_haar_density(jnp.asarray(a + shift)), want, "density is periodic", rtol=1e-7, atol=1e-11)
    b = a.copy()
    kind = d.pick(["two equal", "constraint"], "coincidence")
    if kind == "two equal" and n > 2:
        b[..., 1] = b[..., 0] + 2 * np.pi * d.int(-1, 1, "turns")
    else:  # one eigenvalue equal to the last one
        b[..., 0] = -b[..., 1:].sum(-1) / 2 + np.pi * d.int(0, 1, "turn")
    close(lie.compute_haar_density(jnp.asarray(b)), np.zeros(batch), "density at coinciding eigenvalues", rtol=0, atol=1e-9)
    d.note(n=n, batch=batch)


@facet(quick=60, thorough=600)
def matrices(d):
    n, batch = d.int(2, 5, "n"), d.pick(BATCH + [(0,)], "batch")
    g = d.gen()
    a = g.uniform(-np.pi, np.pi, batch + (n - 1,)) * d.pick([1.0, 0.1, 3.0], "scale")
    if d.bool("coinciding") and n > 2:
        a[..., 1] = a[..., 0]
    key = d.key()
    u = np.asarray(lie.construct_su_matrix_from_eigenvalues(key, jnp.asarray(a)))
    shape(u, batch + (n, n), "matrices")
    if not u.size:
        return False
    close(np.einsum("...ij,...kj->...ik", u, u.conj()), np.broadcast_to(np.eye(n), u.shape), "unitary", rtol=0, atol=1e-11)
    close(np.linalg.det(u), np.ones(batch), "determinant", rtol=0, atol=1e-11)
    e = np.exp(1j * complete(a))
    for k in range(1, n + 1):  # power sums determine the eigenvalues
        close(np.trace(np.linalg.matrix_power(u, k), axis1=-2, axis2=-1), (e**k).sum(-1), f"power sum {k} of the eigenvalues", rtol=0, atol=1e-10 * k)
    close(np.asarray(lie.construct_su_matrix_from_eigenvalues(key, jnp.asarray(a))), u, "same key, same matrices", rtol=0, atol=1e-12)
    flat, fa = u.reshape(-1, n, n), a.reshape(-1, n - 1)
    same = np.broadcast_to(fa[:1], fa.shape)
    v = np.asarray(lie.construct_su_matrix_from_eigenvalues(key, jnp.asarray(same)))
    gap = min(abs(x - y) for i, x in enumerate(e.reshape(-1, n)[0]) for y in e.reshape(-1, n)[0][:i])
    if gap > 0.05:
        for i in range(len(v)):
            for j in range(i):
                must(np.abs(v[i] - v[j]).max() > 1e-5, "independent eigenvectors across the batch")
        w = np.asarray(lie.construct_su_matrix_from_eigenvalues(jax.random.fold_in(key, 1), jnp.asarray(same)))
        must(np.abs(w - v).max() > 1e-5, "eigenvectors depend on the key")
    d.note(n=n, batch=batch)


def power_sums(u):
    out, p = [], u
    for k in range(3):
        out.append(jnp.trace(p, axis1=-2, axis2=-1))
        p = p @ u
    return out


@facet(quick=40, thorough=400)
def grids(d):
    """grid shape and range, pointwise values, integrals of class functions against their exact Haar averages"""
    n = d.pick([2, 3, 4], "n")
    g = d.int({2: 5, 3: 12, 4: 15}[n], {2: 41, 3: 21, 4: 17}[n], "grid points")
    domain = d.pick(["torus", "weyl_chamber"], "domain")
    normalize = d.bool("normalize")
    grid = np.asarray(lie.create_eigenvalue_grid(n, g))
    shape(grid, (g,) * (n - 1) + (n - 1,), "grid")
    axis = grid[(slice(None),) + (0,) * (n - 2) + (0,)]
    close(np.diff(axis), np.full(g - 1, 2 * np.pi / g), "grid spacing", rtol=1e-9)
    must((grid > -np.pi + 1e-6) & (grid <= np.pi + 1e-9), "the grid avoids the boundary of its range", min=grid.min(), max=grid.max())
    for k in range(n - 1):
        line = np.moveaxis(grid[..., k], k, -1)
        close(line, np.broadcast_to(axis, line.shape), f"axis {k} of the grid varies along array axis {k}", rtol=1e-12, atol=1e-12)
    fn_name = d.pick(["one", "tr2", "tr4", "retr2", "mixed"], "function")
    fns = {
        "one": (lambda u: jnp.ones(u.shape[:-2]), 1.0),
        "tr2": (lambda u: jnp.abs(power_sums(u)[0]) ** 2, 1.0),
        "tr4": (lambda u: jnp.abs(power_sums(u)[0]) ** 4, 2.0),
        "retr2": (lambda u: jnp.real(power_sums(u)[1]), -1.0 if n == 2 else 0.0),
        "mixed": (lambda u: jnp.abs(power_sums(u)[1]) ** 2 + 3 * jnp.real(power_sums(u)[0]), float(min(2, n))),
    }
    fn, mean = fns[fn_name]
    key = d.pick([None, "key"], "rng") and d.key()
    kw = {} if key is None else dict(rng=key)
    a, val, w = lie.evaluate_density_on_eigenvalue_grid(fn, n, grid_points=g, normalize=normalize, normalization_domain=domain, **kw)
    shape(a, (g ** (n - 1), n - 1), "angles"), shape(val, (g ** (n - 1),), "values"), shape(w, (g ** (n - 1),), "weights")
    close(a, grid.reshape(-1, n - 1), "angles are those of the grid", rtol=1e-12, atol=1e-12)
    e = np.exp(1j * complete(np.asarray(a)))
    p = [(e**k).sum(-1) for k in (1, 2)]
    ref = {"one": np.ones(len(e)), "tr2": np.abs(p[0]) ** 2, "tr4": np.abs(p[0]) ** 4, "retr2": p[1].real, "mixed": np.abs(p[1]) ** 2 + 3 * p[0].real}[fn_name]
    close(val, ref, "values at the grid points", rtol=1e-9, atol=1e-9)
    norm = 1.0 if not normalize else (2 * np.pi) ** (n - 1) * (math.factorial(n) if domain == "torus" else 1)
    close(w, vandermonde(np.asarray(a)) / norm, "weights at the grid points", rtol=1e-8, atol=1e-11)
    total = (2 * np.pi / g) ** (n - 1) * np.sum(np.asarray(val) * np.asarray(w))
    # all degrees stay below the number of grid points: the sum is the exact integral
    deg = 2 * (n - 1) + {"one": 0, "tr2": 2, "tr4": 4, "retr2": 4, "mixed": 4}[fn_name]
    if g > deg + 1:
        full = {True: {"torus": 1.0, "weyl_chamber": math.factorial(n)}[domain], False: (2 * np.pi) ** (n - 1) * math.factorial(n)}[normalize]
        close(total, mean * full, "integral over the torus", rtol=1e-9, atol=1e-9 * full)
    d.note(n=n, grid=g, function=fn_name, domain=domain, normalize=normalize)
    return g > deg + 1


@facet(quick=20, thorough=100)
def arguments(d):
    """invalid group sizes and domains are rejected; the default normalisation is that of one chamber"""
    n = d.int(2, 3, "n")
    one = lambda u: jnp.ones(u.shape[:-2])
    ang, _, w = lie.evaluate_density_on_eigenvalue_grid(one, n, 6)
    close(w, vandermonde(np.asarray(ang)) / (2 * np.pi) ** (n - 1), "default weights", rtol=1e-9, atol=1e-12)
    for bad in [lambda: lie.create_eigenvalue_grid(d.int(-1, 1, "bad n")), lambda: lie.evaluate_density_on_eigenvalue_grid(one, 2, 4, normalization_domain="other")]:
        try:
            bad()
        except ValueError:
            continue
        must(False, "invalid argument accepted")
    return True
