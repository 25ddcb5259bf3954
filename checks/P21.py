"""Cases: group sizes 2 to 6, batch and lattice shapes, random keys, explicit and stored random state.  Oracle: unitarity and
determinant to rounding; exact Haar values of moments (|tr U^k|^2 -> min(k, N), tr U^N -> (-1)^(N+1), entries), the law of a
matrix element, invariance under multiplication by fixed elements from both sides, independence across batch and links.
Non-trivial: all."""
import math

import bijx
import jax
import jax.numpy as jnp
import numpy as np
from bijx import lie
from flax import nnx

from vf import close, facet, fail, must, shape, stat

BATCH = [(), (1,), (3,), (2, 3), (2, 1, 2), (0,), (2, 0)]


def check_su(u, n, what):
    u = np.asarray(u).reshape(-1, n, n)
    if len(u):
        close(np.einsum("bij,bkj->bik", u, u.conj()), np.broadcast_to(np.eye(n), u.shape), f"{what}: unitary", rtol=0, atol=1e-12 * n)
        close(np.linalg.det(u), np.ones(len(u)), f"{what}: determinant", rtol=0, atol=1e-11 * n)


@facet(quick=60, thorough=600)
def elements(d):
    n, batch = d.int(2, 6, "n"), d.pick(BATCH, "batch")
    key = d.key()
    u = lie.sample_haar(key, n, batch)
    shape(u, batch + (n, n), "sampled matrices")
    must(np.iscomplexobj(np.asarray(u)), "sampled matrices are complex")
    check_su(u, n, f"SU({n})")
    close(lie.sample_haar(key, n=n, batch_shape=batch), np.asarray(u), "a function of the key", rtol=0, atol=1e-13)
    flat = np.asarray(u).reshape(-1, n, n)
    for i in range(len(flat)):
        for j in range(i):
            must(np.abs(flat[i] - flat[j]).max() > 1e-6, "equal matrices within a batch", i=i, j=j)
    other = lie.sample_haar(jax.random.fold_in(key, 1), n, batch)
    if flat.size:
        must(np.abs(np.asarray(other) - np.asarray(u)).reshape(len(flat), -1).max(-1) > 1e-6, "equal matrices for different keys")
    d.note(n=n, batch=batch)
    return flat.size > 0


@facet(quick=30, thorough=300)
def distribution(d):
    n = d.int(2, 4, "n")
    base, batch = d.pick([(), (3,), (2, 2), (3, 1, 2)], "base"), d.pick(BATCH, "batch")
    seed = d.int(0, 10**6, "rngs")
    if d.bool("lattice"):
        lat = d.pick([(2,), (2, 3), (1, 2, 2), (3, 2), (2, 3, 1), (4, 1, 2)], "lattice shape")
        base = lat + (len(lat),)
        make = lambda: lie.HaarDistribution.periodic_gauge_lattice(n, lat, rngs=nnx.Rngs(seed))
    else:
        make = lambda: lie.HaarDistribution(n, base, rngs=nnx.Rngs(seed))
    dist, twin = make(), make()
    must(tuple(dist.event_shape) == base + (n, n), "event shape", got=dist.event_shape, want=base + (n, n))
    must(isinstance(dist, bijx.Distribution) and tuple(dist.base_shape) == base and dist.n == n, "description")
    key = d.key()
    u, ld = dist.sample(batch, rng=key)
    shape(u, batch + base + (n, n), "samples"), shape(ld, batch, "log-density of samples")
    close(ld, np.zeros(batch), "log-density of samples", rtol=0, atol=0)
    check_su(u, n, "samples")
    got = dist.log_density(u)
    shape(got, batch, "log-density"), close(got, np.zeros(batch), "log-density", rtol=0, atol=0)
    close(dist.density(u, some=1), np.ones(batch), "density", rtol=0, atol=0)
    must(tuple(dist.get_batch_shape(u)) == batch, "batch shape", got=dist.get_batch_shape(u), want=batch)
    close(dist.sample(batch, rng=key)[0], np.asarray(u), "a function of the key", rtol=0, atol=1e-13)
    a = [np.asarray(dist.sample(batch)[0]) for _ in range(2)]
    b = [np.asarray(twin.sample(batch)[0]) for _ in range(2)]
    flat = np.concatenate([v.reshape(-1, n, n) for v in a] + [np.asarray(u).reshape(-1, n, n)])
    for i in range(len(flat)):
        must(np.abs(flat[:i] - flat[i]).reshape(i, -1).max(-1, initial=1 if i == 0 else 0) > 1e-6 if i else True, "equal links", i=i)
    for x, y in zip(a, b):
        close(y, x, "stored random state: reproducible", rtol=0, atol=1e-13)
    one, l1 = dist.sample(rng=key)
    shape(one, base + (n, n), "single sample"), shape(l1, (), "log-density of a single sample")
    d.note(n=n, base=base, batch=batch)
    return flat.size > 0


def moments(u, n, what):
    """u (m, n, n): exact Haar moments"""
    m = len(u)
    p, t = u, []
    for k in range(1, n + 2):
        t.append(np.trace(p, axis1=-2, axis2=-1))
        p = p @ u
    t = np.array(t)
    for k in range(1, n + 2):
        stat.mean_zero(np.abs(t[k - 1]) ** 2 - min(k, n), f"{what}: mean of |tr U^{k}|^2")
        want = (-1) ** (n + 1) if k == n else 0.0
        stat.mean_zero(t[k - 1] - want, f"{what}: mean of tr U^{k}")
    stat.mean_zero(np.abs(t[0]) ** 4 - 2.0, f"{what}: mean of |tr U|^4")
    stat.mean_zero(t[0] ** n - 1.0, f"{what}: mean of (tr U)^{n}")
    if n > 2:
        stat.mean_zero(t[0] ** 2, f"{what}: mean of (tr U)^2")
    stat.mean_zero(u, f"{what}: mean of the entries")
    stat.mean_zero(np.abs(u) ** 2 - 1 / n, f"{what}: mean of squared entries")
    if n > 2:
        stat.mean_zero(u[:, 0, 0] * u[:, 1, 1], f"{what}: product of diagonal entries")
    else:
        stat.mean_zero(u[:, 0, 0] - u[:, 1, 1].conj(), f"{what}: conjugate diagonal")
    for i, j in [(0, 0), (n - 1, 0), (0, n - 1), (n - 1, n - 1)]:
        stat.ks_uniform(1 - (1 - np.clip(np.abs(u[:, i, j]) ** 2, 0, 1)) ** (n - 1), f"{what}: law of |U_{i}{j}|^2")
        stat.ks_uniform(np.angle(u[:, i, j]) / (2 * np.pi) + 0.5, f"{what}: law of the phase of U_{i}{j}")
    if n == 2:
        c = np.clip(t[0].real / 2, -1, 1)
        stat.ks_uniform(1 - (np.arccos(c) - c * np.sqrt(1 - c * c)) / np.pi, f"{what}: semicircle law of the trace")


@facet(quick=14, thorough=150, shards=2, tshards=4)
def law(d):
    n = d.pick([2, 2, 3, 3, 4, 5], "n")
    m = 12000
    batch = d.pick([(m,), (m // 3, 3), (2, m // 4, 2)], "batch")
    key = d.key()
    via = d.pick(["function", "distribution", "links"], "via")
    if via == "function":
        u = lie.sample_haar(key, n, batch)
    elif via == "distribution":
        u, _ = lie.HaarDistribution(n).sample(batch, rng=key)
    else:
        u, _ = lie.HaarDistribution.periodic_gauge_lattice(n, (2, 3)).sample((m // 12,), rng=key)
    u = np.asarray(u).reshape(m, n, n)
    check_su(u, n, "samples")
    moments(u, n, f"SU({n})")
    g = d.gen()
    a, r = np.linalg.qr(g.standard_normal((n, n)) + 1j * g.standard_normal((n, n)))
    a = a / np.linalg.det(a) ** (1 / n)
    moments(a @ u, n, f"SU({n}), multiplied from the left")
    moments(u @ a, n, f"SU({n}), multiplied from the right")
    moments(u.conj().swapaxes(-1, -2), n, f"SU({n}), inverse")
    feats = np.stack([u[:, 0, 0].real, u[:, 0, 0].imag, u[:, 0, -1].real, u[:, -1, 0].imag, np.trace(u, axis1=-2, axis2=-1).real], -1)
    z = (feats - feats.mean(0)) / feats.std(0)
    for lag in (1, 2, 3, 6, 12, m // 2):
        stat.mean_zero((z[:-lag, :, None] * z[lag:, None, :]).reshape(m - lag, -1), f"matrices {lag} apart are independent")
        # relative rotations of independent elements are Haar again
        w = np.einsum("bij,bkj->bik", u[:-lag:], u[lag:].conj())
        stat.mean_zero(np.abs(np.trace(w, axis1=-2, axis2=-1)) ** 2 - 1, f"relative elements {lag} apart")
    d.note(n=n, batch=batch, via=via)
