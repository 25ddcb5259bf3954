"""Cases: ensembles of scalar fields on lattices of rank 1 to 4 with odd, even, unequal and unit extents; real, complex and
integer fields of several magnitudes; pairs of distinct fields; sums of outer products; polynomial coefficient lists of any
length; couplings given as python or array scalars; translations, flips and axis permutations.  Oracle: explicit loops over
lattice sites in numpy.  Non-trivial: more than one site and a field that is neither constant nor symmetric."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from bijx.lattice import scalar

from vf import close, facet, must, shape

KW = dict(rtol=1e-10, atol=1e-11)


def draw_lattice(d, lo=1, hi=4, maxsites=64):
    rank = d.int(lo, hi, "rank")
    lat, n = [], 1
    for _ in range(rank):
        k = d.int(1, max(1, min(7, maxsites // n)), "extent")
        lat.append(k)
        n *= k
    return tuple(lat)


def draw_field(d, g, shp, cplx=True):
    kind = d.pick(["real", "complex", "int", "offset"] if cplx else ["real", "offset"], "field")
    x = g.standard_normal(shp)
    if kind == "complex":
        x = x + 1j * g.standard_normal(shp)
    elif kind == "offset":
        x = x * 0.3 + 1.7
    elif kind == "int":
        x = np.round(3 * x)
    return x * d.pick([1.0, 1.0, 10.0, 0.01], "magnitude"), kind


def sites(lat):
    return itertools.product(*[range(n) for n in lat])


def plus(x, y, lat):
    return tuple((a + b) % n for a, b, n in zip(x, y, lat))


def corr_tensor(a, b):
    """T[x + y] = a(y) b(y + x)"""
    lat = a.shape
    t = np.zeros(lat + lat, dtype=np.result_type(a, b))
    for x in sites(lat):
        for y in sites(lat):
            t[x + y] = a[y] * b[plus(y, x, lat)]
    return t


def scale2(a, b):
    return float(np.abs(a).max() * np.abs(b).max())


def run(d, f, *args):
    """eagerly or inside an enclosing transformation"""
    if d.bool("jit"):
        return jax.jit(f)(*args)
    return f(*args)


@facet(60, 1200, shards=1)
def correlators(d):
    lat = draw_lattice(d)
    g = d.gen().spawn(1)[0]
    a, _ = draw_field(d, g, lat)
    same = d.bool("same")
    b = a if same else draw_field(d, g, lat)[0]
    t = corr_tensor(a, b)
    n = int(np.prod(lat))
    r = len(lat)
    ref = t.reshape(lat + (n,)).sum(-1) / n
    kw = dict(rtol=1e-10, atol=1e-11 * max(1e-30, scale2(a, b)))
    close(scalar.cyclic_tensor(jnp.asarray(a), jnp.asarray(b)), t, "cyclic_tensor", **kw)
    close(run(d, scalar.cyclic_corr, jnp.asarray(a), jnp.asarray(b)), ref, "cyclic_corr", **kw)
    outer = np.multiply.outer(a, b)
    if d.bool("sum of outer products"):
        a2, b2 = draw_field(d, g, lat)[0], draw_field(d, g, lat)[0]
        outer = outer + np.multiply.outer(a2, b2)
        ref = ref + corr_tensor(a2, b2).reshape(lat + (n,)).sum(-1) / n
        kw["atol"] += 1e-11 * scale2(a2, b2)
    close(run(d, scalar.cyclic_corr_mat, jnp.asarray(outer)), ref, "cyclic_corr_mat", **kw)
    # translating both fields changes nothing, translating the second one shifts the argument
    s = tuple(d.int(0, k - 1, "shift") for k in lat)
    ax = tuple(range(r))
    sa, sb = np.roll(a, s, ax), np.roll(b, s, ax)
    c = t.reshape(lat + (n,)).sum(-1) / n
    close(scalar.cyclic_corr(jnp.asarray(sa), jnp.asarray(sb)), c, "cyclic_corr of translated fields", **kw)
    close(scalar.cyclic_corr(jnp.asarray(a), jnp.asarray(sb)), np.roll(c, s, ax), "cyclic_corr, second field translated", **kw)
    return n > 1


@facet(60, 1200)
def ensembles(d):
    lat = draw_lattice(d, 1, 4, 36)
    nb = d.int(1, 5, "samples")
    g = d.gen().spawn(1)[0]
    phis, kind = draw_field(d, g, (nb,) + lat)
    n = int(np.prod(lat))
    per = np.array([corr_tensor(p, p).reshape(lat + (n,)).sum(-1) / n for p in phis])
    kw = dict(rtol=1e-10, atol=1e-11 * max(1e-30, scale2(phis, phis)))
    j = jnp.asarray(phis)
    close(scalar.two_point(j, average=False), per, "two_point(average=False)", **kw)
    close(scalar.two_point(j), per.mean(0), "two_point", **kw)
    close(scalar.two_point(j, True), per.mean(0), "two_point(True)", **kw)
    if kind != "complex":
        # <phi(0) phi(x)> - <phi(0)><phi(x)>, the reference point averaged over the lattice
        m = phis.mean(0)
        ref = per.mean(0) - m * m.mean()
        mc = corr_tensor(m, m).reshape(lat + (n,)).sum(-1) / n
        alt = per.mean(0) - mc
        got = np.asarray(scalar.two_point_central(j))
        shape(got, lat, "two_point_central")
        # the reference point can be averaged over the lattice in either of these ways
        ok = np.abs(got - ref) <= kw["atol"] + 1e-10 * np.abs(ref)
        ok2 = np.abs(got - alt) <= kw["atol"] + 1e-10 * np.abs(alt)
        must(ok.all() or ok2.all(), "two_point_central differs from the connected function", got=got, want=ref)
        # closing the ensemble under translations removes the ambiguity
        ax = tuple(range(len(lat)))
        full = np.array([np.roll(p, s, ax) for p in phis for s in sites(lat)])
        want = per.mean(0) - phis.mean() ** 2
        close(scalar.two_point_central(jnp.asarray(full)), want, "two_point_central of a translation-closed ensemble", **kw)
        # zero for an ensemble of one constant field, unaffected by a constant added to a translation-closed ensemble
        c = d.float(-3, 3, "constant")
        close(
            scalar.two_point_central(jnp.asarray(full + c)), want, "two_point_central with a constant added",
            rtol=1e-9, atol=1e-11 * (np.abs(full).max() + abs(c)) ** 2,
        )
    return n > 1 and nb > 1


@facet(60, 1200)
def correlation_length(d):
    t = d.int(4, 16, "time extent")
    sp = d.int(1, 6, "spatial extent")
    g = d.gen().spawn(1)[0]
    xi = d.float(0.3, 4.0, "xi")
    amp = d.pick([1.0, 1e-3, 40.0, -2.0], "amplitude")
    marg = amp * np.cosh((np.arange(t) - t / 2) / xi) / np.cosh(t / 2 / xi)
    w = g.standard_normal((sp, t))
    corr = marg * (1 + (w - w.mean(0)))
    exact = bool(np.abs(np.cosh(1 / xi) - 1) > 1e-3)
    got = run(d, scalar.correlation_length, jnp.asarray(corr))
    shape(got, (), "correlation length")
    # the weights sum to one up to rounding, which the quotient may amplify
    close(got, xi, "correlation length of a pure cosh correlator", rtol=1e-6, atol=1e-9)
    # mixed or noisy correlator: the estimator's formula
    mix = np.abs(marg + amp * d.float(0.1, 0.8, "noise") * g.uniform(0, 1, t) + amp)
    arg = (np.roll(mix, 1) + np.roll(mix, -1)) / (2 * mix)
    arg = arg[1:]
    if np.abs(arg - 1).min() > 1e-3 and (arg > 1).any():
        want = 1 / np.mean(np.arccosh(arg[arg > 1]))
        c2 = mix * (1 + (w - w.mean(0)))
        close(scalar.correlation_length(jnp.asarray(c2)), want, "correlation length estimator", rtol=1e-6)
    return sp > 1 and exact


def neighbours(phi, sign):
    """sum over directions of f(x, mu) for neighbours x + sign*mu"""
    lat = phi.shape
    r = len(lat)
    kin = np.zeros(lat, dtype=phi.dtype)
    hop = np.zeros(lat, dtype=phi.dtype)
    for x in sites(lat):
        for mu in range(r):
            e = tuple(sign * (i == mu) for i in range(r))
            y = phi[plus(x, e, lat)]
            kin[x] += (y - phi[x]) ** 2
            hop[x] += phi[x] * y
    return kin, hop


def either(got, a, b, what, atol):
    shape(got, a.shape, what)
    got = np.asarray(got)
    ok = [bool(np.all(np.abs(got - w) <= atol + 1e-10 * np.abs(w))) for w in (a, b)]
    must(any(ok), f"{what} differs from its defining local formula", got=got, want=a)


def coupling(d, v):
    return d.pick([float, jnp.asarray, np.float64], "number type")(v)


@facet(80, 1500)
def action_terms(d):
    lat = draw_lattice(d)
    g = d.gen().spawn(1)[0]
    phi, kind = draw_field(d, g, lat)
    j = jnp.asarray(phi)
    s = float(np.abs(phi).max())
    f_, b_ = neighbours(phi, 1), neighbours(phi, -1)
    at = 1e-11 * max(1e-30, s * s)
    either(run(d, scalar.kinetic_term, j), f_[0], b_[0], "kinetic_term", at)
    m2 = d.float(-4, 4, "m2")
    lam = None if d.bool("no quartic term") else d.float(-2, 2, "lam")
    pot = m2 * phi**2 + (0 if lam is None else lam * phi**4)
    at4 = 1e-11 * max(1e-30, s * s * (1 + abs(m2)) + s**4)
    args = [j, coupling(d, m2)] + ([] if lam is None else [coupling(d, lam)])
    form = d.pick(["positional", "keyword", "explicit none"], "call form")
    if form == "keyword":
        kw = dict(m2=args[1])
        if lam is not None:
            kw["lam"] = args[2]
        dens = scalar.phi4_term(j, **kw)
    elif form == "explicit none" and lam is None:
        dens = scalar.phi4_term(j, args[1], None)
    else:
        dens = run(d, scalar.phi4_term, *args)
    either(dens, f_[0] + pot, b_[0] + pot, "phi4_term", at4)
    close(np.asarray(dens).sum(), (f_[0] + pot).sum(), "phi4 action", rtol=1e-10, atol=at4 * phi.size)
    kappa = d.float(-1, 1, "kappa")
    lm = 0 if lam is None else lam
    pot2 = (1 - 2 * lm) * phi**2 + lm * phi**4
    args = [j, coupling(d, kappa)] + ([] if lam is None else [coupling(d, lam)])
    if form == "keyword":
        kw = dict(kappa=args[1])
        if lam is not None:
            kw["lam"] = args[2]
        dens2 = scalar.phi4_term_alt(j, **kw)
    else:
        dens2 = run(d, scalar.phi4_term_alt, *args)
    either(dens2, -2 * kappa * f_[1] + pot2, -2 * kappa * b_[1] + pot2, "phi4_term_alt", at4)
    # both parametrisations describe the same theory: sum of nearest neighbour products
    if kind != "complex":
        r = len(lat)
        lhs = np.asarray(scalar.kinetic_term(j)).sum()
        rhs = np.asarray(scalar.phi4_term_alt(j, 1.0)).sum() + (2 * r - 1) * (phi**2).sum()
        close(lhs, rhs, "kinetic term versus hopping form", rtol=1e-9, atol=1e-10 * phi.size * s * s)
    return phi.size > 1


@facet(80, 1500)
def polynomial(d):
    lat = draw_lattice(d)
    g = d.gen().spawn(1)[0]
    phi, _ = draw_field(d, g, lat)
    n = d.int(1, 6, "coefficients")
    c = d.floats(-2, 2, n, "coeffs")
    even = d.bool("even")
    ref = np.zeros_like(phi)
    mag = 0.0
    for i, ci in enumerate(c):
        p = (n - i) * (2 if even else 1)
        ref = ref + ci * phi**p
        mag = mag + abs(ci) * np.abs(phi) ** p
    cs = jnp.asarray(c) if d.bool("array") else np.asarray(c)
    if not even and d.bool("omit even"):
        got = scalar.poly_term(jnp.asarray(phi), cs)
    else:
        got = scalar.poly_term(jnp.asarray(phi), cs, even)
    close(got, ref, "poly_term", rtol=0, atol=1e-12 + 1e-11 * mag)
    if even:
        close(scalar.poly_term(-jnp.asarray(phi), cs, True), ref, "even poly_term of -phi", rtol=0, atol=1e-12 + 1e-11 * mag)
    return n > 1 or even


@facet(60, 1200)
def symmetries(d):
    lat = draw_lattice(d)
    r = len(lat)
    g = d.gen().spawn(1)[0]
    phi, _ = draw_field(d, g, lat)
    m2, lam, kappa = d.float(-2, 2, "m2"), d.float(-1, 1, "lam"), d.float(-1, 1, "kappa")
    cf = np.array(d.floats(-2, 2, 3, "coeffs"))
    fs = dict(
        kinetic=scalar.kinetic_term,
        phi4=lambda x: scalar.phi4_term(x, m2, lam),
        phi4_alt=lambda x: scalar.phi4_term_alt(x, kappa, lam),
        poly=lambda x: scalar.poly_term(x, cf, True),
        free=lambda x: scalar.phi4_term(x, m2),
    )
    name = d.pick(list(fs), "term")
    f = fs[name]
    s = float(np.abs(phi).max())
    at = 1e-10 * (1 + s**2 + s**6) * phi.size
    base = np.asarray(f(jnp.asarray(phi)))
    perm = tuple(np.argsort(d.floats(0, 1, r, "perm"), kind="stable").tolist())
    flips = tuple(i for i in range(r) if d.bool("flip"))
    sh = tuple(d.int(0, k - 1, "shift") for k in lat)
    ax = tuple(range(r))
    moved = np.roll(np.flip(np.transpose(phi, perm), flips), [sh[p] for p in perm], ax)
    close(np.asarray(f(jnp.asarray(moved))).sum(), base.sum(), f"{name}: action of the transformed field", rtol=1e-10, atol=at)
    rolled = np.roll(phi, sh, ax)
    close(f(jnp.asarray(rolled)), np.roll(base, sh, ax), f"{name}: density of the translated field", rtol=1e-10, atol=at)
    pt = np.transpose(phi, perm)
    close(f(jnp.asarray(pt)), np.transpose(base, perm), f"{name}: density of the axis-permuted field", rtol=1e-10, atol=at)
    close(f(-jnp.asarray(phi)), base, f"{name}: density of -phi", rtol=1e-10, atol=at)
    # batches through vmap
    two = jnp.stack([jnp.asarray(phi), jnp.asarray(rolled)])
    close(jax.vmap(f)(two), np.stack([base, np.roll(base, sh, ax)]), f"{name}: vmap", rtol=1e-10, atol=at)
    # the force is the gradient of the sum
    if not np.iscomplexobj(phi):
        v = g.standard_normal(lat)
        _, dv = jax.jvp(lambda x: f(x).sum(), (jnp.asarray(phi),), (jnp.asarray(v),))
        gr = jax.grad(lambda x: f(x).sum())(jnp.asarray(phi))
        close(np.sum(np.asarray(gr) * v), dv, f"{name}: gradient", rtol=1e-8, atol=at)
    return phi.size > 1 and len(set(lat)) > 0 and any(sh)
