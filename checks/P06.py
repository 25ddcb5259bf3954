"""Cases: masks of any event shape (sizes one included) built from indices in any order, from boolean arrays, with
given complements, flipped any number of times, or checkerboards of either parity; arrays with batch and extra
channel dimensions, several dtypes.  Oracle: numpy index arithmetic; element identity is tracked with
pairwise distinct array entries.  Non-trivial: both parts are non-empty."""
import numpy as np

import bijx
import jax.numpy as jnp
from vf import facet, must, shape

EVENTS = [(4,), (2, 3), (5,), (3, 3), (2, 2, 2), (1,), (1, 4), (3, 1, 2), (2, 1, 2, 2), (7,), (16, 17)]


def eq(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    shape(a, b.shape, what)
    must(np.array_equal(a, b), f"{what}: entries differ", got=a, want=b)


@facet(quick=120, thorough=3000, shards=3, tshards=4)
def masks(d):
    ev = d.pick(EVENTS, "event")
    g = d.gen("g")
    n = int(np.prod(ev))
    how = d.pick(["boolean", "indices", "checker", "init"], "built from")
    parity = d.bool("parity")
    if how == "checker":
        m = bijx.checker_mask(ev if d.bool("tuple") else list(ev), d.pick([parity, int(parity), np.int64(parity)], "parity type"))
        full = (np.indices(ev).sum(0) + parity) % 2 == 1
        must(bool(np.asarray(m.boolean_mask)[(0,) * len(ev)]) == parity, "checker_mask: parity of the first site")
        b = np.asarray(m.boolean_mask)
        for ax in range(len(ev)):
            must(np.all(np.diff(b.astype(int), axis=ax) != 0), "checker_mask: neighbouring sites agree", axis=ax)
    else:
        full = np.zeros(ev, bool)
        k = d.int(0, n, "count")
        full.reshape(-1)[g.permutation(n)[:k]] = True
        if how == "boolean":
            m = bijx.BinaryMask.from_boolean_mask(full if d.bool("numpy") else jnp.asarray(full))
        else:
            ind = np.where(full)
            if d.bool("shuffle"):
                p = g.permutation(k)
                ind = tuple(i[p] for i in ind)
            if how == "indices":
                m = bijx.BinaryMask.from_indices(ind, ev)
            else:
                m = bijx.BinaryMask(ind, ev, masks=(jnp.asarray(full), jnp.asarray(~full)))
    flips = d.int(0, 3, "flips")
    for _ in range(flips):
        a = m
        m = ~m if d.bool("op") else m.flip()
        eq(m.primary_indices, a.secondary_indices, "flip: primary indices")
        eq(m.secondary_indices, a.primary_indices, "flip: secondary indices")
        full = ~full
    eq(m.boolean_mask, full, "boolean mask")
    eq(m.masks[1], ~full, "complement")
    must(tuple(m.event_shape) == tuple(ev), "event shape")
    must(int(m.count_primary) == full.sum() and int(m.count_secondary) == (~full).sum() and tuple(map(int, m.counts)) == (full.sum(), (~full).sum()), "counts")
    must(int(m.event_size) == n, "event size")
    # split: array of distinct entries
    extra = d.int(0, 2, "channel dims")
    batch = d.pick([(), (3,), (3, 2), tuple(ev)], "batch")
    ch = (2, 3)[:extra]
    dt = d.pick([np.float64, np.float32, np.int64, np.complex128, np.bool_], "dtype")
    shp = batch + tuple(ev) + ch
    x = np.arange(1, 1 + int(np.prod(shp))).reshape(shp).astype(dt)
    if dt is np.bool_:
        x = g.random(shp) < 0.5
    if dt is np.complex128:
        x = x * (1 + 2j)
    xin = jnp.asarray(x) if d.bool("jax array") else x
    P, S = m.split(xin, extra) if d.bool("positional") else m.split(xin, extra_channel_dims=extra)
    shape(P, batch + (int(full.sum()),) + ch, "primary part"), shape(S, batch + (int((~full).sum()),) + ch, "secondary part")
    ip, is_ = tuple(np.asarray(i) for i in m.primary_indices), tuple(np.asarray(i) for i in m.secondary_indices)
    pos = np.concatenate([np.ravel_multi_index(ip, ev), np.ravel_multi_index(is_, ev)]) if n else np.zeros(0)
    must(np.array_equal(np.sort(pos), np.arange(n)), "the two parts do not contain each element exactly once", positions=pos)
    must(np.all(full[ip]) and not np.any(full[is_]), "indices disagree with the boolean mask")
    flat = x.reshape(batch + (n,) + ch)
    k = len(ip[0])
    eq(P, np.take(flat, pos[:k].astype(int), axis=len(batch)), "primary part")
    eq(S, np.take(flat, pos[k:].astype(int), axis=len(batch)), "secondary part")
    back = m.merge(jnp.asarray(P), jnp.asarray(S), extra)
    eq(back, x, "merge(split(x))")
    must(np.asarray(back).dtype == np.asarray(x).dtype, "dtype changed by merge")
    # indices()
    eq(np.asarray(x)[tuple(np.asarray(i) if hasattr(i, "shape") else i for i in m.indices(extra))], np.asarray(P), "x[indices()]")
    eq(np.asarray(x)[tuple(np.asarray(i) if hasattr(i, "shape") else i for i in m.indices(extra, primary=False))], np.asarray(S), "x[indices(primary=False)]")
    if batch == ():
        eq(np.asarray(x)[tuple(np.asarray(i) if hasattr(i, "shape") else i for i in m.indices(extra, batch_safe=False))], np.asarray(P), "x[indices(batch_safe=False)]")
        P2, S2 = m.split(xin, extra, batch_safe=False)
        eq(P2, np.asarray(P), "split(batch_safe=False)"), eq(S2, np.asarray(S), "split(batch_safe=False)")
    # as a bijection
    if extra == 0:
        ld = g.standard_normal(batch)
        (p, s), l = m.forward(jnp.asarray(x), jnp.asarray(ld))
        eq(p, np.asarray(P), "forward primary"), eq(s, np.asarray(S), "forward secondary"), eq(l, ld, "forward log-density")
        xb, l = m.reverse((p, s), jnp.asarray(ld))
        eq(xb, x, "reverse(forward)"), eq(l, ld, "reverse log-density")
        if dt is not np.bool_:
            z = np.where(full, x, np.zeros((), dt))
            eq(m * jnp.asarray(x), z, "mask * x"), eq(jnp.asarray(x) * m, z, "x * mask")
            eq(~m * jnp.asarray(x), np.where(full, np.zeros((), dt), x), "~mask * x")
            eq((m * jnp.asarray(x)) + (~m * jnp.asarray(x)), x, "mask*x + ~mask*x")
    d.note(event=ev, built=how, count=int(full.sum()))
    return full.any() and not full.all()


@facet(quick=60, thorough=600)
def constructions_agree(d):
    ev = d.pick(EVENTS, "event")
    g = d.gen("g")
    full = g.random(ev) < d.pick([0.5, 0.2, 0.8], "density")
    a = bijx.BinaryMask.from_boolean_mask(full)
    b = bijx.BinaryMask.from_indices(np.where(full), ev)
    c = bijx.BinaryMask.from_boolean_mask(~full).flip()
    x = jnp.asarray(g.standard_normal((2,) + tuple(ev)))
    ref = (np.asarray(x)[:, full], np.asarray(x)[:, ~full])
    for m, w in ((a, "from_boolean_mask"), (b, "from_indices"), (c, "flip of complement")):
        eq(m.boolean_mask, full, w)
        P, S = m.split(x)
        eq(P, ref[0], f"{w}: primary"), eq(S, ref[1], f"{w}: secondary")
    eq(a.merge(*b.split(x)), x, "parts of equal masks are interchangeable")
    return full.any() and not full.all()
