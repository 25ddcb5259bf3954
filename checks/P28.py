"""Cases: log-density arrays of 1 to 400 samples (also with further axes), ordinary, extreme (up to 1e6), constant, dominated by
one sample and containing -inf; constant shifts; moving averages of any length and window; shape descriptions built from every
consistent subset of event/space/channel shapes and dimensions (0 to 3 space, 0 to 2 channel dimensions, extents including 0 and
1) and arrays with 0 to 3 batch dimensions.  Oracle: exact rational or numpy formulas in extended precision, a reference model of
the split.  Non-trivial: at least two samples, or a batch and an incomplete description."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from bijx import utils as U

from vf import close, facet, fail, must, shape

FIELDS = ["event_shape", "space_shape", "channel_shape", "event_dim", "space_dim", "channel_dim"]


def draw_logw(d, g, shp, label):
    kind = d.pick(["normal", "wide", "extreme", "dominated", "equal", "minus inf"], label)
    x = g.standard_normal(shp)
    if kind == "wide":
        x = 30 * x
    elif kind == "extreme":
        x = 1e6 * x
    elif kind == "dominated":
        x[0] = x[0] + 500
    elif kind == "equal":
        x = np.zeros(shp) + g.normal()
    return x, kind


def ess(lw):
    """(sum w)^2 / (n sum w^2) in extended precision"""
    l = np.asarray(lw, np.longdouble)
    w = np.exp(l - l.max(0))
    return np.asarray((w.sum(0)) ** 2 / (w**2).sum(0) / len(l), float)


@facet(120, 2000)
def effective_sample_size(d):
    g = d.gen().spawn(1)[0]
    n = d.pick([1, 2, 3, 10, 100, 400], "samples")
    extra = d.pick([(), (), (3,), (2, 2)], "further axes")
    shp = (n,) + extra
    t, kind = draw_logw(d, g, shp, "target")
    s, skind = draw_logw(d, g, shp, "proposal")
    scale = float(max(np.abs(t).max(), np.abs(s).max(), 1))
    if kind == "minus inf":
        m = g.integers(0, 2, shp).astype(bool)
        m[g.integers(n)] = False
        t = np.where(m, -np.inf, t)
    tol = 1e-13 * scale + 1e-9
    got = np.asarray(U.effective_sample_size(jnp.asarray(t), jnp.asarray(s)))
    want = ess(t - s)
    close(got, want, "effective sample size", rtol=tol, atol=tol)
    must((got <= 1 + tol).all() and (got >= (1 - tol) / n).all(), "effective sample size out of [1/n, 1]", got=got, n=n)
    c1, c2 = d.float(-1e3, 1e3, "shift") * scale, d.float(-1e3, 1e3, "shift")
    sh = U.effective_sample_size(jnp.asarray(t + c1), jnp.asarray(s + c2))
    close(sh, want, "effective sample size after constant shifts", rtol=1e-9 + 1e-12 * (abs(c1) + abs(c2) + scale), atol=1e-9)
    p = g.permutation(n)
    close(U.effective_sample_size(jnp.asarray(t[p]), jnp.asarray(s[p])), want, "effective sample size of permuted samples", rtol=tol, atol=tol)
    close(U.effective_sample_size(jnp.asarray(s), jnp.asarray(s)), np.ones(extra), "effective sample size of equal densities", rtol=1e-12)
    k = d.int(2, 3, "repeat")
    rep = U.effective_sample_size(jnp.asarray(np.concatenate([t] * k)), jnp.asarray(np.concatenate([s] * k)))
    close(rep, want, "effective sample size of repeated samples", rtol=tol, atol=tol)
    if n > 1:
        h = np.full(shp, -np.inf)
        m = d.int(1, n, "supported")
        h[:m] = 0.7
        close(U.effective_sample_size(jnp.asarray(h), jnp.zeros(shp)), np.full(extra, m / n), "effective sample size with zero weights", rtol=1e-9)
    # f32 arrays as used in practice
    if kind == "normal" and skind == "normal":
        f = U.effective_sample_size(jnp.asarray(t, jnp.float32), jnp.asarray(s, jnp.float32))
        close(f, want, "effective sample size in single precision", rtol=1e-3, atol=1e-4)
    return n > 1


@facet(80, 1500)
def reverse_dkl(d):
    g = d.gen().spawn(1)[0]
    n = d.pick([1, 2, 3, 10, 100], "samples")
    shp = (n,) + d.pick([(), (), (3,)], "further axes")
    t, kind = draw_logw(d, g, shp, "target")
    s, _ = draw_logw(d, g, shp, "proposal")
    scale = float(max(np.abs(t).max(), np.abs(s).max(), 1))
    if kind == "minus inf":
        t = np.where(g.integers(0, 2, shp), -np.inf, t)
    want = np.asarray(np.mean(np.asarray(s, np.longdouble) - t), float)
    got = U.reverse_dkl(jnp.asarray(t), jnp.asarray(s))
    shape(got, (), "reverse KL estimate")
    close(got, want, "reverse KL estimate", rtol=1e-9, atol=1e-11 * scale)
    if np.isfinite(want):
        c1, c2 = d.float(-1e3, 1e3, "shift"), d.float(-1e3, 1e3, "shift")
        close(U.reverse_dkl(jnp.asarray(t + c1), jnp.asarray(s + c2)), want + c2 - c1, "reverse KL estimate after shifts", rtol=1e-9, atol=1e-10 * (scale + 1e3))
        close(U.reverse_dkl(jnp.asarray(s), jnp.asarray(t)), -want, "reverse KL estimate with exchanged densities", rtol=1e-9, atol=1e-11 * scale)
        # gradient: the objective of variational training
        ga = jax.grad(lambda a: U.reverse_dkl(a, jnp.asarray(s)))(jnp.asarray(t))
        close(ga, np.full(shp, -1 / t.size), "gradient with respect to the target log-density", rtol=1e-9)
    close(U.reverse_dkl(jnp.asarray(s), jnp.asarray(s)), 0.0, "reverse KL of equal densities", atol=1e-12)
    return n > 1


@facet(80, 1500)
def moving_average(d):
    g = d.gen().spawn(1)[0]
    n = d.int(1, 40, "length")
    w = d.pick([1, 2, 3, 4, 5, 7, 9, 10, 12, 20, 45], "window")
    kind = d.pick(["float", "int", "large", "bool"], "values")
    x = g.standard_normal(n)
    if kind == "int":
        x = g.integers(-50, 50, n)
    elif kind == "large":
        x = 1e5 + x
    elif kind == "bool":
        x = g.integers(0, 2, n).astype(bool)
    default = d.int(0, 4, "default window") == 0
    if default:
        w = 10
        got = U.moving_average(jnp.asarray(x))
    else:
        got = U.moving_average(jnp.asarray(x), w)
    xf = x.astype(float)
    want = np.array([xf.mean()]) if n < w else np.array([xf[i : i + w].mean() for i in range(n - w + 1)])
    shape(got, (max(1, n - w + 1),), "moving average")
    eps = 1e-6 if kind == "bool" else 1e-9  # jax averages booleans in single precision
    close(got, want, "moving average", rtol=eps, atol=1e-11 * max(1, np.abs(xf).max()))
    if n >= w:
        close(U.moving_average(jnp.asarray(x[::-1].copy()), w), want[::-1], "moving average of the reversed series", rtol=eps, atol=1e-10 * max(1, np.abs(xf).max()))
    return n > w > 1


def draw_truth(d, zero=True):
    ns, nc = d.int(0, 3, "space dims"), d.int(0, 2, "channel dims")
    lo = 0 if zero and d.int(0, 5, "empty") == 0 else 1
    sp = tuple(d.int(lo, 4, "extent") for _ in range(ns))
    ch = tuple(d.int(1, 4, "channel") for _ in range(nc))
    return dict(event_shape=sp + ch, space_shape=sp, channel_shape=ch, event_dim=ns + nc, space_dim=ns, channel_dim=nc)


def closure(known):
    """fields determined by the given ones"""
    k = set(known)
    while True:
        new = set(k)
        for s in ("event", "space", "channel"):
            if s + "_shape" in new:
                new.add(s + "_dim")
        if sum(s + "_dim" in new for s in ("event", "space", "channel")) >= 2:
            new |= {s + "_dim" for s in ("event", "space", "channel")}
        if "event_shape" in new and "space_dim" in new:
            new |= {"space_shape", "channel_shape"}
        if "space_shape" in new and "channel_shape" in new:
            new.add("event_shape")
        if new == k:
            return k
        k = new


def build(d, truth, fields):
    conv = d.pick([tuple, list, np.array], "sequence type")
    kw = {}
    for f in fields:
        v = truth[f]
        if f.endswith("shape") and conv is not tuple:
            v = [int(i) for i in v] if conv is list else v
        kw[f] = v
    return U.ShapeInfo(**kw)


def check_info(info, truth, known, what):
    for f in FIELDS:
        v = getattr(info, f)
        if f in known:
            must(v is not None and v == truth[f], f"{what}: {f}", got=v, want=truth[f])
            if f.endswith("shape"):
                must(isinstance(v, tuple), f"{what}: {f} is not a tuple", got=v)
        else:
            must(v is None or v == truth[f], f"{what}: {f} wrongly inferred", got=v, want=truth[f])


def sizes(info, truth, what):
    for s in ("event", "space", "channel"):
        must(getattr(info, s + "_size") == int(np.prod(truth[s + "_shape"], dtype=int)), f"{what}: {s}_size", got=getattr(info, s + "_size"))
    e, ns = truth["event_dim"], truth["space_dim"]
    must(tuple(info.event_axes) == tuple(range(-e, 0)), f"{what}: event_axes", got=info.event_axes)
    must(tuple(info.space_axes) == tuple(range(-e, -e + ns)), f"{what}: space_axes", got=info.space_axes)
    must(tuple(info.channel_axes) == tuple(range(-e + ns, 0)), f"{what}: channel_axes", got=info.channel_axes)


@facet(200, 4000)
def shape_information(d):
    truth = draw_truth(d)
    fields = [f for f in FIELDS if d.bool(f)]
    known = closure(fields)
    what = "ShapeInfo(" + ", ".join(fields) + ")"
    d.note(given=fields)
    info = build(d, truth, fields)
    check_info(info, truth, known, what)
    if known == set(FIELDS):
        sizes(info, truth, what)
    # pytree, copy and hash
    leaves, td = jax.tree.flatten(info)
    must(leaves == [], "ShapeInfo has array leaves", got=leaves)
    again = jax.tree.unflatten(td, leaves)
    check_info(again, truth, known, what + " after tree_unflatten")
    must(again == info and hash(again) == hash(info), what + ": not equal to its own copy")
    full = U.ShapeInfo(space_shape=truth["space_shape"], channel_shape=truth["channel_shape"])
    if known == set(FIELDS):
        must(info == full and hash(info) == hash(full), what + ": descriptions of the same shape differ", got=info, want=full)
    other = U.ShapeInfo(space_shape=truth["space_shape"] + (2,), channel_shape=truth["channel_shape"])
    must(info != other, "descriptions of different shapes are equal", got=info, want=other)
    if truth["space_dim"] and truth["space_shape"][0] > 0:
        other = U.ShapeInfo(space_shape=(truth["space_shape"][0] + 1,) + truth["space_shape"][1:], channel_shape=truth["channel_shape"])
        must(full != other, "descriptions of different extents are equal", got=full, want=other)
    if truth["space_dim"]:
        sp = truth["space_shape"]
        moved = U.ShapeInfo(space_shape=sp[:-1], channel_shape=sp[-1:] + truth["channel_shape"])
        must(full != moved, "descriptions with another split of the same shape are equal", got=full, want=moved)
    must(not (info == "x") and info != 3, "a ShapeInfo equals an unrelated object")
    # usable as static data of a compiled function
    r = jax.jit(lambda x, i: (x * 2, i), static_argnums=())(jnp.ones(2), info)
    must(r[1] == info, "ShapeInfo changed by a compiled function", got=r[1])
    must(jax.jit(lambda x, i: x + len(i.event_shape or ()), static_argnums=1)(1.0, info) == 1.0 + len(info.event_shape or ()), "ShapeInfo as a static argument")

    # split of batched shapes
    batch = d.pick([(), (3,), (2, 5), (1,), (0,), (2, 1, 3)], "batch")
    total = batch + truth["event_shape"]
    if "event_dim" not in known:
        try:
            info.process_event(total)
        except RuntimeError:
            return False
        fail(what + ": split of a batched shape without known event dimension")
    b, got = info.process_event(total)
    must(tuple(b) == batch, what + ": batch shape", got=b, want=batch)
    k2 = closure(set(fields) | {"event_shape"} | known)
    check_info(got, truth, k2, what + " after process_event")
    check_info(info, truth, known, what + " (original after process_event)")
    n = int(np.prod(total))
    x = np.arange(n, dtype=float).reshape(total)
    xa = jnp.asarray(x) if d.bool("jax array") else x
    flat, b, got = info.process_and_flatten(xa)
    must(tuple(b) == batch, what + ": batch shape of process_and_flatten", got=b, want=batch)
    close(flat, x.reshape(batch + (int(np.prod(truth["event_shape"], dtype=int)),)), what + ": flattened array", rtol=0, atol=0)
    must(got.event_shape == truth["event_shape"], what + ": event shape of process_and_flatten", got=got)
    if "space_shape" in k2:
        can, b, got = info.process_and_canonicalize(xa)
        want = x.reshape((int(np.prod(batch, dtype=int)),) + truth["space_shape"] + (int(np.prod(truth["channel_shape"], dtype=int)),))
        close(can, want, what + ": canonical array", rtol=0, atol=0)
        must(tuple(b) == batch, what + ": batch shape of process_and_canonicalize", got=b, want=batch)
        check_info(got, truth, set(FIELDS), what + " after process_and_canonicalize")
        sizes(got, truth, what + " after process_and_canonicalize")
        close(jnp.reshape(can, b + got.event_shape), x, what + ": canonical array reshaped back", rtol=0, atol=0)
        f = jax.jit(lambda x: info.process_and_canonicalize(x)[0])
        close(f(jnp.asarray(x)), want, what + ": canonical array, compiled", rtol=0, atol=0)
    if "event_shape" in known and truth["event_dim"]:
        bad = list(truth["event_shape"])
        bad[d.int(0, len(bad) - 1, "wrong axis")] += 1
        try:
            info.process_event(batch + tuple(bad))
        except AssertionError:
            pass
        else:
            fail(what + ": an event shape that does not match is accepted", shape=bad)
    return bool(batch) and 0 < len(fields) < 6
