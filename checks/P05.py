"""Cases: coupling layers with a drawn event shape, mask (checkerboard or arbitrary, also all active or all
passive), mode (split or multiplied), inner event rank, inner bijection on the line, half-line or unit interval,
conditioner returning a flat array, a list or a dictionary of parameters, batch shape and inputs.  Oracle: the
inner bijection rebuilt element by element from the conditioner's output on the passive part; passive elements
bit-identical; reverse of forward; log-determinant from automatic differentiation of the layer; dependence only on
the passive part; arguments unmodified.  Non-trivial: at least one active and one passive element."""
import numpy as np

import bijx
import jax
import jax.numpy as jnp
from flax import nnx
from vf import bij, close, facet, jx, must, shape


class Cond(nnx.Module):
    """conditioner that returns parameters in one of the accepted representations"""

    def __init__(self, net, rank, rec, form):
        self.net, self.rank, self.form = net, rank, form
        self.rec = nnx.static((tuple(rec.params_shapes), tuple(int(s) for s in rec.params_sizes), rec))

    def __call__(self, x):
        b = x.ndim - self.rank
        p = self.net(x.reshape(x.shape[:b] + (int(np.prod(x.shape[b:])),)))
        if self.form == "array":
            return p
        shapes, sizes, rec = self.rec
        leaves, o = [], 0
        for s, n in zip(shapes, sizes):
            leaves.append(p[..., o:o + n].reshape(p.shape[:-1] + s))
            o += n
        if self.form == "list":
            return leaves
        flat = rec.params_dict
        return jax.tree.unflatten(jax.tree.structure(flat), leaves)


def domain_inner(d, g, ev):
    """inner bijection, sampler of its domain"""
    k = d.pick(["real", "half", "unit"], "inner domain")
    z = lambda *s: jnp.zeros(ev)
    if k == "real":
        return bij.real_scalar(d, g, ev), "R"
    if k == "half":
        return d.pick([lambda: bijx.Power(jnp.ones(ev) * 1.3), lambda: bijx.Chain(bijx.Power(jnp.ones(ev)), bijx.Inverse(bijx.Exponential()))], "half")(), "+"
    return d.pick([lambda: bijx.BetaStretch(z()), lambda: bijx.Chain(bijx.Inverse(bijx.GaussianCDF(jnp.zeros(()), jnp.zeros(()))), bijx.Shift(z())),
                   lambda: bijx.Chain(bijx.BetaStretch(z()), bijx.Inverse(bijx.Sigmoid()))], "unit")(), "01"


def build(d):
    mode = d.pick(["split", "mult"], "mode")
    rank = d.pick([0, 1, 0, 1, 2], "inner rank")
    g = d.gen("layer")
    if mode == "split":
        rank = min(rank, 1)
        event = d.pick([(4,), (2, 3), (3,), (1,), (2, 2, 2)], "event")
        bm = np.zeros(event, bool)
        mev = event
    else:
        event = d.pick({0: [(4,), (2, 3), (1,)], 1: [(3, 2), (2, 3, 2), (2, 2, 2), (2, 3, 1), (3,)], 2: [(3, 2, 2), (2, 1, 2), (2, 3)]}[rank], "event")
        mev = event[: len(event) - rank]
        bm = np.zeros(mev, bool)
    # a mask which is constant over the event dimensions of the inner bijection has only two values if there are no others
    how = d.pick(["random", "checker", "all", "none"] if mev else ["all", "all", "none"], "mask")
    n = bm.size
    if how == "checker":
        bm = (np.indices(mev).sum(0) + d.int(0, 1, "parity")) % 2 == 1
    elif how == "all":
        bm[...] = True
    elif how == "random":
        bm.reshape(-1)[g.permutation(n)[: d.int(1, max(1, n - 1), "active")]] = True
    full = np.broadcast_to(bm.reshape(bm.shape + (1,) * (len(event) - len(mev))), event).copy()
    if mode == "split" and d.bool("from indices"):
        ind = np.where(full)
        if d.bool("shuffled"):
            p = g.permutation(len(ind[0]))
            ind = tuple(i[p] for i in ind)
        mask = bijx.BinaryMask.from_indices(ind, event)
    else:
        mask = bijx.BinaryMask.from_boolean_mask(full)
    if d.bool("flipped"):
        mask = ~bijx.BinaryMask(mask.secondary_indices, event, masks=mask.masks[::-1], secondary_indices=mask.primary_indices)
    na = int(full.sum())
    ev = (na,) if (mode == "split" and rank) else event[len(event) - rank:] if rank else ()
    inner, dom = domain_inner(d, g, ev)
    rec = bijx.ModuleReconstructor(inner)
    P = int(rec.params_total_size)
    n_in = full.size - na if mode == "split" else full.size
    out = ((na, P) if not rank else (P,)) if mode == "split" else mev + (P,)
    form = d.pick(["array", "list", "dict"], "conditioner output")
    net = Cond(bij.Dense(n_in, out, g, 0.4), 1 if mode == "split" else len(event), rec, form)
    layer = bijx.GeneralCouplingLayer(net, mask, rec, bijection_event_rank=rank, split=mode == "split")
    return layer, net, mask, full, inner, dom, rank, mode, event, ev


def sample(g, dom, shp):
    z = g.standard_normal(shp)
    return {"R": z, "+": np.exp(z), "01": 1 / (1 + np.exp(-z))}[dom]


@facet(quick=24, thorough=500, shards=6, tshards=8)
def layers(d):
    layer, net, mask, full, inner, dom, rank, mode, event, iev = build(d)
    g = d.gen("x")
    batch = d.pick([(3,), (), (4,), (2, 2), event[:1]], "batch")
    x, ld = sample(g, dom, batch + event), g.standard_normal(batch)
    x0, ld0 = x.copy(), ld.copy()
    y, l = layer.forward(x, ld) if d.bool("numpy inputs") else layer.forward(jnp.asarray(x), jnp.asarray(ld))
    must(np.array_equal(x, x0) and np.array_equal(ld, ld0), "arguments were modified")
    shape(y, batch + event, "output"), shape(l, batch, "log-density")
    y, l = np.asarray(y), np.asarray(l)
    must(np.array_equal(y[..., ~full], x[..., ~full]), "passive elements changed", got=y[..., ~full], want=x[..., ~full])
    # reference: inner bijection with parameters from the passive part
    graph, par, rest = nnx.split(inner, nnx.Param, ...)
    leaves, td = jax.tree.flatten(par)
    sizes = [int(np.prod(v.shape, dtype=int)) for v in leaves]

    def inner_with(p):
        out, o = [], 0
        for v, n in zip(leaves, sizes):
            out.append(jnp.asarray(p[o:o + n]).reshape(v.shape))
            o += n
        return nnx.merge(graph, jax.tree.unflatten(td, out), rest)

    prim = tuple(np.asarray(i) for i in mask.primary_indices)
    seco = tuple(np.asarray(i) for i in mask.secondary_indices)
    B = list(np.ndindex(*batch))[:2]
    for i in B:
        xi = x[i]
        if mode == "split":
            passive = xi[seco]
            p = np.asarray(net.net(jnp.asarray(passive)))
            act = xi[prim]
            if rank:
                wy, wl = inner_with(p).forward(jnp.asarray(act), jnp.zeros(()))
                wl = float(wl)
            else:
                r = [inner_with(p[j]).forward(jnp.asarray(act[j]), jnp.zeros(())) for j in range(len(act))]
                wy, wl = np.array([float(v[0]) for v in r]), sum(float(v[1]) for v in r)
            want = xi.copy()
            want[prim] = np.asarray(wy)
        else:
            p = np.asarray(net.net(jnp.asarray(np.where(full, 0, xi)).reshape(-1)))
            want, wl = xi.copy(), 0.0
            for j in np.ndindex(*full.shape[: len(event) - rank]):
                if np.all(full[j]):
                    v = inner_with(p[j]).forward(jnp.asarray(xi[j]), jnp.zeros(()))
                    want[j], wl = np.asarray(v[0]), wl + float(v[1])
        if not (np.isfinite(want).all() and np.isfinite(wl)):
            return False
        close(y[i], want, f"active elements ({mode}, rank {rank})", rtol=1e-10, atol=1e-10 * (1 + np.abs(want).max()))
        close(l[i], ld[i] + wl, f"log-density ({mode}, rank {rank})", rtol=1e-9, atol=1e-9 * (1 + abs(wl)))
    # exact Jacobian of the layer itself
    i = B[0]
    f = lambda v: layer.forward(v.reshape(event), jnp.zeros(()))[0].reshape(-1)
    if True:
        J = np.asarray(jax.jacfwd(f)(jnp.asarray(x[i].reshape(-1))))
        if np.all(np.isfinite(J)):
            s, ldet = np.linalg.slogdet(J)
            must(s != 0, "Jacobian singular")
            close(l[i], ld[i] - ldet, "log-density vs log-determinant of the Jacobian", rtol=1e-7, atol=1e-6)
            # active outputs do not depend on each other (rank 0), passive only through themselves
            fl = full.reshape(-1)
            must(np.array_equal(J[~fl][:, ~fl], np.eye(int((~fl).sum()))) and not J[~fl][:, fl].any(), "passive rows of the Jacobian are not the identity")
            if rank == 0:
                A = J[fl][:, fl]
                must(np.all(A[~np.eye(len(A), dtype=bool)] == 0), "an active output depends on another active element")
    # undone by its reverse
    xr, lr = layer.reverse(jnp.asarray(y), jnp.asarray(l))
    shape(xr, batch + event, "reverse output"), shape(lr, batch, "reverse log-density")
    xr = np.asarray(xr)
    must(np.array_equal(xr[..., ~full], x[..., ~full]), "passive elements changed by reverse")
    close(xr, x, "reverse of forward", rtol=1e-5, atol=1e-5)
    close(lr, ld, "log-density of reverse of forward", rtol=1e-5, atol=1e-4)
    d.note(mode=mode, rank=rank, event=event, domain=dom, inner=type(inner).__name__)
    return full.any() and not full.all()
