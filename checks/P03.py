"""Cases: a bijection of any kind (elementwise, spline, coupling, radial, Fourier, continuous flow, composed or
wrapped; drawn structure and parameters), a batch shape (including none, ones, zeros and sizes equal to event
sizes), inputs and incoming log-densities, both directions.  The batched call is compared with one call per
sample.  Non-trivial: the batch has at least one element and at least one batch dimension."""
import numpy as np

from vf import bij, close, facet, jx, must, shape

BATCHES = [(4,), (2, 3), "event", (1,), (3, 1), (2, 2), (0,), (2, 0), "single"]


def _compare(d, c, batch, reverse):
    import jax
    import jax.numpy as jnp

    g = d.gen("x")
    x1 = c.sample(g, batch)
    ld = 5 * g.standard_normal(batch)
    fn = c.b.reverse if reverse else c.b.forward
    if reverse:
        x1, _ = jx.call(c.b, x1, np.zeros(batch), **c.kwargs)
    y, ly = jx.call(c.b, x1, ld, reverse=reverse, **c.kwargs)
    shape(ly, batch, f"{c.name}: log-density")
    y = np.asarray(y)
    must(y.shape[: len(batch)] == batch, f"{c.name}: batch shape lost", got=y.shape, batch=batch)
    n = int(np.prod(batch, dtype=int))
    if n == 0:
        return False
    ev_out = y.shape[len(batch):]
    xs = np.asarray(x1).reshape((n,) + np.shape(x1)[len(batch):])
    ys, lys, lds = y.reshape((n,) + ev_out), np.asarray(ly).reshape(n), ld.reshape(n)
    for i in range(min(n, 4)):
        j = (i * 5) % n
        yi, li = jx.call(c.b, xs[j], lds[j], reverse=reverse, **c.kwargs)
        shape(li, (), f"{c.name}: log-density of a single sample")
        shape(yi, ev_out, f"{c.name}: single sample")
        ok = np.isfinite(np.asarray(yi))
        if not ok.all() or not np.isfinite(np.asarray(li)):
            # saturated image (e.g. at the edge of the range): must agree as is
            must(np.array_equal(np.asarray(yi), ys[j], equal_nan=True), f"{c.name}: non-finite sample differs")
            continue
        s = max(1.0, float(np.max(np.abs(np.asarray(yi)), initial=0)))
        close(ys[j], np.asarray(yi), f"{c.name}: sample {j} of batch {batch}, {'reverse' if reverse else 'forward'}", rtol=c.rtol, atol=c.rtol * s)
        close(lys[j], np.asarray(li), f"{c.name}: log-density of sample {j} of batch {batch}, {'reverse' if reverse else 'forward'}", rtol=1e-9, atol=1e-8)
    return batch != ()


def _batch(d, c):
    b = d.pick(BATCHES, "batch")
    if b == "single":
        return ()
    if b == "event":
        return tuple(c.event) or (2,)
    return b


def _facet(kind):
    def f(d):
        c = kind(d)
        d.note(bijection=c.name, event=c.event)
        return _compare(d, c, _batch(d, c), d.bool("reverse"))

    f.__name__ = kind.__name__
    return f


elementwise = facet(quick=90, thorough=1500)(_facet(bij.elementwise))
spline = facet(quick=24, thorough=600)(_facet(bij.spline))
coupling = facet(quick=40, thorough=600)(_facet(bij.coupling))
radial = facet(quick=40, thorough=600)(_facet(bij.radial))
fourier = facet(quick=50, thorough=800)(_facet(bij.fourier))
flow = facet(quick=25, thorough=400)(_facet(bij.flow))
wrapped = facet(quick=60, thorough=800)(_facet(bij.wrapped))
