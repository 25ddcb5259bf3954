"""Distributions of every kind, with drawn parameters (P29, P30)."""
import bijx
import jax.numpy as jnp
import numpy as np
from flax import nnx


def distribution(d):
    g = d.gen("dist").spawn(1)[0]
    n = d.pick([2, 3, 1], "dim")
    rngs = lambda: nnx.Rngs(int(g.integers(1000)))
    r = lambda *s: jnp.asarray(g.standard_normal(s))
    k = d.pick(["normal", "normal2d", "normal0", "uniform", "diag", "mvn", "gmix-diag", "gmix-full", "stack", "transformed", "nested"], "kind")
    own = rngs() if d.bool("own rngs") else None
    ev = (n,)
    if k == "normal":
        m = bijx.IndependentNormal((n,), rngs=own)
    elif k == "normal2d":
        m, ev = bijx.IndependentNormal((2, n), rngs=own), (2, n)
    elif k == "normal0":
        m, ev = bijx.IndependentNormal((), rngs=own), ()
    elif k == "uniform":
        m = bijx.IndependentUniform((n,), rngs=own)
    elif k == "diag":
        m = bijx.DiagonalNormal(r(n), jnp.exp(0.4 * r(n)), rngs=own)
    elif k == "mvn":
        a = g.standard_normal((n, n))
        m = bijx.MultivariateNormal.given_cov(r(n), jnp.asarray(a @ a.T + 0.5 * np.eye(n)), rngs=own, var_cls=d.pick([bijx.Const, nnx.Param], "var"))
    elif k == "gmix-diag":
        m = bijx.GaussianMixture(2 * r(3, n), jnp.exp(r(3, n)), r(3), rngs=own)
    elif k == "gmix-full":
        a = g.standard_normal((2, n, n))
        m = bijx.GaussianMixture(2 * r(2, n), jnp.asarray(a @ np.swapaxes(a, 1, 2) + 0.5 * np.eye(n)), r(2), rngs=own)
    elif k == "stack":
        m = bijx.MixtureStack(bijx.DiagonalNormal(r(3, n), jnp.exp(0.4 * r(3, n))), r(3), rngs=own)
    elif k == "transformed":
        m = bijx.Transformed(bijx.IndependentNormal((n,), rngs=own), bijx.Chain(bijx.AffineLinear(0.4 * r(n), r(n)), bijx.Frozen(bijx.Shift(r(n)))))
    else:
        a = bijx.Transformed(bijx.DiagonalNormal(r(n), jnp.exp(0.4 * r(n)), rngs=own), bijx.AffineLinear(0.4 * r(n), r(n)))
        m = bijx.Transformed(a, bijx.Shift(r(n)))
    return m, k, ev, own is not None
