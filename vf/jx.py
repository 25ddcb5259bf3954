"""jax helpers shared by the checks (imported by check modules, after the environment is set)."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx


@partial(jax.jit, static_argnums=(0, 4))
def _apply(graphdef, state, x, ld, reverse):
    b = nnx.merge(graphdef, state)
    return b.reverse(x, ld) if reverse else b.forward(x, ld)


def apply(b, x, ld, reverse=False):
    """bijection applied under jit; compiled once per module structure and shape"""
    g, s = nnx.split(b)
    return _apply(g, s, jnp.asarray(x), jnp.asarray(ld), reverse)


def leaves_random(module, gen, scale=1.0, only=nnx.Param):
    """replace all trainable parameters by normal values (to leave the initialisation)"""
    g, p, rest = nnx.split(module, only, ...)
    p = jax.tree.map(lambda v: jnp.asarray(scale * gen.standard_normal(v.shape), v.dtype) if jnp.issubdtype(v.dtype, jnp.inexact) else v, p)
    return nnx.merge(g, p, rest)


@partial(jax.jit, static_argnums=(0, 4, 5))
def _call(graphdef, state, x, ld, reverse, kw):
    b = nnx.merge(graphdef, state)
    return (b.reverse if reverse else b.forward)(x, ld, **dict(kw))


def call(b, x, ld, reverse=False, **kwargs):
    """bijection applied eagerly"""
    f = b.reverse if reverse else b.forward
    return f(jnp.asarray(x), jnp.asarray(ld), **kwargs)


def call_jit(b, x, ld, reverse=False, **kwargs):
    g, s = nnx.split(b)
    return _call(g, s, jnp.asarray(x), jnp.asarray(ld), reverse, tuple(sorted(kwargs.items())))


def host(v):
    """numpy value of a leaf, also of a random key"""
    if isinstance(v, nnx.Variable):
        v = v.get_value()
    if hasattr(v, "dtype") and jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key):
        v = jax.random.key_data(v)
    return np.asarray(v)
