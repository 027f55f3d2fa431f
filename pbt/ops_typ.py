"""Conversions between number types."""
import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

from .ops import GAP, defop, gapto, mkconst, const_value, dseed
from .ops_idx import axis, g1, pick_nd
from .rnd import st

HI = [False]  # conversions to lower precision are left out: the function that is approximated


def lo(x):
    if HI[0]:
        return x
    return x.astype(jnp.complex64 if jnp.iscomplexobj(x) else jnp.float32)


def typ(name, gen, run, w=1.0, multi=False):
    defop(name, 'typ', gen, run, w, multi)


def pairs(d, c):
    """Two arrays which broadcast."""
    i = pick_nd(d, c, 0, kinds='f')
    if i is None:
        return None
    s = c.vals[i].shape
    j = c.pick(d, lambda v: v.shape == s or v.size == 1 or v.ndim == 0, kinds='f')
    return None if j is None else ([i, j], {})


frac = lambda v: bool(np.all(np.abs(v * 2 - np.round(v * 2)) > 0.01))
typ('to32', g1(0, kinds='fc'), lambda p, x: lo(x), 3)
typ('to64', g1(0, kinds='fc'), lambda p, x: x.astype(complex if jnp.iscomplexobj(x) else float), 2)
typ('to32c', g1(0, kinds='fc'), lambda p, x: lax.convert_element_type(x, x.dtype if HI[0] else jnp.complex64 if jnp.iscomplexobj(x) else jnp.float32) * 2, 1)
typ('tocplx', g1(0, kinds='f'), lambda p, x: (x.astype(complex) if x.dtype == jnp.float64 else x.astype(jnp.complex64)) * (1 + 0.5j), 1)
typ('abs2c', g1(0, kinds='f'), lambda p, x: jnp.abs(x + 1j * (x + 2)) ** 2, 0.7)
typ('f32const', g1(0, lambda d, v: {'s': dseed(d)}, kinds='f'),
    lambda p, x: x * (lambda c: c.astype(np.float64) if HI[0] else c)(np.round(np.random.RandomState(p['s']).uniform(-1.5, 1.5, x.shape), 2).astype(np.float32)), 1.5)
typ('f32scalar', g1(0, lambda d, v: {'s': d(st.sampled_from([0.5, 1.5, -2.0]))}, kinds='f'), lambda p, x: x * np.float32(p['s']) + jnp.float32(1.0), 1)
typ('intconst', g1(0, lambda d, v: {'s': dseed(d)}, kinds='f'), lambda p, x: x * np.random.RandomState(p['s']).randint(-2, 3, x.shape) + np.int32(1), 1)
typ('boolconst', g1(0, lambda d, v: {'s': dseed(d)}, kinds='f'), lambda p, x: x * (np.random.RandomState(p['s']).uniform(size=x.shape) > 0.4), 0.7)
typ('weak', g1(0, kinds='f'), lambda p, x: 2 * x + jnp.asarray(3) - 1.5, 0.7)
typ('mixadd', pairs, lambda p, x, y: x + y, 1.5)
typ('mixmul', pairs, lambda p, x, y: x * y, 1.5)
typ('mixdot', g1(1, lambda d, v: {'s': dseed(d)}, kinds='f'),
    lambda p, x: x @ np.round(np.random.RandomState(p['s']).uniform(-1, 1, (x.shape[-1], 2)), 2).astype(np.float32), 1)
typ('prefdot', g1(1, lambda d, v: {}, kinds='f'), lambda p, x: lax.dot_general(x, x, (((x.ndim - 1,), (x.ndim - 1,)), ((), ())), preferred_element_type=jnp.float64), 1)
typ('sum64', g1(1, lambda d, v: {'a': axis(d, v)}, kinds='f'), lambda p, x: jnp.sum(x * x, axis=p['a'], dtype=float), 1)
typ('mean32', g1(1, lambda d, v: {'a': axis(d, v)}, kinds='f'), lambda p, x: jnp.mean(x, axis=p['a'], dtype=None if HI[0] else jnp.float32), 0.7)
typ('toint', g1(0, pred=frac, kinds='f'), lambda p, x: jnp.floor(2 * x).astype(jnp.int32), 1.2)
typ('toint64', g1(0, pred=frac, kinds='f'), lambda p, x: jnp.floor(2 * x).astype(jnp.int64) + 1, 0.5)
typ('tobool', g1(0, pred=gapto(0.1713), kinds='f'), lambda p, x: x > 0.1713, 1)
typ('logic', g1(0, pred=gapto(0.1713, -0.4019), kinds='f'), lambda p, x: jnp.logical_or(jnp.logical_not(x > 0.1713), x < -0.4019) ^ jnp.isnan(x), 0.7)
typ('boolnum', g1(0, pred=gapto(0.1713), kinds='f'), lambda p, x: (x > 0.1713).astype(x.dtype) * x + (x < 0.1713), 1)
typ('intuse', g1(0, pred=frac, kinds='f'), lambda p, x: x * (jnp.floor(2 * x).astype(jnp.int32) % 3), 1)
typ('intpow', g1(0, lambda d, v: {'k': d(st.integers(1, 3))}, kinds='f'), lambda p, x: x ** jnp.int32(p['k']), 0.7)
typ('count', g1(1, pred=gapto(0.1713), kinds='f'), lambda p, x: jnp.sum(x > 0.1713), 0.7)
typ('argmaxi', g1(1, lambda d, v: {'a': axis(d, v)}, pred=lambda v: len(set(np.round(v, 3).ravel())) == v.size, kinds='f'), lambda p, x: jnp.argmax(x, axis=p['a']), 0.8)
typ('argsorti', g1(1, lambda d, v: {'a': axis(d, v)}, pred=lambda v: len(set(np.round(v, 3).ravel())) == v.size, kinds='f'), lambda p, x: jnp.argsort(x, axis=p['a']), 0.6)
typ('finite', g1(0, kinds='f'), lambda p, x: jnp.isfinite(x), 0.5)
typ('signd', g1(0, pred=gapto(0.0), kinds='f'), lambda p, x: jnp.sign(x) * x * x, 0.6)
typ('like', g1(0, kinds='f'), lambda p, x: jnp.zeros_like(x) + jnp.ones_like(x) * x, 0.4)
typ('concat_mix', g1(1, kinds='f'), lambda p, x: jnp.concatenate([x, jnp.zeros_like(x[:1])]).astype(float) * 0.5, 0.5)
typ('sortpair', g1(1, pred=lambda v: v.ndim == 1 and len(set(np.round(v, 3))) == v.size, kinds='f'), lambda p, x: list(lax.sort((x, jnp.arange(x.shape[0])), num_keys=1)), 0.8, multi=True)
typ('topki', g1(1, lambda d, v: {'k': d(st.integers(1, v.shape[-1]))}, pred=lambda v: len(set(np.round(v, 3).ravel())) == v.size, kinds='f'), lambda p, x: list(lax.top_k(x, p['k'])), 0.8, multi=True)
typ('splitparts', g1(0, kinds='f'), lambda p, x: [jnp.floor(x * 0.0 + 1).astype(int), x * x], 0.5, multi=True)
typ('modf', g1(0, pred=lambda v: bool(np.all(np.abs(v - np.round(v)) > 0.01)), kinds='f'), lambda p, x: list(jnp.modf(x)), 0.5, multi=True)
