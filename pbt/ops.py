"""The operations of the program language.

An operation has a generator (draws argument ids and JSON parameters from the values computed so far,
or returns None if it is not applicable) and a runner (plain JAX).  Generators look at the *values* of
the nodes, so that operations are only applied where they are smooth and well conditioned.
"""
import functools
import math

import jax
import jax.numpy as jnp
import numpy as np
from .rnd import st
from jax import lax

MAXSIZE = 64
MAXABS = 40.0
GAP = 1e-3


class Op:
    def __init__(self, name, fam, gen, run, w, multi):
        self.name, self.fam, self.gen, self.run, self.w, self.multi = name, fam, gen, run, w, multi


OPS: dict[str, Op] = {}


def defop(name, fam, gen, run, w=1.0, multi=False):
    assert name not in OPS, name
    OPS[name] = Op(name, fam, gen, run, w, multi)


# ------------------------------------------------------------------ constants
def const_value(spec):
    seed, shape, kind = spec
    if kind == 'lit':  # a Python scalar
        return float(np.round(np.random.RandomState(seed).uniform(-2, 2), 1)) or 0.5
    if kind == 'lit2':
        return [2.0, -1.0, 0.5, 3, -2, 1.5, 1][seed % 7]
    r = np.random.RandomState(seed)
    v = r.uniform(-1.5, 1.5, size=shape)
    if kind == 'n':
        return np.round(v, 2)
    if kind == 'h':  # with zeros and repeated values
        return np.round(v * 2) / 2
    if kind == 'p':
        return np.round(np.abs(v) + 0.4, 2)
    if kind == 'c':
        return np.round(v, 2) + 1j * np.round(r.uniform(-1.5, 1.5, size=shape), 2)
    if kind == 'b':
        return v > 0
    if kind == 'i':
        return np.round(v * 2).astype(int)
    raise ValueError(kind)


def isconst(a):
    return isinstance(a, dict)


def resolve(a, env):
    if isconst(a):
        v = const_value(a['c'])
        if isinstance(v, (np.ndarray, np.generic)) and not a.get('np'):
            v = jnp.asarray(v)
        return v
    return env[a]


# ------------------------------------------------------------------ generation context
class Ctx:
    """Values of the program drawn so far."""

    def __init__(self, vals, deps, cpx=False, dtype=None):
        self.vals = list(vals)
        self.deps = list(deps)
        self.cpx = cpx

    def ids(self, pred=lambda v: True, kinds='f', dep=None):
        out = []
        for i, v in enumerate(self.vals):
            if v.dtype.kind in kinds and (dep is None or self.deps[i] == dep) and pred(v):
                out.append(i)
        return out

    def pick(self, d, pred=lambda v: True, kinds=None, dep=True):
        if kinds is None:
            kinds = 'fc' if self.cpx else 'f'
        ids = self.ids(pred, kinds, dep)
        if not ids:
            return None
        # prefer recent nodes
        k = d(st.integers(0, 2 * len(ids) - 1))
        if k >= len(ids):
            return ids[max(len(ids) - 1 - (k - len(ids)) // 2, 0)]
        return ids[len(ids) - 1 - k]

    def val(self, a):
        return np.asarray(const_value(a['c'])) if isconst(a) else self.vals[a]


def dseed(d):
    return d(st.integers(0, 999))


def mkconst(d, shape, kind=None, cpx=False):
    if kind is None:
        kind = d(st.sampled_from(['n', 'n', 'n', 'h', 'c'] if cpx else ['n', 'n', 'h']))
    c = {'c': [dseed(d), list(shape), kind]}
    if d(st.integers(0, 5)) == 0:
        c['np'] = 1
    return c


def prod(s):
    return int(np.prod(s, dtype=int))


PRE = {
    'id': lambda x: x,
    'sq': lambda x: x * x + 0.5,
    'sq1': lambda x: 0.5 * x * x + 1.5,
    'th': lambda x: 0.8 * jnp.tanh(x),
    'sg': lambda x: 0.1 + 0.8 / (1 + jnp.exp(-x)),
    'sm': lambda x: 0.3 * x,
}

# ------------------------------------------------------------------ elementwise, one operand
anyv = lambda v: True
pos = lambda v: v.dtype.kind == 'f' and bool(np.all(v > 0.2)) or v.dtype.kind == 'c' and bool(np.all(v.real > 0.2))
inside = lambda v: bool(np.all(np.abs(v) < 0.9))
nonzero = lambda v: bool(np.all(np.abs(v) > 0.2))


def gapto(*pts):
    return lambda v: bool(np.all([np.min(np.abs(v - p), initial=1.0) > GAP for p in pts]))


def un(name, fn, dom=anyv, pre=None, cpx=False, fam='ew', w=1.0, params=None):
    def gen(d, c):
        i = c.pick(d, kinds='fc' if cpx and c.cpx else 'f', pred=(lambda v: True) if pre else dom)
        if i is None:
            return None
        p = {}
        if params:
            p.update(params(d))
        if not dom(c.vals[i]):
            if c.vals[i].dtype.kind == 'c' and pre != 'sm':
                return None
            p['pre'] = pre
        return [i], p

    if params:
        run = lambda p, x: fn(PRE[p.get('pre', 'id')](x), p)
    else:
        run = lambda p, x: fn(PRE[p.get('pre', 'id')](x))
    defop(name, fam, gen, run, w)


small = lambda v: bool(np.all(np.abs(v) < 3))
un('neg', lambda x: -x, cpx=True)
un('sin', jnp.sin, small, 'th', cpx=True)
un('cos', jnp.cos, small, 'th', cpx=True)
un('tan', jnp.tan, inside, 'th')
un('tanh', jnp.tanh, inside, 'sm', cpx=True)
un('sinh', jnp.sinh, small, 'th', cpx=True)
un('cosh', jnp.cosh, small, 'th', cpx=True)
un('asinh', jnp.arcsinh)
un('acosh', jnp.arccosh, lambda v: bool(np.all(v > 1.2)), 'sq1')
un('atanh', jnp.arctanh, inside, 'th')
un('asin', jnp.arcsin, inside, 'th')
un('acos', jnp.arccos, inside, 'th')
un('atan', jnp.arctan)
un('exp', jnp.exp, small, 'th', cpx=True, w=2)
un('exp2', jnp.exp2, small, 'th')
un('expm1', jnp.expm1, small, 'th')
un('log', jnp.log, pos, 'sq', cpx=True, w=2)
un('log2', jnp.log2, pos, 'sq')
un('log10', jnp.log10, pos, 'sq')
un('log1p', jnp.log1p, lambda v: bool(np.all(v > -0.7)), 'sq')
un('sqrt', jnp.sqrt, pos, 'sq', cpx=True, w=2)
un('cbrt', jnp.cbrt, nonzero, 'sq')
un('rsqrt', lax.rsqrt, pos, 'sq')
un('recip', lambda x: 1 / x, nonzero, 'sq', cpx=True)
un('square', jnp.square, cpx=True)
un('ipow', lambda x, p: lax.integer_pow(x, p['n']), nonzero, 'sq', cpx=True, w=2,
   params=lambda d: {'n': d(st.sampled_from([2, 3, 4, 5, -1, -2, -3, 0, 1]))})
un('ipowz', lambda x, p: x ** p['n'], cpx=True, params=lambda d: {'n': d(st.sampled_from([2, 3, 4, 1, 0]))})
un('fpow', lambda x, p: x ** p['n'], pos, 'sq', params=lambda d: {'n': d(st.sampled_from([0.5, 1.5, 2.5, -0.5, -1.5, 2.0, 3.0]))})
un('cpowx', lambda x, p: p['n'] ** x, small, 'th', params=lambda d: {'n': d(st.sampled_from([2.0, 0.5, 1.3]))})
un('logistic', lax.logistic)
un('sigmoid', jax.nn.sigmoid)
un('softplus', jax.nn.softplus)
un('silu', jax.nn.silu)
un('gelu', lambda x, p: jax.nn.gelu(x, approximate=p['a']), params=lambda d: {'a': d(st.booleans())})
un('elu', jax.nn.elu, gapto(0))
un('selu', jax.nn.selu, gapto(0))
un('celu', jax.nn.celu, gapto(0))
un('leaky_relu', jax.nn.leaky_relu, gapto(0))
un('relu', jax.nn.relu, gapto(0), w=1.5)
un('relu6', jax.nn.relu6, gapto(0, 6))
un('hard_tanh', jax.nn.hard_tanh, gapto(-1, 1))
un('soft_sign', jax.nn.soft_sign, gapto(0))
un('log_sigmoid', jax.nn.log_sigmoid)
un('mish', lambda x: x * jnp.tanh(jax.nn.softplus(x)))
un('erf', lax.erf)
un('erfc', lax.erfc)
un('erf_inv', lax.erf_inv, inside, 'th')
un('lgamma', lax.lgamma, lambda v: bool(np.all(v > 0.3)), 'sq')
un('digamma', lax.digamma, lambda v: bool(np.all(v > 0.3)), 'sq')
un('ndtr', jax.scipy.special.ndtr)
un('logit', jax.scipy.special.logit, lambda v: bool(np.all((v > 0.1) & (v < 0.9))), 'sg')
un('xlogx', lambda x: jax.scipy.special.xlogy(x, x), pos, 'sq')
un('sinc', jnp.sinc, lambda v: nonzero(v) and small(v), 'sg')
un('sign', jnp.sign, gapto(0))
un('floor', jnp.floor, lambda v: bool(np.all(np.abs(v - np.round(v)) > GAP)), w=0.5)
un('round', jnp.round, lambda v: bool(np.all(np.abs(v - np.floor(v) - 0.5) > GAP)), w=0.5)
un('fracpart', lambda x: x - jnp.floor(x), lambda v: bool(np.all(np.abs(v - np.round(v)) > GAP)), w=0.5)
un('abs', jnp.abs, gapto(0), w=1.5)
un('absq', lambda x: jnp.abs(x * x + 0.1))
un('hardclip', lambda x: jnp.clip(x, -0.8317, 0.6171), gapto(-0.8317, 0.6171))
un('clamp', lambda x: lax.clamp(-0.5113, x, 0.9117), gapto(-0.5113, 0.9117))
un('wherepos', lambda x: jnp.where(x > 0.1031, jnp.sin(x), x * x), gapto(0.1031), w=1.5)
un('selcmp', lambda x: jnp.where((x > -0.4017) & ~(x >= 0.7019), 2 * x, -x * x), gapto(-0.4017, 0.7019))
un('pwise', lambda x: jnp.piecewise(x, [x < 0.2023], [jnp.sin, lambda y: y**3]), gapto(0.2023), w=0.5)
un('stopgrad', lambda x: lax.stop_gradient(x), cpx=True, w=0.7)
un('stopmul', lambda x: x * lax.stop_gradient(x), w=0.7)
un('maskmul', lambda x: x * (x > 0.1031), gapto(0.1031))
un('scale', lambda x, p: p['s'] * x if p['l'] else x * p['s'], cpx=True,
   params=lambda d: {'s': d(st.sampled_from([2.0, -0.5, 0.0, 1.0, 3])), 'l': d(st.booleans())})
un('shift', lambda x, p: p['s'] + x if p['l'] else x - p['s'], cpx=True,
   params=lambda d: {'s': d(st.sampled_from([1.0, -0.5, 0.0, 2])), 'l': d(st.booleans())})
un('rsub', lambda x: 1.0 - x, cpx=True)
un('hyp1', lambda x: jnp.sqrt(1.0 + x * x), cpx=False)
un('copy', lambda x: lax.copy(x) if hasattr(lax, 'copy') else x + 0, w=0.2)
un('nan2num', jnp.nan_to_num, w=0.4)
un('deg', lambda x: jnp.deg2rad(x), w=0.4)
un('i0e', lambda x: jax.scipy.special.i0e(x), gapto(0), w=0.4)
un('bessel1', lambda x: jax.scipy.special.i1e(x), gapto(0), w=0.4)


# ------------------------------------------------------------------ elementwise, several operands
def bshape_variants(d, shape):
    """A shape which broadcasts against `shape`."""
    k = d(st.integers(0, 5))
    s = list(shape)
    if k <= 1:
        return s
    if k == 2:
        return []
    if k == 3:
        return [1 if d(st.booleans()) else x for x in s]
    if k == 4 and s:
        return s[d(st.integers(1, len(s))):]
    if k == 5 and prod(s) * 2 <= MAXSIZE and len(s) < 3:
        return [d(st.integers(2, 3))] + [1 if d(st.booleans()) else x for x in s]
    return s


def can_bcast(a, b):
    try:
        return prod(np.broadcast_shapes(a, b)) <= MAXSIZE
    except ValueError:
        return False


def pick_pair(d, c, kinds=None):
    """Two operands: at least one depends on the inputs, shapes broadcast."""
    i = c.pick(d, kinds=kinds)
    if i is None:
        return None
    k = d(st.integers(0, 9))
    v = c.vals[i]
    if k <= 4:  # two nodes
        j = c.pick(d, lambda u: can_bcast(u.shape, v.shape), kinds=kinds)
        other = i if j is None else j
    elif k == 5:
        other = i
    elif k == 6:
        other = {'c': [dseed(d), [], 'lit' if d(st.booleans()) else 'lit2']}
    else:
        other = mkconst(d, bshape_variants(d, v.shape), cpx=c.cpx and kinds != 'f' and v.dtype.kind == 'c')
    if d(st.booleans()):
        return [i, other]
    return [other, i]


def binop(name, fn, dom=lambda a, b: True, pre=None, cpx=False, w=1.0, fam='ewb'):
    def gen(d, c):
        pr = pick_pair(d, c, kinds='fc' if cpx and c.cpx else 'f')
        if pr is None:
            return None
        a, b = c.val(pr[0]), c.val(pr[1])
        if not can_bcast(a.shape, b.shape):
            return None
        p = {}
        if not dom(*np.broadcast_arrays(a, b)):
            if pre is None or a.dtype.kind == 'c' or b.dtype.kind == 'c':
                return None
            p['pre'] = list(pre)
        return pr, p

    def run(p, x, y):
        if 'pre' in p:
            x, y = PRE[p['pre'][0]](x), PRE[p['pre'][1]](y)
        return fn(x, y)

    defop(name, fam, gen, run, w)


noeq = lambda a, b: bool(np.all(np.abs(a - b) > GAP))
binop('add', lambda x, y: x + y, cpx=True, w=2)
binop('sub', lambda x, y: x - y, cpx=True, w=2)
binop('mul', lambda x, y: x * y, cpx=True, w=4)
binop('div', lambda x, y: x / y, lambda a, b: nonzero(b), ('id', 'sq'), cpx=True, w=3)
binop('pow', lambda x, y: jnp.power(x, y), lambda a, b: bool(np.all(a > 0.2)) and small(b), ('sq', 'th'), w=2)
binop('atan2', lambda x, y: jnp.arctan2(x, y), lambda a, b: bool(np.all(np.abs(a) + np.abs(b) > 0.3)) and bool(np.all((np.abs(a) > GAP) | (b > 0))), ('id', 'sq'), w=2)
binop('max', jnp.maximum, noeq, w=1.5)
binop('min', jnp.minimum, noeq, w=1.5)
binop('logaddexp', jnp.logaddexp, w=1.5)
binop('logaddexp2', jnp.logaddexp2, w=0.5)
binop('hypot', lambda x, y: jnp.sqrt(x * x + y * y), lambda a, b: bool(np.all(a * a + b * b > 0.05)), ('sq', 'id'))
binop('sqdiff', lambda x, y: (x - y) ** 2, cpx=True)
binop('absdiff', lambda x, y: jnp.abs(x - y), noeq)
binop('xlogy', jax.scipy.special.xlogy, lambda a, b: bool(np.all(b > 0.2)), ('id', 'sq'))
binop('rem', lambda x, y: jnp.fmod(x, y), lambda a, b: nonzero(b) and bool(np.all(np.abs(a / b - np.round(a / b)) > GAP)), w=0.5)
binop('whereab', lambda x, y: jnp.where(x > y, x * y, y - x), noeq)
binop('muladd', lambda x, y: x * y + x, cpx=True)
binop('mulsin', lambda x, y: jnp.sin(x) * y)
binop('polar', lambda x, y: x * jnp.cos(y))
binop('rank1', lambda x, y: x * x * y * y + y)


def gen_where(d, c):
    pr = pick_pair(d, c)
    if pr is None:
        return None
    sh = np.broadcast_shapes(c.val(pr[0]).shape, c.val(pr[1]).shape)
    if prod(sh) > MAXSIZE:
        return None
    return pr + [{'c': [dseed(d), bshape_variants(d, sh) if d(st.booleans()) else list(sh), 'b']}], {}


defop('where', 'ewb', gen_where, lambda p, x, y, m: jnp.where(m, x, y), 2)


def gen_where_node(d, c):
    # the condition is computed from the inputs
    r = gen_where(d, c)
    if r is None:
        return None
    (a, b, _), _ = r
    sh = np.broadcast_shapes(c.val(a).shape, c.val(b).shape)
    k = c.pick(d, lambda v: v.dtype.kind == 'f' and can_bcast(v.shape, sh) and gapto(0.2117)(v), kinds='f')
    if k is None:
        return None
    return [a, b, k], {}


defop('wheredep', 'ewb', gen_where_node, lambda p, x, y, k: jnp.where(k > 0.2117, x, y), 1.5)


def gen_select_n(d, c):
    i = c.pick(d)
    v = c.vals[i]
    n = d(st.integers(2, 3))
    args = [i]
    for _ in range(n - 1):
        j = c.pick(d, lambda u: u.shape == v.shape and u.dtype == v.dtype)
        args.append(j if d(st.integers(0, 3)) else mkconst(d, v.shape, 'n' if v.dtype.kind == 'f' else 'c'))
    k = d(st.integers(0, n - 1))
    args = args[k:] + args[:k]
    return args, {'s': dseed(d), 'scalar': d(st.booleans())}


def run_select_n(p, *xs):
    sh = () if p['scalar'] else np.shape(xs[0])
    w = np.random.RandomState(p['s']).randint(0, len(xs), size=sh)
    if len(xs) == 2:
        w = np.asarray(w).astype(bool)
    return lax.select_n(jnp.asarray(w), *[jnp.asarray(x) for x in xs])


defop('select_n', 'ewb', gen_select_n, run_select_n, 1.5)


def gen_clamp3(d, c):
    i = c.pick(d, kinds='f')
    if i is None:
        return None
    sh = c.vals[i].shape
    j = c.pick(d, lambda u: u.shape == sh, kinds='f')
    lo = c.vals[j] - 0.3137
    hi = c.vals[j] + 0.4291
    v = c.vals[i]
    if np.min(np.abs(v - lo), initial=1) < GAP or np.min(np.abs(v - hi), initial=1) < GAP:
        return None
    return [i, j], {}


defop('clamp3', 'ewb', gen_clamp3, lambda p, x, y: lax.clamp(y - 0.3137, x, y + 0.4291), 0.7)


def gen_fma(d, c):
    pr = pick_pair(d, c)
    if pr is None:
        return None
    sh = np.broadcast_shapes(c.val(pr[0]).shape, c.val(pr[1]).shape)
    if prod(sh) > MAXSIZE:
        return None
    k = c.pick(d, lambda v: can_bcast(v.shape, sh))
    return pr + [k], {}


defop('fma', 'ewb', gen_fma, lambda p, x, y, z: x * y + z, 1)
defop('prod3', 'ewb', gen_fma, lambda p, x, y, z: x * y * z, 1)
