"""Reductions, cumulative operations, sorting, contractions, linear algebra, complex numbers."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from .rnd import st
from jax import lax

from .ops import GAP, MAXSIZE, defop, dseed, isconst, mkconst, prod, un
from .ops_idx import axis, distinct, g1, gen_mix, pick_nd, run_mix


def axes(d, v):
    """None, one axis or several axes; also negative and empty."""
    k = d(st.integers(0, 5))
    if k == 0:
        return None
    if v.ndim == 0:
        return None
    if k <= 2:
        return axis(d, v)
    a = sorted(set(d(st.lists(st.integers(0, v.ndim - 1), min_size=0 if k == 5 else 1, max_size=v.ndim))))
    if d(st.booleans()):
        a = [x - v.ndim for x in a]
    return a


def tup(a):
    return tuple(a) if isinstance(a, list) else a


def p_axes(d, v):
    return {'a': axes(d, v), 'k': d(st.booleans())}


def redgap(p, v):
    """Distances between the entries of every group that is reduced."""
    a = tup(p['a'])
    if a is None:
        a = tuple(range(v.ndim))
    if isinstance(a, int):
        a = (a,)
    a = tuple(x % v.ndim for x in a)
    m = np.moveaxis(v, a, range(len(a))).reshape(prod([v.shape[x] for x in a]), -1)
    if m.shape[0] < 2:
        return True
    return bool(np.all(np.diff(np.sort(m, 0), axis=0) > GAP))


def red(name, fn, w=1.0, lo=0, ok=lambda p, v: True, cpx=False):
    def gen(d, c):
        i = pick_nd(d, c, lo, kinds='fc' if cpx and c.cpx else 'f')
        if i is None:
            return None
        p = p_axes(d, c.vals[i])
        if not ok(p, c.vals[i]):
            return None
        return [i], p

    defop(name, 'red', gen, lambda p, x: fn(x, axis=tup(p['a']), keepdims=p['k']), w)


one = lambda p, v: not isinstance(p['a'], list) or len(p['a']) > 0
red('sum', jnp.sum, 4, cpx=True)
red('mean', jnp.mean, 1, cpx=True, ok=one)
red('rmax', jnp.max, 1.5, ok=redgap)
red('rmin', jnp.min, 1, ok=redgap)
red('rprod', jnp.prod, 1.5, ok=lambda p, v: bool(np.all(np.abs(v) > 0.05)), cpx=True)
red('rprodz', jnp.prod, 0.5)
red('var', jnp.var, 1, ok=one)
red('std', lambda x, **k: jnp.sqrt(jnp.var(x, **k) + 0.3), 0.7, ok=one)
red('lse', jax.nn.logsumexp, 2)
red('norm', lambda x, axis, keepdims: jnp.sqrt(jnp.sum(x * x, axis=axis, keepdims=keepdims) + 0.1), 1)
red('ptp', lambda x, axis, keepdims: jnp.max(x, axis=axis, keepdims=keepdims) - jnp.min(x, axis=axis, keepdims=keepdims), 0.7, ok=redgap)
red('anyred', lambda x, axis, keepdims: jnp.where(jnp.any(x > 0.1713, axis=axis, keepdims=keepdims), jnp.sum(x, axis=axis, keepdims=keepdims), 0.5), 0.7,
    ok=lambda p, v: bool(np.all(np.abs(v - 0.1713) > GAP)))
red('sumwhere', lambda x, axis, keepdims: jnp.sum(x, axis=axis, keepdims=keepdims, where=np.arange(x.size).reshape(x.shape) % 3 != 1), 0.6)
red('laxmax', lambda x, axis, keepdims: lax.reduce_max_p.bind(x, axes=tuple(range(x.ndim)) if axis is None else tuple(sorted(a % x.ndim for a in ([axis] if isinstance(axis, int) else axis)))), 0.6, ok=redgap)
red('sumsq', lambda x, axis, keepdims: jnp.sum(x**2, axis=axis, keepdims=keepdims), 2, cpx=True)


def defred1(name, fn, w=1.0, params=lambda d, v: {'a': axis(d, v)}, pred=lambda v: True, kinds='f', lo=1):
    defop(name, 'red', g1(lo, params, pred, kinds=kinds), lambda p, x: fn(x, p), w)


vecnorm = lambda v: bool(np.all(np.sum(v * v) > 0.1))
defred1('l2norm', lambda x, p: jnp.linalg.norm(x, axis=p['a']), 1.5, pred=lambda v: v.ndim > 0 and all(np.all(np.sum(v * v, k) > 0.05) for k in range(v.ndim)))
defred1('fronorm', lambda x, p: jnp.linalg.norm(x), 0.7, params=lambda d, v: {}, pred=vecnorm)
defred1('softmax', lambda x, p: jax.nn.softmax(x, axis=p['a']), 1.5)
defred1('log_softmax', lambda x, p: jax.nn.log_softmax(x, axis=p['a']), 1)
defred1('layernorm', lambda x, p: (x - x.mean(p['a'], keepdims=True)) / jnp.sqrt(x.var(p['a'], keepdims=True) + 0.3), 1.5)
defred1('cumsum', lambda x, p: lax.cumsum(x, p['a'] % x.ndim, reverse=p['r']), 1.5, params=lambda d, v: {'a': axis(d, v), 'r': d(st.booleans())})
defred1('cumprod', lambda x, p: lax.cumprod(x, p['a'] % x.ndim, reverse=p['r']), 1, params=lambda d, v: {'a': axis(d, v), 'r': d(st.booleans())}, pred=lambda v: bool(np.all(np.abs(v) > 0.05)))
defred1('cummax', lambda x, p: lax.cummax(x, p['a'] % x.ndim), 0.7, pred=distinct)
defred1('cumlse', lambda x, p: lax.cumlogsumexp(x, p['a'] % x.ndim), 0.7)
defred1('sort', lambda x, p: jnp.sort(x, axis=p['a']), 1.5, pred=distinct)
defred1('sortdesc', lambda x, p: -jnp.sort(-x, axis=p['a']), 0.6, pred=distinct)
defred1('sort2', lambda x, p: lax.sort((x, x * x + 1.0), dimension=p['a'] % x.ndim, num_keys=1)[1], 0.8, pred=distinct)
defred1('topk', lambda x, p: lax.top_k(x, p['k'])[0], 1, params=lambda d, v: {'k': d(st.integers(1, v.shape[-1]))}, pred=distinct)
defred1('topksum', lambda x, p: (lambda v, i: v * jnp.take_along_axis(x * x, i, -1))(*lax.top_k(x, p['k'])), 0.6, params=lambda d, v: {'k': d(st.integers(1, v.shape[-1]))}, pred=distinct)
defred1('median', lambda x, p: jnp.median(x, axis=p['a']), 0.6, pred=distinct)
defred1('argmaxval', lambda x, p: jnp.take_along_axis(x, jnp.argmax(x, p['a'], keepdims=True), p['a']), 0.8, pred=distinct)
defred1('segsum', lambda x, p: jax.ops.segment_sum(x, np.array(p['s']), p['n']), 1.5, params=lambda d, v: {'s': [d(st.integers(0, 2)) for _ in range(v.shape[0])], 'n': 3})
defred1('segmax', lambda x, p: jax.ops.segment_max(x, np.array(p['s']), p['n']), 0.6, params=lambda d, v: {'s': list(range(min(2, v.shape[0]))) + [d(st.integers(0, 1)) for _ in range(v.shape[0] - 2)], 'n': min(2, v.shape[0])}, pred=distinct)
defred1('window_sum', lambda x, p: lax.reduce_window(x, 0.0, lax.add, (2,) + (1,) * (x.ndim - 1), (p['st'],) + (1,) * (x.ndim - 1), p['pad']), 0.8,
        params=lambda d, v: {'st': d(st.integers(1, 2)), 'pad': d(st.sampled_from(['SAME', 'VALID']))}, pred=lambda v: v.shape[0] > 1)
defred1('window_max', lambda x, p: lax.reduce_window(x, -jnp.inf, lax.max, (2,) + (1,) * (x.ndim - 1), (1,) * x.ndim, 'VALID'), 0.6, params=lambda d, v: {}, pred=lambda v: v.shape[0] > 1 and distinct(v))
defred1('trace', lambda x, p: jnp.trace(x), 0.8, params=lambda d, v: {}, lo=2)
defred1('average', lambda x, p: jnp.average(x, axis=p['a'], weights=jnp.arange(1.0, 1 + x.shape[p['a']])), 0.7)
defred1('matsumall', lambda x, p: x.sum((0, -1)), 0.7, params=lambda d, v: {}, lo=2)
defred1('cumsum_j', lambda x, p: jnp.cumsum(x), 0.5, params=lambda d, v: {})
defred1('centered', lambda x, p: x - x.sum(p['a'], keepdims=True) / x.shape[p['a']], 1.2)


# ------------------------------------------------------------------ reductions of arrays with more dimensions
SPRED = {
    'sum': lambda y, a, k: y.sum(a, keepdims=k), 'lsum': lambda y, a, k: lax.reduce_sum_p.bind(y, axes=a), 'prod': lambda y, a, k: jnp.prod(0.5 + 0.5 * jnp.tanh(y), a, keepdims=k),
    'sumsq': lambda y, a, k: (y * y).sum(a, keepdims=k), 'lse': lambda y, a, k: jnp.log(jnp.exp(0.3 * y).sum(a, keepdims=k)), 'mulsum': lambda y, a, k: (y * jnp.sin(y)).sum(a, keepdims=k),
    'cumsum': lambda y, a, k: lax.cumsum(y, a[0]), 'mean': lambda y, a, k: y - y.mean(a, keepdims=True),
}


def gen_spred(d, c):
    g = gen_mix(d, c)
    if g is None:
        return None
    args, p = g
    nd = d(st.sampled_from([2, 3, 3, 4, 4, 5]))
    s = [d(st.integers(1 if nd < 4 else 2, 3 if nd < 4 else 2)) for _ in range(nd)]
    if nd == 4 and d(st.booleans()):
        s[d(st.integers(0, 3))] = 3
    # the dimensions along which the dependencies change
    vary = [d(st.integers(0, 2)) > 0 for _ in s]
    p['s'] = [x if v else 1 for x, v in zip(s, vary)]
    k = d(st.sampled_from([1, 1, 1, 2, 2, nd]))
    return args, {'a': p, 's': s, 'x': sorted(d(st.permutations(list(range(nd))))[:k]), 'k': d(st.integers(0, 3)) == 0, 'f': d(st.sampled_from(['sum', 'sum', 'sum'] + sorted(SPRED))), 'w': dseed(d)}


def run_spred(p, x, u):
    y = run_mix(p['a'], x, u)
    w = np.round(np.random.RandomState(p['w']).uniform(-1, 1, p['s']), 2)
    return SPRED[p['f']](y * w if p['w'] % 3 or p['f'] == 'cumsum' else jnp.broadcast_to(y, tuple(p['s'])), tuple(p['x']), p['k'])


defop('spred', 'red', gen_spred, run_spred, 6)


# ------------------------------------------------------------------ contractions
def other_operand(d, c, shape, cpx, fit=None):
    """A node of that shape, a reshaped/fitted node, or a constant."""
    k = d(st.integers(0, 3))
    if k:
        j = c.pick(d, lambda u: u.shape == tuple(shape))
        if j is not None:
            return j
        n = prod(shape)
        j = c.pick(d, lambda u: u.size >= n > 0)
        if j is not None:
            return j  # the runner resizes it
    return mkconst(d, shape, cpx=cpx)


def fit(x, shape):
    shape = tuple(shape)
    if np.shape(x) == shape:
        return x
    n = prod(shape)
    return jnp.reshape(jnp.ravel(x)[:n], shape)


def gen_dot(d, c):
    i = pick_nd(d, c, 0)
    if i is None:
        return None
    v = c.vals[i]
    if v.ndim > 3:
        return None
    roles = [d(st.sampled_from(['b', 'k', 'k', 'f'])) for _ in range(v.ndim)]
    nb = [a for a, r in enumerate(roles) if r == 'b']
    nk = [a for a, r in enumerate(roles) if r == 'k']
    extra = [d(st.integers(1, 3)) for _ in range(d(st.integers(0, 3 - len(nb) - len(nk))) if len(nb) + len(nk) < 3 else 0)]
    dims = [('b', a) for a in nb] + [('k', a) for a in nk] + [('f', s) for s in extra]
    perm = d(st.permutations(list(range(len(dims))))) if d(st.booleans()) else (
        # aligned with the order on the left hand side
        sorted(range(len(dims)), key=lambda q: (dims[q][0] != 'f', dims[q][1] if dims[q][0] != 'f' else 0)))
    rdims = [dims[q] for q in perm]
    rshape = [s if t == 'f' else v.shape[s] for t, s in rdims]
    if d(st.booleans()):
        nb = d(st.permutations(nb))
    if d(st.booleans()):
        nk = d(st.permutations(nk))
    rb = [next(q for q, (t, s) in enumerate(rdims) if t == 'b' and s == a) for a in nb]
    rk = [next(q for q, (t, s) in enumerate(rdims) if t == 'k' and s == a) for a in nk]
    out = prod([v.shape[a] for a in nb]) * prod([v.shape[a] for a, r in enumerate(roles) if r == 'f']) * prod(extra)
    if out > MAXSIZE or prod(rshape) > MAXSIZE or out * prod([v.shape[a] for a in nk]) > 300:
        return None
    o = other_operand(d, c, rshape, c.cpx and v.dtype.kind == 'c')
    return [i, o], {'k': [list(nk), rk], 'b': [list(nb), rb], 'rs': rshape, 'sw': d(st.booleans())}


def run_dot(p, x, y):
    y = fit(y, p['rs'])
    x, y = jnp.asarray(x), jnp.asarray(y)
    dt = jnp.promote_types(x.dtype, y.dtype)
    x, y = x.astype(dt), y.astype(dt)
    k, b = p['k'], p['b']
    if p['sw']:
        return lax.dot_general(y, x, ((k[1], k[0]), (b[1], b[0])))
    return lax.dot_general(x, y, ((k[0], k[1]), (b[0], b[1])))


defop('dot_general', 'dot', gen_dot, run_dot, 6)

EINSUMS = ['ij,jk->ik', 'ij,kj->ik', 'ij,ij->', 'ij,ij->i', 'ij,ij->j', 'ij,ij->ij', 'ij,j->i', 'ij,i->j', 'i,i->', 'i,j->ij', 'ij,jk->ki', 'bij,bjk->bik',
           'bi,bc->bic', 'bi,cb->bci', 'bi,cbi->bc', 'cbi,bi->bc', 'bi,cbi->cb', 'bic,bi->bc', 'bi,bic->cb', 'bij,bij->b', 'bij,ij->b', 'i,ijk->jk', 'ijk,jk->i', 'ij,kl->ikjl',
           'ii,ij->j', 'ij,jj->i', 'bij,bj->bi', 'bij,bi->bj', 'ab,abc->ac', 'abc,ab->c', 'ij,ji->', 'ij,ji->i', 'i,i->i', 'bi,bi->ib', ',ij->ij', 'ij,->ji', 'bci,bi->bc', 'ibc,ib->bc']


def gen_einsum(d, c):
    i = pick_nd(d, c, 0)
    if i is None:
        return None
    v = c.vals[i]
    cands = []
    for e in EINSUMS:
        l, r = e.split('->')[0].split(',')
        for first in (0, 1):
            s = (l, r)[first]
            if len(s) == v.ndim:
                m = {}
                if all(m.setdefault(ch, n) == n for ch, n in zip(s, v.shape)):
                    cands.append((e, first))
    if not cands:
        return None
    e, first = d(st.sampled_from(cands))
    lr, o = e.split('->')
    l, r = lr.split(',')
    s, t = (l, r) if first == 0 else (r, l)
    m = dict(zip(s, v.shape))
    for ch in t:
        m.setdefault(ch, None)
    for ch in m:
        if m[ch] is None:
            m[ch] = d(st.integers(1, 3))
    rs = [m[ch] for ch in t]
    if prod(rs) > MAXSIZE or prod([m[ch] for ch in o]) > MAXSIZE or prod(list(m.values())) > 300:
        return None
    ot = other_operand(d, c, rs, c.cpx and v.dtype.kind == 'c')
    return [i, ot], {'e': e, 'f': first, 'rs': rs}


def run_einsum(p, x, y):
    y = fit(y, p['rs'])
    return jnp.einsum(p['e'], x, y) if p['f'] == 0 else jnp.einsum(p['e'], y, x)


defop('einsum', 'dot', gen_einsum, run_einsum, 4)


def gen_multi(d, c):
    """Contractions over several dimensions of two nodes, mostly in different orders."""
    i = pick_nd(d, c, 2, lambda v: v.ndim <= 3)
    if i is None:
        return None
    v = c.vals[i]
    k = list(d(st.permutations(list(range(v.ndim)))))[: d(st.integers(2, v.ndim))]
    extra = [d(st.integers(1, 2))] if len(k) < 3 and d(st.booleans()) else []
    m = [v.shape[a] for a in k]
    r = list(d(st.permutations(list(range(len(k))))))  # position on the right hand side
    off = 0 if d(st.booleans()) else len(extra)
    rshape = [0] * len(k)
    for a, pos in zip(m, r):
        rshape[pos] = a
    rshape = (extra + rshape) if off else (rshape + extra)
    if prod(rshape) > MAXSIZE or v.size * prod(extra) > 300:
        return None
    o = i if prod(rshape) == v.size and d(st.booleans()) else other_operand(d, c, rshape, c.cpx and v.dtype.kind == 'c')
    return [i, o], {'k': [k, [pos + off for pos in r]], 'b': [[], []], 'rs': rshape, 'sw': d(st.booleans()), 'g': d(st.booleans())}


defop('multi_dot', 'dot', gen_multi, lambda p, x, y: run_dot(p, x, jnp.sin(y) if p['g'] else y), 4)


def gen_matc(d, c):
    i = pick_nd(d, c, 1)
    if i is None:
        return None
    v = c.vals[i]
    m = d(st.integers(1, 4))
    if v.size // max(v.shape[-1], 1) * m > MAXSIZE:
        return None
    return [i, mkconst(d, [v.shape[-1], m], 'n')], {'bias': d(st.booleans())}


defop('dense', 'dot', gen_matc, lambda p, x, w: jnp.dot(x, w) + (0.25 if p['bias'] else 0), 3)


def gen_matl(d, c):
    i = pick_nd(d, c, 1, lambda v: v.ndim <= 2)
    if i is None:
        return None
    v = c.vals[i]
    m = d(st.integers(1, 3))
    return [i, mkconst(d, [m, v.shape[0]], 'n')], {}


defop('mixl', 'dot', gen_matl, lambda p, x, w: w @ x, 2)
defop('gram', 'dot', g1(2, lambda d, v: {'t': d(st.booleans())}, lambda v: v.ndim == 2), lambda p, x: x @ x.T if p['t'] else x.T @ x, 2)
defop('selfdot', 'dot', g1(1, pred=lambda v: v.ndim == 1), lambda p, x: jnp.dot(x, x), 1)
defop('vdot', 'dot', g1(1, kinds='f'), lambda p, x: jnp.vdot(x, jnp.sin(x)), 1)
defop('outer', 'dot', g1(1, pred=lambda v: v.size <= 6), lambda p, x: jnp.outer(x, x), 1)
defop('kron', 'dot', g1(1, pred=lambda v: v.size <= 4), lambda p, x: jnp.kron(x, jnp.asarray([1.0, -0.5]).reshape((2,) + (1,) * (x.ndim - 1))), 0.6)
defop('quad', 'dot', g1(1, pred=lambda v: v.ndim <= 2), lambda p, x: (x @ (jnp.reshape(jnp.arange(x.shape[-1] ** 2) * 0.1 - 0.4, (x.shape[-1],) * 2)) * x).sum(-1), 1)
defop('attn', 'dot', g1(2, pred=lambda v: v.ndim == 2, kinds='f'), lambda p, x: jax.nn.softmax(x @ x.T) @ x, 1.5)
defop('tensordot', 'dot', g1(2, lambda d, v: {'s': dseed(d)}, lambda v: v.ndim <= 3), lambda p, x: jnp.tensordot(x, jnp.asarray(np.round(np.random.RandomState(p['s']).uniform(-1, 1, x.shape[-2:] + (2,)), 2)), 2), 1)
defop('tdot_self', 'dot', g1(2, pred=lambda v: v.ndim == 2), lambda p, x: jnp.tensordot(x, x * x, ((0,), (0,))), 1)


def p_conv(d, v):
    return {'s': dseed(d), 'k': d(st.integers(1, 2)), 'st': d(st.integers(1, 2)), 'pad': d(st.sampled_from(['SAME', 'VALID'])), 'dep': d(st.integers(0, 2)) == 0}


def run_conv(p, x):
    # [b, n, c] convolution over n
    k = jnp.asarray(np.round(np.random.RandomState(p['s']).uniform(-1, 1, (p['k'], x.shape[2], 2)), 2))
    if p['dep']:
        k = k * jnp.ravel(x)[0]
    return lax.conv_general_dilated(x, k, (p['st'],), p['pad'], dimension_numbers=('NWC', 'WIO', 'NWC'))


defop('conv', 'dot', g1(3, p_conv, lambda v: v.ndim == 3 and v.shape[1] > 1, kinds='f'), run_conv, 1.5)
defop('convolve', 'dot', g1(1, lambda d, v: {'m': d(st.sampled_from(['full', 'same', 'valid']))}, lambda v: v.ndim == 1 and v.size > 1, kinds='f'),
      lambda p, x: jnp.convolve(x, jnp.asarray([0.5, -1.0]), mode=p['m']), 0.6)
defop('polyval', 'dot', g1(0), lambda p, x: 0.5 + x * (1.0 + x * (-0.5 + x * 0.25)), 0.4)


# ------------------------------------------------------------------ linear algebra
def matrix(x, n, s, shift, b=0):
    """A well conditioned matrix (or batch) of size n made of the entries of x."""
    m = max(b, 1)
    r = np.random.RandomState(s)
    base = np.stack([np.eye(n)[r.permutation(n)] * r.choice([-1.0, 1.0], size=n) for _ in range(m)]) * shift
    v = jnp.ravel(x)
    idx = np.arange(m * n * n).reshape(m, n, n) % v.shape[0]
    out = base + (0.8 / n) * jnp.tanh(v)[idx] * np.round(r.uniform(0.3, 1, (m, n, n)), 2)
    return out if b else out[0]


def p_mat(d, v):
    return {'n': d(st.integers(1, 3)), 's': dseed(d), 'b': d(st.sampled_from([0, 0, 2, 3, 1]))}


def lin(name, fn, w=1.0, params=lambda d, v: {}, kinds='f'):
    def pp(d, v):
        q = p_mat(d, v)
        q.update(params(d, v))
        return q

    defop(name, 'lin', g1(0, pp, kinds=kinds), lambda p, x: fn(matrix(x, p['n'], p['s'], 1.7, p['b']), p, x), w)


def rhs(p, dep, x, cols=2):
    n, b = p['n'], p['b']
    r = np.round(np.random.RandomState(p['s'] + 1).uniform(-1, 1, ((b,) if b else ()) + (n, cols)), 2)
    return r * jnp.sin(jnp.ravel(x)[0]) + r**2 if dep else jnp.asarray(r)


D = lambda d, v: {'d': d(st.booleans()), 'dm': d(st.booleans())}
spd = lambda A: A @ jnp.swapaxes(A, -1, -2) + 0.5 * jnp.eye(A.shape[-1])
lin('slogdet', lambda A, p, x: jnp.linalg.slogdet(A)[1], 4)
lin('slogdet_s', lambda A, p, x: (lambda r: r[0] * r[1])(jnp.linalg.slogdet(A)), 2)
lin('slogdet_expr', lambda A, p, x: (lambda s, l: (s * jnp.exp(l)).sum())(*jnp.linalg.slogdet(A)), 1.5)
lin('det', lambda A, p, x: jnp.linalg.det(A), 1.5)
lin('inv', lambda A, p, x: jnp.linalg.inv(A), 1.5)
lin('solve', lambda A, p, x: jnp.linalg.solve(A if p['dm'] or not p['d'] else lax.stop_gradient(A) * 0 + 2 * jnp.eye(p['n']) + 0.3, rhs(p, p['d'], x)), 1.5, D)
lin('solve_cm', lambda A, p, x: jnp.linalg.solve(jnp.eye(p['n']) * 2 + 0.3, rhs({**p, 'b': 0}, True, x)), 0.7)
lin('trisolve', lambda A, p, x: jax.scipy.linalg.solve_triangular(A[0] * 0.2 + 1.5 * jnp.eye(p['n']) if p['b'] else A * 0.2 + 1.5 * jnp.eye(p['n']), rhs({**p, 'b': 0}, p['d'], x), lower=p['dm'], trans=0), 1, D)
lin('cholesky', lambda A, p, x: jnp.linalg.cholesky(spd(A)), 1)
lin('cho_logdet', lambda A, p, x: 2 * jnp.log(jnp.diagonal(jnp.linalg.cholesky(spd(A)), axis1=-2, axis2=-1)).sum(-1), 0.6)
lin('matpow', lambda A, p, x: jnp.linalg.matrix_power(A, p['e']), 0.6, lambda d, v: {'e': d(st.sampled_from([2, 3]))})
lin('logdet_sum', lambda A, p, x: jax.nn.logsumexp(2 * jnp.atleast_1d(jnp.linalg.slogdet(A)[1])), 1)
lin('matmul_chain', lambda A, p, x: A @ A @ rhs(p, p['d'], x), 0.7, D)


def p_direct(d, v):
    return {'s': dseed(d)}


# the matrix is a node of the program itself
defop('slogdet_node', 'lin', g1(2, p_direct, lambda v: v.ndim <= 3 and v.shape[-1] == v.shape[-2] and bool(np.all(np.abs(np.linalg.det(v)) > 0.05)), kinds='f'), lambda p, x: jnp.linalg.slogdet(x)[1], 2)
defop('slogdet_feat', 'lin', g1(1, lambda d, v: {'s': dseed(d)}, lambda v: v.ndim == 2 and v.shape[0] <= 4, kinds='f'),
      lambda p, x: jnp.linalg.slogdet(jnp.tanh(x @ jnp.asarray(np.random.RandomState(p['s']).uniform(-1, 1, (x.shape[1], x.shape[0])))) * 0.5 + 1.3 * jnp.eye(x.shape[0]))[1], 2)

# ------------------------------------------------------------------ complex numbers
cplx = lambda v: v.dtype.kind == 'c'


def gen_cpx2(d, c):
    i = c.pick(d, kinds='f')
    if i is None:
        return None
    v = c.vals[i]
    k = d(st.integers(0, 2))
    j = i if k == 0 else (c.pick(d, lambda u: u.shape == v.shape, kinds='f') if k == 1 else mkconst(d, v.shape, 'n'))
    a = [i, j]
    return (a if d(st.booleans()) else a[::-1]), {}


defop('mkcomplex', 'cpx', gen_cpx2, lambda p, x, y: lax.complex(jnp.asarray(x), jnp.sin(jnp.asarray(y)) + 0.3), 4)
defop('xiy', 'cpx', gen_cpx2, lambda p, x, y: x + 1j * y, 3)
un('expi', lambda x: jnp.exp(1j * x), lambda v: bool(np.all(np.abs(v) < 3)), 'th', fam='cpx', w=3)
un('cconst', lambda x: x * (0.5 - 1.2j) + 0.3j, fam='cpx', cpx=True, w=2)


def cop(name, fn, dom=lambda v: True, w=1.0, params=lambda d, v: {}, lo=0):
    defop(name, 'cpx', g1(lo, params, lambda v: cplx(v) and dom(v), kinds='c'), lambda p, x: fn(x), w)


away = lambda v: bool(np.all(np.abs(v) > 0.15))
cut = lambda v: away(v) and bool(np.all((v.real > 0.05) | (np.abs(v.imag) > 0.05)))
cop('conj', jnp.conj, w=2)
cop('real', jnp.real, w=2)
cop('imag', jnp.imag, w=2)
cop('cabs', jnp.abs, away, w=4)
cop('abs2', lambda z: (z * z.conj()).real, w=2)
cop('abs2r', lambda z: z.real**2 + z.imag**2)
cop('angle', jnp.angle, cut, w=1.5)
cop('clog', jnp.log, cut, w=1.5)
cop('csqrt', jnp.sqrt, cut, w=1)
cop('cexp', lambda z: jnp.exp(0.3 * z), w=1.5)
cop('csin', lambda z: jnp.sin(0.5 * z), lambda v: bool(np.all(np.abs(v) < 5)), w=1)
cop('ctanh', lambda z: jnp.tanh(0.3 * z), lambda v: bool(np.all(np.abs(v) < 2)), w=1)
cop('csq', lambda z: z * z, w=1)
cop('cint', lambda z: lax.integer_pow(z, 3), w=1)
cop('crec', lambda z: 1.0 / z, away, w=1)
cop('cconjmul', lambda z: z * jnp.conj(z), w=1.5)
cop('clogabs', lambda z: jnp.log(jnp.abs(z)), away, w=1.5)
cop('cphase', lambda z: z / jnp.abs(z), away, w=1.5)
cop('cvdot', lambda z: jnp.vdot(z, z), w=1.5)
cop('cnorm', lambda z: jnp.sqrt(jnp.sum(jnp.abs(z) ** 2) + 0.1), away, w=1)
cop('cmean', lambda z: jnp.mean(z), w=0.7)
cop('creprod', lambda z: jnp.real(z) * jnp.imag(z), w=1)

# functions of complex numbers with custom derivative rules, i.e., without a rule of their own
CFUN = {
    'density': lambda z: jnp.sum(z.real**2 * z.imag, -1) + jnp.prod(0.5 + z.real**2 + z.imag**2, -1),
    'interfere': lambda z: jnp.real(jnp.sum(z, -1) * jnp.conj(jnp.sum(z * z, -1))),
    'coupled': lambda z: z.real * jnp.sum(z.imag, -1, keepdims=True) - jnp.abs(z) ** 2,
    'imagprod': lambda z: jnp.imag(jnp.prod(z, -1)) + z[..., 0].real * z[..., -1].imag,
    'whole': lambda z: jnp.sum(jnp.real(z * z)) * jnp.sum(jnp.imag(z)),
    'holo': lambda z: jnp.sum(z * z * z, -1) + 0.3 * jnp.prod(z, -1),
    'holovec': lambda z: z * jnp.sum(jnp.sin(0.3 * z), -1, keepdims=True),
    'nonholo': lambda z: z * jnp.sum(jnp.conj(z), -1, keepdims=True),
}


@functools.lru_cache(None)
def cfun(name):
    f = CFUN[name]
    g = jax.custom_jvp(f)
    g.defjvp(lambda p, t: jax.jvp(f, p, t))
    return g


defop('cj_complex', 'cpx', g1(1, lambda d, v: {'f': d(st.sampled_from(sorted(CFUN)))}, lambda v: cplx(v) and bool(np.all(np.abs(v) < 4) and np.all(np.abs(v) > 0.15)), kinds='c'), lambda p, x: cfun(p['f'])(x), 5)


def cmatrix(z, n, s, b=0):
    m = max(b, 1)
    r = np.random.RandomState(s)
    base = np.stack([np.eye(n)[r.permutation(n)] * np.exp(1j * r.uniform(0, 6, n)) for _ in range(m)]) * 1.7
    v = jnp.ravel(z)
    idx = np.arange(m * n * n).reshape(m, n, n) % v.shape[0]
    out = base + (0.5 / n) * jnp.sin(v.real)[idx] * (1 + 0.5j) + (0.4j / n) * jnp.tanh(v.imag)[idx]
    return out if b else out[0]


def linc(name, fn, w=1.0):
    defop(name, 'cpxlin', g1(0, p_mat, lambda v: cplx(v), kinds='c'), lambda p, x: fn(cmatrix(x, p['n'], p['s'], p['b'])), w)


linc('cslogdet', lambda A: jnp.linalg.slogdet(A)[1], 2)
linc('cslogdet_s', lambda A: jnp.linalg.slogdet(A)[0], 2)
linc('cslogdet_e', lambda A: (lambda s, l: (s * jnp.exp(l)).sum())(*jnp.linalg.slogdet(A)), 2)
linc('cinv', lambda A: jnp.linalg.inv(A), 0.7)
linc('cdet', lambda A: jnp.linalg.det(A), 0.5)
