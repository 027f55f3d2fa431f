"""Indexing and structural operations."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from .rnd import st
from jax import lax

from .ops import GAP, MAXSIZE, defop, dseed, mkconst, prod


def nd(v, lo=1):
    return v.ndim >= lo


def pick_nd(d, c, lo=1, pred=lambda v: True, **k):
    return c.pick(d, lambda v: v.ndim >= lo and v.size > 0 and pred(v), **k)


def g1(lo=1, params=lambda d, v: {}, pred=lambda v: True, **k):
    def gen(d, c):
        i = pick_nd(d, c, lo, pred, **k)
        if i is None:
            return None
        p = params(d, c.vals[i])
        if p is None:
            return None
        return [i], p

    return gen


def axis(d, v, neg=True):
    a = d(st.integers(0, v.ndim - 1))
    return a - v.ndim if neg and d(st.booleans()) else a


def factor_shapes(n):
    out = [[n], [1, n], [n, 1]]
    for a in range(2, n):
        if n % a == 0:
            out.append([a, n // a])
            for b in range(2, n // a):
                if (n // a) % b == 0:
                    out.append([a, b, n // a // b])
    return out


defop('reshape', 'idx', g1(0, lambda d, v: {'s': d(st.sampled_from(factor_shapes(v.size)))}), lambda p, x: jnp.reshape(x, p['s']), 1.5)
defop('ravelF', 'idx', g1(1, lambda d, v: {}), lambda p, x: jnp.ravel(x, order='F'), 0.4)
defop('transpose', 'idx', g1(1, lambda d, v: {'a': d(st.permutations(list(range(v.ndim))))}), lambda p, x: jnp.transpose(x, p['a']), 1.5)
defop('expand', 'idx', g1(0, lambda d, v: {'a': d(st.integers(0, v.ndim))} if v.ndim < 4 else None), lambda p, x: jnp.expand_dims(x, p['a']), 1)
defop('squeeze', 'idx', g1(1, pred=lambda v: 1 in v.shape), lambda p, x: jnp.squeeze(x), 0.7)
defop('squeeze1', 'idx', g1(1, lambda d, v: {'a': d(st.sampled_from([i for i, s in enumerate(v.shape) if s == 1]))}, pred=lambda v: 1 in v.shape),
      lambda p, x: jnp.squeeze(x, p['a']), 0.7)


def p_bcast(d, v):
    if v.ndim > 3:
        return None
    s = list(v.shape)
    for i in range(len(s)):
        if s[i] == 1:
            s[i] = d(st.sampled_from([1, 2, 3]))
    if v.ndim < 3 and d(st.booleans()):
        s = [d(st.integers(1, 3))] + s
    return {'s': s} if prod(s) <= MAXSIZE else None


defop('broadcast_to', 'idx', g1(0, p_bcast), lambda p, x: jnp.broadcast_to(x, p['s']), 1)


def p_bid(d, v):
    # general broadcast_in_dim with new dims anywhere
    if v.ndim > 2:
        return None
    n = v.ndim + d(st.integers(0, 2))
    dims = sorted(d(st.permutations(list(range(n))))[: v.ndim])
    s = [d(st.integers(1, 3)) for _ in range(n)]
    for k, a in zip(dims, v.shape):
        s[k] = a if a != 1 else d(st.sampled_from([1, 2]))
    return {'s': s, 'd': dims} if prod(s) <= MAXSIZE else None


defop('bcast_in_dim', 'idx', g1(0, p_bid), lambda p, x: lax.broadcast_in_dim(x, tuple(p['s']), tuple(p['d'])), 1)


def p_slice(d, v):
    out = []
    for s in v.shape:
        a = d(st.integers(0, s - 1))
        b = d(st.integers(a + 1, s))
        st_ = d(st.sampled_from([1, 1, 2]))
        out.append([a, b, st_])
    return {'s': out}


def p_pyslice(d, v):
    out = []
    for s in v.shape:
        k = d(st.integers(0, 6))
        if k <= 1:
            out.append([None, None, None])
        elif k == 2:
            out.append([None, None, -1])
        elif k == 3:
            out.append(d(st.integers(-s, s - 1)))
        elif k == 4:
            out.append([d(st.integers(-s, -1)), None, None])
        elif k == 5:
            out.append([None, d(st.integers(1, s)), None])
        else:
            out.append([s - 1, None, -2])
    if d(st.integers(0, 4)) == 0:
        out.insert(d(st.integers(0, len(out))), 'n')
    return {'s': out}


def run_pyslice(p, x):
    idx = tuple(slice(*e) if isinstance(e, list) else (None if e == 'n' else e) for e in p['s'])
    return x[idx]


defop('slice', 'idx', g1(1, p_slice), lambda p, x: lax.slice(x, [a for a, _, _ in p['s']], [b for _, b, _ in p['s']], [c for _, _, c in p['s']]), 1.2)
defop('pyslice', 'idx', g1(1, p_pyslice), run_pyslice, 2)
defop('rev', 'idx', g1(1, lambda d, v: {'a': sorted(set(d(st.lists(st.integers(0, v.ndim - 1), min_size=1, max_size=2))))}), lambda p, x: lax.rev(x, p['a']), 1)
defop('roll', 'idx', g1(1, lambda d, v: {'k': d(st.integers(-2, 3)), 'a': axis(d, v)}), lambda p, x: jnp.roll(x, p['k'], p['a']), 1)
defop('tile', 'idx', g1(1, lambda d, v: {'r': [d(st.integers(1, 2)) for _ in range(v.ndim)]}), lambda p, x: jnp.tile(x, p['r']), 0.7)
defop('repeat', 'idx', g1(1, lambda d, v: {'a': axis(d, v)}), lambda p, x: jnp.repeat(x, 2, axis=p['a']), 0.6)
defop('diff', 'idx', g1(1, lambda d, v: {'a': axis(d, v)}, pred=lambda v: min(v.shape) > 1), lambda p, x: jnp.diff(x, axis=p['a']), 1)
defop('pairdiff', 'idx', g1(1, pred=lambda v: v.shape[0] ** 2 * (v.size // v.shape[0]) <= 64), lambda p, x: x[:, None] - x[None], 2)
defop('pairsum_outer', 'idx', g1(1, pred=lambda v: v.ndim == 1 and v.size ** 2 <= 64), lambda p, x: x[:, None] * x[None, :], 1)
defop('tril', 'idx', g1(2), lambda p, x: jnp.tril(x), 0.7)
defop('diag', 'idx', g1(1, lambda d, v: {'k': d(st.integers(-1, 1))}, pred=lambda v: v.ndim == 1 and v.size <= 4), lambda p, x: jnp.diag(x, p['k']), 0.7)
defop('diagonal', 'idx', g1(2, lambda d, v: {'k': d(st.integers(-1, 0))}, pred=lambda v: min(v.shape[:2]) > 1), lambda p, x: jnp.diagonal(x, p['k']), 0.7)


def p_pad(d, v):
    cfg = []
    for s in v.shape:
        i = d(st.integers(0, 1))
        lo, hi = d(st.integers(-1, 2)), d(st.integers(-1, 2))
        if s + (s - 1) * i + lo + hi < 1:
            lo = hi = 0
        cfg.append([lo, hi, i])
    return {'c': cfg, 'v': d(st.sampled_from([0.0, 0.5]))}


defop('laxpad', 'idx', g1(1, p_pad, kinds='f'), lambda p, x: lax.pad(x, jnp.asarray(p['v'], x.dtype), [tuple(q) for q in p['c']]), 1)
defop('padlit', 'idx', g1(1, p_pad, kinds='f'), lambda p, x: lax.pad(x, p['v'], [tuple(q) for q in p['c']]), 0.7)
defop('jnppad', 'idx', g1(1, lambda d, v: {'w': [[d(st.integers(0, 1)), d(st.integers(0, 1))] for _ in v.shape], 'm': d(st.sampled_from(['constant', 'edge', 'wrap', 'reflect']))}, pred=lambda v: min(v.shape) > 1),
      lambda p, x: jnp.pad(x, p['w'], mode=p['m']), 0.8)


def gen_concat(d, c):
    i = pick_nd(d, c, 1)
    if i is None:
        return None
    v = c.vals[i]
    a = d(st.integers(0, v.ndim - 1))
    args = [i]
    for _ in range(d(st.integers(1, 2))):
        def okk(u):
            return u.ndim == v.ndim and u.dtype == v.dtype and all(x == y for k, (x, y) in enumerate(zip(u.shape, v.shape)) if k != a)

        if d(st.integers(0, 2)):
            args.append(c.pick(d, okk, dep=d(st.sampled_from([True, True, None]))))
        else:
            s = list(v.shape)
            s[a] = d(st.integers(1, 2))
            args.append(mkconst(d, s, 'n' if v.dtype.kind == 'f' else 'c'))
    k = d(st.integers(0, len(args) - 1))
    args = args[k:] + args[:k]
    if any(x is None for x in args):
        return None
    return args, {'a': a}


defop('concat', 'idx', gen_concat, lambda p, *xs: jnp.concatenate(xs, p['a']), 2.5)


def gen_stack(d, c):
    i = c.pick(d)
    v = c.vals[i]
    if v.ndim > 3:
        return None
    args = [i]
    for _ in range(d(st.integers(1, 2))):
        j = c.pick(d, lambda u: u.shape == v.shape and u.dtype == v.dtype)
        args.append(j if d(st.integers(0, 2)) else mkconst(d, v.shape, 'n' if v.dtype.kind == 'f' else 'c'))
    return args, {'a': d(st.integers(0, v.ndim))}


defop('stack', 'idx', gen_stack, lambda p, *xs: jnp.stack(xs, p['a']), 1.5)


def p_take(d, v):
    a = axis(d, v)
    s = v.shape[a]
    sh = d(st.sampled_from([[], [2], [3], [2, 2], [4]]))
    idx = [d(st.integers(-s, s - 1)) for _ in range(prod(sh))]
    return {'a': a, 'i': idx, 's': sh, 'm': d(st.sampled_from([None, None, 'clip', 'wrap', 'fill'])), 'oob': d(st.integers(0, 5)) == 0}


def run_take(p, x):
    idx = np.array(p['i'], int).reshape(p['s'])
    if p['oob'] and p['m'] in ('clip', 'wrap'):
        idx = idx * 3 + 1
    if p['m'] == 'fill':
        return jnp.take(x, idx, axis=p['a'], mode='fill', fill_value=0.25)
    return jnp.take(x, idx, axis=p['a'], mode=p['m'])


defop('take', 'idx', g1(1, p_take), run_take, 2)


def p_fancy(d, v):
    n = d(st.integers(1, 3))
    return {'i': [[d(st.integers(-s, s - 1)) for _ in range(n)] for s in v.shape[:2]], 'mid': d(st.booleans())}


def run_fancy(p, x):
    i, j = np.array(p['i'][0]), np.array(p['i'][1])
    if p['mid'] and x.ndim > 2:
        return x[i, :, : , None][..., 0] if x.ndim == 3 else x[i, j]
    return x[i, j]


defop('fancy', 'idx', g1(2, p_fancy), run_fancy, 1.2)
defop('take_along', 'idx', g1(1, lambda d, v: {'a': axis(d, v), 's': dseed(d)}),
      lambda p, x: jnp.take_along_axis(x, jnp.asarray(np.random.RandomState(p['s']).randint(0, x.shape[p['a']], size=x.shape)), axis=p['a']), 1)
defop('boolmask', 'idx', g1(1, lambda d, v: {'m': [True] + [d(st.booleans()) for _ in range(v.shape[0] - 1)]}), lambda p, x: x[np.array(p['m'])], 0.7)
defop('fill_idx', 'idx', g1(1, lambda d, v: {'i': [d(st.integers(0, v.shape[0] + 1)) for _ in range(3)], 'm': d(st.sampled_from(['fill', 'clip']))}),
      lambda p, x: x.at[np.array(p['i'])].get(mode=p['m'], **({'fill_value': 0.5} if p['m'] == 'fill' else {})), 0.8)


def p_dynsl(d, v):
    sizes = [d(st.integers(1, s)) for s in v.shape]
    # constant positions out of bounds are miscompiled by XLA after a product, in plain JAX, too
    return {'i': [d(st.integers(0, s - z)) - s * d(st.booleans()) for s, z in zip(v.shape, sizes)], 'z': sizes}


defop('dyn_slice', 'idx', g1(1, p_dynsl), lambda p, x: lax.dynamic_slice(x, [jnp.asarray(i) for i in p['i']], p['z']), 1)


# ---------------------------------------------------------------- data dependent indices
def distinct(v):
    u = np.sort(v.ravel())
    return u.size < 2 or np.min(np.diff(u)) > GAP


def gen_depidx(extra=lambda d, v, k: {}):
    def gen(d, c):
        i = pick_nd(d, c, 1)
        k = pick_nd(d, c, 1, lambda u: distinct(u), kinds='f')
        if i is None or k is None:
            return None
        return [i, k], extra(d, c.vals[i], c.vals[k])

    return gen


defop('x_at_argmax', 'idx', gen_depidx(), lambda p, x, k: x[jnp.argmax(k) % x.shape[0]], 1.5)
defop('x_at_argsort', 'idx', gen_depidx(), lambda p, x, k: x[jnp.argsort(k.ravel()) % x.shape[0]], 1)
defop('dyn_slice_dep', 'idx', gen_depidx(lambda d, v, k: {'z': d(st.integers(1, v.shape[0]))}), lambda p, x, k: lax.dynamic_slice_in_dim(x, jnp.argmin(k), p['z'], 0), 1)
defop('take_along_dep', 'idx', g1(1, lambda d, v: {'a': axis(d, v)}, pred=lambda v: distinct(v), kinds='f'), lambda p, x: jnp.take_along_axis(x, jnp.argsort(-x, axis=p['a']), axis=p['a']), 1)
defop('set_dep', 'idx', gen_depidx(), lambda p, x, k: x.at[jnp.argmax(k) % x.shape[0]].set(0.5), 0.7)
defop('add_dep', 'idx', gen_depidx(), lambda p, x, k: x.at[jnp.argmax(k) % x.shape[0]].add(jnp.ravel(k)[0]), 0.7)
defop('choose_dep', 'idx', gen_depidx(), lambda p, x, k: jnp.where(jnp.arange(x.shape[0]).reshape((-1,) + (1,) * (x.ndim - 1)) == jnp.argmax(k) % x.shape[0], x * 2, -x), 0.7)


# ---------------------------------------------------------------- updates
def gen_at(modes):
    def gen(d, c):
        i = pick_nd(d, c, 1, dep=d(st.sampled_from([True, True, None])), kinds='f')
        if i is None:
            return None
        v = c.vals[i]
        n = d(st.integers(1, 3))
        m = d(st.sampled_from(modes))
        s = v.shape[0]
        if m in ('mul', 'set', 'div') or m in ('max', 'min'):
            n = min(n, s)
            idx = d(st.permutations(list(range(s))))[:n]
            if m == 'set' and d(st.booleans()):
                idx = [k - s for k in idx]
        else:
            idx = [d(st.integers(-s, s - 1)) for _ in range(n)]
        if d(st.integers(0, 7)) == 0 and m in ('add', 'set'):
            idx[0] = s + 2  # dropped
        kind = d(st.integers(0, 4))
        ush = [n] + list(v.shape[1:])
        if m in ('mul', 'div') or kind == 0:
            u = mkconst(d, ush, 'p')
        elif kind == 1:
            u = {'c': [dseed(d), [], 'lit']}
        else:
            u = c.pick(d, lambda w: w.shape == tuple(ush), kinds='f')
            if u is None:
                u = c.pick(d, lambda w: w.ndim == 0 or w.shape == tuple(ush[1:]), kinds='f')
            if u is None:
                u = mkconst(d, ush, 'n')
        if not (c.deps[i] or (not isinstance(u, dict) and c.deps[u])):
            return None
        if m in ('max', 'min'):
            a = v[np.array(idx)]
            if np.min(np.abs(a - c.val(u)), initial=1) < GAP:
                return None
        return [i, u], {'i': idx, 'm': m, 'one': n == 1 and d(st.booleans())}

    return gen


def run_at(p, x, u):
    idx = np.array(p['i'])
    if p['one'] and np.ndim(u) < np.ndim(x):
        idx = int(idx[0])
    r = jnp.asarray(x).at[idx]
    m = p['m']
    if m == 'mul':
        return r.mul(u, unique_indices=True)
    if m == 'div':
        return r.divide(u, unique_indices=True)
    return getattr(r, m)(u)


defop('at_set', 'idx', gen_at(['set']), run_at, 2.5)
defop('at_add', 'idx', gen_at(['add']), run_at, 2)
defop('at_other', 'idx', gen_at(['max', 'min', 'mul']), run_at, 0.8)


def gen_dus(d, c):
    i = pick_nd(d, c, 1, dep=d(st.sampled_from([True, None])), kinds='f')
    if i is None:
        return None
    v = c.vals[i]
    u = c.pick(d, lambda w: w.ndim == v.ndim and all(a <= b for a, b in zip(w.shape, v.shape)), kinds='f')
    if u is None:
        return None
    return [i, u], {'i': [d(st.integers(0, s - z)) for s, z in zip(v.shape, c.vals[u].shape)]}


defop('dyn_update', 'idx', gen_dus, lambda p, x, u: lax.dynamic_update_slice(jnp.asarray(x), jnp.asarray(u), p['i']), 1.2)
defop('at2_set', 'idx', g1(2, lambda d, v: {'i': d(st.integers(0, v.shape[0] - 1)), 'j': d(st.integers(0, v.shape[1] - 1)), 'm': d(st.sampled_from(['set', 'add']))}, kinds='f'),
      lambda p, x: getattr(x.at[p['i'], p['j']], p['m'])(jnp.sin(x[0, 0])), 0.8)
defop('split', 'idx', g1(1, lambda d, v: {'k': d(st.integers(1, v.shape[0] - 1))}, pred=lambda v: v.shape[0] > 1), lambda p, x: list(jnp.split(x, [p['k']])), 0.8, multi=True)
defop('unstack', 'idx', g1(1, pred=lambda v: v.shape[0] <= 3), lambda p, x: list(x), 0.8, multi=True)
defop('triu_idx', 'idx', g1(2, pred=lambda v: v.shape[0] > 1 and v.shape[1] > 1), lambda p, x: x[np.triu_indices(min(x.shape[:2]), 1)], 1)
defop('meshcat', 'idx', g1(1, pred=lambda v: v.ndim == 1 and v.size <= 4), lambda p, x: jnp.stack(jnp.meshgrid(x, x, indexing='ij'), -1), 0.5)


# ------------------------------------------------------------------ values whose elements depend on different inputs
MIX_SHAPES = [[2], [3], [4], [6], [2, 2], [3, 2], [2, 3], [4, 2], [1, 3], [3, 1], [2, 1, 3], [2, 2, 2], [3, 3], [5, 2], [6, 2], [8, 2]]


def gen_mix(d, c):
    i = c.pick(d, lambda v: v.size > 1, kinds='f')
    if i is None:
        return None
    j = i if d(st.booleans()) else c.pick(d, lambda v: v.size > 1, kinds='f')
    s = d(st.sampled_from(MIX_SHAPES))
    k = d(st.integers(1, 3))
    how = d(st.sampled_from(['mul', 'add', 'sum', 'prod', 'sumsq', 'perm']))
    if how == 'perm':
        k = d(st.integers(2, 4))
    mask = d(st.sampled_from(['', '', 'const', 'other', 'lead']))
    return [i, j], {'s': s, 'k': k, 'how': how, 'm': mask, 'r': dseed(d)}


def run_mix(p, x, u):
    """Products or sums of k randomly chosen elements; some elements are constant or copies of one element."""
    r = np.random.RandomState(p['r'])
    s, k = tuple(p['s']), p['k']
    xf, uf = x.ravel(), u.ravel()
    terms = [(xf if t % 2 == 0 else uf)[r.randint(0, (xf if t % 2 == 0 else uf).shape[0], size=s)] for t in range(k)]
    how = p['how']
    if how == 'perm':  # the same inputs in another order, sometimes with others in between
        ii = r.randint(0, xf.shape[0], size=s + (k,))
        order = r.permutation(k)
        jj = ii[..., order]
        if r.randint(3) == 0:
            jj = np.where(r.uniform(size=jj.shape) < 0.3, r.randint(0, xf.shape[0], size=jj.shape), jj)
        a, b = xf[ii].sum(-1), (xf[jj] * (r.randint(0, 3) - 0.5)).sum(-1)
        y = a * b if r.randint(2) else a + b * b
    elif how == 'mul':
        y = functools.reduce(lambda a, b: a * b, terms)
    elif how == 'add':
        y = functools.reduce(lambda a, b: a + b, terms)
    else:
        y = jnp.stack(terms, r.randint(0, len(s) + 1) if how != 'sumsq' else -1)
        ax = [a for a in range(y.ndim) if y.shape[a] == k]
        ax = -1 if how == 'sumsq' else next(a for a in ax if y.shape[:a] + y.shape[a + 1:] == s)
        y = (y * y).sum(ax) if how == 'sumsq' else y.sum(ax) if how == 'sum' else y.prod(ax)
    if p['m']:
        m = r.uniform(size=s) < 0.5
        if p['m'] == 'lead':
            m = np.broadcast_to(m[(slice(None),) + (slice(0, 1),) * (m.ndim - 1)], s)
        y = jnp.where(m, y, jnp.round(r.uniform(), 2) if p['m'] == 'const' else uf[r.randint(0, uf.shape[0], size=s)])
    return y


defop('spmix', 'idx', gen_mix, run_mix, 3)



def gen_mixdot(d, c):
    g = gen_mix(d, c)
    if g is None:
        return None
    args, p = g
    k = d(st.integers(1, 3))
    p['s'] = [d(st.integers(1, 8 if k < 3 else 5)), k]
    q = dict(p, s=[d(st.integers(1, 8 if k < 3 else 5)), k], how=d(st.sampled_from(['mul', 'add', 'sum', 'perm'])), k=d(st.integers(2, 3)), r=dseed(d), m=d(st.sampled_from(['', 'const', 'other'])))
    e = d(st.sampled_from(['ik,jk->ij', 'ik,jk->ji', 'ik,jk->i', 'ki,kj->ij', 'ik,ik->i', 'ik,ik->']))
    if e == 'ki,kj->ij':
        p['s'], q['s'] = p['s'][::-1], q['s'][::-1]
    if e[:6] == 'ik,ik-':
        q['s'] = p['s']
    return args, {'a': p, 'b': q, 'e': e}


defop('spdot', 'dot', gen_mixdot, lambda p, x, u: jnp.einsum(p['e'], run_mix(p['a'], x, u), run_mix(p['b'], u, x)), 4)

def gen_mixdotg(d, c):
    """Products of two arrays with (mostly) the same dimensions, any roles and orders of them."""
    g = gen_mix(d, c)
    if g is None:
        return None
    args, p = g
    nd = d(st.sampled_from([2, 3, 3, 3, 4]))
    sz = [d(st.integers(1, 3 if nd < 4 else 2)) for _ in range(nd)]
    roles = [d(st.sampled_from('bbkkk' if nd > 2 else 'bk')) for _ in range(nd)]
    if d(st.integers(0, 2)) == 0:
        roles[d(st.integers(0, nd - 1))] = d(st.sampled_from('lr'))
    ld = [a for a in range(nd) if roles[a] != 'r']
    rd = [a for a in range(nd) if roles[a] != 'l']
    if d(st.integers(0, 2)) == 0:
        rd = d(st.permutations(rd))
    b = [a for a in range(nd) if roles[a] == 'b']
    k = [a for a in range(nd) if roles[a] == 'k']
    if d(st.booleans()):
        b = d(st.permutations(b))
    if d(st.booleans()):
        k = d(st.permutations(k))
    if not ld or not rd or prod(sz) > 36:
        return None
    p['s'] = [sz[a] for a in ld]
    q = dict(p, s=[sz[a] for a in rd], how=d(st.sampled_from(['mul', 'add', 'sum', 'perm'])), k=d(st.integers(2, 3)), r=dseed(d), m=d(st.sampled_from(['', 'const', 'other'])))
    f = lambda o, t: [list(o).index(a) for a in t]
    return args, {'a': p, 'b': q, 'd': [[f(ld, k), f(rd, k)], [f(ld, b), f(rd, b)]]}


defop('spdotg', 'dot', gen_mixdotg, lambda p, x, u: lax.dot_general(run_mix(p['a'], x, u), run_mix(p['b'], u, x), tuple(tuple(map(tuple, t)) for t in p['d'])), 5)

# ------------------------------------------------------------------ empty intermediate arrays
_EMPTY = [
    lambda x: jnp.concatenate([jnp.sin(x[:0]), x * x]),
    lambda x: x * (x[x.shape[0]:] * x[:0]).sum() + x,
    lambda x: x.at[jnp.zeros(0, int)].set(x[:0] * 2) ** 2,
    lambda x: jnp.concatenate([p * p + p for p in jnp.split(x, [0, 1])]),
    lambda x: jnp.prod(x[:0], axis=0) * x,
    lambda x: jnp.einsum('a...,a...->...', x[:0], x[:0] * x[:0]) + jnp.tanh(x),
    lambda x: jnp.concatenate([jax.vmap(lambda a: a * a.sum())(x[:0]), x]),
    lambda x: jnp.cumsum(x[:0], 0).sum(0) + x * x,
]


def _padded(x):
    # an array with a Jacobian whose elements are all constants
    return jnp.concatenate([np.array([0.5, 0.75]), x.ravel()])[:2]


_PADDED = [
    lambda x: jnp.prod(_padded(x)) * x,
    lambda x: jnp.max(_padded(x) * np.array([1.0, 2.0])) * x + x,
    lambda x: jax.nn.logsumexp(_padded(x).real) + x * x,
    lambda x: jnp.outer(_padded(x), x).reshape(2, *x.shape) * x,
    lambda x: _padded(x) @ _padded(x) * x,
    lambda x: _padded(x)[:, None] * x.ravel() + jnp.sum(_padded(x) ** 2),
    lambda x: jnp.cumprod(_padded(x)) * x.ravel()[:1],
    lambda x: _padded(x) / _padded(x)[::-1] + x.ravel()[:1],
    lambda x: _padded(x).at[1].set(x.ravel()[0]) ** 2,
    lambda x: jnp.linalg.norm(_padded(x)) * x,
    lambda x: jnp.prod(jnp.stack([_padded(x), _padded(x) * x.ravel()[0]]), 1),
]
defop('padonly', 'idx', g1(1, lambda d, v: {'k': d(st.integers(0, len(_PADDED) - 1))}), lambda p, x: _PADDED[p['k']](x), 0.8)
defop('empty', 'idx', g1(1, lambda d, v: {'k': d(st.integers(0, len(_EMPTY) - 1))}), lambda p, x: _EMPTY[p['k']](x), 0.8)
