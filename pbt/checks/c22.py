"""Arithmetic of trees of arrays."""
from collections import namedtuple

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
from hypothesis import strategies as hs

from folx import tree_utils as tu

from ..oracle import Violation

Pair = namedtuple('Pair', ['u', 'v'])
SHAPES = [[], [1], [2], [3], [2, 3], [1, 2], [3, 1], [2, 1, 2], [4, 2], [0, 2]]
DT = ['f8', 'f8', 'f4', 'i4', 'i8', 'c16', 'c8']


def trees(depth=2):
    leaf = hs.tuples(hs.just('leaf'), hs.integers(0, len(SHAPES) - 1), hs.sampled_from(DT)).map(list)
    if depth == 0:
        return leaf
    sub = trees(depth - 1)
    kids = hs.lists(sub, min_size=1, max_size=3)
    return hs.one_of(leaf, hs.tuples(hs.sampled_from(['list', 'tuple', 'dict']), kids).map(list), hs.tuples(hs.just('pair'), hs.lists(sub, min_size=2, max_size=2)).map(list),
                     hs.tuples(hs.just('none'), sub).map(list))


@hs.composite
def cases(draw):
    return {'tree': draw(trees()), 'seed': draw(hs.integers(0, 9999)), 'x': draw(hs.sampled_from([0, 1, -1, 2, 0.5, -1.5])), 'xk': draw(hs.sampled_from(['py', 'np', 'jnp', 'np0d'])), 'jit': draw(hs.booleans()),
            'lead': draw(hs.integers(1, 5)), 'cuts': draw(hs.lists(hs.integers(0, 3), max_size=3)), 'ax': draw(hs.integers(0, 3)), 'ix': draw(hs.integers(0, 5)), 'neg': draw(hs.booleans()), 'nparts': draw(hs.integers(1, 3)),
            'one': draw(hs.sampled_from(DT))}


def build(t, mk):
    k = t[0]
    if k == 'leaf':
        return mk(SHAPES[t[1]], t[2])
    if k == 'none':
        return (build(t[1], mk), None)
    xs = [build(s, mk) for s in t[1]]
    return xs if k == 'list' else tuple(xs) if k == 'tuple' else {f'k{9 - i}': x for i, x in enumerate(xs)} if k == 'dict' else Pair(*xs)


def same(what, got, want):
    a, b = jtu.tree_structure(got), jtu.tree_structure(want)
    if a != b:
        raise Violation(f'{what}: structure {a} instead of {b}')
    for g, w in zip(jtu.tree_leaves(got), jtu.tree_leaves(want)):
        g, w = np.asarray(g), np.asarray(w)
        if g.shape != w.shape:
            raise Violation(f'{what}: shape {g.shape} instead of {w.shape}')
        if (g.dtype.kind == 'c') != (w.dtype.kind == 'c'):
            raise Violation(f'{what}: type {g.dtype} instead of {w.dtype}')
        if g.dtype.kind == 'f' and g.dtype != w.dtype and w.dtype.itemsize != g.dtype.itemsize and w.dtype.kind == 'f' and want is not None:
            raise Violation(f'{what}: type {g.dtype} instead of {w.dtype}')
        if not np.array_equal(g, w):
            raise Violation(f'{what}: {g.ravel()[:6]} instead of {w.ravel()[:6]}')


class C:
    round = 300

    def strategy(self):
        return cases()

    def run(self, case):
        r = np.random.RandomState(case['seed'])

        def mk(shape, dt, lead=()):
            v = r.randint(-6, 7, size=tuple(lead) + tuple(shape)) * (1 if dt[0] == 'i' else 0.5)
            if dt[0] == 'c':
                v = v + 0.5j * r.randint(-6, 7, size=tuple(lead) + tuple(shape))
            return jnp.asarray(v, dtype=dt)

        t = case['tree']
        a, b, c = (build(t, mk) for _ in range(3))
        npm = lambda f, *ts: jtu.tree_map(lambda *l: f(*[np.asarray(x) for x in l]), *ts)
        J = jax.jit if case['jit'] else (lambda f: f)
        x = case['x']
        xk = {'py': x, 'np': np.float64(x), 'np0d': np.asarray(x), 'jnp': jnp.asarray(x)}[case['xk']]
        # the type of the product is JAX's
        ref = lambda f: jtu.tree_map(f, a)
        same('tree_add', J(tu.tree_add)(a, b), npm(np.add, a, b))
        same('tree_sub', J(tu.tree_sub)(a, b), npm(np.subtract, a, b))
        same('tree_mul', J(tu.tree_mul)(a, b), npm(np.multiply, a, b))
        same('tree_scale', J(lambda q: tu.tree_scale(q, xk))(a), ref(lambda l: l * xk))
        same('tree_shift', J(lambda q: tu.tree_shift(q, xk))(a), ref(lambda l: l + xk))
        same('tree_mul by a number', J(lambda q: tu.tree_mul(q, xk))(a), ref(lambda l: l * xk))
        same('tree_add of a number', J(lambda q: tu.tree_add(q, xk))(a), ref(lambda l: l + xk))
        flat = lambda q: np.concatenate([np.asarray(l).ravel().astype(complex) for l in jtu.tree_leaves(q)] or [np.zeros(0)])

        def number(what, got, want):
            got = np.asarray(got)
            if got.shape != () or abs(got - want) > 1e-4 * (1 + abs(want)):
                raise Violation(f'{what}: {got} instead of {want}')

        number('tree_dot', J(tu.tree_dot)(a, b), np.sum(flat(a) * flat(b)))
        number('tree_sum', J(tu.tree_sum)(a), np.sum(flat(a)))
        if not any(np.iscomplexobj(l) for l in jtu.tree_leaves(a)):
            number('tree_squared_norm', J(tu.tree_squared_norm)(a), np.sum(np.abs(flat(a)) ** 2))
        # leading axis
        n = case['lead']
        parts = [build(t, lambda s, dt: mk(s, dt, (n + i,))) for i in range(case['nparts'])]
        whole = J(lambda *p: tu.tree_concat(p))(*parts)
        same('tree_concat', whole, npm(lambda *l: np.concatenate(l, 0), *parts))
        same('tree_concat list', tu.tree_concat(list(parts), axis=0), whole)
        sizes = tuple(n + i for i in range(case['nparts'] - 1))
        back = J(lambda q: tu.tree_split(q, sizes))(whole)
        if not isinstance(back, tuple) or len(back) != case['nparts']:
            raise Violation('tree_split: number of parts')
        for p, q in zip(back, parts):
            same('tree_split of tree_concat', p, q)
        big = parts[0]
        cuts, k = [], 0
        for s in case['cuts']:
            if k + s <= n:
                cuts.append(s)
                k += s
        ps = J(lambda q: tu.tree_split(q, tuple(cuts)))(big)
        k = 0
        for s, p in zip(cuts + [n - k], ps):
            same('tree_split', p, npm(lambda l: l[k : k + s] if s or k < n else l[k:], big) if p is not ps[-1] else npm(lambda l: l[k:], big))
            k += s
        same('tree_concat of tree_split', tu.tree_concat(ps), big)
        same('tree_add to a tree of rows', tu.tree_add(big, big), npm(lambda l: l + l, big))
        # axes
        two = build(t, lambda s, dt: mk(s, dt, (n, 3)))
        ax = case['ax'] % 2 - (0 if not case['neg'] else 0)
        same('tree_concat axis 1', J(lambda p, q: tu.tree_concat([p, q], axis=1))(two, two), npm(lambda l: np.concatenate([l, l], 1), two))
        rev = build(t, lambda s, dt: mk(tuple(s) + (3,), dt))
        same('tree_concat axis -1', tu.tree_concat([rev, rev, rev], axis=-1), npm(lambda l: np.concatenate([l, l, l], -1), rev))
        m = n if ax == 0 else 3
        idxs = [0, -1, m - 1, slice(None, -1), slice(1, None), slice(None, None, -1), slice(0, m, 2), np.asarray([m - 1, 0]), np.asarray([[0], [m - 1]]), jnp.asarray([0, 0, m - 1])]
        for i in idxs:
            np_i = i if isinstance(i, slice) else np.asarray(i)
            want = npm(lambda l: l[(slice(None),) * ax + (np_i,)] if isinstance(i, slice) else np.take(l, np_i, axis=ax), two)
            same(f'tree_take {i} axis {ax}', J(lambda q: tu.tree_take(q, i, ax))(two), want)
            if ax == 0:
                same(f'tree_idx {i}', J(lambda q: tu.tree_idx(q, i))(two), npm(lambda l: l[np_i if not np.ndim(np_i) == 0 or isinstance(i, slice) else int(np_i)], two))
        same('tree_take from the end', tu.tree_take(rev, slice(None, -1), -1), npm(lambda l: l[..., :-1], rev))
        same('tree_take from the end', tu.tree_take(rev, 1, -1), npm(lambda l: np.take(l, 1, -1), rev))
        same('tree_idx pair', tu.tree_idx(two, (slice(None), 1)), npm(lambda l: l[:, 1], two))
        same('tree_idx ellipsis', tu.tree_idx(two, (0, None)), npm(lambda l: l[0][None], two))
        for e in (0, 1, -1, (0, 1), (-1,)):
            same(f'tree_expand {e}', J(lambda q: tu.tree_expand(q, e))(two), npm(lambda l: np.expand_dims(l, e), two))
        nl = len(jtu.tree_leaves(a))
        return {'labels': [f'leaves:{min(nl, 6)}', 'top:' + t[0], 'scalar:' + case['xk']], 'nontrivial': nl > 1}


CHECK = C()
