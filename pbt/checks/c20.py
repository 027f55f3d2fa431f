"""Algebra of the containers of Jacobians."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as hs

from folx.api import FwdJacobian, FwdLaplArgs, FwdLaplArray

from ..oracle import Discard, Violation, np_dense

SHAPES = [[], [1], [2], [3], [2, 3], [1, 2], [3, 1], [2, 1, 2], [2, 2, 2]]
DT = ['f8', 'f8', 'f4', 'c16', 'c8']


@hs.composite
def jac(draw, shape, n, dtype, sparse=None):
    """A container: [kind, rows, indices or None, values]; values are small integers so that sums are exact."""
    size = int(np.prod(shape, dtype=int))
    sp = draw(hs.booleans()) if sparse is None else sparse
    if not sp:
        k = draw(hs.integers(1, n))
        return [k, None, draw(hs.integers(0, 10**6))]
    k = draw(hs.integers(1, 6))
    mode = draw(hs.sampled_from(['any', 'any', 'same', 'axis']))
    lo = draw(hs.sampled_from([-1, -1, 0]))
    if mode == 'same':
        col = draw(hs.lists(hs.integers(lo, n - 1), min_size=k, max_size=k))
        idx = [c for c in col for _ in range(size)]
    elif mode == 'axis' and shape:
        a = draw(hs.integers(0, len(shape) - 1))
        m = draw(hs.lists(hs.integers(lo, n - 1), min_size=k * shape[a], max_size=k * shape[a]))
        arr = np.reshape(m, [k] + [s if i == a else 1 for i, s in enumerate(shape)])
        idx = np.broadcast_to(arr, [k] + shape).ravel().tolist()
    else:
        idx = draw(hs.lists(hs.integers(lo, n - 1), min_size=k * size, max_size=k * size))
    return [k, idx, draw(hs.integers(0, 10**6))]


@hs.composite
def cases(draw):
    shape = draw(hs.sampled_from(SHAPES))
    n = draw(hs.integers(1, 7))
    dt = draw(hs.sampled_from(DT))
    a = draw(jac(shape, n, dt))
    b = draw(jac(shape, n, dt))
    c = draw(jac(shape, n, dt))
    ids = draw(hs.lists(hs.integers(0, n - 1), min_size=0, max_size=n, unique=True))
    per = draw(hs.lists(hs.permutations(list(range(n))), min_size=1, max_size=4))
    return {'shape': shape, 'n': n, 'dt': dt, 'jacs': [a, b, c], 'same': draw(hs.booleans()), 'ids': ids, 'perms': per, 'm': draw(hs.integers(1, n)), 'jit': draw(hs.integers(0, 3)) == 0,
            'to': draw(hs.sampled_from(['f4', 'f8', 'c16', 'i4', 'b1', 'i8']))}


def vals(seed, shape, dt):
    r = np.random.RandomState(seed)
    v = r.randint(-9, 10, size=shape) * 0.5
    if dt[0] == 'c':
        v = v + 1j * r.randint(-9, 10, size=shape) * 0.5
    return v.astype(dt)


def same(what, got, want, dtype=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f'{what}: shape {got.shape} instead of {want.shape}')
    if dtype is not None and got.dtype != np.dtype(dtype):
        raise Violation(f'{what}: type {got.dtype} instead of {dtype}')
    if not np.array_equal(got, want):
        k = tuple(int(i) for i in np.argwhere(got != want)[0])
        raise Violation(f'{what}: {got[k]} instead of {want[k]} at {k}')


def pad(d, n):
    d = np.asarray(d)
    if d.shape[0] > n:
        extra = d[n:]
        if np.any(extra != 0):
            raise Violation(f'{d.shape[0]} rows for {n} inputs')
        d = d[:n]
    return np.concatenate([d, np.zeros((n - d.shape[0],) + d.shape[1:], d.dtype)])


class C:
    round = 300

    def strategy(self):
        return cases()

    def run(self, case):
        shape, n, dt = case['shape'], case['n'], case['dt']
        js, ds = [], []
        for k, idx, seed in case['jacs']:
            data = vals(seed, [k] + shape, dt)
            mask = None if idx is None else np.asarray(idx, dtype=np.int32).reshape([k] + shape)
            js.append(FwdJacobian(jnp.asarray(data), mask))
        if case['same'] and js[0].x0_idx is not None:
            js[1] = FwdJacobian(jnp.asarray(vals(case['jacs'][1][2], js[0].data.shape, dt)), js[0].x0_idx.copy())
        ds = [np_dense(j, n) for j in js]
        J = (lambda f, j: jax.jit(lambda d: f(FwdJacobian(d, j.x0_idx)))(j.data)) if case['jit'] else (lambda f, j: f(j))
        lab = []
        for j, d in zip(js[:2], ds):
            kind = 'sparse' if j.x0_idx is not None else 'dense'
            lab.append(kind)
            if j.weak != (j.x0_idx is not None):
                raise Violation('weak is wrong')
            same(f'{kind} dense_array', pad(J(lambda j: j.dense_array, j), n), d, dt)
            dj = J(lambda j: j.as_dense.data, j)
            same(f'{kind} as_dense', pad(dj, n), d, dt)
            if j.as_dense.x0_idx is not None:
                raise Violation('as_dense keeps indices')
            if tuple(j.data_shape) != tuple(shape) or j.ndim != len(shape) + 1:
                raise Violation(f'data_shape {j.data_shape} for {shape}')
            m = np.asarray(j.mask)
            if m.shape != j.data.shape:
                raise Violation(f'mask has shape {m.shape}')
            same(f'{kind} mask', np.stack([np.where(m == i, np.asarray(j.data), 0).sum(0) for i in range(n)]), d)
            u = set(np.asarray(j.unique_idx).ravel().tolist()) - {-1}
            if u != set(m.ravel().tolist()) - {-1}:
                raise Violation(f'{kind} unique_idx {sorted(u)}')
            # elementwise maps commute with taking the dense form
            rdt = np.zeros(0, dt).real.dtype
            for name, f, g, t in (('real', lambda j: j.real, np.real, rdt), ('imag', lambda j: j.imag, np.imag, rdt), ('conj', lambda j: j.conj(), np.conj, dt),
                                  ('astype', lambda j: j.astype(np.complex128), lambda x: x.astype(complex), 'c16')):
                r = f(j)
                if (r.x0_idx is None) != (j.x0_idx is None):
                    raise Violation(f'{name} changes the kind')
                same(f'{kind} {name}', pad(J(lambda j: f(j).dense_array, j), n), g(d), t)
            # selection of index sets
            ids = list(case['ids'])
            if j.x0_idx is not None and ids and ids[0] % 2:
                ids.append(-1)  # as used for padding: no input
                if np.any(np.asarray(j.data)[np.asarray(j.x0_idx) == -1] != 0):
                    ids.pop()
            elif j.x0_idx is None and ids and ids[0] % 2:
                ids = [-1] + ids
            d0, d = d, np.concatenate([d, np.zeros_like(d[:1])])  # row -1
            if ids:
                one = np.asarray(ids)
                cols = one[(...,) + (None,) * len(shape)] if j.x0_idx is not None else one
                same(f'{kind} construct_jac_for({ids})', J(lambda j: j.construct_jac_for(cols), j), d[one], dt)
                if j.x0_idx is not None:
                    same(f'{kind} construct_jac_for({ids}) with traced indices', jax.jit(lambda q: j.construct_jac_for(q))(jnp.asarray(cols)), d[one], dt)
                    mask = np.asarray(j.get_index_mask(cols))
                    full = np.broadcast_to(cols, (len(ids),) + tuple(shape))
                    want = np.full(j.x0_idx.shape, -1)
                    for a in range(len(ids)):
                        want = np.where(j.x0_idx == full[a], a, want)
                    same('get_index_mask', mask, want)
                else:
                    same(f'{kind} construct_jac_for({ids}) with traced indices', jax.jit(lambda q: j.construct_jac_for(q))(jnp.asarray(cols)), d[one], dt)
            else:
                r = np.asarray(j.construct_jac_for(np.zeros((0,) + (1,) * len(shape), dtype=int)))
                if np.any(r != 0) or r.shape[1:] != tuple(shape):
                    raise Violation('selection of nothing')
            d = d0
            same(f'{kind} construct_jac_for(None)', pad(j.construct_jac_for(None), n), d, dt)
            if j.x0_idx is not None:
                # other indices for every element
                size = int(np.prod(shape, dtype=int))
                cols = np.stack([case['perms'][i % len(case['perms'])][: case['m']] for i in range(size)], axis=-1).reshape([case['m']] + shape)
                want = np.take_along_axis(d, cols, axis=0)
                same('construct_jac_for of element-wise indices', J(lambda j: j.construct_jac_for(cols), j), want, dt)
                # relabelled indices
                rel = np.asarray(case['perms'][0])
                new = np.where(j.x0_idx >= 0, rel[j.x0_idx], -1)
                got = np.asarray(J(lambda j: j.materialize_for_idx(new, n), j))
                inv = np.argsort(rel)
                same('materialize_for_idx', got, d[inv], dt)
                if new.max() >= 0 and new.min() >= 0:
                    r = np.asarray(j.materialize_for_idx(new))
                    same('materialize_for_idx without a size', pad(r, n), d[inv], dt)
        # sums
        for a, b in ((0, 1), (1, 2), (2, 0)):
            s = js[a] + js[b]
            want_sparse = js[a].x0_idx is not None and js[b].x0_idx is not None
            if (s.x0_idx is not None) != want_sparse:
                raise Violation(f'sum is {"sparse" if s.x0_idx is not None else "dense"}')
            same('sum', pad(s.dense_array, n), ds[a] + ds[b], dt)
            same('sum', np_dense(s, n), ds[a] + ds[b], dt)
        same('sum of three', pad(((js[0] + js[1]) + js[2]).dense_array, n), ds[0] + ds[1] + ds[2])
        same('sum of three', pad((js[0] + (js[1] + js[2])).dense_array, n), ds[0] + ds[1] + ds[2])
        # triplets
        xs = [FwdLaplArray(jnp.asarray(vals(7 + i, shape, dt)), j, jnp.asarray(vals(17 + i, shape, dt))) for i, j in enumerate(js)]
        t, d = xs[0], ds[0]
        x, l = np.asarray(t.x), np.asarray(t.laplacian)
        if t.shape != tuple(shape) or t.ndim != len(shape) or t.size != x.size or t.dtype != np.dtype(dt) or t.is_jacobian_weak != js[0].weak:
            raise Violation('attributes of the triplet')

        def trip(what, r, f, dtype=None):
            same(what + ' value', r.x, f(x), dtype)
            same(what + ' Jacobian', pad(r.jacobian.dense_array, n), f(d), dtype)
            same(what + ' Jacobian', pad(r.dense_jacobian, n), f(d), dtype)
            same(what + ' Laplacian', r.laplacian, f(l), dtype)

        rdt = np.zeros(0, dt).real.dtype
        trip('triplet', t, lambda z: z, dt)
        trip('real of the triplet', t.real, np.real, rdt)
        trip('imag of the triplet', t.imag, np.imag, rdt)
        trip('conj of the triplet', t.conj(), np.conj, dt)
        trip('dense triplet', t.dense, lambda z: z, dt)
        if t.dense.is_jacobian_weak:
            raise Violation('dense triplet is sparse')
        to = case['to']
        if to[0] in 'fc':
            if not (dt[0] == 'c' and to[0] == 'f'):
                trip(f'triplet as {to}', t.astype(to), lambda z: z.astype(to), to)
        elif dt[0] != 'c':
            r = t.astype(to)
            if isinstance(r, FwdLaplArray):
                raise Violation(f'triplet as {to} keeps derivatives')
            same(f'triplet as {to}', r, x.astype(to), to)
        args = FwdLaplArgs(tuple(xs))
        if len(args) != 1 and len(args) != 3:
            raise Violation('len')
        if args.all_jacobian_weak != all(j.weak for j in js) or args.any_jacobian_weak != any(j.weak for j in js):
            raise Violation('weak of the arguments')
        for i in range(3):
            same('values', args.x[i], xs[i].x)
            same('Laplacians', args.laplacian[i], xs[i].laplacian)
            same('Jacobians', pad(args.dense_jacobian[i], n), ds[i])
            same('Jacobians', pad(args.dense.arrays[i].jacobian.data, n), ds[i])
            same('masks', args.jacobian_mask[i], js[i].mask)
        lab.append('padding' if any(j.x0_idx is not None and (j.x0_idx < 0).any() for j in js) else 'full')
        rep = any(j.x0_idx is not None and any(len(set(c)) < len(c) for c in j.x0_idx.reshape(j.x0_idx.shape[0], -1).T.tolist()) for j in js)
        lab += ['repeated'] if rep else []
        lab.append('type:' + dt)
        return {'labels': lab, 'nontrivial': any(j.weak for j in js)}


CHECK = C()
