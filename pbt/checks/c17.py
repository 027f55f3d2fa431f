"""Mapping in chunks against jax.vmap."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import folx

from ..oracle import Discard, Violation, close, worst
from ..rnd import st

SH = [[], [1], [2], [3], [2, 3], [2, 1, 2]]


def leaf_values(seed, shape, kind):
    r = np.random.RandomState(seed)
    if kind == 'i':
        return r.randint(-3, 4, size=shape)
    if kind == 'b':
        return r.rand(*shape) > 0.5
    v = np.round(r.uniform(-1.5, 1.5, size=shape), 3)
    return v.astype(np.float32) if kind == 'f4' else v + 1j * np.round(r.uniform(-1, 1, size=shape), 3) if kind == 'c' else v


def pack(box, xs):
    if box == 'plain':
        return xs[0]
    if box == 'list':
        return list(xs)
    if box == 'tuple':
        return tuple(xs)
    if box == 'dict':
        return {f'k{i}': x for i, x in enumerate(xs)}
    return ({'a': xs[0]}, list(xs[1:]))


def peek(log):
    """Identity which notes how many samples are evaluated at once."""

    @jax.custom_batching.custom_vmap
    def f(x):
        return x

    @f.def_vmap
    def rule(axis_size, in_batched, x):
        log.append(axis_size)
        return x, in_batched[0]

    return f


class C:
    def gen(self, d):
        n_args = d(st.integers(1, 4))
        args = []
        for i in range(n_args):
            box = d(st.sampled_from(['plain', 'plain', 'plain', 'list', 'tuple', 'dict', 'nest']))
            k = 1 if box == 'plain' else d(st.integers(1, 3))
            leaves = []
            for _ in range(k):
                s = d(st.sampled_from(SH))
                leaves.append([s, d(st.sampled_from(['f', 'f', 'f', 'f', 'f4', 'i', 'b', 'c']))])
            # axis of the argument: one for all leaves or one per leaf
            per = box != 'plain' and d(st.booleans())
            low = min(len(s) for s, _ in leaves)
            if per:
                ax = [d(st.sampled_from([None] + list(range(-len(s) - 1, len(s) + 1)))) for s, _ in leaves]
            else:
                ax = d(st.sampled_from([None] + list(range(-low - 1, low + 1)) * 2))
            args.append([box, leaves, ax])
        mode = d(st.sampled_from(['int', 'tuple', 'tuple', 'list']))
        b = d(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12]))
        outs = []
        for _ in range(d(st.integers(1, 4))):
            outs.append([d(st.sampled_from(['sum', 'sum', 'outer', 'first', 'unm', 'const', 'intcount', 'cumul', 'mat', 'rand'])), d(st.integers(0, 9))])
        return {'args': args, 'mode': mode, 'b': b, 'outs': outs, 'seed': d(st.integers(0, 9999)), 'gax': d(st.integers(0, 0) if d(st.booleans()) else st.integers(-1, 0)),
                'obox': d(st.sampled_from(['plain', 'tuple', 'list', 'dict', 'nest'])), 'oax': [d(st.integers(-3, 2)) for _ in range(4)], 'oper': d(st.booleans()), 'onone': d(st.integers(0, 3)) == 0,
                'm': d(st.integers(1, b)) if d(st.integers(0, 3)) else d(st.sampled_from([b, b + 1, 2 * b, 100])), 'kw': d(st.integers(0, 2)), 'how': d(st.sampled_from(['eager', 'jit', 'jit', 'grad', 'vmap', 'jvp', 'kwarg_jit', 'twice']))}

    def build(self, case):
        b = case['b']
        args, axes, seed = [], [], case['seed']
        for box, leaves, ax in case['args']:
            xs, la = [], []
            for i, (s, kind) in enumerate(leaves):
                a = ax[i] if isinstance(ax, list) else ax
                if case['mode'] == 'int':
                    a = case['gax']
                shape = list(s)
                if a is not None:
                    p = a if a >= 0 else a + len(s) + 1
                    if not 0 <= p <= len(s):
                        raise Discard('axis')
                    shape.insert(p, b)
                seed += 1
                xs.append(leaf_values(seed, shape, kind))
                la.append(a)
            args.append(pack(box, xs))
            axes.append(pack(box, la) if isinstance(ax, list) and case['mode'] != 'int' else la[0])
        in_axes = case['gax'] if case['mode'] == 'int' else tuple(axes) if case['mode'] == 'tuple' else list(axes)
        flat_axes = [a for (box, leaves, ax), t in zip(case['args'], axes) for a in (jax.tree_util.tree_leaves(t, is_leaf=lambda x: x is None) if isinstance(ax, list) and case['mode'] != 'int' else [t] * len(leaves))]
        if all(a is None for a in flat_axes):
            raise Discard('nothing is mapped')
        return args, in_axes, flat_axes

    def fn(self, case, flat_axes, log):
        outs, obox = case['outs'], case['obox']
        if obox == 'plain':
            outs = outs[:1]
        see = peek(log)

        def f(*args, k0=0.5, k1=None):
            xs = [jnp.asarray(x) for x in jax.tree_util.tree_leaves(args)]
            mapped = [x for x, a in zip(xs, flat_axes) if a is not None]
            unm = [x for x, a in zip(xs, flat_axes) if a is None]
            mapped[0] = see(mapped[0])
            s = sum(jnp.sum(jnp.sin((i + 1) * x)) for i, x in enumerate(mapped + unm)) * k0
            if k1 is not None:
                s = s + jnp.sum(k1)
            rs = []
            for kind, p in outs:
                x = mapped[p % len(mapped)]
                if kind == 'sum':
                    r = s + p
                elif kind == 'outer':
                    r = jnp.cos(x.reshape(-1))[:, None] * jnp.arange(1, 2 + p % 3) + s
                elif kind == 'first':
                    r = x
                elif kind == 'unm':
                    r = sum((jnp.sum(u) for u in unm), jnp.zeros(()))
                elif kind == 'const':
                    r = jnp.arange(3.0) + p
                elif kind == 'intcount':
                    r = jnp.sum(jnp.real(x) > 0, axis=-1 if x.ndim else None)
                elif kind == 'cumul':
                    r = jnp.cumsum(x.reshape(-1) * 2.0)
                elif kind == 'mat':
                    v = jnp.reshape(x, (-1,)) * 1.0
                    r = jnp.tanh(jnp.real(v)[:, None] @ jnp.real(v)[None] + jnp.real(s))
                else:
                    r = jnp.stack([jnp.reshape(x, (-1,))[0] * s, s])
                rs.append(r)
            return pack(obox, rs)

        return f

    def run(self, case):
        args, in_axes, flat_axes = self.build(case)
        log = []
        f = self.fn(case, flat_axes, log)
        kw = {}
        if case['kw'] >= 1:
            kw['k0'] = jnp.asarray(0.75)
        if case['kw'] == 2:
            kw['k1'] = jnp.arange(float(case['b']))
        arr = jax.tree_util.tree_map(jnp.asarray, args)
        # placement of the mapped axis in the results
        shapes = jax.eval_shape(functools.partial(f, **kw), *jax.tree_util.tree_map(lambda x: x, self.slice0(arr, flat_axes)))
        flat, tree = jax.tree_util.tree_flatten(shapes)
        kinds = [k for k, _ in (case['outs'][:1] if case['obox'] == 'plain' else case['outs'])]
        oax = []
        for i, sh in enumerate(flat):
            a = case['oax'][i % 4]
            n = len(sh.shape) + 1
            a = a % n if case['oax'][i % 4] >= 0 else -((-a - 1) % n + 1)
            if case['onone'] and kinds[i] in ('unm', 'const'):
                a = None
            oax.append(a)
        if case['oper']:
            out_axes = tree.unflatten(oax)
        else:
            out_axes = 0 if case['oax'][0] >= 0 else -1
            oax = [out_axes] * len(flat)
        want = jax.vmap(functools.partial(f, **kw), in_axes=tuple(in_axes) if isinstance(in_axes, list) else in_axes, out_axes=out_axes)
        got = folx.batched_vmap(f, max_batch_size=case['m'], in_axes=in_axes, out_axes=out_axes)
        got_kw = functools.partial(got, **kw)
        how = case['how']

        def go(g):
            if how in ('jit', 'kwarg_jit'):
                return jax.jit(g)(*arr)
            if how == 'twice':
                g(*jax.tree_util.tree_map(lambda x: x, arr))
                return g(*arr)
            if how == 'vmap':
                return jax.vmap(g)(*jax.tree_util.tree_map(lambda x: jnp.stack([x, x[..., ::-1] if x.ndim else x]), arr))
            fl, td = jax.tree_util.tree_flatten(arr)
            idx = [i for i, x in enumerate(fl) if x.dtype == jnp.float64]
            if not idx:
                raise Discard('nothing to differentiate')

            def h(xs):
                q = list(fl)
                for i, x in zip(idx, xs):
                    q[i] = x
                out = jax.tree_util.tree_leaves(g(*td.unflatten(q)))
                return [o for o in out if jnp.issubdtype(o.dtype, jnp.inexact)]

            xs = [fl[i] for i in idx]
            if how == 'jvp':
                return jax.jvp(h, (xs,), ([jnp.cos(x) for x in xs],))
            w = lambda o: jnp.reshape(jnp.cos(jnp.arange(1.0, o.size + 1)), o.shape)
            return jax.grad(lambda xs: sum((jnp.sum(jnp.real(o) * w(o)) for o in h(xs)), 0.0))(xs)

        if how == 'eager' or how not in ('grad', 'jvp', 'vmap', 'jit', 'kwarg_jit', 'twice'):
            run = lambda g: g(*args)
        else:
            run = go
        try:
            ref = run(want)
        except Discard:
            raise
        except Exception as e:
            raise Discard('vmap:' + type(e).__name__)
        log.clear()
        if how == 'kwarg_jit' and kw:
            out = jax.jit(lambda a, k: got(*a, **k))(arr, kw)
        else:
            try:
                out = run(got_kw)
            except Discard:
                raise
            except Exception as e:
                raise Violation(f'chunks of {case["m"]} of {case["b"]} samples: {type(e).__name__}: {str(e)[:200]}')
        ta, tb = jax.tree_util.tree_structure(out), jax.tree_util.tree_structure(ref)
        if ta != tb:
            raise Violation(f'structure {ta} instead of {tb}')
        for a, r in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(ref)):
            a, r = np.asarray(a), np.asarray(r)
            if a.dtype != r.dtype or a.shape != r.shape:
                raise Violation(f'{a.dtype}{a.shape} instead of {r.dtype}{r.shape}')
            tol = 1e-4 if a.dtype in (np.float32, np.complex64) else 1e-10
            if a.dtype.kind in 'fc' and not np.all(np.isfinite(r)):
                raise Discard('not finite')
            if a.dtype.kind not in 'fc':
                if not np.array_equal(a, r):
                    raise Violation(f'chunks of {case["m"]} of {case["b"]} samples, {how}: {a} instead of {r}')
                continue
            if not close(a, r, tol * (1 + np.max(np.abs(r), initial=0))):
                raise Violation(f'chunks of {case["m"]} of {case["b"]} samples, {how}: {worst(a, r)}')
        if None not in oax and how in ('eager', 'jit') and log and max(log) > case['m']:
            raise Violation(f'{max(log)} samples were evaluated at once with chunks of {case["m"]}')
        b, m = case['b'], case['m']
        lab = ['chunk:' + ('>batch' if m > b else '=batch' if m == b else 'divides' if b % m == 0 else 'remainder'), 'how:' + how, 'in:' + case['mode']]
        if None in flat_axes:
            lab.append('unmapped')
        if None in oax:
            lab.append('out:none')
        if any(a not in (0, None) for a in oax):
            lab.append('out:moved')
        return {'labels': lab, 'nontrivial': m < b}

    def slice0(self, arr, flat_axes):
        fl, td = jax.tree_util.tree_flatten(arr)
        return td.unflatten([x if a is None else jnp.take(x, 0, axis=a) for x, a in zip(fl, flat_axes)])

    def shrinks(self, case, v):
        if len(case['args']) > 1:
            for i in range(len(case['args'])):
                yield dict(case, args=case['args'][:i] + case['args'][i + 1 :])
        if len(case['outs']) > 1:
            for i in range(len(case['outs'])):
                yield dict(case, outs=case['outs'][:i] + case['outs'][i + 1 :])
        if case['how'] != 'eager':
            yield dict(case, how='eager')
        if case['kw']:
            yield dict(case, kw=0)
        if case['oper']:
            yield dict(case, oper=False)
        for o in ('plain', 'tuple'):
            if case['obox'] != o:
                yield dict(case, obox=o)
        for i, (box, leaves, ax) in enumerate(case['args']):
            if box != 'plain':
                a0 = ax[0] if isinstance(ax, list) else ax
                yield dict(case, args=case['args'][:i] + [['plain', leaves[:1], a0]] + case['args'][i + 1 :])
            for j, (s, k) in enumerate(leaves):
                if k != 'f':
                    yield dict(case, args=case['args'][:i] + [[box, leaves[:j] + [[s, 'f']] + leaves[j + 1 :], ax]] + case['args'][i + 1 :])
        for b in (2, 3, 4, 5):
            if b < case['b']:
                yield dict(case, b=b)
        for m in (1, 2, 3):
            if m < case['m']:
                yield dict(case, m=m)
        if case['mode'] != 'tuple':
            yield dict(case, mode='tuple')


CHECK = C()
