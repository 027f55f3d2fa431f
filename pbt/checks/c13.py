"""Calling convention."""
import collections

import jax
import jax.numpy as jnp
import numpy as np

import folx

from ..oracle import IS_LPL, Ref, call, compare_one, leaves
from ..progcheck import REFUSE, fn_of, has_refusable
from .base import *

NT = collections.namedtuple('NT', ['u', 'v'])


def pack(spec, leaf):
    """spec: nested JSON description; integers are leaves."""
    if isinstance(spec, int):
        return leaf(spec)
    k, items = spec
    if k == 'list':
        return [pack(s, leaf) for s in items]
    if k == 'tuple':
        return tuple(pack(s, leaf) for s in items)
    if k == 'nt':
        return NT(*[pack(s, leaf) for s in items])
    if k == 'none':
        return (None, [pack(s, leaf) for s in items])
    if k == 'dict':  # keys in descending order of insertion
        return {'zyxwvutsrqponmlkjihg'[i]: pack(s, leaf) for i, s in enumerate(items)}
    raise ValueError(k)


def draw_spec(d, ids, depth=0):
    """A nested structure with exactly these leaves."""
    if len(ids) == 1 and (depth > 1 or d(st.integers(0, 2)) < 2):
        return ids[0]
    k = d(st.sampled_from(['list', 'tuple', 'dict', 'dict', 'none'] + (['nt'] if len(ids) == 2 else [])))
    if k == 'nt':
        return ['nt', [ids[0], ids[1]]]
    if depth > 1 or len(ids) == 1:
        return [k, list(ids)]
    c = d(st.integers(1, len(ids) - 1)) if len(ids) > 1 else 1
    return [k, [draw_spec(d, p, depth + 1) for p in (ids[:c], ids[c:]) if p]]


class C(ProgramCheck):
    corpus = 'args'
    dense = 0.35
    n_thr = 2

    def decorate(self, d, case):
        case = super().decorate(d, case)
        k = len(case['shapes'])
        ids = d(st.permutations(list(range(k))))
        # role of each input: positional, keyword or closed over
        roles = [d(st.sampled_from(['pos', 'pos', 'pos', 'kw', 'close'])) for _ in range(k)]
        if 'pos' not in roles:
            roles[0] = 'pos'
        posn = [i for i in ids if roles[i] == 'pos']
        args = []
        while posn:
            c = d(st.integers(1, len(posn)))
            args.append(draw_spec(d, posn[:c]))
            posn = posn[c:]
        case['roles'], case['args'] = roles, args
        case['kinds'] = [d(st.sampled_from(['jax', 'jax', 'np', 'np', 'py'])) for _ in range(k)]
        m = len(case['outs'])
        case['res'] = draw_spec(d, list(range(m))) if d(st.integers(0, 3)) else ['list', list(range(m))]
        case['extra'] = d(st.integers(0, 2))  # constant results
        return case

    def shrinks(self, case, v):
        for c in super().shrinks(case, v):
            if len(c['outs']) != len(case['outs']):
                c = dict(c, res=['list', list(range(len(c['outs'])))])
            yield c

    def run(self, case):
        ins, ref, tol = prepare(case)
        roles, spec = case['roles'], case['args']

        def value(i):
            x, k = ins[i], case['kinds'][i]
            if k == 'np':
                return np.asarray(x)
            if k == 'py' and np.ndim(x) == 0:
                return float(x)
            return jnp.asarray(x)

        order = jax.tree_util.tree_leaves([pack(s, lambda i: i) for s in spec])
        starts = np.cumsum([0] + [int(np.size(x)) for x in ins])
        rows = np.concatenate([np.arange(starts[i], starts[i + 1]) for i in order]).astype(int)
        n = len(rows)
        f = fn_of(case)
        consts = {i: jnp.asarray(ins[i]) for i in range(len(ins)) if roles[i] == 'close'}

        def g(*args, **kw):
            got = dict(consts)
            for a, s in zip(args, spec):
                collect(a, s, got)
            for kname, a in kw.items():
                got[int(kname[1:])] = a
            res = f(*[got[i] for i in range(len(ins))])
            out = pack(case['res'], lambda k: res[k])
            if case['extra'] == 1:
                out = (out, jnp.arange(3.0), None)
            elif case['extra'] == 2:
                out = {'out': out, 'const': 2.5, 'kw': {k: v for k, v in kw.items()}}
            return out

        args = [pack(s, value) for s in spec]
        kw = {f'k{i}': value(i) for i in range(len(ins)) if roles[i] == 'kw'}
        n_extra = 0
        for t in case['thr']:
            what = f'threshold {t}'
            thr = t
            out = call(lambda: folx.forward_laplacian(g, thr, disable_jit=not case['jit'])(*args, **kw), refusable=REFUSE if has_refusable(case) else (), what=what)
            want = jax.eval_shape(g, *args, **kw)
            got_t = jax.tree_util.tree_structure(out, is_leaf=IS_LPL)
            if got_t != jax.tree_util.tree_structure(want):
                raise Violation(f'{what}: structure {got_t} instead of {jax.tree_util.tree_structure(want)}')
            if case['extra'] == 1:
                out, const, _ = out
                if IS_LPL(const) or not np.array_equal(np.asarray(const), np.arange(3.0)):
                    raise Violation(f'{what}: constant result came back as {const}')
            elif case['extra'] == 2:
                const, kws, out = out['const'], out['kw'], out['out']
                if IS_LPL(const) or float(const) != 2.5:
                    raise Violation(f'{what}: constant result came back as {const}')
                for kname, v in kws.items():
                    if IS_LPL(v) or not np.array_equal(np.asarray(v), np.asarray(kw[kname])):
                        raise Violation(f'{what}: keyword argument came back as {v}')
            outs = [None] * len(case['outs'])
            collect(out, case['res'], outs)

            def cmp(outs, what):
                for k, o in zip(case['outs'], outs):
                    try:
                        dy, d2 = (None, None) if ref.dy[k] is None else (ref.dy[k][rows], ref.d2[k][rows])
                        compare_one(o, ref.y[k], dy, d2, n, tol, f'{what}, value {k}')
                    except Violation as v:
                        v.info['out'] = k
                        raise

            try:
                cmp(outs, what)
            except Violation:
                def again():
                    o2 = [None] * len(case['outs'])
                    r = folx.forward_laplacian(g, thr, disable_jit=True)(*args, **kw)
                    collect(r[0] if case['extra'] == 1 else r['out'] if case['extra'] == 2 else r, case['res'], o2)
                    return o2

                if fused(case, outs, case['jit'], again, lambda o: cmp(o, 'not compiled')):
                    raise Discard('fused maximum')
                raise
        return {'labels': ['role:' + r for r in roles] + ['kind:' + k for k in case['kinds']] + [f'extra:{case["extra"]}', f'args:{len(spec)}'], 'nontrivial': len(case['nodes']) >= 1}


def collect(tree, spec, out):
    if isinstance(spec, int):
        out[spec] = tree
        return
    k, items = spec
    if k == 'none':
        tree = tree[1]
    for i, s in enumerate(items):
        collect(tree['zyxwvutsrqponmlkjihg'[i]] if k == 'dict' else tree[i], s, out)


CHECK = C()
