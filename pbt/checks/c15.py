"""Compilation, batching, reuse and outer differentiation."""
import jax
import jax.numpy as jnp
import numpy as np

import folx

from ..dsl import input_values
from ..oracle import IS_LPL, call, close, compare_one, leaves, worst
from ..progcheck import REFUSE, fn_of, has_refusable
from .base import *

MODES = ['nojit', 'outer', 'outer', 'vmap', 'vmap', 'reuse', 'grad', 'grad', 'param', 'material', 'calls']
NOREV = {'while', 'fori', 'whilepair', 'fori_dyn'}


class C(ProgramCheck):
    dense = 0.4

    def decorate(self, d, case):
        case = super().decorate(d, case)
        case['mode'] = d(st.sampled_from(MODES))
        case['thr'] = case['thr'][:1] if case['mode'] != 'reuse' else case['thr']
        case['jit'] = case['mode'] != 'nojit'
        case['inner'] = d(st.integers(0, 3)) > 0  # jit inside of the transformation
        case['b'] = d(st.integers(1, 3))
        case['bs'] = d(st.integers(0, 999))
        return case

    def shrinks(self, case, v):
        for c in super().shrinks(case, v):
            yield dict(c, jit=case['jit'])

    def run(self, case):
        ins, ref, tol = prepare(case)
        n = n_inputs(case)
        mode = case['mode']
        refuse = REFUSE if has_refusable(case) else ()
        f = fn_of(case)
        outs = case['outs']
        xs = [jnp.asarray(x) for x in ins]
        for t in case['thr']:
            what = f'{mode}, threshold {t}'
            fl = folx.forward_laplacian(f, t, disable_jit=not case['inner'])
            labels = ['mode:' + mode, f'inner jit:{case["inner"]}']

            def compare(res, what=what, parts='xlj'):
                """res: list of dicts"""
                for k, r in zip(outs, res):
                    if ref.dy[k] is None:
                        continue
                    want = {'x': ref.y[k], 'l': ref.d2[k].sum(0), 'j': ref.dy[k]}
                    for p in parts:
                        got = np.asarray(r[p])
                        if p == 'j':
                            got = np.concatenate([got, np.zeros((n - got.shape[0],) + got.shape[1:])])
                        if not close(got, want[p], tol):
                            if np.any(np.isnan(got)) and self.maxima(case):
                                raise Discard('fused maximum')
                            raise Violation(f'{what}, value {k}: {dict(x="value", l="Laplacian", j="Jacobian")[p]} {worst(got, want[p])}', {'out': k})

            def split(o, jac=False):
                if not IS_LPL(o):
                    r = {'x': o, 'l': jnp.zeros(jnp.shape(o)), 'j': jnp.zeros((0,) + jnp.shape(o))}
                else:
                    r = {'x': o.x, 'l': o.laplacian}
                    if jac:
                        r['j'] = o.jacobian.dense_array
                return r

            if mode == 'nojit':
                fl = folx.forward_laplacian(f, t, disable_jit=True)
                res = call(lambda: fl(*xs), refusable=refuse, what=what)
                for k, o in zip(outs, res):
                    compare_one(o, ref.y[k], ref.dy[k], ref.d2[k], n, tol, f'{what}, value {k}')
            elif mode == 'outer':
                res = call(lambda: jax.jit(lambda *a: [split(o) for o in fl(*a)])(*xs), refusable=refuse, what=what)
                compare(res, parts='xl')
            elif mode == 'material':
                fl = folx.forward_laplacian(f, t, disable_jit=True)
                res = call(lambda: jax.jit(lambda *a: [split(o, True) for o in fl(*a)])(*xs), refusable=refuse, what=what)
                compare(res)
            elif mode == 'vmap':
                B = case['b']
                others = [[jnp.asarray(v) for v in input_values(case['shapes'], case['bs'] + b, 'p')] for b in range(1, B)]
                batch = [xs] + others
                stacked = [jnp.stack([b[i] for b in batch]) for i in range(len(xs))]
                res = call(lambda: jax.vmap(lambda *a: [split(o) for o in fl(*a)])(*stacked), refusable=refuse, what=what)
                compare([{p: np.asarray(v)[0] for p, v in r.items()} for r in res], parts='xl')
                # the other members of the batch against separate calls
                for b in range(1, B):
                    one = call(lambda: [split(o) for o in fl(*batch[b])], refusable=refuse, what=what)
                    for k, r, o in zip(outs, res, one):
                        for p in 'xl':
                            x, y = np.asarray(r[p])[b], np.asarray(o[p])
                            if x.dtype.kind not in 'fc' or not np.all(np.isfinite(y)):
                                continue
                            if not close(x, y, tol + 1e-6 * float(np.max(np.abs(y), initial=0))):
                                if np.any(np.isnan(x)) and self.maxima(case):
                                    raise Discard('fused maximum')
                                raise Violation(f'{what}, value {k}: member {b} of the batch: {p} {worst(x, y)}', {'out': k})
            elif mode in ('reuse', 'calls'):
                other = [jnp.asarray(v) for v in input_values(case['shapes'], case['bs'] + 7, 'n')]
                first = call(lambda: fl(*xs), refusable=refuse, what=what)
                try:
                    fl(*other)
                except Exception:
                    pass
                again = call(lambda: fl(*xs), refusable=refuse, what=what)
                for o in (first, again):
                    for k, r in zip(outs, o):
                        try:
                            compare_one(r, ref.y[k], ref.dy[k], ref.d2[k], n, tol, f'{what}, value {k}')
                        except Violation as v:
                            if IS_LPL(r) and bool(jnp.any(jnp.isnan(r.laplacian))) and self.maxima(case):
                                raise Discard('fused maximum')
                            v.info['out'] = k
                            raise
            elif mode in ('grad', 'param'):
                keep = [j for j, k in enumerate(outs) if ref.dy[k] is not None]
                co = [np.random.RandomState(case['bs'] + j).uniform(-1, 1, size=ref.y[k].shape) for j, k in enumerate(outs)]

                def true(*a):
                    def second(i_flat):
                        return jax.jvp(lambda z: jax.jvp(lambda q: pick(q), (z,), (i_flat,))[1], (flat(a),), (i_flat,))[1]

                    def flat(a):
                        return jnp.concatenate([jnp.ravel(x) for x in a])

                    def pick(q):
                        from ..oracle import unflat

                        r = f(*unflat(q, case['shapes']))
                        return sum(jnp.sum(jnp.real(r[j]) * co[j] + (jnp.imag(r[j]) * 0.3 * co[j] if jnp.iscomplexobj(r[j]) else 0)) for j in keep)

                    return jnp.sum(jax.vmap(second)(jnp.eye(n)))

                def lib(*a):
                    r = fl(*a)
                    s = 0.0
                    for j in keep:
                        if IS_LPL(r[j]):
                            l = r[j].laplacian
                            s = s + jnp.sum(jnp.real(l) * co[j] + (jnp.imag(l) * 0.3 * co[j] if jnp.iscomplexobj(l) else 0))
                    return s + 0.0 * a[0].sum()

                nums = tuple(range(len(xs)))
                if mode == 'grad':
                    A, B = true, lib
                else:
                    scale = jnp.linspace(0.9, 1.1, len(xs))

                    def A(p):
                        g0 = fn_of(case)
                        return wrapped_true(p)

                    def wrapped_true(p):
                        def pick(q):
                            from ..oracle import unflat

                            r = f(*[x * s for x, s in zip(unflat(q, case['shapes']), p)])
                            return sum(jnp.sum(jnp.real(r[j]) * co[j] + (jnp.imag(r[j]) * 0.3 * co[j] if jnp.iscomplexobj(r[j]) else 0)) for j in keep)

                        z = jnp.concatenate([jnp.ravel(x) for x in xs])
                        return jnp.sum(jax.vmap(lambda v: jax.jvp(lambda z: jax.jvp(pick, (z,), (v,))[1], (z,), (v,))[1])(jnp.eye(n)))

                    def B(p):
                        flp = folx.forward_laplacian(lambda *a: f(*[x * s for x, s in zip(a, p)]), t, disable_jit=True)
                        r = flp(*xs)
                        s = 0.0
                        for j in keep:
                            if IS_LPL(r[j]):
                                l = r[j].laplacian
                                s = s + jnp.sum(jnp.real(l) * co[j] + (jnp.imag(l) * 0.3 * co[j] if jnp.iscomplexobj(l) else 0))
                        return s + 0.0 * p.sum()

                    xs_args, nums = (jnp.ones(len(xs)),), (0,)
                pa = xs if mode == 'grad' else list(xs_args)
                try:
                    want = jax.jit(jax.grad(A, nums))(*pa)
                except Exception as e:
                    raise Discard('jax cannot differentiate: ' + type(e).__name__)
                if not all(np.all(np.isfinite(w)) for w in want) or max(float(np.max(np.abs(w), initial=0)) for w in want) > 1e7:
                    raise Discard('huge')
                got = call(lambda: jax.jit(jax.grad(B, nums))(*pa), refusable=REFUSE if case_norev(case) else refuse, what=what)
                tol3 = 100 * tol + 1e-8 * max(float(np.max(np.abs(w), initial=0)) for w in want)
                for i, (a, b) in enumerate(zip(got, want)):
                    if not close(a, b, tol3):
                        if self.maxima(case):
                            raise Discard('fused maximum')
                        raise Violation(f'{what}: gradient of the Laplacian w.r.t. argument {i}: {worst(a, b)}')
        return {'labels': labels, 'nontrivial': len(case['nodes']) >= 2}

    def maxima(self, case):
        jaxpr = str(jax.make_jaxpr(fn_of(case))(*[np.zeros(s) for s in case['shapes']]))
        return any(k in jaxpr for k in ('reduce_max', 'reduce_min', 'scatter-max', 'scatter-min'))


def case_norev(case):
    return any('while' in n[0] or 'fori' in n[0] for n in case['nodes'])


CHECK = C()
