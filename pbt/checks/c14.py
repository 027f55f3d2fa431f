"""Composition of transformed functions."""
import jax.numpy as jnp
import numpy as np

import folx
from folx.api import FwdJacobian, FwdLaplArray

from ..dsl import run_program
from ..oracle import IS_LPL, call, compare_one, leaves, np_dense
from ..progcheck import REFUSE, has_refusable
from .base import *


def needed(nodes, pos):
    return sorted({a for n in nodes for a in n[1] if not isconst(a)})


class C(ProgramCheck):
    dense = 0.3

    def decorate(self, d, case):
        n = n_inputs(case)
        m = len(case['nodes'])
        k = d(st.sampled_from([2, 2, 2, 3])) if m >= 3 else 2
        case['cuts'] = sorted({d(st.integers(0 if i == 0 and d(st.booleans()) else 1, max(m - 1, 1))) for i in range(k - 1)})
        case['thr'] = [0 if d(st.integers(0, 2)) == 0 else draw_threshold(d, n) for _ in range(3)]
        case['jit'] = [d(st.integers(0, 9)) > 1 for _ in range(3)]
        # how intermediate results reach the next stage
        case['via'] = [d(st.sampled_from(['as is', 'as is', 'as is', 'dense', 'user dense', 'user sparse', 'user mixed'])) for _ in range(2)]
        case['tree'] = d(st.booleans())
        case['useed'] = d(st.integers(0, 999))
        # an additional constant argument of the later stages, before or after the propagated ones
        case['const'] = d(st.sampled_from(['no', 'first', 'last', 'first', 'middle']))
        return case

    def shrinks(self, case, v):
        for c in super().shrinks(dict(case, thr=[0]), v):
            c = dict(c, thr=case['thr'], jit=case['jit'])
            c['cuts'] = sorted({min(x, max(len(c['nodes']) - 1, 0)) for x in c['cuts']})
            yield c
        m = len(case['nodes'])
        for i in range(m):
            if case['cuts'] != [i]:
                yield dict(case, cuts=[i])
        for i in range(2):
            if case['via'][i] != 'as is':
                yield dict(case, via=['as is' if j == i else x for j, x in enumerate(case['via'])])
        if not all(case['jit']):
            yield dict(case, jit=[True] * 3)
        if case.get('const', 'no') != 'no':
            yield dict(case, const='no')

    def run(self, case):
        ins, ref, tol = prepare(case)
        n = n_inputs(case)
        nodes, counts = case['nodes'], case['counts']
        refuse = REFUSE if has_refusable(case) else ()
        cuts = [c for c in case['cuts'] if c <= len(nodes)]
        bounds = [0] + cuts + [len(nodes)]
        stages = [(bounds[i], bounds[i + 1]) for i in range(len(bounds) - 1)]
        n_in = len(ins)
        pos = [n_in]
        for c in counts:
            pos.append(pos[-1] + c)
        labels = []
        rnd = np.random.RandomState(case['useed'])
        env = {i: jnp.asarray(x) for i, x in enumerate(ins)}
        for s, (a, b) in enumerate(stages):
            seg = nodes[a:b]
            rest = nodes[b:]
            local = range(pos[a], pos[b])
            outs_needed = set(case['outs']) | set(needed(rest, None))
            outs = [v for v in list(range(pos[a])) + list(local) if v in outs_needed and (v in local or v in env)]
            if s == 0:
                args = list(range(n_in))
            else:
                args = sorted(v for v in set(needed(seg, None)) | set(outs) if v < pos[a])
            idx = {v: i for i, v in enumerate(args)}

            const = case.get('const', 'no') if s > 0 else 'no'

            def g(*xs):
                k = None
                if case['tree'] and s > 0:
                    k = xs[0].get('a', xs[0].get('z'))
                    xs = xs[0]['v']
                elif const != 'no':
                    k = xs[cpos]
                    xs = xs[:cpos] + xs[cpos + 1:]
                local_env = dict(zip(args, [jnp.asarray(x) for x in xs]))
                full = [local_env.get(i) for i in range(pos[a])]
                full = run_program(seg, full)
                res = [full[v] for v in outs]
                if k is not None:
                    res = [r * k[0] if jnp.issubdtype(jnp.result_type(r), jnp.inexact) else r for r in res]
                return res

            vals = [env[v] for v in args]
            cpos = {'no': None, 'first': 0, 'last': len(vals), 'middle': len(vals) // 2}[const]
            flat = vals if const == 'no' else vals[:cpos] + [jnp.ones(2)] + vals[cpos:]
            tree = {'v': vals} if const == 'no' else {'a' if const == 'first' else 'z': jnp.ones(2), 'v': vals}
            if s > 0 and not any(IS_LPL(v) for v in vals):
                # nothing depends on the inputs any more: plain evaluation
                import jax

                res = g(*([tree] if case['tree'] else flat))
            else:
                t = case['thr'][s]
                fargs = [tree] if case['tree'] and s > 0 else flat
                if const != 'no':
                    labels.append('constant ' + const)
                # index arrays cannot be arguments of a compiled function
                jit = case['jit'][s] and not any(IS_LPL(v) and v.jacobian.x0_idx is not None for v in vals)
                res = call(lambda: folx.forward_laplacian(g, t, disable_jit=not jit)(*fargs), refusable=refuse, what=f'stage {s}, threshold {t}')
            for v, o in zip(outs, res):
                labels.append(f'stage{s}:' + ('plain' if not IS_LPL(o) else 'sparse' if o.jacobian.x0_idx is not None else 'dense'))
                try:
                    compare_one(o, ref.y[v], ref.dy[v], ref.d2[v], n, tol, f'stage {s} of {stages}, thresholds {case["thr"]}, value {v}')
                except Violation as e:
                    if IS_LPL(o) and bool(jnp.any(jnp.isnan(o.laplacian))):
                        from ..progcheck import fusion_artefact

                        if fusion_artefact(case, [o]):
                            raise Discard('fused maximum')
                    e.info['out'] = v
                    raise
            if s == len(stages) - 1:
                break
            via = case['via'][min(s, 1)]
            for v, o in zip(outs, res):
                if IS_LPL(o):
                    o = self.transport(o, via, n, rnd)
                env[v] = o
            labels.append('via:' + via)
        return {'labels': labels + [f'stages:{len(stages)}'], 'nontrivial': any(l in ('stage1:sparse', 'stage1:dense') for l in labels)}

    def transport(self, o, via, n, rnd):
        if via == 'as is':
            if o.jacobian.x0_idx is not None:
                # compiled stages return their index arrays as JAX arrays
                o = o._replace(jacobian=o.jacobian._replace(x0_idx=np.asarray(o.jacobian.x0_idx)))
            return o
        if via == 'dense':
            return o.dense
        J = np_dense(o.jacobian, n)
        if via == 'user mixed':
            via = ['user dense', 'user sparse'][rnd.randint(2)]
        if via == 'user dense':
            return FwdLaplArray(o.x, FwdJacobian.from_dense(jnp.asarray(J)), o.laplacian)
        # a sparse Jacobian with the same entries in another order per element
        perm = np.argsort(rnd.uniform(size=J.shape), axis=0)
        data = np.take_along_axis(J, perm, 0)
        return FwdLaplArray(o.x, FwdJacobian(jnp.asarray(data), perm), o.laplacian)


CHECK = C()
