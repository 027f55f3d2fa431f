"""Weights."""
import jax.numpy as jnp
import numpy as np

from ..oracle import compare_one, leaves
from ..progcheck import REFUSE, fn_of, has_refusable, run_folx
from .base import *
from ..oracle import call

W = [0.5, 2.0, -1.0, 1.5, -0.25, 3.0, 1.0, 0.0]


class C(ProgramCheck):
    dense = 0.35
    n_thr = 2

    def decorate(self, d, case):
        case = super().decorate(d, case)
        k = len(case['shapes'])
        kinds = ['none', 'scalar', 'tuple', 'tuple', 'tuple', 'array', 'int', 'group', 'group', 'list']
        case['w'] = [d(st.sampled_from(kinds)), [d(st.sampled_from(W)) for _ in range(max(k, 3))]]
        # 'split' arguments: every input is cut into pieces which are passed as a container
        case['box'] = [d(st.sampled_from(['plain', 'plain', 'list', 'dict', 'nest'])) for _ in range(k)]
        case['cut'] = [d(st.integers(0, 3)) for _ in range(k)]
        return case

    def run(self, case):
        ins, ref, tol = prepare(case)
        n = n_inputs(case)
        kind, ws = case['w']
        f = fn_of(case)
        # boxes: an input is split along its first axis into two leaves
        args, sizes, builders = [], [], []
        for x, box, cut in zip(ins, case['box'], case['cut']):
            if box == 'plain' or x.ndim == 0 or x.shape[0] < 2:
                args.append(jnp.asarray(x))
                sizes.append(None)
                builders.append(lambda a: a)
                continue
            c = 1 + cut % (x.shape[0] - 1)
            a, b = jnp.asarray(x[:c]), jnp.asarray(x[c:])
            sizes.append((a.size, b.size))
            if box == 'list':
                args.append([a, b])
                builders.append(lambda t: jnp.concatenate([t[0], t[1]]))
            elif box == 'dict':
                args.append({'a': a, 'b': b})
                builders.append(lambda t: jnp.concatenate([t['a'], t['b']]))
            else:
                args.append(({'k': a}, (b,)))
                builders.append(lambda t: jnp.concatenate([t[0]['k'], t[1][0]]))

        def g(*xs):
            return f(*[b(x) for b, x in zip(builders, xs)])

        flat = []
        if kind == 'none':
            weights, flat = None, [1.0] * n
        elif kind == 'scalar':
            weights, flat = ws[0], [ws[0]] * n
        elif kind == 'int':
            weights, flat = 2, [2.0] * n
        elif kind == 'array':
            weights, flat = jnp.asarray(ws[0]), [ws[0]] * n
        else:
            per = []
            for i, (x, s, box) in enumerate(zip(ins, sizes, case['box'])):
                if s is None or kind != 'group':
                    per.append(ws[i])
                    flat += [ws[i]] * x.size
                else:
                    w1, w2 = ws[i], ws[(i + 1) % len(ws)]
                    flat += [w1] * s[0] + [w2] * s[1]
                    per.append([w1, w2] if box == 'list' else {'a': w1, 'b': w2} if box == 'dict' else (w1, (w2,)))
            weights = tuple(per) if kind != 'list' else tuple(jnp.asarray(p) if not isinstance(p, (list, dict, tuple)) else p for p in per)
        w = np.asarray(flat, dtype=float)
        for t in case['thr']:
            out = call(run_w, g, args, t, case['jit'], weights, refusable=REFUSE if has_refusable(case) else (), what=f'threshold {t}, weights {weights}')
            outs = leaves(out)
            for k, o in zip(case['outs'], outs):
                try:
                    compare_one(o, ref.y[k], ref.dy[k], ref.d2[k], n, tol * 10, f'threshold {t}, weights {weights}, value {k}', w=w)
                except Violation as v:
                    if fused(case, outs, case['jit'], lambda: leaves(run_w(g, args, t, False, weights)), lambda o2: [
                            compare_one(o, ref.y[k], ref.dy[k], ref.d2[k], n, tol * 10, 'not compiled', w=w) for k, o in zip(case['outs'], o2)]):
                        raise Discard('fused maximum')
                    v.info['out'] = k
                    raise
        return {'labels': ['weights:' + kind] + ['box:' + b for b in case['box']], 'nontrivial': len(set(flat)) > 1 or flat[0] not in (1.0, 0.0)}

    def shrinks(self, case, v):
        yield from super().shrinks(case, v)
        if any(b != 'plain' for b in case['box']):
            yield dict(case, box=['plain'] * len(case['box']))
        if case['w'][0] != 'scalar':
            yield dict(case, w=['scalar', case['w'][1]])


def run_w(g, args, thr, jit, weights):
    import folx

    return folx.forward_laplacian(g, thr, disable_jit=not jit)(*args, weights=weights)


CHECK = C()
