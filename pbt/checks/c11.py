"""Number types and shapes."""
import jax
import jax.numpy as jnp
import numpy as np

from ..oracle import IS_LPL, call, compare_one, leaves, scale
from ..progcheck import REFUSE, fn_of, has_refusable, run_folx
from .base import *


def mixed(case, ref, tols, types):
    """The derivative of a double precision result with respect to a single precision operand may be
    a single precision number, even if forward mode never rounds it."""
    n_in = len(case['shapes'])
    single = lambda i: types[i] in (np.float32, np.complex64)
    out, rounded, pos = list(tols), [False] * n_in, n_in
    s = scale(ref)
    for (_, args, _), c in zip(case['nodes'], case['counts']):
        ids = [a for a in args if not isconst(a)]
        other = len(ids) < len(args) or any(not single(i) for i in ids)
        r = any(rounded[i] for i in ids) or (other and any(single(i) for i in ids))
        for k in range(pos, pos + c):
            if r and ref.dy[k] is not None:
                out[k] = max(out[k], 3e-5 * s)
        rounded += [r] * c
        pos += c
    return out


class C(ProgramCheck):
    corpus = 'types'
    dense = 0.35

    def run(self, case):
        ins, ref, (tols, types) = prepare(case)
        n = n_inputs(case)
        tols = mixed(case, ref, tols, types)
        for t in case['thr']:
            def cmp(outs):
                for k, o in zip(case['outs'], outs):
                    try:
                        y = ref.y[k] if ref.dy[k] is not None else ref.y[k].astype(types[k])
                        compare_one(o, y, ref.dy[k], ref.d2[k], n, tols[k], f'threshold {t}, value {k}', dtype=types[k])
                    except Violation as v:
                        v.info['out'] = k
                        raise

            run = lambda jit: leaves(run_folx(fn_of(case), ins, t, jit))
            outs = call(run, case['jit'], refusable=REFUSE if has_refusable(case) else (), what=f'threshold {t}')
            try:
                cmp(outs)
            except Violation:
                if fused(dict(case), outs, case['jit'], lambda: run(False), cmp):
                    raise Discard('fused maximum')
                raise
        got = sorted({str(types[k]) for k in case['outs']})
        return {'labels': ['type:' + g for g in got] + ['op:' + x[0] for x in case['nodes'] if OPS[x[0]].fam == 'typ'], 'nontrivial': len({str(t) for t in types}) > 1}


CHECK = C()
