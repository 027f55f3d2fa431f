"""Runs a program case against the derivative oracle."""
import json

import jax
import jax.numpy as jnp
import numpy as np

import folx

from . import dsl
from .dsl import REFUSABLE, input_values, run_program
from .oracle import IS_LPL, Discard, Violation, call, compare_one, leaves, reference, scale

REFUSE = (AssertionError, TypeError, ValueError, NotImplementedError, KeyError)


def fn_of(case, outs=None, struct='list'):
    nodes = case['nodes']
    outs = case['outs'] if outs is None else outs

    def f(*inputs):
        env = run_program(nodes, [jnp.asarray(x) for x in inputs])
        return [env[i] for i in outs]

    return f


_LAST = [None, None]


def key(case):
    return json.dumps([case.get(k) for k in ('shapes', 'seed', 'style', 'nodes', 'dt')])


def remember(case, prep):
    _LAST[:] = [key(case), prep]


def prepare(case):
    """Reference of all nodes; returns (inputs, Ref, tolerance)."""
    if _LAST[0] == key(case):
        return _LAST[1]
    ins = input_values(case['shapes'], case['seed'], case['style'])
    total = len(ins) + sum(case['counts'])
    if 'dt' in case:
        return prepare_types(case, ins, total)
    f = fn_of(case, range(total))
    ref = reference(lambda xs: f(*xs), ins)
    return ins, ref, 1e-9 * scale(ref) + 1e-9


def fused(case, outs, jit, rerun, check):
    """Whether a deviation is the artefact above: then the uncompiled results must be right."""
    if not jit or not fusion_artefact(case, outs):
        return False
    check(rerun())
    return True


def has_refusable(case):
    return any(n[0] in REFUSABLE for n in case['nodes'])


def prepare_types(case, ins, total):
    """Reference of the function without any rounding, number types and errors of the actual one."""
    from . import ops_typ

    dt = [np.dtype(t) for t in case['dt']]
    ins = [x.astype(t) for x, t in zip(ins, dt)]
    f = fn_of(case, range(total))
    try:
        ops_typ.HI[0] = True
        hi = reference(lambda xs: f(*xs), [x.astype(float) for x in ins])
    finally:
        ops_typ.HI[0] = False
    low = reference(lambda xs: f(*[x.astype(t) for x, t in zip(xs, dt)]), [x.astype(float) for x in ins])
    types = [np.dtype(o.dtype) for o in jax.eval_shape(f, *ins)]
    s = scale(hi)
    if s > 300:
        raise Discard('huge')
    tols = []
    for k in range(total):
        if hi.dy[k] is None or low.dy[k] is None:
            if hi.dy[k] is not None or low.dy[k] is not None:
                raise Discard('types')
            if not np.array_equal(hi.y[k], low.y[k]):
                raise Discard('rounding changes integers')
            tols.append(0.0)
            continue
        e = max(float(np.max(np.abs(a - b), initial=0)) for a, b in ((hi.y[k], low.y[k]), (hi.dy[k], low.dy[k]), (hi.d2[k], low.d2[k])))
        if e > 1e-4 * s:
            raise Discard('ill conditioned')
        single = e > 1e-12 * s or types[k] in (np.float32, np.complex64)
        tols.append(100 * e + 3e-5 * s if single else 1e-9 * s)
    return ins, hi, (tols, types)


def fusion_artefact(case, outs):
    """XLA may evaluate the operand of reduce_max twice with different roundings, the derivative of
    reduce_max looks for the operand that equals the maximum and is 0/0 if it finds none.  Plain
    jax.jit(jax.jvp(f)) shows the same."""
    if not any(bool(jnp.any(jnp.isnan(o.laplacian)) | jnp.any(jnp.isnan(o.jacobian.data))) for o in outs if IS_LPL(o)):
        return False
    jaxpr = str(jax.make_jaxpr(fn_of(case))(*[np.zeros(s) for s in case['shapes']]))
    return any(k in jaxpr for k in ('reduce_max', 'reduce_min', 'scatter-max', 'scatter-min'))


def compiler_sensitive(case):
    """Programs in which derivatives compare a recomputed value for equality (see above; the result may
    also be 0 instead of NaN) or which XLA was seen to miscompile: there a deviation must persist
    without compilation."""
    try:
        dt = case.get('dt') or ['float64'] * len(case['shapes'])
        jaxpr = str(jax.make_jaxpr(fn_of(case))(*[np.zeros(s, t) for s, t in zip(case['shapes'], dt)]))
    except Exception:
        return False
    return any(k in jaxpr for k in ('reduce_max', 'reduce_min', 'scatter-max', 'scatter-min', 'cummax', 'cummin', 'cumsum', 'reduce_window_m'))


def n_inputs(case):
    return int(sum(np.prod(s, dtype=int) for s in case['shapes']))


def run_folx(f, ins, thr, jit=True, **kw):
    fl = folx.forward_laplacian(f, thr, disable_jit=not jit)
    return fl(*[jnp.asarray(x) for x in ins], **kw)


def check_program(case, thr, jit=True, prepared=None, labels=None, may_refuse=True):
    ins, ref, tol = prepared or prepare(case)
    n = n_inputs(case)
    refuse = REFUSE if may_refuse and has_refusable(case) else ()
    out = call(run_folx, fn_of(case), ins, thr, jit, refusable=refuse, what=f'threshold {thr}')
    outs = leaves(out)
    if not isinstance(out, list) or len(outs) != len(case['outs']):
        raise Violation(f'threshold {thr}: results have another structure')
    kinds = []
    for k, o in zip(case['outs'], outs):
        try:
            kinds.append(compare_one(o, ref.y[k], ref.dy[k], ref.d2[k], n, tol, f'threshold {thr}, value {k}'))
        except Violation as v:
            if jit and fusion_artefact(case, outs):
                check_program(case, thr, False, (ins, ref, tol))  # must be right when it is not compiled
                raise Discard('fused maximum')
            v.info['out'] = k
            raise
    return kinds
