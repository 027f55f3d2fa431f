"""Laplacian operators."""
import jax
import jax.numpy as jnp
import numpy as np

import folx

from ..oracle import call, close, unflat, worst
from ..ops_idx import factor_shapes
from ..progcheck import REFUSE, fn_of, has_refusable
from .base import *


class C(ProgramCheck):
    dense = 0.3
    n_thr = 1

    def decorate(self, d, case):
        case = super().decorate(d, case)
        n = n_inputs(case)
        case['pad'] = [d(st.integers(0, 2)) * d(st.integers(0, 1)), d(st.integers(0, 2)) * d(st.integers(0, 1))]
        tot = n + sum(case['pad'])
        case['shape'] = d(st.sampled_from(factor_shapes(tot) + ([[]] if tot == 1 else [])))
        case['ops'] = sorted({d(st.sampled_from(['forward', 'forward', 'loop', 'parallel'])) for _ in range(2)})
        case['wrap'] = d(st.sampled_from(['plain', 'plain', 'plain', 'jit', 'vmap', 'grad', 'call']))
        case['f32'] = d(st.integers(0, 3)) == 0
        case['cs'] = d(st.integers(0, 99))
        if len(case['outs']) > 2:
            case['outs'] = case['outs'][-2:]
        case['jit'] = True
        return case

    def shrinks(self, case, v):
        for c in super().shrinks(case, v):
            yield dict(c, jit=True)
        if case['pad'] != [0, 0]:
            yield dict(case, pad=[0, 0], shape=[n_inputs(case)])
        if len(case['shape']) != 1:
            yield dict(case, shape=[n_inputs(case) + sum(case['pad'])])
        if len(case['ops']) > 1:
            for o in case['ops']:
                yield dict(case, ops=[o])
        if case['wrap'] != 'plain':
            yield dict(case, wrap='plain')
        if case.get('f32'):
            yield dict(case, f32=False)

    def run(self, case):
        ins, ref, tol = prepare(case)
        n = n_inputs(case)
        p0, p1 = case['pad']
        f0 = fn_of(case)
        outs = [k for k in case['outs'] if ref.dy[k] is not None]
        if not outs:
            raise Discard('integer results')
        cos = {k: np.random.RandomState(case['cs'] + k).uniform(-1, 1, size=ref.y[k].shape) for k in outs}
        sel = [case['outs'].index(k) for k in outs]

        single = case.get('f32', False)

        def f(x):
            # single precision inputs and results; in between, the programs need double precision
            if single:
                return f_(x.astype(jnp.float64)).astype(jnp.float32)
            return f_(x)

        def f_(x):
            r = f0(*unflat(jnp.ravel(x)[p0:p0 + n], case['shapes']))
            return sum(jnp.sum(jnp.real(r[j]) * cos[k]) + (jnp.sum(jnp.imag(r[j]) * cos[k] * 0.7) if jnp.iscomplexobj(r[j]) else 0.0) for j, k in zip(sel, outs))

        def comb(a, k):
            a = a * cos[k] if not np.iscomplexobj(a) else a.real * cos[k] + a.imag * cos[k] * 0.7
            return a.sum(tuple(range(a.ndim - cos[k].ndim, a.ndim)))

        lap = sum(comb(ref.d2[k], k).sum() for k in outs)
        grad = np.concatenate([np.zeros(p0), sum(comb(ref.dy[k], k) for k in outs), np.zeros(p1)])
        flat = np.concatenate([np.full(p0, 0.4)] + [np.ravel(x) for x in ins] + [np.full(p1, -0.7)])
        if single:
            # the values must be representable
            d32 = np.abs(flat - flat.astype(np.float32)).max() * 10 * (1 + np.abs(grad).max() + abs(lap))
            if d32 > 1e-4:
                raise Discard('sensitive')
        x = jnp.asarray(flat.reshape(case['shape']), jnp.float32 if single else jnp.float64)
        # a function which ignores its input has no derivatives to propagate
        names = {'forward': lambda: folx.ForwardLaplacianOperator(case['thr'][0]), 'loop': folx.LoopLaplacianOperator, 'parallel': folx.ParallelLaplacianOperator}
        constant = not np.any(grad) and not np.any([np.any(ref.d2[k]) for k in outs])
        tol = tol * 20 * (1 + sum(c.size for c in cos.values()))
        if single:
            tol = max(tol, 1e-4 * (1 + np.abs(grad).max() + sum(np.abs(comb(ref.d2[k], k)).sum() for k in outs)))
        labels = [f'single:{single}'] + [f'op:{o}' for o in case['ops']] + ['wrap:' + case['wrap'], f'ndim:{x.ndim}']
        for name in case['ops']:
            what = f'{name} operator, threshold {case["thr"][0]}, {case["wrap"]}, input of shape {case["shape"]}'
            if constant and name == 'forward':
                raise Discard('constant function')
            if name != 'forward':
                try:
                    jax.eval_shape(jax.hessian(f), x)
                except Exception as e:
                    raise Discard('no reverse mode: ' + type(e).__name__)
            op = names[name]()(f)
            xs = [x]
            if case['wrap'] == 'jit':
                run = lambda: jax.jit(lambda z: op(z + 0.0))(x)
            elif case['wrap'] == 'vmap':
                run = lambda: jax.tree_util.tree_map(lambda a: a[1], jax.vmap(op)(jnp.stack([x * 0.9, x, x * 1.1])))
            elif case['wrap'] == 'grad':
                # the value of the Laplacian through value_and_grad
                try:
                    jax.eval_shape(jax.grad(lambda z: jnp.trace(jax.hessian(f)(z).reshape(x.size, x.size))), x)
                except Exception as e:
                    raise Discard('no reverse mode: ' + type(e).__name__)

                def run():
                    (l, g), _ = jax.value_and_grad(lambda z: (lambda r: (r[0], r[1]))(op(z)), has_aux=True)(x)
                    return l, g
            elif case['wrap'] == 'call':
                def run():
                    op(x * 1.05)
                    return op(x)
            else:
                run = lambda: op(x)
            res = call(run, refusable=REFUSE if has_refusable(case) or (name == 'forward' and case['wrap'] == 'grad' and any('while' in n[0] or 'fori' in n[0] for n in case['nodes'])) else (), what=what)
            if not isinstance(res, tuple) or len(res) != 2:
                raise Violation(f'{what}: returned {type(res).__name__}')
            l, g = np.asarray(res[0]), np.asarray(res[1])
            if l.shape != () or g.shape != (x.size,):
                raise Violation(f'{what}: shapes {l.shape}, {g.shape} for an input of size {x.size}')
            want = np.float32 if single else np.float64
            if l.dtype != want or g.dtype != want:
                raise Violation(f'{what}: results of types {l.dtype}, {g.dtype} for an input of type {x.dtype}')
            if not close(l, lap, tol) or not close(g, grad, tol):
                if (np.isnan(l) or np.any(np.isnan(g))) and 'reduce_m' in str(jax.make_jaxpr(f)(x)):
                    raise Discard('fused maximum')
                if name != 'forward' and miscompiled(f, x, grad, lap, tol):
                    raise Discard('miscompiled reverse mode')
                raise Violation(f'{what}: Laplacian {float(l)} instead of {float(lap)}, gradient {worst(g, grad)}')
        return {'labels': labels, 'nontrivial': bool(np.any(grad)) and len(case['nodes']) >= 1}


def miscompiled(f, x, grad, lap, tol):
    """Whether JAX's own compiled reverse mode is wrong for this function."""
    g = np.ravel(np.asarray(jax.jit(jax.grad(f))(x)))
    h = np.asarray(jax.jit(jax.hessian(f))(x)).reshape(x.size, x.size)
    return not close(g, grad, tol) or not close(np.trace(h), lap, tol)


CHECK = C()
