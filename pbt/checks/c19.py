"""Jacobians, Hessians and pullbacks of folx.ad."""
import jax
import jax.numpy as jnp
import numpy as np

from folx import ad

from ..dsl import Pool, draw_program
from ..oracle import Discard, Violation, call, close, worst
from ..progcheck import fn_of
from .base import *
from ..rnd import st

HOLO = dict(sin=2, cos=1, exp=2, tanh=1, square=2, mul=4, add=2, sub=2, sum=2, mean=1, reshape=2, transpose=2, concat=2, stack=2, pyslice=2, dot_general=3, einsum=2, dense=2, roll=1, take=1, expand=1, cumsum=1, scale=1,
            ipow=1, pairdiff=1)
_P = {}


def pools(kind):
    if kind not in _P:
        if kind == 'holo':
            _P[kind] = [(1, Pool(**HOLO))]
        else:
            p = [(4, Pool(ew=3, ewb=4, idx=3, red=2, dot=3, lin=0.6, ctl=0.4))]
            _P['real'] = p
            _P['cpx'] = p + [(4, Pool(cpx=1))]
    return _P[kind]


def flat_tree(t):
    ls = jax.tree_util.tree_leaves(t)
    return np.concatenate([np.ravel(l) for l in ls]) if ls else np.zeros(0)


class C:
    def gen(self, d):
        kind = d(st.sampled_from(['real', 'real', 'cpx', 'lift', 'lift', 'holo', 'holo']))
        case = draw_program(d, pools('real' if kind == 'lift' else kind), (1, 5), max_n=6, cpx=kind == 'cpx', max_inputs=3)
        case['outs'] = case['outs'][-3:]
        case['kind'] = kind
        case['f32'] = d(st.integers(0, 3)) == 0
        case['im'] = d(st.integers(0, 999))
        case['what'] = d(st.sampled_from(['jacfwd', 'jacrev', 'jacrev', 'hessian', 'hessian', 'vjp', 'vjp']))
        case['jit'] = d(st.integers(0, 3)) > 0
        case['single'] = d(st.booleans())  # one array as the result
        case['box'] = d(st.integers(0, 2))
        return case

    def run(self, case):
        from ..progcheck import input_values

        ins = input_values(case['shapes'], case['seed'], case['style'])
        sizes = [int(x.size) for x in ins]
        n = sum(sizes)
        r = np.random.RandomState(case['im'])
        holo = case['kind'] == 'holo'
        ims = [np.round(r.uniform(-0.4, 0.4, size=x.shape), 3) if holo else None for x in ins]
        base = fn_of(case)
        f32 = case['f32']
        single = case['single'] or case['what'] == 'vjp'

        def prog(*xs):  # in double precision
            ys = base(*xs)
            ys = [y for y in (jnp.asarray(y) for y in ys) if jnp.issubdtype(y.dtype, jnp.inexact)]
            if not ys:
                raise Discard('integer results')
            if case['kind'] == 'lift':
                ys = [y + 1j * jnp.sin(0.7 * y + 0.3 * i) if i != 1 else y for i, y in enumerate(ys)]
            if single:
                return ys[-1]
            return ys

        def f(*xs):
            if not f32:
                return prog(*xs)
            ys = prog(*[x.astype(jnp.complex128 if holo else jnp.float64) for x in xs])
            return jax.tree_util.tree_map(lambda y: y.astype(jnp.complex64 if jnp.iscomplexobj(y) else jnp.float32), ys)

        args = [x + 1j * y if holo else x for x, y in zip(ins, ims)]
        args = [jnp.asarray(a.astype(np.complex64 if holo else np.float32) if f32 else a) for a in args]
        hi = [np.asarray(a).astype(complex if holo else float) for a in args]
        # reference: forward mode along the real axes, real and imaginary parts on their own
        flat0 = np.concatenate([np.real(a).ravel() for a in hi])
        imag0 = np.concatenate([np.imag(a).ravel() for a in hi])

        def g(z):
            q = z + 1j * imag0 if holo else z
            xs, k = [], 0
            for a, s in zip(hi, sizes):
                xs.append(q[k : k + s].reshape(a.shape))
                k += s
            y = jnp.concatenate([jnp.ravel(o) for o in jax.tree_util.tree_leaves(prog(*xs))])
            return jnp.real(y), jnp.imag(y)

        try:
            eye = jnp.eye(n)
            D = jax.jit(jax.vmap(lambda v: jax.jvp(g, (flat0,), (v,))[1]))(eye)
            J = (np.asarray(D[0]) + 1j * np.asarray(D[1])).T  # (m, n)
            y0 = g(flat0)
            cplx = any(jnp.iscomplexobj(o) for o in jax.tree_util.tree_leaves(jax.eval_shape(f, *args)))
            H = None
            if case['what'] == 'hessian':
                D2 = jax.jit(jax.vmap(lambda u: jax.vmap(lambda v: jax.jvp(lambda z: jax.jvp(g, (z,), (v,))[1], (flat0,), (u,))[1])(eye)))(eye)
                H = np.moveaxis(np.asarray(D2[0]) + 1j * np.asarray(D2[1]), -1, 0)  # (m, n, n)
            # reverse mode by JAX must exist
            if case['what'] != 'jacfwd':
                jax.eval_shape(lambda z: jax.vjp(lambda z: g(z), z)[1](g(z)), flat0)
        except Discard:
            raise
        except Exception as e:
            raise Discard('jax:' + type(e).__name__)
        for a in (J, H, np.asarray(y0)):
            if a is not None and (not np.all(np.isfinite(a)) or np.max(np.abs(a), initial=0) > 1e4):
                raise Discard('huge')
        sc = max(1.0, np.max(np.abs(J), initial=0), np.max(np.abs(H), initial=0) if H is not None else 0)
        tol = (1e-3 if f32 else 1e-9) * sc
        if not cplx:
            J = J.real
            H = None if H is None else H.real
        m = J.shape[0]
        # arguments as containers
        if case['box'] == 1:
            pargs = [{'a': args[0]}] + args[1:]
            fun = lambda a, *b: f(a['a'], *b)
        elif case['box'] == 2 and len(args) > 1 and case['what'] != 'vjp':
            pargs = [(args[0], [args[1]])] + args[2:]
            fun = lambda a, *b: f(a[0], a[1][0], *b)
        else:
            pargs, fun = args, f
        jit = jax.jit if case['jit'] else (lambda h: h)
        want_dt = {(0, 0): np.float64, (0, 1): np.float32, (1, 0): np.complex128, (1, 1): np.complex64}[(int(cplx), int(f32))]

        def jax_reverse():
            """Whether the reverse mode of JAX, without folx, gives the reference."""
            if what == 'jacfwd':
                return True
            R = jax.jacrev(lambda z: g(z))
            R2 = R if what != 'hessian' else jax.jacfwd(R)
            a, b = (np.asarray(q) for q in R2(flat0))
            return close(a + 1j * b if cplx else a, H if what == 'hessian' else J, tol)

        def same(what, a, b, dt=True):
            a = np.asarray(a)
            if a.shape != b.shape:
                raise Violation(f'{what}: shape {a.shape} instead of {b.shape}')
            if dt and a.dtype != want_dt:
                raise Violation(f'{what}: type {a.dtype} instead of {np.dtype(want_dt)}')
            if not close(a, b, tol):
                if not jax_reverse():
                    raise Discard('reverse mode of JAX deviates')
                raise Violation(f'{what}: {worst(a, b)}')

        what = case['what']
        starts = np.cumsum([0] + sizes)

        def blocks(res, mat, tail=()):
            """res: structure of the arguments with leaves (m, *shape, *tail); mat: (m, n, *tail)."""
            res_args = res if len(pargs) > 1 else (res,)
            if not isinstance(res_args, (tuple, list)) or len(res_args) != len(pargs):
                raise Violation(f'{what}: results do not correspond to {len(pargs)} arguments')
            if jax.tree_util.tree_structure(list(res_args)) != jax.tree_util.tree_structure(list(pargs)):
                raise Violation(f'{what}: results do not have the structure of the arguments')
            for i, (leaf, a) in enumerate(zip(jax.tree_util.tree_leaves(res_args), args)):
                same(f'{what}, argument {i}', leaf, mat[:, starts[i] : starts[i + 1]].reshape((m,) + a.shape + tuple(tail)))

        if what == 'jacfwd':
            res = call(jit(ad.jacfwd(fun)), *pargs, what=what)
            outs = jax.tree_util.tree_leaves(jax.eval_shape(fun, *pargs))
            got = jax.tree_util.tree_leaves(res)
            if len(got) != len(outs):
                raise Violation('jacfwd: another number of results')
            k = 0
            for o, a in zip(outs, got):
                s = int(np.prod(o.shape, dtype=int))
                ref = J[k : k + s].reshape(tuple(o.shape) + (n,))
                k += s
                if not jnp.issubdtype(o.dtype, jnp.complexfloating):
                    ref = ref.real
                same(what, a, ref, dt=False)
                if np.asarray(a).dtype != o.dtype:
                    raise Violation(f'jacfwd: type {np.asarray(a).dtype} instead of {o.dtype}')
        elif what == 'jacrev':
            blocks(call(jit(ad.jacrev(fun)), *pargs, what=what), J)
        elif what == 'hessian':
            blocks(call(jit(ad.hessian(fun)), *pargs, what=what), H, (n,))
        else:
            shape = jax.eval_shape(fun, *pargs).shape
            t = r.uniform(-1, 1, size=shape) + (1j * r.uniform(-1, 1, size=shape) if cplx else 0)
            t = t.astype(want_dt)

            def pull(*a):
                return ad.vjp(fun, *a)(jnp.asarray(t))

            res = call(jit(pull), *pargs, what=what)
            if not isinstance(res, (tuple, list)) or len(res) != len(pargs):
                raise Violation('vjp: results do not correspond to the arguments')
            v = np.ravel(t) @ J
            for i, (leaf, a) in enumerate(zip(jax.tree_util.tree_leaves(res), args)):
                same(f'vjp, argument {i}', leaf, v[starts[i] : starts[i + 1]].reshape(a.shape))
        return {'labels': ['what:' + what, 'kind:' + case['kind'], 'args:%d' % len(args), 'f32' if f32 else 'f64', 'result:' + ('complex' if cplx else 'real'), 'outs:' + ('one' if single else 'list')],
                'nontrivial': bool(np.any(np.abs(J) > 1e-12)) and (H is None or bool(np.any(np.abs(H) > 1e-12)))}

    def shrinks(self, case, v):
        sub = dict(case, thr=[1])
        for c in ProgramCheck().shrinks(sub, v):
            c = dict(c)
            c.pop('thr')
            yield c
        for k, x in (('f32', False), ('jit', False), ('single', True), ('box', 0)):
            if case[k] != x:
                yield dict(case, **{k: x})


CHECK = C()
