"""Automatic batching and memory estimates."""
import contextlib
import functools
import io

import jax
import jax.numpy as jnp
import numpy as np
from jax import core

import folx
from folx.experimental.memory import compute_memory
from folx.experimental.vmap import auto_batched_vmap

from ..dsl import Pool, draw_program, input_values
from ..oracle import Discard, Violation, call, close, worst
from ..progcheck import fn_of
from . import c17
from .base import *
from ..rnd import st

_P = []


def pools():
    if not _P:
        _P.append((1, Pool(ew=3, ewb=4, idx=3, red=3, dot=3, lin=0.6, ctl=4, cpx=0.5)))
    return _P


def nbytes(aval):
    return int(np.prod(aval.shape, dtype=int)) * (1 if aval.dtype == np.bool_ else np.dtype(aval.dtype).itemsize)


def peak(jaxpr):
    """Largest total size of the values which are alive while an operation runs."""
    keep = [v for v in list(jaxpr.invars) + list(jaxpr.constvars)]
    outs = {v for v in jaxpr.outvars if not isinstance(v, core.Literal)}
    last = {}
    for i, e in enumerate(jaxpr.eqns):
        for v in e.invars:
            if not isinstance(v, core.Literal):
                last[v] = i
    fixed = set(keep) | outs
    alive = dict.fromkeys(keep)
    best = 0
    for i, e in enumerate(jaxpr.eqns):
        sub = 0
        if e.primitive.name in ('pjit', 'scan'):
            sub = peak(e.params['jaxpr'].jaxpr)
        for v in e.outvars:
            if v in outs or v in last:  # results nobody uses are not kept
                alive[v] = None
        best = max(best, sub + sum(nbytes(v.aval) for v in alive))
        for v in list(alive):
            if v not in fixed and last.get(v, -1) <= i:
                del alive[v]
    return best


@contextlib.contextmanager
def device_memory(n):
    cls = type(jax.devices()[0])
    old = cls.memory_stats
    try:
        cls.memory_stats = lambda self: {'bytes_limit': n}
        yield
    finally:
        cls.memory_stats = old


class C:
    def gen(self, d):
        if d(st.integers(0, 9)) < 6:
            case = draw_program(d, pools(), (1, 9), max_n=8, cpx=True, max_inputs=3)
            case['kind'] = 'memory'
            case['wrap'] = d(st.sampled_from(['plain', 'plain', 'plain', 'jit', 'dict', 'kw', 'static', 'top', 'scan', 'grad', 'vmap']))
            return case
        case = c17.CHECK.gen(d)
        case['kind'] = 'auto'
        case['how'] = d(st.sampled_from(['eager', 'eager', 'jit']))
        case['frac'] = d(st.sampled_from([1.0, 1.0, 0.5, 0.25]))
        case['room'] = d(st.integers(0, 120)) / 100.0 * (case['b'] + 1)
        case['odd'] = d(st.integers(0, 40))
        case['static'] = d(st.integers(0, 3)) == 0
        return case

    def run(self, case):
        return self.memory(case) if case['kind'] == 'memory' else self.auto(case)

    def memory(self, case):
        ins = [jnp.asarray(x) for x in input_values(case['shapes'], case['seed'], case['style'])]
        f = fn_of(case)
        w = case['wrap']
        kw, call_kw = {}, {}
        args = list(ins)
        if w == 'jit':
            g = jax.jit(lambda *xs: [y * 2 for y in f(*xs)] + list(xs[:1]))
        elif w == 'dict':
            g = lambda t: {'a': f(*t['x']), 'b': t['x'][0]}
            args = [{'x': args}]
        elif w == 'kw':
            g = lambda *xs, s: [y * s for y in f(*xs)]
            call_kw = {'s': jnp.asarray(2.0)}
        elif w == 'static':
            g = lambda k, *xs: f(*xs)[:k]
            args = [1] + args
            kw = {'static_argnums': 0}
        elif w == 'top':
            g = f
            kw = {'print_top_tensors': True}
        elif w == 'scan':
            def g(*xs):
                def body(c, i):
                    ys = f(*[x + 0.0 * i for x in xs])
                    return c + sum(jnp.sum(jnp.real(y)) for y in ys), ys
                return jax.lax.scan(body, 0.0, jnp.arange(3.0))
        elif w == 'grad':
            g = jax.grad(lambda *xs: sum(jnp.sum(jnp.real(y)) for y in f(*xs)))
        elif w == 'vmap':
            g = jax.vmap(f)
            args = [jnp.stack([x, x, x]) for x in args]
        else:
            g = f
        try:
            if w == 'static':
                jaxpr = jax.make_jaxpr(lambda *xs: g(1, *xs))(*args[1:]).jaxpr
            else:
                jaxpr = jax.make_jaxpr(functools.partial(g, **call_kw))(*args).jaxpr
        except Exception as e:
            raise Discard('jax:' + type(e).__name__)
        want = peak(jaxpr)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            got = call(compute_memory, g, *args, what='compute_memory', **kw, **call_kw)
        if w != 'top' and buf.getvalue().strip():
            raise Violation(f'compute_memory prints {buf.getvalue()[:80]!r}')
        if w == 'top' and len(jaxpr.eqns) and not buf.getvalue().strip():
            raise Violation('print_top_tensors prints nothing')
        if not isinstance(got, int) or got != want:
            raise Violation(f'memory estimate {got} instead of {want} bytes')
        names = {e.primitive.name for e in jaxpr.eqns}
        rep = any(len({id(v) for v in e.invars}) < len(e.invars) for e in jaxpr.eqns)
        return {'labels': ['memory:' + w] + ['nested:' + k for k in ('pjit', 'scan', 'while', 'cond', 'custom_jvp_call') if k in names] + (['operand used twice'] if rep else []), 'nontrivial': len(jaxpr.eqns) > 1}

    def auto(self, case):
        args, in_axes, flat_axes = c17.CHECK.build(case)
        log = []
        f = c17.CHECK.fn(case, flat_axes, log)
        arr = jax.tree_util.tree_map(jnp.asarray, args)
        oa = 0 if case['oax'][0] >= 0 else -1
        kw = {'k0': jnp.asarray(0.75)} if case['kw'] else {}
        st_kw = {}
        if case['static'] and not isinstance(in_axes, int):
            f0 = f
            f = lambda k, *a, **q: jax.tree_util.tree_map(lambda r: r * k, f0(*a, **q)) if isinstance(k, int) else 1 / 0
            arr, in_axes = [3] + arr, type(in_axes)([None] + list(in_axes))
            st_kw = {'static_argnums': (0,)}
        try:
            ref = jax.vmap(functools.partial(f, **kw), in_axes=tuple(in_axes) if isinstance(in_axes, list) else in_axes, out_axes=oa)(*arr)
        except Exception as e:
            raise Discard('vmap:' + type(e).__name__)
        costs = []
        for k in (1, 2):
            costs.append(compute_memory(folx.batched_vmap(f, max_batch_size=k, in_axes=in_axes, out_axes=oa), *arr, **st_kw, **kw))
        elem = costs[1] - costs[0]
        base = costs[0] - elem
        frac = case['frac']
        target = base + case['room'] * elem + case['odd'] if elem > 0 else base + case['odd']
        limit = max(int(target / frac), 1)
        target = limit * frac
        with device_memory(limit):
            g = auto_batched_vmap(f, in_axes=in_axes, out_axes=oa, max_fraction=frac, **st_kw)
            log.clear()
            run = lambda *a: g(*a, **kw)
            if case['how'] == 'jit' and not st_kw:
                run = jax.jit(run)
            # the last evaluations are those of the result
            got = call(run, *arr, what='auto_batched_vmap')
        for a, r in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(ref)):
            a, r = np.asarray(a), np.asarray(r)
            if a.shape != r.shape or a.dtype != r.dtype:
                raise Violation(f'{a.dtype}{a.shape} instead of {r.dtype}{r.shape}')
            if a.dtype.kind in 'fc':
                if not close(a, r, (1e-4 if a.dtype.itemsize < 8 or a.dtype == np.complex64 else 1e-10) * (1 + np.max(np.abs(r), initial=0))):
                    raise Violation(f'automatic batching: {worst(a, r)}')
            elif not np.array_equal(a, r):
                raise Violation('automatic batching: integers differ')
        if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(ref):
            raise Violation('automatic batching: another structure')
        # the chunk which is used: the largest number of samples evaluated at once, without the estimates
        with device_memory(limit):
            jx = jax.make_jaxpr(lambda *a: g(*(([3] if st_kw else []) + list(a)), **kw))(*(arr[1:] if st_kw else arr)).jaxpr
        scans = [e.params['length'] for e in jx.eqns if e.primitive.name == 'scan']
        b = case['b']
        lab = ['auto', 'how:' + case['how']] + (['static'] if st_kw else [])
        if elem > 0:
            fit = int((target - base) // elem)
            m = min(max(fit, 1), b)
            want = [] if m >= b else [b // m]
            if scans != want:
                used = 'the whole batch' if not scans else f'{scans} chunks'
                raise Violation(f'{used} of {b} samples, but chunks of {m} fit: base {base}, per sample {elem}, allowed {target}')
            lab.append('chunk:' + ('single' if m == 1 else 'all' if m >= b else 'some'))
        return {'labels': lab, 'nontrivial': elem > 0 and b > 1}

    def shrinks(self, case, v):
        if case['kind'] == 'memory':
            for c in ProgramCheck().shrinks(dict(case, thr=[1]), v):
                c = dict(c)
                c.pop('thr')
                yield c
            if case['wrap'] != 'plain':
                yield dict(case, wrap='plain')
        else:
            for c in c17.CHECK.shrinks(case, v):
                yield c
            if case['static']:
                yield dict(case, static=False)
            if case['frac'] != 1.0:
                yield dict(case, frac=1.0)


CHECK = C()
