"""Histories of registrations against a model of the registry."""
import logging
import sys

import jax
import jax.numpy as jnp
import numpy as np
from jax import core, lax

import folx
from folx.api import FwdJacobian, FwdLaplArray
from folx.wrapped_functions import get_laplacian, is_registered

from ..oracle import Discard, Violation, compare_one, leaves, reference, scale
from ..rnd import st

SHAPE = (3,)


@jax.jit
def foo(x):
    return jnp.sin(x) * x


@jax.jit
def bar(x, y):
    return jnp.tanh(x) * y - x


@jax.jit
def two(x, y):
    return jnp.cos(x) + y, x * y


def named(name, f):
    """A compiled function which has the name of a primitive."""
    f.__name__ = f.__qualname__ = name
    return jax.jit(f)


fsin = named('sin', lambda x: jnp.cos(x) * x)
ftanh = named('tanh', lambda x: x * x - x)
fmul = named('mul', lambda x, y: x + jnp.exp(y))

OPS = {
    'f_sin': (1, fsin), 'f_tanh': (1, ftanh), 'f_mul': (2, fmul),
    'sin': (1, jnp.sin), 'cos': (1, jnp.cos), 'tanh': (1, jnp.tanh), 'exp': (1, jnp.exp), 'neg': (1, lax.neg), 'square': (1, lambda x: lax.integer_pow(x, 2)), 'logistic': (1, lax.logistic),
    'mul': (2, lambda x, y: x * y), 'add': (2, lambda x, y: x + y), 'sub': (2, lambda x, y: x - y), 'foo': (1, foo), 'bar': (2, bar), 'two': (2, two), 'silu': (1, jax.nn.silu),
    'logaddexp': (2, jnp.logaddexp), 'softplus': (1, jax.nn.softplus), 'atan': (1, lax.atan), 'erf': (1, lax.erf),
}
PRIMS = {'sin': lax.sin_p, 'cos': lax.cos_p, 'tanh': lax.tanh_p, 'exp': lax.exp_p, 'neg': lax.neg_p, 'pow': lax.integer_pow_p, 'logistic': lax.logistic_p, 'mul': lax.mul_p, 'add': lax.add_p, 'sub': lax.sub_p,
         'atan': lax.atan_p, 'erf': lax.erf_p}
NAMES = {'foo': foo, 'bar': bar, 'two': two, 'silu': jax.nn.silu, 'logaddexp': jnp.logaddexp, 'sin': fsin, 'tanh': ftanh, 'mul': fmul}
KEYS = ['p:' + k for k in PRIMS] + ['n:' + k for k in NAMES]
BUILTIN_NAMES = {'silu', 'logaddexp', 'sigmoid', 'softplus', 'slogdet', 'sign'}
MULTI = {'two'}


def key_of(op):
    return 'n:' + op[2:] if op[:2] == 'f_' else 'p:' + op if op in PRIMS else 'n:' + op




class Boom(Exception):
    pass


def real(key):
    return PRIMS[key[2:]] if key[0] == 'p' else key[2:]


def make_rule(key, kind, log):
    def note(args, kwargs, thr):
        log.append((key, tuple(isinstance(a, FwdLaplArray) for a in args), thr, tuple(sorted(kwargs))))

    if key[0] == 'p':
        true = PRIMS[key[2:]].bind
    else:
        true = NAMES[key[2:]]
    multi = key[2:] in MULTI
    if kind[0] == 'scale':
        c = kind[1]

        def rule(args, kwargs, sparsity_threshold):
            note(args, kwargs, sparsity_threshold)
            a = next(a for a in args if isinstance(a, FwdLaplArray))
            r = FwdLaplArray(c * a.x, FwdJacobian(c * a.jacobian.data, a.jacobian.x0_idx), c * a.laplacian)
            return [r, r] if multi else r
    elif kind[0] == 'const':
        c = kind[1]

        def rule(args, kwargs, sparsity_threshold):
            note(args, kwargs, sparsity_threshold)
            r = jnp.full(SHAPE, c)
            return [r, r] if multi else r
    elif kind[0] == 'plain':
        inner = folx.warp_without_fwd_laplacian(true)

        def rule(args, kwargs, sparsity_threshold):
            note(args, kwargs, sparsity_threshold)
            r = inner(args, kwargs, sparsity_threshold)
            return list(r) if multi else r
    elif kind[0] == 'true':
        inner = folx.wrap_forward_laplacian(lambda *a, **k: true(*a, **k))

        def rule(args, kwargs, sparsity_threshold):
            note(args, kwargs, sparsity_threshold)
            r = inner(args, kwargs, sparsity_threshold)
            return list(r) if multi else r
    else:

        def rule(args, kwargs, sparsity_threshold):
            raise Boom(key)

    return rule


def program(nodes, outs):
    def f(*xs):
        env = list(xs)
        for name, args in nodes:
            vals = [jnp.asarray(np.round(np.cos(np.arange(3.0) + a[0]), 3)) if isinstance(a, list) else env[a] for a in args]
            r = OPS[name][1](*vals)
            env += list(r) if name in MULTI else [r]
        return [env[o] for o in outs]

    return f


class Raised(Exception):
    pass


def effective(f, model, calls, thr):
    """The function which the library must evaluate with this registry."""

    def rule(kind, key, eqn, vals, deps, params):
        calls.add((key, tuple(deps), thr, params))
        if kind[0] == 'raise':
            raise Raised()
        n = len(eqn.outvars)
        if kind[0] == 'scale':
            a = next(v for v, d in zip(vals, deps) if d)
            return [kind[1] * a] * n, [True] * n
        if kind[0] == 'const':
            return [jnp.full(SHAPE, kind[1])] * n, [False] * n
        out = bind(eqn, vals)
        if kind[0] == 'plain':
            return [lax.stop_gradient(o) for o in out], [False] * n
        return out, [True] * n

    def bind(eqn, vals):
        sub, p = eqn.primitive.get_bind_params(eqn.params)
        r = eqn.primitive.bind(*sub, *vals, **p)
        return list(r) if eqn.primitive.multiple_results else [r]

    def ev(jaxpr, consts, args, deps):
        env, dep = {}, {}
        for v, x, d in list(zip(jaxpr.constvars, consts, [False] * len(consts))) + list(zip(jaxpr.invars, args, deps)):
            env[v], dep[v] = x, d
        for e in jaxpr.eqns:
            vals = [v.val if isinstance(v, core.Literal) else env[v] for v in e.invars]
            ds = [False if isinstance(v, core.Literal) else dep[v] for v in e.invars]
            name = e.primitive.name
            if not any(ds):
                out, od = bind(e, vals), [False] * len(e.outvars)
            elif name == 'pjit':
                nm = e.params['name']
                key = 'n:' + nm
                if key in model and model[key] is not None:
                    out, od = rule(model[key], key, e, vals, ds, ())
                elif key not in model and nm in BUILTIN_NAMES:
                    out = bind(e, vals)
                    od = [True] * len(out)
                else:
                    j = e.params['jaxpr']
                    out, od = ev(j.jaxpr, j.consts, vals, ds)
            else:
                key = next(('p:' + k for k, p in PRIMS.items() if p is e.primitive), None)
                if key in model and model[key] is not None:
                    out, od = rule(model[key], key, e, vals, ds, tuple(sorted(e.params)))
                else:
                    out = bind(e, vals)
                    od = [jnp.issubdtype(o.dtype, jnp.inexact) for o in out]
            for v, x, d in zip(e.outvars, out, od):
                env[v], dep[v] = x, d
        return [v.val if isinstance(v, core.Literal) else env[v] for v in jaxpr.outvars], [False if isinstance(v, core.Literal) else dep[v] for v in jaxpr.outvars]

    def g(*xs):
        j = jax.make_jaxpr(f)(*xs)
        return ev(j.jaxpr, j.consts, xs, [True] * len(xs))

    return g


def state():
    root = logging.getLogger()
    cfg = {k: v for k, v in jax.config.values.items()}
    return root.handlers, list(root.handlers), root.level, sys.stdout, sys.stderr, cfg, np.geterr(), tuple(is_registered(real(k)) for k in KEYS)


class C:
    def gen(self, d):
        steps = []
        live = []
        for _ in range(d(st.integers(2, 7))):
            k = d(st.integers(0, 9))
            if k < 4:
                key = d(st.sampled_from(KEYS))
                steps.append(['reg', key, d(st.sampled_from([['scale', 2.0], ['scale', -0.5], ['scale', 3.0], ['plain'], ['true'], ['const', 0.25], ['raise']]))])
                live.append(key)
            elif k < 6:
                # mostly what has been registered
                key = d(st.sampled_from(live)) if live and d(st.integers(0, 3)) else d(st.sampled_from(KEYS))
                steps.append(['dereg', key])
            else:
                steps.append(self.ev(d, live))
        steps.append(self.ev(d, live))
        return {'steps': steps, 'n': d(st.integers(1, 2)), 'seed': d(st.integers(0, 999))}

    def ev(self, d, live):
        nodes, k = [], 2
        names = []
        for l in live:
            nm = l[2:]
            names.append('square' if nm == 'pow' else nm)
            if 'f_' + nm in OPS:
                names.append('f_' + nm)
        for _ in range(d(st.integers(1, 5))):
            name = d(st.sampled_from(names)) if names and d(st.integers(0, 2)) else d(st.sampled_from(sorted(OPS)))
            ar = OPS[name][0]
            args = [d(st.integers(0, k - 1)) if d(st.integers(0, 2)) else k - 1 for _ in range(ar)]
            if ar == 2 and d(st.integers(0, 3)) == 0:
                args[d(st.integers(0, 1))] = [d(st.integers(0, 5))]
            nodes.append([name, args])
            k += 2 if name in MULTI else 1
        return ['eval', nodes, sorted({k - 1, d(st.integers(0, k - 1))}), d(st.sampled_from([0, 0, 2, 4, 6, 100, 0.5])), d(st.booleans())]

    def run(self, case):
        saved = {}
        for key in KEYS:
            if is_registered(real(key)):
                saved[key] = get_laplacian(real(key))
        marker = logging.NullHandler()
        logging.getLogger().addHandler(marker)
        try:
            labels, nt = self.history(case, saved)
        finally:
            logging.getLogger().removeHandler(marker)
            for key in KEYS:
                if key in saved:
                    if not is_registered(real(key)) or get_laplacian(real(key)) is not saved[key]:
                        folx.register_function(real(key), saved[key])
                elif is_registered(real(key)):
                    folx.deregister_function(real(key))
        return {'labels': labels, 'nontrivial': nt}

    def history(self, case, saved):
        model = {}  # rules which differ from the built-in behaviour; None: removed
        log, labels, hits = [], [], 0
        r = np.random.RandomState(case['seed'])
        ins = [np.round(r.uniform(-1.2, 1.2, size=SHAPE), 3) for _ in range(2)]
        refs = []
        for i, step in enumerate(case['steps']):
            where = f'step {i}'
            if step[0] == 'reg':
                rule = make_rule(step[1], step[2], log)
                folx.register_function(real(step[1]), rule)
                model[step[1]] = step[2]
                if not is_registered(real(step[1])) or get_laplacian(real(step[1])) is not rule:
                    raise Violation(f'{where}: {step[1]} is not registered')
                labels.append('reg:' + step[2][0])
            elif step[0] == 'dereg':
                present = model[step[1]] is not None if step[1] in model else step[1] in saved
                try:
                    folx.deregister_function(real(step[1]))
                    ok = True
                except KeyError:
                    ok = False
                if ok != present:
                    raise Violation(f'{where}: removal of {step[1]} {"succeeds" if ok else "fails"}')
                model[step[1]] = None
                if is_registered(real(step[1])):
                    raise Violation(f'{where}: {step[1]} is still registered')
                labels.append('dereg')
            else:
                hits += self.evaluate(where, step, model, log, ins, labels)
        return labels, hits > 0

    def evaluate(self, where, step, model, log, ins, labels):
        _, nodes, outs, thr, jit = step
        f = program(nodes, outs)
        n = 6
        ithr = int(thr * n) if 0 < thr < 1 else int(thr)
        calls, deps = set(), []
        g = effective(f, model, calls, ithr)

        def run_ref(xs):
            y, d = g(*xs)
            deps[:] = d
            return y

        try:
            ref = reference(run_ref, ins, limit=1e4)
        except Discard as e:
            if not str(e).startswith('jax:Raised'):
                raise
            ref = None
        log.clear()
        before = state()
        try:
            out = folx.forward_laplacian(f, thr, disable_jit=not jit)(*[jnp.asarray(x) for x in ins])
            raised = None
        except Boom as e:
            raised = e
        except Exception as e:
            raise Violation(f'{where}: {type(e).__name__}: {str(e)[:200]}')
        after = state()
        names = ['handler list', 'handlers', 'log level', 'stdout', 'stderr', 'JAX configuration', 'NumPy errors', 'registry']
        for nm, a, b in zip(names, before, after):
            if nm == 'handler list':
                continue
            if a != b:
                raise Violation(f'{where}: the {nm} changed' + (' after an exception' if raised else ''))
        if ref is None:
            labels.append('raised')
            if raised is None:
                raise Violation(f'{where}: the exception of a rule was swallowed')
            return 1
        if raised is not None:
            raise Violation(f'{where}: rule of {raised} was used, but must not be')
        got = set(log)
        if got != calls:
            raise Violation(f'{where}: rules were called with {sorted(got - calls)} instead of {sorted(calls - got)}')
        tol = 1e-9 * scale(ref) + 1e-9
        for k, o in enumerate(leaves(out)):
            if isinstance(o, FwdLaplArray) and not deps[k]:
                raise Violation(f'{where}: result {k} carries derivatives')
            compare_one(o, ref.y[k], ref.dy[k], ref.d2[k], n, tol, f'{where}, threshold {thr}, result {k}')
        labels += ['eval:jit' if jit else 'eval', 'thr:0' if thr == 0 else 'thr:+'] + ['hit:' + model[c[0]][0] + ('' if c[0][0] == 'p' else ':name') for c in calls]
        if any(model.get(key_of(nm), 0) is None for nm, _ in nodes):
            labels.append('evaluated after removal')
            return 1
        return len(calls)

    def shrinks(self, case, v):
        s = case['steps']
        for i in range(len(s)):
            if len(s) > 1:
                yield dict(case, steps=s[:i] + s[i + 1 :])
        for i, x in enumerate(s):
            if x[0] == 'eval':
                if len(x[1]) > 1:
                    yield dict(case, steps=s[:i] + [[x[0], x[1][:1], [2], x[3], x[4]]] + s[i + 1 :])
                    m = x[1][:-1]
                    k = 2 + sum(2 if n in MULTI else 1 for n, _ in m)
                    yield dict(case, steps=s[:i] + [[x[0], m, [k - 1], x[3], x[4]]] + s[i + 1 :])
                if x[4]:
                    yield dict(case, steps=s[:i] + [[x[0], x[1], x[2], x[3], False]] + s[i + 1 :])
                if len(x[2]) > 1:
                    yield dict(case, steps=s[:i] + [[x[0], x[1], x[2][-1:], x[3], x[4]]] + s[i + 1 :])


CHECK = C()
