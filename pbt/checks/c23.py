"""Annotated functions against unannotated ones and plain derivatives."""
import jax
import jax.lax as lax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

import folx
from folx.api import FunctionFlags as F
from folx.wrapped_functions import deregister_function, register_function, warp_without_fwd_laplacian, wrap_forward_laplacian

from ..oracle import Discard, Violation, call, compare_one, leaves, reference, scale
from ..rnd import st
from .base import draw_threshold

NONE = F.GENERAL
# name: (number of arguments, function, [true annotations], kind of shapes)
#   annotations: (axes, flags)
EW = (((), NONE),)
LASTS = ((-1, NONE), (None, NONE))


def op(n, f, *ann, shape='bcast', static=None, params=None):
    return dict(n=n, f=f, ann=ann, shape=shape, static=static, params=params)


E0, A1, A2, AN = (), -1, (-2, -1), None
LIN, LIO, LIF, MUL, DOT, RED, SUM, IDX, SCA, JOIN, SJ = F.LINEAR, F.LINEAR_IN_ONE, F.LINEAR_IN_FIRST, F.MULTIPLICATION, F.DOT_PRODUCT, F.REDUCTION, F.SUMMATION, F.INDEXING, F.SCATTER, F.JOIN_JVP, F.SPARSE_JHJ
W3 = np.array([[0.5, -1.0, 0.25], [1.5, 0.5, -0.75], [0.0, 1.0, 2.0]])


def lse(x):
    return jnp.log(jnp.sum(jnp.exp(x), -1))


OPS = {
    # elementwise
    'sin': op(1, jnp.sin, (E0, NONE)),
    'poly': op(1, lambda x: x**3 - 2 * x * x, (E0, NONE)),
    'scale3': op(1, lambda x: 3 * x, (E0, LIN), (E0, NONE), (AN, LIN)),
    'gauss': op(1, lambda x: jnp.exp(-x * x), (E0, NONE)),
    'mul': op(2, lambda x, y: x * y, (E0, MUL), (E0, LIO), (E0, NONE), (E0, MUL | JOIN), (E0, MUL | SJ), (E0, LIF)),
    'xsiny': op(2, lambda x, y: x * jnp.sin(y), (E0, LIF), (E0, NONE), (E0, LIF | JOIN), (E0, SJ)),
    'ratio': op(2, lambda x, y: x / (y * y + 1), (E0, LIF), (E0, NONE)),
    'mix2': op(2, lambda x, y: jnp.sin(x * y) + y, (E0, NONE), (E0, JOIN)),
    'comb': op(2, lambda x, y: x + 2 * y, (E0, LIN), (E0, NONE), (E0, LIF), (E0, LIN | JOIN)),
    'hyp': op(2, lambda x, y: jnp.sqrt(x * x + y * y + 1), (E0, NONE), (E0, JOIN | SJ)),
    'fma': op(3, lambda x, y, z: x * y + z, (E0, NONE), (E0, JOIN)),
    'mul3': op(3, lambda x, y, z: x * y * z, (E0, NONE), (E0, SJ)),
    'lin3': op(3, lambda x, y, z: x - y + 0.5 * z, (E0, LIN), (E0, NONE)),
    'two_out': op(2, lambda x, y: (jnp.sin(x) * y, x - y), (E0, NONE)),
    'with_int': op(2, lambda x, y: {'a': x * jnp.cos(y), 'b': jnp.sign(x * y).astype(int)}, (E0, NONE)),
    # functions of the last axis
    'lse': op(1, lse, (A1, NONE), (AN, NONE), (A1, RED), shape='last'),
    'norm': op(1, lambda x: jnp.sqrt(jnp.sum(x * x, -1) + 1), (A1, NONE), (AN, NONE), shape='last'),
    'sumsq': op(1, lambda x: jnp.sum(x * x, -1), (A1, NONE), (AN, NONE), (A1, SJ), shape='last'),
    'softmax': op(1, lambda x: jax.nn.softmax(x, -1), (A1, NONE), (AN, NONE), shape='last'),
    'cumsum': op(1, lambda x: jnp.cumsum(x, -1), (A1, LIN), (AN, LIN), (AN, NONE), shape='last'),
    'sum': op(1, lambda x: jnp.sum(x, -1), (A1, SUM), (A1, LIN), (AN, LIN), (A1, NONE), (AN, NONE), shape='last'),
    'meanstd': op(1, lambda x: (jnp.mean(x, -1), jnp.sqrt(jnp.var(x, -1) + 1)), (A1, NONE), (AN, NONE), shape='last'),
    'outer_self': op(1, lambda x: x[..., None] * x[..., None, :], (A1, NONE), (AN, NONE), shape='last'),
    'dot': op(2, lambda x, y: jnp.sum(x * y, -1), (A1, DOT), (A1, LIO), (A1, NONE), (AN, NONE), (A1, DOT | JOIN | SJ), (A1, DOT | JOIN), (A1, LIF), (A1, LIO | SJ), shape='last'),
    'dotsin': op(2, lambda x, y: jnp.sum(x * jnp.sin(y), -1), (A1, LIF), (A1, NONE), (AN, LIF), (A1, SJ), shape='last'),
    'dist': op(2, lambda x, y: jnp.sqrt(jnp.sum((x - y) ** 2, -1) + 1), (A1, NONE), (AN, NONE), (A1, JOIN), (A1, SJ), shape='last'),
    'dot3': op(3, lambda x, y, z: jnp.sum(x * y * z, -1), (A1, NONE), (AN, NONE), shape='last'),
    'outer': op(2, lambda x, y: x[..., :, None] * y[..., None, :], (A1, LIO), (A1, NONE), (AN, NONE), (AN, LIO), shape='last'),
    'linlast': op(2, lambda x, y: jnp.sum(x - 2 * y, -1), (A1, LIN), (AN, LIN), (A1, NONE), shape='last'),
    # functions of the last two axes
    'trace': op(1, lambda x: jnp.trace(x, axis1=-2, axis2=-1), (A2, LIN), (AN, LIN), (A2, NONE), shape='mat'),
    'det': op(1, lambda x: jnp.linalg.det(x + 3 * jnp.eye(x.shape[-1])), (A2, NONE), (AN, NONE), shape='mat'),
    'frob': op(2, lambda x, y: jnp.sum(x * y, (-1, -2)), (A2, DOT), (A2, LIO), (A2, NONE), (A2, DOT | JOIN | SJ), (AN, NONE), shape='mat'),
    'matmul': op(2, lambda x, y: x @ y, (A2, LIO), (A2, NONE), (AN, LIO), shape='mat'),
    'gram': op(1, lambda x: jnp.einsum('...ij,...ik->...jk', x, x), (A2, NONE), (AN, NONE), shape='mat'),
    'sum2': op(1, lambda x: jnp.sum(x, (-2, -1)), (A2, SUM), (A2, LIN), (AN, LIN), (A2, NONE), shape='mat'),
    # all axes
    'sumall': op(1, jnp.sum, (AN, SUM), (AN, LIN), (AN, NONE), shape='bcast'),
    'poly_all': op(1, lambda x: jnp.sum(x * x) * jnp.max(x * 0 + 1) + jnp.prod(jnp.cos(x)), (AN, NONE), (AN, RED), shape='bcast'),
    'bilin': op(2, lambda x, y: jnp.sum(x) * y, (AN, LIO), (AN, NONE), shape='bcast'),
    'lin_all': op(2, lambda x, y: x.ravel()[::-1].sum() - jnp.cumsum(y.ravel()), (AN, LIN), (AN, NONE), shape='bcast'),
    # moving elements
    'flip': op(1, lambda x: x[..., ::-1], (AN, IDX), (AN, LIN), (AN, IDX | LIN), (AN, NONE), shape='last'),
    'transpose': op(1, lambda x: jnp.transpose(x), (AN, IDX), (AN, IDX | LIN), (AN, NONE), shape='bcast'),
    'pick': op(1, lambda x: x.ravel()[jnp.asarray([0, -1, 0])], (AN, IDX), (AN, IDX | LIN), (AN, NONE), shape='bcast'),
    'repeat': op(1, lambda x: jnp.repeat(x, 2, -1), (AN, IDX), (AN, LIN), shape='last'),
    'concat': op(2, lambda x, y: jnp.concatenate([x, y], -1), (AN, IDX | LIN), (AN, IDX), (AN, LIN), (AN, NONE), shape='same'),
    'stack3': op(3, lambda x, y, z: jnp.stack([x, y, z]), (AN, IDX | LIN), (AN, IDX), (AN, LIN), shape='same'),
    'swap': op(2, lambda x, y: (y[::-1], x[..., ::-1]), (AN, IDX | LIN), (AN, LIN), shape='same'),
    'takei': op(2, lambda i, x: jnp.take(x.ravel(), i), (AN, IDX | LIN), (AN, LIN), (AN, NONE), shape='take', static=(0,)),
    'dslice': op(2, lambda i, x: jax.lax.dynamic_slice_in_dim(x, i[0], 2, x.ndim - 1), (AN, IDX), (AN, LIN), shape='take', static=(0,)),
    # sums over segments
    'segsum': op(3, lax.scatter_add, (AN, SCA | LIN), (AN, SCA | LIN), (AN, LIN), (AN, NONE), shape='segments', params='params'),
    'choose': op(3, lambda m, x, y: jnp.where(m > 0, x, y), (AN, IDX), (AN, LIN), shape='mask', static=(0,)),
}

# annotations with code of their own are drawn more often
PAIRS = [(name, k) for name, o in OPS.items() for k, (_, fl) in enumerate(o['ann']) for _ in range(10 if fl & DOT == DOT else 3 if fl & (SCA | MUL | DOT | LIO | LIF | SJ | RED | SUM) else 1)]


def custom(f):
    """A correct rule for Tr(JHJ^T), as a user could supply it."""

    def rule(args, extra, merge, idx):
        from folx.utils import get_reduced_jacobians

        xs = args.x
        if args.jacobian and idx is not None:
            js = [j.construct_jac_for(idx) for j in args.jacobian]
        else:
            n = max(j.dense_array.shape[0] for j in args.jacobian)
            js = [jnp.concatenate([j.dense_array, jnp.zeros((n - j.dense_array.shape[0],) + x.shape, x.dtype)]) for j, x in zip(args.jacobian, xs)]

        def along(*v):
            g = lambda *y: jax.jvp(lambda *z: f(*merge(z, extra)), y, v)[1]
            return jax.jvp(g, xs, v)[1]

        return jtu.tree_map(lambda t: t.sum(0), jax.vmap(along)(*js))

    return rule


class C:
    def gen(self, d):
        name, ai = d(st.sampled_from(PAIRS))
        o = OPS[name]
        shapes = self.shapes(d, o)
        few = d(st.integers(0, 2)) == 0  # few arguments share inputs
        n = d(st.sampled_from([10, 12, 16, 20] if few else [2, 3, 4, 5, 6, 8, 10]))
        args = []
        first = 1 if o['shape'] in ('take', 'mask') else 0  # leading integer operands
        for k, s in enumerate(shapes):
            if k < first or (o['params'] and k == 1):
                args.append(dict(k='int', s=s))
                continue
            if o['params'] and k == 0 and d(st.integers(0, 5)):
                args.append(dict(k='const', s=s))
                continue
            kind = d(st.sampled_from(['one', 'own', 'own', 'group', 'two', 'pad'] if few else ['one', 'one', 'one', 'own', 'two', 'two', 'dense', 'const', 'pad', 'rep', 'group']))
            args.append(dict(k=kind, s=s, i=d(st.integers(0, 999)), g=d(st.sampled_from(['id', 'sin', 'sq']))))
        if all(a['k'] in ('const', 'int') for a in args):
            args[-1].update(k='two', i=0, g='id')
        thr = 0 if d(st.integers(0, 9)) == 0 else d(st.sampled_from([2, 4, n])) if few else draw_threshold(d, n)
        return dict(f=name, a=ai, args=args, n=n, seed=d(st.integers(0, 10**6)), thr=thr, jit=d(st.integers(0, 9)) > 0, plain=d(st.integers(0, 4)) == 0,
                    pos=d(st.booleans()), custom=d(st.integers(0, 7)) == 0, named=d(st.booleans()), kw=d(st.integers(0, 3)) == 0, same=d(st.integers(0, 9)) == 0, direct=d(st.integers(0, 2)) == 0)

    def shapes(self, d, o):
        dim = lambda: d(st.sampled_from([1, 2, 2, 3, 3, 4]))
        kind, n = o['shape'], o['n']
        if kind == 'bcast':
            base = [dim() for _ in range(d(st.integers(0, 3)))]
            out = []
            for _ in range(n):
                s = [1 if d(st.integers(0, 4)) == 0 else x for x in base]
                if d(st.integers(0, 3)) == 0:
                    s = s[d(st.integers(0, len(s))):]
                out.append(s)
            if d(st.booleans()):
                out = [list(base) for _ in range(n)]
            return out
        if kind in ('last', 'mat'):
            batch = [dim() for _ in range(d(st.sampled_from([0, 1, 1, 2, 2])))]
            k = dim()
            tail = [k] if kind == 'last' else [k, k]
            if o['f'] is OPS['outer']['f']:
                tails = [[dim()] for _ in range(n)]
            else:
                tails = [tail] * n
            out = []
            for t in tails:
                b = list(batch)
                if d(st.integers(0, 2)) == 0:
                    b = [1 if d(st.integers(0, 2)) == 0 else x for x in b]
                if d(st.integers(0, 2)) == 0 and n > 1:
                    b = b[d(st.integers(0, len(b))):]
                out.append(b + list(t))
            return out
        if kind == 'same':
            s = [dim() for _ in range(d(st.integers(1, 3)))]
            return [s] * n
        if kind == 'segments':
            m = d(st.integers(1, 5))
            return [[d(st.integers(1, 5))], [m, 1], [m]]
        if kind == 'take':
            s = [dim() for _ in range(d(st.integers(0, 2)))] + [d(st.integers(2, 4))]
            return [[d(st.integers(1, 3))], s]
        if kind == 'mask':
            s = [dim() for _ in range(d(st.integers(0, 3)))]
            return [s, s, s]
        raise KeyError(kind)

    # ------------------------------------------------------------------ evaluation
    def build(self, case):
        r = np.random.default_rng(case['seed'])
        n = case['n']
        x = r.uniform(-1.5, 1.5, n)
        makers = []
        g = {'id': lambda v: v, 'sin': jnp.sin, 'sq': lambda v: v * v + 0.5 * v}
        for a in case['args']:
            s = tuple(a['s'])
            size = int(np.prod(s, dtype=int))
            rr = np.random.default_rng([a.get('i', 0), n])
            i, j = rr.integers(0, n, s), rr.integers(0, n, s)
            fun = g[a.get('g', 'id')]
            if a['k'] == 'int':
                v = r.integers(0, 2, s)
                if OPS[case['f']]['params']:  # sometimes outside of the operand
                    m = case['args'][0]['s'][0]
                    v = r.integers(0, m, s) if case['seed'] % 3 else r.integers(-2, m + 3, s)
                makers.append(lambda x, v=v: v)
            elif a['k'] == 'const':
                v = r.uniform(-1, 1, s)
                makers.append(lambda x, v=v: v)
            elif a['k'] == 'one':
                makers.append(lambda x, i=i, fun=fun: fun(x[i]))
            elif a['k'] == 'own':
                makers.append(lambda x, i=np.arange(size).reshape(s) % n, fun=fun: fun(x[i]))
            elif a['k'] == 'group':  # the last axis shares its inputs
                makers.append(lambda x, i=(np.arange(size).reshape(s) // max(s[-1] if s else 1, 1)) % n, fun=fun: fun(x[i]))
            elif a['k'] == 'two':
                makers.append(lambda x, i=i, j=j, fun=fun: fun(x[i]) * x[j])
            elif a['k'] == 'rep':
                makers.append(lambda x, i=int(rr.integers(0, n)), s=s, fun=fun: jnp.broadcast_to(fun(x[i]), s))
            elif a['k'] == 'pad':  # some elements are constants
                v, m = r.uniform(-1, 1, s), rr.integers(0, 2, s).astype(bool)
                if m.all() or size == 1:
                    m = np.zeros(s, bool)
                makers.append(lambda x, i=i, v=v, m=m, fun=fun: jnp.where(m, v, fun(x[i])))
            elif a['k'] == 'dense':
                w = r.uniform(-1, 1, s + (n,)) / np.sqrt(n)
                makers.append(lambda x, w=w, fun=fun: fun(jnp.einsum('...i,i->...', w, x)))
        if case.get('same') and len(makers) >= 2 and case['args'][-1]['s'] == case['args'][-2]['s'] and case['args'][-2]['k'] != 'int':
            makers[-1] = makers[-2]
        return x, makers

    def run(self, case):
        o = OPS[case['f']]
        x, makers = self.build(case)
        n = case['n']
        raw = o['f']
        c = 0.75 if case['kw'] else None

        def f(*args, factor=None, **params):
            y = raw(*args, **params)
            if factor is not None:
                y = jtu.tree_map(lambda v: v * factor if v.dtype.kind == 'f' else v, y)
            return y

        if case['kw'] and not o['params']:
            factor = dict(factor=np.float64(c)) if OPS[case['f']]['ann'][case['a']][1] & IDX == 0 else {}
        else:
            factor = {}
        if o['params']:
            factor = dict(
                dimension_numbers=lax.ScatterDimensionNumbers((), (0,), (0,)), indices_are_sorted=False, unique_indices=False,
                mode=(lax.GatherScatterMode.CLIP, lax.GatherScatterMode.FILL_OR_DROP)[case['seed'] % 2],
            )
        same = case.get('same')

        def prelude(x):
            if same and len(makers) >= 2 and makers[-1] is makers[-2]:
                vals = [m(x) for m in makers[:-1]]
                return vals + [vals[-1]]
            return [m(x) for m in makers]

        ref = reference(lambda xs: jtu.tree_leaves(f(*prelude(xs[0]), **factor)), [x])
        pre = reference(lambda xs: prelude(xs[0]), [x])
        tol = 1e-9 * max(scale(ref), scale(pre)) ** 2
        axes, flags = o['ann'][case['a']]
        if case['pos'] and axes is not None and axes != ():
            t = (axes,) if isinstance(axes, int) else axes
            nd = {len(a['s']) for a in case['args']}
            if len(nd) == 1:
                axes = tuple(k % nd.copy().pop() for k in t)
        kw = dict(in_axes=axes, flags=flags)
        if o['static'] is not None:
            kw['index_static_args'] = slice(0, 1) if case['pos'] else o['static']
        if case['named']:
            kw['name'] = 'renamed'
        if case['custom'] and case['f'] != 'with_int' and not (flags & (DOT | LIO)):
            kw['custom_jac_hessian_jac'] = custom(lambda *a: f(*a, **factor))
        labels = ['f:' + case['f'], 'thr0' if case['thr'] == 0 else 'thr', 'direct' if case['direct'] else 'registered'] + ['custom'] * ('custom_jac_hessian_jac' in kw)
        outs = self.evaluate(case, f, factor, prelude, wrap_forward_laplacian(f, **kw), x, labels)
        desc = f'in_axes={axes} flags={flags!r}'
        self.compare(outs, ref, n, tol, desc, labels, f)
        if case['plain']:
            outs = self.evaluate(case, f, factor, prelude, wrap_forward_laplacian(f), x, None)
            self.compare(outs, ref, n, tol, 'without annotations', [], f)
            self.no_derivatives(case, f, factor, prelude, x, ref, tol)
        return {'labels': labels, 'nontrivial': any(l in ('result:sparse', 'result:dense') for l in labels)}

    def compare(self, outs, ref, n, tol, desc, labels, f):
        ls = leaves(outs)
        if len(ls) != len(ref.y):
            raise Violation(f'{desc}: {len(ls)} results instead of {len(ref.y)}')
        for k, o in enumerate(ls):
            labels.append('result:' + compare_one(o, ref.y[k], ref.dy[k], ref.d2[k], n, tol, f'{desc}, result {k}'))

    def evaluate(self, case, f, factor, prelude, rule, x, labels):
        thr = case['thr']
        if case['direct']:
            def run(x):
                args = folx.forward_laplacian(prelude, thr, disable_jit=True)(x)
                return rule(tuple(args), dict(factor), sparsity_threshold=thr)

            if labels is not None and case['plain']:
                args = call(folx.forward_laplacian(prelude, thr), jnp.asarray(x))
                labels += ['arg:' + ('plain' if not hasattr(a, 'jacobian') else 'sparse' if a.jacobian.weak else 'dense') for a in args]
            return call(jax.jit(run) if case['jit'] else run, jnp.asarray(x), what='direct call')

        def target(*args):
            # JAX removes results which are arguments
            return jtu.tree_map(lambda v: v + np.zeros((), v.dtype), f(*args, **factor))

        target.__name__ = 'pbt_target'
        jt = jax.jit(target)
        register_function('pbt_target', lambda args, kwargs, sparsity_threshold: rule(args, dict(factor, **kwargs), sparsity_threshold=sparsity_threshold))
        try:
            return call(folx.forward_laplacian(lambda x: jt(*prelude(x)), thr, disable_jit=not case['jit']), jnp.asarray(x), what='registered function')
        finally:
            deregister_function('pbt_target')

    def no_derivatives(self, case, f, factor, prelude, x, ref, tol):
        outs = leaves(self.evaluate(dict(case, direct=True), f, factor, prelude, warp_without_fwd_laplacian(f), x, None))
        for k, (o, y) in enumerate(zip(outs, ref.y)):
            if hasattr(o, 'jacobian') or not np.allclose(np.asarray(o), y, rtol=0, atol=tol):
                raise Violation(f'without derivatives, result {k}: {type(o).__name__}')

    def shrinks(self, case, v):
        for k in ('plain', 'kw', 'custom', 'named', 'pos', 'same'):
            if case[k]:
                yield dict(case, **{k: False})
        if not case['direct']:
            yield dict(case, direct=True)
        for k, a in enumerate(case['args']):
            if a.get('g', 'id') != 'id':
                yield dict(case, args=case['args'][:k] + [dict(a, g='id')] + case['args'][k + 1:])
            if a['k'] not in ('int', 'const', 'one') :
                for kk in ('const', 'one'):
                    yield dict(case, args=case['args'][:k] + [dict(a, k=kk)] + case['args'][k + 1:])
        top = max((len(a['s']) for a in case['args']), default=0)
        for ax in range(1, top + 1):  # the same axis from the right in all arguments
            if all(len(a['s']) < ax or a['s'][-ax] in (1, max(b['s'][-ax] for b in case['args'] if len(b['s']) >= ax)) for a in case['args']):
                m = max(b['s'][-ax] for b in case['args'] if len(b['s']) >= ax)
                if m > 2 or (m == 2 and ax == top and top > 1):
                    yield dict(case, args=[dict(a, s=[x if k != len(a['s']) - ax else min(x, m - 1) for k, x in enumerate(a['s'])]) for a in case['args']])
            if ax == top and top > 1:
                yield dict(case, args=[dict(a, s=a['s'][-(top - 1):] if len(a['s']) == top else a['s']) for a in case['args']])
        if case['n'] > 2:
            yield dict(case, n=case['n'] - 1)


CHECK = C()
