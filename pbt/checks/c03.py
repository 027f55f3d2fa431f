"""Structure of sparse Jacobians: particle-wise programs and general programs."""
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

import folx

from ..dsl import Pool, draw_program
from ..oracle import IS_LPL, Discard, Violation, call, check_mask, leaves, lib_dense, np_dense
from ..progcheck import check_program, has_refusable, n_inputs, prepare
from ..rnd import st
from .base import ProgramCheck, draw_threshold

MAXF = 40  # elements per particle


class V:
    """A value: feature shape, number of particle axes and on which particles its elements depend."""

    def __init__(self, s, pp, dep, bound=None):
        self.s, self.pp, self.dep = tuple(s), pp, dep  # dep: (p,)*pp + (p,) bool
        self.bound = bound  # single contraction of everything a particle has


def elementwise1(g):
    return lambda d, vs: None, g


UN = {
    'sin': jnp.sin, 'tanh': jnp.tanh, 'square': lambda x: x * x, 'gauss': lambda x: jnp.exp(-x * x), 'silu': jax.nn.silu, 'softplus': jax.nn.softplus, 'sigmoid': jax.nn.sigmoid,
    'cube': lambda x: x**3, 'abs': lambda x: jnp.abs(x + 2.5), 'sqrt': lambda x: jnp.sqrt(x * x + 1), 'rsqrt': lambda x: jax.lax.rsqrt(x * x + 1), 'log': lambda x: jnp.log(x * x + 1),
    'neg': lambda x: -x, 'scale': lambda x: 1.5 * x, 'shift': lambda x: x + 1.0, 'expm1': jnp.expm1, 'log1p': lambda x: jnp.log1p(x * x), 'cos': jnp.cos, 'atan': jnp.arctan, 'pow': lambda x: (x * x + 1) ** 1.5,
    'recip': lambda x: 1 / (x * x + 1), 'stopmul': lambda x: x * jax.lax.stop_gradient(x), 'jit': lambda x: jax.jit(lambda y: jnp.sin(y) * y)(x),
}
BI = {
    'add': jnp.add, 'sub': jnp.subtract, 'mul': jnp.multiply, 'div': lambda x, y: x / (y * y + 1), 'atan2': lambda x, y: jnp.arctan2(x, y * y + 1), 'max': jnp.maximum, 'min': jnp.minimum,
    'logaddexp': jnp.logaddexp, 'hyp': lambda x, y: jnp.sqrt(x * x + y * y + 1), 'powxy': lambda x, y: (x * x + 1) ** y,
}
RED = {
    'sum': jnp.sum, 'mean': jnp.mean, 'max': jnp.max, 'min': jnp.min, 'prod': jnp.prod, 'sumsq': lambda x, axis, keepdims=False: jnp.sum(x * x, axis=axis, keepdims=keepdims),
    'norm': lambda x, axis, keepdims=False: jnp.sqrt(jnp.sum(x * x, axis=axis, keepdims=keepdims) + 1), 'lse': lambda x, axis, keepdims=False: jnp.log(jnp.sum(jnp.exp(x), axis=axis, keepdims=keepdims)),
    'var': lambda x, axis, keepdims=False: jnp.var(x, axis=axis, keepdims=keepdims),
}


def rand(key, s):
    return np.random.default_rng(key).uniform(-1, 1, s)


def size(s):
    return int(np.prod(s, dtype=int))


# An operation: (arguments, parameters) -> result, once for the shapes and once for the values.
# gen(d, vals) -> (args, params) or None; shape(p, params, *V) -> V; run(p, params, *x) -> array
OPS = {}


def reg(name, w):
    def f(cls):
        OPS[name] = (w, cls)
        return cls

    return f


def pick(d, vals, ok=lambda v: True):
    c = [i for i, v in enumerate(vals) if ok(v)]
    if not c:
        return None
    # recent values are preferred
    return c[d(st.integers(0, len(c) - 1))] if d(st.booleans()) else c[-1]


@reg('un', 5)
class Un:
    @staticmethod
    def gen(d, vals):
        return [pick(d, vals)], dict(f=d(st.sampled_from(list(UN))))

    @staticmethod
    def shape(p, q, a):
        return V(a.s, a.pp, a.dep, a.bound)

    @staticmethod
    def run(p, q, pp, x):
        return UN[q['f']](x)


def lift(x, pp, fp, nd, fd):
    """Broadcasts a value with pp particle axes and nd feature axes against fp and fd of them."""
    x = jnp.asarray(x) if isinstance(x, np.ndarray) else x
    if pp == 1 and fp == 2:
        x = x[:, None]
    return x


@reg('bi', 6)
class Bi:
    @staticmethod
    def gen(d, vals):
        a = pick(d, vals)
        v = vals[a]
        b = pick(d, vals, lambda w: compat(v.s, w.s))
        return [a, b], dict(f=d(st.sampled_from(list(BI))), ax=d(st.integers(0, 1)))

    @staticmethod
    def shape(p, q, a, b):
        pp = max(a.pp, b.pp)
        return V(np.broadcast_shapes(a.s, b.s), pp, dep_lift(a, pp, q['ax'], p) | dep_lift(b, pp, q['ax'], p))

    @staticmethod
    def run(p, q, pp, x, y):
        (px, x), (py, y) = x, y
        return BI[q['f']](raise_(x, px, max(px, py), q['ax']), raise_(y, py, max(px, py), q['ax']))


def compat(s, t):
    return len(s) == len(t) and all(x == y or 1 in (x, y) for x, y in zip(s, t))


def raise_(x, px, pp, ax):
    if px == pp:
        return x
    return x[:, None] if ax == 0 else x[None, :]


def dep_lift(v, pp, ax, p):
    if v.pp == pp:
        return v.dep
    return np.broadcast_to(v.dep[:, None] if ax == 0 else v.dep[None, :], (p, p, p))


@reg('const', 3)
class Const:
    """With a constant for every feature, every particle or one for all."""

    @staticmethod
    def gen(d, vals):
        a = pick(d, vals)
        return [a], dict(f=d(st.sampled_from(['add', 'mul', 'sub', 'div', 'max', 'rsub', 'mask', 'atan2'])), per=d(st.sampled_from(['feat', 'part', 'one', 'full'])), k=d(st.integers(0, 999)))

    @staticmethod
    def shape(p, q, a):
        return V(a.s, a.pp, a.dep, a.bound)

    @staticmethod
    def run(p, q, pp, x):
        s = x.shape
        cs = {'feat': s[pp:], 'part': s[:pp] + (1,) * (len(s) - pp), 'one': (), 'full': s}[q['per']]
        c = rand(q['k'], cs)
        f = q['f']
        if f == 'rsub':
            return c - x
        if f == 'mask':
            return jnp.where(c > 0, x, 0.5 * c) if q['per'] == 'feat' and len(cs) and np.any(c > 0) else x * c
        return BI[f](x, c)


@reg('red', 4)
class Red:
    @staticmethod
    def gen(d, vals):
        a = pick(d, vals, lambda v: len(v.s) >= 1)
        if a is None:
            return None
        n = len(vals[a].s)
        k = d(st.integers(1, n))
        ax = sorted(d(st.permutations(range(n)))[:k])
        return [a], dict(f=d(st.sampled_from(list(RED))), ax=ax, keep=d(st.integers(0, 3)) == 0, neg=d(st.booleans()))

    @staticmethod
    def shape(p, q, a):
        s = [1 if i in q['ax'] else x for i, x in enumerate(a.s)] if q['keep'] else [x for i, x in enumerate(a.s) if i not in q['ax']]
        return V(s, a.pp, a.dep, 'one' if q['f'] in ('sum', 'mean', 'prod', 'max', 'min', 'sumsq') else None)

    @staticmethod
    def run(p, q, pp, x):
        ax = tuple(i + pp - (x.ndim if q['neg'] else 0) for i in q['ax'])
        return RED[q['f']](x, axis=ax, keepdims=q['keep'])


@reg('dense', 4)
class Dense:
    @staticmethod
    def gen(d, vals):
        a = pick(d, vals, lambda v: len(v.s) >= 1)
        if a is None:
            return None
        return [a], dict(o=d(st.integers(1, 4)), k=d(st.integers(0, 999)), mode=d(st.sampled_from(['dot', 'einsum', 'left', 'vmap', 'tensordot'])))

    @staticmethod
    def shape(p, q, a):
        return V(a.s[:-1] + (q['o'],), a.pp, a.dep, 'one')

    @staticmethod
    def run(p, q, pp, x):
        w = rand(q['k'], (x.shape[-1], q['o']))
        m = q['mode']
        if m == 'dot':
            return jnp.dot(x, w)
        if m == 'einsum':
            return jnp.einsum('...i,ij->...j', x, w)
        if m == 'tensordot':
            return jnp.tensordot(x, w, 1)
        if m == 'left':  # weights first, result moved back
            return jnp.moveaxis(jnp.tensordot(w.T, x, (1, x.ndim - 1)), 0, -1)
        return jax.vmap(lambda r: jnp.dot(r, w))(x)


@reg('self', 2)
class Self:
    """Contraction of the features of two values."""

    @staticmethod
    def gen(d, vals):
        a = pick(d, vals, lambda v: len(v.s) >= 1)
        if a is None:
            return None
        v = vals[a]
        b = pick(d, vals, lambda w: w.s == v.s and w.pp == v.pp)
        return [a, b], dict(f=d(st.sampled_from(['dot', 'outer', 'mulsum', 'matmul'])))

    @staticmethod
    def shape(p, q, a, b):
        s = {'dot': a.s[:-1], 'mulsum': a.s[:-1], 'outer': a.s + b.s[-1:], 'matmul': a.s[:-1]}[q['f']]
        return V(s, a.pp, a.dep | b.dep)

    @staticmethod
    def run(p, q, pp, x, y):
        x, y = x[1], y[1]
        f = q['f']
        if f == 'dot':
            return jnp.einsum('...i,...i->...', x, y)
        if f == 'outer':
            return jnp.einsum('...i,...j->...ij', x, y)
        if f == 'mulsum':
            return jnp.sum(x * y, -1)
        return (x[..., None, :] @ y[..., :, None])[..., 0, 0]


@reg('move', 6)
class Move:
    """Rearranging features."""

    @staticmethod
    def gen(d, vals):
        a = pick(d, vals)
        v = vals[a]
        n = len(v.s)
        fs = ['flat', 'expand', 'expand0']
        if n >= 1:
            fs += ['slice', 'take', 'flip', 'roll', 'tile', 'stack', 'index', 'strided', 'repeat', 'split']
        if n >= 2:
            fs += ['transpose', 'reshape']
        return [a], dict(f=d(st.sampled_from(fs)), k=d(st.integers(0, 999)))

    @staticmethod
    def shape(p, q, a):
        x = jax.eval_shape(lambda x: Move.run(p, q, 1, x), jax.ShapeDtypeStruct((p,) + a.s, float))
        return V(x.shape[1:], a.pp, a.dep, a.bound)

    @staticmethod
    def run(p, q, pp, x):
        r = np.random.default_rng(q['k'])
        f, s = q['f'], x.shape[pp:]
        n, lead = len(s), x.shape[:pp]
        if n:
            ax = int(r.integers(0, n))
            m = s[ax]
            sl = lambda i: (slice(None),) * (pp + ax) + (i,)
        if f == 'flat':
            return x.reshape(*lead, -1)
        if f == 'expand':
            return x[..., None]
        if f == 'expand0':
            return jnp.expand_dims(x, pp)
        if f == 'slice':
            lo = int(r.integers(0, m))
            return x[sl(slice(lo, int(r.integers(lo + 1, m + 1))))]
        if f == 'strided':
            return x[sl(slice(None, None, 2))]
        if f == 'take':
            return jnp.take(x, r.integers(0, m, int(r.integers(1, 4))), axis=pp + ax)
        if f == 'flip':
            return jnp.flip(x, pp + ax)
        if f == 'roll':
            return jnp.roll(x, int(r.integers(1, 3)), pp + ax)
        if f == 'tile':
            return jnp.concatenate([x, 2 * x], pp + ax)
        if f == 'stack':
            return jnp.stack([x, jnp.sin(x)], pp + ax)
        if f == 'index':
            return x[sl(int(r.integers(0, m)))]
        if f == 'repeat':
            return jnp.broadcast_to(jnp.expand_dims(x, pp + ax), lead + s[:ax] + (2,) + s[ax:])
        if f == 'split':
            k = int(r.integers(0, m))
            return jnp.concatenate([x[sl(slice(k, None))], x[sl(slice(0, k))]], pp + ax)
        if f == 'transpose':
            return jnp.transpose(x, tuple(range(pp)) + tuple(pp + int(i) for i in r.permutation(n)))
        return x.reshape(*lead, s[1], s[0], *s[2:])


@reg('join', 2)
class Join:
    @staticmethod
    def gen(d, vals):
        a = pick(d, vals, lambda v: len(v.s) >= 1)
        if a is None:
            return None
        v = vals[a]
        b = pick(d, vals, lambda w: w.pp == v.pp and len(w.s) == len(v.s) and w.s[:-1] == v.s[:-1])
        return [a, b], dict(const=d(st.integers(0, 4)) == 0)

    @staticmethod
    def shape(p, q, a, b):
        return V(a.s[:-1] + (a.s[-1] + b.s[-1] + q['const'],), a.pp, a.dep | b.dep)

    @staticmethod
    def run(p, q, pp, x, y):
        x, y = x[1], y[1]
        return jnp.concatenate([x, y] + [jnp.ones(x.shape[:-1] + (1,))] * q['const'], -1)


@reg('pair', 2)
class Pair:
    @staticmethod
    def gen(d, vals):
        a = pick(d, vals, lambda v: v.pp == 1 and size(v.s) <= 8)
        if a is None:
            return None
        v = vals[a]
        b = pick(d, vals, lambda w: w.pp == 1 and compat(v.s, w.s) and size(w.s) <= 8)
        return [a, b], dict(f=d(st.sampled_from(['sub', 'mul', 'add', 'hyp', 'sub', 'concat'])))

    @staticmethod
    def shape(p, q, a, b):
        s = np.broadcast_shapes(a.s, b.s)
        if q['f'] == 'concat':
            s = s + (2,)
        return V(s, 2, np.broadcast_to(a.dep[:, None], (p, p, p)) | np.broadcast_to(b.dep[None], (p, p, p)))

    @staticmethod
    def run(p, q, pp, x, y):
        x, y = x[1][:, None], y[1][None]
        if q['f'] == 'concat':
            x, y = jnp.broadcast_arrays(x, y)
            return jnp.stack([x, y], -1)
        return BI[q['f']](x, y)


@reg('permute', 1)
class Permute:
    """Other particles."""

    @staticmethod
    def gen(d, vals):
        a = pick(d, vals)
        return [a], dict(f=d(st.sampled_from(['roll', 'flip', 'swap'])))

    @staticmethod
    def shape(p, q, a):
        if q['f'] == 'swap' and a.pp == 1:
            return V(a.s, 1, a.dep, a.bound)
        return V(a.s, a.pp, np.asarray(Permute.go(q, a.pp, a.dep, np)), a.bound)

    @staticmethod
    def go(q, pp, x, m):
        if q['f'] == 'roll':
            return m.roll(x, 1, 0)
        if q['f'] == 'flip':
            return m.flip(x, pp - 1)
        return m.swapaxes(x, 0, 1) if pp == 2 else x

    @staticmethod
    def run(p, q, pp, x):
        return Permute.go(q, pp, x, jnp)


def shapes_of(case, p):
    """The values of a particle program for p particles."""
    eye = np.eye(p, dtype=bool)
    vals = [V(s, 1, eye) for s in case['feats']]
    for name, args, q in case['nodes']:
        vals.append(OPS[name][1].shape(p, q, *[vals[a] for a in args]))
    return vals


def program(case, p):
    vals = shapes_of(case, p)

    def f(*xs):
        env = list(xs)
        for (name, args, q), v in zip(case['nodes'], vals[len(xs):]):
            if len(args) == 1:
                y = OPS[name][1].run(p, q, vals[args[0]].pp, env[args[0]])
            else:
                y = OPS[name][1].run(p, q, v.pp, *[(vals[a].pp, env[a]) for a in args])
            assert tuple(y.shape) == (p,) * v.pp + v.s, (name, q, y.shape, v.s)
            env.append(y)
        return env[len(xs):]

    return f, vals[len(case['feats']):]


ADD = {'un': sum, 'const': sum, 'move': sum, 'join': max, 'bi': sum}


class C:
    _pools = None

    def gen(self, d):
        if d(st.integers(0, 4)) == 0:
            if C._pools is None:
                C._pools = [(5, Pool(ew=3, ewb=4, idx=4, red=3, dot=3, ctl=1))]
            case = draw_program(d, C._pools, (3, 7), max_n=9)
            if has_refusable(case):
                raise Discard('may be refused')
            case['thr'] = [draw_threshold(d, n_inputs(case))]
            case['general'] = True
            return case
        names = [n for n in OPS for _ in range(OPS[n][0])]
        feats = [[d(st.sampled_from([1, 2, 3, 3])) for _ in range(d(st.sampled_from([0, 1, 1, 1, 2])))] for _ in range(d(st.sampled_from([1, 1, 2])))]
        while sum(size(f) for f in feats) > 6:
            feats = feats[:1] if len(feats) > 1 else [[3]]
        case = dict(feats=feats, nodes=[])
        p = 4
        vals = shapes_of(case, p)
        for _ in range(d(st.integers(2, 7))):
            for _ in range(5):
                name = d(st.sampled_from(names))
                g = OPS[name][1].gen(d, vals)
                if g is None:
                    continue
                v = OPS[name][1].shape(p, g[1], *[vals[a] for a in g[0]])
                if size(v.s) > (MAXF if v.pp == 1 else MAXF // 3) or len(v.s) > 3:
                    continue
                case['nodes'].append([name, g[0], g[1]])
                vals.append(v)
                break
        case['p'] = d(st.sampled_from([[4, 5], [4, 6], [5, 7], [4, 7]]))
        case['extra'] = d(st.sampled_from([0, 0, 1, 5, 100]))
        case['values'] = d(st.integers(0, 5)) == 0
        case['frac'] = d(st.sampled_from([0, 0, 0, 1, 2, 3]))
        case['seed'] = d(st.integers(0, 9999))
        return case

    def run(self, case):
        if case.get('general'):
            return self.general(case)
        if not case['nodes']:
            raise Discard('empty')
        nf = sum(size(f) for f in case['feats'])
        rows = []
        kinds = []
        for p in case['p']:
            f, vals = program(case, p)
            bound = max(v.dep.sum(-1).max() for v in vals) * nf
            thr = int(bound) + case['extra']
            rows.append(self.structure(case, p, f, vals, nf, thr))
            kinds += ['pp' if v.pp == 2 else 'p' for v in vals]
            self.dense(case, p, f)
        for k, (a, b) in enumerate(zip(*rows)):
            if a != b:
                raise Violation(f'value {k} ({case["nodes"][k][0]}) stores {a} rows for {case["p"][0]} particles and {b} for {case["p"][1]}')
        if case['values']:
            self.values(case, case['p'][0], nf)
        if case.get('frac'):
            self.fraction(case, case['p'][0], nf)
        labels = ['op:' + n[0] for n in case['nodes']] + kinds + [f'rows:{r}' for r in rows[0]]
        return {'labels': labels, 'nontrivial': len(case['nodes']) >= 2}

    def inputs(self, case, p):
        r = np.random.default_rng(case['seed'])
        return [jnp.asarray(r.uniform(-1, 1, (p,) + tuple(s))) for s in case['feats']]

    def trace(self, case, p, f, thr):
        box = []

        def run(*xs):
            out = folx.forward_laplacian(f, thr, disable_jit=True)(*xs)
            box[:] = out
            return [o.x if IS_LPL(o) else o for o in out]

        call(jax.eval_shape, run, *self.inputs(case, p), what=f'{p} particles, threshold {thr}')
        return list(box)

    def structure(self, case, p, f, vals, nf, thr):
        outs = self.trace(case, p, f, thr)
        n = p * nf
        # particle of every input
        part = np.concatenate([np.repeat(np.arange(p), size(s)) for s in case['feats']])
        rows = []
        for k, (o, v) in enumerate(zip(outs, vals)):
            what = f'{p} particles, threshold {thr}, value {k} ({case["nodes"][k][0]} {case["nodes"][k][2].get("f", "")})'
            if not IS_LPL(o):
                rows.append(0)
                continue
            j = o.jacobian
            if not j.weak:
                raise Violation(f'{what}: the Jacobian is dense')
            check_mask(j, n, o.shape, what)
            if tuple(j.data.shape[1:]) != (p,) * v.pp + v.s:
                raise Violation(f'{what}: Jacobian of shape {j.data.shape}')
            idx = np.asarray(j.x0_idx)
            dep = v.dep.reshape(v.dep.shape[:-1] + (1,) * len(v.s) + (p,))
            dep = np.broadcast_to(dep, idx.shape[1:] + (p,))
            ok = np.take_along_axis(np.broadcast_to(dep, idx.shape + (p,)), part[np.maximum(idx, 0)][..., None], -1)[..., 0] | (idx < 0)
            if not ok.all():
                t = tuple(int(i) for i in np.argwhere(~ok)[0])
                raise Violation(f'{what}: element {t[1:]} lists input {idx[t]} of particle {part[idx[t]]}')
            m = int(v.dep.sum(-1).max()) * nf
            if v.bound == 'one' and idx.shape[0] > m:
                raise Violation(f'{what}: {idx.shape[0]} rows although an element depends on {m} inputs')
            rows.append(idx.shape[0])
            # operations of one value keep its rows, others at most add those of their arguments
            name, args = case['nodes'][k][:2]
            known = [1] * len(case['feats']) + rows
            if name in ADD and all(known[a] for a in args):
                m = ADD[name](known[a] for a in args)
                if idx.shape[0] > m:
                    raise Violation(f'{what}: {idx.shape[0]} rows, the arguments store {[known[a] for a in args]}')
        return rows

    def dense(self, case, p, f):
        for k, o in enumerate(self.trace(case, p, f, 0)):
            if IS_LPL(o) and o.jacobian.weak:
                raise Violation(f'value {k} has a sparse Jacobian although sparsity is off')

    def fraction(self, case, p, nf):
        """A threshold between zero and one counts as that fraction of the number of inputs."""
        f, vals = program(case, p)
        n = p * nf
        k = int(max(v.dep.sum(-1).max() for v in vals) * nf)
        k = max(0, min({1: k, 2: k - 1, 3: case['seed'] % n}[case['frac']], n - 1))
        q = (k + 0.5) / n
        for i, (a, b) in enumerate(zip(self.trace(case, p, f, q), self.trace(case, p, f, k))):
            what = f'{p} particles, value {i}: threshold {q} of {n} inputs'
            if IS_LPL(a) != IS_LPL(b):
                raise Violation(f'{what} gives a plain value, {k} does not, or the other way around')
            if not IS_LPL(a):
                continue
            if a.jacobian.weak != b.jacobian.weak:
                raise Violation(f'{what} gives a {"sparse" if a.jacobian.weak else "dense"} Jacobian, threshold {k} does not')
            if a.jacobian.weak and not np.array_equal(a.jacobian.x0_idx, b.jacobian.x0_idx):
                raise Violation(f'{what} gives other indices than threshold {k}')

    def values(self, case, p, nf):
        f, vals = program(case, p)
        thr = int(max(v.dep.sum(-1).max() for v in vals) * nf) + case['extra']
        xs = self.inputs(case, p)
        a = call(folx.forward_laplacian(f, 0), *xs, what='threshold 0')
        b = call(folx.forward_laplacian(f, thr), *xs, what=f'threshold {thr}')
        n = p * nf
        big = max([1.0] + [float(np.max(np.abs(t), initial=0)) for o in a if IS_LPL(o) for t in (o.x, o.laplacian, o.jacobian.data)])
        if not big < 1e5:
            raise Discard('huge')
        for k, (s, t) in enumerate(zip(a, b)):
            if IS_LPL(s) != IS_LPL(t):
                raise Violation(f'value {k} is plain at one threshold only')
            if not IS_LPL(s):
                continue
            d0, d1, d2 = lib_dense(s.jacobian, n), lib_dense(t.jacobian, n), np_dense(t.jacobian, n)
            e = max(float(np.max(np.abs(d0 - d1), initial=0)), float(np.max(np.abs(d0 - d2), initial=0)), float(np.max(np.abs(s.laplacian - t.laplacian), initial=0)))
            if not e <= 1e-8 * big * big:
                raise Violation(f'value {k}: sparse and dense results differ by {e}')

    def general(self, case):
        prep = prepare(case)
        labels = ['general']
        for t in [0] + case['thr']:
            kinds = check_program(case, t, True, prep)
            if t == 0 and 'sparse' in kinds:
                raise Violation('sparse Jacobian although sparsity is off')
            labels += ['general:' + k for k in kinds]
        return {'labels': labels, 'nontrivial': 'general:sparse' in labels}

    _prog = ProgramCheck()

    def shrinks(self, case, v):
        if case.get('general'):
            yield from self._prog.shrinks(dict(case, jit=True), v)
            return
        n = len(case['nodes'])
        k0 = len(case['feats'])
        if n > 1:
            yield dict(case, nodes=case['nodes'][:-1])
        for i in range(n - 2, -1, -1):  # drop unused nodes
            pos = k0 + i
            if all(pos not in m[1] for m in case['nodes'][i + 1:]):
                yield dict(case, nodes=case['nodes'][:i] + [[nm, [a - (a > pos) for a in ar], q] for nm, ar, q in case['nodes'][i + 1:]])
        for key, val in (('extra', 0), ('values', False), ('frac', 0), ('p', [4, 5])):
            if case.get(key, val) != val:
                yield dict(case, **{key: val})


CHECK = C()
