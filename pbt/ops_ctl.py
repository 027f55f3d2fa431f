"""Control flow and nested calls."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from .rnd import st
from jax import lax

from .ops import GAP, MAXSIZE, PRE, defop, dseed, mkconst, prod
from .ops_idx import axis, g1, pick_nd


# ------------------------------------------------------------------ custom derivative rules
@jax.custom_jvp
def cj_xtanh(x):
    return x * jnp.tanh(x)


@cj_xtanh.defjvp
def _(p, t):
    x, dx = p[0], t[0]
    th = jnp.tanh(x)
    return cj_xtanh(x), (th + x * (1 - th * th)) * dx


@jax.custom_jvp
def cj_mul(x, y):
    return x * y * y


@cj_mul.defjvp
def _(p, t):
    (x, y), (dx, dy) = p, t
    return cj_mul(x, y), dx * y * y + 2 * x * y * dy


@jax.custom_jvp
def cj_norm(x):
    return jnp.sqrt(jnp.sum(x * x, -1) + 0.2)


@cj_norm.defjvp
def _(p, t):
    x, dx = p[0], t[0]
    y = cj_norm(x)
    return y, jnp.sum(x * dx, -1) / y


@jax.custom_jvp
def cj_two(x):
    return jnp.sin(x), jnp.cos(x)


@cj_two.defjvp
def _(p, t):
    x, dx = p[0], t[0]
    s, c = cj_two(x)
    return (s, c), (c * dx, -s * dx)


def body_jit(x):
    @jax.jit
    def inner(y, z):
        return jnp.sin(y) * 0.7 + 0.2 * z * z

    return inner(x, x)


# shape preserving bodies; the first ones keep the sparsity pattern of their argument
STABLE = [
    lambda x: jnp.sin(x),
    lambda x: 0.5 * x + 0.3,
    lambda x: jnp.tanh(x) * 0.9 + 0.1,
    lambda x: jax.nn.softplus(x),
    lambda x: jax.nn.silu(x),
    lambda x: lax.integer_pow(jnp.cos(x), 2),
    lambda x: x - 0.1,
    lambda x: jax.jit(jnp.exp)(-0.3 * x),
]
BODIES = STABLE + [
    lambda x: 0.3 * x * x - x,
    cj_xtanh,
    lambda x: x - x.mean(),
    lambda x: jnp.sin(x) + 0.3 * x.sum(),
    lambda x: jnp.roll(x.ravel(), 1).reshape(x.shape) * 0.8,
    lambda x: x / jnp.sqrt(1 + (x * x).sum()),
    body_jit,
    lambda x: x * jax.nn.softmax(x.ravel()).reshape(x.shape),
    lambda x: jnp.where(jnp.arange(x.size).reshape(x.shape) % 2 == 0, x, jnp.sin(x)),
    lambda x: cj_two(x)[0] * cj_two(x)[1] + x * 0.5,
    lambda x: lax.cumsum(x, 0) * 0.5 if x.ndim else x * 0.5,
    lambda x: jax.checkpoint(lambda y: jnp.sin(y) * y)(x),
    # some elements keep their place
    lambda x: jnp.concatenate([x.ravel()[:1], x.ravel()[:0:-1]]).reshape(x.shape) * 0.9,
    lambda x: jnp.concatenate([jnp.roll(x.ravel()[:-1], 1), x.ravel()[-1:]]).reshape(x.shape) + 0.1,
    lambda x: x.ravel().at[-1].multiply(x.ravel()[0]).reshape(x.shape),
]
NB, NS = len(BODIES), len(STABLE)


def ctl(name, gen, run, w=1.0, multi=False):
    defop(name, 'ctl', gen, run, w, multi)


def pb(n=1):
    return lambda d, v: {'b': [d(st.integers(0, NB - 1)) for _ in range(n)]}


# ------------------------------------------------------------------ nested calls
def named(f, name):
    f.__name__ = name
    return f


def run_jit(p, x):
    f = named(lambda y: BODIES[p['b'][1]](BODIES[p['b'][0]](y)), p['n'])
    return jax.jit(f)(x)


ctl('jit1', g1(0, lambda d, v: {**pb(2)(d, v), 'n': d(st.sampled_from(['f', 'block', 'mlp', 'g_']))}, kinds='f'), run_jit, 1.5)


def run_jit2(p, x):
    @jax.jit
    def inner(y):
        @jax.jit
        def deeper(z, c):
            return BODIES[p['b'][0]](z) * c, z + c, c * 2

        a, b, c = deeper(y, 0.5)
        return {'u': a * b, 'v': (b - c, c)}

    r = inner(x)
    return r['u'] + r['v'][0] * r['v'][1]


ctl('jit2', g1(0, pb(1), kinds='f'), run_jit2, 1.5)
ctl('jitconst', g1(0, pb(1), kinds='f'), lambda p, x: jax.jit(lambda y, c: BODIES[p['b'][0]](y) + c)(x, jnp.arange(float(max(x.shape[-1], 1)) if x.ndim else 1.0)[: x.shape[-1] if x.ndim else 1].reshape((-1,) if x.ndim else ())), 0.8)
ctl('jitunused', g1(0, pb(1), kinds='f'), lambda p, x: jax.jit(lambda y, z: (BODIES[p['b'][0]](z), y * 3))(x * 2, x)[0], 0.8)
ctl('jitcache', g1(0, pb(1), kinds='f'), lambda p, x: (lambda f: f(x) * f(0.5 * x) + f(f(x)))(jax.jit(BODIES[p['b'][0]])), 0.8)
ctl('cj_xtanh', g1(0, kinds='f'), lambda p, x: cj_xtanh(x), 1)
ctl('cj_norm', g1(1, kinds='f'), lambda p, x: cj_norm(x), 1)
ctl('cj_two', g1(0, kinds='f'), lambda p, x: list(cj_two(x)), 1, multi=True)


def gen_cj2(d, c):
    i = c.pick(d, kinds='f')
    if i is None:
        return None
    v = c.vals[i]
    k = d(st.integers(0, 3))
    j = i if k == 0 else mkconst(d, v.shape, 'n') if k == 1 else c.pick(d, lambda u: u.shape == v.shape, kinds='f')
    return ([i, j] if d(st.booleans()) else [j, i]), {}


ctl('cj_mul', gen_cj2, lambda p, x, y: cj_mul(x, y), 1.5)


@functools.lru_cache(None)
def custom(b):
    """The body with a custom derivative rule (which agrees with its derivative)."""
    g = jax.custom_jvp(BODIES[b])
    g.defjvp(lambda p, t: jax.jvp(BODIES[b], p, t))
    return g


@functools.lru_cache(None)
def custom2(b, how):
    def f(x, y):
        z = BODIES[b](x * y)
        return z if how == 'mul' else z.sum() + jnp.sin(y) if how == 'sum' else jnp.stack([z, x - y])

    g = jax.custom_jvp(f)
    g.defjvp(lambda p, t: jax.jvp(f, p, t))
    return g


def p_mixing(d, v):
    # mostly bodies which are not elementwise
    return {'b': d(st.integers(NS, NB - 1)) if d(st.integers(0, 3)) else d(st.integers(0, NS - 1))}


ctl('cj_body', g1(0, p_mixing, kinds='f'), lambda p, x: custom(p['b'])(x), 2.5)
ctl('cj_axis', g1(1, lambda d, v: {**p_mixing(d, v), 'o': d(st.integers(0, v.ndim - 1))}, kinds='f'), lambda p, x: jax.vmap(custom(p['b']), out_axes=p['o'])(x), 1)


def gen_cj2b(d, c):
    r = gen_cj2(d, c)
    return r and (r[0], {**p_mixing(d, None), 'h': d(st.sampled_from(['mul', 'sum', 'stack']))})


def run_cj2b(p, x, y):
    return custom2(p['b'], p['h'])(jnp.asarray(x), jnp.asarray(y))


ctl('cj_body2', gen_cj2b, run_cj2b, 1.5)
ctl('remat', g1(0, pb(2), kinds='f'), lambda p, x: jax.checkpoint(lambda y: BODIES[p['b'][1]](BODIES[p['b'][0]](y)))(x), 1)
ctl('remat2', gen_cj2, lambda p, x, y: jax.checkpoint(lambda a, b: (a * jnp.sin(b), b * 0.3))(x, y)[0], 0.7)
ctl('invmap', g1(1, pb(1), kinds='f'), lambda p, x: jax.vmap(lambda r: BODIES[p['b'][0]](r))(x), 1.2)
ctl('invmap2', g1(1, lambda d, v: {**pb(1)(d, v), 'o': d(st.integers(0, v.ndim - 1))}, kinds='f'), lambda p, x: jax.vmap(lambda r, s: r * s.sum() + BODIES[p['b'][0]](r), in_axes=(0, None), out_axes=p['o'])(x, x), 1)
ctl('vec', g1(1, kinds='f'), lambda p, x: jnp.vectorize(lambda r: jnp.dot(r, r) + r[0], signature='(n)->()')(x), 0.7)
ctl('ingrad', g1(0, pb(1), kinds='f'), lambda p, x: jax.grad(lambda y: jnp.sum(jnp.sin(BODIES[p['b'][0] % NS](y)) * y))(x), 0.8)
ctl('injvp', g1(0, pb(1), kinds='f'), lambda p, x: jax.jvp(BODIES[p['b'][0] % NS], (x,), (x * x,))[1], 0.6)


# ------------------------------------------------------------------ branches
def sumgap(t):
    return lambda v: bool(abs(np.sum(v) - t) > GAP)


ctl('cond', g1(0, lambda d, v: {**pb(2)(d, v), 't': d(st.sampled_from([0.1013, -0.7007, 1.2011]))}, kinds='f'),
    lambda p, x: lax.cond(jnp.sum(x) > p['t'], BODIES[p['b'][0]], BODIES[p['b'][1]], x), 2)


def gen_cond2(d, c):
    r = gen_cj2(d, c)
    k = c.pick(d, sumgap(0.3019), kinds='f')
    if r is None or k is None:
        return None
    return r[0] + [k], {'b': [d(st.integers(0, NB - 1))], 'closure': d(st.booleans()), 'c': d(st.booleans())}


def run_cond2(p, x, y, k):
    pred = jnp.sum(k) > 0.3019
    if p['c']:
        pred = True
    b = BODIES[p['b'][0]]
    if p['closure']:
        return list(lax.cond(pred, lambda: (x * y, x + 0.5), lambda: (b(y * 1.0), jnp.full_like(x * y, 0.25))))
    return list(lax.cond(pred, lambda u, v: (u * v, u + 0.5), lambda u, v: (b(v * 1.0), v - u), x * 1.0, y * 1.0))


ctl('cond2', gen_cond2, run_cond2, 2, multi=True)
ctl('switch', g1(0, lambda d, v: pb(3)(d, v), kinds='f', pred=lambda v: bool(np.min(np.abs(np.sum(v) - np.array([-0.5, 0.5, 1.5, 2.5]))) > 0.01)),
    lambda p, x: lax.switch(jnp.clip(jnp.round(jnp.sum(x)).astype(int), 0, 2), [BODIES[b] for b in p['b']], x), 1)
ctl('platform', g1(0, pb(1), kinds='f'), lambda p, x: lax.select(jnp.sum(x) > 1e9, x, BODIES[p['b'][0]](x)), 0.5)


# ------------------------------------------------------------------ loops
def p_scan(stable):
    def pp(d, v):
        return {'b': [d(st.integers(0, (NS if stable else NB) - 1)) for _ in range(2)], 'n': d(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4])), 'r': d(st.booleans()),
                'u': d(st.sampled_from([1, 1, 2, True])), 'xs': d(st.sampled_from(['none', 'scalar', 'array'])), 'ys': d(st.sampled_from(['none', 'carry', 'other', 'both'])),
                'cc': d(st.sampled_from(['none', 'const', 'two', 'int'])), 's': dseed(d)}

    return pp


def run_scan(p, x):
    n = p['n']
    r = np.random.RandomState(p['s'])
    if p['xs'] == 'none':
        xs = None
    elif p['xs'] == 'scalar':
        xs = jnp.asarray(np.round(r.uniform(-1, 1, n), 2))
    else:
        xs = jnp.asarray(np.round(r.uniform(-1, 1, (n,) + x.shape), 2))
    f, g = BODIES[p['b'][0]], BODIES[p['b'][1]]
    c0 = {'x': x}
    if p['cc'] == 'const':
        c0['k'] = jnp.asarray(0.7)
    elif p['cc'] == 'two':
        c0['k'] = jnp.cos(x)
    elif p['cc'] == 'int':
        c0['k'] = jnp.asarray(0)

    def step(c, t):
        y = f(c['x'])
        if t is not None:
            y = y + t if p['b'][1] % 2 else y * t
        out = {'x': y}
        if p['cc'] == 'const':
            out['k'] = c['k'] * 0.9
            out['x'] = out['x'] * c['k']
        elif p['cc'] == 'two':
            out['k'] = g(c['k'])
        elif p['cc'] == 'int':
            out['k'] = c['k'] + 1
            out['x'] = out['x'] * (1.0 + 0.1 * c['k'])
        ys = {'none': None, 'carry': y, 'other': g(c['x']), 'both': (g(c['x']), c['x'] * 2)}[p['ys']]
        return out, ys

    c, ys = lax.scan(step, c0, xs, length=n, reverse=p['r'], unroll=p['u'] if p['u'] is not True else max(n, 1))
    return [c['x']] + ([c['k']] if p['cc'] == 'two' else []) + [y if n else jnp.sum(y) + 0.5 for y in jax.tree.leaves(ys)]


scan_ok = lambda v: v.size * 4 <= MAXSIZE
ctl('scan_stable', g1(0, p_scan(True), scan_ok, kinds='f'), run_scan, 2.5, multi=True)
ctl('scan', g1(0, p_scan(False), scan_ok, kinds='f'), run_scan, 1.5, multi=True)
ctl('fori', g1(0, lambda d, v: {**pb(1)(d, v), 'n': d(st.integers(0, 4))}, kinds='f'), lambda p, x: lax.fori_loop(0, p['n'], lambda i, c: BODIES[p['b'][0] % NS](c) * (1.0 + 0.1 * i), x), 1.2)
ctl('fori_any', g1(0, lambda d, v: {**pb(1)(d, v), 'n': d(st.integers(1, 4))}, kinds='f'), lambda p, x: lax.fori_loop(0, p['n'], lambda i, c: BODIES[p['b'][0]](c) - 0.1 * i, x), 0.8)
ctl('while', g1(0, lambda d, v: {**pb(1)(d, v), 'n': d(st.integers(1, 4))}, kinds='f'), lambda p, x: lax.while_loop(lambda c: c[1] < p['n'], lambda c: (BODIES[p['b'][0]](c[0]), c[1] + 1), (x, 0))[0], 1.2)
ctl('fori_dep', g1(0, pb(1), lambda v: sumgap(0.1013)(v), kinds='f'), lambda p, x: lax.fori_loop(0, 1 + (jnp.sum(x) > 0.1013).astype(int) * 2, lambda i, c: BODIES[p['b'][0]](c), x), 0.8)
ctl('scan_closure', g1(0, lambda d, v: {**pb(1)(d, v), 'n': d(st.integers(1, 3))}, scan_ok, kinds='f'), lambda p, x: lax.scan(lambda c, _: (c * jnp.sin(x) + 0.1, c * x), BODIES[p['b'][0]](x), None, length=p['n'])[1], 1)
ctl('scan_nested', g1(0, lambda d, v: {**pb(1)(d, v), 'n': d(st.integers(1, 3))}, scan_ok, kinds='f'),
    lambda p, x: lax.scan(lambda c, t: (lax.scan(lambda e, u: (jnp.sin(e) + u, None), c, t)[0], None), x, jnp.arange(2.0 * p['n']).reshape(p['n'], 2) * 0.2)[0], 0.8)
ctl('scan_cond', g1(0, pb(1), scan_ok, kinds='f'), lambda p, x: lax.scan(lambda c, t: (lax.cond(t > 0, lambda q: jnp.sin(q), lambda q: q * 0.5, c), c), x, jnp.asarray([1.0, -1.0, 0.5]))[0], 0.8)
ctl('scan_xdep', g1(1, pb(1), kinds='f'), lambda p, x: lax.scan(lambda c, t: (c * 0.5 + jnp.sum(t), c), 0.3 * jnp.sum(x), x)[0], 0.4)
ctl('scan_constcarry', g1(0, pb(1), kinds='f'), lambda p, x: lax.scan(lambda c, t: (c * x + t, None), jnp.zeros(x.shape), jnp.arange(3.0))[0], 0.4)
ctl('lmap', g1(1, pb(1), kinds='f'), lambda p, x: lax.map(BODIES[p['b'][0]], x), 0.3)
ctl('assoc', g1(1, kinds='f'), lambda p, x: lax.associative_scan(lambda a, b: a * b + a, x), 0.5)

# These may be refused (with an exception) by folx; the other operations must be supported.
REFUSABLE = {'scan', 'scan_two', 'fori', 'fori_any', 'while', 'fori_dep', 'scan_closure', 'scan_nested', 'scan_cond', 'scan_xdep', 'scan_constcarry', 'lmap'}
