"""Derivatives by plain JAX and comparison with folx results."""
import jax
import jax.numpy as jnp
import numpy as np

import folx
from folx.api import FwdJacobian, FwdLaplArray

IS_LPL = lambda x: isinstance(x, FwdLaplArray)


class Violation(Exception):
    def __init__(self, msg, info=None):
        super().__init__(msg)
        self.info = info or {}


class Discard(Exception):
    pass


class Ref:
    """Value, Jacobian rows and unmixed second derivatives of every output in float64."""

    def __init__(self, y, dy, d2):
        self.y, self.dy, self.d2 = y, dy, d2  # lists; dy, d2: (n, *shape) or None


def flatten(inputs):
    return np.concatenate([np.ravel(x) for x in inputs]) if inputs else np.zeros(0)


def unflat(flat, shapes):
    out, k = [], 0
    for s in shapes:
        n = int(np.prod(s, dtype=int))
        out.append(jnp.reshape(flat[k : k + n], s))
        k += n
    return out


PLAIN = [False]  # the reference is not compiled: to tell errors of the compiler from those of folx


def reference(fn, inputs, limit=1e6):
    """fn: list of arrays -> list of arrays.  Raises Discard if JAX itself cannot differentiate it or
    the result is not finite and moderate."""
    shapes = [np.shape(x) for x in inputs]
    flat = jnp.asarray(flatten(inputs), dtype=float)
    n = flat.shape[0]
    isf = []

    def diffable(z):
        outs = [jnp.asarray(o) for o in fn(unflat(z, shapes))]
        isf[:] = [jnp.issubdtype(o.dtype, jnp.inexact) for o in outs]
        return [o for o, f in zip(outs, isf) if f], [o for o, f in zip(outs, isf) if not f]

    def second(v):
        def first(z):
            (y, dy, ints) = jax.jvp(lambda q: diffable(q), (z,), (v,), has_aux=True)
            return dy, (y, ints)

        dy, d2, (y, ints) = jax.jvp(first, (flat,), (v,), has_aux=True)
        return y, ints, dy, d2

    try:
        ref = jax.vmap(second, out_axes=(None, None, 0, 0))
        y, ints, dy, d2 = (ref if PLAIN[0] else jax.jit(ref))(jnp.eye(n))
    except Exception as e:  # not differentiable by JAX: outside the domain
        raise Discard('jax:' + type(e).__name__ + ':' + str(e)[:80])
    y, ints, dy, d2 = ([np.asarray(a) for a in t] for t in (y, ints, dy, d2))
    for group in (y, dy, d2):
        for a in group:
            if not np.all(np.isfinite(a)) or np.max(np.abs(a), initial=0) > limit:
                raise Discard('huge')
    Y, DY, D2 = [], [], []
    it, ii = iter(zip(y, dy, d2)), iter(ints)
    for f in isf:
        if f:
            a, b, c = next(it)
            Y.append(a), DY.append(b), D2.append(c)
        else:
            Y.append(next(ii)), DY.append(None), D2.append(None)
    return Ref(Y, DY, D2)


def scale(ref):
    s = 1.0
    for g in (ref.y, ref.dy, ref.d2):
        for a in g:
            if a is not None and a.size and a.dtype.kind in 'fc':
                s = max(s, float(np.max(np.abs(a))))
    return s


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.max(np.abs(a - b)) <= tol)


def worst(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'shape {a.shape} instead of {b.shape}'
    k = np.unravel_index(int(np.argmax(np.where(np.isfinite(a), np.abs(a - b), np.inf))), a.shape)
    return f'{a[k]!r} instead of {b[k]!r} at {tuple(int(i) for i in k)}'


def check_mask(jac, n, shape, what=''):
    """Structural validity of a sparse Jacobian."""
    idx = jac.x0_idx
    if idx is None:
        return
    if isinstance(idx, jax.core.Tracer):
        raise Violation(f'{what}: the index array is traced')
    idx = np.asarray(idx)
    if idx.shape != jac.data.shape:
        raise Violation(f'{what}: index array has shape {idx.shape}, data has {jac.data.shape}')
    if idx.dtype.kind not in 'iu':
        raise Violation(f'{what}: index array has type {idx.dtype}')
    if idx.size and (idx.min() < -1 or idx.max() >= n):
        raise Violation(f'{what}: index {idx.min()}..{idx.max()} outside of -1..{n - 1}')


def np_dense(jac, n):
    """Independent materialisation."""
    data = np.asarray(jac.data)
    if jac.x0_idx is None:
        if data.shape[0] > n:
            raise Violation(f'dense Jacobian has {data.shape[0]} rows for {n} inputs')
        return np.concatenate([data, np.zeros((n - data.shape[0],) + data.shape[1:], data.dtype)])
    idx = np.asarray(jac.x0_idx)
    out = np.zeros((n,) + data.shape[1:], data.dtype)
    for i in range(n):
        out[i] = np.where(idx == i, data, 0).sum(0)
    return out


def lib_dense(jac, n):
    d = np.asarray(jac.dense_array)
    if d.ndim != jac.data.ndim or d.shape[0] > n:
        raise Violation(f'materialised Jacobian has shape {d.shape} for {n} inputs')
    return np.concatenate([d, np.zeros((n - d.shape[0],) + d.shape[1:], d.dtype)])


def compare_one(o, y, dy, d2, n, tol, what, w=None, dtype=None, masks=True):
    """One result against value, Jacobian rows and unmixed second derivatives."""
    if dy is None:  # integers and booleans
        if IS_LPL(o):
            raise Violation(f'{what}: result without derivatives is returned as {type(o).__name__} of type {o.x.dtype}')
        o = np.asarray(o)
        if o.dtype != y.dtype or o.shape != y.shape or not np.array_equal(o, y):
            raise Violation(f'{what}: integer result {o.dtype}{o.shape} {o.ravel()[:4]} instead of {y.dtype}{y.shape} {y.ravel()[:4]}')
        return 'int'
    dtype = dtype or y.dtype
    if w is None:
        J, L = dy, d2.sum(0)
    else:
        ws = np.asarray(w).reshape((n,) + (1,) * (dy.ndim - 1))
        J, L = dy * ws, (d2 * ws**2).sum(0)
    if not IS_LPL(o):
        if not hasattr(o, 'shape') and not np.isscalar(o):
            raise Violation(f'{what}: result is {type(o).__name__}')
        a = np.asarray(o)
        if a.shape != y.shape or a.dtype != dtype:
            raise Violation(f'{what}: plain result {a.dtype}{a.shape} instead of {dtype}{y.shape}')
        if not close(a, y, tol):
            raise Violation(f'{what}: value {worst(a, y)}')
        if not (close(np.zeros_like(J), J, tol) and close(np.zeros_like(L), L, tol)):
            raise Violation(f'{what}: derivatives were dropped (Jacobian up to {np.max(np.abs(J))}, Laplacian up to {np.max(np.abs(L), initial=0)})')
        return 'plain'
    x, lap = np.asarray(o.x), np.asarray(o.laplacian)
    if x.shape != y.shape or x.dtype != dtype:
        raise Violation(f'{what}: value has {x.dtype}{x.shape} instead of {dtype}{y.shape}')
    if lap.shape != y.shape:
        raise Violation(f'{what}: Laplacian has shape {lap.shape} instead of {y.shape}')
    if lap.dtype != dtype or np.dtype(o.jacobian.data.dtype) != dtype:
        raise Violation(f'{what}: derivative types {o.jacobian.data.dtype}, {lap.dtype} instead of {dtype}')
    if tuple(o.jacobian.data.shape[1:]) != y.shape:
        raise Violation(f'{what}: Jacobian data has shape {o.jacobian.data.shape} for a result of shape {y.shape}')
    if masks:
        check_mask(o.jacobian, n, y.shape, what)
    if not close(x, y, tol):
        raise Violation(f'{what}: value {worst(x, y)}')
    d = lib_dense(o.jacobian, n)
    if not close(d, J, tol):
        raise Violation(f'{what}: Jacobian {worst(d, J)}')
    if not close(lap, L, tol):
        raise Violation(f'{what}: Laplacian {worst(lap, L)}')
    return 'sparse' if o.jacobian.x0_idx is not None else 'dense'


def leaves(tree):
    return jax.tree_util.tree_leaves(tree, is_leaf=lambda x: IS_LPL(x) or x is None)


def in_folx(e):
    """Whether the exception passed through the library."""
    import os

    root = os.path.dirname(os.path.realpath(folx.__file__)) + os.sep
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def call(f, *args, refusable=(), what='', **kwargs):
    """Calls the library; an exception is a violation unless it may refuse."""
    try:
        return f(*args, **kwargs)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if 'RESOURCE_EXHAUSTED' in str(e):
            raise MemoryError(str(e)[:200])
        if refusable and isinstance(e, refusable):
            raise Discard('refused:' + type(e).__name__)
        raise Violation(f'{what}: {type(e).__name__}: {" ".join(str(e).split())[:300]}', {'exc': type(e).__name__})
