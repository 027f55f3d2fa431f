"""Program language: drawing, running, shrinking by dead code elimination."""
import jax
import jax.numpy as jnp
import numpy as np
from .rnd import st

from . import ops as _ops
from . import ops_ctl, ops_idx, ops_red, ops_typ  # noqa: F401  (fill the table)
from .ops import MAXABS, MAXSIZE, OPS, Ctx, isconst, prod, resolve
from .ops_ctl import REFUSABLE

FAMS = {}
for _o in OPS.values():
    FAMS.setdefault(_o.fam, []).append(_o)


def input_values(shapes, seed, style):
    r = np.random.RandomState(seed)
    out = []
    for s in shapes:
        v = np.round(r.uniform(-1.5, 1.5, size=s), 3)
        if style == 'h':  # halves, zeros and repeated values
            v = np.round(v * 2) / 2
        elif style == 'z':
            v = np.where(r.uniform(size=s) < 0.25, 0.0, v)
        elif style == 'p':
            v = np.abs(v) + 0.3
        out.append(np.asarray(v, dtype=float))
    return out


def run_program(nodes, inputs, apply=None):
    """All values of the program: the inputs and the results of the nodes in order."""
    env = list(inputs)
    for name, args, params in nodes:
        op = OPS[name]
        xs = [resolve(a, env) for a in args]
        r = op.run(params, *xs)
        if op.multi:
            env.extend(r)
        else:
            env.append(r)
    return env


def node_starts(nodes, n_in, counts):
    pos, out = n_in, []
    for c in counts:
        out.append(pos)
        pos += c
    return out


SHAPES = [[1], [2], [3], [4], [5], [6], [2, 2], [2, 3], [3, 2], [1, 3], [3, 1], [4, 2], [2, 1, 2], [2, 2, 2], [2, 3, 1], []]

LARGE = [[3], [2, 2], [6], [12], [13], [17], [20], [5, 4], [3, 3, 2], [6, 3], [4, 3], [16], [7], []]
LARGE += [[24], [33], [8, 4], [9, 3]]


class Pool:
    def __init__(self, **fams):
        """fams: family -> weight; a family name may also be a single operation."""
        self.ops, self.w = [], []
        for f, w in fams.items():
            group = FAMS[f] if f in FAMS else [OPS[f]]
            tot = sum(o.w for o in group)
            for o in group:
                self.ops.append(o)
                self.w.append(w * o.w / tot)
        s = sum(self.w)
        self.table = []
        for i, w in enumerate(self.w):
            self.table += [i] * max(1, int(round(400 * w / s)))

    def draw(self, d):
        return self.ops[self.table[d(st.integers(0, len(self.table) - 1))]]


def try_node(d, c, op):
    """Adds a node with that operation if possible; returns it."""
    g = op.gen(d, c)
    if g is None:
        return None
    args, params = g
    if any(a is None for a in args):
        return None
    try:
        xs = [resolve(a, c.vals) for a in args]
        xs = [jnp.asarray(x) if isinstance(x, np.ndarray) else x for x in xs]
        r = op.run(params, *xs)
    except Exception:
        if GENDEBUG is not None:
            import traceback

            GENDEBUG.append((op.name, args, params, [np.shape(x) for x in xs], traceback.format_exc(limit=-3)))
        return None
    rs = list(r) if op.multi else [r]
    vals = [np.asarray(x) for x in rs]
    for v in vals:
        if v.size > MAXSIZE or v.size == 0 or v.ndim > 4:
            return None
        if v.dtype.kind in 'fc' and not (np.all(np.isfinite(v)) and np.max(np.abs(v), initial=0) < MAXABS):
            return None
    dep = any((not isconst(a)) and c.deps[a] for a in args)
    c.vals += vals
    c.deps += [dep] * len(vals)
    return [op.name, args, params], len(vals)


GENDEBUG = None


def draw_program(d, pools, n_nodes, shapes=None, max_n=10, cpx=False, max_inputs=2, styles='nnhzp', prelude=None, types=False):
    """pools: list of (weight, Pool).  Returns a JSON case."""
    if shapes is None:
        k = d(st.integers(1, max_inputs)) if max_inputs > 1 else 1
        shapes, tot = [], 0
        for _ in range(k):
            cand = [s for s in (SHAPES if max_n <= 12 else LARGE) if tot + prod(s) <= max_n]
            if not cand:
                break
            s = d(st.sampled_from(cand))
            shapes.append(s)
            tot += prod(s)
    seed = d(st.integers(0, 9999))
    style = d(st.sampled_from(list(styles)))
    ins = input_values(shapes, seed, style)
    if types:
        dt = [d(st.sampled_from(['f4', 'f4', 'f4', 'f8'])) for _ in shapes]
        ins = [x.astype(t) for x, t in zip(ins, dt)]
    c = Ctx(ins, [True] * len(ins), cpx)
    nodes, counts = [], []

    def add(pool):
        for _ in range(6):
            r = try_node(d, c, pool.draw(d))
            if r is not None:
                nodes.append(r[0])
                counts.append(r[1])
                return True
        return False

    if prelude is not None:
        for p in prelude:
            add(p)
    k = d(st.integers(*n_nodes)) if isinstance(n_nodes, tuple) else n_nodes
    tot = [i for i, (w, _) in enumerate(pools) for _ in range(w)]
    for _ in range(k):
        add(pools[tot[d(st.integers(0, len(tot) - 1))]][1])
    case = {'shapes': shapes, 'seed': seed, 'style': style, 'nodes': nodes, 'counts': counts}
    if types:
        case['dt'] = dt
    # outputs: all nodes, the last one, or some
    n_in = len(shapes)
    total = n_in + sum(counts)
    mode = d(st.integers(0, 3))
    if mode <= 1 or total == n_in:
        outs = list(range(n_in if total > n_in else 0, total))
    elif mode == 2:
        outs = [total - 1]
    else:
        outs = sorted(set(d(st.lists(st.integers(0, total - 1), min_size=1, max_size=3)))) + [total - 1]
    case['outs'] = outs
    return case


def dce(case, keep):
    """The program restricted to what the value `keep` needs."""
    n_in = len(case['shapes'])
    owner = list(range(-n_in, 0))
    for i, k in enumerate(case['counts']):
        owner += [i] * k
    need, stack = set(), [keep]
    while stack:
        v = stack.pop()
        if owner[v] < 0 or owner[v] in need:
            continue
        need.add(owner[v])
        stack += [a for a in case['nodes'][owner[v]][1] if not isconst(a)]
    remap, new_nodes, new_counts, pos, new = {i: i for i in range(n_in)}, [], [], n_in, n_in
    for i, k in enumerate(case['counts']):
        if i in need:
            for j in range(k):
                remap[pos + j] = new + j
            name, args, params = case['nodes'][i]
            new_nodes.append([name, [a if isconst(a) else remap[a] for a in args], params])
            new_counts.append(k)
            new += k
        pos += k
    out = dict(case)
    out.update(nodes=new_nodes, counts=new_counts, outs=[remap[keep]])
    return out
