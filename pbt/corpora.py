"""Program corpora.  A program and its reference only depend on JAX, on the seed and on the number of
the program; setup_cmd computes the first ones ahead of time, all others are drawn on demand."""
import hashlib
import json
import os
import pickle
import time

from .dsl import REFUSABLE, Pool, draw_program
from .oracle import Discard
from .progcheck import prepare, remember
from .rnd import Draw, st

HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), '.cache')
NFILES = 8

GLUE = dict(sin=3, square=2, exp=1, tanh=1, mul=3, add=2, sub=1, div=1, sum=2, reshape=1, pyslice=2, transpose=1, concat=2, stack=1, dense=2, pairdiff=2, silu=1, scale=1, sumsq=1, at_set=1)


class Corpus:
    n_nodes = (3, 7)
    max_n = 9
    large = 0.12  # probability of programs with more inputs
    max_inputs = 2
    cpx = 0.0  # probability of programs with complex nodes
    styles = 'nnhzp'
    pre = None  # pool of the first operations
    n_pre = (0, 2)
    one_refusable = False
    types = False

    def __init__(self):
        self._pools = {}

    def pools(self, cpx):
        raise NotImplementedError

    def get_pools(self, cpx):
        if cpx not in self._pools:
            self._pools[cpx] = self.pools(cpx)
        return self._pools[cpx]

    def prelude(self, d, cpx):
        if self.pre is None:
            return None
        if 'pre' not in self._pools:
            self._pools['pre'] = Pool(**self.pre)
        return [self._pools['pre']] * d(st.integers(*self.n_pre))

    def draw(self, d):
        cpx = d(st.integers(0, 99)) < 100 * self.cpx
        big = d(st.integers(0, 99))
        max_n = 40 if big < 33 * self.large else 20 if big < 100 * self.large else self.max_n
        while True:
            case = draw_program(d, self.get_pools(cpx), self.n_nodes, max_n=max_n, cpx=cpx, max_inputs=self.max_inputs, styles=self.styles,
                                prelude=self.prelude(d, cpx), types=self.types)
            # a refused operation hides the rest of the program: at most one of them
            if not self.one_refusable or sum(n[0] in REFUSABLE for n in case['nodes']) <= 1:
                return json.loads(json.dumps(case))


CORPORA = {}


def corpus(cls):
    CORPORA[cls.__name__] = cls()
    return cls


@corpus
class mixed(Corpus):
    n_nodes = (5, 10)
    cpx = 0.14
    one_refusable = True

    def pools(self, cpx):
        p = [(5, Pool(ew=3, ewb=4, idx=4, red=3, dot=3, lin=0.9, ctl=1.2))]
        if cpx:
            p.append((3, Pool(cpx=5, cpxlin=1)))
        return p


@corpus
class ew(Corpus):
    """Elementwise operations; other operations only create operands with overlapping dependencies."""

    n_nodes = (5, 10)
    cpx = 0.1
    pre = dict(spmix=5, pairdiff=2, dense=1, roll=2, take=1, sum=1, pyslice=2, concat=1, expand=1, diff=1, mul=1)

    def pools(self, cpx):
        p = [(6, Pool(ew=4, ewb=6)), (1, Pool(broadcast_to=1, expand=1, pyslice=2, concat=2, roll=2, pairdiff=2, sum=1, dense=2, transpose=1, take=1))]
        if cpx:
            p.append((2, Pool(cpx=1)))
        return p


@corpus
class dot(Corpus):
    n_nodes = (2, 6)
    cpx = 0.12
    max_n = 10
    large = 0.3
    pre = dict(spmix=6, sin=1, square=1, pairdiff=2, mul=2, reshape=2, transpose=1, expand=1, bcast_in_dim=1, pyslice=1, stack=1, dense=0.7, concat=1, roll=1, where=1, at_set=1)
    n_pre = (1, 3)

    def pools(self, cpx):
        p = [(5, Pool(dot=1)), (2, Pool(**GLUE))]
        if cpx:
            p.append((2, Pool(cpx=1)))
        return p


@corpus
class idx(Corpus):
    n_nodes = (4, 9)
    cpx = 0.05
    pre = dict(spmix=3, sin=1, square=1, dense=0.6, mul=1, pairdiff=1)

    def pools(self, cpx):
        p = [(6, Pool(idx=1)), (2, Pool(sin=2, square=2, mul=3, sum=1, dense=2, add=1, wherepos=1, sumsq=1, maskmul=1, where=2, wheredep=2, sort=0.5))]
        if cpx:
            p.append((2, Pool(cpx=1)))
        return p


@corpus
class red(Corpus):
    n_nodes = (3, 8)
    cpx = 0.05
    max_n = 10
    pre = dict(spmix=5, sin=1, square=1, pairdiff=2, mul=2, reshape=2, transpose=1, expand=1, bcast_in_dim=1, stack=1, dense=0.6, concat=1, roll=1, at_set=1, pairsum_outer=1)
    n_pre = (1, 3)

    def pools(self, cpx):
        p = [(5, Pool(red=1)), (2, Pool(**GLUE))]
        if cpx:
            p.append((2, Pool(cpx=1)))
        return p


@corpus
class ctl(Corpus):
    n_nodes = (3, 6)
    pre = dict(spmix=2, sin=1, square=1, pairdiff=1, mul=2, reshape=1, dense=1, concat=1)
    one_refusable = True

    def pools(self, cpx):
        return [(5, Pool(ctl=1)), (2, Pool(**GLUE))]


@corpus
class lin(Corpus):
    n_nodes = (2, 6)
    max_n = 10
    cpx = 0.15
    pre = dict(spmix=2, sin=1, square=1, pairdiff=1, mul=2, reshape=2, dense=1, concat=1)

    def pools(self, cpx):
        if cpx:
            return [(4, Pool(cpxlin=1)), (1, Pool(lin=1)), (2, Pool(**GLUE)), (1, Pool(cpx=1))]
        return [(5, Pool(lin=1)), (2, Pool(**GLUE))]


@corpus
class cpx(Corpus):
    n_nodes = (4, 9)
    cpx = 1.0

    def pools(self, cpx):
        return [(5, Pool(cpx=6, cpxlin=1.5)), (3, Pool(mul=4, add=2, sub=1, div=2, sum=2, sumsq=1, mean=1, rprod=1, dot_general=3, einsum=2, dense=2, gram=1, selfdot=1, where=1, select_n=1,
                    stack=1, concat=2, pyslice=2, reshape=1, transpose=1, roll=1, exp=1, sin=1, log=1, sqrt=1, ipow=1, recip=1, fma=1, muladd=1, neg=1, scale=1, slogdet=0.5, take=1, pairdiff=1, expand=1))]

    def prelude(self, d, cpx):
        if 'p1' not in self._pools:
            self._pools['p1'] = Pool(sin=1, square=1, pairdiff=1, mul=2, reshape=1, dense=1, concat=1)
            self._pools['p2'] = Pool(mkcomplex=1, xiy=1, expi=1, cconst=1)
        return [self._pools['p1']] * d(st.integers(0, 1)) + [self._pools['p2']]


@corpus
class args(Corpus):
    """Programs of up to four inputs."""

    n_nodes = (3, 7)
    max_n = 9
    max_inputs = 4
    one_refusable = True

    def pools(self, cpx):
        return [(1, Pool(ew=2, ewb=6, idx=3, red=2, dot=3, ctl=1))]


@corpus
class types(Corpus):
    """Single and double precision, integers and booleans."""

    n_nodes = (3, 8)
    cpx = 0.15
    one_refusable = True
    types = True

    def pools(self, cpx):
        p = [(4, Pool(typ=1)), (4, Pool(ew=3, ewb=3, idx=3, red=3, dot=3, lin=0.7, ctl=1))]
        if cpx:
            p.append((2, Pool(cpx=1)))
        return p


# ------------------------------------------------------------------ access
def version():
    h = hashlib.sha1()
    for f in sorted(os.listdir(HERE)):
        if f in ('ops.py', 'ops_idx.py', 'ops_red.py', 'ops_ctl.py', 'ops_typ.py', 'dsl.py', 'rnd.py', 'oracle.py', 'corpora.py', 'progcheck.py'):
            h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:16]


def make(name, seed, g):
    """Program number g with its reference: (case, prep or None, reason of a discard)."""
    try:
        case = CORPORA[name].draw(Draw(f'{seed}:{name}:{g}'))
    except Discard as e:
        return None, None, str(e)
    try:
        return case, prepare(case), None
    except Discard as e:
        return case, None, str(e)


def path(name, seed, k):
    return os.path.join(CACHE, version(), f'{name}.{seed}.{k}.pkl')


class Reader:
    """The programs number shard, shard + nshards, ... of a corpus."""

    def __init__(self, name, seed, shard, nshards):
        self.name, self.seed, self.shard, self.nshards = name, seed, shard, nshards
        self.items = []
        if nshards == NFILES:
            try:
                with open(path(name, seed, shard), 'rb') as f:
                    while True:
                        self.items.append(pickle.load(f))
            except (OSError, EOFError, pickle.UnpicklingError):
                pass

    def get(self, i):
        if i < len(self.items):
            case, prep, why = self.items[i]
            case = json.loads(json.dumps(case))
        else:
            case, prep, why = make(self.name, self.seed, i * self.nshards + self.shard)
        if why is not None:
            raise Discard(why)
        remember(case, prep)
        return case


def fill(plan, seed, k, deadline):
    """plan: {corpus: number of programs per file}; writes the files number k, in rounds."""
    out = {}
    done = {n: 0 for n in plan}
    try:
        for n in plan:
            p = path(n, seed, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            out[n] = open(p, 'wb')
        while any(done[n] < plan[n] for n in plan):
            # the corpus which is furthest behind
            n = min((n for n in plan if done[n] < plan[n]), key=lambda n: done[n] / plan[n])
            if time.time() > deadline:
                break
            pickle.dump(make(n, seed, done[n] * NFILES + k), out[n])
            done[n] += 1
    finally:
        for f in out.values():
            f.close()
    return done
