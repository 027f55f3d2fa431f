"""Checks over generated programs."""
import numpy as np

from ..corpora import Reader
from ..dsl import FAMS, Pool, dce, draw_program
from ..ops import OPS, isconst
from ..oracle import Discard, Violation
from ..progcheck import check_program, fused, n_inputs, prepare
from ..rnd import st


def draw_threshold(d, n, sparse=True):
    k = d(st.integers(0, 11))
    if k == 0:
        return d(st.sampled_from([0.2, 0.5, 0.6, 0.75, 0.99]))
    if k <= 3:
        return max(1, n + d(st.integers(-1, 1)))
    if k <= 5:
        return d(st.sampled_from([2 * n, 100]))
    if k <= 8:
        return d(st.sampled_from([1, 2, 3, 4]))
    return d(st.integers(1, max(n, 2)))


class ProgramCheck:
    corpus = 'mixed'
    n_thr = 1
    dense = 0.15  # probability that threshold 0 is among the thresholds
    nojit = 0.05

    def reader(self, seed, shard, nshards):
        return Reader(self.corpus, seed, shard, nshards)

    def thresholds(self, d, n):
        t = []
        if d(st.integers(0, 99)) < 100 * self.dense:
            t.append(0)
        while len(t) < self.n_thr:
            x = draw_threshold(d, n)
            if x not in t:
                t.append(x)
        return t

    def decorate(self, d, case):
        """Adds what else the check needs to a program of the corpus."""
        case['thr'] = self.thresholds(d, n_inputs(case))
        case['jit'] = d(st.integers(0, 99)) >= 100 * self.nojit or len(case['nodes']) > 7
        return case

    def run(self, case):
        prep = prepare(case)
        labels = []
        for t in case['thr']:
            kinds = check_program(case, t, case['jit'], prep)
            labels += ['result:' + k for k in set(kinds)]
        ops = {n[0] for n in case['nodes']}
        labels += ['op:' + o for o in ops] + ['thr:0' if t == 0 else 'thr:frac' if t < 1 else 'thr:<n' if t < n_inputs(case) else 'thr:>=n' for t in case['thr']]
        return {'labels': labels, 'nontrivial': self.nontrivial(case, labels)}

    def nontrivial(self, case, labels):
        return len(case['nodes']) >= 2 and ('result:sparse' in labels or 'result:dense' in labels)

    def shrinks(self, case, v):
        k = v.info.get('out')
        if k is not None and (case['outs'] != [k] or len(dce(case, k)['nodes']) < len(case['nodes'])):
            yield dce(case, k)
        if len(case['thr']) > 1:
            for t in case['thr']:
                yield dict(case, thr=[t])
        for o in sorted(case['outs']):
            if case['outs'] != [o]:
                yield dce(case, o)
        # the result of an earlier node
        n_in, total = len(case['shapes']), len(case['shapes']) + sum(case['counts'])
        if total - 1 > n_in:
            for o in range(n_in, total):
                if [o] != case['outs']:
                    yield dce(case, o)
        # bypass nodes
        for i in range(len(case['nodes']) - 1, -1, -1):
            if case['counts'][i] != 1:
                continue
            pos = n_in + sum(case['counts'][:i])
            for a in case['nodes'][i][1]:
                if not isconst(a):
                    nodes = [[nm, [a if (not isconst(x) and x == pos and j > i) else x for x in args], p] for j, (nm, args, p) in enumerate(case['nodes'])]
                    c = dict(case, nodes=nodes, outs=[a if o == pos else o for o in case['outs']])
                    c = dce(c, c['outs'][-1])
                    if len(c['nodes']) < len(case['nodes']):
                        yield c
        if not case.get('jit', True):
            yield dict(case, jit=True)
        if case['style'] != 'n':
            yield dict(case, style='n')

