from .base import *


class C(ProgramCheck):
    corpus = 'dot'
    dense = 0.25

    def nontrivial(self, case, labels):
        return any(OPS[n[0]].fam in ('dot',) for n in case['nodes'])


CHECK = C()
