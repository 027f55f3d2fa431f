from .base import *


class C(ProgramCheck):
    corpus = 'idx'
    dense = 0.2

    def nontrivial(self, case, labels):
        return any(OPS[n[0]].fam in ('idx',) for n in case['nodes'])


CHECK = C()
