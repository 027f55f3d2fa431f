from .base import *


class C(ProgramCheck):
    corpus = 'red'
    dense = 0.25

    def nontrivial(self, case, labels):
        return any(OPS[n[0]].fam in ('red',) for n in case['nodes'])


CHECK = C()
