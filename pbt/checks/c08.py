from .base import *


class C(ProgramCheck):
    corpus = 'ctl'
    dense = 0.4

    def nontrivial(self, case, labels):
        return any(OPS[n[0]].fam in ('ctl',) for n in case['nodes'])


CHECK = C()
