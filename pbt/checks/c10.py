from .base import *


class C(ProgramCheck):
    corpus = 'cpx'
    dense = 0.35

    def nontrivial(self, case, labels):
        return sum(OPS[n[0]].fam in ('cpx', 'cpxlin') for n in case['nodes']) >= 2


CHECK = C()
