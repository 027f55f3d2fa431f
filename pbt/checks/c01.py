from .base import *


class C(ProgramCheck):
    def thresholds(self, d, n):
        return [d(st.sampled_from([0, 0, 0, 0, 0.0]))]


CHECK = C()
