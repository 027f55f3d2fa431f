from .base import *


class C(ProgramCheck):
    corpus = 'ew'
    dense = 0.3


CHECK = C()
