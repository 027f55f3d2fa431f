from .base import *


class C(ProgramCheck):
    dense = 0.0


CHECK = C()
