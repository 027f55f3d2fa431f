"""Uniform random draws with the interface of a few Hypothesis strategies.

Hypothesis prefers small and repeated choices, so that most of the 280 operations of the program
language would hardly ever be drawn.  Programs are therefore drawn uniformly from a seeded generator
and shrunk structurally (dsl.dce, dsl.simplify); cheap container properties use Hypothesis itself.
"""
import random


class _S:
    def __init__(self, f):
        self.f = f


class st:
    @staticmethod
    def integers(lo, hi):
        return _S(lambda r: r.randint(lo, hi))

    @staticmethod
    def booleans():
        return _S(lambda r: r.random() < 0.5)

    @staticmethod
    def sampled_from(xs):
        return _S(lambda r: xs[r.randrange(len(xs))])

    @staticmethod
    def permutations(xs):
        def f(r):
            ys = list(xs)
            r.shuffle(ys)
            return ys

        return _S(f)

    @staticmethod
    def lists(e, min_size=0, max_size=3):
        return _S(lambda r: [e.f(r) for _ in range(r.randint(min_size, max_size))])


class Draw:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def __call__(self, s):
        return s.f(self.r)
