from contracts import mtd
from contracts.convex import *
from contracts.gradient import gradient_steps


def verify(S):
    for nm, one in mtd.CASES:
        b = lambda S, one=one: mtd.model(S, one)
        S.warm(b)
        S.section('gradient steps (%s)' % nm, gradient_steps, b)
