from contracts import aa
from contracts.convex import *
from contracts.gradient import gradient_steps


def verify(S):
    for nm, r in aa.CASES:
        b = lambda S, r=r: aa.model(S, r)
        S.warm(b)
        S.section('gradient steps (%s)' % nm, gradient_steps, b)
