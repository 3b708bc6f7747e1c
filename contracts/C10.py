from contracts import gpnh
from contracts.convex import *
from contracts.gradient import gradient_steps


def verify(S):
    for nm, one in (('two or more components', False), ('one component', True)):
        b = lambda S, one=one: gpnh.model(S, one)
        S.warm(b)
        S.section('gradient steps (%s)' % nm, gradient_steps, b)
