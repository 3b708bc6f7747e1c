from contracts import mtd
from contracts.convex import *


def verify(S):
    for nm, one in mtd.CASES:
        b = lambda S, one=one: mtd.model(S, one)
        S.warm(b)
        S.section('evaluation (%s)' % nm, cost_method, b)
        S.section('updates (%s)' % nm, updates_cost, b)
        S.section('iteration (%s)' % nm, iterate, b, post=post_cost)
        for i in (None, 'random', 'furthest_sum', 'custom'):
            S.section('fit_transform (%s, init=%r)' % (nm, i), fit_runs, b, [i], check_fit_cost)
