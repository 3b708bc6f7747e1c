from contracts import aa
from contracts.convex import *


def verify(S):
    for nm, r in aa.CASES:
        b = lambda S, r=r: aa.model(S, r)
        S.warm(b)
        b2 = lambda S, r=r: aa.model(S, r, cls='ArchetypalAnalysis')
        S.warm(b2)
        S.section('updates (%s)' % nm, updates_stochastic, b)
        S.section('iteration (%s)' % nm, iterate, b, post=post_stochastic)
        for i in (None, 'random', 'furthest_sum', 'custom'):
            S.section('fit_transform (%s, init=%r)' % (nm, i), fit_runs, b, [i], check_fit_stochastic)
            S.section('ArchetypalAnalysis.fit_transform (%s, init=%r)' % (nm, i), fit_runs, b2, [i], check_fit_stochastic)
