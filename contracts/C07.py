from contracts import aa
from contracts.convex import *


def verify(S):
    for nm, r in aa.CASES:
        b = lambda S, r=r: aa.model(S, r)
        S.warm(b)
        b2 = lambda S, r=r: aa.model(S, r, cls='ArchetypalAnalysis')
        S.warm(b2)
        S.section('evaluation (%s)' % nm, cost_method, b)
        S.section('updates (%s)' % nm, updates_cost, b)
        S.section('line searches (%s)' % nm, line_search_costs, b, aa.scale_search)
        S.section('iteration (%s)' % nm, iterate, b, post=post_cost)
        for i in (None, 'random', 'furthest_sum', 'custom'):
            S.section('fit_transform (%s, init=%r)' % (nm, i), fit_runs, b, [i], check_fit_cost)
            S.section('ArchetypalAnalysis.fit_transform (%s, init=%r)' % (nm, i), fit_runs, b2, [i], check_fit_cost)
        S.section('kernel objective is the squared Frobenius error (%s)' % nm, aa.frobenius, r)
