from contracts import crom, gpnh, mtd
from contracts.convex import *


def verify(S):
    for mod, nm0 in ((gpnh, 'GPNH'), (mtd, 'MTD')):
        for nm, one in mtd.CASES:
            b = lambda S, one=one, mod=mod: mod.model(S, one)
            S.warm(b)
            S.section('%s updates (%s)' % (nm0, nm), updates_stochastic, b)
            S.section('%s iteration (%s)' % (nm0, nm), iterate, b, post=post_stochastic)
            for i in (None, 'random', 'furthest_sum', 'custom'):
                S.section('%s fit_transform (%s, init=%r)' % (nm0, nm, i), fit_runs, b, [i], check_fit_stochastic)
    for nm, one in crom.CASES:
        b = lambda S, one=one: crom.model(S, one)
        S.warm(b)
        S.section('CROM updates (%s)' % nm, updates_stochastic, b)
        S.section('CROM _fit_parameters (%s)' % nm, crom.fit_parameters, b, crom.stochastic)
        S.section('CROM fit (%s)' % nm, crom.fit, b)
