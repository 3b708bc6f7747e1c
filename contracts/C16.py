"""Descent and stopping."""
from contracts import aa, gpnh, mtd
from contracts.convex import *
from contracts.search import sufficient


def real(v):
    return v if isinstance(v, T) else num(v)


def stopping(S, m, fl, eng, head, end, k, kind, n):
    """one iteration of the loop of _iterate"""
    lab = '_iterate%r' % (fl,)
    if kind == 'raise':
        return
    d = tm.tabs(sub(m.abstract_cost(end), m.abstract_cost(head)))
    tol = attrs(end, m.o)['tolerance']
    if kind == 'break':
        S.ob('%s: stops early only when the cost changed by less than the tolerance' % lab, end.ctx, lt(d, tol))
    elif kind == 'continue':
        S.ob('%s: goes on only when the cost changed by at least the tolerance' % lab, end.ctx, le(tol, d))


def descent(S, m, fl, before, s, v):
    lab = '_iterate%r' % (fl,)
    if not (isinstance(v, tuple) and len(v) == 2):
        S.fact('%s returns (cost, iterations)' % lab, False, repr(v))
        return
    S.ob('%s: the cost returned is at most the cost of the initial guess' % lab, s.ctx, le(real(v[0]), m.abstract_cost(before)))
    its = [e for e in s.events() if e[0] == 'iterations']
    S.fact('%s: one pass of the iteration loop' % lab, len(its) == 1, repr(its))
    if len(its) == 1:
        cnt, why = its[0][1], its[0][2]
        mi = attrs(before, m.o)['max_iterations']
        S.ob('%s: at most max_iterations iterations' % lab, s.ctx, le(cnt, mi))
        if why == 'exhausted':
            S.ob('%s: without convergence exactly max_iterations iterations' % lab, s.ctx, eq(cnt, mi))
        S.ob('%s: the count returned is the number of iterations performed%s' % (lab, ' less one (known finding AA-n_iter)' if getattr(m, 'nit_offset', 0) else ''),
             s.ctx, eq(real(v[1]), sub(cnt, num(getattr(m, 'nit_offset', 0)))))


def reported(S, m, init, given, before, s, v):
    lab = 'fit_transform(init=%r)' % init
    nits = [e for e in s.events() if e[0] == 'iterate']
    S.fact('%s: one optimisation run' % lab, len(nits) == 1, repr(nits))
    if len(nits) != 1:
        return
    nit, rep = nits[0][1], nits[0][2]
    r = attrs(s, m.o).get('n_iter_')
    S.fact('%s stores the iteration count' % lab, isinstance(r, (T, int)))
    if isinstance(r, (T, int)):
        S.ob('%s: n_iter_ is the count of the run' % lab, s.ctx, eq(real(r), rep))
    warned = any(e[0] == 'warn' for e in s.events())
    mi, tol = var('max_iter'), var('tol', 'R')
    if not warned:
        S.ob('%s: no warning only when the run converged or the tolerance is zero' % lab, s.ctx, tor(lt(nit, mi), le(tol, ZERO)))
    c = attrs(s, m.o).get('cost_')
    if isinstance(c, (T, int, float)):
        S.ob('%s: cost_ is the cost of the run' % lab, s.ctx, eq(real(c), m.abstract_cost(s)))


def settings(m, st):
    """the settings of the run are those given to the constructor"""


def verify(S):
    for mod, nm0, cases in ((aa, 'AA', aa.CASES), (gpnh, 'GPNH', mtd.CASES), (mtd, 'MTD', mtd.CASES)):
        for nm, c in cases:
            b = lambda S, c=c, mod=mod: mod.model(S, c)
            S.warm(b)
            S.section('%s iteration (%s)' % (nm0, nm), iterate, b, hook=stopping, post=descent)
            S.section('%s line searches (%s)' % (nm0, nm), sufficient, b)
            for i in (None, 'random', 'furthest_sum', 'custom'):
                S.section('%s fit_transform (%s, init=%r)' % (nm0, nm, i), fit_runs, b, [i], reported)
