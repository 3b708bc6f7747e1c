"""FurthestSum's choices are greedy maximisers of the total dissimilarity.

The bookkeeping (which samples the candidate list holds) is that of C03; here the sums kept next to the
candidates are the sums of their dissimilarities to the selected samples, and the sample taken has the largest."""
from contracts.fsum import *


def choices(S, excl):
    F, st, A, arg = setup(S, excl, True)
    E = F.E
    st.assume(tand(le(ONE, k), le(ZERO, steps)))
    st.assume(tand(le(ZERO, start), lt(start, n), tnot(ex(start)), le(k, sub(n, F.ne))))
    f = E.func(MOD, 'furthest_sum')
    outs = list(E.call(st, f, [A, k, start], {'exclude': arg, 'extra_steps': steps}))
    for s, v in S.outcomes(E, outs, 'furthest_sum', raises=('ValueError',)):
        ok = isinstance(v, Arr) and len(v.shape) == 1
        S.fact('returns the selection', ok, repr(v))
        if not ok:
            continue
        evs = [e for e in s.events() if e[0] == 'furthest']
        whats = [e[1] for e in evs]
        S.fact('selected once, then refined at most once', whats in (['selection'], ['selection', 'refinement']), repr(whats))
        if whats not in (['selection'], ['selection', 'refinement']):
            continue
        sel = fn1(s, v)
        c = tm.fresh_var('c')
        if len(evs) == 1:
            S.ob('no refinement only if none is asked for', s.ctx, eq(steps, ZERO))
            S.ob('the first selected sample is the start', s.ctx, eq(sel(ZERO), start))
        else:
            S.ob('as many refinements as asked for', s.ctx, eq(evs[1][2], steps))
        S.ob('the samples selected are returned in the order of selection', s.ctx.extend(rng((c, k))),
             eq(sel(c), tm.subst(s.heap[evs[-1][3]].body, {IVN[0]: c})))
    # definedness and the absence of exceptions: C03


def verify(S):
    for x in EXCL:
        S.section('choices (exclude: %s)' % x, choices, x)
