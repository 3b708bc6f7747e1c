"""FurthestSum returns distinct admissible samples and rejects what cannot be met."""
from contracts.fsum import *


def furthest(S, excl, values=False):
    F, st, A, arg = setup(S, excl, values)
    E = F.E
    j = tm.fresh_var('j')
    st.assume(tand(le(ONE, k), le(ZERO, steps)))
    st.assume(tand(le(ZERO, start), lt(start, n), tnot(ex(start)), le(k, sub(n, F.ne))))
    before = st.fork()
    f = E.func(MOD, 'furthest_sum')
    outs = list(E.call(st, f, [A, k, start], {'exclude': arg, 'extra_steps': steps}))
    for s, v in S.outcomes(E, outs, 'furthest_sum'):
        ok = isinstance(v, Arr) and len(v.shape) == 1
        S.fact('returns the selection', ok, repr(v))
        if not ok:
            continue
        S.ob('as many as requested', s.ctx, eq(v.shape[0], k))
        sel = fn1(s, v)
        c, c2 = tm.fresh_var('c'), tm.fresh_var('c')
        S.ob('valid samples, none excluded', s.ctx.extend(rng((c, k))), tand(le(ZERO, sel(c)), lt(sel(c), n), tnot(ex(sel(c)))))
        S.ob('distinct', s.ctx.extend(tand(le(ZERO, c), lt(c, c2), lt(c2, k))), ne_t(sel(c), sel(c2)))
        only_changes(S, E, 'furthest_sum', before, s, None)
    S.definedness(E)


def counting(S):
    """rank: the facts the loop over the samples uses, for rank(i) = sum over j < i of [j is neither
    excluded nor the start]"""
    tm.fn('EX', 1, 'B', (n,))
    tm.fn('xp', 1, 'I', (n,))
    tm.fn('excl.in', 1, 'I', (ne_,))
    xl = lambda i: app('excl.in', i)
    p, q, i, j, m = [tm.fresh_var(x) for x in 'pqijm']
    base = [le(ONE, n), le(ZERO, ne_), tand(le(ZERO, start), lt(start, n), tnot(ex(start))),
            tm.forall([p], implies(rng((p, ne_)), tand(le(ZERO, xl(p)), lt(xl(p), n), ex(xl(p))))),
            tm.forall([p, q], implies(tand(rng((p, ne_), (q, ne_)), ne_t(p, q)), ne_t(xl(p), xl(q)))),
            tm.forall([j], implies(ex(j), tand(rng((app('xp', j), ne_)), eq(xl(app('xp', j)), j))))]
    b = lambda c: ite(c, ONE, ZERO)
    cand = lambda z: b(tand(tnot(ex(z)), ne_t(z, start)))
    # every excluded sample is listed once
    C = Ctx(base + [rng((j, n), (p, ne_))])
    S.ob('an excluded sample is listed at one position', C.extend(ex(j)), eq(b(eq(xl(p), j)), b(eq(p, app('xp', j)))))
    S.ob('another sample is not listed', C.extend(tnot(ex(j))), eq(b(eq(xl(p), j)), ZERO))
    u = var('u')
    S.ob('one position: the sum is one', Ctx([rng((u, ne_))]), eq(mksum(0, ne_, lambda z: b(eq(z, u))), ONE))
    # counted the other way round: every position holds one sample
    v = var('u')
    S.ob('one sample per position', Ctx([rng((v, n))]), eq(mksum(0, n, lambda z: b(eq(v, z))), ONE))
    h = tm.fn('h', 2, 'I', (n, ne_))
    S.ob('summation in either order', Ctx([le(ONE, n), le(ZERO, ne_)]),
         eq(mksum(0, n, lambda z: mksum(0, ne_, lambda w: app('h', z, w))), mksum(0, ne_, lambda w: mksum(0, n, lambda z: app('h', z, w)))))
    S.ob('as many excluded samples as positions', Ctx([le(ZERO, ne_)]), eq(mksum(0, ne_, lambda w: ONE), ne_))
    # hence the sum over all samples of [excluded] is ne
    S.ob('a candidate is neither excluded nor the start', Ctx(base + [rng((j, n))]), eq(cand(j), sub(sub(ONE, b(ex(j))), b(eq(j, start)))))
    S.ob('number of candidates: n, less the excluded ones (ne), less one', Ctx([le(ONE, n), rng((start, n))]),
         eq(mksum(0, n, lambda z: sub(sub(ONE, b(ex(z))), b(eq(z, start)))), sub(sub(n, mksum(0, n, lambda z: b(ex(z)))), ONE)))
    S.ob('the number of candidates is not negative', Ctx([le(ONE, n)]), le(ZERO, mksum(0, n, cand)))
    # partial sums
    S.ob('rank of the first sample', Ctx([]), eq(mksum(0, 0, cand), ZERO))
    S.ob('rank of the next sample', Ctx([rng((i, n))]), eq(mksum(0, add(i, ONE), cand), add(mksum(0, i, cand), cand(i))))
    # rank(i + m) = rank(i) + (candidates in [i, i + m)), by induction on m
    C = Ctx([le(ZERO, i), le(ZERO, m), le(add(i, m), n)])
    between = lambda w: mksum(0, w, lambda z: cand(add(i, z)))
    S.ob('candidates between two samples: none', C, eq(between(ZERO), ZERO))
    S.ob('candidates between two samples: one more', C, eq(sub(between(add(m, ONE)), between(m)), cand(add(i, m))))
    S.ob('rank one sample further', C, eq(sub(mksum(0, add(add(i, m), ONE), cand), mksum(0, add(i, m), cand)), cand(add(i, m))))
    S.ob('ranks do not decrease', Ctx([le(ZERO, i), le(ZERO, m), le(add(i, m), n)]), le(ZERO, mksum(0, m, lambda z: cand(add(i, z)))))


def rejected(S, excl):
    """ValueError exactly when the request cannot be met"""
    F, st, A, arg = setup(S, excl, False)
    E = F.E
    r = var('ncols')
    st.assume(tand(le(ONE, k), le(ZERO, r), le(ZERO, steps)))
    f = E.func(MOD, 'furthest_sum')
    tm.fn('D.rect', 2, 'R', (n, r))
    B = st.alloc((n, r), lambda i: app('D.rect', *i), 'f', origin='caller', note='D.rect')
    j = tm.fresh_var('j')
    meets = tand(eq(n, r), le(ZERO, start), lt(start, n), tnot(ex(start)), le(k, sub(n, F.ne)))
    met = [0]

    def impl(eng, node, s, env, n_, start_, test):
        # the selection itself is reached: nothing was rejected
        ids = F.lists(s)
        if ids and n_ is not None:
            return [(s, ('raise', ExcV('Reached')))]
        return None
    E.hooks['loop'] = impl
    before = st.fork()
    for s, v in list(E.call(st, f, [B, k, start], {'exclude': arg, 'extra_steps': steps})):
        if not s.ctx.consistent():
            continue
        e = v.exc.cls if isinstance(v, RaiseV) and isinstance(v.exc, ExcV) else None
        e = getattr(e, 'name', e)
        if e == 'ValueError':
            # all samples excluded: then the start is one of them (section "counting": ne <= n - 1 otherwise)
            S.ob('rejected only if the request cannot be met', s.ctx, tnot(meets))
        else:
            met[0] += 1
            S.fact('outcome', e == 'Reached', repr(v))
            c = s.ctx.extend(implies(tand(rng((start, n)), tnot(ex(start))), le(ZERO, sub(sub(n, F.ne), ONE))))
            S.ob('accepted only if the request can be met', c, meets)
            only_changes(S, E, 'request', before, s, None)
    S.fact('an admissible request is accepted', met[0] > 0)
    E.obligations = []


def nothing(S):
    """no component: nothing is selected"""
    F, st, A, arg = setup(S, 'array', False)
    E = F.E
    before = st.fork()
    f = E.func(MOD, 'furthest_sum')
    for s, v in S.outcomes(E, list(E.call(st, f, [A, 0, start], {'exclude': arg, 'extra_steps': steps})), 'no component', raises=('ValueError',)):
        from dv.npm import shape_of
        ok = isinstance(v, ListRef) and getattr(s.lists[v.id], 'items', None) == [] or isinstance(v, Arr) and v.shape[0] is ZERO
        S.fact('no component: empty selection', ok, repr(v))
        only_changes(S, E, 'no component', before, s, None)
    S.definedness(E)


def verify(S):
    S.section('counting', counting)
    for x in EXCL:
        S.section('selection (exclude: %s)' % x, furthest, x)
        S.section('rejection (exclude: %s)' % x, rejected, x)
    S.section('no component', nothing)
