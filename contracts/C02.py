"""Random stochastic matrices: shape, non-negative entries, unit sums, one source of randomness."""
from contracts.base import *

MOD = 'reor._random_matrix'
n, m = var('n'), var('m')


def check(S, E, lab, st, axis, outs, source):
    before = st
    for s, v in S.outcomes(E, outs, lab):
        if not isinstance(v, Arr) or len(v.shape) != 2:
            S.fact('%s: returns a matrix' % lab, False, repr(v))
            continue
        S.ob('%s: the requested shape' % lab, s.ctx, tand(eq(v.shape[0], n), eq(v.shape[1], m)))
        f = fn1(s, v)
        i, j = tm.fresh_var('i'), tm.fresh_var('j')
        S.ob('%s: entries are not negative' % lab, s.ctx.extend(rng((i, n), (j, m))), le(ZERO, f(i, j)))
        if axis == 0:
            S.ob('%s: columns sum to one' % lab, s.ctx.extend(rng((j, m))), eq(mksum(0, n, lambda p: f(p, j)), ONE))
        else:
            S.ob('%s: rows sum to one' % lab, s.ctx.extend(rng((i, n))), eq(mksum(0, m, lambda p: f(i, p)), ONE))
        ev = [e for e in flat_events(s.events()) if e[0] == 'draw']
        S.fact('%s: draws from the given random state only' % lab, bool(ev) and all(source(e[1]) for e in ev), repr(ev))
        free = tm.fnames(s.heap[v.buf].body) - {b.note for b in s.heap.values() if isinstance(b.note, str)}
        S.fact('%s: entries depend on the draws only' % lab, not free, repr(free))
        only_changes(S, E, lab, before, s, None)


def generator(S, name, axis):
    E = S.engine()
    f = E.func(MOD, name)
    seed = var('seed')
    for how, kw in (('random state', None), ('seed', {'random_state': seed}), ('unset', {}), ('None', {'random_state': None})):
        st = E.fresh_state()
        st.assume(tand(le(ONE, n), le(ONE, m), le(ZERO, seed)))
        if kw is None:
            r = st.newobj('Rng', {'which': 'given'})
            kw, src = {'random_state': r}, lambda w: w == 'given'
        elif kw.get('random_state') is None:
            src = lambda w: w == 'global'
        else:
            src = lambda w: isinstance(w, tuple) and w[1] is seed
        for sh, a in (('tuple', (n, m)), ('list', None)):
            st1 = st.fork()
            a = a or st1.newlist([n, m])
            b = st1.fork()
            check(S, E, '%s of a %s (%s)' % (name, sh, how), b, axis, list(E.call(st1, f, [a], kw)), src)
    S.definedness(E)


def verify(S):
    S.section('left stochastic', generator, 'left_stochastic_matrix', 0)
    S.section('right stochastic', generator, 'right_stochastic_matrix', 1)
