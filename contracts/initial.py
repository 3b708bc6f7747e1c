"""Contracts of the helpers the initialisers use."""
from contracts.base import *
from contracts.models import stoch_fn, single


def c_stochastic(axis):
    """left_/right_stochastic_matrix: proved in C02 (for draws that are not all zero)."""
    def h(eng, st, f, args, kw):
        d = eng.bind_args(st, f, args, kw)
        if isinstance(d, RaiseV):
            yield st, d
            return
        from dv import npm, lib
        sh = tuple(num(x) for x in npm.shape_of(st, d['shape']))
        if len(sh) != 2:
            raise Unsupported('stochastic matrix of %d dimensions' % len(sh))
        rs = d.get('random_state')
        if isinstance(rs, ObjRef):
            lib.draw(eng, st, rs, 'stochastic')
        else:
            st.event('draw', 'global' if rs is None else ('seed', rs), 'stochastic')
        eng.oblige(st, tand(*[le(ONE, x) for x in sh]), 'stochastic matrix: non-empty shape', 'pre')
        nm = tm.fresh_name('rstoch' if axis else 'lstoch')
        stoch_fn(nm, sh, axis)
        yield st, st.alloc(sh, lambda i: ONE if single(sh, axis) else app(nm, *i), 'f', note=nm)
    return h


def c_furthest_sum(record=None):
    """furthest_sum (C03): distinct, in range, none excluded; ValueError for inadmissible requests."""
    def h(eng, st, f, args, kw):
        d = eng.bind_args(st, f, args, kw)
        if isinstance(d, RaiseV):
            yield st, d
            return
        M, kk, start, excl = d['dissimilarity_matrix'], d['n_components'], d['start_index'], d.get('exclude')
        kk = kk if isinstance(kk, T) else num(kk)
        if not isinstance(M, Arr):
            raise Unsupported('furthest_sum of %r' % (M,))
        if record:
            record(eng, st, d)
        # rejected exactly when the request cannot be met
        start = start if isinstance(start, T) else num(start)
        ne_ = ZERO if excl is None else excl.shape[0] if isinstance(excl, Arr) and len(excl.shape) == 1 else None
        if ne_ is None:
            raise Unsupported('furthest_sum with exclude %r' % (excl,))
        q = tm.fresh_var('q')
        meets = tand(eq(M.shape[0], M.shape[1]), le(ZERO, start), lt(start, M.shape[0]), le(kk, sub(M.shape[0], ne_)),
                     tm.forall([q], implies(rng((q, ne_)), ne(st.fn_of(excl)((q,)), start))) if isinstance(excl, Arr) and ne_ is not ZERO else TRUE)
        if not st.ctx.proves(meets):
            bad = st.fork()
            bad.decide(tnot(meets))
            if bad.ctx.consistent():
                yield bad, RaiseV(ExcV('ValueError'))
            st.decide(meets)
        nm = tm.fresh_name('fsel')
        F = tm.fn(nm, 1, 'I', (kk,))
        N = M.shape[0]
        F.facts.append(lambda i: implies(tand(le(ZERO, i), lt(i, kk)), tand(le(ZERO, app(nm, i)), lt(app(nm, i), N))))
        F.fsel = d
        p, q = tm.fresh_var('q'), tm.fresh_var('q')
        st.assume(tm.forall([p, q], implies(tand(le(ZERO, p), lt(p, q), lt(q, kk)), ne(app(nm, p), app(nm, q)))))
        if isinstance(excl, Arr):
            ef = st.fn_of(excl)
            st.assume(tm.forall([p, q], implies(tand(le(ZERO, p), lt(p, kk), le(ZERO, q), lt(q, excl.shape[0])), ne(app(nm, p), ef((q,))))))
        st.event('furthest_sum', nm)
        yield st, st.alloc((kk,), lambda i: app(nm, *i), 'i', note=nm)
    return h


def install(E, record=None):
    c = E.contracts
    c['reor._random_matrix.right_stochastic_matrix'] = c_stochastic(1)
    c['reor._random_matrix.left_stochastic_matrix'] = c_stochastic(0)
    c['reor.furthest_sum.furthest_sum'] = c_furthest_sum(record)
