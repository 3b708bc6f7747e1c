"""Invalid settings and initial guesses are rejected before any iteration; valid ones never are."""
from contracts.begin import *

SMALL, BIG = num('1/10000000000'), num('1/1000')
FOREIGN = Opaque('foreign')


def bad_settings():
    z, zn, x = var('z'), var('npint.z'), var('x', 'R')
    neg, negi = var('neg', 'R'), var('negi')
    comp = [('an integer below one', z, le(z, ZERO)), ('a numpy integer below one', zn, le(zn, ZERO)), ('a real number', x, TRUE),
            ('a string', '3', TRUE), ('another value', FOREIGN, TRUE)]
    tol = [('negative', neg, lt(neg, ZERO)), ('a negative integer', negi, lt(negi, ZERO)), ('a string', 'a', TRUE), ('None', None, TRUE), ('another value', FOREIGN, TRUE)]
    return [('components', comp), ('max_iterations', comp + [('None', None, TRUE)]), ('tolerance', tol)]


def valid_guesses(R, st, K):
    kw = {}
    for q, (a, sh, ax) in K.guesses.items():
        kw[q] = guess(st, q, R.shape(q), ax, 'sum.' + q)
        if ax is not None:
            near(st, q, R.shape(q), ax)
    return kw


def near(st, q, sh, ax):
    """all sums are one up to rounding"""
    oth = [s for p, s in enumerate(sh) if p != ax]
    v = [tm.fresh_var('q') for _ in oth]
    g = le(tm.tabs(sub(app('sum.' + q, *(v or (ZERO,))), ONE)), SMALL)
    st.assume(tm.forall(v, implies(rng(*zip(v, oth)), g)) if oth else g)


def given(R, st, K, init, flags):
    if init == 'custom':
        return valid_guesses(R, st, K)
    off = {f[len('update_'):] for f, v in flags.items() if not v}
    need = {'dictionary': ('dictionary',), 'weights': ('weights',), 'parameters': ('order_weights', 'transition_matrices')}
    names = [q for x in off for q in need[x]]
    return {q: v for q, v in valid_guesses(R, st, K).items() if q in names}


def rejected(S, R, outs, lab):
    fs = R.feasible(outs)
    S.fact('%s: has an outcome' % lab, bool(fs))
    for s, v, o in fs:
        it = [e for e in s.events() if e[0] == 'iteration']
        S.fact('%s: rejected with ValueError before any iteration' % lab, exception(v) == 'ValueError' and not it,
               'outcome %r, iterations %r, under %s' % (v, it, [str(p)[:200] for p in s.path]))


def settings(S, K, init, entry):
    R = Run(S, K)
    for what, vals in bad_settings():
        for how, value, fact in vals:
            st = R.st.fork()
            st.assume(fact)
            opts = R.options(st, init, **({what: value} if what != 'components' else {}))
            kw = given(R, st, K, init, {})
            rejected(S, R, R.fit(st, entry, value if what == 'components' else k, opts, [R.data(st)], kw), '%s is %s' % (what, how))
    R.E.obligations = []


def kernel_shape(S, K, init, entry):
    R = Run(S, K)
    st = R.st.fork()
    m = var('m')
    st.assume(tand(le(ONE, m), ne(m, n)))
    A = st.alloc_fn((n, m), 'in.A', 'f', origin='caller')
    rejected(S, R, R.fit(st, entry, k, R.options(st, init), [A], given(R, st, K, init, {})), 'kernel not square')
    R.E.obligations = []


def guesses(S, K, init, entry, flags):
    R = Run(S, K)
    st0 = R.st.fork()
    names = list(given(R, st0.fork(), K, init, flags))
    for q in names:
        a, sh_, ax = K.guesses[q]
        sh = R.shape(q)
        cases = [('wrong shape', len(sh)), ('one dimension more', len(sh) + 1)] + ([('one dimension less', len(sh) - 1)] if len(sh) > 1 else [])
        for how, r in cases:
            st = st0.fork()
            ns = [tm.fresh_var('dim') for _ in range(r)]
            for x in ns:
                st.assume(le(ONE, x))
            if r == len(sh):
                st.assume(tor(*[ne(x, y) for x, y in zip(ns, sh)]))
            opts = R.options(st, init)
            kw = given(R, st, K, init, flags)
            kw[q] = st.alloc_fn(tuple(ns), tm.fresh_name('in.bad'), 'f', origin='caller')
            kw.update(flags)
            rejected(S, R, R.fit(st, entry, k, opts, [R.data(st)], kw), '%s: %s' % (q, how))
        if ax is not None:
            st = st0.fork()
            opts = R.options(st, init)
            kw = given(R, st, K, init, flags)
            nm = tm.fresh_name('badsum')
            kw[q] = guess(st, tm.fresh_name('bad.' + q), sh, ax, nm)
            oth = [s for p, s in enumerate(sh) if p != ax]
            v = [tm.fresh_var('at') for _ in oth]
            st.assume(tand(rng(*zip(v, oth)) if oth else TRUE, le(BIG, tm.tabs(sub(app(nm, *(v or (ZERO,))), ONE)))))
            kw.update(flags)
            rejected(S, R, R.fit(st, entry, k, opts, [R.data(st)], kw), '%s: sums along axis %d are not one' % (q, ax))
    R.E.obligations = []


def accepted(S, K, init, entry, flags):
    R = Run(S, K)
    np1, np2, ti = var('npint.k'), var('npint.mi'), var('ti')
    for how, comp, over in (('plain', k, {}), ('numpy integers', np1, {'max_iterations': np2}), ('integer tolerance', k, {'tolerance': ti}), ('no number of components', None, {})):
        if comp is None and init == 'custom':
            continue
        st = R.st.fork()
        st.assume(tand(eq(np1, k), le(ONE, np2), le(ZERO, ti)))
        want = k
        if comp is None:
            want = n if K.all_ == 'samples' else d
            st.assume(le(want, n))
            st.assume(eq(k, want))
        opts = R.options(st, init, **over)
        kw = given(R, st, K, init, flags)
        kw.update(flags)
        lab = 'valid settings (%s)' % how
        fs = R.feasible(R.fit(st, entry, comp, opts, [R.data(st)], kw))
        S.fact('%s: has an outcome' % lab, bool(fs))
        for s, v, o in fs:
            it = [e for e in s.events() if e[0] == 'iteration']
            S.fact('%s: not rejected' % lab, exception(v) == 'Iterated' and len(it) == 1, 'outcome %r under %s' % (v, [str(p)[:200] for p in s.path]))
            if o is None or exception(v) != 'Iterated':
                continue
            nc = attrs(s, o).get('n_components')
            if not isinstance(nc, (int, T)):
                S.fact('%s: number of components' % lab, False, repr(nc))
                continue
            S.ob('%s: number of components' % lab, s.ctx, eq(nc if isinstance(nc, T) else num(nc), want))
            G = attrs(s, o).get(K.guesses['weights'][0])
            ok = isinstance(G, Arr) and len(G.shape) == 2
            S.fact('%s: weights are set' % lab, ok, repr(G))
            if ok:
                S.ob('%s: one column of weights per component' % lab, s.ctx, eq(G.shape[1], want))
    R.E.obligations = []


def verify(S):
    for K in ALL:
        inits = ['random', 'custom', None] + ([] if K.tv else ['furthest_sum'])
        for init in inits:
            for entry in ('fit', 'fit_transform'):
                if init in ('random', 'custom'):
                    S.section('%s: settings (%s, init=%r)' % (K, entry, init), settings, K, init, entry)
                    if K.kernel:
                        S.section('%s: kernel (%s, init=%r)' % (K, entry, init), kernel_shape, K, init, entry)
                S.section('%s: valid (%s, init=%r)' % (K, entry, init), accepted, K, init, entry, {})
        for entry in ('fit', 'fit_transform'):
            S.section('%s: custom guesses (%s)' % (K, entry), guesses, K, 'custom', entry, {})
        for f in K.flags:
            fl = {'update_' + f: False}
            S.section('%s: guesses with %s fixed' % (K, f), guesses, K, 'random', 'fit_transform', fl)
            S.section('%s: valid with %s fixed' % (K, f), accepted, K, 'random', 'fit_transform', fl)
