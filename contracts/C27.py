"""Initial guesses follow the requested initialisation; all randomness comes from the given state."""
from contracts.begin import *
from contracts import crom
from contracts.C26 import valid_guesses
from contracts.convex import fit_settings
from dv.prover import prove

STOCHASTIC = {'weights': 1, 'order_weights': 0, 'transition_matrices': 1}


def start_run(S, K, st_facts=()):
    R = Run(S, K)
    initial.install(R.E, lambda eng, st, d: st.event('selection', dict(d)))
    return R


def draws(S, lab, s, source):
    ev = [e for e in flat_events(s.events()) if e[0] == 'draw']
    S.fact('%s: randomness comes from the given random state only' % lab, all(source(e[1]) for e in ev), repr(ev))
    return ev


def iterated(S, lab, R, outs):
    """states at the first iteration"""
    fs = R.feasible(outs)
    S.fact('%s: has an outcome' % lab, bool(fs))
    for s, v, o in fs:
        ok = exception(v) == 'Iterated' and o is not None
        S.fact('%s: reaches the first iteration' % lab, ok, 'outcome %r under %s' % (v, [str(p)[:200] for p in s.path]))
        if ok:
            yield s, o


def stochastic(S, lab, s, arr, shape, axis):
    ok = isinstance(arr, Arr) and len(arr.shape) == len(shape)
    S.fact('%s: is set' % lab, ok, repr(arr))
    if not ok:
        return
    S.ob('%s: shape' % lab, s.ctx, tand(*[eq(x, y) for x, y in zip(arr.shape, shape)]))
    idx = [tm.fresh_var('ix') for _ in shape]
    ctx = s.ctx.extend(rng(*zip(idx, shape)))
    S.ob('%s: not negative' % lab, ctx, le(ZERO, s.cell(arr, idx)))
    S.ob('%s: sums are one' % lab, ctx, eq(mksum(0, shape[axis], lambda q: s.cell(arr, idx[:axis] + [q] + idx[axis + 1:])), ONE))


def equals(S, lab, s, arr, given, before):
    ok = isinstance(arr, Arr) and len(arr.shape) == len(given.shape)
    S.fact('%s: is set' % lab, ok, repr(arr))
    if ok:
        idx = [tm.fresh_var('ix') for _ in given.shape]
        S.ob('%s: exactly the given values' % lab, s.ctx.extend(rng(*zip(idx, given.shape))),
             tand(*([eq(x, y) for x, y in zip(arr.shape, given.shape)] + [eq(s.cell(arr, idx), before.cell(given, idx))])))


def sources(st):
    seed = var('seed')
    return [('random state', {'random_state': st.newobj('Rng', {'which': 'given'})}, lambda w: w == 'given'),
            ('seed', {'random_state': seed}, lambda w: isinstance(w, tuple) and w[1] is seed)]


def random_start(S, K, init, entry):
    R = start_run(S, K)
    for how, over, src in sources(R.st):
        st = R.st.fork()
        lab = 'init=%r (%s)' % (init, how)
        st.assume(le(ZERO, var('seed')))
        for s, o in iterated(S, lab, R, R.fit(st, entry, k, R.options(st, init, **over), [R.data(st)], {})):
            S.fact('%s: draws' % lab, bool(draws(S, lab, s, src)))
            for q, (a, sh, ax) in K.guesses.items():
                if q in STOCHASTIC or ax is not None:
                    stochastic(S, '%s: %s' % (lab, q), s, attrs(s, o).get(a), R.shape(q), ax)
    squares(S, R, K)


def custom_start(S, K, entry, names):
    """the guesses named are given; the other factors (FEM-BV) are initialised at random"""
    R = start_run(S, K)
    st = R.st.fork()
    kw = {q: v for q, v in valid_guesses(R, st, K).items() if q in names}
    lab = 'custom start (%s)' % ', '.join(names)
    opts = R.options(st, 'custom')
    data = [R.data(st)]
    before = st.fork()
    for s, o in iterated(S, lab, R, R.fit(st, entry, k, opts, data, kw)):
        draws(S, lab, s, lambda w: w == 'given')
        for q in names:
            equals(S, '%s: %s' % (lab, q), s, attrs(s, o).get(K.guesses[q][0]), kw[q], before)
        for q, (a, sh, ax) in K.guesses.items():
            if q not in names and ax is not None:
                stochastic(S, '%s: %s' % (lab, q), s, attrs(s, o).get(a), R.shape(q), ax)
    R.E.obligations = []


def fixed_start(S, K, init, fixed):
    """factors that are held fixed are the given ones"""
    R = start_run(S, K)
    st = R.st.fork()
    need = {'dictionary': ('dictionary',), 'weights': ('weights',), 'parameters': ('order_weights', 'transition_matrices')}[fixed]
    kw = {q: v for q, v in valid_guesses(R, st, K).items() if q in need}
    lab = 'init=%r, %s fixed' % (init, fixed)
    opts = R.options(st, init)
    data = [R.data(st)]
    before = st.fork()
    given = dict(kw)
    kw['update_' + fixed] = False
    for s, o in iterated(S, lab, R, R.fit(st, 'fit_transform', k, opts, data, kw)):
        draws(S, lab, s, lambda w: w == 'given')
        for q in need:
            equals(S, '%s: %s' % (lab, q), s, attrs(s, o).get(K.guesses[q][0]), given[q], before)
        for q, (a, sh, ax) in K.guesses.items():
            if q not in need and (q in STOCHASTIC or ax is not None):
                stochastic(S, '%s: %s' % (lab, q), s, attrs(s, o).get(a), R.shape(q), ax)
    squares(S, R, K)


def selection(S, K, init, entry):
    """furthest-sum start: the dictionary consists of the selected samples; options are passed on"""
    R = start_run(S, K)
    E, st0 = R.E, R.st
    s_, x_, c_ = var('start'), var('steps'), var('nexcl')
    tm.fn('in.excl', 1, 'I', (c_,))
    for how, opts in (('defaults', ()), ('start index', ('start_index',)), ('steps', ('n_extra_steps',)), ('start index and exclusions', ('start_index', 'exclude')),
                      ('every option', ('start_index', 'exclude', 'n_extra_steps'))):
        st = st0.fork()
        kw = {}
        if 'start_index' in opts:
            st.assume(tand(le(ZERO, s_), lt(s_, n)))
            kw['start_index'] = s_
        if 'n_extra_steps' in opts:
            st.assume(le(ZERO, x_))
            kw['n_extra_steps'] = x_
        if 'exclude' in opts:
            q = tm.fresh_var('q')
            st.assume(tand(le(ZERO, c_), le(add(k, c_), n), tm.forall([q], implies(rng((q, c_)), ne(app('in.excl', q), s_)))))
            kw['exclude'] = st.alloc((c_,), lambda i: app('in.excl', *i), 'i', origin='caller', note='in.excl')
        lab = 'init=%r (%s)' % (init, how)
        data = R.data(st)
        o_ = R.options(st, init)
        before = st.fork()
        for s, o in iterated(S, lab, R, R.fit(st, entry, k, o_, [data], kw)):
            draws(S, lab, s, lambda w: w == 'given')
            sel = [e for e in s.events() if e[0] == 'selection']
            nm = [e[1] for e in s.events() if e[0] == 'furthest_sum']
            if not sel:
                raise Unsupported('furthest-sum start without furthest_sum')
            S.fact('%s: one selection' % lab, len(sel) == 1 and len(nm) == 1, repr(sel))
            d_, sel = sel[0][1], lambda i: app(nm[0], i)
            num_ = lambda v: v if isinstance(v, T) else num(v)
            S.ob('%s: one sample per component is selected' % lab, s.ctx, eq(num_(d_['n_components']), k))
            if 'start_index' in opts:
                S.ob('%s: the start index is the one requested' % lab, s.ctx, eq(num_(d_['start_index']), s_))
            if 'n_extra_steps' in opts:
                S.ob('%s: the refinement steps are those requested' % lab, s.ctx, eq(num_(d_['extra_steps']), x_))
            ex = d_.get('exclude')
            if 'exclude' in opts:
                ok = isinstance(ex, Arr) and len(ex.shape) == 1
                S.fact('%s: exclusions are passed on' % lab, ok, repr(ex))
                if ok:
                    q = tm.fresh_var('q')
                    S.ob('%s: the exclusions are those requested' % lab, s.ctx.extend(rng((q, c_))), tand(eq(ex.shape[0], c_), eq(s.cell(ex, (q,)), app('in.excl', q))))
            else:
                S.fact('%s: no exclusions' % lab, ex is None or isinstance(ex, Arr) and s.ctx.proves(eq(ex.shape[0], ZERO)), repr(ex))
            a, b, j = tm.fresh_var('a'), tm.fresh_var('b'), tm.fresh_var('j')
            f = fn1(before, data)
            if K.kernel:
                want = tm.sqrt(sub(add(f(a, a), f(b, b)), mul(num(2), f(a, b))))
            else:
                want = tm.sqrt(mksum(0, d, lambda c: power(sub(f(a, c), f(b, c)), 2)))
            M = d_['dissimilarity_matrix']
            S.ob('%s: dissimilarities are the Euclidean distances' % lab, s.ctx.extend(rng((a, n), (b, n))),
                 tand(eq(M.shape[0], n), eq(M.shape[1], n), distances(s, M, a, b, want)))
            at, sh, ax = K.guesses['dictionary']
            D = attrs(s, o).get(at)
            ok = isinstance(D, Arr) and len(D.shape) == 2
            S.fact('%s: dictionary is set' % lab, ok, repr(D))
            if ok:
                ctx = s.ctx.extend(rng((a, k), (j, sh[1])))
                row = ite(eq(j, sel(a)), ONE, ZERO) if sh[1] is n else f(sel(a), j)
                S.ob('%s: every dictionary element is a selected sample' % lab, ctx, tand(eq(D.shape[0], k), eq(D.shape[1], sh[1]), eq(s.cell(D, (a, j)), row)))
            for q, (at, sh, ax) in K.guesses.items():
                if q != 'dictionary' and ax is not None:
                    stochastic(S, '%s: %s' % (lab, q), s, attrs(s, o).get(at), R.shape(q), ax)
    squares(S, R, K)


def distances(s, M, a, b, want):
    """equal square roots: equal arguments"""
    x = s.cell(M, (a, b))
    if x.op == 'sqrt' and want.op == 'sqrt':
        return eq(x.args[0], want.args[0])
    return eq(x, want)


def squares(S, R, K):
    """the only roots taken are of squared distances (kernels: of what is one in a feature space)"""
    obs, R.E.obligations = R.E.obligations, []
    for o in obs:
        if 'sqrt' not in o.label:
            continue
        arg = [x for x in tm.subterms(o.goal) if x.op in ('le', 'lt') and x.args[0] is ZERO]
        c = Ctx(o.pc)
        if prove(c, o.goal):
            S.ob('%s' % o.label, c, o.goal, where='%s:%s' % o.where)
            continue
        if K.kernel:
            continue
        vs = sorted({v for v in tm.fv(o.goal) if v.startswith('d~')})
        g = [x for x in o.goal.args if x.op == 'le'] if o.goal.op == 'or' else [o.goal]
        pairs = [(p, q) for p in vs for q in vs if p < q]
        if len(g) == 1 and len(pairs) == 1:
            p, q = [var(v) for v in pairs[0]]
            sq = mksum(0, d, lambda l: power(sub(app('in.X', p, l), app('in.X', q, l)), 2))
            S.ob('%s: argument is a squared distance' % o.label, c.extend(rng((p, n), (q, n))), eq(g[0].args[1], sq), where='%s:%s' % o.where)
        else:
            S.ob('%s' % o.label, c, o.goal, where='%s:%s' % o.where)


def unknown(S, K, entry):
    R = start_run(S, K)
    for nm in ('bogus', 'Random', 'kmeans', '', 'furthest-sum') + (('furthest_sum',) if K.tv else ()):
        st = R.st.fork()
        fs = R.feasible(R.fit(st, entry, k, R.options(st, nm), [R.data(st)], {}))
        S.fact('init=%r: has an outcome' % nm, bool(fs))
        for s, v, o in fs:
            it = [e for e in s.events() if e[0] == 'iteration']
            S.fact('init=%r: rejected with ValueError' % nm, exception(v) == 'ValueError' and not it, repr(v))
    R.E.obligations = []


def crom_start(S, one):
    """Markov parameters of the CROM: simplex order weights and column-stochastic matrices"""
    m = crom.model(S, one)
    E = m.E
    initial.install(E)
    st = m.pre_init.fork()
    fit_settings(m, st)
    r = attrs(st, m.o)['random_state'] = st.newobj('Rng', {'which': 'given'})
    for q in m.factors:
        attrs(st, m.o)[q] = POISON if q != 'transition_matrices' else None
    seen = []

    def stop(eng, s, f, args, kw):
        s.event('update')
        yield s, RaiseV(ExcV('Iterated'))
    E.contracts[m.q('_update_parameters')] = stop

    def loop(eng, node, s, env, n_, start_, test):
        from dv.loops import Loop
        eng.quiet += 1
        try:
            it = any(g is not None and g[0] == 'raise' and any(e[0] == 'update' for e in s2.events())
                     for s2, g in Loop(eng, node, s, env, n_, start_, test).body(s.fork(), ZERO))
        finally:
            eng.quiet -= 1
        if not it:
            return None
        seen.append(s.fork())
        return [(s, ('raise', ExcV('Iterated')))]
    E.hooks['loop'] = loop
    try:
        list(m.run(st, '_fit_parameters'))
    finally:
        E.hooks.pop('loop', None)
    S.fact('_fit_parameters: starts to iterate', bool(seen))
    for s in seen:
        draws(S, '_fit_parameters', s, lambda w: w == 'given')
        for q, (sh, ax) in m.factors.items():
            stochastic(S, '_fit_parameters: %s' % q, s, attrs(s, m.o).get(q), sh, ax)
    E.obligations = []


def verify(S):
    for K in ALL:
        for entry in ('fit', 'fit_transform'):
            for init in ('random',) + ((None,) if K.all_ != 'samples' else ()):
                S.section('%s: random start (%s, init=%r)' % (K, entry, init), random_start, K, init, entry)
            if not K.tv:
                for init in ('furthest_sum',) + ((None,) if K.all_ == 'samples' else ()):
                    S.section('%s: furthest-sum start (%s, init=%r)' % (K, entry, init), selection, K, init, entry)
            S.section('%s: custom start (%s)' % (K, entry), custom_start, K, entry, tuple(K.guesses))
            S.section('%s: unknown initialisation (%s)' % (K, entry), unknown, K, entry)
        if K.tv:
            for q in K.guesses:
                if len(K.guesses) > 1:
                    S.section('%s: custom start, only %s' % (K, q), custom_start, K, 'fit_transform', (q,))
        for f in K.flags:
            for init in ('random', 'furthest_sum'):
                S.section('%s: %s fixed (init=%r)' % (K, f, init), fixed_start, K, init, f)
    for nm, one in crom.CASES:
        S.section('GPNH CROM: Markov parameters (%s)' % nm, crom_start, one)
