"""k-means CROM: transition matrix of the empirical Markov chain, and its iteration."""
from contracts.base import *
from contracts.models import stoch_fn
from dv.prover import prove

MOD = 'reor.crom'
n, d, k = var('n'), var('d'), var('K')


def start(S):
    E = S.engine()
    st = E.fresh_state()
    for f in (le(ONE, n), le(ONE, d), le(ONE, k)):
        st.assume(f)
    return E, st, st.alloc_fn((n, d), 'in.X', 'f', origin='caller')


def visits(lab, b):
    """visits of cluster b other than at the last sample"""
    return mksum(0, sub(n, ONE), lambda t: ite(eq(lab(t), b), ONE, ZERO))


def moves(lab, a, b):
    """those followed by cluster a"""
    return mksum(0, sub(n, ONE), lambda t: ite(tand(eq(lab(add(t, ONE)), a), eq(lab(t), b)), ONE, ZERO))


def divisors(S, how, E, lab, kk):
    """the only divisions are by the visits of a cluster (not zero where the property is stated)"""
    for o in E.obligations:
        c = Ctx(o.pc)
        if 'division' in o.label:
            sums = [x for x in tm.subterms(o.goal) if x.op == 'sum']
            cand = [x for x in tm.subterms(o.goal) if x.sort == 'I' and x.op in ('var', 'num')]
            ok = [b for x in sums for b in cand if c.proves(rng((b, kk))) and prove(c, eq(x, visits(lab, b)))]
            if ok:
                S.ob('%s: the divisor is the visits of a cluster' % how, c.extend(le(ONE, visits(lab, ok[0]))), o.goal, where='%s:%s' % o.where)
                continue
        S.ob('%s: %s' % (how, o.label), c, o.goal, where='%s:%s' % o.where)
    E.obligations = []


def check_matrix(S, lab_, s, labels, M):
    if not isinstance(M, Arr) or len(M.shape) != 2 or not isinstance(labels, Arr):
        S.fact('%s: a matrix and labels' % lab_, False, repr((labels, M)))
        return
    lab, T = fn1(s, labels), fn1(s, M)
    S.ob('%s: one row and column per cluster' % lab_, s.ctx, tand(eq(M.shape[0], k), eq(M.shape[1], k)))
    a, b = tm.fresh_var('a'), tm.fresh_var('b')
    ctx = s.ctx.extend(rng((a, k), (b, k)), le(ONE, visits(lab, b)))
    S.ob('%s: entry (a, b) times the visits to b is the number of visits to b followed by a' % lab_, ctx,
         eq(mul(T(a, b), visits(lab, b)), moves(lab, a, b)))
    S.ob('%s: entries are not negative' % lab_, ctx, le(ZERO, T(a, b)))
    S.ob('%s: columns sum to one' % lab_, s.ctx.extend(rng((b, k)), le(ONE, visits(lab, b))), eq(mksum(0, k, lambda i: T(i, b)), ONE))


def matrix(S):
    E, st, X = start(S)
    f = E.func(MOD, 'kmeans_markov_crom')
    for how, args, kw, kk in (('n_clusters', [X, k], {}, k), ('default', [X], {}, num(2)), ('weights', [X], {'n_clusters': k, 'sample_weight': 'w'}, k)):
        s0 = st.fork()
        if kw.get('sample_weight'):
            kw = dict(kw, sample_weight=s0.alloc_fn((n,), 'in.w', 'f', origin='caller'))
        before = s0.fork()
        for s, v in S.outcomes(E, list(E.call(s0, f, args, kw)), how):
            if not (isinstance(v, tuple) and len(v) == 2):
                S.fact('%s: returns the clustering and the matrix' % how, False, repr(v))
                continue
            km, M = v
            fits = [e for e in s.events() if e[0] == 'kmeans.fit']
            S.fact('%s: clusters the data passed, with the sample weights passed' % how,
                   len(fits) == 1 and same(fits[0][2], X) and same(fits[0][3], kw.get('sample_weight')), repr(fits))
            labels = attrs(s, km).get('labels_')
            ctr = attrs(s, km).get('cluster_centers_')
            S.ob('%s: number of clusters' % how, s.ctx, eq(ctr.shape[0], kk))
            s.assume(eq(k, kk))
            check_matrix(S, how, s, labels, M)
            divisors(S, how, E, fn1(s, labels), kk)
            only_changes(S, E, how, before, s, None)


def fitted(S):
    """fit stores what kmeans_markov_crom returned"""
    E, st, X = start(S)
    C = E.func(MOD, 'KMeansMarkovCROM')
    s0, o = list(E.call(st, C, [k], {}))[0]

    def h(eng, st, f, args, kw):
        b = eng.bind_args(st, f, args, kw)
        eng.oblige(st, eq(b['n_clusters'], k) if isinstance(b['n_clusters'], (T, int)) else FALSE, 'the requested number of clusters is fitted', 'pre')
        st.event('crom', b['X'], b['sample_weight'])
        from dv import lib
        km = lib._kmeans(eng, st, None, [k], {})
        lib._efit(eng, st, Builtin('x', bound=km).bound, [b['X']], {})
        M = st.alloc_fn((k, k), tm.fresh_name('P'), 'f')
        st.event('made', km, M)
        yield st, (km, M)
    E.contracts[MOD + '.kmeans_markov_crom'] = h
    for entry in ('fit', 'fit_predict', 'fit_transform'):
        w = s0.alloc_fn((n,), 'in.w', 'f', origin='caller')
        for kw in ({}, {'sample_weight': w}):
            b = s0.fork()
            before = b.fork()
            for s, v in S.outcomes(E, list(E.call(b, E.getattr(b, o, entry), [X], kw)), entry):
                only_changes(S, E, '%s%s' % (entry, ' with weights' if kw else ''), before, s, o, ('cluster_centers_', 'labels_', 'inertia_', 'n_iter_', 'transition_matrix_', 'kmeans_'))
                ev = [e for e in s.events() if e[0] in ('crom', 'made')]
                S.fact('%s: fits the data passed, once, with the weights passed' % entry, len(ev) == 2 and same(ev[0][1], X) and same(ev[0][2], kw.get('sample_weight')), repr(ev))
                if len(ev) != 2:
                    continue
                km, M = ev[1][1:]
                a, c = attrs(s, o), attrs(s, km)
                for x in ('cluster_centers_', 'labels_', 'inertia_', 'n_iter_'):
                    S.fact('%s: %s is that of the clustering' % (entry, x), x in a and same(a[x], c[x]), repr(a.get(x)))
                S.fact('%s: transition_matrix_ is the matrix estimated' % entry, same(a.get('transition_matrix_'), M), repr(a.get('transition_matrix_')))
                S.fact('%s: what it returns' % entry, same(v, o) if entry == 'fit' else same(v, c['labels_']) if entry == 'fit_predict'
                       else isinstance(v, Opaque) and v.what == 'est.transform' and same(v.data[0], km) and same(v.data[1], X), repr(v))
    S.definedness(E)
    return E, s0, o


def model_state(S):
    E, st, X = start(S)
    C = E.func(MOD, 'KMeansMarkovCROM')
    st, o = list(E.call(st, C, [k], {}))[0]
    E.contracts.clear()

    def h(eng, st, f, args, kw):
        from dv import lib
        km = lib._kmeans(eng, st, None, [k], {})
        lib._efit(eng, st, km, [X], {})
        stoch_fn('P', (k, k), 0)
        yield st, (km, st.alloc((k, k), lambda i: app('P', *i), 'f', note='P'))
    E.contracts[MOD + '.kmeans_markov_crom'] = h
    outs = list(E.call(st, E.getattr(st, o, 'fit'), [X], {}))
    return E, outs[0][0], o


def predict(S):
    """horizon applications of the fitted matrix to the indicator of each sample's cluster"""
    E, st, o = model_state(S)
    m = var('m')
    st.assume(le(ONE, m))
    Y = st.alloc_fn((m, d), 'in.Y', 'f', origin='caller')
    h = var('h')
    st.assume(le(ZERO, h))
    P = fn1(st, attrs(st, o)['transition_matrix_'])
    for how, args in (('default horizon', [Y]), ('horizon', [Y, None, h])):
        before = st.fork()
        seen = []

        def loop(eng, node, s, env, n_, start_, test):
            """loop contract: the value carried is the distribution; one iteration applies the matrix"""
            return distribution_loop(S, E, o, P, m, seen, eng, node, s, env, n_, start_, test)
        E.hooks['loop'] = loop
        for s, v in S.outcomes(E, list(E.call(st.fork(), E.getattr(st, o, 'predict'), args, {})), how):
            if not isinstance(v, Arr) or len(v.shape) != 2:
                S.fact('%s: returns a matrix' % how, False, repr(v))
                continue
            pr = [e for e in s.events() if e[0] == 'kmeans.predict']
            S.fact('%s: clusters the samples passed with the fitted clustering' % how, len(pr) == 1 and same(pr[0][1], attrs(s, o)['kmeans_']) and same(pr[0][2], Y), repr(pr))
            S.ob('%s: one row per sample' % how, s.ctx, tand(eq(v.shape[0], m), eq(v.shape[1], k)))
            t, j = tm.fresh_var('t'), tm.fresh_var('j')
            lab = label_fn(s)
            if lab is None:
                S.fact('%s: labels come from the clustering' % how, False)
                continue
            ind = lambda t, j: ite(eq(app(lab, t), j), ONE, ZERO)
            ctx = s.ctx.extend(rng((t, m), (j, k)))
            x = fn1(s, v)(t, j)
            steps = [e for e in s.events() if e[0] == 'applied']
            if not steps:
                S.ob('%s: horizon zero is the indicator of the cluster' % how, ctx, tand(eq(x, ind(t, j)), eq(ZERO, h) if len(args) > 1 else TRUE))
            else:
                nm, first, times = steps[0][1:]
                S.ob('%s: starts from the indicator of the cluster' % how, ctx, eq(tm.subst(first, dict(zip(IVN, (t, j)))), ind(t, j)))
                S.ob('%s: the matrix is applied horizon times' % how, s.ctx, eq(times, h))
                S.ob('%s: the result is the last distribution' % how, ctx, eq(x, app(nm, t, j)))
                S.fact('%s: one loop of applications' % how, len(steps) == 1)
            S.ob('%s: probabilities are not negative' % how, ctx, le(ZERO, x))
            S.ob('%s: probabilities sum to one' % how, s.ctx.extend(rng((t, m))), eq(mksum(0, k, lambda i: fn1(s, v)(t, i)), ONE))
            only_changes(S, E, how, before, s, None)
        E.hooks.pop('loop', None)
    S.definedness(E)


def label_fn(s):
    c = [x for b in s.heap.values() for x in [b.note] if isinstance(x, str) and x.startswith('klabel')]
    return c[0] if len(set(c)) == 1 else None


def distribution_loop(S, E, o, P, m, seen, eng, node, st, env, n, start_, test):
    from dv.loops import Loop, modified, get, put
    kk = tm.fresh_var('it')
    L = Loop(eng, node, st, env, n, start_, test)
    # which location carries an array that is replaced in every iteration
    eng.quiet += 1
    try:
        head = st.fork()
        head.assume(L.guard(kk))
        carried = set()
        for s, g in L.body(head.fork(), kk):
            for l in modified(head, s):
                if l[0] == 'env' and isinstance(get(st, l) if l[2] in st.envs[l[1]] else None, Arr) and len(get(st, l).shape) == 2:
                    carried.add(l)
                elif l[0] != 'env' or l[2] in st.envs[l[1]]:
                    return None
    finally:
        eng.quiet -= 1
    if len(carried) != 1 or n is None:
        return None
    l = carried.pop()
    first = get(st, l)
    nm = tm.fresh_name('dist')
    stoch_fn(nm, first.shape, 1)
    head = st.fork()
    head.assume(L.guard(kk))
    arr = head.alloc(first.shape, lambda i: app(nm, *i), 'f', note=nm)
    put(head, l, arr)
    t, j = tm.fresh_var('t'), tm.fresh_var('j')
    body0 = fn1(st, first)
    # the invariant holds at entry
    S.ob('loop: distributions at entry are not negative', st.ctx.extend(rng((t, first.shape[0]), (j, first.shape[1]))), le(ZERO, body0(t, j)))
    S.ob('loop: distributions at entry sum to one', st.ctx.extend(rng((t, first.shape[0]))), eq(mksum(0, first.shape[1], lambda i: body0(t, i)), ONE))
    for s, g in L.body(head, kk):
        if not (g is None or g[0] == 'continue'):
            S.fact('loop: every iteration completes', False, repr(g))
            continue
        new = get(s, l)
        f = fn1(s, new)
        S.ob('loop: the shape stays', s.ctx, tand(*[eq(a, b) for a, b in zip(new.shape, first.shape)]))
        c = s.ctx.extend(rng((t, first.shape[0]), (j, k)))
        S.ob('loop: one iteration applies the fitted matrix once', c, eq(f(t, j), mksum(0, k, lambda i: mul(P(j, i), app(nm, t, i)))))
        S.ob('loop: distributions stay non-negative', c, le(ZERO, f(t, j)))
        S.ob('loop: distributions still sum to one', s.ctx.extend(rng((t, first.shape[0]))), eq(mksum(0, k, lambda i: f(t, i)), ONE))
    out = st.fork()
    fin = tm.fresh_name('dist')
    stoch_fn(fin, first.shape, 1)
    put(out, l, out.alloc(first.shape, lambda i: app(fin, *i), 'f', note=fin))
    out.event('applied', fin, tm.subst(body0(*IV[:2]), {}), n)
    from contracts.models import target
    for x in target(node.target):
        out.envs[env[0]].setdefault(x, POISON)
    return [(out, None)]


def verify(S):
    S.section('transition matrix', matrix)
    S.section('fit', fitted)
    S.section('predict', predict)
