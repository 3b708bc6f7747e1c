"""Transform: the fitted dictionary, order weights, transition matrices or centroids stay exactly as
fitted, the weights are optimised against them on the data passed; reconstruction."""
from contracts import aa, fembv, gpnh, initial, mtd
from contracts.convex import *

OLD = var('n0')     # samples of the data the model was fitted to


def fitted(m, st, o, src):
    """The object after an earlier fit or transform of other data: every array arbitrary (of the
    shape it has after a run on n0 samples), the factors as the class invariant says."""
    a = attrs(st, o)
    for k_, v in src.items():
        if isinstance(v, Arr) and (k_ in m.factors or not isinstance(a.get(k_), Arr)):
            sh = tuple(tm.subst(x, {'n': OLD}) if m.resize else x for x in v.shape)
            if k_ in m.factors and m.factors[k_][1] is not None:
                a[k_] = stoch_array(st, sh, tm.fresh_name('fit.' + k_), m.factors[k_][1])
            else:
                a[k_] = st.alloc_fn(sh, tm.fresh_name('fit.' + k_), st_dtype(m, v))
        elif k_ not in a or a[k_] is None:
            a[k_] = v if not isinstance(v, (ListRef, ObjRef)) else a.get(k_)
    if m.result_attr:
        a['dictionary_'] = a[m.dict_attr]
    a['n_components_'] = m.k
    return st


def st_dtype(m, v):
    return m.st0.heap[v.buf].dtype


def keep(m):
    """what transform must leave alone"""
    return [q for q in m.factors if q != m.weights_attr]


def transforms(S, build, init):
    m = build(S)
    E = m.E
    started = []

    def at_iterate(eng, st, d):
        st.event('started', len(started))
        started.append((st.fork(), d))
    E.contracts[m.q('_iterate')] = c_iterate(m, at_iterate)
    install_cost(m, True)
    initial.install(E)
    st = E.fresh_state()
    for f in m.base_facts:
        st.assume(f)
    st.assume(le(ONE, OLD))
    m.prepare(st)
    s0, o = fresh_fit(S, m, st, init, None, None)
    old, m.o = m.o, o
    lab = 'transform (fit with init=%r)' % init
    try:
        fitted(m, s0, o, attrs(m.st0, old))
        given = caller_arrays(m, s0, init)
        args = [given[x] for x in m.data_args]
        before = s0.fork()
        ref = {q: fn1(before, attrs(before, o)[q]) for q in keep(m)}
        outs = S.outcomes(E, m.run(s0, 'transform', args), lab)
        for s, v in outs:
            ev = [x for x in s.events() if x[0] == 'started']
            S.fact('%s: one optimisation' % lab, len(ev) == 1, repr(ev))
        for st1, d_ in started:
            fl = {u: d_.get('update_' + u[len('_update_'):]) for u in m.updates}
            S.fact('%s: optimises the weights' % lab, fl.get('_update_weights') in (None, True), repr(fl))
            for q in keep(m):
                same_as(S, m, st1, q, ref[q], '%s: the optimisation starts from the fitted %s' % (lab, q))
        for s, v in outs:
            for q in keep(m):
                same_as(S, m, s, q, ref[q], '%s: %s as fitted' % (lab, q))
            if m.result_attr:
                x, y = attrs(s, o).get('dictionary_'), attrs(before, o)['dictionary_']
                ok = isinstance(x, Arr) and len(x.shape) == len(y.shape)
                S.fact('%s: dictionary_ is kept' % lab, ok, repr(x))
                if ok:
                    idx = [tm.fresh_var('ix') for _ in y.shape]
                    S.ob('%s: dictionary_ as fitted' % lab, s.ctx.extend(rng(*zip(idx, y.shape))),
                         tand(*([eq(p, q) for p, q in zip(x.shape, y.shape)] + [eq(s.cell(x, idx), before.cell(y, idx))])))
            same_content(S, m, s, v, m.weights_attr, '%s: returns the optimised weights' % lab)
            fitted_data(S, m, lab, given, before, s)
    finally:
        m.o = old
    only(E, 'pre')
    S.definedness(E)


def same_as(S, m, s, q, f, label):
    arr = attrs(s, m.o).get(q)
    sh = m.factors[q][0]
    if not isinstance(arr, Arr) or len(arr.shape) != len(sh):
        S.fact(label, False, repr(arr))
        return
    idx = [tm.fresh_var('ix') for _ in sh]
    S.ob(label, s.ctx.extend(rng(*zip(idx, sh))), tand(*([eq(x, y) for x, y in zip(arr.shape, sh)] + [eq(s.cell(arr, idx), f(*idx))])))


def reconstruct(S, build):
    """inverse_transform: weights times dictionary"""
    m = build(S)
    st = m.havoc()
    w = st.alloc_fn((var('m'), m.k), 'in.w', 'f', origin='caller')
    st.assume(le(ONE, var('m')))
    before = st.fork()
    D = m.content(before, m.dict_attr)
    for s, v in S.outcomes(m.E, m.run(st, 'inverse_transform', [w]), 'inverse_transform'):
        ok = isinstance(v, Arr) and len(v.shape) == 2
        S.fact('inverse_transform returns a matrix', ok, repr(v))
        if ok:
            sh = (var('m'), m.factors[m.dict_attr][0][1])
            i, j = tm.fresh_var('i'), tm.fresh_var('j')
            S.ob('inverse_transform: shape', s.ctx, tand(eq(v.shape[0], sh[0]), eq(v.shape[1], sh[1])))
            S.ob('inverse_transform: weights times dictionary', s.ctx.extend(rng((i, sh[0]), (j, sh[1]))),
                 eq(fn1(s, v)(i, j), mksum(0, m.k, lambda l: mul(app('in.w', i, l), D(l, j)))))
        only_changes(S, m.E, 'inverse_transform', before, s, m.o)
    only(m.E, 'pre')
    S.definedness(m.E)


def of(mod, *a, **k):
    def build(S):
        m = mod.model(S, *a, **k)
        m.resize, m.result_attr = mod is not aa, True
        m.prepare = lambda st: st.assume(lt(m.ml, OLD)) if hasattr(m, 'ml') else None
        return m
    return build


def of_kmeans(one):
    def build(S):
        m = fembv.kmeans(S, one)
        m.given = {'X': ((fembv.n, fembv.d), None)}
        m.data_args, m.kwname = ['X'], {}
        m.weights_attr, m.dict_attr = 'Gamma', 'Theta'
        m.opts = {}
        m.resize, m.result_attr = True, False
        m.prepare = lambda st: None
        m.E.contracts[fembv.BASE + '._initialize_constraints'] = fembv.c_constraints
        return m
    return build


def verify(S):
    for mod, nm0, cases in ((aa, 'AA', aa.CASES), (gpnh, 'GPNH', mtd.CASES), (mtd, 'MTD', mtd.CASES)):
        for nm, c in cases:
            for cls in ('KernelAA', 'ArchetypalAnalysis') if mod is aa else (None,):
                b = of(mod, c, cls=cls) if cls else of(mod, c)
                S.warm(b)
                for i in (None, 'random', 'furthest_sum', 'custom'):
                    S.section('%s transform (%s, init=%r)' % (cls or nm0, nm, i), transforms, b, i)
                S.section('%s reconstruction (%s)' % (cls or nm0, nm), reconstruct, b)
    for nm, one in (('two or more clusters', False), ('one cluster', True)):
        b = of_kmeans(one)
        S.warm(b)
        for i in (None, 'random', 'custom'):
            S.section('FEMBVKMeans transform (%s, init=%r)' % (nm, i), transforms, b, i)
