"""FEM-BV k-means: squared distances, weighted means, the reported cost."""
from contracts.fembv import *
from contracts.convex import *


def distances(S, m, lab, st):
    """distance of every sample to every centroid is the squared Euclidean distance"""
    a = attrs(st, m.o)
    D = a.get('distance_matrix')
    ok = isinstance(D, Arr) and len(D.shape) == 2 and isinstance(a.get('Theta'), Arr)
    S.fact('%s: distances are set' % lab, ok, repr(D))
    if not ok:
        return
    X, Th, Df = fn1(st, a['X']), fn1(st, a['Theta']), fn1(st, D)
    t, j = tm.fresh_var('t'), tm.fresh_var('j')
    S.ob('%s: shape of the distances' % lab, st.ctx, tand(eq(D.shape[0], n), eq(D.shape[1], m.k)))
    S.ob('%s: the distance is the squared Euclidean distance to the centroid' % lab, st.ctx.extend(rng((t, n), (j, m.k))),
         eq(Df(t, j), mksum(0, d, lambda c: power(sub(X(t, c), Th(j, c)), 2))))


def evaluate(S, build):
    m = build(S)
    st = m.havoc()
    attrs(st, m.o)['distance_matrix'] = st.alloc_fn((n, m.k), 'stale', 'f')
    before = st.fork()
    for s, v in S.outcomes(m.E, m.run(st, '_evaluate_distance_matrix'), '_evaluate_distance_matrix'):
        distances(S, m, '_evaluate_distance_matrix', s)
        b = attrs(before, m.o)
        only_changes(S, m.E, '_evaluate_distance_matrix', before, s, m.o, ('distance_matrix',), (b['distance_matrix'].buf,))
    S.definedness(m.E)


def initialise(S, build, init):
    """Initial centroids: the given ones, or rows of the data; distances for them."""
    m = build(S)
    E = m.E
    st = m.pre_init.fork()
    a = attrs(st, m.o)
    a['X'] = a['Theta'] = a['distance_matrix'] = None
    X = st.alloc_fn((n, d), 'in.X', 'f', origin='caller')
    kw = {'init': init}
    if init == 'custom':
        P = kw['parameters'] = st.alloc_fn((m.k, d), 'in.Theta', 'f', origin='caller')
    before = st.fork()
    lab = 'initialisation (%s)' % init
    for s, v in S.outcomes(E, m.run(st, '_initialize_components', [X], kw), lab, raises=() if init == 'custom' else ('ValueError',)):
        b = attrs(s, m.o)
        t, c = tm.fresh_var('t'), tm.fresh_var('c')
        S.ob('%s: works on the data passed' % lab, s.ctx.extend(rng((t, n), (c, d))), eq(fn1(s, b['X'])(t, c), app('in.X', t, c)))
        if init == 'custom':
            S.ob('%s: starts from the given centroids' % lab, s.ctx.extend(rng((t, m.k), (c, d))), eq(fn1(s, b['Theta'])(t, c), app('in.Theta', t, c)))
        distances(S, m, lab, s)
        only_changes(S, E, lab, before, s, m.o, ('X', 'Theta', 'distance_matrix'), own=rngs(s, m.o))
    only(E, 'pre', 'bounds')
    S.definedness(E)


def rngs(st, o):
    return [v.id for v in attrs(st, o).values() if isinstance(v, ObjRef)]


def centroids(S, build):
    m = build(S)
    st = m.havoc()
    before = st.fork()
    G, X = m.content(before, 'Gamma'), m.content(before, 'X')
    for s, v in S.outcomes(m.E, m.run(st, '_update_parameters'), '_update_parameters'):
        Th = attrs(s, m.o)['Theta']
        S.ob('update: shape of the centroids', s.ctx, tand(eq(Th.shape[0], m.k), eq(Th.shape[1], d)) if len(Th.shape) == 2 else FALSE)
        T = fn1(s, Th)
        j, c = tm.fresh_var('j'), tm.fresh_var('c')
        tot = mksum(0, n, lambda t: G(t, j))
        ctx = s.ctx.extend(tand(rng((j, m.k), (c, d)), lt(ZERO, tot)))
        S.ob('update: a centroid with positive total affiliation is the weighted mean of the samples', ctx,
             eq(T(j, c), div(mksum(0, n, lambda t: mul(G(t, j), X(t, c))), tot)))
        # the weighted mean minimises the cost of its cluster: the difference is total * (other - mean)^2 >= 0
        o = tm.fresh_var('other', 'R')
        diff = sub(mksum(0, n, lambda t: mul(G(t, j), power(sub(X(t, c), o), 2))), mksum(0, n, lambda t: mul(G(t, j), power(sub(X(t, c), T(j, c)), 2))))
        S.ob('update: any other value costs total affiliation times its squared distance to the centroid more', ctx,
             eq(diff, mul(tot, power(sub(o, T(j, c)), 2))))
        distances(S, m, 'update', s)
        b = attrs(before, m.o)
        only_changes(S, m.E, 'update', before, s, m.o, ('Theta', 'distance_matrix'), (b['distance_matrix'].buf,))
    only(m.E, 'pre', 'bounds')
    S.definedness(m.E)


def fit(S, build, init):
    m = build(S)
    m.given = {'X': ((n, d), None), 'Theta': ((m.k, d), None), 'Gamma': ((n, m.k), 1)}
    m.data_args, m.kwname = ['X'], {'Theta': 'parameters', 'Gamma': 'weights'}
    m.weights_attr, m.dict_attr = 'Gamma', 'Theta'
    m.opts = {}
    old = m.install

    def inst(**h):
        old(**h)
        m.E.contracts[BASE + '._initialize_constraints'] = c_constraints
    m.install = inst
    m.install()
    fit_runs(S, lambda S: m, [init], reported, definedness=False)
    m.install = old


def reported(S, m, init, given, before, s, v):
    lab = 'fit_transform(init=%r)' % init
    c = attrs(s, m.o).get('cost_')
    S.fact('%s stores a cost' % lab, isinstance(c, (T, int, float)))
    if isinstance(c, (T, int, float)):
        S.ob('%s: reported cost is the cost of the fitted affiliations and centroids' % lab, s.ctx, eq(c if isinstance(c, T) else num(c), m.abstract_cost(s)))
    same_content(S, m, s, v, 'Gamma', '%s returns the fitted affiliations' % lab)


def verify(S):
    for nm, one in (('two or more clusters', False), ('one cluster', True)):
        b = lambda S, one=one: kmeans(S, one)
        S.warm(b)
        S.section('distances (%s)' % nm, evaluate, b)
        for i in ('random', 'custom'):
            S.section('initialisation (%s, %s)' % (nm, i), initialise, b, i)
        S.section('update (%s)' % nm, centroids, b)
        S.section('cost (%s)' % nm, cost_method, b)
        S.section('iteration (%s)' % nm, iterate, b, post=post_cost)
        for i in (None, 'random', 'custom'):
            S.section('fit (%s, init=%r)' % (nm, i), fit, b, i)
