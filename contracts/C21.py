"""FEM-BV-VARX: alignment of components of different memory."""
from contracts.fembv import *
from contracts.convex import only


def start(S, kind, ext, kk):
    E, st, o, memf = varx(S, kind, ext, kk)
    X = st.alloc_fn((n, d), 'X', 'f', origin='caller')
    kw = {}
    u = None
    if ext:
        u = kw['external_factors'] = st.alloc_fn((n, e), 'u', 'f', origin='caller')
    P = largest(E, st, o)
    st.assume(lt(P, n))
    return E, st, o, memf, X, u, P, kw


def initialise(S, kind, ext, kk):
    E, st, o, memf, X, u, P, kw = start(S, kind, ext, kk)
    for s, v in S.outcomes(E, list(E.call(st, E.getattr(st, o, '_initialize_components'), [X], kw)), 'initialisation'):
        models(S, s, o, memf, P, ext, kk, 'initialisation')
        distances(S, s, o, memf, P, ext, kk, 'initialisation')
    only(E, 'pre', 'bounds')
    S.definedness(E)


def family(S, st, o, kk, lab):
    L = attrs(st, o).get('models')
    L = st.lists[L.id] if isinstance(L, ListRef) else None
    one = isinstance(L, CList) and len(L.items) == 1 and isinstance(L.items[0], ObjRef)
    ok = one or isinstance(L, SSeq) and isinstance(L.elem, Elem)
    S.fact('%s: component models are set up' % lab, ok, repr(L))
    if ok:
        S.ob('%s: one model per component' % lab, st.ctx, eq(ONE if one else L.n, kk))
    return (lambda i: L.items[0] if one else L.at(i)) if ok else None


def models(S, st, o, memf, P, ext, kk, lab):
    """component i works on the samples from P - m_i on"""
    L = family(S, st, o, kk, lab)
    if L is None:
        return
    i, t, j = [tm.fresh_var(x) for x in 'itj']
    m = L(i)
    ctx = st.ctx.extend(rng((i, kk)))
    y = st.getattr(m, '_y')
    S.ob('%s: memory of every component' % lab, ctx, eq(st.getattr(m, 'p'), memf(i)))
    S.ob('%s: samples of every component' % lab, ctx, tand(eq(y.shape[0], add(sub(n, P), memf(i))), eq(y.shape[1], d)))
    S.ob('%s: a component of memory m sees the samples from m before the largest memory on' % lab, ctx.extend(rng((t, y.shape[0]), (j, d))),
         eq(fn1(st, y)(t, j), app('X', add(sub(P, memf(i)), t), j)))
    u = st.getattr(m, '_u')
    S.fact('%s: external factors are %s' % (lab, 'used' if ext else 'absent'), (u is not None) == bool(ext))
    if ext and u is not None:
        S.ob('%s: external factors are aligned with the samples' % lab, ctx.extend(rng((t, y.shape[0]), (j, e))),
             eq(fn1(st, u)(t, j), app('u', add(sub(P, memf(i)), t), j)))


def residual(st, m, i, memf, P, ext):
    """one-step residual of component i at sample P + r with the coefficients of its model"""
    mu, A = fn1(st, st.getattr(m, 'mu')), fn1(st, st.getattr(m, 'A'))
    X = lambda t, j: app('X', t, j)

    def f(r, j):
        t = add(P, r)
        v = sub(X(t, j), mu(j))
        v = sub(v, mksum(0, memf(i), lambda l: mksum(0, d, lambda q: mul(A(l, j, q), X(sub(t, add(l, ONE)), q)))))
        if ext:
            B0 = fn1(st, st.getattr(m, 'B0'))
            v = sub(v, mksum(0, e, lambda q: mul(B0(j, q), app('u', t, q))))
        return v
    return f


def distances(S, st, o, memf, P, ext, kk, lab):
    L = family(S, st, o, kk, lab)
    D = attrs(st, o).get('distance_matrix')
    S.fact('%s: distances are set' % lab, isinstance(D, Arr) and len(D.shape) == 2, repr(D))
    if L is None or not isinstance(D, Arr) or len(D.shape) != 2:
        return
    r, i = tm.fresh_var('r'), tm.fresh_var('i')
    S.ob('%s: shape of the distances' % lab, st.ctx, tand(eq(D.shape[0], sub(n, P)), eq(D.shape[1], kk)))
    res = residual(st, L(i), i, memf, P, ext)
    S.ob('%s: the distance in row r is the squared residual of the component at sample P + r' % lab, st.ctx.extend(rng((r, sub(n, P)), (i, kk))),
         eq(fn1(st, D)(r, i), mksum(0, d, lambda j: power(res(r, j), 2))))


def update(S, kind, ext, kk):
    E, st, o, memf, X, u, P, kw = start(S, kind, ext, kk)
    for s, v in S.outcomes(E, list(E.call(st, E.getattr(st, o, '_initialize_components'), [X], kw)), 'initialisation'):
        a = attrs(s, o)
        G = a['Gamma'] = stoch_array(s, (sub(n, P), kk), 'Gamma', 1)
        # coefficients and distances of an earlier update: arbitrary
        S.outcomes(E, list(E.call(s, E.getattr(s, o, '_update_parameters'), [], {})), 'first update')
        for s2, v2 in S.outcomes(E, list(E.call(s, E.getattr(s, o, '_update_parameters'), [], {})), 'update'):
            after(S, E, s, s2, o, memf, P, ext, kk, 'update')
    only(E, 'pre', 'bounds')
    S.definedness(E)


def after(S, E, before, st, o, memf, P, ext, kk, lab):
    L = family(S, st, o, kk, lab)
    if L is None:
        return
    models(S, st, o, memf, P, ext, kk, lab)
    a = attrs(st, o)
    i, r, j, l, q = [tm.fresh_var(x) for x in 'irjlq']
    m = L(i)
    ctx = st.ctx.extend(rng((i, kk)))
    w = fn1(st, st.getattr(m, 'weights!'))
    S.ob('%s: the weight of sample P + r is its affiliation to the component' % lab, ctx.extend(rng((r, sub(n, P)))),
         eq(w(add(memf(i), r)), st.cell(a['Gamma'], (r, i))))
    S.ob('%s: reported means are those of the component models' % lab, ctx.extend(rng((j, d))),
         eq(st.cell(a['mu'], (i, j)), st.cell(st.getattr(m, 'mu'), (j,))))
    if isinstance(a.get('A'), Arr):
        S.ob('%s: reported lag coefficients are those of the component models' % lab, ctx.extend(rng((l, memf(i)), (j, d), (q, d))),
             eq(st.cell(a['A'], (i, l, j, q)), st.cell(st.getattr(m, 'A'), (l, j, q))))
        S.ob('%s: coefficients beyond the memory of a component are zero' % lab, ctx.extend(tand(rng((j, d), (q, d)), le(memf(i), l), lt(l, P))),
             eq(st.cell(a['A'], (i, l, j, q)), ZERO))
    else:
        S.ob('%s: without lag coefficients the largest memory is zero' % lab, st.ctx, eq(P, ZERO))
    if ext:
        S.ob('%s: reported external coefficients are those of the component models' % lab, ctx.extend(rng((j, d), (q, e))),
             eq(st.cell(a['B0'], (i, j, q)), st.cell(st.getattr(m, 'B0'), (j, q))))


def verify(S):
    for knm, kind in (('no memory', 'none'), ('one memory', 'scalar'), ('memory per component', 'list')):
        for ext in (False, True):
            for cnm, kk in (('two or more components', k), ('one component', ONE)):
                nm = '%s, %s external factors, %s' % (knm, 'with' if ext else 'without', cnm)
                S.section('initialisation (%s)' % nm, initialise, kind, ext, kk)
                S.section('update (%s)' % nm, update, kind, ext, kk)
