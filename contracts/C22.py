"""Piecewise VARX: normal equations per regime, residuals, labels."""
from contracts.varx import *

MOD, CLS = 'reor.pwvarx', 'ClusterPWVARX'
k = var('K')


def model(S, lags, ext, trend, one, default=False):
    """lags/ext: orders positive; one: one-dimensional series"""
    E = S.engine()
    st = E.fresh_state()
    dd, ee = (ONE, ONE) if one else (d, e)
    for f in (le(ONE, d), le(ONE, e), le(ONE, k), lt(p, n), lt(s, n), le(ONE, p) if lags else eq(p, ZERO), le(ONE, s) if ext != 'none' else le(ZERO, s)):
        st.assume(f)
    pp = p if lags else ZERO
    y = st.alloc_fn((n,) if one else (n, d), 'y1' if one else 'y', 'f', origin='caller')
    u = None
    if ext == 'lagged' or ext == 'unused':
        u = st.alloc_fn((n,) if one else (n, e), 'u1' if one else 'u', 'f', origin='caller')
    ss = s if ext == 'lagged' else ZERO if ext == 'unused' else s
    cl, cf = (None, None) if default else (st.newobj('Clusterer', {}), st.newobj('Classifier', {}))
    outs = list(E.call(st, E.func(MOD, CLS), [k, pp], {'s': ss, 'include_trend': trend, **({} if default else {'clusterer': cl, 'classifier': cf})}))
    yf = fn1(st, y) if not one else (lambda t, j, f=fn1(st, y): f(t))
    uf = None
    if ext == 'lagged':
        uf = fn1(st, u) if not one else (lambda t, j, f=fn1(st, u): f(t))
    return E, outs, y, u, yf, uf, pp, ss, dd, ee, cl, cf


def fit(S, lags, ext, trend, one, default=False):
    E, outs, y, u, yf, uf, pp, ss, dd, ee, cl, cf = model(S, lags, ext, trend, one, default)
    for st, o in S.outcomes(E, outs, 'constructor'):
        args = [y] if u is None else [y, u]
        before = st.fork()
        for s2, v in S.outcomes(E, list(E.call(st, E.getattr(st, o, 'fit_transform'), args, {})), 'fit_transform'):
            check(S, E, before, s2, o, v, yf, uf, pp, ss, dd, ee, lags, ext, trend, cl, cf)
            transform(S, E, s2, o, args, attrs(s2, o)['classifier'])
    E.obligations = [q for q in E.obligations if q.kind != 'div']
    S.definedness(E)


def predictors(yf, uf, pp, ss, pre, dd, ee, lags, ext, st, x, lab, S):
    """the predictors are the lagged values, one block per lag"""
    f = fn1(st, x)
    t, l, i, q = [tm.fresh_var(c) for c in 'tliq']
    width = add(mul(pp, dd), mul(ss, ee) if ext == 'lagged' else ZERO)
    S.ob('%s: shape of the predictors' % lab, st.ctx, tand(eq(x.shape[0], sub(n, pre)), eq(x.shape[1], width)))
    c = st.ctx.extend(rng((t, sub(n, pre))))
    if lags:
        S.ob('%s: predictors hold the lagged values' % lab, c.extend(rng((l, pp), (i, dd))),
             eq(f(t, add(mul(l, dd), i)), yf(sub(add(pre, t), add(l, ONE)), i)))
    if ext == 'lagged':
        S.ob('%s: predictors hold the lagged external values' % lab, c.extend(rng((l, ss), (q, ee))),
             eq(f(t, add(mul(pp, dd), mul(l, ee), q)), uf(sub(add(pre, t), add(l, ONE)), q)))


def check(S, E, before, s2, o, v, yf, uf, pp, ss, dd, ee, lags, ext, trend, cl, cf):
    a = attrs(s2, o)
    pre = tm.tmax(pp, ss)
    ev = s2.events()
    own = () if cf is None else (cl.id, cf.id)
    cf = a['classifier']
    fits = [x for x in ev if x[0] == 'fit' and x[2].id == cf.id]
    preds = [x for x in ev if x[0] == 'predict' and x[2].id == cf.id]
    S.fact('the classifier is fitted once', len(fits) == 1, repr(fits))
    S.fact('the labels are predicted once', len(preds) == 1, repr(preds))
    if len(fits) != 1 or len(preds) != 1:
        return
    ok = isinstance(v, Arr) and v.buf in s2.heap and isinstance(s2.heap[v.buf].body, tm.T)
    S.fact('labels are returned', ok)
    if not ok:
        return
    lab = fn1(s2, v)
    r = tm.fresh_var('t')
    src = [z.val for z in tm.apps(lab(r)) if getattr(Fn.table[z.val], 'predict', None)]
    S.fact('the labels are those of the fitted classifier', src and lab(r) is app(src[0], r) and Fn.table[src[0]].predict[0] == cf.id, tm.show(lab(r)))
    predictors(yf, uf, pp, ss, pre, dd, ee, lags, ext, s2, preds[0][3], 'fit', S)
    predictors(yf, uf, pp, ss, pre, dd, ee, lags, ext, s2, fits[0][3], 'classifier', S)
    has_u = ext == 'lagged'
    for nm, want, shape in (('mu', trend, (k, dd)), ('A', lags, (k, pp, dd, dd)), ('B', has_u, (k, ss, dd, ee))):
        arr = a.get(nm)
        S.fact('fit: %s is %s' % (nm, 'set' if want else 'absent'), isinstance(arr, Arr) == want, repr(arr))
        if want and isinstance(arr, Arr):
            S.ob('fit: shape of %s' % nm, s2.ctx, tand(*[eq(x, z) for x, z in zip(arr.shape, shape)]) if len(arr.shape) == len(shape) else FALSE)
            if len(arr.shape) != len(shape):
                return
        elif want:
            return

    def pred(c):
        """prediction by regime c"""
        g = lambda nm, nd: (lambda *i: fn1(s2, a[nm])(c, *i)) if isinstance(a.get(nm), Arr) else None
        return prediction(yf, uf, pp, ss, pre, g('mu', 1), g('A', 3), g('B', 3), None, dd, ee)
    t, j, c = tm.fresh_var('t'), tm.fresh_var('j'), tm.fresh_var('c')
    rf = fn1(s2, a['residuals'])
    S.ob('shape of the residuals', s2.ctx, tand(*[eq(x, z) for x, z in zip(a['residuals'].shape, (sub(n, pre), dd))]))
    ctx = s2.ctx.extend(rng((t, sub(n, pre)), (j, dd), (lab(t), k)))
    S.ob('the residual is the sample minus the prediction of its regime', ctx,
         eq(rf(t, j), sub(yf(add(t, pre), j), pred(lab(t))(add(t, pre), j))))
    # normal equations
    sols = lstsq_of(s2, a, trend, lags)
    S.fact('coefficients come from one least-squares problem per regime', sols is not None)
    if sols is None:
        return
    cc = s2.fork()
    cc.assume(rng((c, k), (j, dd)))
    T = sub(n, pre)
    w = lambda t: ite(eq(lab(t), c), ONE, ZERO)
    res = lambda t: sub(yf(add(t, pre), j), pred(c)(add(t, pre), j))
    off = ONE if trend else ZERO
    if trend:
        normal(S, 'normal equation of the intercept', cc, sols, c, ZERO, lambda t: ONE, res, w, T, j)
    l, i, q = tm.fresh_var('l'), tm.fresh_var('i'), tm.fresh_var('q')
    if lags:
        x = cc.fork()
        x.assume(rng((l, pp), (i, dd)))
        normal(S, 'normal equations of the lags', x, sols, c, add(off, mul(l, dd), i), lambda t: yf(sub(add(t, pre), add(l, ONE)), i), res, w, T, j)
    if has_u:
        x = cc.fork()
        x.assume(rng((l, ss), (q, ee)))
        normal(S, 'normal equations of the lagged external factors', x, sols, c, add(off, mul(pp, dd), mul(l, ee), q),
               lambda t: uf(sub(add(t, pre), add(l, ONE)), q), res, w, T, j)
    only_changes(S, E, 'fit_transform', before, s2, o, own=own,
                 allowed_attrs=('mu', 'A', 'B', 'Sigma_u', 'residuals', 'cluster_labels_', 'clusterer', 'classifier'))


def lstsq_of(st, a, trend, lags):
    for nm in ('mu', 'A', 'B'):
        if isinstance(a.get(nm), Arr):
            idx = [tm.fresh_var('i') for _ in a[nm].shape]
            t = fn1(st, a[nm])(*idx)
            return next((x.val for x in tm.apps(t) if 'lstsq' in x.val), None)


def normal(S, lab, st, sol, c, col, regressor, resid, w, T, j):
    ash, fa, bsh, fb = problem(sol, c)
    two = len(bsh) == 2
    x = lambda q: app(sol, c, q, j) if two else app(sol, c, q)
    col = num(col)
    if not st.ctx.proves(tand(le(ZERO, col), lt(col, ash[1]))):
        S.fact('%s: the regressor is among the columns of the least-squares problem' % lab, False, tm.show(col))
        return
    rest = lambda r: sub(mksum(0, ash[1], lambda q: mul(fa((r, q)), x(q))), fb((r, j) if two else (r,)))
    inst = mksum(0, ash[0], lambda r: mul(fa((r, col)), rest(r)))        # zero by the contract
    S.ob(lab, st.ctx, eq(mksum(0, T, lambda t: mul(w(t), resid(t), regressor(t))), tm.neg(inst)))


def problem(sol, c):
    """matrix and right-hand side of the least-squares problem of regime c"""
    G = Fn.table[sol]
    F, kk, loop = G.lifted_lstsq
    ash, fa, bsh, fb = F.lstsq

    def at(f):
        def h(i):
            ph = [var('_q%d' % z, 'I') for z in range(len(i))]
            t = loop.lift(f(tuple(ph)), kk)
            return tm.subst(t, dict([(kk.val, c)] + [(y.val, num(z)) for y, z in zip(ph, i)]))
        return h
    sh = lambda z: tuple(tm.subst(loop.lift(num(y), kk), {kk.val: c}) for y in z)
    return sh(ash), at(fa), sh(bsh), at(fb)


def transform(S, E, s2, o, args, cf):
    before = s2.fork()
    for s3, v in S.outcomes(E, list(E.call(s2, E.getattr(s2, o, 'transform'), args, {})), 'transform'):
        preds = [x for x in s3.events() if x[0] == 'predict' and x[2].id == cf.id]
        S.fact('transform: one more prediction', len(preds) == 2, repr(preds))
        if len(preds) != 2 or not isinstance(v, Arr):
            continue
        r = tm.fresh_var('t')
        t = fn1(s3, v)(r)
        S.fact('transform: the labels are those of the fitted classifier',
               t.op == 'app' and getattr(Fn.table[t.val], 'predict', (None, None))[1] is preds[1][3], tm.show(t))
        f, g = fn1(s3, preds[0][3]), fn1(s3, preds[1][3])
        q = tm.fresh_var('q')
        S.ob('transform: same predictors as in the fit', s3.ctx.extend(rng((r, preds[0][3].shape[0]), (q, preds[0][3].shape[1]))),
             tand(eq(f(r, q), g(r, q)), eq(preds[0][3].shape[0], preds[1][3].shape[0]), eq(preds[0][3].shape[1], preds[1][3].shape[1])))
        only_changes(S, E, 'transform', before, s3, o)


def verify(S):
    for lags in (True, False):
        for ext in ('none', 'unused', 'lagged'):
            if not lags and ext != 'lagged':
                continue
            for trend in (True, False):
                for one in (False, True):
                    S.section('order %s, external factors %s, %s trend, %s' % ('p' if lags else 'zero', ext, 'with' if trend else 'without',
                                                                               'one variable' if one else 'several variables'),
                              fit, lags, ext, trend, one)
    S.section('default clusterer and classifier', fit, True, 'none', True, False, True)
