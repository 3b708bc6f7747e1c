"""Local VARX fit: residuals and weighted normal equations."""
from contracts.varx import *

MOD, CLS = 'reor.fembv_varx', 'FEMBVVARXLocalLinearModel'


def fit(S, lagged, factors, weighted):
    E = S.engine()
    st = E.fresh_state()
    for f in (le(ONE, d), le(ZERO, p), le(ZERO, s), le(ONE, e), lt(p, n), lt(s, n)):
        st.assume(f)
    y = st.alloc_fn((n, d), 'y', 'f', origin='caller')
    args, kw = [y], {}
    if lagged:
        kw['p'] = p
    if factors:
        u = st.alloc_fn((n, e), 'u', 'f', origin='caller')
        kw['u'] = u
        if factors == 'lagged':
            kw['s'] = s
    uf = fn1(st, u) if factors else None
    yf = fn1(st, y)
    C = E.func(MOD, CLS)
    lab0 = 'fit'
    for st1, o in S.outcomes(E, list(E.call(st, C, args, kw)), 'constructor'):
        pp = p if lagged else ZERO
        ss = s if factors == 'lagged' else ZERO
        pre = tm.tmax(pp, ss)
        a = attrs(st1, o)
        # residuals of an earlier fit: arbitrary after the pre-sample
        old = tm.fresh_name('oldres')
        tm.fn(old, 2, 'R', (n, d))
        rb = a['residuals']
        st1.write(rb, lambda i: ite(lt(i[0], pre), ZERO, app(old, *i)))
        kws = {}
        w = lambda t: ONE
        if weighted:
            wa = st1.alloc_fn((n,), 'w', 'f', origin='caller')
            Fn.table['w'].facts[:] = [lambda i: implies(rng((i, n)), le(ZERO, app('w', i)))]
            kws['weights'] = wa
            w = fn1(st1, wa)
        before = st1.fork()
        for s2, v in S.outcomes(E, list(E.call(st1, E.getattr(st1, o, 'fit'), [], kws)), 'fit'):
            check(S, E, before, s2, o, yf, uf, pp, ss, pre, w, lagged, factors)
    E.obligations = [q for q in E.obligations if q.kind != 'div']
    S.definedness(E)


def check(S, E, before, s2, o, yf, uf, pp, ss, pre, w, lagged, factors):
    a = attrs(s2, o)
    sols = [x[1] for x in s2.events() if x[0] == 'lstsq']
    S.fact('fit: one least-squares problem', len(sols) == 1, repr(sols))
    if len(sols) != 1:
        return
    has_lags = lagged and s2.ctx.proves(lt(ZERO, pp))
    has_u = factors == 'lagged' and s2.ctx.proves(lt(ZERO, ss))
    for nm, want, shape in (('mu', True, (d,)), ('A', has_lags, (pp, d, d)), ('B', has_u, (ss, d, e)), ('B0', bool(factors), (d, e))):
        arr = a.get(nm)
        S.fact('fit: %s is %s' % (nm, 'set' if want else 'absent'), isinstance(arr, Arr) == want, repr(arr))
        if want and isinstance(arr, Arr):
            S.ob('fit: shape of %s' % nm, s2.ctx, tand(*[eq(x, z) for x, z in zip(arr.shape, shape)]) if len(arr.shape) == len(shape) else FALSE)
            if len(arr.shape) != len(shape):
                return
        elif want:
            return
    g = lambda nm: fn1(s2, a[nm]) if isinstance(a.get(nm), Arr) else None
    pred = prediction(yf, uf, pp, ss, pre, g('mu'), g('A'), g('B'), g('B0'))
    t, j = tm.fresh_var('t'), tm.fresh_var('j')
    rf = fn1(s2, a['residuals'])
    ctx = s2.ctx.extend(rng((t, n), (j, d)))
    S.ob('fit: shape of the residuals', s2.ctx, tand(*[eq(x, z) for x, z in zip(a['residuals'].shape, (n, d))]))
    S.ob('fit: residuals after the pre-sample are sample minus prediction', ctx.extend(le(pre, t)), eq(rf(t, j), sub(yf(t, j), pred(t, j))))
    S.ob('fit: residuals of the pre-sample are zero', ctx.extend(lt(t, pre)), eq(rf(t, j), ZERO))
    r = lambda t, j: sub(yf(t, j), pred(t, j))
    jc = s2.fork()
    jc.assume(rng((j, d)))
    res = lambda t: r(t, j)
    normal_equations(S, 'normal equation of the intercept', jc, sols[0], 0, lambda t: ONE, res, w, pre, n, j)
    l, i, q = tm.fresh_var('l'), tm.fresh_var('i'), tm.fresh_var('q')
    if has_lags:
        c = jc.fork()
        c.assume(rng((l, pp), (i, d)))
        normal_equations(S, 'normal equations of the lags', c, sols[0], add(ONE, mul(l, d), i), lambda t: yf(sub(t, add(l, ONE)), i), res, w, pre, n, j)
    if has_u:
        c = jc.fork()
        c.assume(rng((l, ss), (q, e)))
        normal_equations(S, 'normal equations of the lagged external factors', c, sols[0], add(ONE, mul(pp, d), mul(l, e), q), lambda t: uf(sub(t, add(l, ONE)), q), res, w, pre, n, j)
    if factors:
        c = jc.fork()
        c.assume(rng((q, e)))
        normal_equations(S, 'normal equations of the external factors', c, sols[0], add(ONE, mul(pp, d), mul(ss, e), q), lambda t: uf(t, q), res, w, pre, n, j)
    own = {x.buf for x in a.values() if isinstance(x, Arr)}
    only_changes(S, E, 'fit', before, s2, o, allowed_attrs=('mu', 'A', 'B', 'B0', 'Sigma_u', 'Sigma_u_inv', 'residuals'),
                 allowed_bufs={a['residuals'].buf})


def verify(S):
    for lagged in (False, True):
        for factors in (None, 'current', 'lagged'):
            for weighted in (False, True):
                S.section('order %s, %s external factors, %s' % ('p' if lagged else 'zero', factors or 'no', 'weighted' if weighted else 'unweighted'),
                          fit, lagged, factors, weighted)
