"""FEM-BV models under contract."""
from contracts.base import *
from contracts.models import *
from contracts import convex, initial

n, d, k = var('n'), var('d'), var('k')
BASE = 'reor.fembv.FEMBV'
KM = ('reor.fembv_kmeans', 'FEMBVKMeans')


def constructor(k_, tv):
    return lambda st: ([k_, tv], {})


def c_update_weights(eng, st, f, args, kw):
    """FEMBV._update_weights (C18): with one component nothing changes; otherwise the distances
    are evaluated anew and the affiliations (and the auxiliary values) are replaced, or kept
    when the solver reports failure."""
    o = args[0]
    d_ = eng.bind_args(st, f, args[1:] if f.bound is not None else args, kw)
    if isinstance(d_, RaiseV):
        yield st, d_
        return
    o = f.bound if f.bound is not None else o
    a = attrs(st, o)
    if st.ctx.proves(eq(a['n_components'] if isinstance(a['n_components'], T) else num(a['n_components']), ONE)):
        yield st, None
        return
    for s, v in list(eng.call(st, eng.getattr(st, o, '_evaluate_distance_matrix'), [], {})):
        if isinstance(v, RaiseV):
            yield s, v
            continue
        s2 = s.fork()
        s2.event('update', 'weights failed')
        yield s2, None
        b = attrs(s, o)
        g = b['Gamma']
        nm = tm.fresh_name('Gamma')
        stoch_fn(nm, g.shape, 1)
        b['Gamma'] = s.alloc(g.shape, lambda i: app(nm, *i), 'f', note=nm)
        s.event('update', 'weights')
        yield s, None


def kmeans(S, one=False, infer=True):
    """FEM-BV k-means: centroids and affiliations are the factors, the distances are cached."""
    key = ('fembvkm', one)
    if key in S.cache:
        return reset(S.cache[key])
    kk = ONE if one else k
    facts = [le(ONE, n), le(ONE, d)] + ([] if one else [le(num(2), k)])
    tv = var('tv', 'R')

    def extra(E, st, o):
        a = attrs(st, o)
        a['distance_matrix'] = st.alloc_fn((n, kk), 'dist0', 'f')

    def spec(F):
        X, G, Th = F('X'), F('Gamma'), F('Theta')
        return sum2(n, kk, lambda t, j: mul(G(t, j), mksum(0, d, lambda c: power(sub(X(t, c), Th(j, c)), 2))))
    m = Model(S, KM[0], KM[1], constructor(kk, tv), {'Theta': ((kk, d), None), 'Gamma': ((n, kk), None)},
              {'X': ((n, d), None)}, ['_update_parameters', '_update_weights'], spec, facts, init_extra=extra,
              workspace='_evaluate_distance_matrix', cost='_evaluate_cost', loop='_iterate')
    m.k = kk

    def install(**h):
        m.E.contracts[BASE + '._update_weights'] = c_update_weights
    m.install = install
    install()
    if infer:
        m.infer()
    S.cache[key] = m
    return m


def c_constraints(eng, st, f, args, kw):
    """FEMBV._initialize_constraints (C17): sets the constraint matrices, nothing else."""
    o = f.bound if f.bound is not None else args[0]
    a = attrs(st, o)
    for nm in ('A_eq', 'b_eq', 'A_ub', 'b_ub'):
        a[nm] = POISON
    st.event('constraints')
    yield st, None


# FEM-BV-VARX --------------------------------------------------------------------------------

VX = ('reor.fembv_varx', 'FEMBVVARX')
LM = 'reor.fembv_varx.FEMBVVARXLocalLinearModel'
e = var('e')


def bound(eng, st, f, args, kw):
    return eng.bind_args(st, f, args[1:] if f.bound is not None else args, kw)


def c_local_init(eng, st, f, args, kw):
    """FEMBVVARXLocalLinearModel(y, p, u, s=0) (C20): holds y and u; coefficients are zero."""
    b = bound(eng, st, f, args, kw)
    if isinstance(b, RaiseV):
        yield st, b
        return
    o, y, p, u, s = f.bound, b['y'], b['p'], b.get('u'), b.get('s', 0)
    if not isinstance(y, Arr) or len(y.shape) != 2 or not (s == 0 or s is ZERO):
        raise Unsupported('local model arguments')
    p = p if isinstance(p, T) else num(p)
    N, D = y.shape
    eng.oblige(st, tand(le(ZERO, p), lt(p, N)), 'local model: order non-negative and smaller than the number of samples', 'pre')
    zero = lambda *sh: st.alloc(sh, lambda i: ZERO, 'f')
    at = {'p': p, 's': ZERO, '_y': st.alloc((N, D), st.fn_of(y), 'f'), 'mu': zero(D), 'A': zero(p, D, D), 'Sigma_u': zero(D, D),
          'Sigma_u_inv': zero(D, D), 'residuals': zero(N, D), 'weights!': zero(N), '_u': None, 'B0': None, 'B': None}
    if u is not None:
        if not isinstance(u, Arr) or len(u.shape) != 2:
            raise Unsupported('local model arguments')
        eng.oblige(st, eq(u.shape[0], N), 'local model: as many samples of the external factors as of the data', 'pre')
        at['_u'] = st.alloc(u.shape, st.fn_of(u), 'f')
        at['B0'] = zero(D, u.shape[1])
    for nm, v in at.items():
        st.setattr(o, nm, v)
    yield st, None


def local_residual(st, o, mu, A, B0):
    """residual at time t >= p of the local model o with the given coefficients"""
    y, u, p = fn1(st, st.getattr(o, '_y')), st.getattr(o, '_u'), st.getattr(o, 'p')
    D = st.getattr(o, '_y').shape[1]
    uf = fn1(st, u) if u is not None else None

    def f(t, j):
        r = sub(y(t, j), mu(j))
        r = sub(r, mksum(0, p, lambda l: mksum(0, D, lambda i: mul(A(l, j, i), y(sub(t, add(l, ONE)), i)))))
        if u is not None:
            r = sub(r, mksum(0, u.shape[1], lambda q: mul(B0(j, q), uf(t, q))))
        return r
    return f


def c_local_fit(eng, st, f, args, kw):
    """FEMBVVARXLocalLinearModel.fit (C20): new coefficients; residuals after the pre-sample are
    sample minus prediction with them; the weights used are recorded."""
    b = bound(eng, st, f, args, kw)
    if isinstance(b, RaiseV):
        yield st, b
        return
    o, w = f.bound, b.get('weights')
    y, p, u = st.getattr(o, '_y'), st.getattr(o, 'p'), st.getattr(o, '_u')
    N, D = y.shape
    if w is None:
        wf = lambda i: ONE
    else:
        if not isinstance(w, Arr) or len(w.shape) != 1:
            raise Unsupported('local model weights')
        eng.oblige(st, eq(w.shape[0], N), 'local model: one weight per sample', 'pre')
        i = tm.fresh_var('i')
        eng.oblige(st, tm.forall([i], implies(rng((i, N)), le(ZERO, fn1(st, w)(i)))), 'local model: weights are non-negative', 'pre')
        wf = st.fn_of(w)
    st.setattr(o, 'weights!', st.alloc((N,), lambda i: wf(i) if w is not None else ONE, 'f'))
    new = {}
    for nm, sh in (('mu', (D,)), ('A', (p, D, D)), ('Sigma_u', (D, D)), ('Sigma_u_inv', (D, D))) + ((('B0', (D, u.shape[1])),) if u is not None else ()):
        a = new[nm] = fresh_array(st, sh, 'fit.' + nm)
        st.setattr(o, nm, a)
    g = lambda nm: fn1(st, new[nm]) if nm in new else None
    r = local_residual(st, o, g('mu'), g('A'), g('B0'))
    old = st.fn_of(st.getattr(o, 'residuals'))
    st.setattr(o, 'residuals', st.alloc((N, D), lambda i: ite(lt(i[0], p), old(i), r(*i)), 'f'))
    st.event('local fit')
    yield st, None


def elem_attr(eng, st, v, name):
    if name == 'A':
        eng.oblige(st, lt(ZERO, st.getattr(v, 'p')), 'lag coefficients exist only for a positive order', 'pre')


def memory_of(E, st, kind, kk):
    """(constructor argument, memory of component i, largest memory)"""
    if kind == 'none':
        return None, lambda i: ZERO
    if kind == 'scalar':
        m = var('mem')
        st.assume(le(ZERO, m))
        return m, lambda i: m
    tm.fn('mems', 1, 'I', (kk,))
    Fn.table['mems'].facts[:] = [lambda i: le(ZERO, app('mems', i))]
    return st.newlist(SSeq(kk, app('mems', IV[0]), kind='list')), lambda i: app('mems', i)


def varx(S, kind, ext, kk):
    """A FEM-BV-VARX object with its component models set up by the real _initialize_components."""
    E = S.engine()
    E.contracts[LM + '.__init__'] = c_local_init
    E.contracts[LM + '.fit'] = c_local_fit
    E.hooks['elem_attr'] = elem_attr
    E.contracts[BASE + '._update_weights'] = c_update_weights
    E.contracts[BASE + '._initialize_constraints'] = c_constraints
    st = E.fresh_state()
    for f in (le(ONE, n), le(ONE, d), le(ONE, e)) + (() if kk is ONE else (le(num(2), kk),)):
        st.assume(f)
    mem, memf = memory_of(E, st, kind, kk)
    args = [kk, var('tv', 'R')]
    outs = S.outcomes(E, list(E.call(st, E.func(*VX), args, {'memory': mem})), 'constructor')
    if len(outs) != 1:
        raise Unsupported('constructor has %d outcomes' % len(outs))
    st, o = outs[0]
    return E, st, o, memf


def largest(E, st, o):
    from dv import lib
    return lib.extremum(E, st, attrs(st, o)['memory'], 'max', None)
