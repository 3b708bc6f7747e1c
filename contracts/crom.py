"""The Markov model of the GPNH CROM under contract: order weights and transition matrices are
the factors, the weights (and the data) are constant."""
from contracts.base import *
from contracts.models import *
from contracts import convex, initial
from contracts.mtd import lag_fn, lag_list, max_lag, residual_penalty, install

MOD, CLS = 'reor.gpnh_convex_coding_crom', 'GPNHConvexCodingCROM'
n, d, k, L = var('n'), var('d'), var('k'), var('L')
CASES = (('two or more components', False), ('one component', True))


def model(S, one=False, infer=True):
    key = ('crom', one)
    if key in S.cache:
        return reset(S.cache[key])
    kk = ONE if one else k
    lag = lag_fn()
    facts = [le(ONE, n), le(ONE, d), le(ONE, L)] + ([] if one else [le(num(2), k)])
    box = {}

    def ctor(st):
        return [kk], {'lags': lag_list(st)}

    def extra(E, st, o):
        box['ml'] = ml = max_lag(E, st)
        st.assume(lt(ml, n))

    def spec(F):
        if one:
            return ZERO
        return residual_penalty(n, kk, L, box['ml'], lag, F('Gamma'), F('order_weights'), F('transition_matrices'), ONE)
    m = Model(S, MOD, CLS, ctor, {'order_weights': ((L,), 0), 'transition_matrices': ((L, kk, kk), 1)},
              {'X': ((n, d), None), 'Gamma': ((n, kk), 1)}, ['_update_parameters'], spec, facts, init_extra=extra, symbols=('lag',),
              workspace='_initialize_parameters_workspace', cost='_evaluate_fit_residual', loop='_fit_parameters')
    m.k, m.ml = kk, box['ml']
    m.install = lambda **h: install(m, **h)
    install(m)
    if infer:
        m.infer()
    S.cache[key] = m
    return m


def fit_parameters(S, build, post):
    """_fit_parameters from a fresh start: initial guess, the loop by its contract, and what is held at the end."""
    m = build(S)
    convex.install_cost(m, True)
    convex.install_updates(m)
    initial.install(m.E)
    st = m.pre_init.fork()
    convex.fit_settings(m, st)
    a = attrs(st, m.o)
    for f in m.factors:
        a[f] = POISON if f != 'transition_matrices' else None
    lc = LoopCut(m)
    lc.install()
    before = st.fork()
    outs = S.outcomes(m.E, m.run(st, '_fit_parameters'), '_fit_parameters', raises=('RuntimeError',))
    S.fact('_fit_parameters: the iteration loop is covered by its loop contract', lc.used > 0)
    for s, v in outs:
        post(S, m, before, s)
        for q in m.data:
            S.fact('_fit_parameters: %s unchanged' % q, same(attrs(s, m.o)[q], attrs(before, m.o)[q])
                   and s.heap[attrs(s, m.o)[q].buf].body is before.heap[attrs(before, m.o)[q].buf].body)
    m.E.hooks.pop('loop', None)
    convex.only(m.E, 'cost', 'pre')
    S.definedness(m.E)


def stochastic(S, m, before, s):
    for q, (shape, ax) in m.factors.items():
        arr = attrs(s, m.o)[q]
        if not isinstance(arr, Arr):
            S.fact('_fit_parameters: %s is set' % q, False, repr(arr))
            continue
        m.check_stoch('_fit_parameters', s, arr, ax, q)


def fit(S, build):
    """fit_transform: the coding (by the contract proved for GPNH: stochastic weights), then the
    Markov parameters (by the contract proved above); what is returned are the weights of the coding."""
    m = build(S)
    E = m.E

    def coding(eng, st, f, args, kw):
        a = attrs(st, m.o)
        nm = tm.fresh_name('coded')
        a['Gamma'] = stoch_array(st, (n, m.k), nm, 1)
        st.event('coding', nm)
        yield st, a['Gamma']

    def markov(eng, st, f, args, kw):
        for q, (shape, ax) in m.factors.items():
            attrs(st, m.o)[q] = stoch_array(st, shape, tm.fresh_name(q), ax)
        st.event('markov', attrs(st, m.o)['Gamma'])
        yield st, None
    E.contracts['reor.gpnh_convex_coding.GPNHConvexCoding.fit_transform'] = coding
    E.contracts[m.q('_fit_parameters')] = markov
    for entry in ('fit_transform', 'fit'):
        st = m.pre_init.fork()
        X = st.alloc_fn((n, d), 'in.X', 'f', origin='caller')
        for s, v in S.outcomes(E, m.run(st, entry, [X]), entry):
            ev = [e for e in s.events() if e[0] in ('coding', 'markov')]
            S.fact('%s: codes the data, then fits the Markov parameters' % entry, [e[0] for e in ev] == ['coding', 'markov'], repr(ev))
            G = attrs(s, m.o)['Gamma']
            m.check_stoch(entry, s, G, 1, 'weights')
            if ev:
                idx = [tm.fresh_var('ix') for _ in G.shape]
                S.ob('%s: the weights are those of the coding' % entry, s.ctx.extend(rng(*zip(idx, G.shape))),
                     eq(s.cell(G, idx), ONE if m.k is ONE else app(ev[0][1], *idx)))
            if entry == 'fit_transform':
                S.fact('fit_transform returns the weights', same(v, G), repr(v))
            else:
                S.fact('fit returns the object', same(v, m.o), repr(v))
    m.E.contracts.pop(m.q('_fit_parameters'))
    convex.only(E, 'pre')
    S.definedness(E)
