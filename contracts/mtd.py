"""MTD convex coding under contract."""
from contracts.base import *
from contracts.models import *
from dv import lib

MOD, CLS = 'reor.mtd_convex_coding', 'MTDConvexCoding'
n, d, k, L = var('n'), var('d'), var('k'), var('L')
eps, epw = var('eps', 'R'), var('epw', 'R')


def lag_fn():
    F = tm.fn('lag', 1, 'I', (L,))
    if not F.facts:
        F.facts.append(lambda i: implies(rng((i, L)), le(ONE, app('lag', i))))
    return lambda i: app('lag', num(i))


def lag_list(st):
    lag_fn()
    return st.newlist(SSeq(L, app('lag', IV[0])))


def max_lag(E, st):
    """the largest lag, as the engine names it; assumed smaller than the number of samples"""
    lag_fn()
    a = st.alloc((L,), lambda i: app('lag', *i), 'i', note='lag')
    return lib.extremum(E, st, a, 'max', None)


def residual_penalty(n, k, L, ml, lag, G, w, T, weight):
    """weight/(k (n - maxlag)) * sum over t >= maxlag of ||G_t - sum_l w_l T_l G_{t - lag_l}||^2"""
    pred = lambda t, a: mksum(0, L, lambda l: mul(w(l), mksum(0, k, lambda b: mul(T(l, a, b), G(sub(t, lag(l)), b)))))
    s = mksum(ml, n, lambda t: mksum(0, k, lambda a: power(sub(G(t, a), pred(t, a)), 2)))
    return mul(weight, div(s, mul(k, sub(n, ml))))


def model(S, one=False, infer=True):
    key = ('mtd', one)
    if key in S.cache:
        return reset(S.cache[key])
    kk = ONE if one else k
    lag = lag_fn()
    facts = [le(ONE, n), le(ONE, d), le(ONE, L), le(ZERO, eps), le(ZERO, epw)] + ([] if one else [le(num(2), k)])
    box = {}

    def ctor(st):
        return [kk], {'epsilon_states': eps, 'epsilon_weights': epw, 'lags': lag_list(st)}

    def extra(E, st, o):
        box['ml'] = ml = max_lag(E, st)
        st.assume(lt(ml, n))

    def spec(F):
        G, Sf = F('Gamma'), F('S')
        c = spec_gpnh_cost(n, d, kk, eps, F('X'), G, Sf)
        if one:
            return c
        return add(c, residual_penalty(n, kk, L, box['ml'], lag, G, F('order_weights'), F('transition_matrices'), epw))
    m = Model(S, MOD, CLS, ctor,
              {'S': ((kk, d), None), 'Gamma': ((n, kk), 1), 'order_weights': ((L,), 0), 'transition_matrices': ((L, kk, kk), 1)},
              {'X': ((n, d), None)}, ['_update_dictionary', '_update_weights', '_update_parameters'], spec, facts, init_extra=extra, symbols=('lag',))
    m.k, m.ml = kk, box['ml']
    m.given = {'X': ((n, d), None), 'dictionary': ((kk, d), None), 'weights': ((n, kk), 1),
               'order_weights': ((L,), 0), 'transition_matrices': ((L, kk, kk), 1)}
    m.data_args, m.kwname = ['X'], {}
    m.weights_attr, m.dict_attr = 'Gamma', 'S'
    m.install = lambda **h: install(m, **h)
    install(m)
    if infer:
        m.infer()
    S.cache[key] = m
    return m


def install(m, step=None, proj=None):
    c = m.E.contracts
    c['reor.spg.get_next_spg_step_length'] = c_step_length(step)
    c['reor.spg.get_next_spg_alpha'] = c_alpha
    c['reor.simplex_projection.simplex_project_rows'] = c_project(1, proj)
    c['reor.simplex_projection.simplex_project_columns'] = c_project(0, proj)
    c['reor.simplex_projection.simplex_project_vector'] = c_project_vector(proj)


CASES = (('two or more components', False), ('one component', True))
