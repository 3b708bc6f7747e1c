"""GPNH convex coding under contract."""
from contracts.base import *
from contracts.models import *

MOD, CLS = 'reor.gpnh_convex_coding', 'GPNHConvexCoding'
Q = MOD + '.' + CLS
n, d, k = var('n'), var('d'), var('k')
eps = var('eps', 'R')


def model(S, one=False, infer=True):
    key = ('gpnh', one)
    if key in S.cache:
        return reset(S.cache[key])
    kk = ONE if one else k
    facts = [le(ONE, n), le(ONE, d), le(ZERO, eps)] + ([] if one else [le(num(2), k)])
    m = Model(S, MOD, CLS, lambda st: ([kk], {'epsilon_states': eps}),
              {'S': ((kk, d), None), 'Gamma': ((n, kk), 1)}, {'X': ((n, d), None)},
              ['_update_dictionary', '_update_weights'],
              lambda F: spec_gpnh_cost(n, d, kk, eps, F('X'), F('Gamma'), F('S')), facts)
    m.k = kk
    m.given = {'X': ((n, d), None), 'dictionary': ((kk, d), None), 'weights': ((n, kk), 1)}
    m.data_args, m.kwname = ['X'], {}
    m.weights_attr, m.dict_attr = 'Gamma', 'S'
    m.install = lambda **h: install(m, **h)
    install(m)
    if infer:
        m.infer()
    S.cache[key] = m
    return m


def install(m, step=None, proj=None):
    c = m.E.contracts
    c['reor.spg.get_next_spg_step_length'] = c_step_length(step)
    c['reor.spg.get_next_spg_alpha'] = c_alpha
    c['reor.simplex_projection.simplex_project_rows'] = c_project(1, proj)
    c['reor.simplex_projection.simplex_project_columns'] = c_project(0, proj)
    c['reor.simplex_projection.simplex_project_vector'] = c_project_vector(proj)
