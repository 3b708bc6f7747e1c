"""Kernel and standard archetypal analysis under contract."""
from contracts.base import *
from contracts.models import *

MOD, CLS = 'reor.archetypal_analysis', 'KernelAA'
n, d, k = var('n'), var('d'), var('k')
delta = var('delta', 'R')


def spec_aa(n, k, K, C, Sf, al):
    """||X - S D C X||^2 through the kernel K = X X^T"""
    DCK = lambda l, j: mul(al(l), mksum(0, n, lambda q: mul(C(l, q), K(q, j))))
    G = lambda l, p: mul(mksum(0, n, lambda j: mul(DCK(l, j), C(p, j))), al(p))
    t1 = mksum(0, n, lambda i: K(i, i))
    t2 = mksum(0, n, lambda i: mksum(0, k, lambda l: mul(Sf(i, l), DCK(l, i))))
    t3 = mksum(0, n, lambda i: mksum(0, k, lambda l: mul(Sf(i, l), mksum(0, k, lambda p: mul(G(l, p), Sf(i, p))))))
    return add(sub(t1, mul(num(2), t2)), t3)


def model(S, relaxed=False, infer=True, cls=CLS):
    key = ('aa', relaxed, cls)
    if key in S.cache:
        return reset(S.cache[key])
    facts = [le(ONE, n), le(ONE, k)] + ([lt(ZERO, delta)] if relaxed else [])
    m = Model(S, MOD, cls, lambda st: ([k], {'delta': delta if relaxed else 0}),
              {'C': ((k, n), 1), 'S': ((n, k), 1)}, {'K': ((n, n), 'symmetric')},
              ['_update_dictionary', '_update_weights'],
              lambda F: spec_aa(n, k, F('K'), F('C'), F('S'), F('alpha')), facts)
    m.k = k
    m.given = {'K': ((n, n), 'symmetric'), 'dictionary': ((k, n), 1), 'weights': ((n, k), 1)}
    m.data_args, m.kwname = ['K'], {}
    m.fs_inits = (None, 'furthest_sum')
    if cls == 'ArchetypalAnalysis':
        m.given = dict(m.given, X=((n, d), None))
        del m.given['K']
        m.data_args = ['X']
        m.base_facts.append(le(ONE, d))
        m.data_from = lambda q, F: (lambda i, j: mksum(0, d, lambda c: mul(F('X')(i, c), F('X')(j, c))))
    m.weights_attr, m.dict_attr = 'S', 'C'
    m.nit_offset = 1
    m.install = lambda **h: install(m, **h)
    install(m)
    if infer:
        m.infer()
    S.cache[key] = m
    return m


def install(m, step=None, proj=None):
    c = m.E.contracts
    c['reor.spg.get_next_spg_step_length'] = c_step_length(step)
    c['reor.spg.get_next_spg_alpha'] = c_alpha
    c['reor.simplex_projection.simplex_project_rows'] = c_project(1, proj)
    c['reor.simplex_projection.simplex_project_columns'] = c_project(0, proj)
    c['reor.simplex_projection.simplex_project_vector'] = c_project_vector(proj)


CASES = (('no relaxation', False), ('relaxed', True))


def scale_search(m, before, s):
    """the search over the scale factors of relaxed archetypal analysis (not part of C07)"""
    a, b = attrs(s, m.o), attrs(before, m.o)
    x, y = a.get('incr_alpha'), b.get('incr_alpha')
    return isinstance(x, Arr) and isinstance(y, Arr) and s.heap[x.buf].body is not before.heap[y.buf].body


def frobenius(S, relaxed):
    """the objective computed through K = X X^T is ||X - S D C X||_F^2"""
    E = S.engine()
    st = E.fresh_state()
    for f in (le(ONE, n), le(ONE, k), le(ONE, d)):
        st.assume(f)
    for nm, sh in (('X', (n, d)), ('C', (k, n)), ('S', (n, k)), ('al', (k,))):
        tm.fn(nm + '!l', len(sh), 'R', sh)
    X, C, Sf, al = [lambda *i, nm=nm: app(nm + '!l', *[num(x) for x in i]) for nm in ('X', 'C', 'S', 'al')]
    if not relaxed:
        al = lambda l: ONE
    K = lambda i, j: mksum(0, d, lambda c: mul(X(i, c), X(j, c)))
    R = lambda i, c: sub(X(i, c), mksum(0, k, lambda l: mul(Sf(i, l), al(l), mksum(0, n, lambda j: mul(C(l, j), X(j, c))))))
    S.ob('kernel form equals the squared Frobenius norm of the residual', st.ctx, eq(spec_aa(n, k, K, C, Sf, al), sum2(n, d, lambda i, c: power(R(i, c), 2))))
