"""Obligations shared by the alternating-update models: which of them belong to which
property is decided in contracts/C06..C16.py."""
import itertools
from contracts.base import *
from contracts.models import *
from dv.prover import prove


def install_cost(m, abstract=False):
    m.E.contracts[m.q(m.cost)] = m.c_cost(abstract)


def install_updates(m):
    for u in m.updates:
        m.E.contracts[m.q(u)] = m.c_update(u)


def drop_updates(m):
    for u in m.updates:
        m.E.contracts.pop(m.q(u), None)


def only(E, *kinds):
    """Keep the engine obligations of these kinds (the others belong to another property)."""
    E.obligations = [o for o in E.obligations if o.kind in kinds]


# C07 / C09 / C11 ------------------------------------------------------------------------

def updates_cost(S, build):
    m = build(S)
    install_cost(m)
    for u in m.updates:
        st = m.havoc()
        for s, v in S.outcomes(m.E, m.run(st, u), u):
            m.check_inv(u, st, s, stochastic=False)
    S.definedness(m.E)


def line_search_costs(S, build, skip=None, may_be_empty=False):
    """Every pair of costs a line search hands to the step rule is the documented objective:
    of the factors before the search, and of the trial factors held at that moment."""
    m = build(S)
    for u in m.updates:
        m.E.obligations = []
        st = m.havoc()
        before = st.fork()
        sp0 = m.spec_of(before)

        def hook(eng, s, cur, delta, fo, fn_):
            if eng.quiet or (skip and skip(m, before, s)):
                return
            eng.oblige(s, eq(fo, sp0), '%s line search: cost at the start is the documented objective' % u, 'cost')
            eng.oblige(s, eq(fn_, m.spec_of(s)), '%s line search: cost of the trial point is the documented objective' % u, 'cost')
        m.install(step=hook)
        S.outcomes(m.E, m.run(st, u), u)
        only(m.E, 'cost')
        S.fact('%s: its line search is seen' % u, may_be_empty or bool(m.E.obligations))
        S.definedness(m.E)
    m.install()


def cost_method(S, build):
    """_evaluate_cost in an arbitrary state satisfying the invariant: the documented objective,
    and nothing else changes than caches."""
    m = build(S)
    install_cost(m)
    st = m.havoc()
    before = st.fork()
    for s, v in S.outcomes(m.E, m.run(st, m.cost), m.cost):
        for k in list(m.factors) + list(m.data):
            S.fact('%s: %s unchanged' % (m.cost, k), same(attrs(s, m.o)[k], attrs(before, m.o)[k])
                   and s.heap[attrs(s, m.o)[k].buf].body is before.heap[attrs(before, m.o)[k].buf].body)
        m.check_inv(m.cost, before, s, stochastic=False)
    S.definedness(m.E)


def flag_names(m):
    return ['update_' + u[len('_update_'):] for u in m.updates]


def iterate(S, build, flags=None, hook=None, post=None, pre=None, events=()):
    """_iterate with the update methods replaced by their contracts; the loop by its contract."""
    m = build(S)
    install_cost(m, True)
    install_updates(m)
    if flags is None:
        N = len(m.updates)
        flags = [f for f in itertools.product((True, False), repeat=N) if any(f) and (N < 3 or sum(f) in (1, 3) or f == (False, True, True))]
    for fl in flags:
        st = m.havoc()
        fit_settings(m, st)
        if pre:
            pre(m, st)
        lc = LoopCut(m, (lambda eng, head, end, k, kind, n, fl=fl: hook(S, m, fl, eng, head, end, k, kind, n)) if hook else None)
        lc.install()
        before = st.fork()
        outs = S.outcomes(m.E, m.run(st, '_iterate', [], dict(zip(flag_names(m), fl))),
                          '_iterate%r' % (fl,), raises=('RuntimeError',))
        S.fact('_iterate%r: the iteration loop is covered by its loop contract' % (fl,), lc.used > 0 or not any(m.mods[u] for u, f in zip(m.updates, fl) if f))
        for s, v in outs:
            if post:
                post(S, m, fl, before, s, v)
    m.E.hooks.pop('loop', None)
    S.definedness(m.E)


def fit_settings(m, st):
    a = attrs(st, m.o)
    mi, tol = var('max_iter'), var('tol', 'R')
    a['max_iterations'], a['tolerance'] = mi, tol
    st.assume(le(ONE, mi))
    st.assume(le(ZERO, tol))
    return mi, tol


def post_cost(S, m, fl, before, s, v):
    """_iterate returns the objective of the factors it leaves behind."""
    if not (isinstance(v, tuple) and len(v) == 2):
        S.fact('_iterate%r returns (cost, iterations)' % (fl,), False, repr(v))
        return
    c = v[0] if isinstance(v[0], T) else num(v[0])
    S.ob('_iterate%r: returned cost is the objective of the final factors' % (fl,), s.ctx, eq(c, m.abstract_cost(s)))


def c_iterate(m, hook=None):
    """Contract of _iterate (proved by `iterate`): from any state satisfying the invariant it
    changes only what the enabled updates may change, keeps the invariant and returns the
    objective of the final factors."""
    def h(eng, st, f, args, kw):
        d = eng.bind_args(st, f, args[1:] if f.bound is not None else args, kw)
        if isinstance(d, RaiseV):
            yield st, d
            return
        if hook:
            hook(eng, st, d)
        m.pre_update(eng, st, '_iterate')
        mods = set()
        for u in m.updates:
            flag = d.get('update_dictionary') if 'dictionary' in u else d.get('update_weights')
            flag = d.get('update_parameters') if 'parameters' in u else flag
            if flag is None or flag is True:
                mods |= m.mods[u]
            elif flag is not False:
                raise Unsupported('_iterate called with an unknown flag')
        m.havoc(st, mods)
        nit = tm.fresh_var('niter')
        mi = attrs(st, m.o)['max_iterations']
        st.assume(tand(le(ONE, nit), le(nit, mi if isinstance(mi, T) else num(mi))))
        rep = sub(nit, num(m.nit_offset)) if getattr(m, 'nit_offset', 0) else nit
        st.event('iterate', nit, rep)
        yield st, (m.abstract_cost(st), rep)
    return h


def fresh_fit(S, m, st, init, data_shape, extra=None):
    """A new object of the class with the given initialisation, and symbolic settings."""
    E = m.E
    C = E.func(m.mod, m.cls)
    kws = {}
    for nm, v in m.opts.items():
        kws[nm] = v
    mi, tol = var('max_iter'), var('tol', 'R')
    st.assume(le(ONE, mi))
    st.assume(le(ZERO, tol))
    kws.update({'max_iterations': mi, 'tolerance': tol, 'init': init})
    args, k2 = m.ctor(st)
    kws.update(k2)
    kws.update(extra or {})
    outs = S.outcomes(E, list(E.call(st, C, args, kws)), 'constructor')
    if len(outs) != 1:
        raise Unsupported('constructor has %d outcomes' % len(outs))
    return outs[0]


def caller_arrays(m, st, init):
    """Arrays the caller passes: data, and for a custom start the factors."""
    given = {}
    for nm, (shape, ax) in m.given.items():
        if init != 'custom' and nm not in m.data_args:
            given[nm] = None
            continue
        if ax is None:
            given[nm] = st.alloc_fn(shape, 'in.' + nm, 'f', origin='caller')
        elif ax == 'symmetric':
            tm.fn('in.' + nm, 2, 'R', shape, True)
            given[nm] = st.alloc(shape, lambda i, nm=nm: app('in.' + nm, *i), 'f', origin='caller', note='in.' + nm)
        else:
            given[nm] = stoch_array(st, shape, 'in.' + nm, ax, origin='caller')
    return given


def fit_runs(S, build, inits, check, entry='fit_transform', flags=None, iterate_hook=None, extra=None, definedness=False):
    """Runs the public entry point with _iterate behind its contract."""
    m = build(S)
    E = m.E
    for init in inits:
        E.contracts[m.q('_iterate')] = c_iterate(m, iterate_hook)
        install_cost(m, True)
        from contracts import initial
        initial.install(E)
        st = E.fresh_state()
        for f in m.base_facts:
            st.assume(f)
        given = caller_arrays(m, st, init)
        s0, o = fresh_fit(S, m, st, init, None, extra)
        old, m.o = m.o, o
        try:
            args = [given[x] for x in m.data_args]
            kw = {m.kwname.get(x, x): v for x, v in given.items() if x not in m.data_args and v is not None}
            before = s0.fork()
            outs = S.outcomes(E, m.run(s0, entry, args, kw), '%s(init=%r)' % (entry, init),
                              raises=('ValueError',) if init in m.fs_inits else ())
            for s, v in outs:
                fitted_data(S, m, '%s(init=%r)' % (entry, init), given, before, s)
                check(S, m, init, given, before, s, v)
        finally:
            m.o = old
    if not definedness:
        only(E, 'cost', 'pre')
    S.definedness(E)


def fitted_data(S, m, lab, given, before, s):
    """The data the model works on is what the caller passed (for the objective to be about it)."""
    for k in m.data:
        arr = attrs(s, m.o).get(k)
        want = m.data_from(k, lambda q: fn1(before, given[q]))
        if not isinstance(arr, Arr):
            S.fact('%s: %s is set' % (lab, k), False, repr(arr))
            continue
        idx = [tm.fresh_var('ix') for _ in arr.shape]
        S.ob('%s: the data the objective refers to are the data passed (%s)' % (lab, k), s.ctx.extend(rng(*zip(idx, arr.shape))),
             eq(s.cell(arr, idx), want(*idx)))


def check_fit_cost(S, m, init, given, before, s, v):
    a = attrs(s, m.o)
    lab = 'fit_transform(init=%r)' % init
    c = a.get('cost_')
    S.fact('%s stores a cost' % lab, isinstance(c, (T, int, float)))
    if isinstance(c, (T, int, float)):
        S.ob('%s: reported cost is the objective of the final factors' % lab, s.ctx, eq(c if isinstance(c, T) else num(c), m.abstract_cost(s)))
    same_content(S, m, s, v, m.weights_attr, '%s: returned weights are the final weights' % lab)
    same_content(S, m, s, a.get('dictionary_'), m.dict_attr, '%s: dictionary_ is the final dictionary' % lab)


def same_content(S, m, s, arr, attr, label):
    b = attrs(s, m.o)[attr]
    if not isinstance(arr, Arr) or len(arr.shape) != len(b.shape):
        S.fact(label, False, repr(arr))
        return
    idx = [tm.fresh_var('ix') for _ in b.shape]
    S.ob(label, s.ctx.extend(rng(*zip(idx, b.shape))), tand(*([eq(x, y) for x, y in zip(arr.shape, b.shape)] + [eq(s.cell(arr, idx), s.cell(b, idx))])))


# C06 / C13 ------------------------------------------------------------------------------

def updates_stochastic(S, build):
    m = build(S)
    for u in m.updates:
        st = m.havoc()
        before = st.fork()
        for s, v in S.outcomes(m.E, m.run(st, u), u):
            m.check_inv(u, before, s, caches=False)
    only(m.E, 'pre')
    S.definedness(m.E)


def post_stochastic(S, m, fl, before, s, v):
    for k, (shape, ax) in m.factors.items():
        if ax is not None and ax != 'symmetric':
            m.check_stoch('_iterate%r' % (fl,), s, attrs(s, m.o)[k], ax, k)


def check_fit_stochastic(S, m, init, given, before, s, v):
    lab = 'fit_transform(init=%r)' % init
    for k, (shape, ax) in m.factors.items():
        if ax is not None and ax != 'symmetric':
            m.check_stoch(lab, s, attrs(s, m.o)[k], ax, k)
    if isinstance(v, Arr):
        m.check_stoch(lab, s, v, m.factors[m.weights_attr][1], 'returned weights')
    else:
        S.fact('%s returns an array' % lab, False, repr(v))
    ax = m.factors[m.dict_attr][1]
    da = attrs(s, m.o).get('dictionary_')
    if ax is not None and isinstance(da, Arr):
        m.check_stoch(lab, s, da, ax, 'dictionary_')
