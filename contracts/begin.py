"""Fits up to the first iteration: the iteration and the update methods stop the run with `Iterated`,
so that what is rejected, what is accepted and from where the optimisation starts can be stated."""
from contracts.base import *
from contracts.models import stoch_fn
from contracts import fembv, initial
from contracts.mtd import lag_fn, lag_list, max_lag

n, d, k, L = var('n'), var('d'), var('k'), var('L')


class Kind:
    """One model class: name, where, what the iteration is, samples or features as default number of
    components, guesses: argument name -> (attribute, shape, axis of the unit sums or None)."""

    def __init__(self, name, mod, cls, guesses, updates, all_='features', kernel=False, lags=False, tv=False, memory=None, external=False, flags=()):
        self.__dict__.update(locals())

    def __repr__(self):
        return self.name


W = ('weights', 1)
ALL = [
    Kind('KernelAA', 'reor.archetypal_analysis', 'KernelAA', {'weights': ('S', (n, k), 1), 'dictionary': ('C', (k, n), 1)},
         ('dictionary', 'weights'), 'samples', kernel=True, flags=('dictionary', 'weights')),
    Kind('ArchetypalAnalysis', 'reor.archetypal_analysis', 'ArchetypalAnalysis', {'weights': ('S', (n, k), 1), 'dictionary': ('C', (k, n), 1)},
         ('dictionary', 'weights'), 'samples', flags=('dictionary', 'weights')),
    Kind('GPNH', 'reor.gpnh_convex_coding', 'GPNHConvexCoding', {'weights': ('Gamma', (n, k), 1), 'dictionary': ('S', (k, d), None)},
         ('dictionary', 'weights'), flags=('dictionary', 'weights')),
    Kind('MTD', 'reor.mtd_convex_coding', 'MTDConvexCoding',
         {'weights': ('Gamma', (n, k), 1), 'dictionary': ('S', (k, d), None), 'order_weights': ('order_weights', (L,), 0),
          'transition_matrices': ('transition_matrices', (L, k, k), 1)}, ('dictionary', 'weights', 'parameters'), lags=True,
         flags=('dictionary', 'weights', 'parameters')),
    Kind('GPNH CROM', 'reor.gpnh_convex_coding_crom', 'GPNHConvexCodingCROM', {'weights': ('Gamma', (n, k), 1), 'dictionary': ('S', (k, d), None)},
         ('dictionary', 'weights'), lags=True),
    Kind('FEMBVKMeans', 'reor.fembv_kmeans', 'FEMBVKMeans', {'weights': ('Gamma', (n, k), 1), 'parameters': ('Theta', (k, d), None)},
         ('weights', 'parameters'), tv=True),
    Kind('FEMBVVARX', 'reor.fembv_varx', 'FEMBVVARX', {'weights': ('Gamma', (n, k), 1)}, ('weights', 'parameters'), tv=True, memory='none'),
    Kind('FEMBVVARX with memory', 'reor.fembv_varx', 'FEMBVVARX', {'weights': ('Gamma', (n, k), 1)}, ('weights', 'parameters'), tv=True,
         memory='scalar', external=True),
]
SETTINGS = {'alpha_min': 'R', 'alpha_max': 'R', 'sigma_one': 'R', 'sigma_two': 'R', 'gamma': 'R', 'step_size_tolerance': 'R'}


class Run:
    """An engine and an initial state with the arrays and the settings of a valid fit."""

    def __init__(self, S, K):
        self.S, self.K = S, K
        self.E = E = S.engine()
        st = self.st = E.fresh_state()
        for f in (le(ONE, n), le(ONE, d), le(ONE, k), le(k, n)):
            st.assume(f)
        if K.lags:
            st.assume(le(ONE, L))
            lag_fn()
        initial.install(E)
        self.P = ZERO
        if K.memory:
            E.contracts[fembv.LM + '.__init__'] = fembv.c_local_init
            E.contracts[fembv.LM + '.fit'] = fembv.c_local_fit
            E.hooks['elem_attr'] = fembv.elem_attr
            if K.memory == 'scalar':
                self.P = var('mem')
                st.assume(tand(le(ZERO, self.P), lt(self.P, n)))
        if K.tv:
            E.contracts[fembv.BASE + '._initialize_constraints'] = fembv.c_constraints
        C = E.func(K.mod, K.cls)
        for u in ('_iterate', '_fit_parameters') + tuple('_update_' + u for u in K.updates):
            f = C.lookup(u)
            if f is not None:
                E.contracts[f.qual] = self.stop(u)
        self.C = C

    def stop(self, what):
        def h(eng, st, f, args, kw):
            b = eng.bind_args(st, f, args[1:] if f.bound is not None else args, kw)
            st.event('iteration', what, b)
            yield st, RaiseV(ExcV('Iterated'))
        return h

    def data(self, st):
        K = self.K
        if K.kernel:
            tm.fn('in.K', 2, 'R', (n, n), True)
            return st.alloc((n, n), lambda i: app('in.K', *i), 'f', origin='caller', note='in.K')
        return st.alloc_fn((n, d), 'in.X', 'f', origin='caller')

    def shape(self, q):
        a, sh, ax = self.K.guesses[q]
        return tuple(tm.subst(num(x), {'n': sub(n, self.P)}) if self.K.memory else num(x) for x in sh)

    def options(self, st, init, **over):
        K = self.K
        o = {'init': init, 'max_iterations': var('max_iter'), 'tolerance': var('tol', 'R'), 'random_state': st.newobj('Rng', {'which': 'given'})}
        st.assume(tand(le(ONE, var('max_iter')), le(ZERO, var('tol', 'R'))))
        if K.lags:
            st.assume(lt(max_lag(self.E, st), n))
            o['lags'] = lag_list(st)
        if K.memory == 'scalar':
            o['memory'] = self.P
        o.update(over)
        return o

    def fit(self, st, entry, components, opts, args, kw):
        """outcomes of constructor and entry point: (state, value, object or None)"""
        E, K = self.E, self.K
        cargs = [components] + ([var('tv', 'R')] if K.tv else [])
        for s, o in list(E.call(st, self.C, cargs, opts)):
            if isinstance(o, RaiseV):
                yield s, o, None
                continue
            if K.external:
                kw = dict(kw, external_factors=s.alloc_fn((n, fembv.e), 'in.u', 'f', origin='caller'))
                s.assume(le(ONE, fembv.e))
            for s2, v in list(E.call(s, E.getattr(s, o, entry), args, kw)):
                yield s2, v, o

    def feasible(self, outs):
        res = []
        for s, v, o in outs:
            if s.ctx.consistent() and not self.S.infeasible(s):
                res.append((s, v, o))
        return res


def exception(v):
    if not isinstance(v, RaiseV):
        return None
    c = v.exc.cls
    return c if isinstance(c, str) else getattr(c, 'name', str(c))


def guess(st, q, shape, axis, sums=None):
    """A caller's array; its sums along the axis are the values of the function symbol `sums`."""
    nm = 'in.' + q
    shape = tuple(num(x) for x in shape)
    if axis is None or sums is None:
        return st.alloc_fn(shape, nm, 'f', origin='caller')
    F = tm.fn(nm, len(shape), 'R', shape)
    if not F.sumrules:
        oth = [s for p, s in enumerate(shape) if p != axis]
        tm.fn(sums, max(len(oth), 1), 'R', oth)
        F.sumrules.append((axis, lambda *o: ZERO, lambda *o: shape[axis], (lambda *o: rng(*zip(o, oth))) if oth else None,
                           lambda *o: app(sums, *(o or (ZERO,)))))
    return st.alloc(shape, lambda i: app(nm, *i), 'f', origin='caller', note=nm)
