"""Ownership: what a call writes in place are arrays it created itself.

Model classes: (1) every update method, run from an arbitrary state of the object, writes in place
only arrays held as attributes (the set is inferred per method), and never rebinds such an attribute to
an array that was not one of them; (2) the iteration writes nothing else; (3) whenever a public call
reaches the iteration, these attributes hold arrays allocated during that very call; (4) outside the
iteration the call writes nothing that existed before.  So no array that existed before the call
changes, whoever holds it.  Other entry points: frame conditions of their contracts."""
from contracts import aa, crom, fembv, gpnh, initial, mtd
from contracts import C15, C17, C18, C19, C20, C22, C23
from contracts.C25 import fitted, of, of_kmeans
from contracts.convex import *


def writes(m, before, s):
    """buffers that existed before and changed"""
    return {i for i, b in before.heap.items() if i in s.heap and s.heap[i].body is not b.body}


def holders(m, st, buf):
    return {q for q, v in attrs(st, m.o).items() if isinstance(v, Arr) and v.buf == buf}


def in_place(S, m):
    """attributes every method of the iteration writes in place, inferred from the code"""
    if getattr(m, 'places', None) is not None:
        return m.places
    res, bad = {}, []
    m.E.quiet += 1
    try:
        for u in m.updates + [m.cost]:
            st = m.havoc()
            before = st.fork()
            w = set()
            for s, v in m.run(st, u):
                for i in writes(m, before, s):
                    h = holders(m, before, i)
                    if h:
                        w |= h
                    else:
                        bad.append('%s: %s' % (u, before.heap[i].note))
            res[u] = w
    finally:
        m.E.quiet -= 1
    m.places = (res, bad)
    return m.places


def updates(S, build):
    m = build(S)
    res, bad = in_place(S, m)
    S.fact('only arrays of the object are written', not bad, '%s' % bad)
    every = set().union(*res.values())
    for u in m.updates + [m.cost]:
        st = m.havoc()
        before = st.fork()
        was = {attrs(before, m.o)[q].buf for q in every if isinstance(attrs(before, m.o).get(q), Arr)}
        for s, v in S.outcomes(m.E, m.run(st, u), u, raises=('RuntimeError',)):
            for q in sorted(every):
                x = attrs(s, m.o).get(q)
                S.fact('%s: %s stays an array of the run' % (u, q), not isinstance(x, Arr) or x.buf in was or x.buf not in before.heap)
            left = [before.heap[i].note for i in writes(m, before, s) if not holders(m, before, i) & res[u]]
            S.fact('%s: writes only the arrays inferred' % u, not left, '%s' % left)
    m.E.obligations = []


def iteration(S, build):
    m = build(S)
    res, bad = in_place(S, m)
    install_cost(m, True)
    install_updates(m)
    st = m.havoc()
    fit_settings(m, st)
    for fl in ((True,) * len(m.updates), tuple('weights' in u for u in m.updates)):
        if not any(fl):
            continue
        s0 = st.fork()
        LoopCut(m).install()
        before = s0.fork()
        for s, v in S.outcomes(m.E, m.run(s0, m.loop, [], dict(zip(flag_names(m), fl)) if m.loop == '_iterate' else {}), 'iteration', raises=('RuntimeError',)):
            left = [before.heap[i].note for i in writes(m, before, s) if not holders(m, before, i) & res[m.cost]]
            S.fact('iteration: writes nothing besides what its methods write', not left, '%s' % left)
    m.E.hooks.pop('loop', None)
    m.E.obligations = []


def unchanged(S, m, lab, before, s, own):
    """nothing that existed before the call has changed; workspaces that are never handed out excepted"""
    left = []
    for i in writes(m, before, s):
        h = holders(m, before, i)
        if not h or not h <= own or before.heap[i].origin == 'caller':
            left.append('%s (%s)' % (before.heap[i].note or 'buffer %d' % i, ', '.join(sorted(h)) or 'caller'))
    S.fact('%s: no array that existed before the call is changed' % lab, not left, 'changed: %s' % left)


def entry(S, build, init, call, flags=None):
    m = build(S)
    E = m.E
    res, bad = in_place(S, m)
    own = set().union(*res.values()) - set(m.factors) - {'dictionary_'}

    def at_iterate(eng, st, d):
        en = [u for u in m.updates if d.get('update_' + u[len('_update_'):]) in (None, True)]
        w = set().union(res[m.cost], *[res[u] for u in en])
        a = attrs(st, m.o)
        old = [q for q in sorted(w) if isinstance(a.get(q), Arr) and a[q].buf in box['before'].heap and (q not in own or box['before'].heap[a[q].buf].origin == 'caller'
                                                                                                    or not holders(m, box['before'], a[q].buf) <= own)]
        S.fact('%s: what the iteration writes in place was created by this call' % lab, not old, 'existed before the call: %s' % old)
        # arrays that are written in place may not be shared with anything that is kept
        shared = [q for q in sorted(w) for p in a if p not in w and isinstance(a[p], Arr) and isinstance(a.get(q), Arr) and a[p].buf == a[q].buf and a[p].buf in box['before'].heap]
        S.fact('%s: what the iteration writes in place is not shared with arrays of earlier calls' % lab, not shared, '%s' % shared)
        st.event('started')
    box = {}
    E.contracts[m.q('_iterate')] = c_iterate(m, at_iterate)
    install_cost(m, True)
    initial.install(E)
    if hasattr(m, 'more'):
        m.more()
    st = E.fresh_state()
    for f in m.base_facts:
        st.assume(f)
    st.assume(le(ONE, var('n0')))
    m.prepare(st)
    s0, o = fresh_fit(S, m, st, init, None, None)
    old, m.o = m.o, o
    lab = '%s (init=%r)' % (call, init)
    try:
        for again in (False, True):
            s1 = s0.fork()
            if again:
                fitted(m, s1, o, attrs(m.st0, old))
            elif call == 'transform':
                continue
            given = caller_arrays(m, s1, init)
            args = [given[x] for x in m.data_args]
            kw = {m.kwname.get(x, x): v for x, v in given.items() if x not in m.data_args and v is not None}
            if flags:
                for q, v in m.given_always.items():
                    if q not in m.data_args:
                        shape, ax = v
                        kw[m.kwname.get(q, q)] = s1.alloc_fn(shape, 'in.' + q, 'f', origin='caller') if ax is None else stoch_array(s1, shape, 'in.' + q, ax, origin='caller')
                kw.update(flags)
            box['before'] = before = s1.fork()
            for s, v in E.call(s1, E.getattr(s1, o, call), args, {} if call == 'transform' else kw):
                if isinstance(v, RaiseV) and not s.ctx.consistent():
                    continue
                unchanged(S, m, lab + (' after an earlier call' if again else ''), before, s, own)
                if isinstance(v, RaiseV):
                    continue
                a = attrs(s, o)
                out = {x.buf for x in [v] + [a.get(q) for q in list(m.factors) + ['dictionary_']] + args if isinstance(x, Arr)}
                leak = [q for q in sorted(own) if isinstance(a.get(q), Arr) and a[q].buf in out]
                S.fact('%s: work arrays are not handed out' % lab, not leak, '%s' % leak)
    finally:
        m.o = old
    E.obligations = []


class Frames:
    """A session that keeps only the frame conditions of the sections it runs."""

    def __init__(self, S, prefix='', pick=None):
        self.__dict__.update(S=S, prefix=prefix, pick=pick)

    def __getattr__(self, n):
        return getattr(self.__dict__['S'], n)

    def __setattr__(self, n, v):
        setattr(self.__dict__['S'], n, v)

    def ob(self, label, ctx, goal, where=None):
        return True

    def definedness(self, E):
        E.obligations = []

    def fact(self, label, ok, detail=None, where=None, backend='syntactic'):
        if label.endswith('frame'):
            return self.S.fact(label, ok, detail, where, backend)
        return ok

    def section(self, name, fn, *a, **k):
        if not self.pick or self.pick(name):
            self.S.section('%s: %s' % (self.__dict__['prefix'], name), lambda S, *a, **k: frames_of(S, fn, a, k), *a, **k)


def frames_of(S, fn, a, k):
    fn(Frames(S), *a, **k)


def prepared(mod, *a, **k):
    """model with the attributes written in place"""
    b0 = of(mod, *a, **k) if mod is not fembv else of_kmeans(*a)

    def build(S):
        m = b0(S)
        if mod is fembv:
            m.given = {'X': ((fembv.n, fembv.d), None), 'Theta': ((m.k, fembv.d), None), 'Gamma': ((fembv.n, m.k), 1)}
            m.kwname = {'Theta': 'parameters', 'Gamma': 'weights'}
        m.given_always = m.given
        in_place(S, m)
        return m
    return build


def varx_calls(S, kind, ext, kk):
    """FEMBVVARX: initialisation and parameter updates of a second run leave the data passed and what the
    first run reported alone"""
    from contracts.C21 import start
    E, st, o, memf, X, u, P, kw = start(S, kind, ext, kk)
    call = lambda st, nm, *a, **k: S.outcomes(E, list(E.call(st, E.getattr(st, o, nm), list(a), k)), nm)
    reported = ('mu', 'A', 'B0', 'Sigma_u', 'Gamma')

    def check(lab, before, s, own=()):
        bad = [before.heap[i].note or str(i) for i in writes_(before, s) if before.heap[i].origin == 'caller' or i in held(before) and i not in own]
        S.fact('%s: data and reported arrays are not changed' % lab, not bad, '%s' % bad)

    def held(st):
        return {v.buf for q in reported for v in [attrs(st, o).get(q)] if isinstance(v, Arr)}

    def writes_(before, s):
        return [i for i, b in before.heap.items() if i in s.heap and s.heap[i].body is not b.body]
    for s, _ in call(st, '_initialize_components', X, **kw):
        check('initialisation', st, s)
        attrs(s, o)['Gamma'] = stoch_array(s, (sub(fembv.n, P), kk), 'Gamma', 1)
        mine = held(s)
        b = s.fork()
        for s2, _ in call(s, '_update_parameters'):
            check('update', b, s2, mine - {attrs(b, o)['Gamma'].buf})
            b2 = s2.fork()
            for s3, _ in call(s2, '_initialize_components', X, **kw):
                check('initialisation of a second run', b2, s3)
                G = attrs(s3, o)['Gamma'] = stoch_array(s3, (sub(fembv.n, P), kk), 'Gamma2', 1)
                old = held(b2)
                b3 = s3.fork()
                new = [q for q in reported if isinstance(attrs(s3, o).get(q), Arr) and attrs(s3, o)[q].buf in old]
                S.fact('initialisation of a second run: reported arrays are new', not new, '%s' % new)
                for s4, _ in call(s3, '_update_parameters'):
                    check('update of a second run', b3, s4, held(b3) - {G.buf})
                    bad = [b3.heap[i].note or str(i) for i in writes_(b3, s4) if i in old]
                    S.fact('update of a second run: what the first run reported is not changed', not bad, '%s' % bad)
    E.obligations = []


def crom_parameters(S, build):
    """_fit_parameters of an object that was fitted before: the arrays of the earlier fit are left alone"""
    m = build(S)
    E = m.E
    res, bad = in_place(S, m)
    own = set().union(*res.values()) - set(m.factors)
    install_cost(m, True)
    install_updates(m)
    initial.install(E)
    st = m.pre_init.fork()
    fit_settings(m, st)
    a = attrs(st, m.o)
    for q, (shape, ax) in m.factors.items():
        a[q] = stoch_array(st, shape, 'earlier.' + q, ax)
    outs = S.outcomes(E, m.run(st, '_initialize_parameters_workspace'), 'workspaces')
    S.fact('workspaces: one outcome', len(outs) == 1)
    st = outs[0][0]
    q = m.q(m.updates[0])
    inner = E.contracts[q]
    box = {}

    def h(eng, s, f, args, kw):
        x = attrs(s, m.o)
        w = set().union(*res.values())
        old = [p for p in sorted(w) if isinstance(x.get(p), Arr) and x[p].buf in box['before'].heap
               and (p not in own or not holders(m, box['before'], x[p].buf) <= own)]
        S.fact('_fit_parameters: what the updates write in place was created by this call', not old, 'existed before the call: %s' % old)
        box['seen'] = True
        yield from inner(eng, s, f, args, kw)
    E.contracts[q] = h
    LoopCut(m).install()
    box['before'] = before = st.fork()
    try:
        for s, v in S.outcomes(E, m.run(st, '_fit_parameters'), '_fit_parameters', raises=('RuntimeError',)):
            unchanged(S, m, '_fit_parameters', before, s, own)
        S.fact('_fit_parameters: reaches the updates', bool(box.get('seen')))
    finally:
        E.contracts[q] = inner
        m.E.hooks.pop('loop', None)
    E.obligations = []


PARTIAL = ({'update_dictionary': False}, {'update_weights': False})


def verify(S):
    for mod, nm0, cases in ((aa, 'AA', aa.CASES), (gpnh, 'GPNH', mtd.CASES), (mtd, 'MTD', mtd.CASES)):
        for nm, c in cases:
            for cls in ('KernelAA', 'ArchetypalAnalysis') if mod is aa else (None,):
                b = prepared(mod, c, cls=cls) if cls else prepared(mod, c)
                S.warm(b)
                n0 = cls or nm0
                if cls != 'ArchetypalAnalysis':
                    S.section('%s updates (%s)' % (n0, nm), updates, b)
                    S.section('%s iteration (%s)' % (n0, nm), iteration, b)
                for i in (None, 'random', 'furthest_sum', 'custom'):
                    for e in ('fit_transform', 'fit', 'transform'):
                        S.section('%s %s (%s, init=%r)' % (n0, e, nm, i), entry, b, i, e)
                for f in PARTIAL:
                    S.section('%s fit_transform (%s, %s)' % (n0, nm, ', '.join('%s=%s' % z for z in f.items())), entry, b, 'random', 'fit_transform', f)
    for nm, one in (('two or more clusters', False), ('one cluster', True)):
        b = prepared(fembv, one)
        S.warm(b)
        S.section('FEMBVKMeans updates (%s)' % nm, updates, b)
        S.section('FEMBVKMeans iteration (%s)' % nm, iteration, b)
        for i in (None, 'random', 'custom'):
            for e in ('fit_transform', 'fit', 'transform'):
                S.section('FEMBVKMeans %s (%s, init=%r)' % (e, nm, i), entry, b, i, e)
    for nm, one in crom.CASES:
        def b(S, one=one):
            m = crom.model(S, one)
            in_place(S, m)
            return m
        S.warm(b)
        S.section('GPNH CROM updates (%s)' % nm, updates, b)
        S.section('GPNH CROM parameters (%s)' % nm, crom_parameters, b)
    for knm, kind in (('no memory', 'none'), ('memory per component', 'list')):
        for ext in (False, True):
            S.section('FEMBVVARX (%s, %s external factors)' % (knm, 'with' if ext else 'without'), varx_calls, kind, ext, fembv.k)
    for mod, prefix, pick in ((C15, 'forecast', lambda q: 'predict' in q), (C17, 'FEMBV', lambda q: q != 'lemma'),
                              (C18, 'FEMBV', lambda q: q.startswith('update')), (C19, 'FEMBVKMeans', lambda q: q.startswith(('distances', 'initialisation', 'update'))),
                              (C20, 'local model', None), (C22, 'PWVARX', None), (C23, 'KMeansMarkovCROM', None)):
        mod.verify(Frames(S, prefix, pick))
