"""FEM-BV affiliations: the linear program given to the solver, and what is made of its solution.

Trusted: the solver returns a minimiser of the program it is given, or reports failure.  Proved:
the program is "minimise the affiliation-weighted distances subject to the constraints of C17",
and the new affiliations are the solution's.  C17 shows that these constraints are exactly
non-negativity, unit sums and bounded variation."""
from contracts.fembv import *
from contracts.sums import split_sum
from contracts.convex import only

CASES = (('no bound', None, False), ('negative bound', 'neg', False), ('bound', 'pos', False), ('one component', 'pos', True))


def ncols(kk, bound):
    return add(mul(n, kk), mul(kk, sub(n, ONE))) if bound else mul(n, kk)


def constraints_for(kk, bound, log):
    """FEMBV._initialize_constraints (C17): matrices of the expected shape."""
    def h(eng, st, f, args, kw):
        b = eng.bind_args(st, f, args[1:] if f.bound is not None and args and args[0] is f.bound else args, kw)
        if isinstance(b, RaiseV):
            yield st, b
            return
        o = f.bound if f.bound is not None else args[0]
        N = b['n_samples']
        eng.oblige(st, eq(num(N), n), 'the constraints are made for the number of samples', 'pre')
        a = attrs(st, o)
        G = a.get('Gamma')
        eng.oblige(st, eq(G.shape[1], a['n_components'] if isinstance(a['n_components'], T) else num(a['n_components'])),
                   'the constraints are made for the components of the affiliations', 'pre')
        m = ncols(kk, bound)
        r = add(m, mul(num(2), kk, sub(n, ONE)), kk) if bound else m
        for nm, rows in (('eq', n), ('ub', r)):
            z = tm.fresh_var('nnz')
            st.assume(le(ZERO, z))
            q = [st.alloc_fn((z,), tm.fresh_name(nm + x), 'f' if x == 'v' else 'i') for x in 'vrc']
            a['A_' + nm] = st.newobj('csr', {'data': q[0], 'rows': q[1], 'cols': q[2], 'shape': (rows, m)})
            a['b_' + nm] = st.alloc_fn((rows,), tm.fresh_name('b' + nm), 'f')
        log.append(o)
        st.event('constraints')
        yield st, None
    return h


def c_distances(kk):
    """_evaluate_distance_matrix of a model: some distances for the current parameters."""
    def h(eng, st, f, args, kw):
        o = f.bound if f.bound is not None else args[0]
        nm = tm.fresh_name('dist')
        st.setattr(o, 'distance_matrix', st.alloc_fn((n, kk), nm, 'f'))
        st.event('distances', nm)
        yield st, None
    return h


def solution(kk, bound, made):
    """A solution of the constraints: by C17, affiliations in the first n*k entries (row by row)
    that are non-negative and sum to one, then the auxiliary values."""
    def h(eng, st, N):
        g, e_ = tm.fresh_name('lpGamma'), tm.fresh_name('lpEta')
        F = stoch_fn(g, (n, kk), 1)
        F.facts.append(lambda t, i: implies(rng((t, n), (i, kk)), le(app(g, t, i), ONE)))
        tm.fn(e_, 1, 'R')
        made.append((g, e_))
        m = mul(n, kk)
        return st.alloc((N,), lambda i: ite(lt(i[0], m), app(g, tm.fdiv(i[0], kk), tm.mod(i[0], kk)), app(e_, sub(i[0], m))), 'f')
    return h


def setup(S, tv, one):
    E = S.engine()
    kk = ONE if one else k
    st = E.fresh_state()
    st.assume(le(ONE, n))
    if not one:
        st.assume(le(num(2), k))
    b = None if tv is None else var('tv', 'R')
    if b is not None:
        st.assume(le(ZERO, b) if tv == 'pos' else lt(b, ZERO))
    outs = S.outcomes(E, list(E.call(st, E.func('reor.fembv', 'FEMBV'), [kk, b], {})), 'constructor')
    if len(outs) != 1:
        raise Unsupported('constructor has %d outcomes' % len(outs))
    st, o = outs[0]
    log = []
    E.contracts[BASE + '._initialize_constraints'] = constraints_for(kk, tv == 'pos', log)
    E.contracts[BASE + '._evaluate_distance_matrix'] = c_distances(kk)
    initial.install(E)
    return E, st, o, kk, tv == 'pos', log


def initialise(S, tv, one, init):
    """The initial affiliations are set before the constraints, which are made for them."""
    E, st, o, kk, bound, log = setup(S, tv, one)
    attrs(st, o)['distance_matrix'] = st.alloc_fn((n, kk), 'dist0', 'f')
    kw = {'init': init}
    if init == 'custom':
        kw['weights'] = stoch_array(st, (n, kk), 'in.Gamma', 1, origin='caller')
    E.contracts[BASE + '._initialize_components'] = lambda eng, st, f, args, kw: iter([(st, None)])
    lab = 'initialisation (%s)' % init
    X = st.alloc_fn((n, d), 'in.X', 'f', origin='caller')
    st.assume(le(ONE, d))
    for s, v in S.outcomes(E, list(E.call(st, E.getattr(st, o, '_initialize'), [X], kw)), lab):
        S.fact('%s: constraints are made' % lab, any(x[0] == 'constraints' for x in s.events()))
        G = attrs(s, o)['Gamma']
        S.ob('%s: shape of the affiliations' % lab, s.ctx, tand(eq(G.shape[0], n), eq(G.shape[1], kk)) if len(G.shape) == 2 else FALSE)
        S.fact('%s: the affiliations are an array of the model' % lab, s.heap[G.buf].origin != 'caller')
        t, i = tm.fresh_var('t'), tm.fresh_var('i')
        g = fn1(s, G)
        c = s.ctx.extend(rng((t, n), (i, kk)))
        S.ob('%s: affiliations are non-negative' % lab, c, le(ZERO, g(t, i)))
        S.ob('%s: affiliations sum to one' % lab, c, eq(mksum(0, kk, lambda j: g(t, j)), ONE))
    only(E, 'pre')
    S.definedness(E)


def update(S, tv, one, status):
    E, st, o, kk, bound, log = setup(S, tv, one)
    a = attrs(st, o)
    a['Gamma'] = stoch_array(st, (n, kk), 'Gamma', 1)
    if bound:
        a['Eta'] = st.alloc_fn((n, kk), 'Eta0', 'f')
    a['distance_matrix'] = st.alloc_fn((n, kk), 'stale', 'f')
    outs = list(E.call(st, E.getattr(st, o, '_initialize_constraints'), [n], {}))
    st = outs[0][0]
    made = []
    E.hooks['lp_status'] = status
    E.hooks['lp_value'] = solution(kk, bound, made)
    a = attrs(st, o)
    rows = {nm: (fn1(st, a['b_' + nm]), a['b_' + nm].shape[0], a['A_' + nm]) for nm in ('eq', 'ub')}
    before = st.fork()
    g0 = fn1(before, a['Gamma'])
    lab = '_update_weights (%s)' % status
    t, i = tm.fresh_var('t'), tm.fresh_var('i')
    for s, v in S.outcomes(E, list(E.call(st, E.getattr(st, o, '_update_weights'), [], {})), lab):
        b = attrs(s, o)
        G = b['Gamma']
        if one or status != 'optimal':
            S.ob('%s: affiliations are kept' % lab, s.ctx.extend(rng((t, n), (i, kk))), eq(fn1(s, G)(t, i), g0(t, i)))
            only_changes(S, E, lab, before, s, o, ('distance_matrix', 'Gamma') if not one else (), ())
            if one:
                continue
        solves = [x for x in s.events()[len(before.events()):] if x[0] == 'solve']
        S.fact('%s: one program is solved' % lab, len(solves) == 1, '%d' % len(solves))
        if len(solves) != 1:
            continue
        program(S, lab, before, s, o, solves[0][1], rows, kk, bound)
        if status != 'optimal':
            continue
        only_changes(S, E, lab, before, s, o, ('Gamma', 'Eta', 'distance_matrix'))
        if len(made) != 1:
            S.fact('%s: the solution is used' % lab, False, '%d' % len(made))
            continue
        g, e_ = made[0]
        S.ob('%s: shape of the affiliations' % lab, s.ctx, tand(eq(G.shape[0], n), eq(G.shape[1], kk)) if len(G.shape) == 2 else FALSE)
        S.ob('%s: the affiliations are those of the solution' % lab, s.ctx.extend(rng((t, n), (i, kk))), eq(fn1(s, G)(t, i), app(g, t, i)))
        made.clear()
    only(E, 'pre', 'bounds', 'shape')
    S.definedness(E)


def program(S, lab, before, s, o, prob, rows, kk, bound):
    """minimise sum of distances times affiliations subject to the constraints made by C17"""
    d_ = s.objs[prob.id][1]
    ob = s.objs[d_['objective'].id][1]
    kind = lambda r: s.objs[r.id][1].get('kind') if isinstance(r, ObjRef) and s.objs[r.id][0] == 'cvx' else None
    if ob['kind'] not in ('min', 'max') or kind(ob['e']) != 'inner':
        raise Unsupported('objective of the program')
    S.fact('%s: the objective is minimised' % lab, ob['kind'] == 'min')
    inner = s.objs[ob['e'].id][1]
    x = inner['x']
    if kind(x) != 'var':
        raise Unsupported('objective of the program')
    X = s.objs[x.id][1]
    S.ob('%s: one variable for every column of the constraints' % lab, s.ctx, eq(X['n'], ncols(kk, bound)))
    dist = [y for y in s.events()[len(before.events()):] if y[0] == 'distances']
    S.fact('%s: the distances are evaluated for the current parameters' % lab, bool(dist))
    if dist:
        # the contract of the distances depends on the parameters only: all evaluations agree
        D = dist[-1][1]
        for y in dist[:-1]:
            raise Unsupported('distances evaluated twice')
        tm.fn('x', 1, 'R')
        xv = lambda c: app('x', c)
        cf = inner['cf']
        total = split_sum(s.ctx, X['n'], lambda w: mul(cf((w,)), xv(w)))
        m = mul(n, kk)
        want = split_sum(s.ctx, m, lambda w: mul(app(D, tm.fdiv(w, kk), tm.mod(w, kk)), xv(w)))
        S.ob('%s: the objective is the affiliation-weighted sum of the distances' % lab, s.ctx, eq(total, want))
    left = {'eq', 'ub'}
    for c in d_['cons']:
        q = s.objs[c.id][1]
        if kind(c) != 'con' or kind(q['lhs']) != 'prod' or q['rhsf'] is None:
            raise Unsupported('constraint of the program')
        p = s.objs[q['lhs'].id][1]
        nm = [z for z in rows if rows[z][2] is p['m'] or rows[z][2].id == p['m'].id]
        if not nm:
            raise Unsupported('constraint with another matrix')
        nm = nm[0]
        S.fact('%s: constraint on the variable of the objective' % lab, p['x'].id == x.id)
        rel = {'eq': ('eq',), 'ub': ('le', 'lt')}[nm]
        S.fact('%s: direction of the %s constraint' % (lab, nm), q['op'] in rel, q['op'])
        r = tm.fresh_var('r')
        S.ob('%s: right side of the %s constraint' % (lab, nm), s.ctx.extend(rng((r, rows[nm][1]))), eq(q['rhsf']((r,)), rows[nm][0](r)))
        left.discard(nm)
    S.fact('%s: all constraints are given to the solver' % lab, not left, 'missing: %s' % sorted(left))


def lemma(S):
    """An entry of a row that is non-negative and sums to one is at most one."""
    st = S.engine().fresh_state()
    F = stoch_fn('sg', (n, k), 1)
    t, i = tm.fresh_var('t'), tm.fresh_var('i')
    c = st.ctx.extend(rng((t, n), (i, k)))
    rest = mksum(0, k, lambda j: ite(eq(j, i), ZERO, app('sg', t, j)))
    S.ob('entries of a simplex row: the others sum to one minus the entry', c, eq(rest, sub(ONE, app('sg', t, i))))
    S.ob('entries of a simplex row: the others are non-negative', c, le(ZERO, rest))


def verify(S):
    for nm, tv, one in CASES:
        for i in ('random', 'custom'):
            S.section('initialisation (%s, %s)' % (nm, i), initialise, tv, one, i)
        for z in ('optimal',) if one else ('optimal', 'infeasible', 'unbounded'):
            S.section('update (%s, solver: %s)' % (nm, z), update, tv, one, z)
    S.section('lemma', lemma)
