"""FEM-BV constraints: what the generated matrices say, and that this is exactly bounded variation."""
import itertools
from contracts.fembv import *
from contracts.sums import split_sum
from contracts.convex import only
from dv.evalt import Inst

CASES = (('no bound', None), ('negative bound', 'neg'), ('bound', 'pos'))


def build(S, tv, loose=False):
    E = S.engine()
    st = E.fresh_state()
    st.assume(le(ONE, n))
    st.assume(le(num(2), k))
    b = None if tv is None else var('tv', 'R')
    if b is not None:
        st.assume(le(ZERO, b) if tv == 'pos' else lt(b, ZERO))
    outs = S.outcomes(E, list(E.call(st, E.func('reor.fembv', 'FEMBV'), [k, b], {})), 'constructor')
    if len(outs) != 1:
        raise Unsupported('constructor has %d outcomes' % len(outs))
    st, o = outs[0]
    attrs(st, o)['Gamma'] = stoch_array(st, (n, k), 'Gamma', 1)
    return E, st, o, b


def product(st, m, x, ctx):
    """row r of the matrix times x, the sum over its entries split by exact lemmas"""
    q = st.objs[m.id][1]
    fd, fr, fc = [st.fn_of(q[z]) for z in ('data', 'rows', 'cols')]
    R = tm.fresh_var('row')
    t = split_sum(ctx.extend(le(ZERO, R)), q['data'].shape[0], lambda w: ite(eq(fr((w,)), R), mul(fd((w,)), x(fc((w,)))), ZERO))
    return lambda r: tm.subst(t, {R.val: num(r)})


class Layout:
    """Order of the blocks of inequality rows and of the auxiliary columns."""

    def __init__(self, blocks, by_time, bound):
        self.blocks, self.by_time = blocks, by_time
        m = mul(k, sub(n, ONE))
        self.ncols = add(mul(n, k), m) if bound else mul(n, k)
        self.size = {'nonneg': self.ncols, 'up': m, 'down': m, 'tv': k}
        self.off, o = {}, ZERO
        for b in blocks:
            self.off[b] = o
            o = add(o, self.size[b])
        self.nrows = o

    def gamma(self, t, i):
        return add(mul(t, k), i)

    def eta(self, t, i):
        return add(mul(n, k), add(mul(t, k), i) if self.by_time else add(mul(i, sub(n, ONE)), t))

    def dense(self, N, K, bound, tv):
        """the expected matrix for N samples and K components"""
        sz = {v: N if v == 'n' else K for v in ('n', 'k')}
        I = Inst(0, sz)
        ev = lambda t: int(I.ev(num(t), {}))
        rows = [[0] * ev(self.ncols) for _ in range(ev(self.nrows))]
        rhs = [0.0] * len(rows)
        for c in range(ev(self.ncols)):
            rows[ev(self.off['nonneg']) + c][c] = -1
        if bound:
            for t in range(N - 1):
                for i in range(K):
                    e = ev(self.eta(num(t), num(i)))
                    for b, s in (('up', 1), ('down', -1)):
                        r = rows[ev(self.off[b]) + t * K + i]
                        r[(t + 1) * K + i] += s
                        r[t * K + i] -= s
                        r[e] -= 1
                    rows[ev(self.off['tv']) + i][e] += 1
            for i in range(K):
                rhs[ev(self.off['tv']) + i] = tv
        return rows, rhs


def layout(st, m, bf, bound, N=4, K=3):
    """The layout whose matrix the generated one is at a small instance (the proof is for all sizes)."""
    I = Inst(0, {'n': N, 'k': K})
    ev = lambda t, env={}: I.ev(num(t), dict(env))
    q = st.objs[m.id][1]
    sh = [int(ev(x)) for x in q['shape']]
    got = [[0] * sh[1] for _ in range(sh[0])]
    W = var('_w')
    fs = [st.cell(q[z], (W,)) for z in ('data', 'rows', 'cols')]
    for w in range(int(ev(q['data'].shape[0]))):
        v, r, c = [ev(f, {'_w': w}) for f in fs]
        got[int(r)][int(c)] += v
    rhs = [ev(bf(num(r))) for r in range(sh[0])]
    tv = I.real('tv')
    for blocks in itertools.permutations(('nonneg', 'up', 'down', 'tv')) if bound else (('nonneg',),):
        for by_time in (True, False) if bound else (True,):
            L = Layout(blocks, by_time, bound)
            rows, want = L.dense(N, K, bound, tv)
            if rows == got and all(abs(a - b) < 1e-9 for a, b in zip(want, rhs)) and len(want) == len(rhs):
                return L
    return None


def constraints(S, tv):
    E, st, o, b = build(S, tv)
    bound = tv == 'pos'
    before = st.fork()
    tm.fn('x', 1, 'R')
    x = lambda c: app('x', c)
    for s, v in S.outcomes(E, list(E.call(st, E.getattr(st, o, '_initialize_constraints'), [n], {})), '_initialize_constraints'):
        a = attrs(s, o)
        ok = all(isinstance(a.get(z), ObjRef) for z in ('A_eq', 'A_ub')) and all(isinstance(a.get(z), Arr) and len(a[z].shape) == 1 for z in ('b_eq', 'b_ub'))
        S.fact('the constraints are set', ok)
        if not ok:
            continue
        be, bu = fn1(s, a['b_eq']), fn1(s, a['b_ub'])
        L = layout(s, a['A_ub'], bu, bound)
        if L is None:
            raise Unsupported('the inequality constraints are not those of a known layout')
        if tuple(L.blocks) != (('nonneg', 'up', 'down', 'tv') if bound else ('nonneg',)):
            S.assume_note('constraint rows in the order %s' % (L.blocks,))
        sh = {z: s.objs[a[z].id][1]['shape'] for z in ('A_eq', 'A_ub')}
        S.ob('equality constraints: one row per sample, no variable besides affiliations and auxiliaries', s.ctx,
             tand(eq(sh['A_eq'][0], n), eq(sh['A_eq'][1], L.ncols), eq(a['b_eq'].shape[0], n)))
        S.ob('inequality constraints: rows and columns', s.ctx,
             tand(eq(sh['A_ub'][0], L.nrows), eq(sh['A_ub'][1], L.ncols), eq(a['b_ub'].shape[0], L.nrows)))
        t, i, c = tm.fresh_var('t'), tm.fresh_var('i'), tm.fresh_var('c')
        Ae, Au = product(s, a['A_eq'], x, s.ctx), product(s, a['A_ub'], x, s.ctx)
        C = lambda *r: s.ctx.extend(rng(*r))
        S.ob('equality row of sample t: the affiliations of the sample sum to one', C((t, n)),
             tand(eq(Ae(t), mksum(0, k, lambda j: x(L.gamma(t, j)))), eq(be(t), ONE)))
        r = add(L.off['nonneg'], c)
        S.ob('every variable is non-negative', C((c, L.ncols)), tand(eq(Au(r), tm.neg(x(c))), eq(bu(r), ZERO)))
        if bound:
            T = sub(n, ONE)
            diff = sub(x(L.gamma(add(t, ONE), i)), x(L.gamma(t, i)))
            eta = x(L.eta(t, i))
            for blk, dd in (('up', diff), ('down', tm.neg(diff))):
                r = add(L.off[blk], mul(t, k), i)
                S.ob('the auxiliary variable bounds the change of the affiliation (%s)' % blk, C((t, T), (i, k)),
                     tand(eq(Au(r), sub(dd, eta)), eq(bu(r), ZERO)))
            r = add(L.off['tv'], i)
            S.ob('the auxiliary variables of a component sum to at most the bound', C((i, k)),
                 eq(Au(r), mksum(0, T, lambda t: x(L.eta(t, i)))))
            S.ob('the bound is the given one', C((i, k)), eq(bu(r), b))
        only_changes(S, E, '_initialize_constraints', before, s, o, ('A_eq', 'b_eq', 'A_ub', 'b_ub'))
    only(E, 'pre', 'bounds')
    S.definedness(E)


def lemma(S):
    """The system above is solvable in the auxiliaries exactly when the total variation is at most the bound."""
    st = S.engine().fresh_state()
    st.assume(le(ONE, n))
    b, i, t, q = var('tv', 'R'), tm.fresh_var('i'), tm.fresh_var('t'), tm.fresh_var('q')
    T = sub(n, ONE)
    tm.fn('g', 2, 'R')
    diff = lambda t: sub(app('g', add(t, ONE), i), app('g', t, i))
    tot = mksum(0, T, lambda t: tm.tabs(diff(t)))
    s = st.fork()
    H = tm.fn('h', 2, 'R')
    H.facts.append(lambda t, i: implies(rng((t, T)), tand(le(sub(diff(t), app('h', t, i)), ZERO), le(sub(tm.neg(diff(t)), app('h', t, i)), ZERO))))
    s.assume(le(mksum(0, T, lambda t: app('h', t, i)), b))
    gap = mksum(0, T, lambda t: sub(app('h', t, i), tm.tabs(diff(t))))
    S.ob('auxiliaries that satisfy the constraints: each is at least the change it bounds', s.ctx.extend(rng((t, T))), le(ZERO, sub(app('h', t, i), tm.tabs(diff(t)))))
    S.ob('auxiliaries that satisfy the constraints: their sum is at least the total variation', s.ctx, le(ZERO, gap))
    s.assume(le(ZERO, gap))
    S.ob('auxiliaries that satisfy the constraints: sum of the gaps', s.ctx, eq(gap, sub(mksum(0, T, lambda t: app('h', t, i)), tot)))
    s.assume(eq(gap, sub(mksum(0, T, lambda t: app('h', t, i)), tot)))
    S.ob('constraints satisfied: total variation at most the bound', s.ctx, le(tot, b))
    s = st.fork()
    s.assume(le(tot, b))
    e = tm.tabs(diff(t))
    S.ob('total variation at most the bound: the absolute changes satisfy the constraints', s.ctx.extend(rng((t, T))),
         tand(le(sub(diff(t), e), ZERO), le(sub(tm.neg(diff(t)), e), ZERO), le(ZERO, e), le(mksum(0, T, lambda t: tm.tabs(diff(t))), b)))


def verify(S):
    for nm, tv in CASES:
        S.section('constraints (%s)' % nm, constraints, tv)
    S.section('lemma', lemma)
