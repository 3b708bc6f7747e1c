"""FurthestSum under contract: loop invariants over the candidate list and the selection.

Candidates are the samples that are neither excluded (EX) nor selected.  The candidate list holds
every candidate exactly once (its ghost `pos` is the position of a candidate), and next to it the
sum of its dissimilarities to the selected samples."""
import itertools
from contracts.base import *
from dv.pairs import Pairs, put
from dv.loops import Loop, modified
from dv.prover import prove
from dv.nf import inorm

MOD = 'reor.furthest_sum'
n, k, start, steps, ne_ = var('n'), var('k'), var('start'), var('steps'), var('ne')
EXCL = ('none', 'list', 'array')


def ex(j):
    return app('EX', j)


def setup(S, excl, values):
    """engine, state, arguments; values: the matrix is symmetric and the sums are followed"""
    E = S.engine()
    st = E.fresh_state()
    D = 'D.sym' if values else 'D.in'
    tm.fn(D, 2, 'R', (n, n), symmetric=values)
    A = st.alloc((n, n), lambda i: app(D, *i), 'f', origin='caller', note=D)
    tm.fn('EX', 1, 'B', (n,))
    tm.fn('xp', 1, 'I', (n,))
    p, q, j = tm.fresh_var('p'), tm.fresh_var('q'), tm.fresh_var('j')
    st.assume(le(ONE, n))
    if excl == 'none':
        ne = ZERO
        st.assume(tm.forall([j], tnot(ex(j))))
        arg = None
    else:
        ne = ne_
        tm.fn('excl.in', 1, 'I', (ne,))
        xl = lambda i: app('excl.in', i)
        st.assume(le(ZERO, ne))
        st.assume(tm.forall([p], implies(rng((p, ne)), tand(le(ZERO, xl(p)), lt(xl(p), n), ex(xl(p))))))
        st.assume(tm.forall([p, q], implies(tand(rng((p, ne), (q, ne)), ne_t(p, q)), ne_t(xl(p), xl(q)))))
        st.assume(tm.forall([j], implies(ex(j), tand(rng((app('xp', j), ne)), eq(xl(app('xp', j)), j)))))
        arg = st.newlist(SSeq(ne, app('excl.in', IV[0]))) if excl == 'list' else st.alloc((ne,), lambda i: app('excl.in', *i), 'i', origin='caller', note='excl.in')
    R = Fsum(S, E, D, ne, values)
    return R, st, A, arg


def ne_t(a, b):
    return tnot(eq(a, b))


def rank_facts(ne):
    """rank(i): number of candidates before i (section "counting")"""
    tm.fn('rank', 1, 'I', (n,))
    i, j = tm.fresh_var('i'), tm.fresh_var('j')
    R = lambda z: app('rank', z)
    one = lambda z: tand(tnot(ex(z)), ne_t(z, start))
    return [eq(R(ZERO), ZERO), eq(R(n), sub(sub(n, ne), ONE)), le(ZERO, sub(sub(n, ne), ONE)),
            tm.forall([i], implies(tand(rng((i, n)), one(i)), eq(R(add(i, ONE)), add(R(i), ONE)))),
            tm.forall([i], implies(tand(rng((i, n)), tnot(one(i))), eq(R(add(i, ONE)), R(i)))),
            tm.forall([i, j], implies(tand(le(ZERO, i), le(i, j), le(j, n)), le(R(i), R(j))))]


class Fsum:
    def __init__(self, S, E, D, ne, values):
        self.S, self.E, self.D, self.ne, self.values = S, E, D, ne, values
        self.used = set()
        E.hooks['loop'] = self.loop

    # the candidate list ------------------------------------------------------------------

    def lists(self, st):
        out = []
        for i, l in st.lists.items():
            if isinstance(l, Pairs) or isinstance(l, SSeq) and l.elem is None:
                out.append(i)
        return out

    def loop(self, eng, node, st, env, n_, start_, test):
        ids = self.lists(st)
        if not ids or n_ is None:
            return None
        s = st.fork()
        for i in ids:
            if not isinstance(s.lists[i], Pairs):
                self.blank(s, i)
        was = {i: s.lists[i] for i in ids}
        t = tm.fresh_var('t')
        s.assume(rng((t, n_)))
        eng.quiet += 1
        try:
            outs = Loop(eng, node, s, env, n_, start_, test).body(s.fork(), t)
        finally:
            eng.quiet -= 1
        ch = [i for i in ids if any(s2.lists.get(i) is not was[i] for s2, g in outs if g is None or g[0] == 'continue')]
        if not ch:
            return None
        if len(ch) > 1:
            raise Unsupported('two lists of candidates change')
        if any(g is not None and g[0] == 'break' for _, g in outs):
            raise Unsupported('break in a selection loop')
        mods = set()
        for s2, g in outs:
            if g is None or g[0] == 'continue':
                mods.update(modified(s, s2))
        run = Run(self, eng, node, st, env, n_, start_, test, ch[0], mods)
        if not isinstance(st.lists[ch[0]], Pairs):
            return run.fill()
        return run.select()

    def blank(self, s, i):
        a, v = tm.fresh_name('unset'), tm.fresh_name('unset')
        N = s.lists[i].n
        tm.fn(a, 1, 'I', (N,))
        tm.fn(v, 1, 'R', (N,))
        tm.fn(a + 'p', 1, 'I', (n,))
        put(s, type('L', (), {'id': i}), N, lambda q: app(a, q), lambda q: app(v, q), app(a + 'p', IV[0]))


class Run:
    """one loop, cut by its invariant"""

    def __init__(self, F, eng, node, st, env, n_, start_, test, lid, mods):
        self.F, self.S, self.eng, self.node, self.st, self.env, self.n_, self.lid, self.mods = F, F.S, eng, node, st, env, n_, lid, mods
        self.start_, self.test = start_, test
        self.L = Loop(eng, node, st, env, n_, start_, test)
        F.used.add(node.lineno)

    mod_ = None     # the position of the sample replaced (t mod k), written as a number in [0, k)

    def ob(self, label, ctx, goal, terms=()):
        if self.mod_ is not None:
            u = var('at')
            r = lambda z: u if z is self.mod_ else None
            ctx, goal = Ctx([tm.replace(a, r) for a in ctx.ass] + [rng((u, k))]), tm.replace(goal, r)
            terms = [tm.replace(x, r) for x in terms]
        if terms:
            # instances of the assumptions at the terms that matter, if they are enough
            g = Ctx(ground(ctx.ass, terms))
            while goal.op == 'forall':
                goal = tm.subst(goal.args[0], {v: tm.fresh_var('sk') for v in goal.val})
            if goal.op == 'or':
                parts = [tnot(x) for x in goal.args[:-1]]
                g2 = Ctx(ground(list(ctx.ass) + parts, terms))
                if g2.proves(goal.args[-1]):
                    ctx, goal = g2, goal.args[-1]
            elif g.proves(goal):
                ctx = g
        if not self.eng.quiet:
            self.S.ob('%s: %s' % (self.what, label), ctx, goal)

    def havoc(self, keep=()):
        """the state at the head of an iteration, everything the body modifies unknown"""
        h = self.st.fork()
        for l in self.mods:
            if l in keep or l[0] == 'list' and l[1] == self.lid:
                continue
            if l[0] == 'env':
                h.envs[l[1]][l[2]] = POISON
            elif l[0] == 'buf':
                if l[1] not in h.heap or l[1] == self.own(h):
                    continue
                raise Unsupported('the selection loop writes to %r' % (l,))
            else:
                raise Unsupported('the selection loop changes %r' % (l,))
        return h

    def own(self, h):
        L = h.lists[self.lid]
        return L.v.buf if isinstance(L, Pairs) else None

    def body(self, h, t):
        outs = self.L.body(h.fork(), t)
        return [(s, g) for s, g in outs if s.ctx.consistent()]

    # filling the list -----------------------------------------------------------------------

    def fill(self):
        self.what = 'candidate list'
        F, D = self.F, self.F.D
        if not self.st.ctx.proves(eq(self.n_, n)):
            raise Unsupported('the list is not filled sample by sample')
        # the counter: the integer variable that starts at zero
        cnt = [l for l in self.mods if l[0] == 'env' and self.st.envs[l[1]].get(l[2]) is not POISON
               and isinstance(self.st.envs[l[1]].get(l[2]), (int, T)) and num(self.st.envs[l[1]][l[2]]) is ZERO]
        if len(cnt) != 1:
            raise Unsupported('counter of the candidate list')
        cnt = cnt[0]
        R = lambda z: app('rank', z)
        N = self.st.lists[self.lid].n
        facts = rank_facts(F.ne)
        self.ob('one slot per candidate', self.st.ctx.extend(*facts), eq(N, R(n)))
        qi, qv = tm.fresh_name('qi'), tm.fresh_name('qv')
        tm.fn(qi, 1, 'I', (N,))

        def head(t, filled):
            h = self.havoc((cnt,))
            for f in facts:
                h.assume(f)
            h.assume(tand(le(ZERO, t), le(t, n)))
            h.envs[cnt[1]][cnt[2]] = R(t)
            tm.fn(qi, 1, 'I', (N,))
            tm.fn(qv, 1, 'R', (N,))
            put(h, type('L', (), {'id': self.lid}), N, lambda q: app(qi, q), lambda q: app(qv, q), R(IV[0]))
            for _, g in inv(h, t, R(t)):
                h.assume(g)
            return h

        def inv(s, t, c):
            L = s.lists[self.lid]
            a, v = fn1(s, L.a), fn1(s, L.v)
            p, j = tm.fresh_var('p'), tm.fresh_var('j')
            out = [('items are candidates in order', tm.forall([p], implies(rng((p, c)), tand(le(ZERO, a(p)), lt(a(p), t), tnot(ex(a(p))), ne_t(a(p), start), eq(R(a(p)), p))))),
                   ('every candidate is in the list', tm.forall([j], implies(tand(rng((j, t)), tnot(ex(j)), ne_t(j, start)), tand(lt(R(j), c), eq(a(R(j)), j)))))]
            if F.values:
                out.append(('distance to the start', tm.forall([p], implies(rng((p, c)), eq(v(p), app(D, a(p), start))))))
            return out
        t = tm.fresh_var('t')
        h = head(t, t)
        h.assume(lt(t, n))
        res = []
        for s, g in self.body(h, t):
            if g is not None and g[0] != 'continue':
                res.append((s, g))
                continue
            L = s.lists[self.lid]
            c = s.envs[cnt[1]][cnt[2]]
            c = c if isinstance(c, T) else num(c)
            t1 = inorm(add(t, ONE))
            self.ob('the number of slots filled', s.ctx, eq(c, R(t1)))
            self.ob('the length of the list', s.ctx, eq(L.n, N))
            for lab, g_ in inv(s, t1, R(t1)):
                self.ob(lab, s.ctx, g_)
        e = head(n, n)
        N1 = inorm(sub(sub(n, F.ne), ONE))
        L = e.lists[self.lid]
        # sums as a function of the candidate
        if F.values:
            W = self.sums(1, lambda c: start)
            a = fn1(e, L.a)
            put(e, type('L', (), {'id': self.lid}), N1, lambda q: a(q), lambda q: app(W, a(q)), L.pos)
        else:
            a, v = fn1(e, L.a), fn1(e, L.v)
            put(e, type('L', (), {'id': self.lid}), N1, a, v, L.pos)
        res.append((e, None))
        return res

    def sums(self, cnt, sel):
        """a name for the sum of dissimilarities to the first cnt selected samples"""
        W = tm.fresh_name('W')
        f = tm.fn(W, 1, 'R', (n,))
        f.total = lambda j: mksum(0, cnt, lambda c: app(self.F.D, sel(c), j))
        return W

    # selecting ---------------------------------------------------------------------------------

    def select(self):
        F, D, st = self.F, self.F.D, self.st
        L0 = st.lists[self.lid]
        first = st.ctx.proves(eq(L0.n, sub(sub(n, F.ne), ONE)))
        if not first and not st.ctx.proves(eq(L0.n, sub(sub(n, F.ne), k))):
            raise Unsupported('a selection loop over a list of length %s' % tm.show(L0.n))
        self.what = 'selection' if first else 'refinement'
        buf = [l[1] for l in self.mods if l[0] == 'buf' and l[1] in st.heap and l[1] != L0.v.buf]
        if len(buf) != 1 or len(st.heap[buf[0]].shape) != 1 or not st.ctx.proves(eq(st.heap[buf[0]].shape[0], k)):
            raise Unsupported('the selection')
        buf = buf[0]
        count = (lambda t: inorm(add(t, ONE))) if first else (lambda t: k)
        size = lambda t: inorm(sub(sub(n, F.ne), count(t)))
        if first:
            self.ob('one sample per iteration', st.ctx, eq(self.n_, sub(k, ONE)))
        sel0 = lambda s: (lambda c: tm.subst(s.heap[buf].body, {IVN[0]: num(c)}))

        def inv(s, cnt, m):
            L = s.lists[self.lid]
            a, sel = fn1(s, L.a), sel0(s)
            pos = lambda j: tm.subst(L.pos, {IVN[0]: j})
            p, j, c, c2 = tm.fresh_var('p'), tm.fresh_var('j'), tm.fresh_var('c'), tm.fresh_var('c')
            out = [('the length of the list', eq(L.n, m)),
                   ('selected samples are admissible', tm.forall([c], implies(rng((c, cnt)), tand(le(ZERO, sel(c)), lt(sel(c), n), tnot(ex(sel(c))))))),
                   ('selected samples are distinct', tm.forall([c, c2], implies(tand(le(ZERO, c), lt(c, c2), lt(c2, cnt)), ne_t(sel(c), sel(c2))))),
                   ('items are admissible', tm.forall([p], implies(rng((p, m)), tand(le(ZERO, a(p)), lt(a(p), n), tnot(ex(a(p))))))),
                   ('items are distinct', tm.forall([p], implies(rng((p, m)), eq(pos(a(p)), p)))),
                   ('items are not selected', tm.forall([p, c], implies(tand(rng((p, m)), rng((c, cnt))), ne_t(sel(c), a(p))))),
                   ('every candidate is in the list', tm.forall([j], implies(tand(rng((j, n)), tnot(ex(j)), tm.forall([c], implies(rng((c, cnt)), ne_t(sel(c), j)))),
                                                                             tand(rng((pos(j), m)), eq(a(pos(j)), j)))))]
            if first:
                out.append(('the first selected sample is the start', eq(sel(ZERO), start)))
            return out

        def total(s, cnt, j):
            return mksum(0, cnt, lambda c: app(D, sel0(s)(c), j))

        def define(t_):
            """sums named by sums() written out"""
            for _ in range(6):
                t2 = tm.replace(t_, lambda z: Fn_total(z))
                if t2 is t_:
                    break
                t_ = t2
            return t_

        sn, qi, qv, qp = [tm.fresh_name(x) for x in ('sel', 'qi', 'qv', 'qp')]

        def head(t):
            h = self.havoc_but(buf)
            cnt, m = count(t), size(t)
            tm.fn(sn, 1, 'I', (k,))
            tm.fn(qi, 1, 'I', None)
            tm.fn(qv, 1, 'R', None)
            tm.fn(qp, 1, 'I', (n,))
            b = h.heap[buf]
            h.heap[buf] = Buf(b.shape, app(sn, IV[0]), b.dtype, b.origin, b.note)
            h.assume(tand(le(ZERO, t), le(t, self.n_)))
            W = self.sums(cnt, lambda c: app(sn, c)) if F.values else None
            put(h, type('L', (), {'id': self.lid}), m, lambda q: app(qi, q), (lambda q: app(W, app(qi, q))) if F.values else (lambda q: app(qv, q)), app(qp, IV[0]))
            for _, g in inv(h, cnt, m):
                h.assume(g)
            return h, W
        # on entry
        for lab, g in inv(st, count(ZERO), size(ZERO)):
            if not F.values or 'start' in lab:        # the bookkeeping does not depend on the values: C03
                self.ob('%s (start)' % lab, st.ctx, g)
        if F.values:
            p = tm.fresh_var('p')
            self.ob('sums (start)', st.ctx.extend(rng((p, size(ZERO)))), eq(define(fn1(st, L0.v)(p)), total(st, count(ZERO), fn1(st, L0.a)(p))))
        # an arbitrary iteration
        t = tm.fresh_var('t')
        h, W = head(t)
        h.assume(lt(t, self.n_))
        res = []
        at = count(t) if first else tm.mod(t, k)
        sel = lambda c: app(sn, c)
        if not first:
            self.mod_ = at
            h.assume(rng((at, k)))
        for s, g in self.body(h, t):
            if g is not None and g[0] != 'continue':
                res.append((s, g))
                continue
            t1 = inorm(add(t, ONE))
            c = tm.fresh_var('c')
            self.ob('the other selected samples stay', s.ctx.extend(rng((c, count(t1) if first else k)), ne_t(c, at)), eq(sel0(s)(c), sel(c)))
            L = s.lists[self.lid]
            others = lambda j: tand(rng((j, n)), tnot(ex(j)),
                                    tm.forall([c], implies(rng((c, count(t))) if first else tand(rng((c, k)), ne_t(c, at)), ne_t(sel(c), j))))
            a_, m_ = fn1(s, L.a), size(t1)
            j = tm.fresh_var('j')
            P = tm.subst(L.pos, {IVN[0]: j})
            # admissible samples not among the other selected ones: in the list, or just taken from its end
            there = tand(le(ZERO, P), le(P, m_), eq(a_(P), j))
            cs = [TRUE] if first else [eq(j, sel(at)), ne_t(j, sel(at))]
            if F.values:
                self.greedy(s, h, W, at, sel, sel0(s), count(t) if first else None, define, j, tand(others(j), there), (P, m_))
                p = tm.fresh_var('p')
                want = total(s, count(t1), a_(p))
                self.ob('sums', s.ctx.extend(rng((p, m_))), eq(tm.replace(define(fn1(s, L.v)(p)), lambda z: self.rep.get(z)), want))
                continue
            for x in cs:
                self.ob('candidates before the choice', s.ctx.extend(others(j), x), there)
            self.ob('the sample taken out is the one selected', s.ctx, eq(sel0(s)(at), a_(m_)))
            for lab, g_ in inv(s, count(t1), size(t1)):
                if lab == 'every candidate is in the list':
                    g_ = tm.forall([j], implies(tand(others(j), there, ne_t(sel0(s)(at), j)), tand(rng((P, m_)), eq(a_(P), j))))
                    s.assume(eq(sel0(s)(at), a_(m_)))
                    self.ob(lab, s.ctx, g_, [num(0)])
                    continue
                self.ob(lab, s.ctx, g_)
        e, _ = head(self.n_)
        e.event('furthest', self.what, self.n_, buf)
        res.append((e, None))
        return res

    def havoc_but(self, buf):
        self.mods = {l for l in self.mods if not (l[0] == 'buf' and l[1] == buf)}
        return self.havoc(())

    rep = {}

    def greedy(self, s, h, W, at, sel, new, cnt, define, j, adm, ends):
        """the sample chosen maximises the sum of dissimilarities to the other selected ones"""
        if cnt is not None:
            self.ob('the choice maximises the sum of dissimilarities', s.ctx.extend(adm), le(app(W, j), app(W, new(at))))
            return
        # refinement: G, sums over the selected samples other than the one replaced
        G = tm.fresh_name('G')
        tm.fn(G, 1, 'R', (n,))
        tot = lambda j_: mksum(0, k, lambda c_: ite(ne_t(c_, at), app(self.F.D, sel(c_), j_), ZERO))
        self.ob('sums without the replaced sample', h.ctx.extend(rng((j, n))), eq(tot(j), sub(define(app(W, j)), app(self.F.D, sel(at), j))))
        facts = [tm.forall([j], eq(app(G, j), sub(app(W, j), app(self.F.D, sel(at), j))))]
        # the sum the code takes over the selected samples, for the one replaced
        ctx, r = s.ctx, sel(at)
        self.rep = {}
        seen = set()
        for a in list(ctx.ass) + [s.heap[s.lists[self.lid].v.buf].body]:
            for z in tm.subterms(a):
                if z.op == 'sum' and z not in seen and not any(x.startswith('b.') for x in fv(z)):
                    seen.add(z)
                    cc = tm.fresh_var('c')
                    b = tm.subst(z.args[2], {z.val: cc})
                    if not (fv(z) - fv(r) - {'k', 'n'}) and ctx.proves(tand(eq(z.args[0], ZERO), eq(z.args[1], k))):
                        self.ob('the sum for the replaced sample, term by term', h.ctx.extend(rng((cc, k)), eq(app(self.F.D, r, r), ZERO)), eq(b, ite(ne_t(cc, at), app(self.F.D, sel(cc), r), ZERO)))
                        self.rep[z] = tot(r)
        # dissimilarities to the replaced sample, as a function of the other one (the matrix is symmetric)
        row = tm.fresh_name('row')
        tm.fn(row, 1, 'R', (n,))
        to_r = lambda z: app(G, r) if z in self.rep else app(row, z.args[1] if z.args[0] is r else z.args[0]) if z.op == 'app' and z.val == self.F.D and r in z.args else None
        ctx = Ctx([tm.replace(a, to_r) for a in list(ctx.ass) + facts])
        self.ob('the replacement maximises the sum of dissimilarities', ctx.extend(adm), le(app(G, j), app(G, new(at))), [j, r, new(at)] + list(ends))


def ground(ass, terms):
    out = []
    for a in ass:
        if a.op == 'and':
            out.extend(ground(a.args, terms))
        elif a.op != 'forall':
            out.append(a)
        elif len(a.val) <= 2:
            for ts in itertools.product(terms, repeat=len(a.val)):
                out.append(tm.subst(a.args[0], dict(zip(a.val, ts))))
    return out


def Fn_total(z):
    if z.op == 'app':
        f = tm.Fn.table.get(z.val)
        if f is not None and getattr(f, 'total', None) is not None:
            return f.total(z.args[0])
    return None
