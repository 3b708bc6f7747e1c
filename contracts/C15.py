"""Forecasts: the window of weights kept by predict holds the forecast weights W(t, q), where for
q <= 0 these are the weights of sample t + q, and for q >= 1 the order-weighted sum of transition
matrices applied to W(t, q - lag).  W is defined by recursion on q; the loop over the horizon is
verified against the invariant  window[p] = W(t, lead - (maxlag - 1) + p)."""
from contracts.base import *
from contracts import crom, mtd
from contracts.models import *
from dv.prover import prove


class Forecast:
    def __init__(self, S, build):
        self.S = S
        self.m = m = build(S)
        E = self.E = m.E
        self.st = st = m.pre_init.fork()
        self.ns = ns = var('m')
        st.assume(le(ONE, ns))
        a = attrs(st, m.o)
        self.kk, self.ml = m.k, m.ml
        self.T, self.w = fn1(st, a['transition_matrices']), fn1(st, a['order_weights'])
        self.lag = lambda i: app('lag', num(i))
        a.setdefault('S', None)
        if not isinstance(a['S'], Arr):
            a['S'] = st.alloc_fn((self.kk, var('d')), 'S', 'f')
        self.Sf = fn1(st, a['S'])
        # weights of the samples passed
        self.G = stoch_array(st, (ns, self.kk), 'coded', 1)
        self.Gf = fn1(st, self.G)
        a['Gamma'] = self.G
        self.Y = st.alloc_fn((ns, var('d')), 'in.Y', 'f', origin='caller')
        F = tm.fn('W', 3, 'R')
        # every W(t, q) is a convex combination (shown for the next lead below)
        F.facts.append(lambda t, q, b: le(ZERO, app('W', t, q, b)))
        F.sumrules.append((2, lambda *o: ZERO, lambda *o: self.kk, None, lambda *o: ONE))
        self.loops = 0

    def transform(self, eng, st, f, args, kw):
        st.event('transform', args[-1] if args else kw.get('data'))
        yield st, self.G

    def next(self, t, q, b):
        """the model applied to the forecasts before lead q"""
        return mksum(0, var('L'), lambda l: mul(self.w(l), mksum(0, self.kk, lambda c: mul(self.T(l, b, c), app('W', t, sub(q, self.lag(l)), c)))))

    def loop(self, eng, node, st, env, n, start_, test):
        from dv.loops import Loop, modified, get, put
        S = self.S
        if n is None:
            return None
        it = tm.fresh_var('lead')
        L = Loop(eng, node, st, env, n, start_, test)
        eng.quiet += 1
        try:
            head = st.fork()
            head.assume(L.guard(it))
            carried, fresh = set(), set()
            for s, g in L.body(head.fork(), it):
                for l in modified(head, s):
                    if l[0] == 'env' and l[2] in st.envs[l[1]]:
                        carried.add(l)
                    elif l[0] == 'env':
                        fresh.add(l)
                    else:
                        return None
        finally:
            eng.quiet -= 1
        arrays = [l for l in carried if isinstance(get(st, l), Arr) and len(get(st, l).shape) == 2
                  and st.ctx.proves(eq(get(st, l).shape[0], self.ml))]
        if len(arrays) != 1:
            return None
        win = arrays[0]
        first = get(st, win)
        f0 = fn1(st, first)
        b, p = tm.fresh_var('b'), tm.fresh_var('p')
        last = f0(sub(self.ml, ONE), b)
        cand = [x for x in tm.subterms(last) if x.op == 'app' and x.val == 'coded'] if self.kk is not ONE else []
        if self.kk is not ONE and len(cand) != 1:
            return None
        if eng.quiet == 0:
            self.loops += 1
        t = cand[0].args[0] if cand else tm.fresh_var('t')
        rep = eng.quiet == 0
        lab = 'forecast of a sample'
        at = lambda k: (lambda p, b: ONE if self.kk is ONE else app('W', t, add(sub(k, sub(self.ml, ONE)), p), b))
        if rep:
            ctx = st.ctx.extend(rng((p, self.ml), (b, self.kk)))
            S.ob('%s: the window starts with the weights of the samples up to and including it' % lab, ctx,
                 eq(f0(p, b), ONE if self.kk is ONE else self.Gf(add(sub(t, sub(self.ml, ONE)), p), b)))
            S.ob('%s: the window has one column per component' % lab, st.ctx, eq(first.shape[1], self.kk))
        head = st.fork()
        head.assume(L.guard(it))
        for l in (carried | fresh) - {win}:
            head.envs[l[1]][l[2]] = POISON
        put(head, win, head.alloc((self.ml, self.kk), lambda i: at(it)(*i), 'f', note='window'))
        for s, g in L.body(head, it):
            if isinstance(g, tuple) and g[0] == 'raise' or not (g is None or g[0] == 'continue'):
                if rep and s.ctx.consistent():
                    S.fact('%s: every lead is computed' % lab, False, repr(g))
                continue
            if not rep:
                continue
            new = get(s, win)
            f = fn1(s, new)
            S.ob('%s: the shape of the window stays' % lab, s.ctx, tand(eq(new.shape[0], self.ml), eq(new.shape[1], self.kk)))
            c = s.ctx.extend(rng((p, sub(self.ml, ONE)), (b, self.kk)))
            S.ob('%s: the older rows move up by one' % lab, c, eq(f(p, b), at(add(it, ONE))(p, b)))
            c = s.ctx.extend(rng((b, self.kk)))
            S.ob('%s: the newest row is the fitted model applied to the window' % lab, c,
                 eq(f(sub(self.ml, ONE), b), ONE if self.kk is ONE else self.next(t, add(it, ONE), b)))
        out = st.fork()
        for l in (carried | fresh) - {win}:
            out.envs[l[1]][l[2]] = POISON
        put(out, win, out.alloc((self.ml, self.kk), lambda i: at(n)(*i), 'f', note='window'))
        for x in target(node.target):
            out.envs[env[0]][x] = POISON
        return [(out, None)]


def lemma(S, build):
    """W stays a convex combination: by induction on the lead, with the matrices column-stochastic
    and the order weights a convex combination (C13)."""
    f = Forecast(S, build)
    t, q, b = tm.fresh_var('t'), tm.fresh_var('q'), tm.fresh_var('b')
    if f.kk is ONE:
        S.fact('one component: every forecast weight is one', True)
        return
    ctx = f.st.ctx.extend(rng((b, f.kk)))
    S.ob('the model applied to convex combinations is not negative', ctx, le(ZERO, f.next(t, q, b)))
    S.ob('the model applied to convex combinations sums to one', f.st.ctx, eq(mksum(0, f.kk, lambda b: f.next(t, q, b)), ONE))


def forecast(S, build):
    f = Forecast(S, build)
    m, E = f.m, f.E
    E.contracts[m.q('transform')] = f.transform
    h = var('h')
    f.st.assume(le(ZERO, h))
    f.st.assume(le(ONE, var('d')))
    for how, args in (('default horizon', [f.Y]), ('horizon', [f.Y, h])):
        st = f.st.fork()
        before = st.fork()
        E.hooks['loop'] = f.loop
        f.loops = 0
        for s, v in S.outcomes(E, m.run(st, 'predict', args), how):
            if not isinstance(v, Arr) or len(v.shape) != 2:
                S.fact('%s: returns a matrix' % how, False, repr(v))
                continue
            S.ob('%s: one row per sample' % how, s.ctx, tand(eq(v.shape[0], f.ns), eq(v.shape[1], var('d'))))
            tr = [e for e in s.events() if e[0] == 'transform']
            S.fact('%s: the samples passed are coded' % how, len(tr) == 1 and same(tr[0][1], f.Y), repr(tr))
            i, j = tm.fresh_var('i'), tm.fresh_var('j')
            ctx = s.ctx.extend(rng((i, f.ns), (j, var('d'))))
            x = fn1(s, v)(i, j)
            recon = lambda g: mksum(0, f.kk, lambda b: mul(g(b), f.Sf(b, j)))
            hz = h if len(args) > 1 else ZERO
            S.ob('%s: horizon zero is the reconstruction' % how, ctx.extend(eq(hz, ZERO)), eq(x, recon(lambda b: f.Gf(i, b))))
            c = ctx.extend(le(ONE, hz))
            early = lt(i, sub(f.ml, ONE))
            S.ob('%s: samples with less history than the largest lag are missing' % how, c.extend(early), eq(x, recon(lambda b: tm.var('nan', 'R'))))
            S.ob('%s: every other forecast is the reconstruction of the forecast weights' % how, c.extend(tnot(early)),
                 eq(x, recon(lambda b: ONE if f.kk is ONE else app('W', i, hz, b))))
            only_changes(S, E, how, before, s, None)
        if len(args) > 1:
            S.fact('%s: the loop over the leads is covered by its contract' % how, f.loops > 0)
        E.hooks.pop('loop', None)
    S.definedness(E)


def verify(S):
    for mod, nm0 in ((crom, 'CROM'), (mtd, 'MTD')):
        for nm, one in mtd.CASES:
            b = lambda S, one=one, mod=mod: mod.model(S, one, False)
            S.warm(b)
            S.section('%s forecast weights (%s)' % (nm0, nm), lemma, b)
            S.section('%s predict (%s)' % (nm0, nm), forecast, b)
