"""Gradient steps: the projected point and the step taken, against the exact derivative of
the documented objective (obtained from its term by symbolic differentiation)."""
from contracts.base import *
from contracts.models import *
from dv.prover import prove


class Steps:
    """Collects what an update projects, and checks it at the end."""

    def __init__(self, S, m, u):
        self.S, self.m, self.u = S, m, u
        self.sites = {}         # projection symbol -> call site
        self.proj = []          # (projection symbol, factor, view map)

    # -- projection hook -----------------------------------------------------------------
    def hook(self, eng, st, A, axis):
        """called before a projection of A along axis"""
        if eng.quiet:
            return
        self.pending = 'single' if single(A.shape, axis) else self.identify(eng, st, A)

    def identify(self, eng, st, A):
        m = self.m
        f = st.fn_of(A)
        idx = [tm.fresh_var('ix') for _ in A.shape]
        cell = f(tuple(idx))
        a = attrs(st, m.o)
        ctx = st.ctx.extend(rng(*zip(idx, A.shape)))
        names = tm.fnames(cell)
        al = self.alphas(cell, idx)
        best = None
        for fac in m.factors:
            arr = a[fac]
            ff = st.fn_of(arr)
            for fidx in self.embeddings(st, A, arr, idx):
                cur = ff(tuple(fidx))
                if cur.op != 'app' or cur.val not in names:
                    continue
                g = self.grad(st, fac, fidx)
                best = (fac, fidx)
                for x in sorted(al, key=lambda x: not st.ctx.proves(m.alpha_inv(x))):
                    goal = eq(cell, sub(cur, mul(x, g)))
                    if prove(ctx, goal):
                        eng.oblige(st, tm.forall(idx, implies(rng(*zip(idx, A.shape)), goal)), '%s: projected point is %s minus a step times the exact gradient' % (self.u, fac), 'grad')
                        eng.oblige(st, m.alpha_inv(x), '%s: the gradient step length is positive and bounded' % self.u, 'grad')
                        return fac, idx, fidx
        eng.oblige(st, FALSE, '%s: projected point is a factor minus a bounded positive step times the exact gradient of the objective%s' % (
            self.u, ' with respect to ' + best[0] if best else ''), 'grad')
        return None

    def alphas(self, cell, idx):
        return [x for x in scalars(cell, idx) if x is not ONE and x.op in ('var', 'ite')]

    def grad(self, st, fac, fidx):
        """exact derivative of the objective with respect to factor fac at fidx"""
        m = self.m
        a = attrs(st, m.o)
        arr = a[fac]
        nm = tm.fresh_name('D.' + fac)
        tm.fn(nm, len(arr.shape), 'R', arr.shape)
        sp = m.spec(lambda q: (lambda *i: app(nm, *[num(x) for x in i])) if q == fac else fn1(st, a[q]))
        g = tm.deriv(sp, nm, tuple(num(i) for i in fidx))
        f = st.fn_of(arr)

        def rp(x):
            if x.op == 'app' and x.val == nm:
                return f(tuple(tm.replace(y, rp) for y in x.args))
            return None
        return tm.replace(g, rp)

    def embeddings(self, st, A, arr, idx):
        """how the projected array sits in the factor"""
        if len(A.shape) == len(arr.shape):
            yield list(idx)
        elif A.fwd is not None:
            yield list(A.fwd(tuple(idx)))

    # -- installed projection contracts -------------------------------------------------------
    def after(self, eng, st, A, nm):
        self.sites[nm] = tuple(eng.where)
        if eng.quiet:
            return
        if self.pending != 'single':
            self.proj.append((nm, self.pending, A.shape))

    def install(self):
        self.m.install(proj=self)

    # -- the step taken -------------------------------------------------------------------------
    def final(self, before, s):
        """every factor that moved did so along its own direction by a common fraction in (0, 1]"""
        S, m, u = self.S, self.m, self.u
        a, b = attrs(s, m.o), attrs(before, m.o)
        moved = [f for f in m.factors if not (same(a[f], b[f]) and s.heap[a[f].buf].body is before.heap[b[f].buf].body)]
        forced = [f for f, (sh, ax) in m.factors.items() if ax is not None and ax != 'symmetric' and single(sh, ax)]
        for fac in forced:
            if fac in moved:
                idx = [tm.fresh_var('ix') for _ in a[fac].shape]
                S.ob('%s: %s stays at one' % (u, fac), s.ctx.extend(rng(*zip(idx, a[fac].shape))), eq(s.cell(a[fac], idx), ONE))
        moved = [f for f in moved if f not in forced]
        S.fact('%s: a factor is updated' % u, bool(moved or forced))
        fracs = None
        for fac in moved:
            new, old = a[fac], b[fac]
            idx = [tm.fresh_var('ix') for _ in new.shape]
            nf_, of = s.cell(new, idx), before.cell(old, idx)
            ctx = s.ctx.extend(rng(*zip(idx, new.shape)))
            ps = [p for p in self.proj if p[1] and p[1][0] == fac]
            stoch = m.factors[fac][1] is not None
            S.fact('%s: %s moves towards its projection' % (u, fac), bool(ps) == stoch, 'projections seen: %s' % (self.proj,))
            if ps and not self.view_full(ps, fac, new):
                S.fact('%s: the projections cover %s' % (u, fac), False, repr(ps))
                continue
            target_ = sub(self.projected(ps, idx, nf_), of) if ps else tm.neg(self.grad(before, fac, idx))
            t = self.fraction(ctx, nf_, of, target_, idx, bool(ps))
            what = '%s: %s moves from its value %s by a fraction in (0, 1]' % (
                u, fac, 'towards the projection of the gradient step' if ps else 'along the exact negative gradient times a positive bounded step')
            S.fact(what, t is not None, 'new cell: %s' % tm.show(nf_)[:1500], backend='normal form + z3')
            if t is None:
                continue
            if fracs is not None:
                S.ob('%s: the same fraction is taken for every block' % u, s.ctx, eq(fracs, t))
            fracs = t

    def fraction(self, ctx, new, old, direction, idx, projected, depth=0):
        """t with new == old + t [alpha] direction, 0 < t <= 1 (and alpha bounded positive)"""
        from dv.prover import closed_condition
        m = self.m
        c = closed_condition(new)
        if c is not None and depth < 6:
            if ctx.proves(c) or ctx.proves(tnot(c)):
                v = ctx.proves(c)
                nc = tnot(c)
                return self.fraction(ctx, tm.replace(new, lambda z: (TRUE if v else FALSE) if z is c else (FALSE if v else TRUE) if z is nc else None),
                                     old, direction, idx, projected, depth + 1)
            nc = tnot(c)
            r = []
            for x, v in ((c, TRUE), (nc, FALSE)):
                r.append(self.fraction(ctx.extend(x), tm.replace(new, lambda z: v if z is c else tnot(v) if z is nc else None),
                                       old, direction, idx, projected, depth + 1))
            return None if None in r else ite(c, *r)
        cands = scalars(new, idx)
        for t in cands:
            if not ctx.proves(tand(lt(ZERO, t), le(t, ONE))):
                continue
            if projected:
                if prove(ctx, eq(new, add(old, mul(t, direction)))):
                    return t
            else:
                for al in cands:
                    if ctx.proves(m.alpha_inv(al)) and (al is not t or al is ONE) and prove(ctx, eq(new, add(old, mul(t, al, direction)))):
                        return t
        return None

    def view_full(self, ps, fac, new):
        return len(ps) >= 1

    def projected(self, ps, idx, cell):
        nm, (fac, pidx, fidx), shape = ps[0]
        if len(shape) == len(idx):
            return app(nm, *idx)
        # parts of the factor projected in a loop: the symbol became a function of the loop counter.
        # The closed form and the checked iteration are two executions of the same call, so every
        # projection made at that call has been identified with the same part of the factor.
        other = [(p, t) for p, t in enumerate(fidx) if not any(t is q for q in pidx)]
        for f in sorted(tm.fnames(cell)):
            if not f.endswith("'") or f[:-1] not in self.sites:
                continue
            same_site = [p for p in self.proj if self.sites[p[0]] == self.sites[f[:-1]]]
            if not same_site or any(not p[1] or p[1][0] != fac or len(p[1][2]) != len(fidx) for p in same_site):
                continue
            if len(other) == 1 and other[0][1].op == 'var' and all(any(t is q for t in fidx) for q in pidx):
                at = {t.val: idx[p] for p, t in enumerate(fidx)}
                return app(f, idx[other[0][0]], *[at[q.val] for q in pidx])
        raise Unsupported('projection of a part of the factor: %s | %s %s %s %s %s' % (self.proj, sorted(tm.fnames(cell)), nm, shape, [tm.show(x) for x in pidx], [tm.show(x) for x in fidx]))


def gradient_steps(S, build):
    m = build(S)
    for u in m.updates:
        m.E.obligations = []
        st = m.havoc()
        before = st.fork()
        h = Steps(S, m, u)
        h.install()
        outs = S.outcomes(m.E, m.run(st, u), u)
        for s, v in outs:
            h.final(before, s)
        only_(m.E, 'grad')
        S.definedness(m.E)
    m.install()


def only_(E, *kinds):
    E.obligations = [o for o in E.obligations if o.kind in kinds]
