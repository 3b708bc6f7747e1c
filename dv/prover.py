"""Discharging proof obligations."""
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, var, fv, Fn
from .smt import Ctx
from . import nf


def hassum(t):
    return any(x.op == 'sum' for x in tm.subterms(t))


def canon(t, ctx):
    """Normalise the real-valued sides of comparisons containing sums."""
    return t


def prove(ctx, g, depth=0):
    if g is TRUE or g is True:
        return True
    if g is False:
        g = FALSE
    if g in ctx.ass:
        return True
    if g.op == 'and':
        return all(prove(ctx, x, depth) for x in g.args)
    if g.op == 'forall':
        vs = {v: tm.fresh_var('sk') for v in g.val}
        return prove(ctx, tm.subst(g.args[0], vs), depth)
    if g.op == 'or':
        # implication a -> b is stored as (not a) or b: assume the other disjuncts false
        for i in range(len(g.args) - 1, -1, -1):
            x = g.args[i]
            if x.op in ('eq', 'le', 'lt') and hassum(x) or x.op in ('forall', 'and') or differs(x) and hassum(x):
                c = ctx.extend(*flat([tm.tnot(y) for j, y in enumerate(g.args) if j != i]))
                if prove(c, x, depth + 1):
                    return True
        return ctx.proves(g)
    if differs(g) and hassum(g):
        a, b = g.args[0].args
        if nonneg(tm.sub(a, b), ctx, True) or nonneg(tm.sub(b, a), ctx, True):
            return True
    if g.op == 'eq' and g.args[0].sort in 'RI' and (hassum(g) or g.args[0].sort == 'R' or g.args[1].sort == 'R'):
        return prove_eq(ctx, g)
    if g.op in ('le', 'lt') and depth < 6:
        c, e = decided(ctx, g)
        if e is not g:
            return prove(c, e, depth)
        cond = closed_condition(g)
        if cond is not None and hassum(g):
            nc = tm.tnot(cond)
            if all(prove(ctx.extend(x), tm.replace(g, lambda z: v if z is cond else tm.tnot(v) if z is nc else None), depth + 1)
                   for v, x in ((TRUE, cond), (FALSE, nc))):
                return True
    if g.op in ('le', 'lt') and not hassum(g) and interpolate(ctx, g):
        return True
    if g.op in ('le', 'lt') and hassum(g):
        if nonneg(tm.sub(g.args[1], g.args[0]), ctx, g.op == 'lt'):
            return True
        return prove_abstract(ctx, g) or depth == 0 and ctx.proves(g)
    if ctx.proves(g):
        return True
    if hassum(g) or any(hassum(a) for a in ctx.ass if a.op != 'forall'):
        return prove_abstract(ctx, g)
    return False


def differs(g):
    return g.op == 'not' and g.args[0].op == 'eq' and g.args[0].args[0].sort in 'RI'


def decided(ctx, g):
    """Conditions of conditional terms that the assumptions decide are resolved."""
    bn = bound_names(g)
    seen = set()
    while True:
        for x in tm.subterms(g):
            if x.op == 'ite' and x.args[0] not in seen and not (fv(x.args[0]) & bn):
                cond = x.args[0]
                seen.add(cond)
                v = TRUE if ctx.proves(cond) else FALSE if ctx.proves(tm.tnot(cond)) else None
                if v is not None:
                    nc = tm.tnot(cond)
                    g = tm.replace(g, lambda z: v if z is cond else tm.tnot(v) if z is nc else None)
                    break
        else:
            return ctx, g


def interpolate(ctx, g):
    """a <= b whose difference is linear in a scalar t with 0 <= t <= 1: enough at t = 0 and
    t = 1."""
    d = tm.sub(g.args[1], g.args[0])
    if d.op not in ('add', 'mul') or d.sort != 'R':
        return False
    prod = [x for x in (d.args if d.op == 'add' else (d,)) if x.op == 'mul']
    for v in sorted({y for x in prod for y in x.args if y.op in ('var', 'app') and y.sort == 'R'}, key=lambda y: y.id):
        at = [tm.replace(d, lambda y: z if y is v else None) for z in (ZERO, ONE)]
        mid = tm.add(tm.mul(tm.sub(ONE, v), at[0]), tm.mul(v, at[1]))
        if not (v in (y for x in prod for y in x.args)) or any(y.op in ('ite', 'app', 'pow', 'abs', 'max', 'min', 'sqrt') and y is not v and v in tm.subterms(y) for y in tm.subterms(d)):
            continue
        if not nf.equal(d, mid):
            continue
        mk = tm.le if g.op == 'le' else tm.lt
        if ctx.proves(tm.tand(tm.le(ZERO, v), tm.le(v, ONE))) and all(ctx.proves(mk(ZERO, x)) for x in at):
            return True
    return False


def prove_eq(ctx, g):
    """Equality of real terms by normal forms, after case analysis on the closed
    conditions that occur in it."""
    todo = [(ctx, g, 0)]
    while todo:
        c, e, depth = todo.pop()
        c, e = use_equations(c, e)
        c, e = pin(c, e)
        if e is TRUE:
            continue
        cond = closed_condition(e)
        if cond is not None and depth < 7:
            if c.proves(cond):
                e = tm.replace(e, lambda x: TRUE if x is cond else FALSE if x is tm.tnot(cond) else None)
                todo.append((c, e, depth))
                continue
            nc = tm.tnot(cond)
            if c.proves(nc):
                e = tm.replace(e, lambda x: FALSE if x is cond else TRUE if x is nc else None)
                todo.append((c, e, depth))
                continue
            for v, x, y in ((TRUE, cond, nc), (FALSE, nc, cond)):
                e1 = tm.replace(e, lambda z: v if z is cond else tm.tnot(v) if z is nc else None)
                todo.append((c.extend(x), e1, depth + 1))
            continue
        if e.op != 'eq':
            if not c.proves(e):
                return False
            continue
        if nf.equal(e.args[0], e.args[1], c):
            continue
        if hassum(e):
            if not c.consistent():
                continue
            if refuted(c, e):
                return False
            if not prove_abstract(c, e):
                return False
            continue
        if not c.proves(e):
            return False
    return True


def refuted(ctx, e):
    """The two sides differ at an instance of the assumptions (only used when no
    assumption is itself an equation between real terms)."""
    from . import evalt
    for a in flat(ctx.ass):
        if a.op == 'eq' and a.args[0].sort == 'R' or a.op == 'eq' and hassum(a):
            return False
    return evalt.differ(evalt.fingerprint(e.args[0], ctx), evalt.fingerprint(e.args[1], ctx))


def use_equations(ctx, g):
    """Replace variables that the assumptions fix."""
    for a in ctx.ass:
        if a.op != 'eq':
            continue
        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            if x.op == 'var' and y.op == 'num' and x.val in fv(g):
                s = {x.val: y}
                return use_equations(Ctx([tm.subst(b, s) for b in ctx.ass if b is not a]), tm.subst(g, s))
    return ctx, g


def pin(ctx, g):
    """Integer variables of the goal whose bounds leave one value."""
    for v in sorted(fv(g)):
        x = var(v)
        lo = hi = None
        for a in flat(ctx.ass):
            if a.op in ('le', 'lt'):
                s = 1 if a.op == 'lt' else 0
                if a.args[1] is x and a.args[0].op == 'num':
                    lo = max(lo, a.args[0].val + s) if lo is not None else a.args[0].val + s
                if a.args[0] is x and a.args[1].op == 'num':
                    hi = min(hi, a.args[1].val - s) if hi is not None else a.args[1].val - s
        if lo is not None and lo == hi:
            s = {v: num(lo)}
            return pin(Ctx([tm.subst(b, s) for b in ctx.ass]), tm.subst(g, s))
    return ctx, g


def bound_names(t):
    out = set()
    for x in tm.subterms(t):
        if x.op == 'sum':
            out.add(x.val)
        elif x.op in ('forall', 'exists'):
            out.update(x.val)
    return out


def closed_condition(t):
    """An atomic condition of a conditional term that mentions no bound variable."""
    bn = bound_names(t)
    for x in tm.subterms(t):
        if x.op == 'ite':
            c = x.args[0]
            st = [c]
            while st:
                y = st.pop()
                if y.op in ('and', 'or', 'not'):
                    st.extend(y.args)
                elif y.op not in ('true', 'false') and not (fv(y) & bn):
                    return y
    return None


def flat(l):
    out = []
    for x in l:
        if x.op == 'and':
            out.extend(flat(x.args))
        else:
            out.append(x)
    return out


def nonneg(t, ctx, strict=False):
    """t >= 0 because it is a sum of non-negative terms."""
    if t.op == 'num':
        return t.val > 0 or (t.val == 0 and not strict)
    if not hassum(t):
        return ctx.proves(tm.lt(ZERO, t) if strict else tm.le(ZERO, t))
    if t.op == 'add':
        # every summand non-negative, one positive if strict
        if strict:
            for i, a in enumerate(t.args):
                if nonneg(a, ctx, True) and all(nonneg(b, ctx) for j, b in enumerate(t.args) if j != i):
                    return True
            return False
        return all(nonneg(a, ctx) for a in t.args)
    if t.op == 'mul':
        if all(nonneg(a, ctx, strict) for a in t.args):
            return True
        return False
    if t.op == 'pow':
        if t.val % 2 == 0 and not strict:
            return True
        return nonneg(t.args[0], ctx, strict)
    if t.op == 'sqrt':
        return not strict or nonneg(t.args[0], ctx, True)
    if t.op == 'ite':
        return nonneg(t.args[1], ctx.extend(t.args[0]), strict) and nonneg(t.args[2], ctx.extend(tm.tnot(t.args[0])), strict)
    if t.op == 'sum':
        lo, hi, b = t.args
        v = tm.fresh_var('sk')
        c = ctx.extend(tm.tand(tm.le(lo, v), tm.lt(v, hi)))
        body = tm.subst(b, {t.val: v})
        if strict:
            return ctx.proves(tm.lt(lo, hi)) and nonneg(body, c, True)
        return nonneg(body, c)
    if t.op in ('max',):
        return any(nonneg(a, ctx, strict) for a in t.args)
    if t.op == 'abs':
        return not strict
    return False


def prove_abstract(ctx, g):
    """Replace real polynomial parts by constants, equal normal forms by equal
    constants, with sign facts for sums of non-negative terms."""
    A = Abstract(ctx)
    extra = []
    ass = []
    try:
        gg = A.walk(g)
    except nf.TooBig:
        return False
    for a in ctx.ass:
        if a.op in ('forall', 'exists'):
            ass.append(a)
            continue
        try:
            ass.append(A.walk(a) if hassum(a) and A.relevant(a) else a)
        except nf.TooBig:
            pass
    c = Ctx(ass + A.facts)
    return c.proves(gg)


class Abstract:
    """Every maximal subterm with sums is replaced by a linear combination of
    constants standing for the classes of its normal form."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.nf = nf.NF(ctx)
        self.memo = {}
        self.classes = []       # (representative poly key, const)
        self.facts = []

    def relevant(self, a):
        from . import evalt
        for x in tm.subterms(a):
            if x.op == 'sum' and not (fv(x) & bound_names(a)):
                if x in self.memo:
                    return True
                f = evalt.fingerprint(x, self.ctx)
                if f is None:
                    return True
                if any(fp is None or not evalt.differ(f, fp) for _, _, fp in self.classes):
                    return True
        return False

    def walk(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._walk(t)
            self.memo[t] = r
        return r

    def _walk(self, t):
        if not hassum(t):
            return t
        if t.op in ('and', 'or', 'not', 'le', 'lt', 'eq', 'ite', 'max', 'min', 'abs', 'sqrt', 'add', 'mul', 'pow', 'fdiv', 'mod'):
            if t.op in ('add', 'mul', 'pow'):
                return tm.rebuild(t, [self.walk(a) for a in t.args])
            return tm.rebuild(t, [self.walk(a) for a in t.args])
        if t.op == 'app':
            return tm.rebuild(t, [self.walk(a) for a in t.args])
        if t.op == 'sum':
            from . import evalt
            if any(x.op == 'app' and Fn.table[x.val].sumrules for x in tm.subterms(t)) and not (fv(t) & bound_names(t)):
                ms = self.nf.poly(t)
                if all(not m.bs and not m.gs for m in ms):
                    return tm.add(*[tm.mul(num(m.c), *[tm.power(f, p) if p != 1 else f for f, p in m.fs]) for m in ms]) if ms else ZERO
            for rep, c, fp in self.classes:
                if rep is t:
                    return c
            f = evalt.fingerprint(t, self.ctx)
            for rep, c, fp in self.classes:
                if not evalt.differ(f, fp) and nf.equal(rep, t, self.ctx):
                    return c
            c = tm.fresh_var('S', t.sort)
            self.classes.append((t, c, f))
            if nonneg(t, self.ctx, True):
                self.facts.append(tm.lt(ZERO, c))
            elif nonneg(t, self.ctx):
                self.facts.append(tm.le(ZERO, c))
            return c
        return t
