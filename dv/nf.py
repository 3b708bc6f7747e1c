"""Tensor normal form: decides equality of sum-of-product array expressions.

A real term is expanded to monomials

    coef * SUM_{b in range} [guards(b)] * prod factor(b)^power

with symbolic ranges.  Monomials are simplified under an assumption context
(Kronecker elimination, range absorption, counting, row-sum facts) and grouped
into classes whose bound factors agree up to a unimodular change of the bound
variables; a class vanishes when its guarded coefficient is zero at every
point of the index space, which is an integer query for z3.
"""
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ONE, ZERO, Fn, num, var, app, fv
from .smt import Ctx

MAXMONO = 6000


class TooBig(Exception):
    pass


class Mono:
    __slots__ = ('c', 'bs', 'gs', 'fs')

    def __init__(self, c, bs, gs, fs):
        self.c = c
        self.bs = bs    # tuple of (name, lo, hi)
        self.gs = gs    # tuple of guard terms
        self.fs = fs    # tuple of (atom, power), sorted by id

    def __repr__(self):
        s = str(self.c)
        for b, lo, hi in self.bs:
            s += ' SUM[%s<=%s<%s]' % (lo, b, hi)
        for g in self.gs:
            s += ' [%s]' % g
        for f, p in self.fs:
            s += ' * %s%s' % (f, '' if p == 1 else '^%d' % p)
        return s


def mkfs(d):
    return tuple(sorted(((a, p) for a, p in d.items() if p != 0), key=lambda x: x[0].id))


def rename(m):
    """Fresh names for the bound variables of m."""
    if not m.bs:
        return m
    s = {}
    for b, lo, hi in m.bs:
        s[b] = tm.fresh_var('b')
    return msubst(m, s, renbound=True)


def msubst(m, s, renbound=False):
    bs = tuple((s[b].val if renbound and b in s else b, tm.subst(lo, s), tm.subst(hi, s)) for b, lo, hi in m.bs)
    gs = tuple(tm.subst(g, s) for g in m.gs)
    d = {}
    out = Mono(m.c, bs, gs, ())
    extra = []
    for a, p in m.fs:
        a2 = tm.subst(a, s)
        if a2 is a or a2.op in ('var', 'app', 'max', 'min', 'abs', 'sqrt', 'fdiv', 'mod'):
            d[a2] = d.get(a2, 0) + p
        else:
            extra.append((a2, p))
    out.fs = mkfs(d)
    if extra:
        # factor became compound: re-expand
        res = [out]
        for a2, p in extra:
            res = mulpoly(res, expand(tm.power(a2, p)))
        if len(res) != 1:
            raise Multi(res)
        return res[0]
    return out


class Multi(Exception):
    def __init__(self, monos):
        self.monos = monos


def msubst_list(m, s):
    try:
        return [msubst(m, s)]
    except Multi as e:
        return e.monos


def mulpoly(A, B):
    out = []
    if len(A) * len(B) > MAXMONO:
        raise TooBig()
    for a in A:
        for b in B:
            x, y = a, b
            if y.bs:
                fx = free_of(x)
                if any(n in fx for n, _, _ in y.bs):
                    y = rename(y)
            if x.bs:
                fy = free_of(y)
                if any(n in fy for n, _, _ in x.bs):
                    x = rename(x)
            d = dict(x.fs)
            for f, p in y.fs:
                d[f] = d.get(f, 0) + p
            gs = x.gs + tuple(g for g in y.gs if g not in x.gs)
            out.append(Mono(x.c * y.c, x.bs + y.bs, gs, mkfs(d)))
    return out


def free_of(m):
    """All variable names occurring in m, bound ones included."""
    s = set()
    for b, lo, hi in m.bs:
        s.add(b)
        s |= fv(lo) | fv(hi)
    for g in m.gs:
        s |= fv(g)
    for f, _ in m.fs:
        s |= fv(f)
    return s


_exp = {}


def expand(t):
    r = _exp.get(t)
    if r is None:
        r = _expand(t)
        _exp[t] = r
    return r


def atom(t, p=1):
    return [Mono(Fraction(1), (), (), ((t, p),))]


def find_ite(t):
    """An ite subterm not under a binder, or None."""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            return x
        if x.op in ('sum', 'forall', 'exists'):
            continue
        stack.extend(x.args)
    return None


def guardpoly(c):
    """Iverson bracket of c as monomials (disjoint cases handled by inclusion)."""
    if c is TRUE:
        return [Mono(Fraction(1), (), (), ())]
    if c is FALSE:
        return []
    if c.op == 'and':
        r = [Mono(Fraction(1), (), (), ())]
        for a in c.args:
            r = mulpoly(r, guardpoly(a))
        return r
    if c.op == 'or':
        # 1 - prod(1 - [a])
        r = [Mono(Fraction(1), (), (), ())]
        for a in c.args:
            g = guardpoly(a)
            r = mulpoly(r, [Mono(Fraction(1), (), (), ())] + [Mono(-m.c, m.bs, m.gs, m.fs) for m in g])
        return [Mono(Fraction(1), (), (), ())] + [Mono(-m.c, m.bs, m.gs, m.fs) for m in r]
    if c.op == 'not':
        return [Mono(Fraction(1), (), (), ())] + [Mono(-m.c, m.bs, m.gs, m.fs) for m in guardpoly(c.args[0])]
    i = find_ite(c) if c.op in ('le', 'lt', 'eq', 'app') else None
    if i is not None:
        ca = tm.replace(c, lambda x: i.args[1] if x is i else None)
        cb = tm.replace(c, lambda x: i.args[2] if x is i else None)
        return mulpoly(guardpoly(i.args[0]), guardpoly(ca)) + mulpoly(guardpoly(tm.tnot(i.args[0])), guardpoly(cb))
    return [Mono(Fraction(1), (), (c,), ())]


def _expand(t):
    o = t.op
    if o == 'num':
        return [Mono(t.val, (), (), ())] if t.val != 0 else []
    if o == 'var':
        return atom(t)
    if o in ('app', 'fdiv', 'mod'):
        i = find_ite(t)
        if i is not None and i is not t:
            ta = tm.replace(t, lambda x: i.args[1] if x is i else None)
            tb = tm.replace(t, lambda x: i.args[2] if x is i else None)
            return (mulpoly(guardpoly(i.args[0]), expand(ta)) +
                    mulpoly(guardpoly(tm.tnot(i.args[0])), expand(tb)))
        t2 = norm_args(t)
        if t2.op != o or (o == 'app' and t2.val != t.val):
            return expand(t2)
        return atom(t2)
    if o == 'add':
        out = []
        for a in t.args:
            out.extend(expand(a))
        if len(out) > MAXMONO:
            raise TooBig()
        return collect(out)
    if o == 'mul':
        r = [Mono(Fraction(1), (), (), ())]
        for a in t.args:
            r = mulpoly(r, expand(a))
        return collect(r)
    if o == 'pow':
        b, e = t.args[0], t.val
        if e > 0:
            x = expand(b)
            r = x
            for _ in range(e - 1):
                r = mulpoly(r, x)
            return collect(r)
        x = expand(b)
        if len(x) == 1 and not x[0].bs and not x[0].gs:
            m = x[0]
            return [Mono(1 / m.c ** (-e), (), (), mkfs({f: p * e for f, p in m.fs}))]
        return atom(b if b.op == 'app' else canon_inv(b), e)
    if o == 'ite':
        c, a, b = t.args
        ea, eb = expand(a), expand(b)
        g = guardpoly(c)
        return collect(mulpoly(g, ea) + eb + [Mono(-m.c, m.bs, m.gs, m.fs) for m in mulpoly(g, eb)])
    if o == 'sum':
        lo, hi, body = t.args
        out = []
        for m in expand(body):
            if any(b == t.val or b in fv(lo) or b in fv(hi) for b, _, _ in m.bs):
                m = rename(m)
            out.append(Mono(m.c, ((t.val, lo, hi),) + m.bs, m.gs, m.fs))
        return out
    if o in ('max', 'min', 'abs', 'sqrt'):
        return atom(t)
    raise NotImplementedError('nf of ' + o)


def canon_inv(b):
    return b


def collect(ms):
    d = {}
    for m in ms:
        if m.bs:
            k = ('b', m.bs, frozenset(m.gs), m.fs)
        else:
            k = ('s', frozenset(m.gs), m.fs)
        if k in d:
            d[k] = Mono(d[k].c + m.c, m.bs, m.gs, m.fs)
        else:
            d[k] = m
    return [m for m in d.values() if m.c != 0]


# integer normalisation ---------------------------------------------------------

_inorm = {}


def inorm(t):
    """Canonical form of an integer term (polynomial in integer atoms)."""
    r = _inorm.get(t)
    if r is not None:
        return r
    if t.op in ('num', 'var'):
        r = t
    elif t.op == 'app':
        r = norm_args(t)
    elif t.op in ('fdiv', 'mod'):
        a, b = inorm(t.args[0]), inorm(t.args[1])
        r = tm.fdiv(a, b) if t.op == 'fdiv' else tm.mod(a, b)
    elif t.op in ('add', 'mul', 'pow') and t.sort == 'I':
        p = ipoly(t)
        r = from_ipoly(p)
    elif t.op in ('max', 'min'):
        a, b = inorm(t.args[0]), inorm(t.args[1])
        r = tm.tmax(a, b) if t.op == 'max' else tm.tmin(a, b)
    elif t.op == 'sum':
        ms = expand(t)
        r = t
    else:
        r = t
    _inorm[t] = r
    return r


def norm_args(t):
    if t.op == 'app':
        f = Fn.table[t.val]
        t2 = app(t.val, *[inorm(a) if a.sort == 'I' else a for a in t.args])
        return t2
    return tm.rebuild(t, [inorm(a) for a in t.args])


def ipoly(t):
    """dict: tuple of atoms (sorted by id) -> coefficient."""
    o = t.op
    if o == 'num':
        return {(): t.val} if t.val != 0 else {}
    if o == 'add':
        d = {}
        for a in t.args:
            for k, v in ipoly(a).items():
                d[k] = d.get(k, 0) + v
        return {k: v for k, v in d.items() if v != 0}
    if o == 'mul':
        d = {(): Fraction(1)}
        for a in t.args:
            p = ipoly(a)
            e = {}
            for k1, v1 in d.items():
                for k2, v2 in p.items():
                    k = tuple(sorted(k1 + k2, key=lambda x: x.id))
                    e[k] = e.get(k, 0) + v1 * v2
            d = {k: v for k, v in e.items() if v != 0}
        return d
    if o == 'pow' and t.val > 0:
        return ipoly(tm._mk('mul', (t.args[0],) * t.val, None, t.sort))
    a = inorm(t)
    if a.op in ('add', 'mul', 'num'):
        return ipoly(a)
    return {(a,): Fraction(1)}


def from_ipoly(p):
    ts = []
    for k in sorted(p, key=lambda k: (len(k), tuple(x.id for x in k))):
        ts.append(tm.mul(num(p[k]), *k))
    return tm.add(*ts) if ts else ZERO


def linear_in(t, name):
    """(a, rest) with t == a*name + rest, a a Fraction; None if not linear."""
    p = ipoly(t)
    a = Fraction(0)
    rest = {}
    for k, v in p.items():
        if k == (var(name),):
            a = v
        else:
            for x in k:
                if name in fv(x):
                    return None
            rest[k] = v
    return a, from_ipoly(rest)


def same_coefficient(a, x, b, y):
    """a == w*x + r and b == w*y + r with the same terms w and r (free of x and y)"""
    def coef(t, v):
        w, r = {}, {}
        for k, c in ipoly(t).items():
            if k.count(var(v)) == 1:
                kk = list(k)
                kk.remove(var(v))
                if any(v in fv(z) for z in kk):
                    return None
                w[tuple(kk)] = c
            elif any(v in fv(z) for z in k):
                return None
            else:
                r[k] = c
        return w, r
    p, q = coef(a, x), coef(b, y)
    return p is not None and p == q and bool(p[0])


def inorm_guard(g):
    if g.op in ('le', 'lt', 'eq') and g.args[0].sort == 'I' and g.args[1].sort == 'I':
        d = inorm(tm.sub(g.args[0], g.args[1]))
        if g.op == 'lt':
            return tm.le(tm.add(d, ONE), ZERO)
        if g.op == 'le':
            return tm.le(d, ZERO)
        if ipoly(d) and list(ipoly(d).values())[0] < 0:
            d = inorm(tm.neg(d))
        return tm.eq(d, ZERO)
    return g


# simplification -----------------------------------------------------------------

def bounds_ctx(ctx, m, skip=None):
    more = []
    for b, lo, hi in m.bs:
        if b != skip:
            more.append(tm.le(lo, var(b)))
            more.append(tm.lt(var(b), hi))
    for g in m.gs:
        more.append(g)
    return ctx.extend(*more)


_PURE = {}


def pure_int(t):
    """No real-sorted subterm: usable on its own for index and guard facts."""
    r = _PURE.get(t)
    if r is None:
        r = t.sort != 'R' and t.op not in ('forall', 'exists', 'sum') and all(pure_int(a) for a in t.args)
        _PURE[t] = r
    return r


class LCtx(Ctx):
    """A context that decides integer goals from the integer assumptions alone."""

    def __init__(self, assumptions=()):
        Ctx.__init__(self, assumptions)
        self.light = None

    def extend(self, *more):
        return LCtx(self.ass + [m for m in more if m is not TRUE and m is not None])

    def proves(self, goal, timeout=None):
        if goal.op not in ('true', 'false') and pure_int(goal):
            if self.light is None:
                self.light = Ctx([a for a in self.ass if pure_int(a)])
            return self.light.proves(goal, timeout)
        return Ctx.proves(self, goal, timeout)


class NF:
    """Normal forms relative to a context."""

    def __init__(self, ctx):
        self.full = ctx
        self.ctx = ctx if isinstance(ctx, LCtx) else LCtx(ctx.ass)
        ctx = self.ctx
        self.rw = {}
        for a in ctx.ass:
            for x in (a.args if a.op == 'and' else (a,)):
                if x.op == 'eq':
                    l, r = x.args
                    if l.op == 'var' and r.op == 'num':
                        self.rw[l.val] = r
                    elif r.op == 'var' and l.op == 'num':
                        self.rw[r.val] = l

    def poly(self, t):
        if self.rw:
            t = tm.subst(t, self.rw)
        out = []
        for m in expand(t):
            out.extend(self.simp(m))
        return collect(out)

    def simp(self, m, depth=0):
        """Simplify one monomial; returns a list."""
        if depth > 60:
            return [m]
        m = self.guards(m)
        if m is None:
            return []
        # Kronecker elimination
        for g in m.gs:
            if g.op == 'eq':
                for k, (b, lo, hi) in enumerate(m.bs):
                    if b not in fv(g):
                        continue
                    la = linear_in(tm.sub(g.args[0], g.args[1]), b)
                    if la is None or abs(la[0]) != 1:
                        continue
                    e = inorm(tm.mul(num(-1 / la[0]), la[1]))
                    inner = {x[0] for x in m.bs[k + 1:]}
                    if fv(e) & inner:
                        # e may mention inner variables; allow if their ranges do not mention b
                        if any(b in fv(x[1]) | fv(x[2]) for x in m.bs[k + 1:]):
                            continue
                    bs = m.bs[:k] + m.bs[k + 1:]
                    gs = tuple(x for x in m.gs if x is not g) + (tm.le(lo, e), tm.lt(e, hi))
                    if fv(lo) & inner or fv(hi) & inner:
                        continue
                    m2 = Mono(m.c, bs, gs, m.fs)
                    out = []
                    for x in msubst_list(m2, {b: e}):
                        out.extend(self.simp(x, depth + 1))
                    return out
        # absorb bounds
        r = self.absorb(m)
        if r is not None:
            return self.simp(r, depth + 1)
        r = self.squares(m) or self.selection(m)
        if r is not None:
            out = []
            for x in r:
                out.extend(self.simp(x, depth + 1))
            return out
        # div/mod reindexing
        r = self.divmod(m)
        if r is not None:
            out = []
            for x in r:
                out.extend(self.simp(x, depth + 1))
            return out
        # row-sum facts
        r = self.sumrule(m)
        if r is not None:
            out = []
            for x in r:
                out.extend(self.simp(x, depth + 1))
            return out
        # singleton ranges
        for k, (b, lo, hi) in enumerate(m.bs):
            d = inorm(tm.sub(hi, lo))
            if d is ONE:
                bs = m.bs[:k] + m.bs[k + 1:]
                out = []
                for x in msubst_list(Mono(m.c, bs, m.gs, m.fs), {b: lo}):
                    out.extend(self.simp(x, depth + 1))
                return out
            if d.op == 'num' and d.val <= 0:
                return []
        # counting
        for k, (b, lo, hi) in enumerate(m.bs):
            if any(b in fv(f) for f, _ in m.fs) or any(b in fv(g) for g in m.gs):
                continue
            if any(b in fv(x[1]) | fv(x[2]) for x in m.bs):
                continue
            bs = m.bs[:k] + m.bs[k + 1:]
            rest = Mono(m.c, bs, m.gs, m.fs)
            if not (lo is ZERO and counts(hi)) and not bounds_ctx(self.ctx, rest).proves(tm.le(lo, hi)):
                continue
            out = []
            for x in mulpoly([rest], expand(inorm(tm.sub(hi, lo)))):
                out.extend(self.simp(x, depth + 1))
            return out
        return [m]

    def selection(self, m):
        """A sum over the cells selected by a mask is a sum over all cells where the mask holds."""
        from .npm import sel_count, IVN
        for k, (b, lo, hi) in enumerate(m.bs):
            if lo is not ZERO or hi.op != 'sum':
                continue
            occ = set()
            for x in [f for f, _ in m.fs] + list(m.gs):
                if b in fv(x):
                    occ |= {y for y in tm.subterms(x) if y.op == 'app' and Fn.table[y.val].selinfo is not None and y.args[-1] is var(b)
                            and not any(b in fv(z) for z in y.args[:-1])}
            if len(occ) > 1 or any(b in fv(z[1]) | fv(z[2]) for z in m.bs):
                continue
            if occ:
                s, = occ
                n, body = Fn.table[s.val].selinfo(*s.args[:-1])
            else:
                continue
            cnt = sel_count(n, body)
            if cnt is not hi and not NF(self.ctx).is_zero(tm.sub(cnt, hi)):
                continue
            v = tm.fresh_var('b')
            rp = lambda x: v if x is s else None
            g = tm.subst(body, {IVN[0]: v})
            m2 = Mono(m.c, m.bs[:k] + ((v.val, ZERO, n),) + m.bs[k + 1:],
                      tuple(tm.replace(x, rp) for x in m.gs),
                      mkfs_merge([(tm.replace(x, rp), p) for x, p in m.fs]))
            if any(b in fv(x) for x in [f for f, _ in m2.fs] + list(m2.gs)):
                continue
            out = []
            for y in guardpoly(g):
                for z in msubst_list(m2, {}):
                    y2 = rename(y)
                    out.append(Mono(z.c * y2.c, z.bs + y2.bs, z.gs + y2.gs, mkfs_merge(z.fs + y2.fs)))
            return out
        return None

    def squares(self, m):
        """sqrt(x)**2 is x for x >= 0; (q*w + r) // w is q for 0 <= r < w."""
        for f, p in m.fs:
            if f.op == 'sqrt' and abs(p) >= 2 and bounds_ctx(self.ctx, m).proves(tm.le(ZERO, f.args[0])):
                h = int(p / 2)
                fs = tuple(x for x in m.fs if x[0] is not f)
                if p - 2 * h:
                    fs = mkfs_merge(fs + ((f, p - 2 * h),))
                return [Mono(m.c * y.c, m.bs + y.bs, m.gs + y.gs, mkfs_merge(fs + y.fs))
                        for y in map(rename, expand(tm.power(f.args[0], h)))]
        for f in [x for x, _ in m.fs] + list(m.gs):
            if fv(f) and ('fdiv' in ops(f) or 'mod' in ops(f)):
                for s in tm.subterms(f):
                    if s.op not in ('fdiv', 'mod'):
                        continue
                    w = s.args[1]
                    a = inorm(s.args[0])
                    wp = ipoly(w)
                    if len(wp) != 1:
                        continue
                    wk = next(iter(wp))
                    if wp[wk] != 1:
                        continue
                    q, r = {}, {}
                    for key, v in ipoly(a).items():
                        kk = list(key)
                        try:
                            for x in wk:
                                kk.remove(x)
                            q[tuple(kk)] = v
                        except ValueError:
                            r[key] = v
                    rt = from_ipoly(r)
                    c = bounds_ctx(self.ctx, m)
                    if not c.proves(tm.tand(tm.le(ZERO, rt), tm.lt(rt, w))):
                        continue
                    new = from_ipoly(q) if s.op == 'fdiv' else rt
                    rp = lambda x: new if x is s else None
                    m2 = Mono(m.c, m.bs, tuple(tm.replace(g, rp) for g in m.gs), mkfs_merge([(tm.replace(x, rp), p) for x, p in m.fs]))
                    return msubst_list(m2, {})
        return None

    def guards(self, m):
        if not m.gs:
            return m
        gs = []
        for g in m.gs:
            g = inorm_guard(g)
            for x in (g.args if g.op == 'and' else (g,)):
                if x is FALSE:
                    return None
                if x is not TRUE and x not in gs:
                    gs.append(x)
        # drop guards implied by the context, ranges and the other guards
        i = 0
        while i < len(gs):
            others = Mono(m.c, m.bs, tuple(gs[:i] + gs[i + 1:]), ())
            c = bounds_ctx(self.ctx, others)
            if c.proves(gs[i]):
                gs.pop(i)
                continue
            i += 1
        if gs:
            c = bounds_ctx(self.ctx, Mono(m.c, m.bs, tuple(gs), ()))
            if not c.consistent():
                return None
        # an inequality pair may force an equality
        for i, g in enumerate(gs):
            if g.op == 'le' and g.args[0].sort == 'I':
                names = [b for b, _, _ in m.bs if b in fv(g)]
                if not names:
                    continue
                others = Mono(m.c, m.bs, tuple(gs), ())
                if bounds_ctx(self.ctx, others).proves(tm.le(g.args[1], g.args[0])):
                    gs[i] = inorm_guard(tm.eq(g.args[0], g.args[1]))
        return Mono(m.c, m.bs, tuple(gs), m.fs)

    def absorb(self, m):
        """Turn guards  b <= e  /  e <= b  on a bound variable into its range."""
        for g in m.gs:
            if g.op != 'le':
                continue
            for k in range(len(m.bs) - 1, -1, -1):
                b, lo, hi = m.bs[k]
                if b not in fv(g):
                    continue
                if any(x[0] in fv(g) for x in m.bs[k + 1:]):
                    break
                la = linear_in(tm.sub(g.args[0], g.args[1]), b)
                if la is None or abs(la[0]) != 1:
                    break
                others = Mono(m.c, m.bs[:k], tuple(x for x in m.gs if b not in fv(x) and not (fv(x) & {y[0] for y in m.bs[k:]})), ())
                c = bounds_ctx(self.ctx, others)
                gs = tuple(x for x in m.gs if x is not g)
                if la[0] > 0:       # b + rest <= 0 -> b < -rest+1
                    nh = inorm(tm.add(tm.neg(la[1]), ONE))
                    if c.proves(tm.le(nh, hi)):
                        return Mono(m.c, m.bs[:k] + ((b, lo, nh),) + m.bs[k + 1:], gs, m.fs)
                else:               # rest <= b
                    nl = la[1]
                    if c.proves(tm.le(lo, nl)):
                        return Mono(m.c, m.bs[:k] + ((b, nl, hi),) + m.bs[k + 1:], gs, m.fs)
                break
        return None

    def divmod(self, m):
        """Split a bound variable e occurring as (e-c)//w or (e-c)%w."""
        for f in [x for x, _ in m.fs] + list(m.gs):
            for s in tm.subterms(f):
                if s.op not in ('fdiv', 'mod'):
                    continue
                w = s.args[1]
                for k, (b, lo, hi) in enumerate(m.bs):
                    if b not in fv(s.args[0]) or b in fv(w):
                        continue
                    la = linear_in(s.args[0], b)
                    if la is None or la[0] != 1:
                        continue
                    if any(x[0] in fv(s) for x in m.bs[k + 1:]):
                        continue
                    if any(b in fv(x[1]) | fv(x[2]) for x in m.bs[k + 1:]):
                        continue
                    # b + rest in [A, A + n*w) where A = lo + rest
                    A = inorm(tm.add(lo, la[1]))
                    L = inorm(tm.sub(hi, lo))
                    q = self.divide(A, w)
                    n = self.divide(L, w)
                    if q is None or n is None:
                        continue
                    v, u = tm.fresh_var('b'), tm.fresh_var('b')
                    # b = (q+v)*w + u - rest
                    e = inorm(tm.sub(tm.add(tm.mul(tm.add(q, v), w), u), la[1]))
                    bs = m.bs[:k] + ((v.val, ZERO, n), (u.val, ZERO, w)) + m.bs[k + 1:]
                    tgt_q, tgt_r = inorm(tm.add(q, v)), u

                    def rp(x, w=w, b=b):
                        if x.op in ('fdiv', 'mod') and x.args[1] is w:
                            l2 = linear_in(x.args[0], b)
                            if l2 is not None and l2[0] == 1:
                                off = inorm(tm.sub(l2[1], la[1]))
                                d = self.divide(off, w)
                                if d is not None:
                                    return inorm(tm.add(tgt_q, d)) if x.op == 'fdiv' else tgt_r
                        return None
                    m2 = Mono(m.c, bs, tuple(tm.replace(g, rp) for g in m.gs),
                              mkfs_merge([(tm.replace(x, rp), p) for x, p in m.fs]))
                    return msubst_list(m2, {b: e})
        return None

    def divide(self, a, w):
        """a / w as an integer term if a is a syntactic multiple of w."""
        if a.op == 'num' and a.val == 0:
            return ZERO
        if w.op == 'num':
            p = ipoly(a)
            if all((v / w.val).denominator == 1 for v in p.values()):
                return from_ipoly({k: v / w.val for k, v in p.items()})
            return None
        wp = ipoly(w)
        if len(wp) != 1:
            # try exact polynomial: a == c*w
            ap = ipoly(a)
            k0 = next(iter(wp))
            if k0 in ap:
                c = ap[k0] / wp[k0]
                if c.denominator == 1 and inorm(tm.sub(a, tm.mul(num(c), w))) is ZERO:
                    return num(c)
            return None
        (wk, wc), = wp.items()
        out = {}
        for k, v in ipoly(a).items():
            kk = list(k)
            for x in wk:
                if x in kk:
                    kk.remove(x)
                else:
                    return None
            q = v / wc
            if q.denominator != 1:
                return None
            out[tuple(kk)] = q
        return from_ipoly(out)

    def sumrule(self, m):
        for k, (b, lo, hi) in enumerate(m.bs):
            if any(b in fv(g) for g in m.gs) or any(b in fv(x[1]) | fv(x[2]) for x in m.bs):
                continue
            occ = [(f, p) for f, p in m.fs if b in fv(f)]
            if len(occ) != 1 or occ[0][1] != 1 or occ[0][0].op != 'app':
                continue
            f = occ[0][0]
            F = Fn.table[f.val]
            for rule in F.sumrules:
                pos, rlo, rhi, guard, value = rule
                if f.args[pos] is not var(b):
                    continue
                oth = [a for i, a in enumerate(f.args) if i != pos]
                if any(b in fv(a) for a in oth):
                    continue
                c = bounds_ctx(self.ctx, Mono(m.c, m.bs[:k] + m.bs[k + 1:], m.gs, ()))
                if not (c.proves(tm.eq(lo, rlo(*oth))) and c.proves(tm.eq(hi, rhi(*oth)))):
                    continue
                if guard is not None and not c.proves(guard(*oth)):
                    continue
                fs = tuple(x for x in m.fs if x[0] is not f)
                return mulpoly([Mono(m.c, m.bs[:k] + m.bs[k + 1:], m.gs, fs)], expand(num(value(*oth))))
        return None

    # equality -------------------------------------------------------------------

    def is_zero(self, t, trace=None):
        try:
            ms = self.poly(t)
        except TooBig:
            return False
        return self.monos_zero(ms, trace)

    def monos_zero(self, ms, trace=None, depth=0):
        if not ms:
            return True
        ms = self.clear_denominators(ms)
        classes = self.classify(ms)
        ok = True
        left = []
        for cl in classes:
            if not self.class_zero(cl):
                left.append(cl)
        if not left:
            return True
        if depth < 6:
            # a class whose coefficient vanishes except at one point of a range
            out, any_ = [], False
            for cl in left:
                r = self.collapse(cl)
                any_ = any_ or r is not None
                out.extend(r if r is not None else [x[3] for x in cl.items])
            if any_:
                ms2 = []
                for m in out:
                    ms2.extend(self.simp(m))
                return self.monos_zero(collect(ms2), trace, depth + 1)
        if trace is not None:
            trace.extend(left)
        return False

    def clear_denominators(self, ms):
        """Multiply by the powers of all bound-free inverse atoms."""
        for _ in range(8):
            den = {}
            for m in ms:
                bn = {b for b, _, _ in m.bs}
                for f, p in m.fs:
                    if p < 0 and not (fv(f) & bn):
                        den[f] = max(den.get(f, 0), -p)
            # only compound denominators need clearing; simple atoms cancel by themselves
            den = {f: p for f, p in den.items() if f.op not in ('var', 'app')}
            if not den:
                return ms
            out = []
            for m in ms:
                d = dict(m.fs)
                res = None
                todo = []
                for f, p in den.items():
                    have = d.get(f, 0)
                    if have < 0:
                        d[f] = have + p
                    elif p:
                        todo.append((f, p))
                for f in list(d):
                    if f in den and d[f] > 0:
                        todo.append((f, d.pop(f)))
                res = [Mono(m.c, m.bs, m.gs, mkfs(d))]
                for f, p in todo:
                    e = self.poly(f)
                    for _ in range(p):
                        res = mulpoly(res, e)
                out.extend(res)
            ms2 = []
            for m in collect(out):
                ms2.extend(self.simp(m))
            ms = collect(ms2)
        return ms

    def split(self, m):
        bn = {b for b, _, _ in m.bs}
        bf = tuple(x for x in m.fs if fv(x[0]) & bn)
        sf = tuple(x for x in m.fs if not (fv(x[0]) & bn))
        return bf, sf

    def sig(self, m, bf):
        return (len(m.bs), tuple(sorted((head(f), p) for f, p in bf)))

    def domain(self, m, skip=()):
        out = []
        for b, lo, hi in m.bs:
            out.append(tm.le(lo, var(b)))
            out.append(tm.lt(var(b), hi))
        out.extend(m.gs)
        return tm.tand(*out)

    def classify(self, ms):
        by = {}
        order = []
        for m in ms:
            bf, sf = self.split(m)
            s = self.sig(m, bf)
            lst = by.setdefault(s, [])
            placed = False
            if lst and m.bs:
                m = rename(m)
                bf, sf = self.split(m)
            for cl in lst:
                sub = self.match(cl, m, bf)
                if sub is not None:
                    dom = tm.subst(self.domain(m), sub)
                    cl.items.append((m.c, sf, dom, m, sub))
                    placed = True
                    break
            if not placed:
                cl = Class(m, bf)
                cl.items.append((m.c, sf, self.domain(m), m, {b: var(b) for b, _, _ in m.bs}))
                lst.append(cl)
                order.append(cl)
        return order

    def match(self, cl, m, bf):
        """Substitution of m's bound variables by class variables, or None."""
        rep, rbf = cl.rep, cl.bf
        if not m.bs:
            if not rbf and not bf:
                return {}
            return None
        rb = [b for b, _, _ in rep.bs]
        mb = [b for b, _, _ in m.bs]
        ctxd = None

        def solve(pairs, sub, used, pending):
            """Process equations idx_m == idx_r."""
            pend = list(pending) + list(pairs)
            progress = True
            while progress:
                progress = False
                rest = []
                for (im, ir) in pend:
                    im2 = inorm(tm.subst(im, sub))
                    # unassigned m variables left in im2
                    um = [b for b in mb if b not in sub and b in fv(im2)]
                    ur = [b for b in rb if b not in used and b in fv(ir)]
                    if not um and not ur:
                        rest.append((im2, ir))
                        continue
                    if len(um) == 1 and len(ur) == 1:
                        la = linear_in(im2, um[0])
                        lr = linear_in(ir, ur[0])
                        if la is not None and lr is not None and abs(la[0]) == 1 and abs(lr[0]) == 1:
                            # um = (ir - la.rest)/la.a
                            e = inorm(tm.mul(num(1 / la[0]), tm.sub(ir, la[1])))
                            sub = dict(sub)
                            sub[um[0]] = e
                            used = used | {ur[0]}
                            progress = True
                            continue
                        if la is None and lr is None and same_coefficient(im2, um[0], ir, ur[0]):
                            sub = dict(sub)
                            sub[um[0]] = var(ur[0])
                            used = used | {ur[0]}
                            progress = True
                            continue
                        if la is None or lr is None or abs(la[0]) != abs(lr[0]):
                            rest.append((im2, ir))
                            continue
                        # same non-unit coefficient: try um = +-ur + const
                        if la[0] == lr[0] and inorm(tm.sub(la[1], lr[1])) is ZERO:
                            sub = dict(sub)
                            sub[um[0]] = var(ur[0])
                            used = used | {ur[0]}
                            progress = True
                            continue
                    rest.append((im2, ir))
                pend = rest
            # cheap refutation: fully-resolved equations that differ by a non-zero constant
            for (im, ir) in pend:
                d = inorm(tm.sub(tm.subst(im, sub), ir))
                if d.op == 'num' and d.val != 0:
                    return None
            return sub, used, pend

        def rec(i, avail, sub, used, pend, opq):
            if i == len(bf):
                return finish(sub, used, pend, opq)
            f, p = bf[i]
            hf = head(f)
            tried = 0
            for j in list(avail):
                g, q = rbf[j]
                if q != p or head(g) != hf:
                    continue
                if f.op == 'app':
                    alts = [list(zip(f.args, g.args))]
                    if Fn.table[f.val].symmetric:
                        alts.append([(f.args[0], g.args[1]), (f.args[1], g.args[0])])
                    for pairs in alts:
                        r = solve(pairs, sub, used, pend)
                        if r is None:
                            continue
                        s2, u2, p2 = r
                        z = rec(i + 1, [x for x in avail if x != j], s2, u2, p2, opq)
                        if z is not None:
                            return z
                else:
                    z = rec(i + 1, [x for x in avail if x != j], sub, used, pend, opq + [(f, g)])
                    if z is not None:
                        return z
            return None

        def finish(sub, used, pend, opq):
            # variables not occurring in app factors: pair them up through opaque factors or in order
            un_m = [b for b in mb if b not in sub]
            un_r = [b for b in rb if b not in used]
            if len(un_m) != len(un_r):
                return None
            import itertools
            perms = itertools.permutations(un_r) if len(un_r) <= 4 else [un_r]
            for perm in perms:
                s2 = dict(sub)
                cands = [s2]
                if opq and un_m:
                    s3 = self.guess_from_opaque(opq, un_m, un_r, sub)
                    if s3 is not None:
                        cands = [s3]
                    else:
                        for a, b in zip(un_m, perm):
                            s2[a] = var(b)
                else:
                    for a, b in zip(un_m, perm):
                        s2[a] = var(b)
                for s in cands:
                    # apply nested substitutions to closure
                    s = closure(s, mb)
                    if s is None:
                        continue
                    if verify(s, pend, opq):
                        return s
            return None

        def verify(s, pend, opq):
            dom = tm.tand(self.domain(rep), )
            domm = tm.subst(self.domain(m), s)
            c = None
            for (im, ir) in pend:
                e = tm.eq(tm.subst(im, s), ir)
                e = inorm_guard(e)
                if e is TRUE:
                    continue
                if c is None:
                    c = self.ctx.extend(tm.tor(dom, domm) if False else domm)
                if not c.proves(e):
                    return False
            for f, g in opq:
                f2 = tm.subst(f, s)
                if f2 is g:
                    continue
                sub = NF(self.ctx.extend(domm))
                if not sub.opaque_eq(f2, g):
                    return False
            return True

        return rec(0, list(range(len(rbf))), {}, frozenset(), [], [])

    def guess_from_opaque(self, opq, un_m, un_r, sub):
        s = dict(sub)
        used = set()
        for f, g in opq:
            fa = sorted(tm.apps(f), key=lambda x: x.val)
            ga = sorted(tm.apps(g), key=lambda x: x.val)
            for x in fa:
                for y in ga:
                    if x.val != y.val:
                        continue
                    for im, ir in zip(x.args, y.args):
                        im2 = inorm(tm.subst(im, s))
                        um = [b for b in un_m if b not in s and b in fv(im2)]
                        ur = [b for b in un_r if b not in used and b in fv(ir)]
                        if len(um) == 1 and len(ur) == 1:
                            la, lr = linear_in(im2, um[0]), linear_in(ir, ur[0])
                            if la and lr and abs(la[0]) == 1 and abs(lr[0]) == 1:
                                s[um[0]] = inorm(tm.mul(num(1 / la[0]), tm.sub(ir, la[1])))
                                used.add(ur[0])
        if all(b in s for b in un_m):
            return s
        return None

    def opaque_eq(self, f, g):
        if f is g:
            return True
        if f.op != g.op or len(f.args) != len(g.args):
            return False
        if f.op == 'app':
            if f.val != g.val:
                return False
            return all(self.ctx.proves(tm.eq(a, b)) for a, b in zip(f.args, g.args))
        if f.op in ('max', 'min'):
            (a, b), (c, d) = f.args, g.args
            return ((self.is_zero(tm.sub(a, c)) and self.is_zero(tm.sub(b, d))) or
                    (self.is_zero(tm.sub(a, d)) and self.is_zero(tm.sub(b, c))))
        if f.op in ('abs', 'sqrt', 'fdiv', 'mod', 'add', 'mul', 'pow', 'sum', 'ite'):
            if f.op == 'pow' and f.val != g.val:
                return False
            if f.op in ('abs', 'sqrt', 'fdiv', 'mod', 'pow'):
                return all(self.is_zero(tm.sub(a, b)) for a, b in zip(f.args, g.args))
            return self.is_zero(tm.sub(f, g))
        return False

    def class_zero(self, cl):
        """Is sum_i c_i * scalar_i * [dom_i(b)] zero for every b?"""
        by = {}
        for c, sf, dom, _, _ in cl.items:
            by.setdefault(self.canon_sf(sf), []).append((c, dom))
        bad = []
        for sf, lst in by.items():
            if sum(c for c, _ in lst) == 0 and all(d is lst[0][1] for _, d in lst):
                continue
            t = tm.add(*[tm.ite(d, num(c), ZERO) for c, d in lst])
            if not self.index_zero(t, lst):
                bad.append((sf, lst))
        if not bad:
            return True
        # scalar coefficients may be related by the assumptions
        t = tm.add(*[tm.mul(num(c), tm.ite(d, ONE, ZERO), *[tm.power(f, p) for f, p in sf])
                     for sf, lst in bad for c, d in lst])
        if not self.equations(t):
            from . import evalt
            v = evalt.fingerprint(t, self.ctx.extend(bad[0][1][0][1]))
            if v and any(abs(x) > 1e-7 for x in v):
                return False
        return Ctx.proves(self.ctx, tm.eq(t, ZERO))

    def index_zero(self, t, lst):
        g = tm.eq(t, ZERO)
        if self.ctx.proves(g):          # from the integer assumptions
            return True
        return not pure_int(g) and Ctx.proves(self.ctx, g)

    def equations(self, t):
        """an assumption, or a fact about a symbol of t, equates real terms"""
        def eqs(f):
            return any(x.op == 'eq' and (x.args[0].sort == 'R' or x.args[1].sort == 'R')
                       for x in (f.args if f.op == 'and' else (f,)))
        for a in self.ctx.ass:
            if eqs(a):
                return True
        for x in tm.apps(t):
            for fact in Fn.table[x.val].facts:
                g = fact(*x.args)
                if g is not None and g is not TRUE and eqs(g):
                    return True
        return False

    def collapse(self, cl):
        """The sum over b of t(b) * factors(b) with t(b) = 0 for b != e is its term at b = e."""
        if len(cl.items) < 2:
            return None
        for b, _, _ in cl.rep.bs:
            names = {x for x, _, _ in cl.rep.bs}
            cands = []
            for c, sf, dom, m, sub in cl.items:
                for a in (dom.args if dom.op == 'and' else (dom,)):
                    if a.op in ('le', 'lt') and a.args[0].sort == 'I' and b in fv(a):
                        la = linear_in(tm.sub(a.args[0], a.args[1]), b)
                        if la is None or abs(la[0]) != 1 or fv(la[1]) & names:
                            continue
                        e = tm.neg(la[1]) if la[0] > 0 else la[1]
                        if a.op == 'lt':
                            e = tm.sub(e, ONE) if la[0] > 0 else tm.add(e, ONE)
                        for e in (e, tm.add(e, ONE), tm.sub(e, ONE)):
                            e = inorm(e)
                            if e not in cands:
                                cands.append(e)
            by = {}
            for c, sf, dom, m, sub in cl.items:
                by.setdefault(sf, []).append((c, dom))
            for e in cands[:12]:
                x = var(b)
                if all(self.ctx.proves(tm.tor(tm.eq(tm.add(*[tm.ite(d, num(c), ZERO) for c, d in lst]), ZERO), tm.eq(x, e)))
                       for lst in by.values()):
                    out = []
                    for c, sf, dom, m, sub in cl.items:
                        v = [y for y, z in sub.items() if b in fv(z)]
                        la = linear_in(sub[v[0]], b) if len(v) == 1 else None
                        if la is None or abs(la[0]) != 1 or fv(la[1]) & names:
                            break
                        at = inorm(tm.subst(sub[v[0]], {b: e}))
                        out.append(Mono(m.c, m.bs, m.gs + (tm.eq(var(v[0]), at),), m.fs))
                    else:
                        return out
        return None

    def canon_sf(self, sf):
        return sf


def counts(t):
    """a sum of conditionals of non-negative numbers"""
    if t.op == 'num':
        return t.val >= 0
    if t.op == 'sum':
        return counts(t.args[2])
    return t.op == 'ite' and counts(t.args[1]) and counts(t.args[2])


_OPS = {}


def ops(t):
    r = _OPS.get(t)
    if r is None:
        r = _OPS[t] = frozenset({t.op}.union(*[ops(a) for a in t.args]))
    return r


def mkfs_merge(lst):
    d = {}
    for a, p in lst:
        d[a] = d.get(a, 0) + p
    return mkfs(d)


def head(f):
    return f.val if f.op == 'app' else f.op


def closure(s, mb):
    """Resolve substitution entries that still mention m-variables."""
    for _ in range(len(mb) + 1):
        ch = False
        for k in list(s):
            if fv(s[k]) & set(mb):
                s[k] = inorm(tm.subst(s[k], {x: s[x] for x in mb if x in s and x != k}))
                ch = True
        if not ch:
            return s
    return None


class Class:
    def __init__(self, rep, bf):
        self.rep = rep
        self.bf = bf
        self.items = []

    def __repr__(self):
        return 'class %s: %s' % ([(f, p) for f, p in self.bf], self.items)


def equal(a, b, ctx=None, trace=None):
    ctx = ctx or Ctx()
    d = tm.sub(a, b)
    if d.op == 'num':
        return d.val == 0
    return NF(ctx).is_zero(d, trace)
