"""Translation of terms to z3 and the assumption context.

A Ctx holds assumptions (boolean terms).  `proves(goal)` asks z3 whether the
assumptions, together with the instantiated facts of every function symbol
occurring in the query, entail the goal.  Anything but `unsat` counts as "not
proved".
"""
import os
import time
import z3
from . import terms as tm
from .terms import T, TRUE, FALSE, Fn

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0, 'cvc5': 0, 'cvc5_time': 0.0}
TIMEOUT = 40000       # wall-clock safety net (ms); the deterministic limit is RLIMIT
RLIMIT = 6000000


class Tr:
    """One translation session (one query)."""

    def __init__(self, ctx, opaque=None):
        self.ctx = ctx
        self.memo = {}
        self.side = []          # z3 side constraints
        self.queue = []         # instantiated fact terms still to translate
        self.seen_apps = set()
        self.opaque = opaque
        self.prods = set()

    def const(self, name, sort):
        return z3.Int(name) if sort == 'I' else (z3.Real(name) if sort == 'R' else z3.Bool(name))

    def real(self, z):
        return z3.ToReal(z) if z3.is_int(z) else z

    def num(self, t):
        """translate arithmetic term"""
        return self.tr(t)

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def both(self, a, b):
        x, y = self.tr(a), self.tr(b)
        if z3.is_int(x) != z3.is_int(y):
            x, y = self.real(x), self.real(y)
        return x, y

    def _tr(self, t):
        o = t.op
        if o == 'num':
            if t.val.denominator == 1 and t.sort == 'I':
                return z3.IntVal(t.val.numerator)
            return z3.RealVal(t.val)
        if o == 'var':
            return self.const(t.val, t.sort)
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'app':
            f = Fn.table[t.val]
            srt = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[f.sort]
            args = [self.tr(a) for a in t.args]
            for i, a in enumerate(args):
                if not z3.is_int(a):
                    # real-sorted index: keep the value exact
                    args[i] = z3.ToInt(a)
            if not (tm.fv(t) & self.bound):
                for fact in f.facts:
                    g = fact(*t.args)
                    if g is not None and g is not TRUE and (t.val, g) not in self.seen_apps:
                        self.seen_apps.add((t.val, g))
                        self.queue.append(g)
            if f.arity == 0:
                return self.const(t.val, f.sort)
            zf = z3.Function(t.val, *([z3.IntSort()] * f.arity + [srt]))
            return zf(*args)
        if o == 'add':
            xs = [self.tr(a) for a in t.args]
            if not all(z3.is_int(x) for x in xs):
                xs = [self.real(x) for x in xs]
            return z3.Sum(xs)
        if o == 'mul':
            xs = [self.tr(a) for a in t.args]
            if not all(z3.is_int(x) for x in xs):
                xs = [self.real(x) for x in xs]
            else:
                vs = tuple(a for a in t.args if a.op != 'num')
                if len(vs) == 2:
                    self.prods.add(vs)
            r = xs[0]
            for x in xs[1:]:
                r = r * x
            return r
        if o == 'pow':
            b = self.tr(t.args[0])
            if t.val > 0:
                r = b
                for _ in range(t.val - 1):
                    r = r * b
                return r
            inv = z3.Real('inv!%d' % t.args[0].id)
            rb = self.real(b)
            self.side.append(z3.Implies(rb != 0, inv * rb == 1))
            self.side.append(z3.Implies(rb > 0, inv > 0))
            self.side.append(z3.Implies(rb < 0, inv < 0))
            r = inv
            for _ in range(-t.val - 1):
                r = r * inv
            return r
        if o == 'ite':
            c = self.tr(t.args[0])
            a, b = self.both(t.args[1], t.args[2])
            return z3.If(c, a, b)
        if o in ('max', 'min'):
            a, b = self.both(*t.args)
            return z3.If(a >= b, a, b) if o == 'max' else z3.If(a <= b, a, b)
        if o == 'abs':
            a = self.tr(t.args[0])
            return z3.If(a >= 0, a, -a)
        if o == 'sqrt':
            a = self.real(self.tr(t.args[0]))
            s = z3.Real('sqrt!%d' % t.args[0].id)
            self.side.append(z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)))
            return s
        if o in ('fdiv', 'mod'):
            a, b = self.tr(t.args[0]), self.tr(t.args[1])
            key = '%d_%d' % (t.args[0].id, t.args[1].id)
            q, r = z3.Int('q!' + key), z3.Int('r!' + key)
            qb = q * b
            self.side.append(z3.Implies(b > 0, z3.And(a == qb + r, r >= 0, r < b)))
            return q if o == 'fdiv' else r
        if o == 'sum':
            c = z3.Real('sum!%d' % t.id) if t.sort == 'R' else z3.Int('sum!%d' % t.id)
            if tm.fv(t) & self.bound:
                raise NotImplementedError('sum under quantifier')
            return c
        if o in ('le', 'lt', 'eq'):
            a, b = self.both(*t.args)
            return a <= b if o == 'le' else (a < b if o == 'lt' else a == b)
        if o == 'and':
            return z3.And(*[self.tr(a) for a in t.args])
        if o == 'or':
            return z3.Or(*[self.tr(a) for a in t.args])
        if o == 'not':
            return z3.Not(self.tr(t.args[0]))
        if o in ('forall', 'exists'):
            old = self.bound
            self.bound = old | set(t.val)
            b = self.tr(t.args[0])
            self.bound = old
            vs = [z3.Int(v) for v in t.val]
            return z3.ForAll(vs, b) if o == 'forall' else z3.Exists(vs, b)
        raise NotImplementedError(o)

    bound = frozenset()


_BUNDLE = {}


def bundle(t):
    """Translation of a formula with the facts of the function symbols in it, or None."""
    r = _BUNDLE.get(t, 0)
    if r == 0:
        tr = Tr(None)
        try:
            z = tr.tr(t)
            r = (z, tuple(tr.queue), tuple(tr.side), tuple(sorted(tr.prods, key=lambda p: (p[0].id, p[1].id))))
        except NotImplementedError:
            r = None
        _BUNDLE[t] = r
    return r


OBLIGATION = False      # set while an obligation is discharged: use every assumption
_INT = {}


def integer_only(t):
    """no real-valued subterm"""
    r = _INT.get(t)
    if r is None:
        r = _INT[t] = not any(x.sort == 'R' for x in tm.subterms(t))
    return r


class Ctx:
    def __init__(self, assumptions=(), parent=None):
        self.ass = list(assumptions)
        self.cache = {}
        self.eqs = None

    def extend(self, *more):
        c = Ctx(self.ass)
        for m in more:
            if m is not TRUE and m is not None:
                c.ass.append(m)
        return c

    def key(self):
        return tuple(sorted(set(a.id for a in self.ass)))

    def relevant(self, goal, assumptions):
        return assumptions

    def check(self, extra, timeout=None, mode=None):
        """satisfiability of assumptions + extra: 'sat'/'unsat'/'unknown'."""
        key = (self.key(), tuple(sorted(e.id for e in extra)))
        r = _GLOBAL.get(key)
        if r is not None and r != 'unknown':
            return r
        if any(e is FALSE for e in extra) or any(a is FALSE for a in self.ass):
            _GLOBAL[key] = 'unsat'
            return 'unsat'
        t0 = time.time()
        fs, side, prods, seen = [], [], [], set()
        queue = list(self.ass) + list(extra)
        rounds = 0
        while queue and rounds < 5:
            rounds += 1
            nxt = []
            for a in queue:
                if a in seen:
                    continue
                seen.add(a)
                r = bundle(a)
                if r is None:
                    continue
                z, facts, sd, pr = r
                fs.append(z)
                side.extend(sd)
                for x in pr:
                    if x not in prods:
                        prods.append(x)
                nxt.extend(facts)
            queue = nxt
        # hints for products of non-negative differences
        s = z3.Solver() if extra else z3.SimpleSolver()
        if not extra:
            s.set('smt.arith.nl.nra', False)        # consistency: no algebraic decision procedure
        s.set('timeout', timeout or (TIMEOUT if extra else TIMEOUT // 8))
        s.set('rlimit', RLIMIT if extra else RLIMIT // 4)
        for f in fs:
            s.add(f)
        for f in side:
            s.add(f)
        if prods:
            tr = Tr(self)
            for f in self.prod_hints(tr, prods):
                s.add(f)
        r = str(s.check())
        dt = time.time() - t0
        STATS['queries'] += 1
        STATS[r] += 1
        STATS['time'] += dt
        if SLOW is not None and dt > SLOW:
            print('slow query %.1fs %s: %s' % (dt, r, ' | '.join(tm.show(e)[:300] for e in extra)))
        _GLOBAL[key] = r
        self.last = s
        return r

    def prod_hints(self, tr, prods):
        """(hi-1-i)*d >= 0 and i*d >= 0 for products i*d of integer terms."""
        out = []
        bnds = {}
        for a in self.ass:
            for x in (a.args if a.op == 'and' else (a,)):
                if x.op in ('lt', 'le'):
                    l, r = x.args
                    k = 1 if x.op == 'lt' else 0
                    bnds.setdefault(l, []).append((r, k))
        for (a, b) in prods:
            try:
                za, zb = tr.tr(a), tr.tr(b)
            except NotImplementedError:
                continue
            out.append(z3.Implies(z3.And(za >= 0, zb >= 0), za * zb >= 0))
            for x, y in ((a, b), (b, a)):
                zx, zy = tr.tr(x), tr.tr(y)
                for (r, k) in bnds.get(x, ())[:3]:
                    if r.op == 'num':
                        continue
                    try:
                        zr = tr.tr(r)
                    except NotImplementedError:
                        continue
                    if z3.is_int(zr):
                        out.append(z3.Implies(z3.And(zr - k - zx >= 0, zy >= 0), (zr - k) * zy >= zx * zy))
        return out

    def proves(self, goal, timeout=None):
        if goal is TRUE or goal is True:
            return True
        if goal is FALSE or goal is False:
            return self.check([], timeout) == 'unsat'
        if goal in self.ass:
            return True
        if goal.op == 'and':
            return all(self.proves(g, timeout) for g in goal.args)
        if goal.op == 'forall':
            vs = {v: tm.fresh_var('sk') for v in goal.val}
            return self.proves(tm.subst(goal.args[0], vs), timeout)
        if type(self) is Ctx and integer_only(goal):
            # integer goals usually follow from the integer assumptions alone
            if self.light is None:
                self.light = [a for a in self.ass if integer_only(a)]
            if len(self.light) < len(self.ass) and Ctx(self.light).check([tm.tnot(goal)], timeout) == 'unsat':
                return True
            if not OBLIGATION and len(self.light) < len(self.ass):
                return False
        return self.check([tm.tnot(goal)], timeout) == 'unsat'

    light = None

    def consistent(self):
        return self.check([]) != 'unsat'

    def model(self, goal):
        """A z3 model of assumptions and not goal, or None."""
        r = self.check([tm.tnot(goal)])
        if r == 'sat':
            try:
                return self.last.model()
            except Exception:
                return None
        return None


SLOW = float(os.environ['DV_SLOW']) if os.environ.get('DV_SLOW') else None
_GLOBAL = {}


def reset():
    _GLOBAL.clear()
    _BUNDLE.clear()
    for k in STATS:
        STATS[k] = 0
