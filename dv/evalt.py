"""Numeric evaluation of terms at small random instances.

Used only to filter (two sums that evaluate differently are not worth comparing symbolically)
and to label an undischarged goal as refuted at an instance; never to accept anything."""
import math
import random
import zlib
from . import terms as tm
from .terms import Fn, fv


class Undef(Exception):
    pass


class Inst:
    def __init__(self, seed, ints):
        self.seed = seed
        self.ints = dict(ints)
        self.memo = {}
        self.apps = {}
        self.steps = 0

    def h(self, *k):
        return random.Random(zlib.crc32(repr((self.seed,) + k).encode())).random()

    def real(self, name):
        return 0.1 + 1.7 * self.h('v', name)

    def app(self, t, args):
        key = (t.val, args)
        r = self.apps.get(key)
        if r is not None:
            return r
        F = Fn.table[t.val]
        if F.symmetric and len(args) == 2 and args[0] > args[1]:
            return self.app(t, (args[1], args[0]))
        if F.recur is not None:
            raise Undef()
        if F.sort == 'B':
            r = self.h(*key) < 0.5
        elif F.sort == 'I':
            r = int(3 * self.h(*key))
        elif F.sumrules:
            pos, rlo, rhi, guard, value = F.sumrules[0]
            oth = [tm.num(a) for i, a in enumerate(args) if i != pos]
            lo, hi = self.ev(rlo(*oth), {}), self.ev(rhi(*oth), {})
            tot = sum(0.05 + self.h(t.val, args[:pos] + (j,) + args[pos + 1:]) for j in range(lo, hi))
            if not lo <= args[pos] < hi or tot == 0:
                raise Undef()
            v = value(*oth)
            r = (0.05 + self.h(*key)) / tot * self.ev(v if isinstance(v, tm.T) else tm.num(v), {})
        else:
            r = 2.0 * self.h(*key) - (0.0 if F.facts else 1.0)
        self.apps[key] = r
        return r

    def ev(self, t, env):
        self.steps += 1
        if self.steps > 60000:
            raise Undef()
        o = t.op
        if o == 'num':
            return int(t.val) if t.val.denominator == 1 and t.sort == 'I' else float(t.val)
        if o == 'var':
            if t.val in env:
                return env[t.val]
            if t.sort == 'I':
                if t.val not in self.ints:
                    raise Undef()
                return self.ints[t.val]
            if t.sort == 'B':
                return self.h('b', t.val) < 0.5
            return self.real(t.val)
        closed = not (fv(t) & env.keys()) if env else True
        if closed:
            r = self.memo.get(t)
            if r is not None:
                return r
        r = self._ev(t, o, env)
        if closed:
            self.memo[t] = r
        return r

    def _ev(self, t, o, env):
        if o == 'sum':
            lo, hi = self.ev(t.args[0], env), self.ev(t.args[1], env)
            s = 0
            e2 = dict(env)
            for i in range(int(lo), int(hi)):
                e2[t.val] = i
                s += self.ev(t.args[2], e2)
            return s
        if o == 'ite':
            return self.ev(t.args[1] if self.ev(t.args[0], env) else t.args[2], env)
        if o == 'and':
            return all(self.ev(a, env) for a in t.args)
        if o == 'or':
            return any(self.ev(a, env) for a in t.args)
        if o in ('forall', 'exists'):
            raise Undef()
        a = [self.ev(x, env) for x in t.args]
        if o == 'app':
            return self.app(t, tuple(int(x) for x in a))
        if o == 'add':
            return sum(a)
        if o == 'mul':
            r = 1
            for x in a:
                r = r * x
            return r
        if o == 'pow':
            if a[0] == 0 and t.val < 0:
                raise Undef()
            return a[0] ** t.val
        if o in ('max', 'min'):
            return max(a) if o == 'max' else min(a)
        if o == 'abs':
            return abs(a[0])
        if o == 'sqrt':
            if a[0] < 0:
                raise Undef()
            return math.sqrt(a[0])
        if o in ('fdiv', 'mod'):
            if a[1] == 0:
                raise Undef()
            return a[0] // a[1] if o == 'fdiv' else a[0] % a[1]
        if o == 'le':
            return a[0] <= a[1]
        if o == 'lt':
            return a[0] < a[1]
        if o == 'eq':
            return a[0] == a[1] if isinstance(a[0], int) and isinstance(a[1], int) else abs(a[0] - a[1]) <= 1e-9 * (1 + abs(a[0]))
        if o == 'not':
            return not a[0]
        if o == 'true':
            return True
        if o == 'false':
            return False
        raise Undef()


def simple(a):
    return not any(x.op in ('sum', 'forall', 'exists') or (x.op == 'app') for x in tm.subterms(a))


def ctx_ints(ctx):
    s = set()
    for a in ctx.ass:
        for x in tm.subterms(a):
            if x.op == 'var' and x.sort == 'I':
                s.add(x.val)
    return s


_cache = {}


def realcond(t):
    """Does the value of t depend on a comparison of real numbers?"""
    for x in tm.subterms(t):
        if x.op in ('max', 'min', 'abs'):
            return True
        if x.op in ('le', 'lt', 'eq') and (x.args[0].sort == 'R' or x.args[1].sort == 'R'):
            return True
        if x.sort == 'B' and x.op in ('var', 'app'):
            return True
    return False


def hasreal(a):
    return any(x.sort == 'R' for x in tm.subterms(a))


def instances(ctx, count=2, extra=()):
    """Instances at which the simple assumptions of ctx hold; loose ones satisfy only the
    assumptions about integers."""
    key = (ctx.key(), tuple(sorted(extra)))
    r = _cache.get(key)
    if r is not None:
        return r
    names = sorted(ctx_ints(ctx) | set(extra))
    cons = [a for a in ctx.ass if simple(a)]
    parts = []
    for a in cons:
        parts.extend(a.args if a.op == 'and' else (a,))
    icons = [a for a in parts if not hasreal(a)]
    rcons = [a for a in parts if hasreal(a)]
    strict, loose = [], []
    for trial in range(150):
        rnd = random.Random(trial * 7919 + 13)
        hi = 3 if trial < 50 else 5 if trial < 100 else 8
        inst = Inst(trial, {v: rnd.randint(0, hi) for v in names})

        def hold(cs):
            for c in cs:
                try:
                    if not inst.ev(c, {}):
                        return False
                except Undef:
                    pass
                except (OverflowError, ZeroDivisionError):
                    return False
            return True
        if hold(icons):
            inst.loose = not hold(rcons)
            (loose if inst.loose else strict).append(inst)
            if len(strict) == count or (len(loose) >= 10 and not strict):
                break
    out = strict[:count] if strict else loose[:count]
    _cache[key] = out
    return out


def fingerprint(t, ctx):
    """A tuple of values, or None when t cannot be evaluated."""
    extra = tuple(sorted(x for x in fv(t) if x in {y.val for y in tm.subterms(t) if y.op == 'var' and y.sort == 'I'}))
    r = []
    for inst in instances(ctx, 2, extra):
        if inst.loose and realcond(t):
            return None
        try:
            inst.steps = 0
            r.append(inst.ev(t, {}))
        except (Undef, OverflowError, ZeroDivisionError, RecursionError):
            return None
    return tuple(r) if r else None


def differ(a, b):
    if a is None or b is None or len(a) != len(b):
        return False
    return any(abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)) for x, y in zip(a, b))
