"""Hash-consed first-order terms over integers, reals and booleans.

ops: num, var, app, add, mul, pow (integer exponent, also negative), ite, sum,
max, min, abs, sqrt, fdiv, mod, lt, le, eq, and, or, not, true/false,
forall, exists.  Bound variables of sum/forall/exists are ordinary variables
with globally fresh names.
"""
from fractions import Fraction

_table = {}
_fresh = [0]


class T:
    __slots__ = ('op', 'args', 'val', 'sort', 'id', '_fv', '_nf')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __reduce__(self):
        raise TypeError('terms are not picklable')


def _mk(op, args, val, sort):
    key = (op, args, val, sort)
    t = _table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        t.val = val
        t.sort = sort
        t.id = len(_table) + 1
        t._fv = None
        t._nf = None
        _table[key] = t
    return t


def num(x, sort=None):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(repr(x))
    f = Fraction(x)
    if sort is None:
        sort = 'I' if isinstance(x, int) else ('I' if f.denominator == 1 else 'R')
    return _mk('num', (), f, sort)


def var(name, sort='I'):
    return _mk('var', (), name, sort)


def fresh_name(base):
    _fresh[0] += 1
    return '%s~%d' % (base.split('~')[0], _fresh[0])


def fresh_var(base, sort='I'):
    return var(fresh_name(base), sort)


# function symbols -----------------------------------------------------------

class Fn:
    """Metadata of an uninterpreted function symbol."""
    table = {}

    def __init__(self, name, arity, sort='R', shape=None, symmetric=False):
        self.name = name
        self.arity = arity
        self.sort = sort
        self.shape = shape          # tuple of T (index ranges) or None
        self.symmetric = symmetric
        self.facts = []             # callables args -> T (valid for all args)
        self.sumrules = []          # (argpos, guard(otherargs)->T or None, value(otherargs)->T)
        self.recur = None           # (init(idx)->T, step(k, idx)->T) for iterates
        self.perm_of = None         # (fname) sorted rearrangement of another function
        self.selinfo = None     # selection by a mask: parameters -> (length, mask over _i0)
        Fn.table[name] = self


def reset():
    Fn.table.clear()


def fn(name, arity, sort='R', shape=None, symmetric=False):
    f = Fn.table.get(name)
    if f is None:
        f = Fn(name, arity, sort, shape, symmetric)
    return f


def app(name, *args):
    f = Fn.table[name]
    assert len(args) == f.arity, (name, args)
    args = tuple(num(a) for a in args)
    if f.symmetric and len(args) == 2 and args[0].id > args[1].id:
        args = (args[1], args[0])
    return _mk('app', args, name, f.sort)


TRUE = _mk('true', (), None, 'B')
FALSE = _mk('false', (), None, 'B')
ZERO = num(0)
ONE = num(1)


def boolc(b):
    return TRUE if b else FALSE


def _jsort(args):
    for a in args:
        if a.sort == 'R':
            return 'R'
    return 'I'


def add(*args):
    c = Fraction(0)
    coeffs = {}
    order = []
    real = False
    for a in args:
        a = num(a)
        if a.sort == 'R':
            real = True
        stack = [(a, Fraction(1))]
        if a.op == 'add':
            stack = [(x, Fraction(1)) for x in a.args]
        for x, k in stack:
            if x.op == 'num':
                c += k * x.val
            else:
                if x.op == 'mul' and x.args[0].op == 'num':
                    k = k * x.args[0].val
                    rest = x.args[1:]
                    x = rest[0] if len(rest) == 1 else _mk('mul', rest, None, _jsort(rest))
                if x in coeffs:
                    coeffs[x] += k
                else:
                    coeffs[x] = k
                    order.append(x)
    out = []
    for x in order:
        k = coeffs[x]
        if k != 0:
            out.append(x if k == 1 else mul(num(k), x))
    s = 'R' if real else _jsort(out)
    if c != 0 or not out:
        out.append(num(c, 'I' if (c.denominator == 1 and s == 'I') else 'R' if s == 'R' else None))
    if len(out) == 1:
        return out[0]
    return _mk('add', tuple(out), None, s)


def mul(*args):
    c = Fraction(1)
    out = []
    real = False
    for a in args:
        a = num(a)
        if a.sort == 'R':
            real = True
        for x in (a.args if a.op == 'mul' else (a,)):
            if x.op == 'num':
                c *= x.val
            else:
                out.append(x)
    if c == 0:
        return num(0, 'R') if real else ZERO
    # merge powers
    pw = {}
    order = []
    for x in out:
        b, e = (x.args[0], x.val) if x.op == 'pow' else (x, 1)
        if b in pw:
            pw[b] += e
        else:
            pw[b] = e
            order.append(b)
    out = []
    for b in order:
        e = pw[b]
        if e != 0:
            p = power(b, e)
            if p.op == 'num':
                c *= p.val
            elif p.op == 'mul':
                return mul(num(c), *(out + [p] + [power(bb, pw[bb]) for bb in order[order.index(b) + 1:]]))
            else:
                out.append(p)
    if not out:
        return num(c, 'R' if real and c.denominator != 1 else None)
    if len(out) == 1 and c != 1 and out[0].op == 'add' and False:
        pass
    if c != 1:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return _mk('mul', tuple(out), None, _jsort(out))


def power(b, e):
    b = num(b)
    e = int(e)
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op == 'num':
        if b.val == 0 and e < 0:
            return _mk('pow', (b,), e, 'R')
        return num(Fraction(b.val) ** e)
    if b.op == 'pow':
        return power(b.args[0], b.val * e)
    if b.op == 'mul':
        return mul(*[power(x, e) for x in b.args])
    if b.op == 'sqrt' and e % 2 == 0:
        return power(b.args[0], e // 2)
    if b.op == 'abs' and e % 2 == 0:
        return power(b.args[0], e)
    s = b.sort if e > 0 else 'R'
    return _mk('pow', (b,), e, s)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(num(b)))


def div(a, b):
    r = mul(num(a), power(num(b), -1))
    if r.sort == 'I' and r.op != 'num':
        return _mk('mul', (r,), None, 'R') if r.op in ('var', 'app') else _mk(r.op, r.args, r.val, 'R')
    return r


def sqrt(a):
    a = num(a)
    if a.op == 'num' and a.val >= 0:
        import math
        n, d = a.val.numerator, a.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return num(Fraction(rn, rd))
    return _mk('sqrt', (a,), None, 'R')


def tabs(a):
    a = num(a)
    if a.op == 'num':
        return num(abs(a.val))
    return _mk('abs', (a,), None, a.sort)


def tmax(a, b):
    a, b = num(a), num(b)
    if a is b:
        return a
    if a.op == 'num' and b.op == 'num':
        return a if a.val >= b.val else b
    if a.id > b.id:
        a, b = b, a
    return _mk('max', (a, b), None, _jsort((a, b)))


def tmin(a, b):
    a, b = num(a), num(b)
    if a is b:
        return a
    if a.op == 'num' and b.op == 'num':
        return a if a.val <= b.val else b
    if a.id > b.id:
        a, b = b, a
    return _mk('min', (a, b), None, _jsort((a, b)))


def fdiv(a, b):
    a, b = num(a), num(b)
    if a.op == 'num' and b.op == 'num' and b.val != 0:
        return num((a.val / b.val).__floor__())
    if b.op == 'num' and b.val == 1 and a.sort == 'I':
        return a
    return _mk('fdiv', (a, b), None, 'I')


def mod(a, b):
    a, b = num(a), num(b)
    if a.op == 'num' and b.op == 'num' and b.val != 0:
        return num(a.val - b.val * (a.val / b.val).__floor__())
    if b.op == 'num' and b.val == 1 and a.sort == 'I':
        return ZERO
    return _mk('mod', (a, b), None, 'I')


def ite(c, a, b):
    if c is True or c is TRUE:
        return num(a) if not isinstance(a, T) else a
    if c is False or c is FALSE:
        return num(b) if not isinstance(b, T) else b
    a = a if isinstance(a, T) else num(a)
    b = b if isinstance(b, T) else num(b)
    if a is b:
        return a
    if a.sort == 'B' or b.sort == 'B':
        return tor(tand(c, a), tand(tnot(c), b))
    return _mk('ite', (c, a, b), None, _jsort((a, b)))


def depth(t):
    """1 + the largest canonical binder index inside t (0 if there is none)."""
    d = t._nf
    if d is None:
        d = 0
        for a in t.args:
            x = depth(a)
            if x > d:
                d = x
        if t.op == 'sum':
            d = max(d, int(t.val[2:]) if t.val.startswith('b.') else d)
        t._nf = d
    return d


def tsum(v, lo, hi, body):
    """Sum of body over integer lo <= v < hi; v is a variable term.

    The bound variable gets a canonical name so that alpha-equivalent sums are
    the same term."""
    body = num(body)
    if body.op == 'num' and body.val == 0:
        return body
    w = sub(hi, lo)
    if w.op == 'num':
        if w.val <= 0:
            return num(0, body.sort)
        if w.val == 1:
            return subst(body, {v.val: num(lo)})
    d = depth(body) + 1
    f = fv(body)
    nv = 'b.%d' % d
    while nv in f and nv != v.val:
        d += 1
        nv = 'b.%d' % d
    if nv != v.val:
        body = subst(body, {v.val: var(nv)})
    return _mk('sum', (num(lo), num(hi), body), nv, 'I' if body.sort == 'I' else 'R')


def mksum(lo, hi, f):
    v = fresh_var('s')
    return tsum(v, lo, hi, f(v))


def le(a, b):
    d = sub(a, b)
    if d.op == 'num':
        return boolc(d.val <= 0)
    return _mk('le', (num(a), num(b)), None, 'B')


def lt(a, b):
    d = sub(a, b)
    if d.op == 'num':
        return boolc(d.val < 0)
    return _mk('lt', (num(a), num(b)), None, 'B')


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    a, b = num(a) if not isinstance(a, T) else a, num(b) if not isinstance(b, T) else b
    if a is b:
        return TRUE
    if a.sort == 'B' or b.sort == 'B':
        return tor(tand(a, b), tand(tnot(a), tnot(b)))
    d = sub(a, b)
    if d.op == 'num':
        return boolc(d.val == 0)
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), None, 'B')


def ne(a, b):
    return tnot(eq(a, b))


def tnot(a):
    if a is True:
        return FALSE
    if a is False:
        return TRUE
    if a.op == 'true':
        return FALSE
    if a.op == 'false':
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    return _mk('not', (a,), None, 'B')


def tand(*args):
    out = []
    for a in args:
        if a is True or a is TRUE:
            continue
        if a is False or a is FALSE:
            return FALSE
        for x in (a.args if a.op == 'and' else (a,)):
            if x not in out:
                out.append(x)
    for x in out:
        if tnot(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), None, 'B')


def tor(*args):
    out = []
    for a in args:
        if a is False or a is FALSE:
            continue
        if a is True or a is TRUE:
            return TRUE
        for x in (a.args if a.op == 'or' else (a,)):
            if x not in out:
                out.append(x)
    for x in out:
        if tnot(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', tuple(out), None, 'B')


def implies(a, b):
    return tor(tnot(a), b)


def forall(vs, body):
    if body is TRUE or body is FALSE:
        return body
    return _mk('forall', (body,), tuple(v.val for v in vs), 'B')


def exists(vs, body):
    if body is TRUE or body is FALSE:
        return body
    return _mk('exists', (body,), tuple(v.val for v in vs), 'B')


# traversal -------------------------------------------------------------------

def fv(t):
    """Free variable names."""
    if t._fv is None:
        # iterative to avoid deep recursion
        if t.op == 'var':
            t._fv = frozenset((t.val,))
        else:
            s = frozenset()
            for a in t.args:
                s = s | fv(a)
            if t.op == 'sum':
                lo, hi, body = t.args
                s = fv(lo) | fv(hi) | (fv(body) - {t.val})
            elif t.op in ('forall', 'exists'):
                s = fv(t.args[0]) - set(t.val)
            t._fv = s
    return t._fv


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return power(args[0], t.val)
    if op == 'app':
        return app(t.val, *args)
    if op == 'ite':
        return ite(*args)
    if op == 'sum':
        return tsum(var(t.val), *args)
    if op == 'max':
        return tmax(*args)
    if op == 'min':
        return tmin(*args)
    if op == 'abs':
        return tabs(*args)
    if op == 'sqrt':
        return sqrt(*args)
    if op == 'fdiv':
        return fdiv(*args)
    if op == 'mod':
        return mod(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'and':
        return tand(*args)
    if op == 'or':
        return tor(*args)
    if op == 'not':
        return tnot(*args)
    if op in ('forall', 'exists'):
        if args[0] is TRUE or args[0] is FALSE:
            return args[0]
        return _mk(op, tuple(args), t.val, 'B')
    return t


def subst(t, m, memo=None):
    """Capture-avoiding substitution of variables; m: name -> T."""
    if not m:
        return t
    if memo is None:
        memo = {}
    f = fv(t)
    if not any(k in f for k in m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'var':
        r = m.get(t.val, t)
    elif t.op == 'sum':
        v = t.val
        m2 = {k: x for k, x in m.items() if k != v and k in f}
        if any(v in fv(x) for x in m2.values()):
            nv = fresh_var('s')
            body = subst(t.args[2], {v: nv})
            r = tsum(nv, subst(t.args[0], m2), subst(t.args[1], m2), subst(body, m2))
        else:
            mm = memo if m2 == m else None
            r = tsum(var(v), subst(t.args[0], m2, mm), subst(t.args[1], m2, mm), subst(t.args[2], m2, mm))
    elif t.op in ('forall', 'exists'):
        m2 = {k: x for k, x in m.items() if k not in t.val and k in f}
        body = t.args[0]
        names = list(t.val)
        for i, v in enumerate(names):
            if any(v in fv(x) for x in m2.values()):
                nv = fresh_var('q')
                body = subst(body, {v: nv})
                names[i] = nv.val
        body = subst(body, m2)
        r = body if body in (TRUE, FALSE) else _mk(t.op, (body,), tuple(names), 'B')
    else:
        r = rebuild(t, [subst(a, m, memo) for a in t.args])
    memo[t] = r
    return r


def replace(t, f, memo=None):
    """Bottom-up replacement: f(term) -> term or None, applied top-down first."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if t.args:
            r = rebuild(t, [replace(a, f, memo) for a in t.args])
        else:
            r = t
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(x.args)
    return seen


def apps(t, name=None):
    return [x for x in subterms(t) if x.op == 'app' and (name is None or x.val == name)]


def fnames(t):
    return {x.val for x in subterms(t) if x.op == 'app'}


def show(t, depth=0):
    o = t.op
    if depth > 14:
        return '...'
    d = depth + 1
    if o == 'num':
        return str(t.val)
    if o == 'var':
        return t.val
    if o in ('true', 'false'):
        return o
    a = [show(x, d) for x in t.args]
    if o == 'app':
        return '%s(%s)' % (t.val, ', '.join(a))
    if o == 'add':
        return '(' + ' + '.join(a) + ')'
    if o == 'mul':
        return '*'.join(a)
    if o == 'pow':
        return '%s^%d' % (a[0], t.val)
    if o == 'sum':
        return 'SUM[%s<=%s<%s](%s)' % (a[0], t.val, a[1], a[2])
    if o in ('forall', 'exists'):
        return '%s %s.(%s)' % (o, ','.join(t.val), a[0])
    sym = {'le': '<=', 'lt': '<', 'eq': '==', 'and': ' and ', 'or': ' or '}
    if o in sym:
        return '(' + sym[o].join(a) + ')'
    return '%s(%s)' % (o, ', '.join(a))


def deriv(t, fname, idx):
    """Partial derivative of t with respect to the cell fname[idx]."""
    if fname not in fnames(t):
        return ZERO
    o = t.op
    if o == 'app':
        if t.val == fname:
            f = Fn.table[fname]
            assert not f.symmetric
            c = tand(*[eq(a, i) for a, i in zip(t.args, idx)])
            return ite(c, ONE, ZERO)
        raise ValueError('derivative through %s' % t.val)
    if o == 'add':
        return add(*[deriv(a, fname, idx) for a in t.args])
    if o == 'mul':
        parts = []
        for i, a in enumerate(t.args):
            d = deriv(a, fname, idx)
            if d is not ZERO:
                parts.append(mul(*(t.args[:i] + (d,) + t.args[i + 1:])))
        return add(*parts) if parts else ZERO
    if o == 'pow':
        return mul(num(t.val), power(t.args[0], t.val - 1), deriv(t.args[0], fname, idx))
    if o == 'sum':
        lo, hi, body = t.args
        v = t.val
        if any(v in fv(i) for i in idx):
            nv = fresh_var('s')
            body = subst(body, {v: nv})
            v = nv.val
        return tsum(var(v), lo, hi, deriv(body, fname, idx))
    if o == 'ite':
        return ite(t.args[0], deriv(t.args[1], fname, idx), deriv(t.args[2], fname, idx))
    if o == 'sqrt':
        return mul(num(Fraction(1, 2)), power(t, -1), deriv(t.args[0], fname, idx))
    raise ValueError('derivative of %s' % o)
