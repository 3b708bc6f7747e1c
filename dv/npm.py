"""Model of the Python built-ins, numpy and the other libraries the code uses.

Arrays are functions from indices to reals (exact arithmetic); library calls
whose result the code only relies on through its documentation are contracts.
"""
import itertools
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, var, fv, Fn
from .core import *
from .nf import inorm
from . import pairs

BUILTINS = {
    'len', 'range', 'enumerate', 'zip', 'isinstance', 'print', 'max', 'min', 'abs', 'sum', 'int', 'float', 'bool',
    'list', 'tuple', 'dict', 'str', 'sorted', 'reversed', 'super', 'type', 'any', 'all', 'map', 'filter', 'repr',
    'callable', 'hasattr', 'getattr', 'setattr', 'round', 'set', 'iter', 'next', 'object', 'slice', 'pow', 'divmod',
    'ValueError', 'RuntimeError', 'NotImplementedError', 'TypeError', 'UserWarning', 'Exception', 'AssertionError',
    'KeyError', 'IndexError', 'ArithmeticError', 'DeprecationWarning', 'RuntimeWarning', 'Warning', 'NotImplemented',
    'ZeroDivisionError', 'StopIteration', 'AttributeError', 'FutureWarning', 'Ellipsis', 'id'}
EXC = {n for n in BUILTINS if n.endswith('Error') or n.endswith('Warning') or n == 'Exception'}

MODULES = {'numpy', 'numpy.linalg', 'numpy.random', 'numbers', 'time', 'warnings', 'scipy', 'scipy.sparse', 'cvxpy',
           'sklearn', 'sklearn.utils', 'sklearn.utils.validation', 'sklearn.cluster', 'sklearn.svm', 'collections',
           'copy', 'math', 'functools', 'itertools', 'operator', 'logging'}
ALIAS = {'sklearn.utils.validation.check_array': 'sklearn.utils.check_array',
         'sklearn.utils.validation.check_random_state': 'sklearn.utils.check_random_state',
         'numpy.NaN': 'numpy.nan', 'numpy.absolute': 'numpy.abs', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
         'numpy.float64': 'float', 'numpy.int64': 'int', 'builtins.len': 'len', 'numpy.maximum': 'numpy.fmax',
         'numpy.minimum': 'numpy.fmin', 'numpy.asanyarray': 'numpy.asarray', 'numpy.divide': 'numpy.true_divide',
         'numpy.ascontiguousarray': 'numpy.asarray', 'numpy.float_': 'float', 'numpy.intp': 'int'}


def external(path):
    if path in MODULES:
        return Module(path)
    path = ALIAS.get(path, path)
    if path == 'numpy.newaxis':
        return None
    if path == 'numpy.nan':
        return var('nan', 'R')
    if path == 'numpy.pi' or path == 'math.pi':
        return var('pi', 'R')
    if path in ('numpy.inf', 'math.inf'):
        return var('inf', 'R')
    return Builtin(path)


def isnum(v):
    return isinstance(v, (T, int, float, Fraction))


def tn(v):
    if isinstance(v, T):
        if v.sort == 'B':
            return tm.ite(v, ONE, ZERO)
        return v
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return var('nan' if v != v else 'inf', 'R')
        t = num(v)
        return t
    if isinstance(v, (int, Fraction)):
        return num(v)
    raise Unsupported('number expected, got %r' % (v,))


def real(t):
    return t


def isreal(v):
    """Would Python hold this number as a float?"""
    if isinstance(v, float):
        return True
    return isinstance(v, T) and v.sort == 'R'


def dim_eq(eng, st, a, b):
    if a is b:
        return True
    d = inorm(tm.sub(a, b))
    if d.op == 'num':
        return d.val == 0
    return st.ctx.proves(tm.eq(a, b))


def need_dim(eng, st, a, b, what):
    """Shapes must agree for the operation to be defined."""
    if dim_eq(eng, st, a, b):
        return
    eng.oblige(st, tm.eq(a, b), 'shape agreement in %s (%s vs %s)' % (what, a, b))


def bshape(eng, st, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = None
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if d is ONE:
                if cur is None:
                    cur = d
                continue
            if cur is None or cur is ONE:
                cur = d
            else:
                need_dim(eng, st, cur, d, 'broadcasting')
        out.append(cur)
    return tuple(out)


def baccess(st, a, outshape):
    """Functional access to operand a broadcast to outshape."""
    if not isinstance(a, Arr):
        t = tn(a)
        return lambda idx: t
    f = st.fn_of(a)
    off = len(outshape) - len(a.shape)
    flags = [a.shape[k] is ONE and outshape[k + off] is not ONE for k in range(len(a.shape))]

    def g(idx):
        return f(tuple(ZERO if fl else idx[k + off] for k, fl in enumerate(flags)))
    return g


def num_of(t, dtype):
    return tm.ite(t, ONE, ZERO) if t.sort == 'B' else t


def elementwise(eng, st, f, ops, dtype=None, guard=None):
    arrs = [a for a in ops if isinstance(a, Arr)]
    if not arrs:
        return f(*[tn(a) for a in ops])
    shape = bshape(eng, st, [a.shape for a in arrs])
    acc = [baccess(st, a, shape) for a in ops]
    if dtype is None:
        dts = [st.dtype(a) for a in arrs]
        dtype = 'f' if 'f' in dts or any(isreal(a) for a in ops if not isinstance(a, Arr)) else 'i'
    if dtype != 'b':
        return st.alloc(shape, lambda idx: f(*[num_of(g(idx), None) for g in acc]), dtype)
    return st.alloc(shape, lambda idx: f(*[g(idx) for g in acc]), dtype)


def asarr(eng, st, v):
    """np.asarray of lists of numbers / arrays."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (ListRef, tuple)):
        return array_from(eng, st, v, None)
    return v


def fint(t):
    return t.op == 'num' and t.val.denominator == 1


def check_divisor(eng, st, b, shape=None):
    if isinstance(b, Arr):
        t = st.cell(b, IV[:len(b.shape)])
        t = num_of(t, None)
        if t.op == 'num' and t.val != 0:
            return
        if eng.quiet:
            return
        rng = [tm.tand(tm.le(ZERO, IV[k]), tm.lt(IV[k], d)) for k, d in enumerate(b.shape)]
        vs = [tm.fresh_var('d') for _ in b.shape]
        s = dict(zip(IVN, vs))
        g = tm.subst(tm.ne(t, ZERO), s)
        eng.oblige(st, tm.implies(tm.subst(tm.tand(*rng), s), g), 'division by zero', 'div')
    else:
        eng.oblige(st, tm.ne(tn(b), ZERO), 'division by zero', 'div')


def pydiv(a, b):
    return tm.div(a, b)


def arith(op):
    if op == 'add':
        return tm.add
    if op == 'sub':
        return tm.sub
    if op == 'mul':
        return tm.mul
    if op == 'div':
        return tm.div
    if op == 'fdiv':
        return tm.fdiv
    if op == 'mod':
        return tm.mod
    raise Unsupported(op)


def binop(eng, st, op, a, b):
    if isinstance(a, RaiseV):
        return a
    if isinstance(b, RaiseV):
        return b
    if op == 'mod' and (isinstance(a, (str, Opaque))):
        return Opaque('str')
    if op == 'add' and (isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque))):
        return Opaque('str')
    if op == 'mul' and (isinstance(a, str) or isinstance(b, str)):
        return Opaque('str')
    cls = None
    for x in (a, b):
        if isinstance(x, ObjRef) and not isinstance(st.objs[x.id][0], ClassV):
            cls = st.objs[x.id][0]
    if cls is not None:
        return obj_binop(eng, st, op, a, b)
    if op == 'mul' and isinstance(a, ListRef) and isnum(b):
        return list_repeat(eng, st, a, b)
    if op == 'mul' and isinstance(b, ListRef) and isnum(a):
        return list_repeat(eng, st, b, a)
    if op == 'add' and isinstance(a, ListRef) and isinstance(b, ListRef):
        A, B = st.lists[a.id], st.lists[b.id]
        if isinstance(A, CList) and isinstance(B, CList):
            return st.newlist(A.items + B.items)
        raise Unsupported('list concatenation')
    if op == 'add' and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == 'mul' and isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if op == 'matmul':
        return dot(eng, st, a, b)
    if op in ('and', 'or'):
        f = tm.tand if op == 'and' else tm.tor
        if isinstance(a, Arr) or isinstance(b, Arr):
            return elementwise(eng, st, f, [a, b], 'b')
        if isinstance(a, bool) and isinstance(b, bool):
            return (a and b) if op == 'and' else (a or b)
        return f(a if isinstance(a, T) else tm.boolc(a), b if isinstance(b, T) else tm.boolc(b))
    # plain concrete integers and floats
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not (op in ('div', 'fdiv', 'mod') and b == 0):
        if op == 'pow':
            if isinstance(b, int) and isinstance(a, int) and b >= 0:
                return a ** b
        else:
            if isinstance(a, int) and isinstance(b, int):
                if op in ('add', 'sub', 'mul', 'fdiv', 'mod'):
                    return {'add': a + b, 'sub': a - b, 'mul': a * b}[op] if op in ('add', 'sub', 'mul') else (a // b if op == 'fdiv' else a % b)
    if isinstance(a, ListRef) or isinstance(b, ListRef):
        a, b = asarr(eng, st, a), asarr(eng, st, b)
    if not (isnum(a) or isinstance(a, Arr)) or not (isnum(b) or isinstance(b, Arr)):
        if any(x is None or isinstance(x, (str, tuple, DictRef)) for x in (a, b)):
            return RaiseV(ExcV('TypeError'))
        raise Unsupported('operator %s on %r and %r' % (op, a, b))
    if op == 'pow':
        return power(eng, st, a, b)
    if op in ('div', 'fdiv', 'mod'):
        check_divisor(eng, st, b)
    if op == 'div':
        return elementwise(eng, st, tm.div, [a, b], 'f') if isinstance(a, Arr) or isinstance(b, Arr) else asreal(tm.div(tn(a), tn(b)))
    if isinstance(a, Arr) or isinstance(b, Arr):
        return elementwise(eng, st, arith(op), [a, b])
    if op in ('fdiv', 'mod') and (isreal(a) or isreal(b)):
        raise Unsupported('real floor division')
    r = arith(op)(tn(a), tn(b))
    if isinstance(a, float) or isinstance(b, float):
        r = asreal(r)
    return r


def asreal(t):
    """Mark a number as real-sorted (a Python float)."""
    if isinstance(t, T) and t.op == 'num' and t.sort == 'I':
        return num(t.val, 'R')
    return t


def power(eng, st, a, b):
    if isinstance(b, T) and b.op == 'num':
        b = int(b.val) if b.val.denominator == 1 else float(b.val)
    if isinstance(b, float) and b == int(b):
        b = int(b)
    if b == 0.5:
        return elementwise(eng, st, tm.sqrt, [a], 'f') if isinstance(a, Arr) else tm.sqrt(tn(a))
    if isinstance(b, int):
        if b < 0:
            check_divisor(eng, st, a)
        f = lambda x: tm.power(x, b)
        return elementwise(eng, st, f, [a]) if isinstance(a, Arr) else f(tn(a))
    raise Unsupported('power with exponent %r' % (b,))


def inplace(eng, st, op, a, b):
    if isinstance(a, Arr):
        if op == 'matmul':
            raise Unsupported('in-place matmul')
        r = binop(eng, st, op, a, b)
        if isinstance(r, RaiseV):
            return r
        if not isinstance(r, Arr):
            raise Unsupported('in-place result')
        if len(r.shape) != len(a.shape):
            raise Unsupported('in-place shape')
        for x, y in zip(a.shape, r.shape):
            need_dim(eng, st, x, y, 'in-place operation')
        if st.dtype(a) == 'i' and st.dtype(r) == 'f':
            eng.oblige(st, FALSE, 'in-place real update of an integer array')
        f = st.fn_of(r)
        st.write(a, f)
        return a
    if isinstance(a, ListRef) and op == 'add':
        list_extend(eng, st, a, b)
        return a
    return binop(eng, st, op, a, b)


def unary(eng, st, op, v):
    if op == 'neg':
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)):
            return -v
        if isinstance(v, T):
            return tm.neg(tn(v))
        if isinstance(v, Arr):
            return elementwise(eng, st, tm.neg, [v])
    if op == 'not':
        if isinstance(v, Arr) and st.dtype(v) == 'b':
            return elementwise(eng, st, tm.tnot, [v], 'b')
        if isinstance(v, T) and v.sort == 'B':
            return tm.tnot(v)
    if isinstance(v, ObjRef):
        return obj_unary(eng, st, op, v)
    raise Unsupported('unary %s on %r' % (op, v))


CMPF = {'lt': tm.lt, 'le': tm.le, 'gt': tm.gt, 'ge': tm.ge, 'eq': tm.eq, 'ne': tm.ne}


def b2py(t):
    return True if t is TRUE else False if t is FALSE else t


def compare(eng, st, op, a, b):
    if op in ('is', 'isnot'):
        if a is None or b is None:
            r = a is None and b is None
        elif isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            else:
                t = a if isinstance(a, T) else b
                o = b if isinstance(a, T) else a
                if isinstance(t, T) and t.sort == 'B':
                    rr = t if o else tm.tnot(t)
                    return b2py(rr if op == 'is' else tm.tnot(rr))
                r = False
        else:
            r = same(a, b)
            if not r and isnum(a) and isnum(b):
                raise Unsupported('identity of numbers')
        return r if op == 'is' else not r
    if op in ('in', 'notin'):
        r = contains(eng, st, b, a)
        if isinstance(r, bool):
            return r if op == 'in' else not r
        return r if op == 'in' else tm.tnot(r)
    if isinstance(a, ObjRef) and not isinstance(st.objs[a.id][0], ClassV) or \
            isinstance(b, ObjRef) and not isinstance(st.objs[b.id][0], ClassV):
        return obj_compare(eng, st, op, a, b)
    if op in ('eq', 'ne'):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if (isnum(a) or isinstance(a, Arr)) and (isnum(b) or isinstance(b, Arr)):
                return elementwise(eng, st, CMPF[op], [a, b], 'b')
            raise Unsupported('array equality')
        if isnum(a) and isnum(b):
            if isinstance(a, T) and a.sort == 'B' and isinstance(b, T) and b.sort == 'B':
                t = tm.eq(a, b)
                return b2py(t if op == 'eq' else tm.tnot(t))
            return b2py(CMPF[op](tn(a), tn(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return op == 'ne'
            r = TRUE
            for x, y in zip(a, b):
                t = compare(eng, st, 'eq', x, y)
                r = tm.tand(r, tm.boolc(t) if isinstance(t, bool) else t)
            return b2py(r if op == 'eq' else tm.tnot(r))
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            A, B = st.lists[a.id], st.lists[b.id]
            if isinstance(A, CList) and isinstance(B, CList):
                return compare(eng, st, op, tuple(A.items), tuple(B.items))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return op == 'eq'
            return tm.fresh_var('eq', 'B')
        if isinstance(a, (ListRef, DictRef, ObjRef)) or isinstance(b, (ListRef, DictRef, ObjRef)):
            r = same(a, b)
            if not r and type(a) is type(b):
                raise Unsupported('equality of %r and %r' % (a, b))
            return r if op == 'eq' else not r
        r = same(a, b)
        return r if op == 'eq' else not r
    if isinstance(a, Arr) or isinstance(b, Arr):
        return elementwise(eng, st, CMPF[op], [a, b], 'b')
    if isnum(a) and isnum(b):
        return b2py(CMPF[op](tn(a), tn(b)))
    if isinstance(a, str) and isinstance(b, str):
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
    if a is None or b is None or isinstance(a, (str, tuple, DictRef)) or isinstance(b, (str, tuple, DictRef)):
        return RaiseV(ExcV('TypeError'))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return tm.fresh_var('cmp', 'B')
    raise Unsupported('comparison %s of %r and %r' % (op, a, b))


def contains(eng, st, c, x):
    if isinstance(c, DictRef):
        if isinstance(x, str):
            d = st.dicts[c.id]
            if '**' in d and x not in d:
                return tm.fresh_var('haskey', 'B')
            return x in d
        raise Unsupported('dict membership')
    if isinstance(c, ListRef):
        l = st.lists[c.id]
        if isinstance(l, SSeq):
            v = tm.fresh_var('q')
            e = vsubst(l.elem, {IVN[0]: v})
            return tm.exists([v], tm.tand(tm.le(ZERO, v), tm.lt(v, l.n), tm.eq(tn(e), tn(x))))
        c = tuple(l.items)
    if isinstance(c, tuple):
        r = FALSE
        for y in c:
            t = compare(eng, st, 'eq', x, y)
            r = tm.tor(r, tm.boolc(t) if isinstance(t, bool) else t)
        return b2py(r)
    if isinstance(c, Arr) and len(c.shape) == 1:
        v = tm.fresh_var('q')
        return tm.exists([v], tm.tand(tm.le(ZERO, v), tm.lt(v, c.shape[0]), tm.eq(st.cell(c, (v,)), tn(x))))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    raise Unsupported('membership in %r' % (c,))


# lists ------------------------------------------------------------------------------

def list_repeat(eng, st, l, n):
    L = st.lists[l.id]
    if isinstance(L, CList) and isinstance(n, int):
        return st.newlist(L.items * n)
    if isinstance(L, CList) and len(L.items) == 1:
        n = tn(n)
        if n.op == 'num':
            return st.newlist(L.items * int(n.val))
        if not st.ctx.proves(tm.le(ZERO, n)):
            n = tm.tmax(n, ZERO)
        e = L.items[0]
        if isinstance(e, (int, float)):
            e = asreal(tn(e)) if isinstance(e, float) else tn(e)
        return st.newlist(SSeq(n, e))
    raise Unsupported('list repetition')


def list_extend(eng, st, a, b):
    A = st.lists[a.id]
    it = iterate(eng, st, b)
    if isinstance(A, CList) and it.concrete is not None:
        st.lists[a.id] = CList(A.items + list(it.concrete), A.maxlen, A.kind)
        return
    raise Unsupported('list extension')


def list_append(eng, st, l, v):
    L = st.lists[l.id]
    if isinstance(L, CList):
        items = L.items + [v]
        if L.maxlen is not None and isinstance(L.maxlen, int) and len(items) > L.maxlen:
            items = items[1:]
        st.lists[l.id] = CList(items, L.maxlen, L.kind)
        return
    if isinstance(L, pairs.Pairs):
        return pairs.append(eng, st, l, v)
    if isinstance(v, (int, float)):
        v = tn(v)
    if L.maxlen is not None:
        ml = tn(L.maxlen)
        if st.ctx.proves(tm.lt(L.n, ml)):
            pass
        elif st.ctx.proves(tm.eq(L.n, ml)):
            list_popleft(eng, st, l)
            L = st.lists[l.id]
        else:
            raise Unsupported('append to a possibly full deque')
    if not isinstance(v, T) or not isinstance(L.elem, T):
        raise Unsupported('append to a symbolic sequence')
    elem = tm.ite(tm.lt(IV[0], L.n), L.elem, v)
    st.lists[l.id] = SSeq(tm.add(L.n, ONE), elem, L.maxlen, L.kind)


def list_popleft(eng, st, l):
    L = st.lists[l.id]
    if isinstance(L, CList):
        if not L.items:
            return RaiseV(ExcV('IndexError'))
        st.lists[l.id] = CList(L.items[1:], L.maxlen, L.kind)
        return L.items[0]
    eng.oblige(st, tm.lt(ZERO, L.n), 'pop from an empty sequence')
    v = L.at(ZERO)
    st.lists[l.id] = SSeq(tm.sub(L.n, ONE), vsubst(L.elem, {IVN[0]: tm.add(IV[0], ONE)}), L.maxlen, L.kind)
    return v


# iteration -----------------------------------------------------------------------------

def iterate(eng, st, v):
    if isinstance(v, IterV):
        return v
    if isinstance(v, tuple):
        return IterV(len(v), lambda s, k: v[k], list(v))
    if isinstance(v, RangeV):
        lo, hi, step = v.lo, v.hi, v.step
        if all(x.op == 'num' for x in (lo, hi, step)):
            r = [int(i) for i in range(int(lo.val), int(hi.val), int(step.val))]
            return IterV(len(r), lambda s, k: r[k], r)
        if step.op != 'num' or abs(step.val) != 1:
            raise Unsupported('range with step %s' % step)
        n = inorm(tm.sub(hi, lo) if step.val == 1 else tm.sub(lo, hi))
        if n.op == 'num':
            k = max(0, int(n.val))
            items = [inorm(tm.add(lo, num(step.val * i))) for i in range(k)]
            return IterV(k, lambda s, i: items[i], items)
        if not st.ctx.proves(tm.le(ZERO, n)):
            if st.ctx.proves(tm.le(n, ZERO)):
                return IterV(0, None, [])
            n = tm.tmax(n, ZERO)
        return IterV(n, lambda s, k: tm.add(lo, k) if step.val == 1 else tm.sub(lo, k))
    if isinstance(v, ListRef):
        L = st.lists[v.id]
        if isinstance(L, CList):
            return IterV(len(L.items), lambda s, k: s.lists[v.id].items[k], list(L.items))
        return IterV(L.n, lambda s, k: s.lists[v.id].at(k))
    if isinstance(v, Arr):
        n = v.shape[0]
        if n.op == 'num' and n.val <= 8:
            items = [getitem(eng, st, v, i) for i in range(int(n.val))]
            return IterV(len(items), None, items)
        return IterV(n, lambda s, k: getitem(eng, s, v, k, checked=False))
    if isinstance(v, DictRef):
        ks = list(st.dicts[v.id])
        return IterV(len(ks), None, ks)
    if isinstance(v, (set, list)):
        return IterV(len(v), None, list(v))
    raise Unsupported('iteration over %r' % (v,))


def enumerate_(eng, st, it, start=0):
    it = iterate(eng, st, it)
    if it.concrete is not None:
        c = [(i + start, x) for i, x in enumerate(it.concrete)]
        return IterV(len(c), None, c)
    return IterV(it.n, lambda s, k: (tm.add(k, num(start)), it.item(s, k)))


def zip_(eng, st, its):
    its = [iterate(eng, st, i) for i in its]
    if all(i.concrete is not None for i in its):
        c = list(zip(*[i.concrete for i in its]))
        return IterV(len(c), None, c)
    ns = [num(i.n) for i in its]
    n = ns[0]
    for m in ns[1:]:
        if not dim_eq(eng, st, n, m):
            n = tm.tmin(n, m)

    def item(s, k):
        out = []
        for i in its:
            if i.concrete is not None:
                raise Unsupported('zip of concrete and symbolic sequences')
            out.append(i.item(s, k))
        return tuple(out)
    return IterV(n, item)


# indexing ---------------------------------------------------------------------------------

def mkview(a, shape, f, g, key):
    if a.fwd is None:
        fwd = f
        inv = g
    else:
        af, ai = a.fwd, a.inv
        fwd = lambda idx: af(f(idx))
        if ai is None or g is None:
            inv = None
        else:
            def inv(b):
                c1, i1 = ai(b)
                c2, i2 = g(i1)
                return tm.tand(c1, c2), i2
    return Arr(a.buf, shape, fwd, inv, a.key + (key,))


def norm_index(eng, st, i, n, checked=True):
    """Normalise an element index; emits the bounds obligation."""
    i = tn(i)
    if i.sort == 'R':
        if i.op == 'num' and i.val.denominator == 1:
            i = num(i.val, 'I')
        else:
            raise Unsupported('real index')
    if not checked:
        return i
    if i.op == 'num':
        if i.val < 0:
            eng.oblige(st, tm.le(num(-i.val), n), 'index in bounds', 'bounds')
            return inorm(tm.add(n, i))
        eng.oblige(st, tm.lt(i, n), 'index in bounds', 'bounds')
        return i
    ctx = st.ctx
    if ctx.proves(tm.le(ZERO, i)):
        eng.oblige(st, tm.lt(i, n), 'index in bounds', 'bounds')
        return i
    if ctx.proves(tm.lt(i, ZERO)):
        eng.oblige(st, tm.le(tm.neg(n), i), 'index in bounds', 'bounds')
        return inorm(tm.add(n, i))
    eng.oblige(st, tm.tand(tm.le(tm.neg(n), i), tm.lt(i, n)), 'index in bounds', 'bounds')
    return tm.ite(tm.lt(i, ZERO), tm.add(n, i), i)


def slice_bound(eng, st, x, n, default):
    if x is None:
        return default
    x = tn(x)
    ctx = st.ctx
    neg = None
    if x.op == 'num':
        neg = x.val < 0
    elif ctx.proves(tm.lt(x, ZERO)):
        neg = True
    elif ctx.proves(tm.le(ZERO, x)):
        neg = False
    if neg is None:
        x = tm.ite(tm.lt(x, ZERO), tm.tmax(tm.add(n, x), ZERO), tm.tmin(x, n))
        return x
    if neg:
        x = inorm(tm.add(n, x))
        if ctx.proves(tm.le(ZERO, x)):
            return x
        return tm.tmax(x, ZERO)
    if ctx.proves(tm.le(x, n)):
        return x
    return tm.tmin(x, n)


def getitem(eng, st, v, idx, checked=True):
    if isinstance(v, RaiseV):
        return v
    if isinstance(v, tuple):
        if isinstance(idx, slice):
            return v[slice(*[cint(x) for x in (idx.start, idx.stop, idx.step)])]
        i = cint(idx)
        if i is None:
            raise Unsupported('symbolic tuple index')
        if not -len(v) <= i < len(v):
            return RaiseV(ExcV('IndexError'))
        return v[i]
    if isinstance(v, pairs.PairRef):
        return pairs.getentry(eng, st, v, idx)
    if isinstance(v, DictRef):
        d = st.dicts[v.id]
        if not isinstance(idx, str):
            raise Unsupported('dict key')
        if idx in d:
            return d[idx]
        return RaiseV(ExcV('KeyError'))
    if isinstance(v, ListRef):
        L = st.lists[v.id]
        if isinstance(L, CList):
            if isinstance(idx, slice):
                return st.newlist(L.items[slice(*[cint(x) for x in (idx.start, idx.stop, idx.step)])])
            i = cint(idx)
            if i is not None:
                if not -len(L.items) <= i < len(L.items):
                    return RaiseV(ExcV('IndexError'))
                return L.items[i]
            raise Unsupported('symbolic index into a concrete list')
        if isinstance(idx, slice) and isinstance(L, pairs.Pairs):
            raise Unsupported('slice of a list of pairs')
        if isinstance(idx, slice):
            lo = slice_bound(eng, st, idx.start, L.n, ZERO)
            hi = slice_bound(eng, st, idx.stop, L.n, L.n)
            if idx.step is not None:
                raise Unsupported('slice step')
            return st.newlist(SSeq(tm.sub(hi, lo), vsubst(L.elem, {IVN[0]: tm.add(IV[0], lo)})))
        i = norm_index(eng, st, idx, L.n, checked)
        return L.at(i)
    if isinstance(v, Arr):
        return arr_getitem(eng, st, v, idx, checked)
    if isinstance(v, ObjRef) and not isinstance(st.objs[v.id][0], ClassV):
        return obj_getitem(eng, st, v, idx)
    if isinstance(v, Opaque):
        return Opaque('item')
    if v is None or isnum(v):
        return RaiseV(ExcV('TypeError'))
    raise Unsupported('subscript of %r' % (v,))


def cint(x):
    if x is None:
        return None
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, T) and x.op == 'num' and x.val.denominator == 1:
        return int(x.val)
    return None


def expand_index(st, v, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    n_real = sum(1 for x in idx if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in idx if not isinstance(x, (Arr, T))]:
        k = [i for i, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:k] + [slice(None)] * (len(v.shape) - n_real) + idx[k + 1:]
    else:
        idx = idx + [slice(None)] * (len(v.shape) - n_real)
    return idx


def arr_getitem(eng, st, v, idx, checked=True):
    idx = expand_index(st, v, idx)
    idx = [asarr(eng, st, x) if isinstance(x, ListRef) else x for x in idx]
    if any(isinstance(x, Arr) and len(x.shape) > 0 for x in idx):
        return fancy_get(eng, st, v, idx)
    plan = []       # per input axis or newaxis
    shape = []
    ax = 0
    keys = []
    for x in idx:
        if x is None:
            plan.append(('new',))
            shape.append(ONE)
            keys.append('n')
            continue
        n = v.shape[ax]
        if isinstance(x, slice):
            step = cint(x.step) if x.step is not None else 1
            if step == 1:
                lo = slice_bound(eng, st, x.start, n, ZERO)
                hi = slice_bound(eng, st, x.stop, n, n)
                ln = inorm(tm.sub(hi, lo))
                if ln.op != 'num' and not st.ctx.proves(tm.le(lo, hi)):
                    ln = tm.tmax(ln, ZERO)
                elif ln.op == 'num' and ln.val < 0:
                    ln = ZERO
                plan.append(('sl', ax, lo, ln, 1))
                shape.append(ln)
                keys.append(('s', lo.id, ln.id))
            elif step == -1 and x.start is None and x.stop is None:
                plan.append(('sl', ax, inorm(tm.sub(n, ONE)), n, -1))
                shape.append(n)
                keys.append(('r',))
            else:
                raise Unsupported('slice step')
        elif isinstance(x, bool):
            raise Unsupported('boolean index')
        else:
            if isinstance(x, Arr):
                x = st.cell(x, ())
            i = norm_index(eng, st, x, n, checked)
            plan.append(('ix', ax, i))
            keys.append(('i', i.id))
        ax += 1
    if len(v.shape) < ax:
        return RaiseV(ExcV('IndexError'))

    def f(oi, plan=plan):
        out = []
        k = 0
        for p in plan:
            if p[0] == 'new':
                k += 1
            elif p[0] == 'sl':
                out.append(tm.add(p[2], oi[k]) if p[4] == 1 else tm.sub(p[2], oi[k]))
                k += 1
            else:
                out.append(p[2])
        return tuple(out)

    def g(b, plan=plan):
        c = []
        out = []
        for p in plan:
            if p[0] == 'new':
                out.append(ZERO)
            elif p[0] == 'sl':
                i = tm.sub(b[p[1]], p[2]) if p[4] == 1 else tm.sub(p[2], b[p[1]])
                out.append(i)
                n = v.shape[p[1]]
                if not (p[2] is ZERO and p[3] is n and p[4] == 1) and p[4] == 1:
                    if p[2] is not ZERO:
                        c.append(tm.le(p[2], b[p[1]]))
                    if inorm(tm.sub(tm.add(p[2], p[3]), n)) is not ZERO:
                        c.append(tm.lt(b[p[1]], inorm(tm.add(p[2], p[3]))))
            else:
                c.append(tm.eq(b[p[1]], p[2]))
        return tm.tand(*c), tuple(out)
    if not shape:
        return st.cell(v, f(()))
    if all(p[0] == 'sl' and p[2] is ZERO and p[3] is v.shape[p[1]] and p[4] == 1 for p in plan):
        return v
    return mkview(v, tuple(shape), f, g, ('ix',) + tuple(keys))


class Sel:
    """Selection of the positions where a boolean mask holds, in order."""
    cache = {}


def mask_sel(eng, st, mask):
    """(count term, r -> position of the r-th true cell) for a 1-d mask.  The selection is a function
    of every variable the mask depends on."""
    n = mask.shape[0]
    body = st.cell(mask, (IV[0],))
    names = sorted(x for x in fv(body) | fv(n) if x != IVN[0])
    key = (body, n)
    if key not in Sel.cache or Sel.cache[key] not in Fn.table:
        name = tm.fresh_name('sel')
        F = tm.fn(name, len(names) + 1, 'I', None)

        def info(*ps):
            m = dict(zip(names, ps))
            return tm.subst(num(n), m), tm.subst(body, m)
        F.selinfo = info

        def fact(*a):
            m, bd = info(*a[:-1])
            x = tm.app(name, *a)
            return tm.implies(tm.tand(tm.le(ZERO, a[-1]), tm.lt(a[-1], sel_count(m, bd))),
                              tm.tand(tm.le(ZERO, x), tm.lt(x, m), tm.subst(bd, {IVN[0]: x})))
        F.facts.append(fact)
        Sel.cache[key] = name
    name = Sel.cache[key]
    ps = [var(x) for x in names]
    return sel_count(n, body), lambda r: tm.app(name, *ps, r)


def sel_count(n, body):
    return tm.mksum(ZERO, n, lambda t: tm.ite(tm.subst(body, {IVN[0]: t}), ONE, ZERO))


def fancy_get(eng, st, v, idx):
    pos = [k for k, x in enumerate(idx) if isinstance(x, Arr)]
    if len(pos) == 1:
        k = pos[0]
        x = idx[k]
        if len(x.shape) != 1 or any(y is None for y in idx):
            raise Unsupported('index array')
        if st.dtype(x) == 'b':
            need_dim(eng, st, x.shape[0], v.shape[k], 'mask')
            cnt, sel = mask_sel(eng, st, x)
            sub = sel
            ln = cnt
        else:
            fx = st.fn_of(x)
            sub = lambda r: fx((r,))
            ln = x.shape[0]
            w = tm.fresh_var('w')
            eng.oblige(st, tm.implies(tm.tand(tm.le(ZERO, w), tm.lt(w, ln)),
                                      tm.tand(tm.le(ZERO, sub(w)), tm.lt(sub(w), v.shape[k]))), 'index array in bounds', 'bounds')
        idx2 = list(idx)
        idx2[k] = slice(None)
        rest = arr_getitem(eng, st, v, tuple(idx2))
        # axis position of k in rest
        ax = sum(1 for j in range(k) if isinstance(idx[j], slice))
        f = st.fn_of(rest)
        shape = list(rest.shape)
        shape[ax] = ln
        return st.alloc(tuple(shape), lambda oi: f(tuple(sub(o) if j == ax else o for j, o in enumerate(oi))), st.dtype(v))
    # several integer arrays: pointwise
    arrs = [idx[k] for k in pos]
    if all(st.dtype(x) != 'b' for x in arrs) and all(len(x.shape) == 1 for x in arrs) and len(idx) == len(pos):
        shape = bshape(eng, st, [x.shape for x in arrs])
        acc = [baccess(st, x, shape) for x in arrs]
        f = st.fn_of(v)
        return st.alloc(shape, lambda oi: f(tuple(a(oi) for a in acc)), st.dtype(v))
    raise Unsupported('index arrays')


def setitem(eng, st, v, idx, val):
    if isinstance(val, RaiseV):
        return val
    if isinstance(v, RaiseV):
        return v
    if isinstance(v, ListRef):
        L = st.lists[v.id]
        if isinstance(L, CList):
            i = cint(idx)
            if i is None:
                raise Unsupported('symbolic list index assignment')
            items = list(L.items)
            if not -len(items) <= i < len(items):
                return RaiseV(ExcV('IndexError'))
            items[i] = val
            st.lists[v.id] = CList(items, L.maxlen, L.kind)
            return None
        i = norm_index(eng, st, idx, L.n)
        if isinstance(L, pairs.Pairs):
            return pairs.setslot(eng, st, v, i, val)
        return sseq_set(eng, st, v, i, val)
    if isinstance(v, pairs.PairRef):
        return pairs.setentry(eng, st, v, idx, val)
    if isinstance(v, DictRef):
        if not isinstance(idx, str):
            raise Unsupported('dict key')
        st.dicts[v.id][idx] = val
        return None
    if not isinstance(v, Arr):
        if v is None or isnum(v):
            return RaiseV(ExcV('TypeError'))
        raise Unsupported('item assignment on %r' % (v,))
    idx = expand_index(st, v, idx)
    idx = [asarr(eng, st, x) if isinstance(x, ListRef) else x for x in idx]
    pos = [k for k, x in enumerate(idx) if isinstance(x, Arr) and len(x.shape) > 0]
    if pos:
        return fancy_set(eng, st, v, idx, pos, val)
    w = arr_getitem(eng, st, v, tuple(idx))
    if isinstance(w, RaiseV):
        return w
    if not isinstance(w, Arr):
        # single element
        ii = []
        for x, n in zip(idx, v.shape):
            eng.quiet += 1
            try:
                ii.append(norm_index(eng, st, x if not isinstance(x, Arr) else st.cell(x, ()), n))
            finally:
                eng.quiet -= 1
        if isinstance(val, Arr):
            if all(d is ONE for d in val.shape):
                val = st.cell(val, (0,) * len(val.shape))
            else:
                eng.oblige(st, FALSE, 'assignment of an array to an array element')
                val = tm.fresh_var('x', 'R')
        elem = Arr(v.buf, (), (lambda oi: ()) if False else None, None)
        tv = tn(val)

        def f(oi):
            return tuple(ii)

        def g(b):
            return tm.tand(*[tm.eq(x, y) for x, y in zip(b, ii)]), ()
        st.write(mkview(v, (), f, g, ('e',)), lambda oi: tv)
        return None
    val = asarr(eng, st, val)
    if isinstance(val, Arr):
        if len(val.shape) > len(w.shape):
            lead = val.shape[:len(val.shape) - len(w.shape)]
            if not all(d is ONE for d in lead):
                eng.oblige(st, FALSE, 'assignment shape')
                return None
        bs = bshape(eng, st, [w.shape, val.shape])
        for x, y in zip(w.shape, bs):
            need_dim(eng, st, x, y, 'assignment')
        if st.dtype(v) == 'i' and st.dtype(val) == 'f':
            eng.lossy(st, v)
        acc = baccess(st, val, w.shape)
        st.write(w, lambda oi: num_of(acc(oi), None) if st.dtype(v) != 'b' else acc(oi))
    elif isnum(val):
        t = tn(val)
        if st.dtype(v) == 'i' and (isreal(val)) and not (t.op == 'num' and t.val.denominator == 1):
            eng.lossy(st, v)
        st.write(w, lambda oi: t)
    else:
        raise Unsupported('assignment of %r into an array' % (val,))
    return None


def sseq_set(eng, st, v, i, val):
    L = st.lists[v.id]
    if isinstance(val, (int, float)):
        val = tn(val)
    if isinstance(val, T) and isinstance(L.elem, T):
        st.lists[v.id] = SSeq(L.n, tm.ite(tm.eq(IV[0], i), val, L.elem), L.maxlen, L.kind)
        return None
    raise Unsupported('assignment into a symbolic sequence')


def unselect(t, selname, r, tgt):
    """Rewrite a term in r that only uses sel(r) into one in tgt."""
    s = selname(r)
    t2 = tm.replace(t, lambda x: tgt if x is s else None)
    if r.val in fv(t2):
        raise Unsupported('masked value used outside its selection')
    return t2


def fancy_set(eng, st, v, idx, pos, val):
    if len(pos) != 1:
        raise Unsupported('assignment through several index arrays')
    k = pos[0]
    x = idx[k]
    if len(x.shape) != 1 or st.dtype(x) != 'b':
        raise Unsupported('assignment through an index array')
    need_dim(eng, st, x.shape[0], v.shape[k], 'mask')
    mf = st.fn_of(x)
    cnt, sel = mask_sel(eng, st, x)
    idx2 = list(idx)
    idx2[k] = slice(None)
    w = arr_getitem(eng, st, v, tuple(idx2))
    ax = sum(1 for j in range(k) if isinstance(idx[j], slice))
    old = st.fn_of(w)
    if isinstance(val, Arr):
        shp = list(w.shape)
        shp[ax] = cnt
        bs = bshape(eng, st, [tuple(shp), val.shape])
        acc = baccess(st, val, tuple(shp))

        def new(oi):
            r = tm.fresh_var('r')
            t = acc(tuple(r if j == ax else o for j, o in enumerate(oi)))
            return tm.ite(mf((oi[ax],)), unselect(t, sel, r, oi[ax]), old(oi))
    else:
        t = tn(val)
        new = lambda oi: tm.ite(mf((oi[ax],)), t, old(oi))
    st.write(w, new)
    return None


# attributes -------------------------------------------------------------------------------

ARR_METHODS = {'dot', 'trace', 'copy', 'sum', 'mean', 'max', 'min', 'ravel', 'swapaxes', 'reshape', 'diagonal',
               'transpose', 'astype', 'all', 'any', 'fill', 'flatten', 'squeeze', 'argmax', 'argmin', 'tolist', 'item',
               'clip', 'argsort', 'sort', 'repeat', 'prod', 'cumsum', 'nonzero', 'std', 'var', 'conj', 'take'}
DTYPES = {'f': 'float', 'i': 'int', 'b': 'bool'}


def attribute(eng, st, v, name):
    if isinstance(v, Arr):
        if name == 'T':
            return transpose(st, v)
        if name == 'shape':
            return tuple(v.shape)
        if name == 'size':
            return tm.mul(*v.shape) if v.shape else ONE
        if name == 'ndim':
            return len(v.shape)
        if name == 'dtype':
            return Opaque('dtype:' + st.dtype(v))
        if name in ARR_METHODS:
            return Builtin('ndarray.' + name, bound=v)
        if name == 'flat':
            raise Unsupported('flat')
        return RaiseV(ExcV('AttributeError'))
    if isinstance(v, ListRef):
        return Builtin('list.' + name, bound=v)
    if isinstance(v, DictRef):
        return Builtin('dict.' + name, bound=v)
    if isinstance(v, str):
        return Builtin('str.' + name, bound=v)
    if isinstance(v, Opaque):
        if v.what == 'str':
            return Builtin('str.' + name, bound=v)
        if v.what.startswith('dtype'):
            return Opaque('attr')
        return Opaque('attr')
    if isinstance(v, T) or isinstance(v, (int, float)):
        if name in ('item', 'copy', 'sum', 'max', 'min', 'trace', 'mean'):
            return Builtin('number.' + name, bound=v)
        if name == 'ndim':
            return 0
        if name == 'shape':
            return ()
        if name == 'size':
            return 1
        if name == 'dtype':
            return Opaque('dtype:f' if isreal(v) else 'dtype:i')
        return RaiseV(ExcV('AttributeError'))
    if isinstance(v, Builtin):
        return external(v.name + '.' + name)
    if v is None:
        return RaiseV(ExcV('AttributeError'))
    if isinstance(v, FuncV) and name in ('__name__', '__doc__'):
        return Opaque('str')
    if isinstance(v, tuple):
        return Builtin('tuple.' + name, bound=v)
    raise Unsupported('attribute %s of %r' % (name, v))


def transpose(st, v, perm=None):
    nd = len(v.shape)
    if nd < 2:
        return v
    if perm is None:
        perm = tuple(range(nd))[::-1]
    invp = [perm.index(k) for k in range(nd)]
    return mkview(v, tuple(v.shape[p] for p in perm),
                  lambda oi: tuple(oi[invp[k]] for k in range(nd)),
                  lambda b: (TRUE, tuple(b[p] for p in perm)), ('t',) + tuple(perm))


def copy(st, a, dtype=None):
    f = st.fn_of(a)
    d = dtype or st.dtype(a)
    if d != 'b' and st.dtype(a) == 'b':
        return st.alloc(a.shape, lambda idx: tm.ite(f(idx), ONE, ZERO), d)
    return st.alloc(a.shape, f, d)


def dot(eng, st, a, b, out=None):
    a, b = asarr(eng, st, a), asarr(eng, st, b)
    if isnum(a) or isnum(b):
        r = binop(eng, st, 'mul', a, b)
    elif isinstance(a, ObjRef) or isinstance(b, ObjRef):
        return obj_binop(eng, st, 'matmul', a, b)
    else:
        fa, fb = st.fn_of(a), st.fn_of(b)
        na, nb = len(a.shape), len(b.shape)
        bax = 0 if nb == 1 else nb - 2
        if na > 2 or nb > 2:
            raise Unsupported('dot of higher-dimensional arrays')
        need_dim(eng, st, a.shape[-1], b.shape[bax], 'dot')
        m = a.shape[-1]
        dt = 'f' if 'f' in (st.dtype(a), st.dtype(b)) else 'i'

        def body(ia, ib):
            return tm.mksum(ZERO, m, lambda l: tm.mul(num_of(fa(ia + (l,)), 0), num_of(fb((l,) + ib), 0)))
        if na == 1 and nb == 1:
            return body((), ())
        if na == 2 and nb == 1:
            r = st.alloc((a.shape[0],), lambda i: body((i[0],), ()), dt)
        elif na == 1 and nb == 2:
            r = st.alloc((b.shape[1],), lambda i: body((), (i[0],)), dt)
        else:
            r = st.alloc((a.shape[0], b.shape[1]), lambda i: body((i[0],), (i[1],)), dt)
    return put_out(eng, st, r, out)


def put_out(eng, st, r, out):
    if out is None:
        return r
    if not isinstance(out, Arr):
        raise Unsupported('out argument')
    for x, y in zip(out.shape, r.shape):
        need_dim(eng, st, x, y, 'out argument')
    st.write(out, st.fn_of(r))
    return out


def trace(eng, st, a):
    if len(a.shape) != 2:
        raise Unsupported('trace')
    f = st.fn_of(a)
    m, n = a.shape
    if not dim_eq(eng, st, m, n):
        m = tm.tmin(m, n)
    return tm.mksum(ZERO, m, lambda i: f((i, i)))


def norm_axis(axis, nd):
    ax = cint(axis)
    if ax is None:
        raise Unsupported('axis')
    return ax + nd if ax < 0 else ax


def reduce_sum(eng, st, a, axis=None, keepdims=False, f=None, dtype='f'):
    g = st.fn_of(a)
    if f is None:
        h = lambda idx: num_of(g(idx), 0)
    else:
        h = lambda idx: f(num_of(g(idx), 0))
    nd = len(a.shape)
    if axis is None:
        def rec(k, idx):
            if k == nd:
                return h(idx)
            return tm.mksum(ZERO, a.shape[k], lambda i: rec(k + 1, idx + (i,)))
        r = rec(0, ())
        if keepdims:
            return st.alloc((ONE,) * nd, lambda oi: r)
        return r
    axes = [norm_axis(x, nd) for x in axis] if isinstance(axis, tuple) else [norm_axis(axis, nd)]
    if any(x >= nd for x in axes):
        return RaiseV(ExcV('ValueError'))
    keep = [k for k in range(nd) if k not in axes]

    def cell(oi):
        pos = dict(zip(keep, oi))

        def rec(k, idx):
            if k == nd:
                return h(idx)
            if k in pos:
                return rec(k + 1, idx + (pos[k],))
            return tm.mksum(ZERO, a.shape[k], lambda i: rec(k + 1, idx + (i,)))
        return rec(0, ())
    dt = 'i' if st.dtype(a) in 'ib' and f is None else 'f'
    if keepdims:
        shape = tuple(ONE if k in axes else a.shape[k] for k in range(nd))
        return st.alloc(shape, lambda oi: cell(tuple(oi[k] for k in keep)), dt)
    if not keep:
        return cell(())
    return st.alloc(tuple(a.shape[k] for k in keep), cell, dt)


def extremum(eng, st, a, which, axis=None):
    """max/min over all entries: a value attained and bounding every entry."""
    if axis is not None and not (len(a.shape) == 1 and cint(axis) in (0, -1)):
        raise Unsupported('max along an axis')
    nd = len(a.shape)
    body = st.cell(a, IV[:nd])
    key = (which, body, a.shape)
    if key not in eng.maxsyms:
        if body.op == 'num':
            return body
        name = tm.fresh_name(which)
        srt = 'I' if st.dtype(a) == 'i' else 'R'
        m = var(name, srt)
        wit = [tm.fresh_var('arg' + which) for _ in range(nd)]
        eng.maxsyms[key] = (m, wit, body, a.shape)
    m, wit, body, shape = eng.maxsyms[key]
    rng = lambda idx: tm.tand(*[tm.tand(tm.le(ZERO, i), tm.lt(i, d)) for i, d in zip(idx, shape)])
    eng.oblige(st, tm.tand(*[tm.lt(ZERO, d) for d in shape]), 'maximum of an empty array')
    cmp = tm.le if which == 'max' else tm.ge
    at = lambda idx: tm.subst(body, dict(zip(IVN, idx)))
    if body.op == 'app' and all(x is y for x, y in zip(body.args, IV)):
        F = Fn.table[body.val]
        if not any(getattr(x, 'tag', None) is m for x in F.facts):
            def fact(*idx):
                return tm.implies(rng(idx), cmp(tm.app(body.val, *idx), m))
            fact.tag = m
            F.facts.append(fact)
    else:
        vs = [tm.fresh_var('q') for _ in range(nd)]
        st.assume(tm.forall(vs, tm.implies(rng(vs), cmp(at(vs), m))))
    st.assume(rng(wit))
    st.assume(tm.eq(at(wit), m))
    return m


def reshape(eng, st, a, shape):
    shape = list(shape)
    total = tm.mul(*a.shape) if a.shape else ONE
    if any(cint(s) == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if cint(s) == -1][0]
        other = tm.mul(*[tn(s) for i, s in enumerate(shape) if i != k]) if len(shape) > 1 else ONE
        if other is ONE:
            shape[k] = inorm(total)
        else:
            from .nf import NF
            q = NF(st.ctx).divide(inorm(total), inorm(other))
            if q is None:
                raise Unsupported('reshape with -1')
            shape[k] = q
    shape = tuple(inorm(tn(s)) for s in shape)
    newtotal = inorm(tm.mul(*shape) if shape else ONE)
    need_dim(eng, st, inorm(total), newtotal, 'reshape')
    if not a.full:          # a view or a copy, depending on the memory layout
        a = copy(st, a)
        st.heap[a.buf].origin = 'alias'
    # drop unit dimensions on both sides and compare
    old = [d for d in a.shape if d is not ONE]
    new = [d for d in shape if d is not ONE]
    if len(old) == len(new) and all(dim_eq(eng, st, x, y) for x, y in zip(old, new)):
        oax = [k for k, d in enumerate(a.shape) if d is not ONE]
        nax = [k for k, d in enumerate(shape) if d is not ONE]

        def f(oi):
            out = [ZERO] * len(a.shape)
            for x, y in zip(oax, nax):
                out[x] = oi[y]
            return tuple(out)

        def g(b):
            out = [ZERO] * len(shape)
            for x, y in zip(oax, nax):
                out[y] = b[x]
            return TRUE, tuple(out)
        return mkview(a, shape, f, g, ('rs',) + tuple(d.id for d in shape))

    def flat(idx, dims):
        t = ZERO
        for i, d in zip(idx, dims):
            t = tm.add(tm.mul(t, d), i)
        return inorm(t)

    def unflat(t, dims):
        out = []
        for d in reversed(dims[1:]):
            out.append(tm.mod(t, d))
            t = tm.fdiv(t, d)
        out.append(t)
        return tuple(reversed(out))
    return mkview(a, shape, lambda oi: smart_unflat(eng, st, oi, shape, a.shape, flat, unflat),
                  lambda b: (TRUE, smart_unflat(eng, st, b, a.shape, shape, flat, unflat)), ('rs',) + tuple(d.id for d in shape))


def smart_unflat(eng, st, idx, dims, target, flat, unflat):
    """Index of the same linear position; shares trailing equal dimensions."""
    idx, dims, target = list(idx), list(dims), list(target)
    tail = []
    while len(dims) > 1 and len(target) > 1 and dims[-1] is target[-1]:
        tail.append(idx[-1])
        idx.pop()
        dims.pop()
        target.pop()
    t = flat(idx, dims)
    out = unflat(t, target) if len(target) > 1 else (t,)
    return tuple(out) + tuple(reversed(tail))


def array_from(eng, st, v, dtype):
    """np.array(list-like)."""
    if isinstance(v, Arr):
        return copy(st, v, dtype)
    if isnum(v):
        t = tn(v)
        return st.alloc((), lambda oi: t, dtype or ('f' if isreal(v) else 'i'))
    if isinstance(v, ListRef):
        L = st.lists[v.id]
        if isinstance(L, SSeq):
            return array_from_sseq(eng, st, L, dtype)
        v = tuple(L.items)
    if isinstance(v, tuple):
        if not v:
            return st.alloc((ZERO,), lambda oi: ZERO, dtype or 'f')
        if all(isnum(x) for x in v):
            ts = [tn(x) for x in v]

            def f(oi):
                r = ts[-1]
                for k in range(len(ts) - 2, -1, -1):
                    r = tm.ite(tm.eq(oi[0], num(k)), ts[k], r)
                return r
            return st.alloc((num(len(v)),), f, dtype or ('f' if any(isreal(x) for x in v) else 'i'))
        subs = [array_from(eng, st, x, dtype) for x in v]
        sh = subs[0].shape
        fs = [st.fn_of(s) for s in subs]

        def f2(oi):
            r = fs[-1](oi[1:])
            for k in range(len(fs) - 2, -1, -1):
                r = tm.ite(tm.eq(oi[0], num(k)), fs[k](oi[1:]), r)
            return r
        return st.alloc((num(len(v)),) + tuple(sh), f2, dtype or st.dtype(subs[0]))
    if isinstance(v, RangeV):
        it = iterate(eng, st, v)
        return st.alloc((num(it.n),), lambda oi: tm.add(v.lo, tm.mul(v.step, oi[0])), dtype or 'i')
    raise Unsupported('array of %r' % (v,))


def array_from_sseq(eng, st, L, dtype):
    def tmpl(e):
        """(shape, fn(idx)) of an element template in _i0"""
        if isnum(e):
            t = tn(e)
            return (), (lambda idx: t), isreal(e)
        if isinstance(e, ListRef):
            e = st.lists[e.id]
        if isinstance(e, CList):
            e = tuple(e.items)
        if isinstance(e, tuple):
            parts = [tmpl(x) for x in e]

            def f(idx):
                r = parts[-1][1](idx[1:])
                for k in range(len(parts) - 2, -1, -1):
                    r = tm.ite(tm.eq(idx[0], num(k)), parts[k][1](idx[1:]), r)
                return r
            return (num(len(e)),) + parts[0][0], f, any(p[2] for p in parts)
        if isinstance(e, Arr):
            g = st.fn_of(e)
            return e.shape, g, st.dtype(e) == 'f'
        if isinstance(e, SSeq):
            sh, g, r = tmpl(e.elem)
            raise Unsupported('nested symbolic sequences')
        from .loops import ArrT
        if isinstance(e, ArrT):
            if any(IVN[0] in fv(d) for d in e.shape):
                raise Unsupported('arrays of different length in a symbolic sequence')
            return e.shape, (lambda idx: tm.subst(e.body, {'_j%d' % q: x for q, x in enumerate(idx)})), e.dtype == 'f'
        raise Unsupported('array element %r' % (e,))
    sh, f, isr = tmpl(L.elem)

    def cell(oi):
        # _i0 of the template is the sequence index; later dims are oi[1:]
        t = f(tuple(var('_j%d' % k) for k in range(len(sh))))
        s = {IVN[0]: oi[0]}
        for k in range(len(sh)):
            s['_j%d' % k] = oi[1 + k]
        return tm.subst(t, s)
    return st.alloc((L.n,) + tuple(sh), cell, dtype or ('f' if isr else 'i'))


def concat(eng, st, parts, axis=0):
    parts = [asarr(eng, st, p) for p in parts]
    if len(parts) == 1:
        return copy(st, parts[0])
    nd = len(parts[0].shape)
    ax = norm_axis(axis, nd)
    for p in parts[1:]:
        if len(p.shape) != nd:
            return RaiseV(ExcV('ValueError'))
        for k in range(nd):
            if k != ax:
                need_dim(eng, st, parts[0].shape[k], p.shape[k], 'concatenate')
    offs = [ZERO]
    for p in parts:
        offs.append(inorm(tm.add(offs[-1], p.shape[ax])))
    fs = [st.fn_of(p) for p in parts]
    shape = list(parts[0].shape)
    shape[ax] = offs[-1]
    dt = 'f' if any(st.dtype(p) == 'f' for p in parts) else 'i'

    def cell(oi):
        def at(k):
            return num_of(fs[k](tuple(inorm(tm.sub(o, offs[k])) if j == ax and offs[k] is not ZERO else o for j, o in enumerate(oi))), 0)
        r = at(len(parts) - 1)
        for k in range(len(parts) - 2, -1, -1):
            r = tm.ite(tm.lt(oi[ax], offs[k + 1]), at(k), r)
        return r
    return st.alloc(tuple(shape), cell, dt)


def dtype_of(v, default='f'):
    if v is None:
        return default
    if isinstance(v, Opaque) and v.what.startswith('dtype:'):
        return v.what[6:]
    if isinstance(v, str):
        return {'f': 'f', 'i': 'i', 'b': 'b', 'd': 'f', 'u': 'i'}.get(v[0], 'f') if v not in ('bool',) else 'b'
    if isinstance(v, Builtin):
        n = v.name.split('.')[-1]
        if n.startswith('float') or n == 'double':
            return 'f'
        if n.startswith('int') or n.startswith('uint'):
            return 'i'
        if n.startswith('bool'):
            return 'b'
    if isinstance(v, Opaque):
        return default
    raise Unsupported('dtype %r' % (v,))


def shape_of(st, v):
    if isinstance(v, tuple):
        return tuple(tn(x) for x in v)
    if isinstance(v, ListRef):
        return tuple(tn(x) for x in st.lists[v.id].items)
    return (tn(v),)


def einsum(eng, st, spec, ops):
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    dims = {}
    for s, a in zip(ins, ops):
        for c, d in zip(s, a.shape):
            if c in dims:
                need_dim(eng, st, dims[c], d, 'einsum')
            else:
                dims[c] = d
    fs = [st.fn_of(a) for a in ops]
    summed = [c for c in dims if c not in out]

    def cell(oi):
        env = dict(zip(out, oi))

        def rec(k):
            if k == len(summed):
                return tm.mul(*[f(tuple(env[c] for c in s)) for s, f in zip(ins, fs)])
            c = summed[k]

            def g(i):
                env[c] = i
                r = rec(k + 1)
                del env[c]
                return r
            return tm.mksum(ZERO, dims[c], g)
        return rec(0)
    if not out:
        return cell(())
    return st.alloc(tuple(dims[c] for c in out), cell)


# calls ---------------------------------------------------------------------------------------

def arg(args, kw, k, name, default=None):
    if k is not None and k < len(args):
        return args[k]
    return kw.get(name, default)


class Kw(dict):
    """Keyword arguments; remembers which were looked at."""
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.used = set()

    def get(self, k, default=None):
        self.used.add(k)
        return dict.get(self, k, default)

    def __getitem__(self, k):
        self.used.add(k)
        return dict.__getitem__(self, k)

    def pop(self, k, *a):
        self.used.add(k)
        return dict.pop(self, k, *a)

    def items(self):
        self.used.update(dict.keys(self))
        return dict.items(self)

    def values(self):
        self.used.update(dict.keys(self))
        return dict.values(self)


class Args(list):
    """Positional arguments; remembers which were looked at."""
    def __init__(self, a, used=None, shift=0):
        list.__init__(self, a)
        self.used = set() if used is None else used
        self.shift = shift

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        self.used.update(q - self.shift for q in ([k % len(self)] if isinstance(k, int) else range(*k.indices(len(self)))))
        return r

    def __iter__(self):
        self.used.update(q - self.shift for q in range(len(self)))
        return list.__iter__(self)

    def after(self, b):
        """b followed by these arguments"""
        return Args([b] + list.__getitem__(self, slice(None)), self.used, self.shift + 1)


# arguments that have no influence on values, shapes or aliasing the models describe
IRRELEVANT = {('numpy.linalg.lstsq', 'rcond')}
CHECKED = ('numpy.', 'ndarray.', 'scipy.', 'csr.', 'cvx.', 'Rng.', 'sum', 'max', 'min', 'sorted', 'range', 'enumerate', 'zip', 'reversed', 'abs', 'list.', 'sklearn.utils.')


def call(eng, st, f, args, kw):
    from . import lib
    for x in list(args) + list(kw.values()):
        if isinstance(x, RaiseV):
            return x
    n = f.name
    h = lib.TABLE.get(n)
    if h is not None:
        ka, aa = Kw(kw), Args(args)
        r = h(eng, st, f.bound, aa, ka)
        if not isinstance(r, RaiseV) and n.startswith(CHECKED):
            # an argument the model of the external function does not look at is outside the subset
            for q in ka:
                if q not in ka.used and (n, q) not in IRRELEVANT:
                    raise Unsupported('argument %s of %s' % (q, n))
            for q in range(len(aa)):
                if q not in aa.used:
                    raise Unsupported('argument %d of %s' % (q + 1, n))
        return r
    if n in EXC:
        return ExcV(n, tuple(args))
    raise Unsupported('call of %s' % n)


def obj_attr(eng, st, v, name):
    from . import lib
    return lib.obj_attr(eng, st, v, name)


def obj_binop(eng, st, op, a, b):
    from . import lib
    return lib.obj_binop(eng, st, op, a, b)


def obj_unary(eng, st, op, a):
    from . import lib
    return lib.obj_unary(eng, st, op, a)


def obj_compare(eng, st, op, a, b):
    from . import lib
    return lib.obj_compare(eng, st, op, a, b)


def obj_getitem(eng, st, v, idx):
    from . import lib
    return lib.obj_getitem(eng, st, v, idx)
