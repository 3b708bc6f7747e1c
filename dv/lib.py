"""Contracts of library calls, keyed by canonical name.

handler(eng, st, bound, args, kw) -> value (or Multi for several outcomes)
"""
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, var, fv, Fn
from .core import *
from .core import RangeV, IterV
from . import npm, pairs
from .npm import (arg, tn, isnum, isreal, num_of, elementwise, asarr, cint, iterate, reduce_sum, extremum, dtype_of,
                  shape_of, array_from, concat, need_dim, reshape as np_reshape, dim_eq)
from .nf import inorm

TABLE = {}


def reg(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def TypeErr():
    return RaiseV(ExcV('TypeError'))


# Python ------------------------------------------------------------------------------

@reg('len')
def _len(eng, st, b, args, kw):
    v = args[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, ListRef):
        l = st.lists[v.id]
        return len(l.items) if isinstance(l, CList) else l.n
    if isinstance(v, DictRef):
        return len(st.dicts[v.id])
    if isinstance(v, Arr) and v.shape:
        return int(v.shape[0].val) if v.shape[0].op == 'num' else v.shape[0]
    if v is None or isnum(v) or isinstance(v, Arr):
        return TypeErr()
    if isinstance(v, RangeV):
        return iterate(eng, st, v).n
    raise Unsupported('len(%r)' % (v,))


@reg('range')
def _range(eng, st, b, args, kw):
    a = []
    for x in args:
        if isinstance(x, float) or x is None or isinstance(x, str) or (isinstance(x, T) and x.sort == 'R'):
            return TypeErr()
        a.append(inorm(tn(x)))
    if len(a) == 1:
        return RangeV(ZERO, a[0], ONE)
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else ONE)


@reg('enumerate')
def _enumerate(eng, st, b, args, kw):
    return npm.enumerate_(eng, st, args[0], arg(args, kw, 1, 'start', 0))


@reg('zip')
def _zip(eng, st, b, args, kw):
    return npm.zip_(eng, st, args)


@reg('reversed')
def _reversed(eng, st, b, args, kw):
    it = iterate(eng, st, args[0])
    if it.concrete is not None:
        c = list(reversed(it.concrete))
        return IterV(len(c), None, c)
    return IterV(it.n, lambda s, k: it.item(s, tm.sub(tm.sub(it.n, ONE), k)))


def type_is(st, v, t):
    """isinstance for one class value."""
    if isinstance(t, tuple):
        r = False
        for x in t:
            y = type_is(st, v, x)
            if y is True:
                return True
            if y is not False:
                r = y
        return r
    if isinstance(t, ClassV):
        return isinstance(v, ObjRef) and isinstance(st.objs[v.id][0], ClassV) and st.objs[v.id][0].subclass_of(t)
    if not isinstance(t, Builtin):
        raise Unsupported('isinstance with %r' % (t,))
    n = t.name
    if isinstance(v, Opaque):
        if v.what == 'str':
            return n == 'str'
        if v.what == 'foreign':      # no number, no container
            return False
        return tm.fresh_var('isinstance', 'B')
    isint = isinstance(v, int) or (isinstance(v, T) and v.sort == 'I')
    isnumv = isint or isinstance(v, float) or (isinstance(v, T) and v.sort in 'RB') or isinstance(v, bool)
    if n in ('numbers.Integral', 'numpy.integer', 'int'):
        if isinstance(v, T) and v.op == 'var' and v.val.startswith('npint.'):
            return n != 'int'
        if isinstance(v, T) and v.op == 'var' and v.sort == 'I':
            return n != 'numpy.integer'     # scalars of the caller
        if isinstance(v, T) and v.sort == 'I':
            return True
        return isint and n != 'numpy.integer'
    if n in ('numbers.Number', 'numbers.Real', 'float', 'numbers.Complex'):
        if n == 'float':
            return isreal(v)
        return isnumv
    if n == 'numpy.ndarray':
        return isinstance(v, Arr)
    if n == 'list':
        return isinstance(v, ListRef) and getattr(st.lists[v.id], 'kind', 'list') == 'list'
    if n == 'tuple':
        return isinstance(v, tuple)
    if n == 'dict':
        return isinstance(v, DictRef)
    if n == 'str':
        return isinstance(v, str)
    if n == 'bool':
        return isinstance(v, bool)
    raise Unsupported('isinstance with %s' % n)


@reg('isinstance')
def _isinstance(eng, st, b, args, kw):
    return type_is(st, args[0], args[1])


@reg('type')
def _type(eng, st, b, args, kw):
    v = args[0]
    if isinstance(v, ObjRef):
        return st.objs[v.id][0]
    return Opaque('type')


@reg('print', 'warnings.simplefilter', 'warnings.filterwarnings', 'logging.info', 'object.__init__', 'numpy.seterr')
def _noop(eng, st, b, args, kw):
    return None


@reg('warnings.warn')
def _warn(eng, st, b, args, kw):
    c = arg(args, kw, 1, 'category')
    st.event('warn', c.name if isinstance(c, Builtin) else 'UserWarning')
    return None


@reg('warnings.catch_warnings', 'numpy.errstate')
def _ctxmgr(eng, st, b, args, kw):
    return Opaque('context')


@reg('time.perf_counter', 'time.time', 'time.monotonic', 'time.process_time')
def _clock(eng, st, b, args, kw):
    return tm.fresh_var('clock', 'R')


@reg('max', 'min')
def _max(eng, st, b, args, kw):
    raise Unsupported('max')


def _mk_maxmin(which):
    def h(eng, st, b, args, kw):
        if len(args) == 1:
            it = iterate(eng, st, args[0])
            if it.concrete is None:
                a = npm.asarr(eng, st, args[0])
                if isinstance(a, Arr):
                    return extremum(eng, st, a, which)
                raise Unsupported('%s of a symbolic iterable' % which)
            args = it.concrete
            if not args:
                if 'default' in kw:
                    return kw['default']
                return RaiseV(ExcV('ValueError'))
        if 'key' in kw:
            raise Unsupported('max with key')
        if all(isinstance(x, (int, float)) for x in args):
            return (max if which == 'max' else min)(args)
        if any(not isnum(x) for x in args):
            if any(x is None or isinstance(x, (str, tuple)) for x in args):
                return TypeErr()
            raise Unsupported('max of %r' % (args,))
        f = tm.tmax if which == 'max' else tm.tmin
        r = tn(args[0])
        for x in args[1:]:
            r = f(r, tn(x))
        return r
    return h


TABLE['max'] = _mk_maxmin('max')
TABLE['min'] = _mk_maxmin('min')


@reg('abs', 'numpy.abs', 'numpy.fabs')
def _abs(eng, st, b, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Arr):
        return npm.put_out(eng, st, elementwise(eng, st, tm.tabs, [v]), kw.get('out'))
    if isnum(v):
        return tm.tabs(tn(v))
    if v is None or isinstance(v, str):
        return TypeErr()
    raise Unsupported('abs')


@reg('sum')
def _sum(eng, st, b, args, kw):
    it = iterate(eng, st, args[0])
    start = arg(args, kw, 1, 'start', 0)
    if it.concrete is not None:
        r = start
        for x in it.concrete:
            r = npm.binop(eng, st, 'add', r, x)
        return r
    v = tm.fresh_var('s')
    e = it.item(st, v)
    if isinstance(e, (int, float)):
        e = tn(e)
    if not isinstance(e, T):
        raise Unsupported('sum of non-numbers')
    return npm.binop(eng, st, 'add', start, tm.tsum(v, ZERO, it.n, num_of(e, 0)))


@reg('int')
def _int(eng, st, b, args, kw):
    v = args[0] if args else 0
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, T):
        if v.sort == 'B':
            return tm.ite(v, ONE, ZERO)
        if v.sort == 'I':
            return v
        # truncation of a quotient of integers
        if v.op == 'num':
            return num(int(v.val))
        n, d = quotient(v)
        if n is not None and st.ctx.proves(tm.tand(tm.le(ZERO, n), tm.lt(ZERO, d))):
            from .nf import NF
            q = NF(st.ctx).divide(inorm(n), inorm(d))
            return q if q is not None else tm.fdiv(n, d)
        raise Unsupported('int of a real')
    if isinstance(v, Arr) and all(d is ONE for d in v.shape):
        return st.cell(v, (0,) * len(v.shape))
    raise Unsupported('int(%r)' % (v,))


def quotient(v):
    """v == n/d with integer n, d"""
    if v.op == 'mul':
        n, d = [], []
        for a in v.args:
            if a.op == 'pow' and a.val == -1 and a.args[0].sort == 'I':
                d.append(a.args[0])
            elif a.sort == 'I':
                n.append(a)
            else:
                return None, None
        return tm.mul(*n) if n else ONE, tm.mul(*d) if d else ONE
    if v.op == 'add':
        ds = [quotient(a) for a in v.args]
        if any(x[0] is None for x in ds):
            return None, None
        d = [x[1] for x in ds if x[1] is not ONE]
        if d and all(x is d[0] for x in d):
            return tm.add(*[x[0] if x[1] is not ONE else tm.mul(x[0], d[0]) for x in ds]), d[0]
    if v.sort == 'I':
        return v, ONE
    return None, None


@reg('float')
def _float(eng, st, b, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, T):
        return npm.asreal(tn(v)) if v.op == 'num' else toreal(tn(v))
    if isinstance(v, str):
        return float(v)
    raise Unsupported('float')


def toreal(t):
    return t


@reg('bool')
def _bool(eng, st, b, args, kw):
    return eng.truth(st, args[0])


@reg('list')
def _list(eng, st, b, args, kw):
    if not args:
        return st.newlist()
    v = args[0]
    it = iterate(eng, st, v)
    if it.concrete is not None:
        return st.newlist(list(it.concrete))
    return st.newlist(SSeq(it.n, it.item(st, IV[0])))


@reg('tuple')
def _tuple(eng, st, b, args, kw):
    if not args:
        return ()
    it = iterate(eng, st, args[0])
    if it.concrete is None:
        raise Unsupported('tuple of a symbolic sequence')
    return tuple(it.concrete)


@reg('dict')
def _dict(eng, st, b, args, kw):
    d = {}
    if args:
        if not isinstance(args[0], DictRef):
            raise Unsupported('dict()')
        d.update(st.dicts[args[0].id])
    d.update(kw)
    return st.newdict(d)


@reg('str', 'repr')
def _str(eng, st, b, args, kw):
    if args and isinstance(args[0], (str, int)) and not isinstance(args[0], bool):
        return str(args[0])
    return Opaque('str')


@reg('any', 'all')
def _x(eng, st, b, args, kw):
    raise Unsupported('any/all')


def _mk_anyall(which):
    def h(eng, st, b, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return np_anyall(eng, st, v, which, kw.get('axis'))
        it = iterate(eng, st, v)
        if it.concrete is None:
            q = tm.fresh_var('q')
            e = it.item(st, q)
            t = eng.truth(st, e)
            t = tm.boolc(t) if isinstance(t, bool) else t
            rng = tm.tand(tm.le(ZERO, q), tm.lt(q, it.n))
            return npm.b2py(tm.forall([q], tm.implies(rng, t)) if which == 'all' else tm.exists([q], tm.tand(rng, t)))
        r = TRUE if which == 'all' else FALSE
        for x in it.concrete:
            t = eng.truth(st, x)
            t = tm.boolc(t) if isinstance(t, bool) else t
            r = tm.tand(r, t) if which == 'all' else tm.tor(r, t)
        return npm.b2py(r)
    return h


TABLE['any'] = _mk_anyall('any')
TABLE['all'] = _mk_anyall('all')


def prescribed(ctx, c):
    """sums whose value is prescribed are replaced by it (a solver cannot see sums under quantifiers)"""
    from . import nf

    def rp(x):
        if x.op == 'sum' and any(y.op == 'app' and Fn.table[y.val].sumrules for y in tm.subterms(x)):
            try:
                ms = nf.NF(ctx).poly(x)
            except nf.TooBig:
                return None
            if all(not m.bs and not m.gs for m in ms):
                return tm.add(*[tm.mul(num(m.c), *[tm.power(f, p) if p != 1 else f for f, p in m.fs]) for m in ms]) if ms else ZERO
        return None
    return tm.replace(c, rp)


def np_anyall(eng, st, v, which, axis=None):
    if axis is not None:
        raise Unsupported('all with axis')
    if isinstance(v, bool):
        return v
    if isinstance(v, T):
        return eng.truth(st, v)
    nd = len(v.shape)
    qs = [tm.fresh_var('q') for _ in range(nd)]
    c = st.cell(v, qs)
    if c.sort != 'B':
        c = tm.ne(c, ZERO)
    rng = tm.tand(*[tm.tand(tm.le(ZERO, q), tm.lt(q, d)) for q, d in zip(qs, v.shape)])
    c = prescribed(st.ctx.extend(rng), c)
    return npm.b2py(tm.forall(qs, tm.implies(rng, c)) if which == 'all' else tm.exists(qs, tm.tand(rng, c)))


@reg('numpy.all', 'ndarray.all', 'numpy.alltrue')
def _npall(eng, st, b, args, kw):
    if b is not None:
        args = [b] + list(args)
    return np_anyall(eng, st, args[0], 'all', arg(args, kw, 1, 'axis'))


@reg('numpy.any', 'ndarray.any')
def _npany(eng, st, b, args, kw):
    if b is not None:
        args = [b] + list(args)
    return np_anyall(eng, st, args[0], 'any', arg(args, kw, 1, 'axis'))


@reg('hasattr')
def _hasattr(eng, st, b, args, kw):
    v = eng.getattr(st, args[0], args[1])
    return not isinstance(v, RaiseV)


@reg('getattr')
def _getattr(eng, st, b, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported('getattr')
    v = eng.getattr(st, args[0], args[1])
    if isinstance(v, RaiseV) and len(args) > 2:
        return args[2]
    return v


@reg('setattr')
def _setattr(eng, st, b, args, kw):
    if not (isinstance(args[0], ObjRef) and isinstance(args[1], str)):
        raise Unsupported('setattr')
    st.setattr(args[0], args[1], args[2])
    return None


@reg('callable')
def _callable(eng, st, b, args, kw):
    return isinstance(args[0], (FuncV, Builtin, ClassV)) or (isinstance(args[0], Opaque) and args[0].what == 'callable')


@reg('round')
def _round(eng, st, b, args, kw):
    raise Unsupported('round')


@reg('pow', 'math.pow', 'numpy.power')
def _pow(eng, st, b, args, kw):
    return npm.binop(eng, st, 'pow', args[0], args[1])


@reg('divmod')
def _divmod(eng, st, b, args, kw):
    return (npm.binop(eng, st, 'fdiv', args[0], args[1]), npm.binop(eng, st, 'mod', args[0], args[1]))


@reg('sorted')
def _sorted(eng, st, b, args, kw):
    it = iterate(eng, st, args[0])
    if it.concrete is not None and all(isinstance(x, (int, float)) for x in it.concrete) and not kw:
        return st.newlist(sorted(it.concrete))
    raise Unsupported('sorted')


# methods of builtin containers -------------------------------------------------------------

@reg('list.append', 'deque.append')
def _append(eng, st, b, args, kw):
    npm.list_append(eng, st, b, args[0])
    return None


@reg('list.popleft')
def _popleft(eng, st, b, args, kw):
    return npm.list_popleft(eng, st, b)


@reg('list.pop')
def _pop(eng, st, b, args, kw):
    L = st.lists[b.id]
    if isinstance(L, pairs.Pairs):
        return pairs.pop(eng, st, b, args[0] if args else -1)
    i = cint(args[0]) if args else -1
    if isinstance(L, CList) and i is not None:
        items = list(L.items)
        if not -len(items) <= i < len(items):
            return RaiseV(ExcV('IndexError'))
        v = items.pop(i)
        st.lists[b.id] = CList(items, L.maxlen, L.kind)
        return v
    if isinstance(L, SSeq) and i == -1:
        eng.oblige(st, tm.lt(ZERO, L.n), 'pop from an empty sequence')
        n1 = inorm(tm.sub(L.n, ONE))
        v = L.at(n1)
        st.lists[b.id] = SSeq(n1, L.elem, L.maxlen, L.kind)
        return v
    if isinstance(L, SSeq) and i == 0:
        return npm.list_popleft(eng, st, b)
    raise Unsupported('pop')


@reg('list.sort')
def _lsort(eng, st, b, args, kw):
    if not isinstance(st.lists[b.id], pairs.Pairs):
        raise Unsupported('list.sort')
    return pairs.sort(eng, st, b, kw.get('key'), kw.get('reverse', False))


@reg('list.extend')
def _extend(eng, st, b, args, kw):
    npm.list_extend(eng, st, b, args[0])
    return None


@reg('list.copy')
def _lcopy(eng, st, b, args, kw):
    L = st.lists[b.id]
    if isinstance(L, pairs.Pairs):
        raise Unsupported('copy of a list of lists')
    return st.newlist(L)


@reg('list.clear')
def _lclear(eng, st, b, args, kw):
    L = st.lists[b.id]
    st.lists[b.id] = CList([], L.maxlen, L.kind)


@reg('list.insert')
def _insert(eng, st, b, args, kw):
    L = st.lists[b.id]
    i = cint(args[0])
    if isinstance(L, CList) and i is not None:
        items = list(L.items)
        items.insert(i, args[1])
        st.lists[b.id] = CList(items, L.maxlen, L.kind)
        return None
    raise Unsupported('insert')


@reg('dict.get')
def _dget(eng, st, b, args, kw):
    d = st.dicts[b.id]
    if args[0] in d:
        return d[args[0]]
    return args[1] if len(args) > 1 else kw.get('default')


@reg('dict.pop')
def _dpop(eng, st, b, args, kw):
    d = st.dicts[b.id]
    if args[0] in d:
        return d.pop(args[0])
    if len(args) > 1:
        return args[1]
    return RaiseV(ExcV('KeyError'))


@reg('dict.items')
def _ditems(eng, st, b, args, kw):
    c = list(st.dicts[b.id].items())
    return IterV(len(c), None, c)


@reg('dict.keys')
def _dkeys(eng, st, b, args, kw):
    c = list(st.dicts[b.id])
    return IterV(len(c), None, c)


@reg('dict.values')
def _dvalues(eng, st, b, args, kw):
    c = list(st.dicts[b.id].values())
    return IterV(len(c), None, c)


@reg('dict.copy')
def _dcopy(eng, st, b, args, kw):
    return st.newdict(st.dicts[b.id])


@reg('dict.update')
def _dupdate(eng, st, b, args, kw):
    if args:
        st.dicts[b.id].update(st.dicts[args[0].id])
    st.dicts[b.id].update(kw)


@reg('dict.setdefault')
def _dsetdefault(eng, st, b, args, kw):
    return st.dicts[b.id].setdefault(args[0], args[1] if len(args) > 1 else None)


for _m in ('format', 'join', 'lower', 'upper', 'strip', 'title', 'replace', 'split'):
    TABLE['str.' + _m] = lambda eng, st, b, args, kw: Opaque('str')
TABLE['str.lower'] = lambda eng, st, b, args, kw: b.lower() if isinstance(b, str) else Opaque('str')


@reg('collections.deque')
def _deque(eng, st, b, args, kw):
    ml = arg(args, kw, 1, 'maxlen')
    if not args or args[0] is None:
        return st.newlist(CList([], ml, 'deque'))
    v = args[0]
    L = st.lists[v.id] if isinstance(v, ListRef) else None
    if isinstance(L, SSeq):
        if ml is not None and not dim_eq(eng, st, L.n, tn(ml)):
            if not st.ctx.proves(tm.le(L.n, tn(ml))):
                raise Unsupported('deque longer than maxlen')
        return st.newlist(SSeq(L.n, L.elem, ml, 'deque'))
    it = iterate(eng, st, v)
    if it.concrete is None:
        raise Unsupported('deque')
    items = list(it.concrete)
    if isinstance(ml, int) and len(items) > ml:
        items = items[len(items) - ml:]
    return st.newlist(CList(items, ml, 'deque'))


@reg('copy.deepcopy', 'copy.copy')
def _deepcopy(eng, st, b, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return npm.copy(st, v)
    if isnum(v) or v is None or isinstance(v, (str, tuple)):
        return v
    raise Unsupported('copy of %r' % (v,))


# validation --------------------------------------------------------------------------------

@reg('sklearn.utils.check_array')
def _check_array(eng, st, b, args, kw):
    v = args[0]
    if not isinstance(v, Arr):
        if v is None or isnum(v) or isinstance(v, (str, Opaque)):
            return RaiseV(ExcV('ValueError'))
        v = asarr(eng, st, v)
    dt = kw.get('dtype')
    if dt is not None and not (isinstance(dt, str) and dt in ('f8', 'float64', 'numeric', 'd')) and not (isinstance(dt, Builtin) and dt.name in ('float', 'numpy.float64')):
        raise Unsupported('check_array to type %r' % (dt,))
    if len(v.shape) != 2:
        return RaiseV(ExcV('ValueError'))
    return npm.copy(st, v) if kw.get('copy') is True else v


@reg('sklearn.utils.check_random_state')
def _check_random_state(eng, st, b, args, kw):
    v = args[0] if args else kw.get('seed')
    if isinstance(v, ObjRef) and st.objs[v.id][0] == 'Rng':
        return v
    if v is None:
        return global_rng(eng, st)
    if isinstance(v, int) or isinstance(v, T):
        return st.newobj('Rng', {'which': ('seed', v)})
    return RaiseV(ExcV('ValueError'))


def global_rng(eng, st):
    return st.newobj('Rng', {'which': 'global'})


def draw(eng, st, r, kind, *args):
    d = st.objs[r.id][1]
    st.event('draw', d.get('which'), kind)


# numpy: creation ------------------------------------------------------------------------------

def _shape_arg(st, v):
    return tuple(inorm(x) for x in shape_of(st, v))


def check_shape(eng, st, sh):
    for d in sh:
        if d.op == 'num' and d.val >= 0:
            continue
        eng.oblige(st, tm.le(ZERO, d), 'array dimension is non-negative')


def _creator(name, value):
    def h(eng, st, b, args, kw):
        v = arg(args, kw, 0, 'shape')
        if v is None:
            return TypeErr() if name != 'ones' else st.alloc((), lambda i: num(1), 'f')
        sh = _shape_arg(st, v)
        check_shape(eng, st, sh)
        dt = dtype_of(arg(args, kw, 1, 'dtype'))
        if value is None:
            nm = tm.fresh_name('empty')
            a = st.alloc_fn(sh, nm, dt)
            return a
        return st.alloc(sh, lambda i: num(value), dt)
    return h


TABLE['numpy.zeros'] = _creator('zeros', 0)
TABLE['numpy.ones'] = _creator('ones', 1)
TABLE['numpy.empty'] = _creator('empty', None)


def _creator_like(value):
    def h(eng, st, b, args, kw):
        a = asarr(eng, st, args[0])
        if not isinstance(a, Arr):
            raise Unsupported('zeros_like(%r)' % (a,))
        dt = dtype_of(arg(args, kw, 1, 'dtype'), st.dtype(a))
        if value is None:
            return st.alloc_fn(a.shape, tm.fresh_name('empty'), dt)
        return st.alloc(a.shape, lambda i: num(value), dt)
    return h


TABLE['numpy.zeros_like'] = _creator_like(0)
TABLE['numpy.ones_like'] = _creator_like(1)
TABLE['numpy.empty_like'] = _creator_like(None)


@reg('numpy.full')
def _full(eng, st, b, args, kw):
    sh = _shape_arg(st, arg(args, kw, 0, 'shape'))
    check_shape(eng, st, sh)
    v = arg(args, kw, 1, 'fill_value')
    dt = arg(args, kw, 2, 'dtype')
    if isinstance(v, Arr) and len(v.shape) == 0:
        v = st.cell(v, ())
    if not isnum(v):
        raise Unsupported('full with %r' % (v,))
    d = dtype_of(dt) if dt is not None else ('f' if isreal(v) else 'i')
    if d == 'i' and isreal(v):
        eng.oblige(st, FALSE, 'a real value is stored into an integer array')
    t = tn(v)
    return st.alloc(sh, lambda i: t, d)


@reg('numpy.full_like')
def _full_like(eng, st, b, args, kw):
    a = args[0]
    t = tn(arg(args, kw, 1, 'fill_value'))
    return st.alloc(a.shape, lambda i: t, dtype_of(arg(args, kw, 2, 'dtype'), st.dtype(a)))


@reg('numpy.eye', 'numpy.identity')
def _eye(eng, st, b, args, kw):
    n = tn(args[0])
    m = arg(args, kw, 1, 'M')
    m = n if m is None or not isnum(m) else tn(m)
    return st.alloc((n, m), lambda i: tm.ite(tm.eq(i[0], i[1]), ONE, ZERO), dtype_of(kw.get('dtype')))


@reg('numpy.arange')
def _arange(eng, st, b, args, kw):
    a = [tn(x) for x in args]
    if any(x.sort == 'R' and x.op != 'num' for x in a):
        raise Unsupported('arange of reals')
    lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
    st_ = a[2] if len(a) > 2 else ONE
    if st_ is not ONE:
        raise Unsupported('arange step')
    n = inorm(tm.sub(hi, lo))
    if n.op != 'num' and not st.ctx.proves(tm.le(ZERO, n)):
        n = tm.tmax(n, ZERO)
    return st.alloc((n,), lambda i: tm.add(lo, i[0]), dtype_of(kw.get('dtype'), 'i'))


@reg('numpy.array')
def _array(eng, st, b, args, kw):
    dt = arg(args, kw, 1, 'dtype')
    d = dtype_of(dt, None) if dt is not None else None
    v = args[0]
    if isinstance(v, IterV):
        raise Unsupported('array of an iterator')
    if isinstance(v, ObjRef):
        raise Unsupported('array of an object')
    if v is None or isinstance(v, str):
        raise Unsupported('array of %r' % (v,))
    if arg(args, kw, 2, 'copy', True) is False and isinstance(v, Arr) and d in (None, st.dtype(v)):
        return v
    r = array_from(eng, st, v, d)
    if d == 'i' and isinstance(v, Arr) and st.dtype(v) == 'f':
        raise Unsupported('truncating conversion')
    return r


@reg('numpy.asarray')
def _asarray(eng, st, b, args, kw):
    dt = arg(args, kw, 1, 'dtype')
    d = dtype_of(dt, None) if dt is not None else None
    v = args[0]
    if isinstance(v, Arr):
        if d is None or d == st.dtype(v):
            return v
        if d == 'i' and st.dtype(v) == 'f':
            raise Unsupported('truncating conversion')
        return npm.copy(st, v, d)
    return array_from(eng, st, v, d)


@reg('ndarray.astype')
def _astype(eng, st, b, args, kw):
    d = dtype_of(arg(args, kw, 0, 'dtype'))
    if d == 'i' and st.dtype(b) == 'f':
        raise Unsupported('truncating conversion')
    if kw.get('copy', True) is False and d == st.dtype(b):
        return b
    return npm.copy(st, b, d)


@reg('numpy.copy', 'ndarray.copy')
def _copy(eng, st, b, args, kw):
    v = b if b is not None else asarr(eng, st, args[0])
    return npm.copy(st, v)


@reg('number.item', 'number.copy', 'number.sum', 'number.max', 'number.min', 'number.mean')
def _numid(eng, st, b, args, kw):
    return b


@reg('ndarray.item')
def _item(eng, st, b, args, kw):
    return st.cell(b, (0,) * len(b.shape))


# numpy: algebra ----------------------------------------------------------------------------------

@reg('ndarray.dot')
def _adot(eng, st, b, args, kw):
    return npm.dot(eng, st, b, args[0], arg(args, kw, 1, 'out'))


@reg('numpy.dot', 'numpy.matmul')
def _npdot(eng, st, b, args, kw):
    return npm.dot(eng, st, args[0], args[1], arg(args, kw, 2, 'out'))


@reg('numpy.inner')
def _inner(eng, st, b, args, kw):
    a, c = args
    if len(a.shape) == 1 and len(c.shape) == 1:
        return npm.dot(eng, st, a, c)
    return npm.dot(eng, st, a, npm.transpose(st, c))


@reg('numpy.vdot')
def _vdot(eng, st, b, args, kw):
    return reduce_sum(eng, st, elementwise(eng, st, tm.mul, list(args[:2])))


@reg('numpy.outer')
def _outer(eng, st, b, args, kw):
    f, g = st.fn_of(args[0]), st.fn_of(args[1])
    return st.alloc((args[0].shape[0], args[1].shape[0]), lambda i: tm.mul(f((i[0],)), g((i[1],))))


@reg('numpy.linalg.multi_dot')
def _multidot(eng, st, b, args, kw):
    l = list(iterate(eng, st, args[0]).concrete)
    r = l[0]
    for x in l[1:]:
        r = npm.dot(eng, st, r, x)
    return r


@reg('ndarray.trace', 'numpy.trace')
def _trace(eng, st, b, args, kw):
    return npm.trace(eng, st, b if b is not None else args[0])


@reg('numpy.einsum')
def _einsum(eng, st, b, args, kw):
    r = npm.einsum(eng, st, args[0], [asarr(eng, st, a) for a in args[1:]])
    return npm.put_out(eng, st, r, kw.get('out')) if isinstance(r, Arr) else r


@reg('numpy.tensordot')
def _tensordot(eng, st, b, args, kw):
    raise Unsupported('tensordot')


def _ba(b, args):
    if b is None:
        return args
    return args.after(b) if isinstance(args, npm.Args) else [b] + list(args)


def _truthy(x):
    return x is True or (isinstance(x, int) and x == 1)


@reg('ndarray.sum', 'numpy.sum')
def _npsum(eng, st, b, args, kw):
    a = _ba(b, args)
    v = asarr(eng, st, a[0])
    if isnum(v):
        return v
    r = reduce_sum(eng, st, v, arg(a, kw, 1, 'axis'), _truthy(kw.get('keepdims', False)))
    if kw.get('out') is not None:
        return npm.put_out(eng, st, r, kw['out'])
    return r


@reg('ndarray.mean', 'numpy.mean')
def _mean(eng, st, b, args, kw):
    a = _ba(b, args)
    v = asarr(eng, st, a[0])
    if isnum(v):
        return v
    ax = arg(a, kw, 1, 'axis')
    r = reduce_sum(eng, st, v, ax, _truthy(kw.get('keepdims', False)))
    if ax is None:
        n = tm.mul(*v.shape)
    else:
        axs = ax if isinstance(ax, tuple) else (ax,)
        n = tm.mul(*[v.shape[npm.norm_axis(x, len(v.shape))] for x in axs])
    return npm.binop(eng, st, 'div', r, n)


def _ext(which):
    def h(eng, st, b, args, kw):
        a = _ba(b, args)
        v = asarr(eng, st, a[0])
        if isnum(v):
            return v
        return extremum(eng, st, v, which, arg(a, kw, 1, 'axis'))
    return h


TABLE['ndarray.max'] = TABLE['numpy.max'] = _ext('max')
TABLE['ndarray.min'] = TABLE['numpy.min'] = _ext('min')


@reg('numpy.fmax', 'numpy.maximum')
def _fmax(eng, st, b, args, kw):
    r = elementwise(eng, st, tm.tmax, list(args[:2]))
    out = arg(args, kw, 2, 'out')
    return npm.put_out(eng, st, r, out) if out is not None else r


@reg('numpy.fmin')
def _fmin(eng, st, b, args, kw):
    r = elementwise(eng, st, tm.tmin, list(args[:2]))
    out = arg(args, kw, 2, 'out')
    return npm.put_out(eng, st, r, out) if out is not None else r


@reg('numpy.clip', 'ndarray.clip')
def _clip(eng, st, b, args, kw):
    a = _ba(b, args)
    lo, hi = arg(a, kw, 1, 'a_min', kw.get('min')), arg(a, kw, 2, 'a_max', kw.get('max'))
    r = a[0]
    if lo is not None:
        r = elementwise(eng, st, tm.tmax, [r, lo])
    if hi is not None:
        r = elementwise(eng, st, tm.tmin, [r, hi])
    out = kw.get('out')
    return npm.put_out(eng, st, r, out) if out is not None else r


@reg('numpy.sqrt', 'math.sqrt')
def _sqrt(eng, st, b, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        t = st.cell(v, IV[:len(v.shape)])
        if not eng.quiet and t.op != 'num':
            vs = [tm.fresh_var('d') for _ in v.shape]
            s = dict(zip(IVN, vs))
            rng = [tm.tand(tm.le(ZERO, x), tm.lt(x, d)) for x, d in zip(vs, v.shape)]
            eng.oblige(st, tm.implies(tm.tand(*rng), tm.le(ZERO, tm.subst(t, s))), 'square root of a non-negative number', 'sqrt')
        r = elementwise(eng, st, tm.sqrt, [v], 'f')
        out = arg(args, kw, 1, 'out')
        return npm.put_out(eng, st, r, out) if out is not None else r
    eng.oblige(st, tm.le(ZERO, tn(v)), 'square root of a non-negative number', 'sqrt')
    return tm.sqrt(tn(v))


@reg('numpy.square')
def _square(eng, st, b, args, kw):
    return npm.binop(eng, st, 'pow', args[0], 2)


def _elem(op):
    def h(eng, st, b, args, kw):
        r = npm.binop(eng, st, op, args[0], args[1])
        out = arg(args, kw, 2, 'out')
        return npm.put_out(eng, st, r, out) if out is not None else r
    return h


for _n, _o in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'), ('true_divide', 'div'), ('floor_divide', 'fdiv'),
               ('mod', 'mod'), ('logical_and', 'and'), ('logical_or', 'or')):
    TABLE['numpy.' + _n] = _elem(_o)
TABLE['numpy.negative'] = lambda eng, st, b, args, kw: npm.unary(eng, st, 'neg', args[0])
TABLE['numpy.logical_not'] = lambda eng, st, b, args, kw: npm.unary(eng, st, 'not', args[0])
for _n in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
    TABLE['numpy.' + _n] = (lambda o: lambda eng, st, b, args, kw: npm.compare(eng, st, o, args[0], args[1]))(
        {'equal': 'eq', 'not_equal': 'ne', 'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge'}[_n])


@reg('numpy.prod', 'numpy.product')
def _prod(eng, st, b, args, kw):
    v = args[0]
    if isinstance(v, tuple) and all(isnum(x) for x in v):
        r = ONE
        for x in v:
            r = tm.mul(r, tn(x))
        return r
    raise Unsupported('product of %r' % (v,))


@reg('numpy.isclose')
def _isclose(eng, st, b, args, kw):
    x, y = args[0], args[1]
    rtol, atol = tn(kw.get('rtol', 1e-5)), tn(kw.get('atol', 1e-8))
    f = lambda p, q: tm.le(tm.tabs(tm.sub(p, q)), tm.add(atol, tm.mul(rtol, tm.tabs(q))))
    if isinstance(x, Arr) or isinstance(y, Arr):
        return elementwise(eng, st, f, [x, y], 'b')
    return npm.b2py(f(tn(x), tn(y)))


@reg('numpy.allclose')
def _allclose(eng, st, b, args, kw):
    r = _isclose(eng, st, b, args, kw)
    return np_anyall(eng, st, r, 'all') if isinstance(r, Arr) else r


@reg('numpy.array_equal')
def _array_equal(eng, st, b, args, kw):
    x, y = asarr(eng, st, args[0]), asarr(eng, st, args[1])
    if len(x.shape) != len(y.shape):
        return False
    sh = tm.tand(*[tm.eq(p, q) for p, q in zip(x.shape, y.shape)])
    if sh is not TRUE:
        raise Unsupported('array_equal of different shapes')
    return np_anyall(eng, st, elementwise(eng, st, tm.eq, [x, y], 'b'), 'all')


@reg('numpy.isnan')
def _isnan(eng, st, b, args, kw):
    v = args[0]
    nan = var('nan', 'R')
    if isinstance(v, Arr):
        return elementwise(eng, st, lambda x: tm.boolc(x is nan), [v], 'b')
    return v is nan


@reg('numpy.isfinite')
def _isfinite(eng, st, b, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return elementwise(eng, st, lambda x: TRUE, [v], 'b')
    return True


@reg('numpy.where')
def _where(eng, st, b, args, kw):
    if len(args) != 3:
        raise Unsupported('where')
    c, x, y = args
    if isinstance(c, Arr):
        dts = [st.dtype(v) if isinstance(v, Arr) else ('f' if isreal(v) else 'i') for v in (x, y)]
        return elementwise(eng, st, lambda p, q, r: tm.ite(p if p.sort == 'B' else tm.ne(p, ZERO), num_of(q, 0), num_of(r, 0)),
                           [c, x, y], 'b_' if False else None) if st.dtype(c) != 'b' else \
            where_b(eng, st, c, x, y, 'f' if 'f' in dts else 'i')
    raise Unsupported('where')


def where_b(eng, st, c, x, y, dt):
    arrs = [a for a in (c, x, y) if isinstance(a, Arr)]
    shape = npm.bshape(eng, st, [a.shape for a in arrs])
    acc = [npm.baccess(st, a, shape) for a in (c, x, y)]
    return st.alloc(shape, lambda i: tm.ite(acc[0](i), num_of(acc[1](i), 0), num_of(acc[2](i), 0)), dt)


@reg('numpy.linalg.norm')
def _norm(eng, st, b, args, kw):
    v = args[0]
    o = arg(args, kw, 1, 'ord')
    ax = arg(args, kw, 2, 'axis')
    if o is not None and not (o == 'fro' or (isinstance(o, int) and o == 2 and (ax is not None or len(v.shape) == 1))):
        raise Unsupported('norm order')
    r = reduce_sum(eng, st, v, ax, _truthy(kw.get('keepdims', False)), f=lambda x: tm.power(x, 2))
    if isinstance(r, Arr):
        return elementwise(eng, st, tm.sqrt, [r], 'f')
    return tm.sqrt(r)


@reg('numpy.linalg.inv')
def _inv(eng, st, b, args, kw):
    v = args[0]
    need_dim(eng, st, v.shape[0], v.shape[1], 'inv')
    st.event('inv')
    return st.alloc_fn(v.shape, tm.fresh_name('inv'), 'f')


@reg('numpy.linalg.lstsq')
def _lstsq(eng, st, b, args, kw):
    """Contract: the result minimises ||A x - B||_F, i.e. A^T (A x - B) = 0."""
    A, B = args[0], args[1]
    need_dim(eng, st, A.shape[0], B.shape[0], 'lstsq')
    nm = tm.fresh_name('lstsq')
    fa, fb = st.fn_of(A), st.fn_of(B)
    p = A.shape[1]
    if len(B.shape) == 2:
        x = st.alloc_fn((p, B.shape[1]), nm, 'f')
    else:
        x = st.alloc_fn((p,), nm, 'f')
    F = Fn.table[nm]
    F.lstsq = (A.shape, fa, B.shape, fb)
    st.event('lstsq', nm)
    return (x, Opaque('lstsq'), Opaque('lstsq'), Opaque('lstsq'))


# numpy: shapes -----------------------------------------------------------------------------------

@reg('numpy.diag', 'numpy.diagonal', 'ndarray.diagonal')
def _diag(eng, st, b, args, kw):
    v = b if b is not None else asarr(eng, st, args[0])
    if len(v.shape) == 2:
        m = v.shape[0] if dim_eq(eng, st, *v.shape) else tm.tmin(*v.shape)
        f = st.fn_of(v)
        # a read-only view in numpy; modelled as a copy
        return st.alloc((m,), lambda i: f((i[0], i[0])), st.dtype(v))
    f = st.fn_of(v)
    n = v.shape[0]
    return st.alloc((n, n), lambda i: tm.ite(tm.eq(i[0], i[1]), f((i[0],)), ZERO), st.dtype(v))


@reg('numpy.transpose', 'ndarray.transpose')
def _transpose(eng, st, b, args, kw):
    a = _ba(b, args)
    v = a[0]
    p = a[1:] if len(a) > 2 else (arg(a, kw, 1, 'axes') or None)
    if p is not None:
        p = tuple(cint(x) for x in (p if not isinstance(p, ListRef) else st.lists[p.id].items))
    return npm.transpose(st, v, p)


@reg('ndarray.swapaxes', 'numpy.swapaxes')
def _swapaxes(eng, st, b, args, kw):
    a = _ba(b, args)
    v, i, j = a[0], npm.norm_axis(a[1], len(a[0].shape)), npm.norm_axis(a[2], len(a[0].shape))
    p = list(range(len(v.shape)))
    p[i], p[j] = p[j], p[i]
    return npm.transpose(st, v, tuple(p))


@reg('numpy.reshape', 'ndarray.reshape')
def _reshape(eng, st, b, args, kw):
    a = _ba(b, args)
    sh = a[1:] if len(a) > 2 and b is not None else [arg(a, kw, 1, 'shape', kw.get('newshape'))]
    if len(sh) == 1:
        sh = sh[0]
        sh = st.lists[sh.id].items if isinstance(sh, ListRef) else (sh if isinstance(sh, tuple) else (sh,))
    v = asarr(eng, st, a[0])
    order = kw.get('order', 'C')
    if order == 'F':
        r = np_reshape(eng, st, npm.copy(st, npm.transpose(st, v)), tuple(sh)[::-1])
        return r if isinstance(r, RaiseV) else npm.copy(st, npm.transpose(st, r))
    if order != 'C':
        raise Unsupported('reshape in order %r' % (order,))
    return np_reshape(eng, st, v, tuple(sh))


@reg('ndarray.flatten')
def _flatten(eng, st, b, args, kw):
    return _ravel(eng, st, b, args, kw, True)


@reg('ndarray.ravel', 'numpy.ravel')
def _ravel(eng, st, b, args, kw, flatten=False):
    v = b if b is not None else asarr(eng, st, args[0])
    order = arg(args, kw, 0 if b is not None else 1, 'order', 'C')
    if order == 'F':
        v = npm.transpose(st, v)
    elif order != 'C':
        raise Unsupported('ravel in order %r' % (order,))
    if flatten or order == 'F':
        v = npm.copy(st, v)
    return v if len(v.shape) == 1 else np_reshape(eng, st, v, (-1,))


@reg('ndarray.squeeze', 'numpy.squeeze')
def _squeeze(eng, st, b, args, kw):
    v = b if b is not None else args[0]
    return np_reshape(eng, st, v, tuple(d for d in v.shape if d is not ONE))


@reg('numpy.expand_dims')
def _expand_dims(eng, st, b, args, kw):
    v = asarr(eng, st, args[0])
    ax = cint(arg(args, kw, 1, 'axis'))
    nd = len(v.shape) + 1
    ax = ax + nd if ax < 0 else ax
    idx = [slice(None)] * len(v.shape)
    idx.insert(ax, None)
    return npm.arr_getitem(eng, st, v, tuple(idx))


@reg('numpy.atleast_2d')
def _al2(eng, st, b, args, kw):
    v = asarr(eng, st, args[0])
    if len(v.shape) >= 2:
        return v
    return npm.arr_getitem(eng, st, v, (None, slice(None)))


@reg('numpy.broadcast_to')
def _broadcast_to(eng, st, b, args, kw):
    v = asarr(eng, st, args[0])
    sh = _shape_arg(st, args[1])
    bs = npm.bshape(eng, st, [sh, v.shape if isinstance(v, Arr) else ()])
    for x, y in zip(sh, bs):
        need_dim(eng, st, x, y, 'broadcast_to')
    acc = npm.baccess(st, v, sh)
    return st.alloc(sh, acc, st.dtype(v) if isinstance(v, Arr) else 'f')


@reg('numpy.tile')
def _tile(eng, st, b, args, kw):
    v = asarr(eng, st, args[0])
    reps = args[1]
    reps = tuple(tn(x) for x in reps) if isinstance(reps, tuple) else (tn(reps),)
    sh = v.shape
    f = st.fn_of(v)
    nd = max(len(sh), len(reps))
    lead = nd - len(sh)
    sh2 = (ONE,) * lead + tuple(sh)
    reps = (ONE,) * (nd - len(reps)) + reps
    out = tuple(inorm(tm.mul(r, d)) for r, d in zip(reps, sh2))

    def cell(i):
        j = []
        for x, r, d in list(zip(i, reps, sh2))[lead:]:
            if r is ONE:
                j.append(x)
            elif d is ONE:
                j.append(ZERO)
            else:
                j.append(tm.mod(x, d))
        return f(tuple(j))
    return st.alloc(out, cell, st.dtype(v))


@reg('numpy.repeat', 'ndarray.repeat')
def _repeat(eng, st, b, args, kw):
    a = _ba(b, args)
    v = asarr(eng, st, a[0])
    r = tn(arg(a, kw, 1, 'repeats'))
    ax = arg(a, kw, 2, 'axis')
    if ax is None:
        if len(v.shape) != 1:
            v = np_reshape(eng, st, v, (-1,))
        ax = 0
    ax = npm.norm_axis(ax, len(v.shape))
    f = st.fn_of(v)
    sh = list(v.shape)
    one = sh[ax] is ONE
    sh[ax] = inorm(tm.mul(sh[ax], r))
    return st.alloc(tuple(sh), lambda i: f(tuple((ZERO if one else tm.fdiv(x, r)) if k == ax else x for k, x in enumerate(i))), st.dtype(v))


def _parts(eng, st, v):
    it = iterate(eng, st, v)
    if it.concrete is None:
        return None
    return list(it.concrete)


@reg('numpy.concatenate')
def _concatenate(eng, st, b, args, kw):
    ax = arg(args, kw, 1, 'axis', 0)
    p = _parts(eng, st, args[0])
    if p is None:
        # symbolic number of equally long 1-d blocks
        L = st.lists[args[0].id]
        a = npm.array_from_sseq(eng, st, L, None)
        if len(a.shape) == 2 and cint(ax) == 0:
            return np_reshape(eng, st, a, (-1,))
        raise Unsupported('concatenate of a symbolic sequence')
    return concat(eng, st, p, ax)


@reg('numpy.hstack')
def _hstack(eng, st, b, args, kw):
    p = [asarr(eng, st, x) for x in _parts(eng, st, args[0])]
    return concat(eng, st, p, 0 if len(p[0].shape) == 1 else 1)


@reg('numpy.vstack')
def _vstack(eng, st, b, args, kw):
    p = [asarr(eng, st, x) for x in _parts(eng, st, args[0])]
    p = [npm.arr_getitem(eng, st, x, (None, slice(None))) if len(x.shape) == 1 else x for x in p]
    return concat(eng, st, p, 0)


@reg('numpy.column_stack')
def _cstack(eng, st, b, args, kw):
    p = [asarr(eng, st, x) for x in _parts(eng, st, args[0])]
    p = [npm.arr_getitem(eng, st, x, (slice(None), None)) if len(x.shape) == 1 else x for x in p]
    return concat(eng, st, p, 1)


@reg('numpy.append')
def _npappend(eng, st, b, args, kw):
    return concat(eng, st, [args[0], args[1] if isinstance(args[1], Arr) else array_from(eng, st, args[1], None)], 0)


@reg('numpy.stack')
def _stack(eng, st, b, args, kw):
    if cint(arg(args, kw, 1, 'axis', 0)) != 0:
        raise Unsupported('stack axis')
    return array_from(eng, st, args[0], None)


@reg('numpy.roll')
def _roll(eng, st, b, args, kw):
    v = args[0]
    s = cint(arg(args, kw, 1, 'shift'))
    ax = arg(args, kw, 2, 'axis')
    if s is None or abs(s) != 1 or (ax is None and len(v.shape) != 1):
        raise Unsupported('roll')
    ax = npm.norm_axis(ax if ax is not None else 0, len(v.shape))
    f = st.fn_of(v)
    n = v.shape[ax]

    def src(x):
        if s == -1:
            return tm.ite(tm.lt(x, tm.sub(n, ONE)), tm.add(x, ONE), ZERO)
        return tm.ite(tm.eq(x, ZERO), tm.sub(n, ONE), tm.sub(x, ONE))

    def cell(i):
        if s == -1:
            return tm.ite(tm.lt(i[ax], tm.sub(n, ONE)), f(tuple(tm.add(x, ONE) if k == ax else x for k, x in enumerate(i))),
                          f(tuple(ZERO if k == ax else x for k, x in enumerate(i))))
        return tm.ite(tm.eq(i[ax], ZERO), f(tuple(tm.sub(n, ONE) if k == ax else x for k, x in enumerate(i))),
                      f(tuple(tm.sub(x, ONE) if k == ax else x for k, x in enumerate(i))))
    return st.alloc(v.shape, cell, st.dtype(v))


@reg('ndarray.fill')
def _fill(eng, st, b, args, kw):
    t = tn(args[0])
    st.write(b, lambda i: t)


@reg('numpy.copyto')
def _copyto(eng, st, b, args, kw):
    npm.setitem(eng, st, args[0], slice(None), args[1])


@reg('numpy.fill_diagonal')
def _filldiag(eng, st, b, args, kw):
    f = st.fn_of(args[0])
    t = tn(args[1])
    st.write(args[0], lambda i: tm.ite(tm.eq(i[0], i[1]), t, f(i)))


@reg('numpy.sort')
def _sort(eng, st, b, args, kw):
    """Contract: an ordered rearrangement; same multiset of values."""
    v = args[0]
    if len(v.shape) != 1:
        raise Unsupported('sort of a matrix')
    n = v.shape[0]
    body = st.cell(v, (IV[0],))
    key = ('sort', body, n)
    if key not in eng.maxsyms:
        nm, pm = tm.fresh_name('sorted'), tm.fresh_name('perm')
        S, P = tm.fn(nm, 1, 'R', (n,)), tm.fn(pm, 1, 'I', (n,))
        S.perm_of = (body, n, pm)
        P.facts.append(lambda i: tm.implies(tm.tand(tm.le(ZERO, i), tm.lt(i, n)),
                                            tm.tand(tm.le(ZERO, tm.app(pm, i)), tm.lt(tm.app(pm, i), n))))
        S.facts.append(lambda i: tm.implies(tm.tand(tm.le(ZERO, i), tm.lt(i, n)),
                                            tm.eq(tm.app(nm, i), tm.subst(body, {IVN[0]: tm.app(pm, i)}))))
        eng.maxsyms[key] = nm
    nm = eng.maxsyms[key]
    S = Fn.table[nm]
    p, q = tm.fresh_var('q'), tm.fresh_var('q')
    st.assume(tm.forall([p, q], tm.implies(tm.tand(tm.le(ZERO, p), tm.le(p, q), tm.lt(q, n)),
                                           tm.le(tm.app(nm, p), tm.app(nm, q)))))
    return st.alloc((n,), lambda i: tm.app(nm, i[0]), st.dtype(v))


@reg('numpy.ix_')
def _ix(eng, st, b, args, kw):
    raise Unsupported('ix_')


@reg('numpy.ndim')
def _ndim(eng, st, b, args, kw):
    return len(args[0].shape)


@reg('numpy.shape')
def _shape(eng, st, b, args, kw):
    return tuple(args[0].shape)


@reg('numpy.size')
def _size(eng, st, b, args, kw):
    return tm.mul(*args[0].shape)


# external objects ------------------------------------------------------------------------------------

EXT = {}


def obj_attr(eng, st, v, name):
    cls, d = st.objs[v.id]
    if cls == 'Rng' or cls in EXT:
        return Builtin(cls + '.' + name, bound=v)
    if cls in ('KMeans', 'SVC', 'Clusterer', 'Classifier'):
        if name.endswith('_') and not name.startswith('_'):
            return RaiseV(ExcV('AttributeError'))
        return Builtin('est.' + name, bound=v)
    if cls == 'csr':
        if name == 'T':
            return RaiseV(ExcV('Unsupported'))
        return Builtin('csr.' + name, bound=v)
    if cls == 'cvx':
        if name == 'value' and d['kind'] == 'var':
            return cvx_value(eng, st, v)
        return Builtin('cvx.' + name, bound=v)
    if cls == 'cvxproblem':
        if name == 'status':
            return d.get('status', None)
        return Builtin('cvxproblem.' + name, bound=v)
    raise Unsupported('attribute %s of %s' % (name, cls))


def size_shape(st, size):
    if size is None:
        return None
    return tuple(inorm(x) for x in shape_of(st, size))


def rng_array(eng, st, r, kind, sh, lo=None, hi=None, dtype='f', strict=True):
    draw(eng, st, r, kind)
    nm = tm.fresh_name(kind)
    if sh is None:
        v = var(nm, 'R' if dtype == 'f' else 'I')
        if lo is not None:
            st.assume(tm.tand(tm.lt(lo, v) if strict else tm.le(lo, v), tm.lt(v, hi)))
        return v
    check_shape(eng, st, sh)
    a = st.alloc_fn(sh, nm, dtype)
    if lo is not None:
        Fn.table[nm].facts.append(lambda *i: tm.tand(tm.lt(lo, tm.app(nm, *i)) if strict else tm.le(lo, tm.app(nm, *i)),
                                                     tm.lt(tm.app(nm, *i), hi)))
    d = st.objs[r.id][1]
    Fn.table[nm].rng = (d.get('which'), kind)
    return a


@reg('Rng.uniform', 'Rng.random_sample', 'Rng.random', 'Rng.rand')
def _uniform(eng, st, b, args, kw):
    return _rng_call(eng, st, b, 'uniform', args, kw)


def _mk_rng(kind):
    def h(eng, st, b, args, kw):
        if kind == 'uniform':
            lo, hi = tn(arg(args, kw, 0, 'low', 0)), tn(arg(args, kw, 1, 'high', 1))
            # measure-zero value low excluded (trusted contract)
            return rng_array(eng, st, b, kind, size_shape(st, arg(args, kw, 2, 'size')), lo, hi)
        if kind in ('random_sample', 'random'):
            return rng_array(eng, st, b, 'uniform', size_shape(st, arg(args, kw, 0, 'size')), ZERO, ONE)
        if kind == 'rand':
            return rng_array(eng, st, b, 'uniform', tuple(tn(x) for x in args) or None, ZERO, ONE)
        if kind == 'randn':
            return rng_array(eng, st, b, 'randn', tuple(tn(x) for x in args) or None)
        if kind in ('normal', 'standard_normal'):
            return rng_array(eng, st, b, kind, size_shape(st, arg(args, kw, 2 if kind == 'normal' else 0, 'size')))
        if kind == 'randint':
            lo, hi = arg(args, kw, 0, 'low'), arg(args, kw, 1, 'high')
            lo, hi = (ZERO, tn(lo)) if hi is None else (tn(lo), tn(hi))
            eng.oblige(st, tm.lt(lo, hi), 'randint range is not empty')
            return rng_array(eng, st, b, kind, size_shape(st, arg(args, kw, 2, 'size')), lo, hi, 'i', False)
        if kind == 'choice':
            n = args[0]
            k = arg(args, kw, 1, 'size')
            rep = arg(args, kw, 2, 'replace', True)
            if not (isinstance(n, (int, T))) or kw.get('p') is not None:
                raise Unsupported('choice')
            n = tn(n)
            sh = size_shape(st, k)
            if rep is False and sh is not None:
                eng.oblige(st, tm.le(sh[0], n), 'sample without replacement fits')
            a = rng_array(eng, st, b, kind, sh, ZERO, n, 'i', False)
            if rep is False and isinstance(a, Arr):
                nm = st.heap[a.buf].note
                p, q = tm.fresh_var('q'), tm.fresh_var('q')
                kk = sh[0]
                st.assume(tm.forall([p, q], tm.implies(tm.tand(tm.le(ZERO, p), tm.lt(p, q), tm.lt(q, kk)),
                                                       tm.ne(tm.app(nm, p), tm.app(nm, q)))))
            return a
        if kind == 'permutation':
            n = tn(args[0])
            a = rng_array(eng, st, b, kind, (n,), ZERO, n, 'i', False)
            nm = st.heap[a.buf].note
            p, q = tm.fresh_var('q'), tm.fresh_var('q')
            st.assume(tm.forall([p, q], tm.implies(tm.tand(tm.le(ZERO, p), tm.lt(p, q), tm.lt(q, n)),
                                                   tm.ne(tm.app(nm, p), tm.app(nm, q)))))
            return a
        raise Unsupported('rng.%s' % kind)
    return h


for _k in ('uniform', 'random_sample', 'random', 'rand', 'randn', 'normal', 'standard_normal', 'randint', 'choice', 'permutation'):
    TABLE['Rng.' + _k] = _mk_rng(_k)

    def _glob(k):
        def h(eng, st, b, args, kw):
            return TABLE['Rng.' + k](eng, st, global_rng(eng, st), args, kw)
        return h
    TABLE['numpy.random.' + _k] = _glob(_k)


@reg('numpy.random.seed', 'Rng.seed')
def _seed(eng, st, b, args, kw):
    st.event('draw', 'global', 'seed')


@reg('numpy.random.RandomState', 'numpy.random.default_rng')
def _rs(eng, st, b, args, kw):
    if args and args[0] is not None:
        return st.newobj('Rng', {'which': ('seed', args[0])})
    return st.newobj('Rng', {'which': 'os'})


# scikit-learn estimators -------------------------------------------------------------------------------

@reg('sklearn.cluster.KMeans')
def _kmeans(eng, st, b, args, kw):
    kw = dict(kw)
    n = kw.pop('n_clusters', args[0] if args else 8)
    st.event('KMeans', n, tuple(sorted(kw)))
    return st.newobj('KMeans', {'n_clusters': n, 'kw': kw})


@reg('sklearn.svm.SVC')
def _svc(eng, st, b, args, kw):
    return st.newobj('SVC', {'kw': kw})


def mk_labels(eng, st, name, n, k):
    nm = tm.fresh_name(name)
    a = st.alloc_fn((n,), nm, 'i')
    if k is not None:
        Fn.table[nm].facts.append(lambda i: tm.tand(tm.le(ZERO, tm.app(nm, i)), tm.lt(tm.app(nm, i), k)))
    return a


@reg('est.fit')
def _efit(eng, st, b, args, kw):
    cls, d = st.objs[b.id]
    X = args[0]
    y = arg(args, kw, 1, 'y')
    if cls == 'KMeans':
        k = d['n_clusters']
        if k is None:
            return RaiseV(ExcV('InvalidParameterError'))
        k = tn(k)
        sw = arg(args, kw, 2, 'sample_weight')
        st.event('kmeans.fit', b, X, sw)
        nm = tm.fresh_name('centers')
        st.setattr(b, 'cluster_centers_', st.alloc_fn((k, X.shape[1]), nm, 'f'))
        st.setattr(b, 'labels_', mk_labels(eng, st, 'labels', X.shape[0], k))
        st.setattr(b, 'inertia_', tm.fresh_var('inertia', 'R'))
        st.setattr(b, 'n_iter_', tm.fresh_var('kmniter', 'I'))
        st.setattr(b, 'fitted_on', X)
        return b
    st.event('fit', cls, b, X, y)
    st.setattr(b, 'fitted_on', (X, y))
    st.setattr(b, 'gen', tm.fresh_name('predict'))
    return b


@reg('est.fit_predict')
def _efp(eng, st, b, args, kw):
    cls, d = st.objs[b.id]
    if cls == 'KMeans':
        r = _efit(eng, st, b, args, kw)
        if isinstance(r, RaiseV):
            return r
        return st.getattr(b, 'labels_')
    st.event('fit_predict', cls, b, args[0])
    return mk_labels(eng, st, 'labels', args[0].shape[0], d.get('n_labels'))


@reg('est.predict')
def _epred(eng, st, b, args, kw):
    cls, d = st.objs[b.id]
    if cls == 'KMeans':
        if len(args) > 1 or kw.keys() - {'X'}:
            return TypeErr()
        X = args[0]
        k = d['n_clusters']
        st.event('kmeans.predict', b, X)
        a = mk_labels(eng, st, 'klabel', X.shape[0], tn(k))
        return a
    X = args[0]
    st.event('predict', cls, b, X)
    if 'fitted_on' not in d:
        return RaiseV(ExcV('NotFittedError'))
    # contract: labels among those it was fitted on
    y = d['fitted_on'][1]
    nm = tm.fresh_name('predicted')
    a = st.alloc_fn((X.shape[0],), nm, 'i')
    if isinstance(y, Arr):
        fy = st.fn_of(y)
        wn = tm.fresh_name('src')
        tm.fn(wn, 1, 'I')
        Fn.table[nm].facts.append(lambda i: tm.tand(tm.le(ZERO, tm.app(wn, i)), tm.lt(tm.app(wn, i), y.shape[0]),
                                                    tm.eq(tm.app(nm, i), fy((tm.app(wn, i),)))))
    Fn.table[nm].predict = (b.id, X)
    return a


@reg('est.transform', 'est.fit_transform')
def _etr(eng, st, b, args, kw):
    st.event('est.transform', b, args[0])
    return Opaque('est.transform', (b, args[0]))


# sparse constraint matrices and linear programs -----------------------------------------------------------

@reg('scipy.sparse.csr_matrix')
def _csr(eng, st, b, args, kw):
    a = args[0]
    sh = arg(args, kw, 1, 'shape')
    if not (isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple)):
        raise Unsupported('csr_matrix arguments')
    data, (r, c) = a
    data, r, c = asarr(eng, st, data), asarr(eng, st, r), asarr(eng, st, c)
    need_dim(eng, st, data.shape[0], r.shape[0], 'csr_matrix')
    need_dim(eng, st, data.shape[0], c.shape[0], 'csr_matrix')
    sh = tuple(tn(x) for x in sh)
    fr, fc = st.fn_of(r), st.fn_of(c)
    w = tm.fresh_var('w')
    rng = tm.tand(tm.le(ZERO, w), tm.lt(w, data.shape[0]))
    eng.oblige(st, tm.implies(rng, tm.tand(tm.le(ZERO, fr((w,))), tm.lt(fr((w,)), sh[0]))), 'sparse row index in bounds', 'bounds')
    eng.oblige(st, tm.implies(rng, tm.tand(tm.le(ZERO, fc((w,))), tm.lt(fc((w,)), sh[1]))), 'sparse column index in bounds', 'bounds')
    return st.newobj('csr', {'data': data, 'rows': r, 'cols': c, 'shape': sh})


def csr_apply(st, m, x):
    """(A x)_i with duplicates summed; x: T index -> T."""
    d = st.objs[m.id][1]
    fd, fr, fc = st.fn_of(d['data']), st.fn_of(d['rows']), st.fn_of(d['cols'])
    n = d['data'].shape[0]
    return lambda i: tm.mksum(ZERO, n, lambda e: tm.ite(tm.eq(fr((e,)), i), tm.mul(fd((e,)), x(fc((e,)))), ZERO))


@reg('csr.dot')
def _csrdot(eng, st, b, args, kw):
    return obj_binop(eng, st, 'matmul', b, args[0])


@reg('cvxpy.Variable')
def _cvar(eng, st, b, args, kw):
    n = tn(arg(args, kw, 0, 'shape', 1))
    return st.newobj('cvx', {'kind': 'var', 'n': n, 'kw': kw})


def obj_binop(eng, st, op, a, b):
    ca = st.objs[a.id][0] if isinstance(a, ObjRef) else None
    cb = st.objs[b.id][0] if isinstance(b, ObjRef) else None
    if op == 'matmul' or (op == 'mul' and ca == 'csr'):
        if ca == 'csr' and cb == 'cvx':
            need_dim(eng, st, st.objs[a.id][1]['shape'][1], st.objs[b.id][1]['n'], 'constraint matrix product')
            return st.newobj('cvx', {'kind': 'prod', 'm': a, 'x': b})
        if isinstance(a, Arr) and cb == 'cvx':
            if len(a.shape) == 1:
                need_dim(eng, st, a.shape[0], st.objs[b.id][1]['n'], 'objective product')
                return st.newobj('cvx', {'kind': 'inner', 'c': a, 'cf': st.fn_of(a), 'x': b})
        if ca == 'cvx' and isinstance(b, Arr) and len(b.shape) == 1:
            need_dim(eng, st, b.shape[0], st.objs[a.id][1]['n'], 'objective product')
            return st.newobj('cvx', {'kind': 'inner', 'c': b, 'cf': st.fn_of(b), 'x': a})
    raise Unsupported('operator %s on %s, %s' % (op, ca, cb))


def obj_unary(eng, st, op, a):
    raise Unsupported('unary on an external object')


def obj_compare(eng, st, op, a, b):
    ca = st.objs[a.id][0] if isinstance(a, ObjRef) else None
    cb = st.objs[b.id][0] if isinstance(b, ObjRef) else None
    if ca == 'cvx':
        return st.newobj('cvx', {'kind': 'con', 'op': op, 'lhs': a, 'rhs': b, 'rhsf': st.fn_of(b) if isinstance(b, Arr) else None})
    if cb == 'cvx':
        flip = {'le': 'ge', 'ge': 'le', 'eq': 'eq', 'lt': 'gt', 'gt': 'lt'}
        return obj_compare(eng, st, flip[op], b, a)
    if op in ('eq', 'ne'):
        r = a is b or same(a, b)
        return r if op == 'eq' else not r
    raise Unsupported('comparison of external objects')


def obj_getitem(eng, st, v, idx):
    raise Unsupported('subscript of an external object')


@reg('cvxpy.Minimize', 'cvxpy.Maximize')
def _min(eng, st, b, args, kw):
    raise Unsupported('objective')


TABLE['cvxpy.Minimize'] = lambda eng, st, b, args, kw: st.newobj('cvx', {'kind': 'min', 'e': args[0]})
TABLE['cvxpy.Maximize'] = lambda eng, st, b, args, kw: st.newobj('cvx', {'kind': 'max', 'e': args[0]})
TABLE['cvxpy.sum'] = lambda eng, st, b, args, kw: st.newobj('cvx', {'kind': 'sumexpr', 'e': args[0]})


@reg('cvxpy.Problem')
def _problem(eng, st, b, args, kw):
    cons = arg(args, kw, 1, 'constraints')
    cons = list(st.lists[cons.id].items) if isinstance(cons, ListRef) else []
    return st.newobj('cvxproblem', {'objective': arg(args, kw, 0, 'objective'), 'cons': cons, 'status': None})


@reg('cvxproblem.solve')
def _solve(eng, st, b, args, kw):
    st.setattr(b, 'status', eng.hooks.get('lp_status') or Opaque('status'))
    st.event('solve', b, tuple(sorted(kw)))
    return tm.fresh_var('lpvalue', 'R')


@reg('cvxproblem.variables')
def _variables(eng, st, b, args, kw):
    d = st.objs[b.id][1]

    def find(e):
        x = st.objs[e.id][1]
        if x['kind'] == 'var':
            return e
        for k in ('e', 'x', 'lhs'):
            if k in x and isinstance(x[k], ObjRef):
                r = find(x[k])
                if r is not None:
                    return r
        return None
    return st.newlist([find(d['objective'])])


def cvx_value(eng, st, v):
    d = st.objs[v.id][1]
    if eng.hooks.get('lp_status') in ('infeasible', 'unbounded'):
        return None
    if 'sol' not in d:
        h = eng.hooks.get('lp_value')
        st.setattr(v, 'sol', h(eng, st, d['n']) if h else st.alloc_fn((d['n'],), tm.fresh_name('lpsol'), 'f'))
    return st.objs[v.id][1]['sol']
