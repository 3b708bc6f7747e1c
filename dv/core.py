"""Values and state of the symbolic executor."""
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, var, fv
from .smt import Ctx


class Unsupported(Exception):
    pass


IV = [var('_i%d' % k) for k in range(6)]     # canonical index variables of buffers
IVN = [v.val for v in IV]


class Buf:
    """Immutable snapshot of an array buffer: body is a term over _i0.._ik."""
    __slots__ = ('shape', 'body', 'dtype', 'origin', 'note')

    def __init__(self, shape, body, dtype='f', origin='fresh', note=None):
        self.shape = shape
        self.body = body
        self.dtype = dtype
        self.origin = origin
        self.note = note

    def with_body(self, body):
        return Buf(self.shape, body, self.dtype, self.origin, self.note)


class Arr:
    """A view of a buffer."""
    __slots__ = ('buf', 'shape', 'fwd', 'inv', 'key')

    def __init__(self, buf, shape, fwd=None, inv=None, key=()):
        self.buf = buf
        self.shape = tuple(shape)
        self.fwd = fwd          # view index tuple -> buffer index tuple
        self.inv = inv          # buffer index tuple -> (cond, view index tuple)
        self.key = key

    @property
    def full(self):
        return self.fwd is None

    def __repr__(self):
        return 'Arr(%d,%s%s)' % (self.buf, list(self.shape), '' if self.full else ',view')


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return type(o) is type(self) and o.id == self.id

    def __hash__(self):
        return hash((type(self).__name__, self.id))

    def __repr__(self):
        return '%s#%d' % (type(self).__name__, self.id)


class ObjRef(Ref):
    __slots__ = ()


class Elem(ObjRef):
    """Object number idx of a family: one object per index, its attributes held in arrays with a
    leading index (Cells)."""
    __slots__ = ('idx',)

    def __init__(self, id, idx):
        self.id, self.idx = id, idx

    def __eq__(self, o):
        return type(o) is Elem and o.id == self.id and o.idx is self.idx

    def __hash__(self):
        return hash((self.id, self.idx.id))


class Cells:
    """Attribute of a family of objects: a buffer whose first index is the object; shape (over
    _i0, the object) of the array each object holds, None for a scalar."""
    __slots__ = ('buf', 'shape')

    def __init__(self, buf, shape):
        self.buf, self.shape = buf, shape

    def view(self, idx):
        sh = () if self.shape is None else tuple(tm.subst(d, {IVN[0]: idx}) for d in self.shape)
        return Arr(self.buf, sh, lambda ix: (idx,) + tuple(ix), lambda b: (tm.eq(b[0], idx), tuple(b[1:])), key=(('elem', idx.id),))


class ListRef(Ref):
    __slots__ = ()


class DictRef(Ref):
    __slots__ = ()


class SSeq:
    """Symbolic sequence: length and element value as a function of var _i0.

    elem is a value template over IV[0] (a T, a tuple/list template, ...)."""
    __slots__ = ('n', 'elem', 'maxlen', 'kind')

    def __init__(self, n, elem, maxlen=None, kind='list'):
        self.n = num(n)
        self.elem = elem
        self.maxlen = maxlen
        self.kind = kind

    def at(self, i):
        return vsubst(self.elem, {IVN[0]: num(i)})


class CList:
    """Concrete-length python list/deque contents."""
    __slots__ = ('items', 'maxlen', 'kind')

    def __init__(self, items, maxlen=None, kind='list'):
        self.items = list(items)
        self.maxlen = maxlen
        self.kind = kind


class Opaque:
    """A value we know nothing about (strings, clocks, ...)."""
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what = what
        self.data = data

    def __repr__(self):
        return 'Opaque(%s)' % (self.what,)


class Module:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Module(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Module) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Builtin:
    def __init__(self, name, fn=None, bound=None):
        self.name = name
        self.fn = fn
        self.bound = bound

    def __repr__(self):
        return 'Builtin(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name and same(o.bound, self.bound)

    def __hash__(self):
        return hash(self.name)


class ClassV:
    def __init__(self, name, node, module, bases):
        self.name = name
        self.node = node
        self.module = module
        self.bases = bases
        self.methods = {}

    def __repr__(self):
        return 'class %s' % self.name

    def lookup(self, name):
        if name in self.methods:
            return self.methods[name]
        for b in self.bases:
            if isinstance(b, ClassV):
                m = b.lookup(name)
                if m is not None:
                    return m
        return None

    def subclass_of(self, other):
        if self is other:
            return True
        return any(isinstance(b, ClassV) and b.subclass_of(other) for b in self.bases)


class FuncV:
    """User function: AST node, module, closure environment id and bound self."""
    def __init__(self, node, module, qual, envid=None, owner=None, bound=None, defaults=None, kwdefaults=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.envid = envid
        self.owner = owner
        self.bound = bound
        self.defaults = defaults
        self.kwdefaults = kwdefaults

    def bind(self, obj):
        return FuncV(self.node, self.module, self.qual, self.envid, self.owner, obj, self.defaults, self.kwdefaults)

    def __repr__(self):
        return 'func %s' % self.qual


class Poison:
    def __repr__(self):
        return 'Poison'


POISON = Poison()


class ExcV:
    """An exception instance."""
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def __repr__(self):
        return 'ExcV(%s)' % self.cls


class RaiseV:
    """Result of an expression that raised."""
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return 'RaiseV(%r)' % (self.exc,)


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterV:
    """count and item function (k -> value); mutable reading allowed via state."""
    def __init__(self, n, item, concrete=None):
        self.n = n
        self.item = item          # item(st, k) -> value
        self.concrete = concrete  # list of values, or None


def vsubst(v, s):
    """Substitute variables in a value."""
    if isinstance(v, T):
        return tm.subst(v, s)
    if isinstance(v, tuple):
        return tuple(vsubst(x, s) for x in v)
    if isinstance(v, CList):
        return CList([vsubst(x, s) for x in v.items], v.maxlen, v.kind)
    if isinstance(v, SSeq):
        s2 = dict(s)
        s2.pop(IVN[0], None)
        return SSeq(tm.subst(v.n, s), vsubst(v.elem, s2), v.maxlen, v.kind)
    if isinstance(v, Elem):
        return Elem(v.id, tm.subst(v.idx, s))
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            a = num(a)
        if isinstance(b, (int, float)) and not isinstance(b, bool):
            b = num(b)
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, Arr):
        return a.buf == b.buf and a.shape == b.shape and a.key == b.key
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, CList):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, SSeq):
        return a.n is b.n and same(a.elem, b.elem)
    if isinstance(a, Opaque):
        return a.what == b.what and a.data is b.data
    if isinstance(a, FuncV):
        return a.node is b.node and a.envid == b.envid and same(a.bound, b.bound)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, ExcV):
        return a.cls == b.cls
    try:
        return bool(a == b)
    except Exception:
        return False


_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


class State:
    __slots__ = ('pc', 'heap', 'objs', 'lists', 'dicts', 'envs', 'log', 'eng', '_ctx', 'path')

    def __init__(self, eng):
        self.pc = []
        self.heap = {}      # buffer id -> Buf
        self.objs = {}      # object id -> (ClassV, dict)
        self.lists = {}     # list id -> CList | SSeq
        self.dicts = {}     # dict id -> python dict
        self.envs = {}      # env id -> dict
        self.log = ()       # persistent linked list of events
        self.eng = eng
        self._ctx = None
        self.path = ()      # decisions taken

    def fork(self):
        s = State(self.eng)
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.objs = {k: (c, dict(d)) for k, (c, d) in self.objs.items()}
        s.lists = dict(self.lists)
        s.dicts = {k: dict(d) for k, d in self.dicts.items()}
        s.envs = {k: dict(d) for k, d in self.envs.items()}
        s.log = self.log
        s.path = self.path
        return s

    def assume(self, c):
        if c is TRUE or c is True:
            return self
        if c not in self.pc:
            self.pc.append(c)
            self._ctx = None
        return self

    def decide(self, c):
        self.assume(c)
        self.path = self.path + (c,)
        return self

    @property
    def ctx(self):
        if self._ctx is None:
            self._ctx = Ctx(self.pc)
        return self._ctx

    def event(self, *e):
        self.log = (self.log, e)

    def events(self):
        out = []
        l = self.log
        while l:
            l, e = l
            out.append(e)
        out.reverse()
        return out

    # arrays -----------------------------------------------------------------

    def alloc(self, shape, f, dtype='f', origin='fresh', note=None):
        shape = tuple(num(s) for s in shape)
        body = f(tuple(IV[:len(shape)])) if callable(f) else f
        if isinstance(body, (int, float)):
            body = num(body)
        i = newid()
        self.heap[i] = Buf(shape, body, dtype, origin, note)
        return Arr(i, shape)

    def alloc_fn(self, shape, name, dtype='f', origin='fresh', facts=None):
        """Array with uninterpreted content; returns (Arr, function name)."""
        shape = tuple(num(s) for s in shape)
        nm = name
        tm.fn(nm, len(shape), {'i': 'I', 'b': 'B'}.get(dtype, 'R'), shape)
        a = self.alloc(shape, lambda idx: tm.app(nm, *idx), dtype, origin, note=nm)
        return a

    def cell(self, a, idx):
        idx = tuple(num(i) for i in idx)
        b = self.heap[a.buf]
        bi = idx if a.fwd is None else a.fwd(idx)
        return tm.subst(b.body, dict(zip(IVN, bi))) if bi else b.body

    def fn_of(self, a):
        """Functional (snapshot) content of a view: idx tuple -> term."""
        b = self.heap[a.buf]
        fwd = a.fwd

        def f(idx):
            idx = tuple(num(i) for i in idx)
            bi = idx if fwd is None else fwd(idx)
            return tm.subst(b.body, dict(zip(IVN, bi))) if bi else b.body
        return f

    def dtype(self, a):
        return self.heap[a.buf].dtype

    def write(self, a, f):
        """a[idx] = f(idx) for all idx of the view."""
        b = self.heap[a.buf]
        if b.origin == 'held':
            raise Unsupported('write to an array held by a family of objects')
        if b.origin == 'alias':
            raise Unsupported('write to the reshaped form of a part of an array')
        nd = len(b.shape)
        if a.fwd is None:
            new = f(tuple(IV[:nd]))
        else:
            if a.inv is None:
                raise Unsupported('write through a read-only view')
            cond, vi = a.inv(tuple(IV[:nd]))
            new = tm.ite(cond, f(tuple(num(x) for x in vi)), b.body)
        if not isinstance(new, T):
            new = num(new)
        if b.dtype == 'i' and new.sort == 'R':
            self.eng.lossy(self, a)
        self.heap[a.buf] = b.with_body(new)
        if b.origin != 'fresh':
            self.event('write', a.buf, b.origin)

    # lists, objects -----------------------------------------------------------

    def newlist(self, items=(), maxlen=None, kind='list'):
        i = newid()
        self.lists[i] = items if isinstance(items, (SSeq, CList)) else CList(items, maxlen, kind)
        return ListRef(i)

    def newdict(self, d=None):
        i = newid()
        self.dicts[i] = dict(d or {})
        return DictRef(i)

    def newobj(self, cls, attrs=None):
        i = newid()
        self.objs[i] = (cls, dict(attrs or {}))
        return ObjRef(i)

    def attrs(self, o):
        return self.objs[o.id][1]

    def setattr(self, o, name, v):
        d = self.objs[o.id][1]
        if isinstance(o, Elem):
            c = d.get(name)
            if isinstance(c, Cells) and c.shape is not None and isinstance(v, Arr):
                w = c.view(o.idx)
                if len(v.shape) != len(w.shape) or not all(x is y or self.ctx.proves(tm.eq(x, y)) for x, y in zip(v.shape, w.shape)):
                    raise Unsupported('attribute %s of an element of a family changes its shape' % name)
                self.write(w, self.fn_of(v))
                self.retire(v)
            elif isinstance(c, Cells) and c.shape is None and isinstance(v, (int, float, T)):
                x = v if isinstance(v, T) else num(v)
                self.write(c.view(o.idx), lambda i: x)
            elif name not in d or not same(c, v):
                raise Unsupported('attribute %s of an element of a family changes its kind' % name)
            return
        d[name] = v

    def retire(self, a):
        """The array is now held by a family of objects (by content): it may not change any more."""
        b = self.heap[a.buf]
        self.heap[a.buf] = Buf(b.shape, b.body, b.dtype, 'held', b.note)

    def getattr(self, o, name):
        v = self.objs[o.id][1][name]
        if isinstance(v, Cells):
            w = v.view(o.idx)
            return w if v.shape is not None else self.cell(w, ())
        return v


def states_equal(a, b, ignore_envs=()):
    """Identical in everything reachable (used to merge harmless forks)."""
    if a.log is not b.log and a.events() != b.events():
        return False
    for k, d in a.envs.items():
        if k in ignore_envs:
            continue
        e = b.envs.get(k)
        if e is None or d.keys() != e.keys():
            return False
        for n in d:
            if not same(d[n], e[n]):
                return False
    for k, (c, d) in a.objs.items():
        if k not in b.objs:
            continue
        e = b.objs[k][1]
        if d.keys() != e.keys() or not all(same(d[n], e[n]) for n in d):
            return False
    for k, v in a.heap.items():
        w = b.heap.get(k)
        if w is not None and w is not v and w.body is not v.body:
            return False
    for k, v in a.lists.items():
        w = b.lists.get(k)
        if w is not None and not same(v, w):
            return False
    for k, v in a.dicts.items():
        w = b.dicts.get(k)
        if w is not None and not same(v, w):
            return False
    return True
