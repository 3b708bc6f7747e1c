"""Lists of symbolic length whose items are two-element lists [integer, number].

The items live in two arrays (first and second entry by position).  `pos` is a ghost: the position
of the item whose first entry is _i0, kept up to date by every operation (meaningful only when the
first entries are distinct).  A reference to an item is valid until the list is rearranged."""
from . import terms as tm
from .terms import T, ZERO, ONE, num, Fn
from .core import *
from .nf import inorm


class Pairs(SSeq):
    __slots__ = ('a', 'v', 'pos', 'ver')

    def __init__(self, n, a, v, pos):
        self.ver = newid()
        self.a, self.v, self.pos = a, v, pos
        SSeq.__init__(self, n, ('pairs', a, v, pos, self.ver))

    def at(self, i):
        return PairRef(self, num(i))


class PairRef:
    """item number p of a list of pairs"""
    __slots__ = ('of', 'p')

    def __init__(self, of, p):
        self.of, self.p = of, p

    def __eq__(self, o):
        return type(o) is PairRef and o.of.ver == self.of.ver and o.p is self.p

    def __hash__(self):
        return hash((self.of.ver, self.p.id))

    def __repr__(self):
        return 'pair %s' % tm.show(self.p)


def valid(st, r):
    if not any(isinstance(l, Pairs) and l.ver == r.of.ver for l in st.lists.values()):
        raise Unsupported('an item of a list that has been rearranged')


def entry(i):
    i = num(i) if not isinstance(i, T) else i
    if i.op == 'num' and i.val in (0, 1, -1, -2):
        return int(i.val) % 2
    raise Unsupported('entry %s of a pair' % tm.show(i))


def getentry(eng, st, r, idx):
    valid(st, r)
    return st.cell(r.of.v if entry(idx) else r.of.a, (r.p,))


def setentry(eng, st, r, idx, x):
    valid(st, r)
    if entry(idx) == 0:
        raise Unsupported('first entry of a pair is replaced')
    eng.np.setitem(eng, st, r.of.v, r.p, x)


def pair_of(st, x):
    """(first, second) of a two-element list"""
    if isinstance(x, ListRef) and isinstance(st.lists[x.id], CList):
        x = tuple(st.lists[x.id].items)
    if isinstance(x, (tuple, list)) and len(x) == 2:
        from .npm import tn, isnum
        if isnum(x[0]) and isnum(x[1]):
            a = tn(x[0])
            if a.sort == 'I':
                return a, tn(x[1])
    return None


def setslot(eng, st, l, i, x):
    """l[i] = [a, b]"""
    L = st.lists[l.id]
    p = pair_of(st, x)
    if p is None:
        raise Unsupported('item of a list of pairs')
    fa, fv = st.fn_of(L.a), st.fn_of(L.v)
    put(st, l, L.n, lambda q: tm.ite(tm.eq(q, i), p[0], fa((q,))), lambda q: tm.ite(tm.eq(q, i), p[1], fv((q,))),
        tm.ite(tm.eq(IV[0], p[0]), i, L.pos))


def put(st, l, n, fa, fv, pos):
    n = inorm(n)
    a = st.alloc((n,), lambda i: fa(i[0]), 'i')
    v = st.alloc((n,), lambda i: fv(i[0]), 'f')
    st.lists[l.id] = Pairs(n, a, v, pos)


def append(eng, st, l, x):
    L = st.lists[l.id]
    p = pair_of(st, x)
    if p is None:
        raise Unsupported('append to a list of pairs')
    fa, fv = st.fn_of(L.a), st.fn_of(L.v)
    put(st, l, tm.add(L.n, ONE), lambda q: tm.ite(tm.lt(q, L.n), fa((q,)), p[0]), lambda q: tm.ite(tm.lt(q, L.n), fv((q,)), p[1]),
        tm.ite(tm.eq(IV[0], p[0]), L.n, L.pos))


def pop(eng, st, l, i):
    L = st.lists[l.id]
    eng.oblige(st, tm.lt(ZERO, L.n), 'pop from an empty list', 'bounds')
    fa, fv = st.fn_of(L.a), st.fn_of(L.v)
    i = num(i) if not isinstance(i, T) else i
    if i.op == 'num' and i.val < 0:
        i = inorm(tm.add(L.n, i))
    eng.oblige(st, tm.tand(tm.le(ZERO, i), tm.lt(i, L.n)), 'pop: index in range', 'bounds')
    x = st.newlist([fa((i,)), fv((i,))])
    if i is inorm(tm.sub(L.n, ONE)):
        put(st, l, tm.sub(L.n, ONE), lambda q: fa((q,)), lambda q: fv((q,)), L.pos)
    else:
        # the item taken out goes past the end: its position is the new length
        m = inorm(tm.sub(L.n, ONE))
        sh = lambda f: (lambda q: tm.ite(tm.lt(q, i), f((q,)), tm.ite(tm.lt(q, m), f((tm.add(q, ONE),)), f((i,)))))
        put(st, l, m, sh(fa), sh(fv), tm.ite(tm.lt(i, L.pos), tm.sub(L.pos, ONE), tm.ite(tm.eq(i, L.pos), m, L.pos)))
    return x


def sort(eng, st, l, key, reverse):
    """a permutation of the items, in the order of their keys"""
    L = st.lists[l.id]
    fa, fv = st.fn_of(L.a), st.fn_of(L.v)
    if key is None or reverse not in (True, False):
        raise Unsupported('sort of pairs')
    pm, iv = tm.fresh_name('perm'), tm.fresh_name('inv')
    tm.fn(pm, 1, 'I', (L.n,))
    tm.fn(iv, 1, 'I', (L.n,))
    p, q = tm.fresh_var('q'), tm.fresh_var('q')
    inr = lambda z: tm.tand(tm.le(ZERO, z), tm.lt(z, L.n))
    st.assume(tm.forall([p], tm.implies(inr(p), tm.tand(inr(tm.app(pm, p)), tm.eq(tm.app(iv, tm.app(pm, p)), p)))))
    st.assume(tm.forall([p], tm.implies(inr(p), tm.tand(inr(tm.app(iv, p)), tm.eq(tm.app(pm, tm.app(iv, p)), p)))))
    put(st, l, L.n, lambda z: fa((tm.app(pm, z),)), lambda z: fv((tm.app(pm, z),)), tm.app(iv, L.pos))
    N = st.lists[l.id]

    def keyof(z):
        outs = list(eng.call(st, key, [N.at(z)], {}))
        if len(outs) != 1 or not isinstance(outs[0][1], T):
            raise Unsupported('sort key')
        return outs[0][1]
    a, b = keyof(p), keyof(q)
    st.assume(tm.forall([p, q], tm.implies(tm.tand(tm.le(ZERO, p), tm.le(p, q), tm.lt(q, L.n)), tm.le(b, a) if reverse else tm.le(a, b))))
