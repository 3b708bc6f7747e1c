"""Loops and comprehensions.

A loop over a symbolic number of iterations is summarised exactly: every
location the body modifies becomes a function of the iteration counter, either
in closed form (unchanged, overwritten, accumulated, written once per index,
running maximum) or as a function symbol R with R(0) = value before the loop
and R(k+1) = value computed by the body from R(k).  Facts about R are
established by induction (base and step are checked) before they are used.
"""
import ast
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, var, fv, Fn
from .core import *
from .core import IterV
from . import core
from .nf import inorm, linear_in

UNROLL = 12


def counter():
    return tm._fresh[0]


def is_new(name, mark):
    p = name.rsplit('~', 1)
    return len(p) == 2 and p[1].isdigit() and int(p[1]) > mark


# ---------------------------------------------------------------------------------------


def run_for(eng, node, st, env, it):
    if it.concrete is not None:
        return unroll(eng, node, st, env, it.concrete)
    n = num(it.n)
    if n.op == 'num' and n.val <= UNROLL:
        return unroll(eng, node, st, env, [it.item(st, num(i)) for i in range(int(n.val))])

    def start(s, k):
        """bind the loop variable; returns list of (state, signal or None)"""
        return eng.assign(node.target, it.item(s, k), s, env)
    if 'loop' in eng.hooks:
        r = eng.hooks['loop'](eng, node, st, env, n, start, None)
        if r is not None:
            return r
    return Loop(eng, node, st, env, n, start, None).run()


def run_while(eng, node, st, env):
    # a while loop whose condition stays concrete is unrolled
    out = []
    cur = [st]
    for _ in range(UNROLL + 2):
        nxt = []
        allc = True
        for s in cur:
            probe = list(eng.cond(node.test, s.fork(), env))
            if len(probe) != 1 or not isinstance(probe[0][1], bool):
                allc = False
        if not allc:
            break
        for s in cur:
            (s1, c), = list(eng.cond(node.test, s, env))
            if not c:
                out.extend(eng.block(node.orelse, s1, env) if node.orelse else [(s1, None)])
                continue
            for s2, sig in eng.block(node.body, s1, env):
                if sig is None or sig[0] == 'continue':
                    nxt.append(s2)
                elif sig[0] == 'break':
                    out.append((s2, None))
                else:
                    out.append((s2, sig))
        cur = nxt
        if not cur:
            return out
    for s in cur:
        r = eng.hooks['loop'](eng, node, s, env, None, None, node.test) if 'loop' in eng.hooks else None
        out.extend(Loop(eng, node, s, env, None, None, node.test).run() if r is None else r)
    return out


def unroll(eng, node, st, env, items):
    out = []
    cur = [st]
    for x in items:
        nxt = []
        for s in cur:
            for s1, sig in eng.assign(node.target, x, s, env):
                if sig is not None:
                    out.append((s1, sig))
                    continue
                for s2, sg in eng.block(node.body, s1, env):
                    if sg is None or sg[0] == 'continue':
                        nxt.append(s2)
                    elif sg[0] == 'break':
                        out.append((s2, None))
                    else:
                        out.append((s2, sg))
        cur = nxt
        if len(cur) > eng.MAXPATHS:
            raise Unsupported('too many paths')
        cur = dedupe(cur)
    for s in cur:
        if node.orelse:
            out.extend(eng.block(node.orelse, s, env))
        else:
            out.append((s, None))
    return out


def dedupe(sts):
    return sts


# locations -------------------------------------------------------------------------------

def get(st, l):
    k = l[0]
    if k == 'env':
        return st.envs[l[1]].get(l[2], POISON)
    if k == 'attr':
        return st.objs[l[1]][1].get(l[2], POISON)
    if k == 'buf':
        return st.heap[l[1]]
    if k == 'list':
        return st.lists[l[1]]
    if k == 'dict':
        return st.dicts[l[1]].get(l[2], POISON)


def put(st, l, v):
    k = l[0]
    if k == 'env':
        if v is POISON:
            st.envs[l[1]][l[2]] = POISON
        else:
            st.envs[l[1]][l[2]] = v
    elif k == 'attr':
        st.objs[l[1]][1][l[2]] = v
    elif k == 'buf':
        st.heap[l[1]] = v
    elif k == 'list':
        st.lists[l[1]] = v
    elif k == 'dict':
        st.dicts[l[1]][l[2]] = v


def modified(a, b):
    """Locations of state a that differ in b."""
    out = []
    for e, d in a.envs.items():
        d2 = b.envs.get(e)
        if d2 is None or d2 is d:
            continue
        for n in set(d) | set(d2):
            if n.startswith('__'):
                continue
            if n not in d or n not in d2 or not same(d[n], d2[n]):
                out.append(('env', e, n))
    for o, (c, d) in a.objs.items():
        if o not in b.objs:
            continue
        d2 = b.objs[o][1]
        for n in set(d) | set(d2):
            if n not in d or n not in d2 or not same(d[n], d2[n]):
                out.append(('attr', o, n))
    for i, x in a.heap.items():
        y = b.heap.get(i)
        if y is not None and y is not x and y.body is not x.body:
            out.append(('buf', i))
    for i, x in a.lists.items():
        y = b.lists.get(i)
        if y is not None and y is not x and not same(x, y):
            out.append(('list', i))
    for i, d in a.dicts.items():
        d2 = b.dicts.get(i)
        if d2 is None:
            continue
        for n in set(d) | set(d2):
            if n not in d or n not in d2 or not same(d[n], d2[n]):
                out.append(('dict', i, n))
    return out


def isscal(v):
    return isinstance(v, (T, int, float)) and not isinstance(v, bool)


def toT(v):
    from .npm import tn
    if isinstance(v, bool):
        return tm.boolc(v)
    if isinstance(v, T):
        return v
    return tn(v)


def path_suffix(st, base):
    k = len(base.path)
    return tm.tand(*st.path[k:])


def merge_states(eng, base, sts):
    """Join states that started from base and end normally."""
    if len(sts) == 1:
        return sts[0]
    conds = [path_suffix(s, base) for s in sts]
    locs = set()
    for s in sts:
        locs.update(modified(base, s))
    out = sts[-1].fork()
    for l in locs:
        vals = [get(s, l) for s in sts]
        if all(same(v, vals[0]) for v in vals):
            put(out, l, vals[0])
            continue
        put(out, l, join(eng, out, sts, conds, vals))
    # facts
    npc = len(base.pc)
    common = [p for p in sts[0].pc if all(p in s.pc for s in sts[1:])]
    out.pc = list(common)
    for s, c in zip(sts, conds):
        for p in s.pc:
            if p not in common and p not in base.pc:
                if p in s.path[len(base.path):]:
                    continue
                out.pc.append(tm.implies(c, p))
    if not any(c is TRUE for c in conds):
        d = tm.tor(*conds)
        if d is not TRUE and len(sts) > 2:
            out.pc.append(d)
    out._ctx = None
    out.path = base.path
    return out


def join(eng, out, sts, conds, vals):
    if any(v is POISON for v in vals):
        return POISON
    if all(isscal(v) or isinstance(v, bool) for v in vals):
        r = toT(vals[-1])
        for c, v in list(zip(conds, vals))[-2::-1]:
            r = tm.ite(c, toT(v), r)
        if any(isinstance(v, float) or (isinstance(v, T) and v.sort == 'R') for v in vals) and r.sort == 'I':
            pass
        return r
    if all(isinstance(v, Buf) for v in vals):
        r = vals[-1].body
        for c, v in list(zip(conds, vals))[-2::-1]:
            r = tm.ite(c, v.body, r)
        dt = 'f' if any(v.dtype == 'f' for v in vals) else vals[0].dtype
        return Buf(vals[0].shape, r, dt, vals[0].origin, vals[0].note)
    if all(isinstance(v, Arr) for v in vals):
        sh = vals[0].shape
        for v in vals[1:]:
            if len(v.shape) != len(sh) or any(inorm(tm.sub(x, y)) is not ZERO for x, y in zip(sh, v.shape)):
                return POISON
        fs = [s.fn_of(v) for s, v in zip(sts, vals)]

        def cell(i):
            r = fs[-1](i)
            for c, f in list(zip(conds, fs))[-2::-1]:
                r = tm.ite(c, f(i), r)
            return r
        return out.alloc(sh, cell, sts[0].dtype(vals[0]))
    if all(isinstance(v, SSeq) for v in vals) and all(isinstance(v.elem, T) for v in vals):
        n, e = vals[-1].n, vals[-1].elem
        for c, v in list(zip(conds, vals))[-2::-1]:
            n, e = tm.ite(c, v.n, n), tm.ite(c, v.elem, e)
        return SSeq(n, e, vals[0].maxlen, vals[0].kind)
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(join(eng, out, sts, conds, [v[i] for v in vals]) if not all(same(v[i], vals[0][i]) for v in vals) else vals[0][i]
                     for i in range(len(vals[0])))
    return POISON


# ---------------------------------------------------------------------------------------


class Loop:
    def __init__(self, eng, node, st, env, n, start, test, depth=0):
        self.eng, self.node, self.st, self.env = eng, node, st, env
        self.n, self.start, self.test = n, start, test
        self.depth = depth

    # running the body once ---------------------------------------------------------------

    def body(self, s, k):
        """Outcomes of one iteration from head state s."""
        eng = self.eng
        outs = []
        if self.test is not None:
            for s1, c in eng.cond(self.test, s, self.env):
                if isinstance(c, RaiseV):
                    outs.append((s1, ('raise', c.exc)))
                    continue
                for s2, b in eng.split(s1, c):
                    if b:
                        outs.extend(eng.block(self.node.body, s2, self.env))
                    else:
                        outs.append((s2, ('exit',)))
            return outs
        for s1, sg in self.start(s, k):
            if sg is not None:
                outs.append((s1, sg))
            else:
                outs.extend(eng.block(self.node.body, s1, self.env))
        return outs

    @staticmethod
    def normal(outs):
        return [s for s, g in outs if g is None or g[0] == 'continue']

    def guard(self, k):
        c = tm.le(ZERO, k)
        return c if self.n is None else tm.tand(c, tm.lt(k, self.n))

    def run(self):
        eng, st = self.eng, self.st
        if self.n is not None:
            d = st.ctx.proves(tm.lt(ZERO, self.n))
            if not d and st.ctx.proves(tm.le(self.n, ZERO)):
                return eng.block(self.node.orelse, st, self.env) if self.node.orelse else [(st, None)]
            self.nonempty = d
        else:
            self.nonempty = False
        self.mark0 = counter()
        k = tm.fresh_var('k')
        self.k = k
        # discovery of the modified locations -------------------------------------------------
        mods = []
        self.kinds = {}
        eng.quiet += 1
        try:
            for _ in range(12):
                head = self.havoc_head(mods, k)
                if head is None:
                    eng.quiet -= 1
                    try:
                        return self.peel()
                    finally:
                        eng.quiet += 1
                outs = self.body(head.fork(), k)
                new = []
                for s, g in outs:
                    if g is None or g[0] == 'continue':
                        for l in modified(head, s):
                            if l not in mods and l not in new:
                                new.append(l)
                        for l in mods:
                            self.note_kind(l, s)
                if self.peel_needed(mods + new, outs, head):
                    eng.quiet -= 1
                    try:
                        return self.peel()
                    finally:
                        eng.quiet += 1
                for l in new:
                    for s, g in outs:
                        if g is None or g[0] == 'continue':
                            self.note_kind(l, s)
                if not new:
                    if self.kinds_stable(mods):
                        break
                mods = mods + new
            else:
                raise Unsupported('loop discovery does not converge')
            self.mods = mods
            self.solve(k)
        finally:
            eng.quiet -= 1
        return self.finish(k)

    def note_kind(self, l, s):
        v = get(s, l)
        self.kinds.setdefault(l, []).append((v, s))

    def kinds_stable(self, mods):
        key = tuple((l, self.kind(l)) for l in mods)
        r = getattr(self, '_lastkey', None) == key
        self._lastkey = key
        return r

    def kind(self, l):
        """How to represent location l at the loop head."""
        init = get(self.st, l)
        ends = self.kinds.get(l, [])
        if isinstance(init, (T, int, float)) or isinstance(init, bool):
            srt = 'I'
            for v in [init] + [e for e, _ in ends]:
                if v is POISON:
                    return ('poison',)
                if isinstance(v, bool) or (isinstance(v, T) and v.sort == 'B'):
                    srt = 'B'
                    continue
                if not isscal(v):
                    return ('poison',)
                if isinstance(v, float) or (isinstance(v, T) and v.sort == 'R'):
                    if srt != 'B':
                        srt = 'R'
            return ('scal', srt)
        if isinstance(init, Arr):
            sh = init.shape
            dt = self.st.dtype(init)
            for v, s in ends:
                if not isinstance(v, Arr) or len(v.shape) != len(sh):
                    return ('poison',)
                if any(inorm(tm.sub(x, y)) is not ZERO and not s.ctx.proves(tm.eq(x, y)) for x, y in zip(sh, v.shape)):
                    return ('poison',)
                if s.dtype(v) == 'f':
                    dt = 'f'
            return ('arr', dt)
        if isinstance(init, Buf):
            return ('buf',)
        if isinstance(init, SSeq) and isinstance(init.elem, T):
            return ('sseq', init.elem.sort)
        if isinstance(init, CList):
            for v, s in ends:
                if not isinstance(v, CList) or len(v.items) != len(init.items):
                    return ('poison',)
            if all(isscal(x) for x in init.items):
                return ('clist', len(init.items))
        return ('poison',)

    def rname(self, l, extra=''):
        key = (l, extra)
        if key not in self.rn:
            nm = {'env': l[-1], 'attr': l[-1], 'dict': l[-1]}.get(l[0], l[0] + str(l[1]))
            self.rn[key] = tm.fresh_name('R.%s%s' % (nm, extra))
        return self.rn[key]

    rn = None
    known = {}      # integer scalars that grow by a fixed amount: closed form, used at the loop head

    def linear_scalars(self, head, end, mark):
        """Integer locations whose value grows by the same (loop-invariant) amount in every iteration."""
        out = {}
        for l in self.mods:
            kd = self.kind(l)
            if kd[0] != 'scal' or kd[1] != 'I':
                continue
            own, e = toT(get(head, l)), toT(get(end, l))
            d = self.minus(e, own)
            if d is None or d.sort != 'I' or any(is_new(n, mark) for n in tm.fnames(d) | fv(d)):
                continue
            init = toT(get(self.st, l))
            out[(l, kd[1])] = lambda K, i, init=init, d=d: inorm(tm.add(init, tm.mul(K, d)))
        return out

    def havoc_head(self, mods, k):
        """Head state at iteration k with every modified location unknown."""
        if self.rn is None:
            self.rn = {}
        s = self.st.fork()
        s.assume(self.guard(k))
        for l in mods:
            kd = self.kind(l)
            init = get(self.st, l)
            if kd[0] == 'poison':
                if init is None:
                    ends = self.kinds.get(l, [])
                    if any(v is not None and v is not POISON for v, _ in ends):
                        put(s, l, POISON)
                        continue
                put(s, l, POISON)
            elif kd[0] == 'scal':
                if (l, kd[1]) in self.known:
                    put(s, l, self.known[(l, kd[1])](k, ()))
                    continue
                nm = self.rname(l, kd[1])
                tm.fn(nm, 1, kd[1])
                put(s, l, tm.app(nm, k))
            elif kd[0] == 'arr':
                nm = self.rname(l, kd[1])
                F = tm.fn(nm, 1 + len(init.shape), {'i': 'I', 'b': 'B'}.get(kd[1], 'R'))
                put(s, l, s.alloc(init.shape, lambda i: tm.app(nm, k, *i), kd[1]))
            elif kd[0] == 'buf':
                nm = self.rname(l)
                tm.fn(nm, 1 + len(init.shape), {'i': 'I', 'b': 'B'}.get(init.dtype, 'R'))
                put(s, l, init.with_body(tm.app(nm, k, *IV[:len(init.shape)])))
            elif kd[0] == 'sseq':
                nm, ln = self.rname(l), self.rname(l, 'len')
                tm.fn(nm, 2, kd[1])
                tm.fn(ln, 1, 'I')
                put(s, l, SSeq(tm.app(ln, k), tm.app(nm, k, IV[0]), init.maxlen, init.kind))
            elif kd[0] == 'clist':
                items = []
                for j in range(kd[1]):
                    nm = self.rname(l, 'e%d' % j)
                    tm.fn(nm, 1, 'R')
                    items.append(tm.app(nm, k))
                put(s, l, CList(items, init.maxlen, init.kind))
        return s

    # peeling ---------------------------------------------------------------------------------

    def peel_needed(self, mods, outs, head):
        for l in mods:
            init = get(self.st, l)
            if init is None:
                for s, g in outs:
                    if (g is None or g[0] == 'continue'):
                        v = get(s, l)
                        if v is not None and v is not POISON and self.reads_before_write(l):
                            return True
        return False

    def reads_before_write(self, l):
        """Is location l read in the body before it is written?  Probe by poisoning."""
        s = self.st.fork()
        s.assume(self.guard(self.k))
        put(s, l, POISON)
        try:
            self.body(s, self.k)
            return False
        except Unsupported:
            return True

    def peel(self):
        eng = self.eng
        if self.depth > 3:
            raise Unsupported('loop with changing value kinds')
        st = self.st
        outs = []
        if self.n is None:
            raise Unsupported('while loop with changing value kinds')
        states = []
        if not self.nonempty:
            s0 = st.fork()
            s0.assume(tm.eq(self.n, ZERO) if st.ctx.proves(tm.le(ZERO, self.n)) else tm.le(self.n, ZERO))
            s0.path = s0.path + (s0.pc[-1],)
            if s0.ctx.consistent():
                outs.extend(eng.block(self.node.orelse, s0, self.env) if self.node.orelse else [(s0, None)])
            st = st.fork()
            st.assume(tm.lt(ZERO, self.n))
            st.path = st.path + (tm.lt(ZERO, self.n),)
        for s, g in self.body(st, ZERO):
            if g is None or g[0] == 'continue':
                states.append(s)
            elif g[0] == 'break':
                outs.append((s, None))
            else:
                outs.append((s, g))
        n1 = inorm(tm.sub(self.n, ONE))
        for s in states:
            if n1.op == 'num' and n1.val <= 0:
                outs.append((s, None))
                continue
            start = lambda s_, k: self.start(s_, tm.add(k, ONE))
            outs.extend(Loop(eng, self.node, s, self.env, n1, start, None, self.depth + 1).run())
        return outs

    # solving ------------------------------------------------------------------------------------

    def ends(self, head, k):
        outs = self.body(head.fork(), k)
        nm = self.normal(outs)
        if not nm:
            return outs, None
        return outs, merge_states(self.eng, head, nm)

    def items(self):
        """(location, sub key, arity of index, accessor in a state) of every numeric component."""
        out = []
        for l in self.mods:
            kd = self.kind(l)
            init = get(self.st, l)
            if kd[0] == 'scal':
                out.append((l, kd[1], 0, lambda s, l=l: (lambda i: toT(get(s, l)))))
            elif kd[0] == 'arr':
                out.append((l, kd[1], len(init.shape), lambda s, l=l: s.fn_of(get(s, l))))
            elif kd[0] == 'buf':
                nd = len(init.shape)
                out.append((l, '', nd, lambda s, l=l, nd=nd: (lambda i: tm.subst(get(s, l).body, dict(zip(IVN[:nd], i))))))
            elif kd[0] == 'sseq':
                out.append((l, '', 1, lambda s, l=l: (lambda i: get(s, l).at(i[0]))))
                out.append((l, 'len', 0, lambda s, l=l: (lambda i: get(s, l).n)))
            elif kd[0] == 'clist':
                for j in range(kd[1]):
                    out.append((l, 'e%d' % j, 0, lambda s, l=l, j=j: (lambda i: toT(get(s, l).items[j]))))
        return out

    def check_alias(self, head, end):
        seen = {}
        for l in self.mods:
            if self.kind(l)[0] != 'arr':
                continue
            v = get(end, l)
            h = get(head, l)
            if isinstance(v, Arr):
                if v.buf in self.st.heap and any(m == ('buf', v.buf) for m in self.mods):
                    raise Unsupported('loop aliases a modified buffer')
                # the head buffer of a re-bound array may not be written by the body
                hb = end.heap.get(h.buf)
                if hb is not None and hb.body is not head.heap[h.buf].body and v.buf != h.buf:
                    init = get(self.st, l)
                    # in-place then re-bound: only safe when nothing else holds the initial buffer
                    raise Unsupported('array is modified in place and re-bound in the same loop')
                if v.buf in seen and v.buf != h.buf:
                    pass
                seen[v.buf] = l

    def solve(self, k):
        eng = self.eng
        mark = counter()
        self.mark = mark
        mark0 = self.mark0
        head = self.havoc_head(self.mods, k)
        self.sol = {}          # (l, sub) -> function K, idx -> term   (closed form)
        self.lifted = {}
        self.facts = []
        self.alive = tm.fresh_name('alive')
        tm.fn(self.alive, 1, 'B')
        outs, end = self.ends(head, k)
        if end is not None:
            self.known = self.linear_scalars(head, end, mark0)
            if self.known:
                head = self.havoc_head(self.mods, k)
                outs, end = self.ends(head, k)
        self.outs0 = outs
        if end is None:
            # the body never completes normally: at most one iteration
            for it in self.items():
                l, sub, ar, acc = it
                init = acc(self.st)
                self.sol[(l, sub)] = lambda K, i, init=init: init(i)
            self.P = []
            return
        self.check_alias(head, end)
        items = self.items()
        name = {}
        E = {}
        I = {}
        for it in items:
            l, sub, ar, acc = it
            if (l, sub) in self.known:
                self.sol[(l, sub)] = self.known[(l, sub)]
                continue
            nm = self.rn[(l, sub)] if (l, sub) in self.rn else self.rname(l, sub)
            name[(l, sub)] = nm
            idx = tuple(IV[:ar])
            E[(l, sub)] = self.lift(acc(end)(idx), k)
            I[(l, sub)] = acc(self.st)
        self.body_facts = [self.lift(p, k) for p in end.pc if p not in head.pc]
        self.name, self.E, self.I = name, E, I
        self.arity = {(it[0], it[1]): it[2] for it in items if (it[0], it[1]) not in self.known}
        unsolved = list(E)
        # components the body leaves alone
        allnames = lambda: {name[x] for x in unsolved}

        def uses(t):
            return tm.fnames(t) & allnames()
        self.nexts = {}
        P = []
        progress = True
        while unsolved:
            progress = False
            for x in list(unsolved):
                f = self.closed(x, k, E[x], uses)
                if f is not None:
                    self.sol[x] = f
                    unsolved.remove(x)
                    progress = True
                    # substitute into the other end terms
                    for y in unsolved:
                        E[y] = self.plug(E[y], name[x], f)
            if progress or not unsolved:
                continue
            # choose a primitive recurrence
            def weight(x):
                return (self.arity[x], len(tm.subterms(E[x])))
            x = min(unsolved, key=weight)
            nm = name[x]
            P.append(x)
            unsolved.remove(x)
            idx = tuple(IV[:self.arity[x]])
            nxt = tm.app(nm, tm.add(k, ONE), *idx)
            end_t = E[x]
            if self.arity[x] == 0:
                for y in unsolved:
                    E[y] = tm.replace(E[y], lambda t: nxt if t is end_t else None)
            F = Fn.table[nm]
            F.recur = (I[x], (lambda e, k=k, ar=self.arity[x]: lambda K, i: tm.subst(e, dict([(k.val, K)] + list(zip(IVN[:ar], i)))))(end_t))
            F.loop = self
            self.sol[x] = (lambda nm: lambda K, i: tm.app(nm, K, *i))(nm)
            # R(0) is the value before the loop
            init = I[x]

            def fact0(K, *i, init=init, nm=nm):
                if K.op == 'num' and K.val == 0:
                    return tm.eq(tm.app(nm, K, *i), init(tuple(i)))
                return tm.implies(tm.eq(K, ZERO), tm.eq(tm.app(nm, K, *i), init(tuple(i))))
            F.facts.append(fact0)
        self.P = P
        # closed forms of derived components may still mention primitive symbols only

    def plug(self, t, nm, f):
        memo = {}

        def rp(x):
            if x.op == 'app' and x.val == nm:
                return f(self.plug(x.args[0], nm, f), tuple(self.plug(a, nm, f) for a in x.args[1:]))
            return None
        return tm.replace(t, rp, memo)

    def lift(self, t, k):
        """Make symbols introduced by the body functions of the iteration number."""
        if t is None:
            return None
        mark = self.mark

        def rp(x):
            if x.op == 'var' and x.val != k.val and is_new(x.val, mark) and x.val not in bound_names:
                nm = x.val + "'"
                if nm not in Fn.table:
                    F = tm.fn(nm, 1, x.sort)
                    F.lift_of = x.val
                return tm.app(nm, k)
            if x.op == 'app' and is_new(x.val, mark) and x.val not in self.rn.values() and not x.val.endswith("'") \
                    and x.val != self.alive:
                nm = self.lift_fn(x.val, k)
                return tm.app(nm, k, *[self.lift(a, k) for a in x.args])
            if x.op in ('sum', 'forall', 'exists'):
                return None
            return None
        bound_names = set()
        for s in tm.subterms(t):
            if s.op == 'sum':
                bound_names.add(s.val)
            elif s.op in ('forall', 'exists'):
                bound_names.update(s.val)
        return tm.replace(t, rp)

    def lift_fn(self, name, k):
        nm = name + "'"
        if nm in Fn.table:
            return nm
        F = Fn.table[name]
        G = tm.fn(nm, F.arity + 1, F.sort)
        def inst(h, K, args):
            """h at placeholders, lifted, then at the actual arguments"""
            ph = [var('_p%d' % i, x.sort) for i, x in enumerate(args)]
            g = h(*ph)
            if g is None:
                return None
            g = self.lift(g if isinstance(g, T) else num(g), k)
            d = {p.val: x for p, x in zip(ph, args)}
            d[k.val] = K
            return tm.subst(g, d)

        def rule(h):
            return None if h is None else (lambda K, *o: inst(h, K, [num(x) for x in o]))
        for f in F.facts:
            G.facts.append(lambda K, *a, f=f: inst(f, K, [num(x) for x in a]))
        for (pos, rlo, rhi, guard, value) in F.sumrules:
            G.sumrules.append((pos + 1, rule(rlo), rule(rhi), rule(guard), rule(value)))
        if F.selinfo is not None:
            G.selinfo = lambda K, *a: tuple(inst(lambda *z, q=q: F.selinfo(*z)[q], K, [num(x) for x in a]) for q in (0, 1))
        G.lift_of = name
        if hasattr(F, 'lstsq'):
            G.lifted_lstsq = (F, k, self)
        return nm

    # closed forms ------------------------------------------------------------------------------------

    def closed(self, x, k, e, uses):
        nm = self.name[x]
        ar = self.arity[x]
        idx = tuple(IV[:ar])
        init = self.I[x]
        own = tm.app(nm, k, *idx)
        u = uses(e)
        sub = lambda t, K, i: tm.subst(t, dict([(k.val, K)] + list(zip(IVN[:ar], i))))
        if e is own:
            return lambda K, i: init(i)
        if not u:
            # overwritten: value of the previous iteration
            # does the uniform formula also cover iteration 0 ?
            return self.overwritten(x, k, e, init, sub)
        if u - {nm}:
            return None
        # accumulation
        from .nf import inorm as _in
        d = None
        if x[1] != 'B' and e.sort != 'B':
            d = self.minus(e, own)
        if d is not None and nm not in tm.fnames(d):
            if d.sort == 'I' and k.val not in fv(d):
                return lambda K, i: tm.add(init(i), tm.mul(K, sub(d, ZERO, i)))
            v = tm.fresh_var('j')
            return lambda K, i: tm.add(init(i), tm.mksum(ZERO, K, lambda j: sub(d, j, i)))
        r = self.runmax(x, k, e, own, init, sub)
        if r is not None:
            return r
        return self.indexwrite(x, k, e, own, init, sub, nm, ar)

    def minus(self, e, own):
        """e - own if own occurs additively (also below guards)."""
        if e is own:
            return ZERO
        if e.op == 'add' and own in e.args:
            rest = list(e.args)
            rest.remove(own)
            return tm.add(*rest)
        if e.op == 'ite':
            a, b = self.minus(e.args[1], own), self.minus(e.args[2], own)
            if a is not None and b is not None:
                return tm.ite(e.args[0], a, b)
        return None

    def overwritten(self, x, k, e, init, sub):
        prev = lambda K, i: sub(e, inorm(tm.sub(K, ONE)), i)
        if k.val not in fv(e):
            return lambda K, i: self.at0(K, init(i), sub(e, ZERO, i))
        # with next-symbols the formula may be uniform in k
        ar = self.arity[x]
        idx = tuple(IV[:ar])
        t0 = self.init_next(sub(e, num(-1), idx))
        i0 = init(idx)
        if t0 is not None:
            from .nf import equal
            rng = self.range_ctx(x)
            if t0 is i0 or equal(t0, i0, rng):
                return lambda K, i: sub(e, inorm(tm.sub(K, ONE)), i)
        return lambda K, i: self.at0(K, init(i), prev(K, i))

    def init_next(self, t):
        """Replace R(0, i) by its initial value."""
        ok = [True]

        def rp(y):
            if y.op == 'app' and y.args and y.args[0].op == 'num':
                if y.args[0].val == 0:
                    for x, nm in self.name.items():
                        if nm == y.val:
                            return self.I[x](tuple(self_map(a) for a in y.args[1:]))
                if y.args[0].val < 0 and (y.val in self.name.values() or y.val.endswith("'")):
                    ok[0] = False
            return None
        self_map = lambda a: tm.replace(a, rp)
        r = tm.replace(t, rp)
        return r if ok[0] else None

    def range_ctx(self, x):
        l = x[0]
        v = get(self.st, l)
        sh = v.shape if isinstance(v, (Arr, Buf)) else ()
        return self.st.ctx.extend(*[tm.tand(tm.le(ZERO, i), tm.lt(i, d)) for i, d in zip(IV, sh)])

    def at0(self, K, a, b):
        if K.op == 'num' and K.val == 0:
            return a
        if a is b:
            return a
        if self.st.ctx.proves(tm.lt(ZERO, K)) or (self.n is not None and K is self.n and self.nonempty):
            return b
        return tm.ite(tm.eq(K, ZERO), a, b)

    def runmax(self, x, k, e, own, init, sub):
        if e.op in ('max', 'min') and own in e.args:
            other = [a for a in e.args if a is not own]
            if len(other) == 1 and self.name[x] not in tm.fnames(other[0]):
                return self.mkrunmax(e.op, x, other[0], init, sub, k)
        if e.op == 'ite' and e.args[0].op in ('le', 'lt'):
            l, r = e.args[0].args
            a, b = e.args[1], e.args[2]
            for cur, oth in ((a, b), (b, a)):
                if cur is own and self.name[x] not in tm.fnames(oth):
                    # condition compares own with oth
                    if {l, r} == {own, oth}:
                        # taken branch a when l <= r
                        pick_r = a is r
                        which = 'max' if pick_r else 'min'
                        return self.mkrunmax(which, x, oth, init, sub, k)
        return None

    def mkrunmax(self, which, x, oth, init, sub, k):
        ar = self.arity[x]
        if ar:
            return None
        nm = tm.fresh_name('run' + which)
        F = tm.fn(nm, 1, 'R')
        cmp = tm.le if which == 'max' else tm.ge
        st = self.st
        val = lambda j: sub(oth, j, ())
        init0 = init(())
        w = tm.fresh_name('argrun')
        tm.fn(w, 1, 'I')
        F.facts.append(lambda K: tm.tand(
            cmp(init0, tm.app(nm, K)),
            tm.tor(tm.eq(tm.app(nm, K), init0),
                   tm.tand(tm.le(ZERO, tm.app(w, K)), tm.lt(tm.app(w, K), K), tm.eq(tm.app(nm, K), val(tm.app(w, K)))))))
        F.facts.append(lambda K: tm.forall([var('qk')], tm.implies(tm.tand(tm.le(ZERO, var('qk')), tm.lt(var('qk'), K)),
                                                                   cmp(val(var('qk')), tm.app(nm, K)))))
        F.runmax = (which, init0, val)
        return lambda K, i: tm.app(nm, K)

    def indexwrite(self, x, k, e, own, init, sub, nm, ar):
        """end = ite(g, V, own): each cell is written by at most one iteration."""
        if e.op != 'ite':
            return None

        def leaves(t):
            """(condition under which t is not the old value, the new value)"""
            if t is own:
                return FALSE, None
            if t.op == 'ite':
                ga, va = leaves(t.args[1])
                gb, vb = leaves(t.args[2])
                c = t.args[0]
                if ga is FALSE:
                    return (FALSE, None) if gb is FALSE else (tm.tand(tm.tnot(c), gb), vb)
                if gb is FALSE:
                    return tm.tand(c, ga), va
                return (TRUE if ga is TRUE and gb is TRUE else tm.ite(c, ga, gb)), tm.ite(c, va, vb)
            return TRUE, t
        g, V = leaves(e)
        if g is TRUE or g is FALSE or nm in tm.fnames(g):
            return None
        kap = self.kappa(g, k)
        if kap is None:
            return None
        st = self.st
        idx = tuple(IV[:ar])
        base = st.ctx.extend(self.guard(k), g, *[tm.tand(tm.le(ZERO, i), tm.lt(i, d)) for i, d in zip(idx, self.shape_of(x))])
        # uniqueness: g(k) implies k == kappa
        if not base.proves(tm.eq(k, kap)):
            return None
        if nm in tm.fnames(V):
            # reads of the array itself: every read cell still has its initial value
            def rp(y):
                if y.op == 'app' and y.val == nm:
                    if y.args[0] is not k:
                        return None
                    args = y.args[1:]
                    s = dict(zip(IVN[:ar], args))
                    g2 = tm.subst(g, s)
                    k2 = tm.subst(kap, s)
                    # under binders the arguments are arbitrary; need the binder ranges
                    bad = tm.tand(tm.le(ZERO, k2), tm.lt(k2, k), tm.subst(g2, {k.val: k2}))
                    if bad is FALSE or base.proves(tm.tnot(bad)):
                        return init(tuple(args))
                return None
            V = tm.replace(V, rp)
            if nm in tm.fnames(V):
                return None

        blk = self.block(kap, tm.subst(g, {k.val: kap}), base)

        def f(K, i):
            s_ = dict(zip(IVN[:ar], i))
            kp = tm.subst(kap, s_)
            if blk is not None:
                cond = tm.subst(tm.subst(blk[0], {blk[1].val: K}), s_)
            else:
                cond = tm.tand(tm.le(ZERO, kp), tm.lt(kp, K), tm.subst(tm.subst(g, s_), {k.val: kp}))
            return tm.ite(cond, sub(V, kp, i), init(i))
        return f

    def block(self, kap, g, base):
        """Consecutive blocks of width w: iteration kap = x // w has happened exactly when 0 <= x < K*w."""
        if kap.op != 'fdiv':
            return None
        x, w = kap.args
        st = self.st
        if not st.ctx.proves(tm.le(ONE, w)):
            return None
        K = tm.fresh_var('K')
        cond = tm.tand(tm.le(ZERO, x), tm.lt(x, inorm(tm.mul(K, w))))
        ctx = st.ctx.extend(cond, tm.le(ZERO, kap), tm.lt(kap, K))
        rest = [c for c in (g.args if g.op == 'and' else (g,)) if not ctx.proves(c)]
        return tm.tand(cond, *rest), K

    def shape_of(self, x):
        v = get(self.st, x[0])
        if isinstance(v, (Arr, Buf)):
            return v.shape
        if isinstance(v, SSeq):
            return (v.n,) if x[1] == '' else ()
        return ()

    def kappa(self, g, k):
        """Solve the guard for the iteration number."""
        conj = list(g.args) if g.op == 'and' else [g]
        for c in conj:
            if c.op == 'eq':
                la = linear_in(tm.sub(c.args[0], c.args[1]), k.val)
                if la is not None and abs(la[0]) == 1:
                    return inorm(tm.mul(num(-1 / la[0]), la[1]))
        # block condition  lo + w k <= i < lo + w k + w
        for c in conj:
            if c.op in ('le', 'lt'):
                d = tm.sub(c.args[1], c.args[0])         # >= 0
                for iv in IV:
                    if iv.val not in fv(d) or k.val not in fv(d):
                        continue
                    li = linear_in(d, iv.val)
                    if li is None or li[0] != 1:
                        continue
                    # i - (lo + w k) >= 0 ; find w as the coefficient polynomial of k
                    rest = li[1]
                    r0 = inorm(tm.subst(rest, {k.val: ZERO}))
                    r1 = inorm(tm.subst(rest, {k.val: ONE}))
                    w = inorm(tm.sub(r0, r1))
                    if inorm(tm.sub(rest, tm.sub(r0, tm.mul(w, k)))) is not ZERO:
                        continue
                    if c.op == 'lt':
                        r0 = inorm(tm.sub(r0, ONE))
                    return tm.fdiv(inorm(tm.add(iv, r0)), w)
        return None

    # final pass -------------------------------------------------------------------------------------

    def head_at(self, K):
        """State at the head of iteration K."""
        s = self.st.fork()
        for l in self.mods:
            kd = self.kind(l)
            init = get(self.st, l)
            if kd[0] == 'poison':
                put(s, l, POISON)
            elif kd[0] == 'scal':
                put(s, l, self.sol[(l, kd[1])](K, ()))
            elif kd[0] == 'arr':
                f = self.sol[(l, kd[1])]
                put(s, l, s.alloc(init.shape, lambda i: f(K, tuple(i)), kd[1]))
            elif kd[0] == 'buf':
                f = self.sol[(l, '')]
                put(s, l, init.with_body(f(K, tuple(IV[:len(init.shape)]))))
            elif kd[0] == 'sseq':
                f, g = self.sol[(l, '')], self.sol[(l, 'len')]
                put(s, l, SSeq(g(K, ()), f(K, (IV[0],)), init.maxlen, init.kind))
            elif kd[0] == 'clist':
                put(s, l, CList([self.sol[(l, 'e%d' % j)](K, ()) for j in range(kd[1])], init.maxlen, init.kind))
        return s

    def templates(self, k):
        """Candidate facts about the primitive recurrences: (symbol, K -> term)."""
        out = []
        for x in self.P:
            nm = self.name[x]
            if x[1] == 'B' or Fn.table[nm].sort == 'B':
                continue
            if self.arity[x] == 0:
                a = lambda K, nm=nm: tm.app(nm, K)
                i0 = self.I[x](())
                out.append((nm, 'pos', lambda K, a=a: tm.lt(ZERO, a(K))))
                out.append((nm, 'nonneg', lambda K, a=a: tm.le(ZERO, a(K))))
                out.append((nm, 'le init', lambda K, a=a, i0=i0: tm.le(a(K), i0)))
                out.append((nm, 'ge init', lambda K, a=a, i0=i0: tm.le(i0, a(K))))
        # scalars overwritten in every iteration by a value the body obtains from a contract
        for it in self.items():
            l, sub, ar, acc = it
            x = (l, sub)
            if ar or x in self.P or sub == 'B' or x not in self.sol:
                continue
            f = self.sol[x]
            probe = f(k, ())
            if probe.sort == 'B' or not any(n.endswith("'") for n in tm.fnames(probe)):
                continue
            a = lambda K, f=f: f(K, ())
            i0 = acc(self.st)(())
            if any(y.op == 'sum' for y in tm.subterms(probe)) or any(y.op == 'sum' for y in tm.subterms(i0)):
                continue
            for nm_, mk in (('pos', lambda v, i0=i0: tm.lt(ZERO, v)), ('nonneg', lambda v, i0=i0: tm.le(ZERO, v)),
                            ('le init', lambda v, i0=i0: tm.le(v, i0)), ('ge init', lambda v, i0=i0: tm.le(i0, v))):
                out.append((x, nm_, (lambda K, a=a, mk=mk: mk(a(K))), mk))
        for h in self.eng.hooks.get('templates', []):
            out.extend(h(self, k))
        return out

    def finish(self, k):
        eng = self.eng
        st = self.st
        alive = lambda K: tm.app(self.alive, K)
        tmpl = self.templates(k)
        # base cases
        keep = []
        for t in tmpl:
            g = self.init_next(t[2](ZERO))
            if g is not None and prove(st.ctx, g):
                keep.append(t)
        # inductive steps
        eng.quiet += 1
        try:
            while True:
                head = self.head_at(k)
                head.assume(self.guard(k))
                for t in keep:
                    head.assume(t[2](k))
                outs = self.body(head.fork(), k)
                bad = []
                for t in keep:
                    x = [y for y in self.P if self.name[y] == t[0]]
                    for s, g in outs:
                        if g is None or g[0] == 'continue':
                            goal = self.next_goal(t, s, k)
                            if goal is None or not prove(s.ctx, goal):
                                bad.append(t)
                                break
                if not bad:
                    break
                keep = [t for t in keep if t not in bad]
        finally:
            eng.quiet -= 1
        self.kept = [(t[0], t[1]) for t in keep]
        # real pass: obligations of the body are emitted for an arbitrary iteration
        head = self.head_at(k)
        head.assume(self.guard(k))
        head.assume(alive(k))
        for t in keep:
            head.assume(t[2](k))
        outs = self.body(head.fork(), k)
        res = []
        nm = self.normal(outs)
        if self.n is None and 'variant' in eng.hooks and not eng.quiet:
            eng.hooks['variant'](eng, self, head, nm)
        exits = [s for s, g in outs if g is not None and g[0] == 'exit']
        ev = []
        for s in nm:
            evs = s.events()[len(head.events()):]
            for e in evs:
                if e not in ev:
                    ev.append(e)
        conds = None
        if nm:
            end = merge_states(eng, head, nm) if len(nm) > 1 else nm[0]
            step_facts = [p for p in end.pc if p not in head.pc]
            if len(nm) > 1:
                step_facts.append(tm.tor(*[path_suffix(s, head) for s in nm]))
            # the solution and this pass describe the same value after iteration k
            for it in self.items():
                l, sub, ar, acc = it
                if ar or sub == 'B' or (l, sub) not in self.sol or (l, sub) in self.P:
                    continue
                a, b = self.sol[(l, sub)](inorm(tm.add(k, ONE)), ()), acc(end)(())
                if a is not b and a.sort != 'B' and b.sort != 'B' and not any(y.op == 'sum' for y in tm.subterms(b)) \
                        and any(n.endswith("'") for n in tm.fnames(a)):
                    step_facts.append(tm.eq(a, b))
            step_facts = [self.lift(p, k) for p in step_facts]
            self.step_facts = step_facts
        else:
            self.step_facts = [FALSE]
        self.fk = k

        breaks = any(g is not None and g[0] == 'break' for _, g in outs)

        def known_at(s, K, allprev=True, left=False):
            """Facts at the head of iteration K."""
            for t in keep:
                s.assume(t[2](K))
            s.assume(tm.le(ZERO, K))
            if allprev and self.step_facts:
                j = tm.fresh_var('j')
                simple = [f for f in self.step_facts if 'sum' not in {y.op for y in tm.subterms(f)}]
                cs = [f for f in self.step_facts if k.val in fv(f) or left and breaks]
                if cs:
                    prev = inorm(tm.sub(K, ONE))
                    c = tm.tand(*[tm.subst(f, {k.val: prev}) for f in cs])
                    s.assume(tm.implies(tm.lt(ZERO, K), c))
                    if left and breaks:
                        before = inorm(tm.sub(K, num(2)))
                        s.assume(tm.implies(tm.lt(ONE, K), tm.tand(*[tm.subst(f, {k.val: before}) for f in cs])))
                    cs2 = [f for f in cs if f in simple]
                    if cs2:
                        s.assume(tm.forall([j], tm.implies(tm.tand(tm.le(ZERO, j), tm.lt(j, K)),
                                                           tm.tand(*[tm.subst(f, {k.val: j}) for f in cs2]))))
        # leaving by break, return or raise in iteration k
        for s, g in outs:
            if g is None or g[0] == 'continue':
                continue
            known_at(s, k, left=g[0] == 'exit')
            if ev:
                s.log = ((head.log, ('loop', tuple(ev))), None)[0] if False else relog(head, s, ev)
            if g[0] == 'break':
                res.append((s, None))
            elif g[0] == 'exit':
                res.extend(eng.block(self.node.orelse, s, self.env) if self.node.orelse else [(s, None)])
            else:
                res.append((s, g))
        # normal end of a for loop
        if self.n is not None:
            s = self.head_at(self.n)
            known_at(s, self.n, left=True)
            if ev:
                s.event('loop', tuple(ev))
            if nm or not self.nonempty:
                # loop variables keep the value of the last iteration
                if self.nonempty:
                    last = inorm(tm.sub(self.n, ONE))
                    self.start(s, last)
                else:
                    for nme in target_names(self.node.target):
                        s.envs[self.env[0]][nme] = POISON
                if s.ctx.consistent() if any(g is not None and g[0] != 'continue' for _, g in outs) else True:
                    res.extend(eng.block(self.node.orelse, s, self.env) if self.node.orelse else [(s, None)])
        # drop impossible exits
        out = []
        for s, g in res:
            out.append((s, g))
        return out

    def next_goal(self, t, s, k):
        """The template at k+1 with R(k+1) replaced by the value computed by the body."""
        vals = {}
        for it in self.items():
            l, sub, ar, acc = it
            x = (l, sub)
            if len(t) > 3 and x == t[0]:
                return t[3](acc(s)(()))
            if x in self.P:
                vals[self.name[x]] = acc(s)
        g = t[2](tm.add(k, ONE))
        kp = tm.add(k, ONE)

        def rp(y):
            if y.op == 'app' and y.val in vals and y.args and y.args[0] is kp:
                return vals[y.val](tuple(y.args[1:]))
            return None
        return tm.replace(g, rp)


def relog(head, s, ev):
    evs = s.events()[len(head.events()):]
    log = head.log
    log = (log, ('loop', tuple(ev)))
    for e in evs:
        log = (log, e)
    return log


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in target_names(e)]
    return []


def prove(ctx, g):
    from .prover import prove as p, hassum
    if isinstance(g, T) and not hassum(g):
        return ctx.proves(g)
    return p(ctx, g)


# comprehensions ----------------------------------------------------------------------------------


class ArrT:
    """Array-valued element of a symbolic sequence: body over _j0.. and _i0."""
    __slots__ = ('shape', 'body', 'dtype')

    def __init__(self, shape, body, dtype):
        self.shape, self.body, self.dtype = shape, body, dtype


def comprehension(eng, elt, gens, st, env):
    yield from comp_rec(eng, elt, gens, st, env)


def comp_rec(eng, elt, gens, st, env):
    g = gens[0]
    if g.is_async:
        raise Unsupported('async comprehension')
    for st1, itv in eng.ev(g.iter, st, env):
        if isinstance(itv, RaiseV):
            yield st1, itv
            continue
        it = eng.np.iterate(eng, st1, itv)
        if it.concrete is not None:
            outs = [(st1, [])]
            for x in it.concrete:
                nxt = []
                for s, acc in outs:
                    if isinstance(acc, RaiseV):
                        nxt.append((s, acc))
                        continue
                    for s2, sg in eng.assign(g.target, x, s, env):
                        todo = [(s2, True)]
                        for c in g.ifs:
                            t2 = []
                            for s3, ok in todo:
                                if not ok:
                                    t2.append((s3, ok))
                                    continue
                                for s4, cv in eng.cond(c, s3, env):
                                    for s5, b in eng.split(s4, cv):
                                        t2.append((s5, b))
                            todo = t2
                        for s3, ok in todo:
                            if not ok:
                                nxt.append((s3, acc))
                                continue
                            if len(gens) > 1:
                                for s4, v in comp_rec(eng, elt, gens[1:], s3, env):
                                    if isinstance(v, RaiseV):
                                        nxt.append((s4, v))
                                        continue
                                    L = s4.lists[v.id]
                                    if not isinstance(L, CList):
                                        raise Unsupported('mixed comprehension')
                                    nxt.append((s4, acc + list(L.items)))
                            else:
                                for s4, v in eng.ev(elt, s3, env):
                                    nxt.append((s4, v if isinstance(v, RaiseV) else acc + [v]))
                outs = nxt
            for s, acc in outs:
                yield s, acc if isinstance(acc, RaiseV) else s.newlist(acc)
            continue
        if g.ifs:
            raise Unsupported('filtered comprehension')
        k = tm.fresh_var('c')
        mark = counter()
        s = st1.fork()
        n = num(it.n)
        s.assume(tm.tand(tm.le(ZERO, k), tm.lt(k, n)))
        eng.assign(g.target, it.item(s, k), s, env)
        base = s.fork()
        outs = list(comp_rec(eng, elt, gens[1:], s, env)) if len(gens) > 1 else list(eng.ev(elt, s, env))
        outs2 = []
        for s2, v in outs:
            outs2.append((s2, v))
        if len(outs2) != 1:
            vals = [v for _, v in outs2]
            if all(isscal(v) for v in vals):
                conds = [path_suffix(s2, base) for s2, _ in outs2]
                r = toT(vals[-1])
                for c, v in list(zip(conds, vals))[-2::-1]:
                    r = tm.ite(c, toT(v), r)
                outs2 = [(outs2[0][0], r)]
            else:
                raise Unsupported('comprehension with several outcomes')
        s2, v = outs2[0]
        if isinstance(v, RaiseV):
            raise Unsupported('raising comprehension')
        md = [l for l in modified(base, s2) if not (l[0] == 'env' and l[1] == env[0])]
        if md:
            raise Unsupported('comprehension with side effects')
        if len(gens) > 1:
            L = s2.lists[v.id]
            if isinstance(L, CList):
                m = num(len(L.items))
                if not L.items:
                    yield st1, st1.newlist([])
                    continue
                inner = freeze(s2, L.items[-1], k)
                vals = [freeze(s2, x, k) for x in L.items]
                w = m

                def pick(i):
                    raise Unsupported('mixed comprehension')
                if len(L.items) == 1:
                    yield st1, st1.newlist(SSeq(n, vsub(vals[0], {k.val: IV[0]})))
                    continue
                raise Unsupported('mixed comprehension')
            e = freeze(s2, L.elem, k)
            m = L.n
            if k.val in fv(m):
                raise Unsupported('comprehension with varying inner length')
            elem = vsub(e, {IVN[0]: tm.mod(IV[0], m), k.val: tm.fdiv(IV[0], m)})
            yield st1, st1.newlist(SSeq(inorm(tm.mul(n, m)), elem))
            continue
        if isinstance(v, ObjRef) and not isinstance(v, Elem) and v.id not in base.objs:
            yield st1, family(st1, s2, v, k, n, mark)
            continue
        e = vsub(freeze(s2, v, k), {k.val: IV[0]})
        st1_l = st1
        # keep lists allocated for element templates
        for i, l in s2.lists.items():
            st1_l.lists.setdefault(i, l)
        yield st1_l, st1_l.newlist(SSeq(n, e))


def family(st, s2, o, k, n, mark):
    """A list of n objects, one for each value of k, from the object built for a symbolic k."""
    cls, d = s2.objs[o.id]

    def own(t):
        bad = [x for x in tm.fnames(t) | fv(t) if x != k.val and not x.startswith('_i') and is_new(x, mark)]
        if bad:
            raise Unsupported('objects of a comprehension depend on %s' % bad)
        return tm.subst(t, {k.val: IV[0]})
    out = {}
    for nm, v in d.items():
        if isinstance(v, Arr):
            body = own(s2.cell(v, [IV[j + 1] for j in range(len(v.shape))]))
            sh = tuple(own(x) for x in v.shape)
            out[nm] = Cells(st.alloc((n,) + sh, body, s2.dtype(v)).buf, sh)
            if v.buf in st.heap:
                st.retire(v)
        elif isscal(v):
            out[nm] = Cells(st.alloc((n,), own(toT(v)), 'i' if toT(v).sort == 'I' else 'f').buf, None)
        elif v is None or isinstance(v, (bool, str)) or v is POISON:
            out[nm] = v
        else:
            raise Unsupported('attribute %s of an object of a comprehension' % nm)
    f = st.newobj(cls, out)
    return st.newlist(SSeq(n, Elem(f.id, IV[0])))


def freeze(st, v, k):
    if isinstance(v, Arr):
        nd = len(v.shape)
        return ArrT(v.shape, st.cell(v, [var('_j%d' % i) for i in range(nd)]), st.dtype(v))
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return toT(v)
    if isinstance(v, ListRef):
        L = st.lists[v.id]
        if isinstance(L, CList):
            return CList([freeze(st, x, k) for x in L.items])
        raise Unsupported('nested symbolic list')
    if isinstance(v, tuple):
        return tuple(freeze(st, x, k) for x in v)
    if isinstance(v, (T, ArrT, CList)) or v is None:
        return v
    raise Unsupported('element %r of a symbolic sequence' % (v,))


def vsub(v, s):
    if isinstance(v, T):
        return tm.subst(v, s)
    if isinstance(v, ArrT):
        return ArrT(tuple(tm.subst(d, s) for d in v.shape), tm.subst(v.body, s), v.dtype)
    if isinstance(v, CList):
        return CList([vsub(x, s) for x in v.items], v.maxlen, v.kind)
    if isinstance(v, tuple):
        return tuple(vsub(x, s) for x in v)
    return v
