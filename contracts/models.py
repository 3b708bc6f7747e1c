"""Class contracts of the alternating-update models (archetypal analysis, GPNH, MTD).

The class invariant is inferred from the code on every run: the workspace is initialised by
the real _initialize_workspace; every cached array it fills is a candidate invariant "this
cache equals the same formula of the current factors"; candidates an update does not
re-establish are dropped (and the cache is then arbitrary at entry).  All update methods are
verified from an arbitrary state satisfying the invariant, so the results hold in every
update history."""
from contracts.base import *
from dv.prover import prove


def const(st, name, *facts, sort='R'):
    v = var(name, sort)
    for f in facts:
        st.assume(f(v))
    return v


def stoch_fn(name, shape, axis):
    """Function symbol with non-negative values whose sums along the axis are one."""
    F = tm.fn(name, len(shape), 'R', shape)
    F.facts.append(lambda *i: le(ZERO, app(name, *i)))
    oth = [s for p, s in enumerate(shape) if p != axis]
    F.sumrules.append((axis, lambda *o: ZERO, lambda *o: shape[axis],
                       (lambda *o: rng(*zip(o, oth))) if oth else None, lambda *o: ONE))
    F.stoch = axis
    if num(shape[axis]) is ONE:
        F.facts.append(lambda *i: implies(rng(*zip(i, shape)), eq(app(name, *i), ONE)))
    return F


def single(shape, axis):
    """sums along an axis of length one: the only stochastic array is all ones"""
    return num(shape[axis]) is ONE


def stoch_array(st, shape, name, axis, **kw):
    shape = tuple(num(s) for s in shape)
    if single(shape, axis):
        return st.alloc(shape, lambda idx: ONE, 'f', note=name, **kw)
    nm = name
    stoch_fn(nm, shape, axis)
    return st.alloc(shape, lambda idx: app(nm, *idx), 'f', note=nm, **kw)


# contracts of the repository functions the models call -------------------------------------

def c_step_length(hook=None):
    """get_next_spg_step_length: proved in C05.  0 < next <= max(1/2, sigma_two) * current."""
    def h(eng, st, f, args, kw):
        d = eng.bind_args(st, f, args, kw)
        if isinstance(d, RaiseV):
            yield st, d
            return
        names = [x.arg for x in f.node.args.args]
        cur, delta, fo, fn_, s1, s2 = [num(d[n]) if not isinstance(d[n], T) else d[n] for n in names[:6]]
        eng.oblige(st, lt(ZERO, cur), 'get_next_spg_step_length: positive current step', 'pre')
        if hook:
            hook(eng, st, cur, delta, fo, fn_)
        v = tm.fresh_var('spgstep', 'R')
        half = num('1/2')
        st.assume(lt(ZERO, v))
        st.assume(tor(eq(v, mul(half, cur)), tand(le(s1, v), le(v, mul(s2, cur)))))
        yield st, v
    return h


def c_alpha(eng, st, f, args, kw):
    """get_next_spg_alpha: proved in C05.  Result within the configured bounds."""
    d = eng.bind_args(st, f, args, kw)
    if isinstance(d, RaiseV):
        yield st, d
        return
    names = [x.arg for x in f.node.args.args]
    lo, hi = [d[n] if isinstance(d[n], T) else num(d[n]) for n in names[2:4]]
    v = tm.fresh_var('spgalpha', 'R')
    st.assume(tand(le(lo, v), le(v, hi)))
    yield st, v


def c_project(axis, hook=None):
    """simplex_project_rows / _columns: proved in C01.  Writes the projection of every row."""
    def h(eng, st, f, args, kw):
        d = eng.bind_args(st, f, args, kw)
        if isinstance(d, RaiseV):
            yield st, d
            return
        A = list(d.values())[0]
        if not isinstance(A, Arr) or len(A.shape) != 2:
            raise Unsupported('projection of %r' % (A,))
        if hook:
            hook.hook(eng, st, A, axis)
        nm = tm.fresh_name('proj')
        F = stoch_fn(nm, A.shape, axis)
        F.proj = True
        st.write(A, lambda i, A=A: ONE if single(A.shape, axis) else app(nm, *i))
        if hook:
            hook.after(eng, st, A, nm)
        yield st, None
    return h


def c_project_vector(hook=None):
    def h(eng, st, f, args, kw):
        d = eng.bind_args(st, f, args, kw)
        if isinstance(d, RaiseV):
            yield st, d
            return
        x, out = d.get('x'), d.get('out')
        if not isinstance(x, Arr) or len(x.shape) != 1:
            raise Unsupported('projection of %r' % (x,))
        eng.oblige(st, le(ONE, x.shape[0]), 'simplex_project_vector: non-empty vector', 'pre')
        if hook:
            hook.hook(eng, st, x, 0)
        nm = tm.fresh_name('proj')
        F = stoch_fn(nm, x.shape, 0)
        F.proj = True
        if hook:
            hook.after(eng, st, x, nm)
        if out is not None:
            st.write(out, lambda i: ONE if single(x.shape, 0) else app(nm, *i))
            yield st, out
        else:
            yield st, st.alloc(x.shape, lambda i: ONE if single(x.shape, 0) else app(nm, *i), 'f')
    return h


class Model:
    """mod, cls: where; dims: dict of dimension symbols; factors: name -> (shape, stochastic
    axis or None); data: names of the attributes that hold the (constant) data."""

    def __init__(self, S, mod, cls, ctor, factors, data, updates, spec, case_facts=(), init_extra=None, symbols=(), kw=None,
                 workspace='_initialize_workspace', cost='_evaluate_cost', loop='_iterate'):
        self.S = S
        self.workspace, self.cost, self.loop = workspace, cost, loop
        self.mod, self.cls = mod, cls
        self.symbols = symbols
        self.factors, self.data, self.updates, self.spec = factors, data, updates, spec
        self.E = E = S.engine()
        self.qual = '%s.%s' % (mod, cls)
        C = E.func(mod, cls)
        st = E.fresh_state()
        for f in case_facts:
            st.assume(f)
        kws = self.options(st)
        kws.update(kw or {})
        self.opts = dict(kws)
        self.base_facts = list(st.pc)
        self.ctor = ctor
        args, kws2 = ctor(st)
        kws.update(kws2)
        outs = S.outcomes(E, list(E.call(st, C, args, kws)), 'constructor')
        if not outs:
            raise Unsupported('constructor has no normal outcome')
        st, self.o = outs[0]
        if len(outs) > 1:
            raise Unsupported('constructor has several outcomes')
        a = attrs(st, self.o)
        for nm, (shape, ax) in list(data.items()) + list(factors.items()):
            if isinstance(shape, str) and shape == 'sym':
                raise Unsupported('sym')
            if ax is None:
                st_arr = st.alloc_fn(shape, nm, 'f', origin='factor')
            elif ax == 'symmetric':
                tm.fn(nm, 2, 'R', shape, True)
                st_arr = st.alloc(shape, lambda i, nm=nm: app(nm, *i), 'f', note=nm)
            else:
                st_arr = stoch_array(st, shape, nm, ax)
            a[nm] = st_arr
        if init_extra:
            init_extra(E, st, self.o)
        self.pre_init = st.fork()
        outs = S.outcomes(E, list(E.call(st, E.getattr(st, self.o, workspace), [], {})), workspace)
        if len(outs) != 1:
            raise Unsupported('%s has %d outcomes' % (workspace, len(outs)))
        self.st0 = outs[0][0]
        S.definedness(E)
        for nm in list(data) + list(factors):
            # the workspace set-up leaves data and factors alone (alpha of relaxed AA is set here)
            pass

    def options(self, st):
        amin = const(st, 'alpha_min', lambda v: lt(ZERO, v))
        amax = const(st, 'alpha_max', lambda v: le(amin, v))
        s1 = const(st, 'sigma_one', lambda v: lt(ZERO, v))
        s2 = const(st, 'sigma_two', lambda v: tand(lt(ZERO, v), lt(v, ONE)))
        g = const(st, 'ls_gamma', lambda v: tand(lt(ZERO, v), lt(v, ONE)))
        tol = const(st, 'step_tol', lambda v: le(ZERO, v))
        self.amin, self.amax, self.gamma, self.step_tol = amin, amax, g, tol
        return {'alpha_min': amin, 'alpha_max': amax, 'sigma_one': s1, 'sigma_two': s2, 'gamma': g,
                'step_size_tolerance': tol}

    fs_inits = ('furthest_sum',)

    def q(self, method):
        """qualified name of a method (of the class that defines it)"""
        return self.E.getattr(self.pre_init, self.o, method).qual

    def data_from(self, k, F):
        return F(k)

    # ------------------------------------------------------------------------------------
    def content(self, st, name):
        return fn1(st, attrs(st, self.o)[name])

    def spec_of(self, st):
        a = attrs(st, self.o)
        return self.spec(lambda nm: fn1(st, a[nm]))

    def run(self, st, method, args=(), kw=None):
        return list(self.E.call(st, self.E.getattr(st, self.o, method), list(args), dict(kw or {})))

    def attr_arrays(self, st):
        return {k: v for k, v in attrs(st, self.o).items() if isinstance(v, Arr)}

    def infer(self):
        """Candidate invariants and the set of evolving attributes."""
        E, S, st0 = self.E, self.S, self.st0
        fixed = set(self.data) | set(self.factors)
        a0 = attrs(st0, self.o)
        evol = set(self.factors)
        self.cand = {}
        for k, v in a0.items():
            if k in fixed:
                continue
            if isinstance(v, Arr) and v.full:
                b = st0.heap[v.buf].body
                if tm.fnames(b) & fixed and tm.fnames(b) <= fixed | set(self.symbols):
                    self.cand[k] = b
            elif isinstance(v, T) and v.sort == 'R' and tm.fnames(v) and tm.fnames(v) <= fixed:
                self.cand[k] = v
        self.mods = {u: set() for u in self.updates}
        E.quiet += 1
        try:
            for _ in range(8):
                changed = False
                self.evol = evol
                for u in self.updates:
                    st = self.havoc()
                    before = st.fork()
                    for s, v in self.run(st, u):
                        if isinstance(v, RaiseV):
                            continue
                        ev = self.modified(before, s)
                        self.mods[u] |= ev
                        if not ev <= evol:
                            evol |= ev
                            changed = True
                        for k in list(self.cand):
                            if k in evol or ev & set(self.factors):
                                if not self.cand_ok(s, k):
                                    del self.cand[k]
                                    changed = True
                if not changed:
                    break
        finally:
            E.quiet -= 1
        return self

    def modified(self, before, s):
        out = set()
        b, a = attrs(before, self.o), attrs(s, self.o)
        for k in a:
            if k not in b or not same(a[k], b[k]):
                out.add(k)
            elif isinstance(a[k], Arr) and s.heap[a[k].buf].body is not before.heap[b[k].buf].body:
                out.add(k)
            elif isinstance(a[k], ListRef) and not same(s.lists[a[k].id], before.lists[b[k].id]):
                out.add(k)
        return out

    def formula(self, st, k):
        """Candidate invariant k over the current factors of st."""
        a = attrs(st, self.o)
        names = set(self.data) | set(self.factors)
        fns = {nm: fn1(st, a[nm]) for nm in names}

        def rp(x):
            if x.op == 'app' and x.val in fns:
                return fns[x.val](*[tm.replace(y, rp) for y in x.args])
            return None
        return tm.replace(self.cand[k], rp)

    def cand_goal(self, s, k):
        a = attrs(s, self.o)
        v = a.get(k)
        f = self.formula(s, k)
        if isinstance(v, Arr):
            idx = [tm.fresh_var('ix') for _ in v.shape]
            ctx = s.ctx.extend(rng(*zip(idx, v.shape)))
            return ctx, eq(s.cell(v, idx), tm.subst(f, dict(zip(IVN, idx))))
        return s.ctx, eq(v if isinstance(v, T) else num(v), f)

    def cand_ok(self, s, k):
        v = attrs(s, self.o).get(k)
        if not isinstance(v, (Arr, T, int, float)):
            return False
        c, g = self.cand_goal(s, k)
        return prove(c, g)

    def havoc(self, st=None, which=None):
        """An arbitrary state satisfying the class invariant (of the attributes `which` of st)."""
        st = self.st0.fork() if st is None else st
        a = attrs(st, self.o)
        which = self.evol if which is None else which
        for k in sorted(which & set(self.factors)):
            shape, ax = self.factors[k]
            nm = tm.fresh_name(k)
            if ax is None or ax == 'symmetric':
                a[k] = st.alloc_fn(shape, nm, 'f')
            else:
                a[k] = stoch_array(st, shape, nm, ax)
        dep = {k for k in self.cand if tm.fnames(self.cand[k]) & which}
        for k in sorted(which | dep if which is not self.evol else self.evol | set(self.cand)):
            v = a[k]
            if k in self.factors:
                continue
            if k in self.cand:
                f = self.formula(st, k)
                a[k] = st.alloc(v.shape, f, st.dtype(v)) if isinstance(v, Arr) else f
            elif isinstance(v, Arr):
                a[k] = st.alloc_fn(v.shape, tm.fresh_name('h.' + k), st.dtype(v))
            elif isinstance(v, bool):
                raise Unsupported('boolean attribute %s changes' % k)
            elif isinstance(v, (int, float)) or (isinstance(v, T) and v.sort in 'RI'):
                x = tm.fresh_var('h.' + k, 'R')
                if k.startswith('alpha') or positive(v):
                    st.assume(self.alpha_inv(x))
                a[k] = x
            elif isinstance(v, ListRef):
                L = st.lists[v.id]
                if isinstance(L, CList):
                    a[k] = st.newlist(CList([tm.fresh_var('h.mem', 'R') for _ in L.items], L.maxlen, L.kind))
                else:
                    nm = tm.fresh_name('h.' + k)
                    tm.fn(nm, 1, 'R')
                    a[k] = st.newlist(SSeq(L.n, app(nm, IV[0]), L.maxlen, L.kind))
            elif v is None or v is POISON:
                a[k] = POISON
            else:
                raise Unsupported('attribute %s of kind %r changes' % (k, v))
        return st

    def alpha_inv(self, x):
        """bounded positive: between min(1, alpha_min) and max(1, alpha_max)"""
        return tand(lt(ZERO, x), tor(le(self.amin, x), le(ONE, x)), tor(le(x, self.amax), le(x, ONE)))

    def check_inv(self, label, before, s, stochastic=True, caches=True):
        """The class invariant holds again in s."""
        S = self.S
        a = attrs(s, self.o)
        b = attrs(before, self.o)
        if caches:
            for k in sorted(self.cand):
                if k not in self.evol and not self.affected(k):
                    S.fact('%s: %s unchanged' % (label, k), same(a[k], b[k]))
                    continue
                c, g = self.cand_goal(s, k)
                S.ob('%s: invariant %s matches the factors' % (label, k), c, g)
            for k in sorted(self.evol):
                v = a[k]
                if k in self.factors or k in self.cand:
                    continue
                if k.startswith('alpha') and not isinstance(v, Arr):
                    S.ob('%s: %s stays bounded and positive' % (label, k), s.ctx, self.alpha_inv(v if isinstance(v, T) else num(v)))
            own = {}
            for k, v in self.attr_arrays(s).items():
                own.setdefault(v.buf, []).append(k)
            key = set(self.factors) | set(self.data) | set(self.cand)
            bad = [ks for ks in own.values() if len(ks) > 1 and set(ks) & key]
            S.fact('%s: data, factors and caches do not share storage' % label, not bad, 'shared: %s' % bad)
        for k in self.data:
            S.fact('%s: %s unchanged' % (label, k), same(a[k], b[k]) and s.heap[a[k].buf].body is before.heap[b[k].buf].body)
        bad = sorted(k for k in a if k not in self.evol and k not in self.data and (k not in b or not same(a[k], b[k])))
        S.fact('%s: settings unchanged' % label, not bad, 'changed: %s' % bad)
        if stochastic:
            for k, (shape, ax) in self.factors.items():
                if ax is None or ax == 'symmetric':
                    continue
                if same(a[k], b[k]) and s.heap[a[k].buf].body is before.heap[b[k].buf].body:
                    continue
                self.check_stoch(label, s, a[k], ax, k)

    def check_stoch(self, label, s, arr, ax, k):
        S = self.S
        f = fn1(s, arr)
        idx = [tm.fresh_var('ix') for _ in arr.shape]
        S.ob('%s: %s non-negative' % (label, k), s.ctx.extend(rng(*zip(idx, arr.shape))), le(ZERO, f(*idx)))
        oth = [(i, n) for p, (i, n) in enumerate(zip(idx, arr.shape)) if p != ax]
        tot = mksum(0, arr.shape[ax], lambda l: f(*[l if p == ax else i for p, i in enumerate(idx)]))
        S.ob('%s: %s sums to one along axis %d' % (label, k, ax), s.ctx.extend(rng(*oth)) if oth else s.ctx, eq(tot, ONE))

    def affected(self, k):
        return bool(tm.fnames(self.cand[k]) & set(self.factors))

    # contract of _evaluate_cost -----------------------------------------------------------
    def c_cost(self, abstract=False):
        """Executes the real body, obliges the result to be the documented objective of the
        factors held at that moment, and returns that objective."""
        def h(eng, st, f, args, kw):
            for s, v in eng.call_user(st, f, args[1:] if f.bound is not None else args, kw):
                if isinstance(v, RaiseV):
                    yield s, v
                    continue
                sp = self.spec_of(s)
                eng.oblige(s, eq(v if isinstance(v, T) else num(v), sp), 'cost evaluated equals the documented objective of the current factors', 'cost')
                yield s, self.abstract_cost(s) if abstract else sp
        return h

    def abstract_cost(self, s):
        """A name for the objective of the factors of s (equal contents, equal name)."""
        key = 'cost!' + '.'.join(str(s.heap[attrs(s, self.o)[k].buf].body.id) for k in sorted(self.factors))
        return var(key, 'R')

    def pre_update(self, eng, st, u):
        """The class invariant as precondition of an update (obligations at the call site)."""
        a = attrs(st, self.o)
        for k in sorted(self.cand):
            v = a.get(k)
            f = self.formula(st, k)
            if isinstance(v, Arr):
                idx = [tm.fresh_var('ix') for _ in v.shape]
                x, y = st.cell(v, idx), tm.subst(f, dict(zip(IVN, idx)))
                if x is not y:
                    eng.oblige(st, tm.forall(idx, implies(rng(*zip(idx, v.shape)), eq(x, y))), '%s: precondition, %s matches the factors' % (u, k), 'pre')
            elif isinstance(v, (T, int, float)):
                eng.oblige(st, eq(v if isinstance(v, T) else num(v), f), '%s: precondition, %s matches the factors' % (u, k), 'pre')
            else:
                eng.oblige(st, FALSE, '%s: precondition, %s matches the factors' % (u, k), 'pre')
        for k in sorted(self.evol):
            v = a.get(k)
            if k.startswith('alpha') and not isinstance(v, Arr) and k not in self.factors and isinstance(v, (T, int, float)):
                eng.oblige(st, self.alpha_inv(v if isinstance(v, T) else num(v)), '%s: precondition, %s bounded and positive' % (u, k), 'pre')
        for k, (shape, ax) in self.data.items():
            if ax == 'symmetric' and isinstance(a.get(k), Arr):
                idx = [tm.fresh_var('ix') for _ in shape]
                x, y = st.cell(a[k], idx), st.cell(a[k], idx[::-1])
                if x is not y:
                    eng.oblige(st, tm.forall(idx, implies(rng(*zip(idx, shape)), eq(x, y))), '%s: precondition, %s symmetric' % (u, k), 'pre')
        for k, (shape, ax) in self.factors.items():
            if ax is None or ax == 'symmetric':
                continue
            arr = a.get(k)
            if not isinstance(arr, Arr):
                eng.oblige(st, FALSE, '%s: precondition, %s is an array' % (u, k), 'pre')
                continue
            f = fn1(st, arr)
            idx = [tm.fresh_var('ix') for _ in shape]
            if f(*idx) is ONE and single(shape, ax):
                continue
            if f(*idx).op == 'app' and getattr(Fn.table[f(*idx).val], 'stoch', None) == ax:
                continue
            eng.oblige(st, tm.forall(idx, implies(rng(*zip(idx, shape)), le(ZERO, f(*idx)))), '%s: precondition, %s non-negative' % (u, k), 'pre')
            oth = [(i, m) for p_, (i, m) in enumerate(zip(idx, shape)) if p_ != ax]
            tot = mksum(0, shape[ax], lambda l: f(*[l if p_ == ax else i for p_, i in enumerate(idx)]))
            g = eq(tot, ONE)
            eng.oblige(st, tm.forall([i for i, _ in oth], implies(rng(*oth), g)) if oth else g, '%s: precondition, %s stochastic' % (u, k), 'pre')

    def c_update(self, u):
        """Contract of an update method, verified on its own from every state satisfying the
        class invariant: it re-establishes the invariant and modifies only mods[u]."""
        def h(eng, st, f, args, kw):
            self.pre_update(eng, st, u)
            s = self.havoc(st, self.mods[u])
            st.event('update', u)
            yield s, tm.fresh_var('err', 'R')
        return h


class LoopCut:
    """Loop contract: the loop body is verified once from an arbitrary state satisfying the
    class invariant and the retained facts about the local scalars (Houdini)."""

    def __init__(self, m, hook=None):
        self.m, self.hook = m, hook
        self.used = 0

    def install(self):
        self.m.E.hooks['loop'] = self

    def facts(self, s, env, l, v0, k, c0, cur):
        v = s.envs[l[1]].get(l[2])
        v = num(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        if not isinstance(v, T) or v.sort == 'B':
            return {}
        out = {'cost': eq(v, cur), 'le c0': le(v, c0)}
        if isinstance(v0, (T, int, float)) and not isinstance(v0, bool):
            z = v0 if isinstance(v0, T) else num(v0)
            out['count'] = eq(v, add(z, k))
            out['up'] = le(z, v)
        out['kminus1'] = eq(v, sub(k, ONE))
        out['k'] = eq(v, k)
        return out

    def __call__(self, eng, node, st, env, n, start, test):
        from dv.loops import Loop, modified, get, put
        m = self.m
        k = tm.fresh_var('it')
        L = Loop(eng, node, st, env, n, start, test)
        a0 = attrs(st, m.o)
        c0 = m.abstract_cost(st)
        mods = set()
        eng.quiet += 1
        try:
            for _ in range(8):
                head = self.head(st, k, mods, L)
                new = set()
                for s, g in L.body(head.fork(), k):
                    if g is None or g[0] == 'continue':
                        for l in modified(head, s):
                            if l[0] == 'env' or (l[0] == 'attr' and l[1] == m.o.id):
                                if l not in mods:
                                    new.add(l)
                            elif l[0] == 'buf' and any(isinstance(v, Arr) and v.buf == l[1] for v in a0.values()) or l[0] == 'list':
                                return None     # left to the general treatment of loops
                if not new:
                    break
                mods |= new
            if not any(l[0] == 'attr' and l[2] in m.evol for l in mods):
                return None
            # Houdini on the scalar locals
            cand = {}
            for l in mods:
                if l[0] == 'env':
                    v0 = get(st, l)
                    for nm in ('cost', 'le c0', 'count', 'up', 'kminus1', 'k'):
                        cand[(l, nm)] = v0
            base = [c for c in cand if self.holds(st, env, c, cand[c], ZERO, c0, st)]
            cand = {c: cand[c] for c in base}
            while True:
                head = self.head(st, k, mods, L)
                for c in cand:
                    f = self.fact(head, env, c, cand[c], k, c0, head)
                    if f is not None:
                        head.assume(f)
                bad = set()
                for s, g in L.body(head.fork(), k):
                    if g is None or g[0] == 'continue':
                        for c in cand:
                            if not self.holds(s, env, c, cand[c], add(k, ONE), c0, s):
                                bad.add(c)
                if not bad:
                    break
                cand = {c: v for c, v in cand.items() if c not in bad}
        finally:
            eng.quiet -= 1
        self.kept = sorted((c[0][2], c[1]) for c in cand)
        self.used += 1
        head = self.head(st, k, mods, L)
        for c in cand:
            f = self.fact(head, env, c, cand[c], k, c0, head)
            if f is not None:
                head.assume(f)
        res = []
        for s, g in L.body(head.fork(), k):
            normal = g is None or g[0] == 'continue'
            if normal:
                m.pre_update(eng, s, 'loop invariant')
            if self.hook:
                self.hook(eng, head, s, k, 'continue' if normal else g[0], n)
            if normal:
                if n is None:
                    continue
                # the loop ends normally after the last iteration
                s = s.fork()
                s.assume(eq(add(k, ONE), n))
                s.event('iterations', add(k, ONE), 'exhausted')
                if not s.ctx.consistent():
                    continue
                res.extend(eng.block(node.orelse, s, env) if node.orelse else [(s, None)])
            elif g[0] == 'break':
                s.event('iterations', add(k, ONE), 'break')
                res.append((s, None))
            elif g[0] == 'exit':
                s.event('iterations', k, 'exit')
                res.extend(eng.block(node.orelse, s, env) if node.orelse else [(s, None)])
            else:
                s.event('iterations', add(k, ONE), g[0])
                res.append((s, g))
        if n is not None and not st.ctx.proves(lt(ZERO, n)):
            s = st.fork()
            s.decide(le(n, ZERO))
            if s.ctx.consistent():
                s.event('iterations', ZERO, 'zero')
                for nm in target(node.target):
                    if nm not in s.envs[env[0]]:
                        s.envs[env[0]][nm] = POISON
                res.extend(eng.block(node.orelse, s, env) if node.orelse else [(s, None)])
        return res

    def head(self, st, k, mods, L):
        s = st.fork()
        s.assume(L.guard(k))
        m = self.m
        at = {l[2] for l in mods if l[0] == 'attr' and l[1] == m.o.id}
        if at - m.evol:
            raise Unsupported('loop changes attributes %s' % sorted(at - m.evol))
        if at:
            m.havoc(s, at)
        for l in mods:
            if l[0] == 'env':
                v = st.envs[l[1]].get(l[2], POISON)
                if isinstance(v, bool) or not isinstance(v, (T, int, float)) or (isinstance(v, T) and v.sort == 'B'):
                    s.envs[l[1]][l[2]] = POISON
                else:
                    s.envs[l[1]][l[2]] = tm.fresh_var('l.' + l[2], 'R')
        return s

    def fact(self, s, env, c, v0, k, c0, cur):
        return self.facts(s, env, c[0], v0, k, c0, self.m.abstract_cost(cur)).get(c[1])

    def holds(self, s, env, c, v0, k, c0, cur):
        f = self.fact(s, env, c, v0, k, c0, cur)
        return f is not None and s.ctx.proves(f)


def target(t):
    from dv.loops import target_names
    return target_names(t) if t is not None else []


def reset(m):
    m.E.contracts.clear()
    m.E.hooks.clear()
    m.E.obligations = []
    m.install()
    return m


def positive(v):
    return isinstance(v, (int, float)) and v > 0


def scalars(t, idx):
    """Subterms of t that do not depend on the index variables: candidate factors."""
    names = {i.val for i in idx}
    out = [ONE]
    for x in sorted(tm.subterms(t), key=lambda x: x.id):
        if x.sort == 'R' and x.op in ('var', 'app', 'ite') and not (fv(x) & names) and not bound_in(t, x):
            out.append(x)
    return out


def bound_in(t, x):
    from dv.prover import bound_names
    return bool(fv(x) & bound_names(t))
