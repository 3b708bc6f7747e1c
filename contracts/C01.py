"""Projection onto the standard simplex: the nearest point, for the vector and the matrix forms."""
from contracts.base import *
from dv.prover import prove, decided
from dv.core import IVN
from dv.nf import inorm

MOD = 'reor.simplex_projection'
n, m = var('n'), var('m')


def rearranged(st, y, xf, nn):
    """sum of y over all entries of x, over the entries in sorted order (np.sort: same multiset)"""
    i = tm.fresh_var('e')
    xi, t = xf(i), y(i)
    for nm in sorted(tm.fnames(t)):
        g = tm.Fn.table.get(nm)
        src = getattr(g, 'perm_of', None)
        if src is None:
            continue
        if not st.ctx.proves(eq(src[1], nn)) or tm.subst(src[0], {IVN[0]: i}) is not xi:
            continue
        q = tm.fresh_var('p')
        r = tm.replace(t, lambda z: app(nm, q) if z is xi else None)
        if i.val in fv(r):
            continue
        return nm, q, r
    raise Unsupported('the shift is not a function of the sorted entries')


def flip(z):
    """a sum over decreasing positions, written over increasing ones"""
    if z.op == 'sum' and z.args[2].op == 'app' and len(z.args[2].args) == 1 and z.args[0] is ZERO:
        a = z.args[2].args[0]
        b = var(z.val)
        rest = inorm(add(a, b))
        if z.val not in fv(rest):
            return mksum(0, z.args[1], lambda i: app(z.args[2].val, inorm(add(sub(rest, sub(z.args[1], ONE)), i))))
    return None


def tidy(t, ctx):
    """the same term with decided conditions resolved and integer arguments in normal form"""
    t = decided(ctx, t)[1]
    t = tm.replace(t, flip)
    t = tm.replace(t, lambda z: inorm(z) if z.sort == 'I' and z.op in ('add', 'mul', 'app', 'ite') else None)
    return t


def peel(nm, nn, ln, run):
    """a run is its first entry and the run after it"""
    return eq(run(ln), add(app(nm, inorm(sub(nn, ln))), run(inorm(sub(ln, ONE)))))


def total(S, lab, s, y, xf, nn):
    """the entries of the result sum to one"""
    nm, q, r = rearranged(s, y, xf, nn)
    ctx = Ctx([a for a in s.ctx.ass])
    ctx = ctx.extend(*[tidy(a, s.ctx) for a in s.ctx.ass if a.op != 'forall'])
    r = tidy(r, ctx)
    tops = [z for z in tm.subterms(r) if z.op == 'max' and ZERO in z.args and q.val in fv(z)]
    base = ctx
    runs = lambda t: {inorm(z.args[1]) for z in tm.subterms(t) if z.op == 'sum' and any(x.val == nm for x in tm.apps(z)) and z.args[0] is ZERO}
    lens = sorted(runs(r), key=lambda z: z.id)
    if len(tops) != 1 or not lens:
        raise Unsupported('shape of the result: %s' % tm.show(r)[:200])
    lin = add(*tops[0].args)
    shift = tidy(sub(app(nm, q), lin), ctx)
    run = lambda ln: tidy(mksum(0, ln, lambda i: app(nm, add(sub(nn, ln), i))), ctx)
    # the run of the last ln entries determines the shift
    for ln in lens + [inorm(add(z, ONE)) for z in lens]:
        if prove(ctx.extend(le(ONE, ln), *[peel(nm, nn, z, run) for z in lens]), eq(add(mul(shift, ln), ONE), run(ln))):
            break
    else:
        ln = lens[0]
    first = inorm(sub(nn, ln))
    S.ob('%s: the run that determines the shift is not empty' % lab, ctx, tand(le(ONE, ln), le(ln, nn)))
    allruns = {ln} | set(lens)
    for x in ctx.ass:
        if x.op != 'forall':
            allruns |= runs(x)
    for z in sorted(allruns, key=lambda z: z.id):
        S.ob('%s: first entry of a run' % lab, ctx.extend(le(ONE, z), le(z, nn)), peel(nm, nn, z, run))
        ctx = ctx.extend(implies(tand(le(ONE, z), le(z, nn)), peel(nm, nn, z, run)))
    whole, rest = run(ln), run(inorm(sub(ln, ONE)))
    S.ob('%s: shift: one entry' % lab, ctx.extend(eq(ln, ONE), eq(rest, ZERO)), le(shift, app(nm, first)))
    c = ctx.extend(lt(ONE, ln))
    lemma = le(sub(whole, ONE), mul(ln, app(nm, first)))
    S.ob('%s: shift: more entries' % lab, c, lemma)
    S.ob('%s: shift: more entries (divided)' % lab, c.extend(lemma), le(shift, app(nm, first)))
    S.ob('%s: the entry before the run is not above the shift' % lab, base.extend(lt(ln, nn)), le(app(nm, inorm(sub(first, ONE))), shift))
    # from here on the shift is a number
    T_ = tm.fresh_var('T', 'R')
    r1 = tm.replace(r, lambda z: tm.tmax(ZERO, sub(app(nm, q), T_)) if z is tops[0] else None)
    S.ob('%s: the result depends on the entry and the shift only' % lab, base, eq(tm.subst(r1, {T_.val: shift}), r))
    ctx = Ctx([a for a in s.ctx.ass if a.op == 'forall'] + [le(ONE, ln), le(ln, nn), le(T_, app(nm, first)), implies(lt(ln, nn), le(app(nm, inorm(sub(first, ONE))), T_))])
    below, above = ctx.extend(tand(le(ZERO, q), lt(q, first))), ctx.extend(tand(le(first, q), lt(q, nn)))
    S.ob('%s: entries before the run are cut off' % lab, below, eq(r1, ZERO))
    S.ob('%s: entries of the run are shifted' % lab, above, eq(r1, sub(app(nm, q), T_)))
    ctx = base.extend(le(ONE, ln), *[implies(tand(le(ONE, z), le(z, nn)), peel(nm, nn, z, run)) for z in lens])
    S.ob('%s: the shifted run sums to one' % lab, ctx, eq(mksum(0, ln, lambda i: tm.subst(lin, {q.val: add(first, i)})), ONE))


def vector(S):
    E = S.engine()
    f = E.func(MOD, 'simplex_project_vector')
    for how in ('new array', 'in place', 'given array'):
        st = E.fresh_state()
        st.assume(le(ONE, n))
        x = allocd(st, 'x.in', (n,))
        out = {'new array': None, 'in place': x, 'given array': allocd(st, 'y.in', (n,))}[how]
        before = st.fork()
        for s, v in S.outcomes(E, list(E.call(st, f, [x], {} if out is None else {'out': out})), how):
            if not isinstance(v, Arr) or len(v.shape) != 1:
                S.fact('%s: returns a vector' % how, False, repr(v))
                continue
            S.ob('%s: length' % how, s.ctx, eq(v.shape[0], n))
            if out is not None:
                S.fact('%s: returns the output array' % how, v.buf == out.buf and same(v, out), repr(v))
            elif v.buf == x.buf:
                S.fact('%s: a new array' % how, False)
            only_changes(S, E, how, before, s, None, allowed_bufs=(() if out is None else (out.buf,)))
            y, xf = fn1(s, v), fn1(before, x)
            i, j = tm.fresh_var('i'), tm.fresh_var('j')
            c = s.ctx.extend(rng((i, n), (j, n)))
            S.ob('%s: entries are not negative' % how, c, le(ZERO, y(i)))
            S.ob('%s: positive entries are shifted by the largest shift' % how, c, implies(lt(ZERO, y(i)), le(sub(xf(j), y(j)), sub(xf(i), y(i)))))
            total(S, how, s, y, xf, n)
    S.definedness(E)


def c_vector(eng, st, f, args, kw):
    """simplex_project_vector by its contract (section "vector"): the projection of row i of the
    matrix is row i of P.row, the projection of column j is column j of P.col."""
    d = eng.bind_args(st, f, args, kw)
    if isinstance(d, RaiseV):
        yield st, d
        return
    x, out = d.get('x'), d.get('out')
    if not isinstance(x, Arr) or len(x.shape) != 1:
        raise Unsupported('projection of %r' % (x,))
    eng.oblige(st, le(ONE, x.shape[0]), 'simplex_project_vector: non-empty vector', 'pre')
    j = tm.fresh_var('j')
    t = decided(st.ctx.extend(rng((j, x.shape[0]))), st.cell(x, (j,)))[1]
    # a loop is first run on unknown contents (eng.quiet); the pass that counts sees A.in
    if t.op != 'app' or len(t.args) < 2 or t.val != 'A.in' and not eng.quiet:
        raise Unsupported('projection of something other than a row or column as given: %s' % tm.show(t)[:200])
    a, b = [inorm(z) for z in t.args[-2:]]
    if b is j and j.val not in fv(a):
        if not st.ctx.proves(eq(x.shape[0], m)):
            raise Unsupported('projection of a part of a row')
        P = lambda i: app('P.row', a, i[0])
    elif a is j and j.val not in fv(b):
        if not st.ctx.proves(eq(x.shape[0], n)):
            raise Unsupported('projection of a part of a column')
        P = lambda i: app('P.col', i[0], b)
    else:
        raise Unsupported('projection of something other than a row or column')
    if out is not None:
        if not isinstance(out, Arr) or len(out.shape) != 1:
            raise Unsupported('projection into %r' % (out,))
        eng.oblige(st, eq(out.shape[0], x.shape[0]), 'simplex_project_vector: output of the same length', 'pre')
        st.write(out, P)
        yield st, out
    else:
        yield st, st.alloc(x.shape, P, 'f')


def matrix(S, name, which):
    E = S.engine()
    E.contracts[MOD + '.simplex_project_vector'] = c_vector
    f = E.func(MOD, name)
    tm.fn('P.row', 2, 'R', (n, m))
    tm.fn('P.col', 2, 'R', (n, m))
    st = E.fresh_state()
    # a matrix without rows (columns) is allowed; the vectors projected must not be empty
    st.assume(tand(le(ZERO, n), le(ONE, m)) if which == 'row' else tand(le(ONE, n), le(ZERO, m)))
    A = allocd(st, 'A.in', (n, m))
    before = st.fork()
    for s, v in S.outcomes(E, list(E.call(st, f, [A], {})), name):
        i, j = tm.fresh_var('i'), tm.fresh_var('j')
        S.ob('every %s is replaced by its projection' % which, s.ctx.extend(rng((i, n), (j, m))), eq(s.cell(A, (i, j)), app('P.' + which, i, j)))
        only_changes(S, E, name, before, s, None, allowed_bufs=(A.buf,))
    S.definedness(E)


def nearest(S):
    """What the vector contract says determines the nearest point: for y with non-negative entries
    that sum to one, whose positive entries are those with the largest shift x - y, no other such
    vector is closer to x."""
    tm.fn('x', 1, 'R', (n,))
    tm.fn('y', 1, 'R', (n,))
    tm.fn('z', 1, 'R', (n,))
    x, y, z = [lambda i, q=q: app(q, i) for q in 'xyz']
    i, j, w = tm.fresh_var('i'), tm.fresh_var('j'), tm.fresh_var('w')
    sy, sz = mksum(0, n, y), mksum(0, n, z)
    unit = [le(ONE, n), tm.forall([i], implies(rng((i, n)), le(ZERO, y(i)))), eq(sy, ONE)]
    S.ob('a vector without a positive entry does not sum to one', Ctx([le(ONE, n), tm.forall([i], implies(rng((i, n)), le(y(i), ZERO)))]),
         le(ZERO, mksum(0, n, lambda q: neg(y(q)))))
    S.ob('(negated sum)', Ctx([le(ONE, n)]), eq(mksum(0, n, lambda q: neg(y(q))), neg(sy)))
    # w: an entry with y(w) > 0; T its shift
    T_ = sub(x(w), y(w))
    c = Ctx(unit + [rng((w, n)), lt(ZERO, y(w)),
                    tm.forall([i, j], implies(tand(rng((i, n), (j, n)), lt(ZERO, y(i))), le(sub(x(j), y(j)), sub(x(i), y(i)))))])
    ci = c.extend(rng((i, n)))
    S.ob('no entry is shifted by more', ci, le(sub(x(i), y(i)), T_))
    S.ob('positive entries are shifted by the same', ci, implies(lt(ZERO, y(i)), eq(sub(x(i), y(i)), T_)))
    # from here on T is a number
    T1 = tm.fresh_var('T', 'R')
    D = lambda q: sub(sub(power(sub(z(q), x(q)), 2), power(sub(y(q), x(q)), 2)), mul(num(-2), T1, sub(z(q), y(q))))
    ct = Ctx([rng((i, n)), le(ZERO, y(i)), le(ZERO, z(i)), le(sub(x(i), y(i)), T1), implies(lt(ZERO, y(i)), eq(sub(x(i), y(i)), T1))])
    # (z-x)^2 - (y-x)^2 + 2T(z-y) = (z-y)^2 + 2 (z-y)(y-x+T)
    S.ob('per entry: difference of squared distances', ct, eq(D(i), add(power(sub(z(i), y(i)), 2), mul(num(2), sub(z(i), y(i)), add(sub(y(i), x(i)), T1)))))
    S.ob('per entry: not negative (positive entries)', ct.extend(lt(ZERO, y(i))), le(ZERO, mul(sub(z(i), y(i)), add(sub(y(i), x(i)), T1))))
    S.ob('per entry: not negative (zero entries)', ct.extend(eq(y(i), ZERO)), le(ZERO, mul(sub(z(i), y(i)), add(sub(y(i), x(i)), T1))))
    g = tm.fn('gap', 1, 'R', (n,))
    # gap(i) >= 0 is what the last three obligations establish
    far, near = mksum(0, n, lambda q: power(sub(z(q), x(q)), 2)), mksum(0, n, lambda q: power(sub(y(q), x(q)), 2))
    total_ = mksum(0, n, D)
    S.ob('summed over the entries', Ctx([le(ONE, n)]), eq(total_, add(sub(far, near), mul(num(2), T1, sub(sz, sy)))))
    S.ob('no vector of the simplex is closer', Ctx([le(ONE, n), le(ZERO, total_), eq(total_, add(sub(far, near), mul(num(2), T1, sub(sz, sy)))), eq(sy, ONE), eq(sz, ONE)]),
         le(near, far))
    S.ob('a sum of non-negative terms is not negative', Ctx([le(ONE, n), tm.forall([i], implies(rng((i, n)), le(ZERO, y(i))))]), le(ZERO, sy))


def splitting(S):
    """a sum whose terms before position f are zero is the sum of the others (used for the run)"""
    h = tm.fn('h', 1, 'R', (n,))
    f = var('f')
    S.ob('sum of the last entries', Ctx([le(ONE, n), le(ZERO, f), lt(f, n)]),
         eq(mksum(0, n, lambda p: ite(lt(p, f), ZERO, app('h', p))), mksum(0, sub(n, f), lambda i: app('h', add(f, i)))))


def verify(S):
    S.section('vector', vector)
    S.section('rows', matrix, 'simplex_project_rows', 'row')
    S.section('columns', matrix, 'simplex_project_columns', 'col')
    S.section('nearest point', nearest)
    S.section('sums', splitting)
