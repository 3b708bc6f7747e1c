"""Rewriting of sums over index ranges by exact lemmas whose side conditions are proved:
splitting at a breakpoint (a <= m <= b) and summation in blocks (length = width * number)."""
from contracts.base import *
from dv.nf import inorm, linear_in, NF


def breakpoints(t, w):
    out = []
    for x in sorted(tm.subterms(t), key=lambda x: x.id):
        if x.op not in ('lt', 'le') or w.val not in fv(x) or x.args[0].sort != 'I':
            continue
        z = linear_in(inorm(sub(x.args[0], x.args[1])), w.val)
        if z is None or z[0] not in (1, -1):
            continue
        a, rest = z
        b = tm.neg(rest) if a == 1 else rest
        b = add(b, ONE) if (a == 1) == (x.op == 'le') else b
        b = inorm(b)
        if b not in out:
            out.append(b)
    return out


def resolve(t, ctx):
    """conditions, quotients and remainders that the context decides"""
    for _ in range(8):
        def rp(x):
            if x.op in ('lt', 'le', 'eq') and x.args[0].sort == 'I':
                if ctx.proves(x):
                    return TRUE
                if ctx.proves(tm.tnot(x)):
                    return FALSE
            if x.op in ('mod', 'fdiv'):
                a, w = inorm(tm.replace(x.args[0], rp)), inorm(x.args[1])
                if not ctx.proves(le(ONE, w)):
                    return None
                if ctx.proves(tand(le(ZERO, a), lt(a, w))):
                    return a if x.op == 'mod' else ZERO
                if ctx.proves(tand(le(w, a), lt(a, add(w, w)))):
                    return inorm(sub(a, w)) if x.op == 'mod' else ONE
                return tm.mod(a, w) if x.op == 'mod' else tm.fdiv(a, w)
            return None
        u = tm.replace(t, rp)
        if u is t:
            return u
        t = u
    return t


def split_sum(ctx, N, f):
    """sum of f(w) for 0 <= w < N as a sum of simpler sums"""
    N = inorm(N)
    w = tm.fresh_var('w')
    ctx = ctx.extend(le(ZERO, N)) if ctx.proves(le(ZERO, N)) else ctx
    t = resolve(f(w), ctx.extend(rng((w, N))))
    for b in breakpoints(t, w):
        if ctx.proves(tand(le(ZERO, b), le(b, N))) and not ctx.proves(eq(b, ZERO)) and not ctx.proves(eq(b, N)):
            lo = split_sum(ctx, b, lambda v: tm.subst(t, {w.val: num(v)}))
            hi = split_sum(ctx, sub(N, b), lambda v: tm.subst(t, {w.val: add(num(v), b)}))
            return add(lo, hi)
    for x in sorted(tm.subterms(t), key=lambda x: x.id):
        if x.op in ('mod', 'fdiv') and inorm(x.args[0]) is w and x.args[1].op == 'num' and 1 < x.args[1].val <= 8:
            D = x.args[1]
            Q = NF(ctx).divide(N, D)
            if Q is None or not ctx.proves(tand(eq(N, mul(D, Q)), le(ZERO, Q))):
                continue
            q = tm.fresh_var('q')
            r = ZERO
            for s in range(int(D.val)):
                u = tm.subst(t, {w.val: add(mul(D, q), num(s))})

                def rp(y, s=s):
                    if y.op in ('mod', 'fdiv') and y.args[1] is D:
                        a = inorm(sub(y.args[0], num(s)))
                        z = NF(ctx).divide(a, D)
                        if z is not None:
                            return num(s) if y.op == 'mod' else inorm(z)
                    return None
                u = tm.replace(u, rp)
                r = add(r, split_sum(ctx, Q, lambda v, u=u: tm.subst(u, {q.val: num(v)})))
            return r
    if t.op == 'ite':
        for x in sorted(tm.subterms(t.args[0]), key=lambda x: x.id):
            if x.op == 'fdiv' and inorm(x.args[0]) is w and x.args[1].op != 'num':
                D = inorm(x.args[1])
                Q = NF(ctx).divide(N, D)
                if Q is None:
                    for b in sorted((y for y in tm.subterms(N) if y.op == 'var'), key=lambda y: y.id):
                        if inorm(sub(N, mul(b, D))) is ZERO:
                            Q = b
                # D >= 1 whenever there is a term; otherwise both sides are empty
                if Q is None or not ctx.proves(tand(eq(N, mul(D, Q)), le(ZERO, Q))) or not ctx.extend(rng((w, N))).proves(le(ONE, D)):
                    continue
                q, s = tm.fresh_var('q'), tm.fresh_var('s')
                u = tm.subst(t, {w.val: add(mul(q, D), s)})

                def rp(y):
                    if y.op in ('mod', 'fdiv') and inorm(y.args[1]) is D and inorm(sub(y.args[0], add(mul(q, D), s))) is ZERO:
                        return s if y.op == 'mod' else q
                    return None
                u = tm.replace(u, rp)
                return mksum(0, Q, lambda a: mksum(0, D, lambda b: tm.subst(u, {q.val: num(a), s.val: num(b)})))
    return mksum(0, N, lambda v: tm.subst(t, {w.val: num(v)}))
