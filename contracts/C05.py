"""Step rules of the line searches (spg.py), and termination of every search loop."""
from contracts.base import *
from contracts import aa, gpnh, mtd
from contracts.models import *
from contracts.search import terminates

MOD = 'reor.spg'


def arguments(E, name, want):
    """parameters by position, with their defaults for the configurable ones"""
    f = E.func(MOD, name)
    return f


def step_length(S):
    E = S.engine()
    st = E.fresh_state()
    cur, delta, fo, fn_, s1, s2, g = [var(x, 'R') for x in ('cur', 'delta', 'f_old', 'f_new', 'sigma_one', 'sigma_two', 'gamma')]
    # a rejected step: the new cost exceeds the old one plus a fraction of the predicted decrease
    for f in (lt(ZERO, cur), lt(delta, ZERO), lt(ZERO, g), lt(g, ONE), lt(ZERO, s1), lt(ZERO, s2), lt(s2, ONE),
              lt(add(fo, mul(g, delta, cur)), fn_)):
        st.assume(f)
    f = E.func(MOD, 'get_next_spg_step_length')
    for how, args, kw in (('positional', [cur, delta, fo, fn_, s1, s2], {}),
                          ('keywords', [cur, delta, fo, fn_], {'sigma_one': s1, 'sigma_two': s2})):
        for s, v in S.outcomes(E, list(E.call(st.fork(), f, args, kw)), 'step length (%s)' % how):
            v = v if isinstance(v, T) else num(v)
            # the quadratic through (0, f_old) with slope delta and through (cur, f_new)
            c2 = div(sub(sub(fn_, fo), mul(cur, delta)), power(cur, 2))
            S.ob('step length (%s): the interpolant is convex' % how, s.ctx, lt(ZERO, c2))
            x = var('x', 'R')
            # x is the stationary point of the interpolant
            ctx = s.ctx.extend(eq(add(delta, mul(num(2), c2, x)), ZERO))
            inside = tand(le(s1, x), le(x, mul(s2, cur)))
            S.ob('step length (%s): the minimiser of the interpolant when it lies between the safeguards' % how, ctx.extend(inside), eq(v, x))
            S.ob('step length (%s): half the step otherwise' % how, ctx.extend(tnot(inside)), eq(v, mul(num('1/2'), cur)))
            S.ob('step length (%s): positive' % how, s.ctx, lt(ZERO, v))
            S.ob('step length (%s): at most max(1/2, upper safeguard) times the step' % how, s.ctx,
                 le(v, mul(tm.ite(le(s2, num('1/2')), num('1/2'), s2), cur)))
            only_changes(S, E, 'step length (%s)' % how, st, s, None)
    S.definedness(E)


def spectral(S):
    E = S.engine()
    st = E.fresh_state()
    beta, sksk, lo, hi = [var(x, 'R') for x in ('beta', 'sksk', 'alpha_min', 'alpha_max')]
    for f in (lt(ZERO, lo), le(lo, hi)):
        st.assume(f)
    f = E.func(MOD, 'get_next_spg_alpha')
    for how, args, kw in (('positional', [beta, sksk, lo, hi], {}), ('keywords', [beta, sksk], {'alpha_min': lo, 'alpha_max': hi})):
        for s, v in S.outcomes(E, list(E.call(st.fork(), f, args, kw)), 'spectral step (%s)' % how):
            v = v if isinstance(v, T) else num(v)
            q = var('q', 'R')
            c = s.ctx.extend(lt(ZERO, beta), eq(mul(q, beta), sksk))
            S.ob('spectral step (%s): upper bound when the curvature is not positive' % how, s.ctx.extend(le(beta, ZERO)), eq(v, hi))
            S.ob('spectral step (%s): quotient inside the bounds' % how, c.extend(le(lo, q), le(q, hi)), eq(v, q))
            S.ob('spectral step (%s): lower bound below' % how, c.extend(lt(q, lo)), eq(v, lo))
            S.ob('spectral step (%s): upper bound above' % how, c.extend(lt(hi, q)), eq(v, hi))
            S.ob('spectral step (%s): within the bounds' % how, s.ctx, tand(le(lo, v), le(v, hi)))
            only_changes(S, E, 'spectral step (%s)' % how, st, s, None)
    S.definedness(E)


def verify(S):
    S.section('next step length', step_length)
    S.section('spectral step', spectral)
    for mod, nm0, cases in ((aa, 'AA', aa.CASES), (gpnh, 'GPNH', mtd.CASES), (mtd, 'MTD', mtd.CASES)):
        for nm, c in cases:
            b = lambda S, c=c, mod=mod: mod.model(S, c)
            S.section('%s searches end (%s)' % (nm0, nm), terminates, b)
