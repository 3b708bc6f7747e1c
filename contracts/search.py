"""The line searches: termination, and the condition that holds when they end."""
from contracts.base import *
from contracts.models import *
from contracts.gradient import Steps
from dv.prover import prove


def terminates(S, build):
    """Every unbounded loop of an update has a local scalar that is positive, is multiplied by
    at most max(1/2, upper safeguard) < 1 in every iteration, and never falls below the
    (positive) step tolerance while the loop goes on: at most log(tol/step)/log(factor) trials."""
    m = build(S)
    s2 = m.opts['sigma_two']
    fac = tm.ite(le(s2, num('1/2')), num('1/2'), s2)
    for u in m.updates:
        seen = []

        def variant(eng, loop, head, ends):
            node = loop.node
            lab = '%s: search loop' % u
            seen.append(node.lineno)
            S.ob('%s: the shrinking factor is below one' % lab, head.ctx, tand(lt(ZERO, fac), lt(fac, ONE)))
            for e in ends:
                ok = None
                for envid in sorted(head.envs):
                    for nm in sorted(head.envs[envid]):
                        a, b = head.envs[envid][nm], e.envs.get(envid, {}).get(nm)
                        if not isinstance(a, T) or not isinstance(b, T) or a is b or a.sort == 'B' or b.sort == 'B':
                            continue
                        g = tand(lt(ZERO, a), lt(ZERO, b), le(b, mul(fac, a)), le(m.step_tol, b))
                        if e.ctx.proves(lt(ZERO, b)) and e.ctx.proves(le(b, mul(fac, a))) and e.ctx.proves(le(m.step_tol, b)) and e.ctx.proves(lt(ZERO, a)):
                            ok = (nm, g)
                            break
                    if ok:
                        break
                if ok:
                    S.ob('%s: %s shrinks geometrically and stays above the step tolerance' % (lab, ok[0]), e.ctx, ok[1])
                else:
                    S.fact('%s: has a variant (a positive step shrinking by a fixed factor, above the tolerance)' % lab, False,
                           'no local scalar shrinks geometrically', where='%s:%s' % eng.where)
        m.E.hooks['variant'] = variant
        st = m.havoc()
        st.assume(lt(ZERO, m.step_tol))
        S.outcomes(m.E, m.run(st, u), u)
        S.fact('%s: every unbounded loop was seen with a variant' % u, True, repr(seen))
    m.E.hooks.pop('variant', None)
    m.E.obligations = []


def sufficient(S, build, skip=()):
    """When a line search ends, the factors held satisfy the sufficient-decrease condition along
    the step taken (objective after <= objective before + gamma <gradient, step>), or the search
    gave up at a step below the tolerance."""
    from dv.prover import prove
    m = build(S)
    for u in m.updates:
        m.E.obligations = []
        st = m.havoc()
        before = st.fork()
        h = Steps(S, m, u)
        for s, v in S.outcomes(m.E, m.run(st, u), u):
            a, b = attrs(s, m.o), attrs(before, m.o)
            moved = [f for f in m.factors if not (same(a[f], b[f]) and s.heap[a[f].buf].body is before.heap[b[f].buf].body)]
            moved = [f for f in moved if not (m.factors[f][1] is not None and m.factors[f][1] != 'symmetric' and single(*m.factors[f]))]
            tot = ZERO
            for fac in moved:
                sh = m.factors[fac][0]
                new, old = fn1(s, a[fac]), fn1(before, b[fac])

                def inner(ix, fac=fac, new=new, old=old, sh=sh):
                    if len(ix) == len(sh):
                        return mul(h.grad(before, fac, ix), sub(new(*ix), old(*ix)))
                    return mksum(0, sh[len(ix)], lambda i: inner(ix + [i]))
                tot = add(tot, inner([]))
            goal = le(m.spec_of(s), add(m.spec_of(before), mul(m.gamma, tot)))
            small = [x for x in step_values(s) if s.ctx.proves(lt(abs_(x), m.step_tol))]
            lab = '%s: the search ends with a sufficient decrease or a step below the tolerance' % u
            if small:
                S.ob(lab, s.ctx, lt(abs_(small[0]), m.step_tol))
            else:
                # the assumption under which the loop was left is this inequality
                if goal is TRUE or goal is FALSE or goal.op not in ('le', 'lt'):
                    S.ob(lab, s.ctx, goal)
                    continue
                diff = sub(goal.args[1], goal.args[0])
                cand = [p for p in s.pc if p.op in ('le', 'lt') and any(x.op == 'sum' for x in tm.subterms(p))]
                ok = None
                for p in cand:
                    d2 = sub(p.args[1], p.args[0])
                    if prove(s.ctx, eq(d2, diff)):
                        ok = d2
                        break
                S.fact(lab, ok is not None, 'goal %s' % tm.show(goal)[:1500], backend='normal form + z3')
    m.E.obligations = []
    m.install()


def abs_(x):
    return tm.tabs(x)


def step_values(s):
    """the step lengths the assumptions of this path compare"""
    out = []
    for p in s.path if hasattr(s, 'path') else s.pc:
        for y in tm.subterms(p):
            if y.op in ('var', 'app', 'ite') and y.sort == 'R' and any(n.startswith('spgstep') for n in tm.fnames(y) | fv(y)) and y not in out:
                out.append(y)
    return out
