"""The local VARX model and the piecewise VARX model: predictions and normal equations."""
from contracts.base import *
from dv.prover import prove

n, d, p, s, e = [var(x) for x in 'ndpse']


def prediction(y, u, lags, ulags, first, mu, A, B, B0, d_=d, e_=e):
    """fitted value of variable j at time t: y and u are indexed by (time, variable)"""
    def f(t, j):
        r = mu(j) if mu is not None else ZERO
        if A is not None:
            r = add(r, mksum(0, lags, lambda l: mksum(0, d_, lambda i: mul(A(l, j, i), y(sub(t, add(l, ONE)), i)))))
        if B is not None:
            r = add(r, mksum(0, ulags, lambda l: mksum(0, e_, lambda i: mul(B(l, j, i), u(sub(t, add(l, ONE)), i)))))
        if B0 is not None:
            r = add(r, mksum(0, e_, lambda i: mul(B0(j, i), u(t, i))))
        return r
    return f


def normal_equations(S, lab, st, sol, col, regressor, resid, w, lo, hi, j):
    """sum over samples of weight * residual * regressor is zero, from the contract of lstsq
    (A^T (A x - B) = 0, the equation of column col)."""
    Fn_ = Fn.table[sol]
    ash, fa, bsh, fb = Fn_.lstsq
    two = len(bsh) == 2
    ix = lambda c: (c, j) if two else (c,)
    x = lambda c: app(sol, *ix(c))
    col = num(col)
    if not st.ctx.proves(tand(le(ZERO, col), lt(col, ash[1]))):
        S.fact('%s: the regressor is among the columns of the least-squares problem' % lab, False, tm.show(col))
        return
    rest = lambda r: sub(mksum(0, ash[1], lambda c: mul(fa((r, c)), x(c))), fb((r, j) if two else (r,)))
    inst = mksum(0, ash[0], lambda r: mul(fa((r, col)), rest(r)))        # zero by the contract
    goal = mksum(lo, hi, lambda t: mul(w(t), resid(t), regressor(t)))
    S.ob(lab, st.ctx, eq(goal, tm.neg(inst)))
