"""Oracles for C01-C05 (projection, random matrices, FurthestSum, step rules)."""
import numpy as np
from common import *


def _vec(rng):
    n = int(pick(rng, 1, 1, 2, 2, 3, 4, 5, 8, 30))
    m = rng.randint(8)
    if m == 0: return rng.standard_normal(n)
    if m == 1: return rng.standard_normal(n) * 10.0 ** rng.randint(-6, 7)
    if m == 2: return rng.randint(-3, 4, size=n).astype(float) / pick(rng, 1, 2, 4)
    if m == 3: return row_stochastic(rng, 1, n)[0]
    if m == 4: return np.full(n, rng.standard_normal())
    if m == 5: return -rng.uniform(size=n) * 5
    if m == 6: return rng.uniform(size=n) * pick(rng, 0.1, 1, 10) + (rng.uniform(size=n) < .3) * 3
    x = row_stochastic(rng, 1, n)[0]
    return x + rng.standard_normal() * pick(rng, 1e-9, 1e-3, 1.0)


@prop("C01")
def vector(rng, i):
    from reor.simplex_projection import simplex_project_vector as f
    x = _vec(rng); x = layout(rng, x)
    if rng.uniform() < .1: x = np.round(x).astype(int) if np.abs(x).max() < 1e6 else x
    x0 = x.copy()
    mode = rng.randint(3)
    tol = 1e-9 * (1 + np.abs(x0).max())
    if mode == 0:
        r = f(x)
    elif mode == 1:
        o = np.full(x.shape, 7.7); r = f(x, out=o)
        check(np.array_equal(r, o), "returned value differs from the output argument", x=x0)
        r = o
    else:
        if x.dtype.kind == "i": raise Skip("int")
        f(x, out=x); r = x
    if mode != 2:
        check(np.array_equal(x, x0), "argument modified", x=x0, after=x)
    check(r.shape == x0.shape, "shape", x=x0)
    check((r >= 0).all(), "negative entry", x=x0, got=r)
    check(abs(r.sum() - 1) <= 10 * tol, "entries do not sum to one", x=x0, got=r, sum=r.sum())
    p = proj(x0.astype(float))
    check(np.abs(r - p).max() <= 10 * tol, "not the nearest point of the simplex", x=x0, got=r, nearest=p)
    return dict(x=x0, mode=mode)


@prop("C01")
def matrix(rng, i):
    from reor import simplex_projection as sp
    n, k = int(pick(rng, 0, 1, 2, 3, 5)), int(pick(rng, 1, 1, 2, 3, 6))
    cols = bool(rng.randint(2))
    A = np.array([_vec_n(rng, k) for _ in range(n)]).reshape(n, k)
    if cols: A = A.T
    big = rng.standard_normal((A.shape[0] * 2 + 3, A.shape[1] * 2 + 3))
    sl = (slice(1, 1 + 2 * A.shape[0], 2), slice(2, 2 + 2 * A.shape[1], 2)) if rng.randint(2) else (slice(1, 1 + A.shape[0]), slice(2, 2 + A.shape[1]))
    if rng.randint(2): big = np.asfortranarray(big)
    big[sl] = A; before = big.copy()
    r = (sp.simplex_project_columns if cols else sp.simplex_project_rows)(big[sl])
    want = before.copy(); want[sl] = proj_cols(A) if cols else proj_rows(A)
    got = big[sl]; mask = np.ones(big.shape, bool); mask[sl] = False
    check(np.array_equal(big[mask], before[mask]), "entries outside the matrix changed", A=A)
    check_close(got, want[sl], "%s are not the nearest simplex points" % ("columns" if cols else "rows"), 1e-8, A=A)
    check((got >= 0).all() and close(got.sum(axis=0 if cols else 1), np.ones(n), 1e-8 * (1 + np.abs(A).max(initial=0))), "not in the simplex", A=A, got=got)
    return dict(A=A, columns=cols)


def _vec_n(rng, k):
    for _ in range(60):
        v = _vec(rng)
        if v.size >= k and np.abs(v).max() < 1e5: return v[:k]
    return rng.standard_normal(k)


@prop("C02")
def generators(rng, i):
    from reor import _random_matrix as rm
    n, k = int(rng.randint(1, 9)), int(rng.randint(1, 9))
    left = bool(rng.randint(2))
    f = rm.left_stochastic_matrix if left else rm.right_stochastic_matrix
    seed = int(rng.randint(2 ** 31 - 1))
    mode = rng.randint(3)
    g0 = np.random.get_state()[1].copy()
    st = np.random.RandomState(seed)
    A = f((n, k), random_state=seed if mode == 0 else st)
    st2 = np.random.RandomState(seed)
    B = f((n, k), random_state=seed if mode == 0 else st2)
    d = dict(shape=[n, k], left=left, seed=seed, mode=int(mode))
    check(A.shape == (n, k), "wrong shape", got=list(A.shape), **d)
    check((A >= 0).all() and np.isfinite(A).all(), "negative or non-finite entries", A=A, **d)
    check_close(A.sum(axis=0 if left else 1), np.ones(k if left else n), "sums are not one", 1e-12, A=A, **d)
    check(np.array_equal(A, B), "same random state, different matrix", A=A, B=B, **d)
    check(np.array_equal(g0, np.random.get_state()[1]), "global random state used although one was given", **d)
    if mode == 2:
        np.random.seed(seed); C = f((n, k)); check(C.shape == (n, k), "shape", **d)
        check_close(C.sum(axis=0 if left else 1), np.ones(k if left else n), "sums", 1e-12, **d)
        C2 = f((n, k), random_state=st)
        if n > 1 and k > 1: check(not np.array_equal(C2, A), "generator state did not advance", **d)
    if n * k > 3:
        C = f((n, k), random_state=seed + 1 if seed < 2 ** 31 - 2 else 0)
        if n > 1 and k > 1: check(not np.array_equal(A, C), "entries do not depend on the random state", **d)
    return d


def _fs_case(rng, symmetric):
    n = int(pick(rng, 1, 2, 3, 4, 5, 6, 7, 9))
    m = rng.randint(4)
    if m == 0: D = rng.uniform(size=(n, n))
    elif m == 1: D = rng.randint(0, 4, size=(n, n)).astype(float)
    elif m == 2:
        P = rng.standard_normal((n, 2)); D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
    else: D = rng.standard_normal((n, n)) * 3
    if symmetric:
        D = np.triu(D, 1); D = D + D.T
    ne = int(rng.randint(0, n))
    perm = rng.permutation(n)
    exc = perm[:ne]; rest = perm[ne:]
    start = int(rest[rng.randint(rest.size)])
    k = int(rng.randint(1, rest.size + 1))
    steps = int(pick(rng, 0, 0, 1, 2, k - 1, k, k + 1, 2 * k + 1, 10))
    form = rng.randint(3)
    exclude = [int(e) for e in exc] if form == 0 else np.array(exc, dtype='i8')
    if ne == 0 and form == 2: exclude = None
    return D, n, k, start, exclude, exc, steps


@prop("C03")
def fs_valid(rng, i):
    from reor.furthest_sum import furthest_sum
    D, n, k, start, exclude, exc, steps = _fs_case(rng, bool(rng.randint(2)))
    if rng.uniform() < .1: k = 0
    D = layout(rng, D); D0 = D.copy(); e0 = None if exclude is None else np.array(exclude)
    d = dict(D=D0, n_components=k, start=start, exclude=e0, extra_steps=steps)
    sel = np.asarray(furthest_sum(D, k, start, exclude=exclude, extra_steps=steps))
    check(sel.shape == (k,), "wrong number of indices", selected=sel, **d)
    l = [int(s) for s in sel]
    check(all(float(s) == int(s) for s in sel), "non-integer index", selected=sel, **d)
    check(all(0 <= s < n for s in l), "index out of range", selected=sel, **d)
    check(len(set(l)) == k, "repeated index", selected=sel, **d)
    check(not set(l) & set(int(e) for e in exc), "excluded index selected", selected=sel, **d)
    check(np.array_equal(D, D0), "dissimilarities modified", **d)
    if exclude is not None: check(np.array_equal(np.array(exclude), e0) and len(exclude) == len(e0), "exclusion list modified", **d)
    return d


@prop("C03")
def fs_reject(rng, i):
    from reor.furthest_sum import furthest_sum
    D, n, k, start, exclude, exc, steps = _fs_case(rng, True)
    m = rng.randint(4)
    if m == 0:
        D = rng.uniform(size=(n, n + int(pick(rng, 1, 2)))) if rng.randint(2) else rng.uniform(size=(n + 1, n))
    elif m == 1: start = int(pick(rng, n, n + 3, -1, -n, -n - 2))
    elif m == 2:
        if len(exc) == 0: raise Skip("nothing excluded")
        start = int(exc[rng.randint(len(exc))])
    else: k = n - len(exc) + int(pick(rng, 1, 2, n + 1))
    d = dict(shape=list(D.shape), n_components=k, start=start, exclude=None if exclude is None else np.array(exclude), extra_steps=steps, mode=int(m))
    try:
        sel = furthest_sum(D, k, start, exclude=exclude, extra_steps=steps)
    except ValueError:
        return d
    raise Violation("request that cannot be met was not rejected", got=np.asarray(sel), **d)


@prop("C04")
def fs_greedy(rng, i):
    from reor.furthest_sum import furthest_sum
    D, n, k, start, exclude, exc, steps = _fs_case(rng, True)
    adm = [j for j in range(n) if j not in set(int(e) for e in exc)]
    d = dict(D=D, n_components=k, start=start, exclude=None if exclude is None else np.array(exclude), extra_steps=steps)
    tol = 1e-9 * (1 + np.abs(D).sum())
    sel = [int(s) for s in furthest_sum(D, k, start, exclude=exclude, extra_steps=0)]
    check(sel[0] == start, "first selected index is not the start index", selected=sel, **d)
    for m in range(1, k):
        sums = {j: D[j, sel[:m]].sum() for j in adm if j not in sel[:m]}
        check(sel[m] in sums and sums[sel[m]] >= max(sums.values()) - tol, "choice %d is not a maximiser" % m, selected=sel, sums={str(a): b for a, b in sums.items()}, **d)
    prev = sel
    for s in range(1, steps + 1):
        cur = [int(x) for x in furthest_sum(D, k, start, exclude=exclude, extra_steps=s)]
        pos = (s - 1) % k
        check(all(cur[j] == prev[j] for j in range(k) if j != pos), "refinement step %d changed another position" % s, before=prev, after=cur, **d)
        others = [prev[j] for j in range(k) if j != pos]
        sums = {j: D[j, others].sum() for j in adm if j not in others}
        check(cur[pos] in sums and sums[cur[pos]] >= max(sums.values()) - tol, "refinement step %d does not pick a maximiser" % s, before=prev, after=cur, sums={str(a): b for a, b in sums.items()}, **d)
        prev = cur
    return d


@prop("C05")
def step_rule(rng, i):
    from reor.spg import get_next_spg_step_length as g
    step = float(pick(rng, 1.0, 0.5, 0.1, 0.25, 10 ** rng.uniform(-12, 1), rng.uniform(0, 2)))
    delta = -float(10 ** rng.uniform(-8, 4))
    gamma = float(pick(rng, 1e-4, 0.3, 0.9))
    f_old = float(rng.standard_normal() * 10 ** rng.uniform(-3, 3))
    thr = f_old + gamma * step * delta
    f_new = thr + abs(step * delta) * float(10 ** rng.uniform(-3, 3)) + 1e-9 * (1 + abs(f_old))
    if not f_new > thr: raise Skip("accepted")
    s1 = float(pick(rng, 0.1, 0.0, 0.01, 0.3, rng.uniform(0, 1)))
    s2 = float(pick(rng, 0.9, 0.5, 0.7, rng.uniform(0, 1)))
    default = rng.uniform() < .3
    if default: s1, s2 = 0.1, 0.9
    cv = np.float64 if rng.randint(2) else float
    a = (1 if (step == 1.0 and rng.randint(2)) else step, cv(delta), cv(f_old), cv(f_new))
    r = g(*a) if default else g(*a, sigma_one=s1, sigma_two=s2)
    d = dict(step=step, delta=delta, f_old=f_old, f_new=f_new, sigma_one=s1, sigma_two=s2, got=float(r))
    den = (f_new - f_old) - step * delta
    t = -0.5 * step * step * delta / den
    check(r > 0, "next step not positive", **d)
    check(r <= max(0.5, s2) * step * (1 + 1e-9), "next step not a safeguarded fraction of the current one", **d)
    lo, hi = s1, s2 * step
    eps = 1e-6 * (abs(t) + lo + hi)
    if lo + eps < t < hi - eps: check(abs(r - t) <= 1e-6 * abs(t), "not the interpolation minimiser", minimiser=t, **d)
    elif t < lo - eps or t > hi + eps: check(abs(r - 0.5 * step) <= 1e-12 * step, "not half the current step", minimiser=t, **d)
    return d


@prop("C05")
def alpha_rule(rng, i):
    from reor.spg import get_next_spg_alpha as g
    beta = float(pick(rng, 0.0, -1.0, -10 ** rng.uniform(-9, 3), 10 ** rng.uniform(-12, 6), 1.0))
    sksk = float(pick(rng, 0.0, 10 ** rng.uniform(-12, 6), 1.0))
    amin, amax = (1e-3, 1e3) if rng.randint(2) else (float(10 ** rng.uniform(-6, 0)), float(10 ** rng.uniform(0, 6)))
    cv = np.float64 if rng.randint(2) else float
    default = (amin, amax) == (1e-3, 1e3) and rng.randint(2)
    r = g(cv(beta), cv(sksk)) if default else g(cv(beta), cv(sksk), alpha_min=amin, alpha_max=amax)
    want = amax if beta <= 0 else min(amax, max(amin, sksk / beta))
    d = dict(beta=beta, sksk=sksk, alpha_min=amin, alpha_max=amax, got=float(r), expected=want)
    check(abs(r - want) <= 1e-12 * abs(want), "wrong spectral step", **d)
    return d
