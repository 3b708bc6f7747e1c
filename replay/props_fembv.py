"""Oracles for the FEM-BV, PWVARX and k-means CROM parts (C17-C23)."""
import numpy as np
from common import *
from props_models import show, data_matrix


def tv(G): return np.abs(np.diff(G, axis=0)).sum(axis=0)


def feasible(m, g):
    """Is there an eta with A_eq [g; eta] = b_eq and A_ub [g; eta] <= b_ub ?"""
    from scipy.optimize import linprog
    Ae = np.asarray(m.A_eq.todense()) if hasattr(m.A_eq, "todense") else np.asarray(m.A_eq)
    Au = np.asarray(m.A_ub.todense()) if hasattr(m.A_ub, "todense") else np.asarray(m.A_ub)
    be, bu = np.asarray(m.b_eq, float), np.asarray(m.b_ub, float)
    q = g.size; e = Ae.shape[1] - q
    re = be - Ae[:, :q] @ g; ru = bu - Au[:, :q] @ g
    if e == 0:
        return bool(np.all(np.abs(re) <= 1e-7) and np.all(ru >= -1e-7))
    r = linprog(np.zeros(e), A_ub=Au[:, q:], b_ub=ru + 1e-9, A_eq=Ae[:, q:], b_eq=re, bounds=[(None, None)] * e, method="highs")
    if r.status == 0: return True
    if r.status == 2: return False
    raise Skip("linprog %d" % r.status)


def smooth_rows(rng, n, k):
    G = row_stochastic(rng, n, k)
    m = rng.randint(4)
    if m == 0: return np.tile(G[:1], (n, 1))
    if m == 1:
        a = rng.uniform(); return a * G + (1 - a) * G[:1]
    return G


@prop("C17")
def constraints(rng, i):
    from reor.fembv import FEMBV
    n, k = int(rng.randint(1, 6)), int(rng.randint(2, 5))
    if rng.uniform() < .1: n = 1
    C = pick(rng, None, 0.0, 1.0, 2, 0.5, float(rng.uniform(0, 3)), -1.0)
    m = FEMBV(k, C, random_state=0)
    m.Gamma = np.zeros((n, k))
    m._initialize_constraints(n)
    bound = C is not None and C >= 0
    d = dict(n=n, k=k, max_tv_norm=C)
    cols = m.A_eq.shape[1]
    check(m.A_ub.shape[1] == cols, "constraint matrices disagree on the number of variables", **d)
    if not bound: check(cols == n * k, "auxiliary variables without a bound", cols=cols, **d)
    for _ in range(4):
        G = smooth_rows(rng, n, k)
        m2 = rng.randint(6)
        if m2 == 0: G = G + 0; G[rng.randint(n), rng.randint(k)] += float(pick(rng, 1e-3, -1e-3, .5))
        if m2 == 1 and k > 1:
            t = rng.randint(n); a, b = rng.permutation(k)[:2]
            G = G.copy(); amt = G[t, a] + float(pick(rng, 1e-3, .4)); G[t, a] -= amt; G[t, b] += amt
        if m2 == 2 and bound and n > 1:         # total variation close to the bound of one component
            G0 = np.tile(G[:1], (n, 1)); v = tv(G).max()
            if v > 1e-6:
                a = min(1.0, C / v) * float(pick(rng, 0.98, 1.02)); G = a * G + (1 - a) * G0 if a <= 1 else G
        ok = (G >= -1e-9).all() and np.abs(G.sum(axis=1) - 1).max() < 1e-9
        bad = (G < -1e-4).any() or np.abs(G.sum(axis=1) - 1).max() > 1e-4
        if bound and n > 1:
            v = tv(G).max()
            if v > C + 1e-4: bad = True
            elif v > C - 1e-5: ok = ok and v <= C          # near the boundary: no verdict unless exactly representable
            if not bad and not (v <= C - 1e-5 or v <= 1e-12): continue
        if not (ok or bad): continue
        f = feasible(m, G.ravel())
        if bad: check(not f, "constraints admit affiliations outside the feasible set", Gamma=G, variation=tv(G), **d)
        else: check(f, "constraints exclude admissible affiliations", Gamma=G, variation=tv(G), **d)
    return d


@prop("C17")
def constraints_entries(rng, i):
    """feasible region against the textbook region through random linear objectives"""
    from scipy.optimize import linprog
    from reor.fembv import FEMBV
    n, k = int(rng.randint(1, 6)), int(rng.randint(2, 5))
    C = pick(rng, None, 0.0, 1.0, 0.5, float(rng.uniform(0, 3)))
    m = FEMBV(k, C, random_state=0); m.Gamma = np.zeros((n, k)); m._initialize_constraints(n)
    c = rng.standard_normal(n * k)
    e = m.A_eq.shape[1] - n * k
    r = linprog(np.concatenate([c, np.zeros(e)]), A_ub=m.A_ub.toarray(), b_ub=m.b_ub, A_eq=m.A_eq.toarray(), b_eq=m.b_eq, bounds=[(None, None)] * (n * k + e), method="highs")
    d = dict(n=n, k=k, max_tv_norm=C, objective=c)
    check(r.status == 0, "generated program has no optimum (status %d)" % r.status, **d)
    check(abs(r.fun - best(c.reshape(n, k), C)) < 1e-6, "optimum over the generated constraints differs from the optimum over the bounded-variation affiliations", got=r.fun, expected=best(c.reshape(n, k), C), **d)
    return d


def best(D, C):
    """min <Gamma, D> over the bounded-variation affiliations: independent formulation (variation split in +/- parts)."""
    from scipy.optimize import linprog
    n, k = D.shape
    if C is None or C < 0: return float(D.min(axis=1).sum())
    q = n * k; s = (n - 1) * k
    Ae = np.zeros((n + s, q + 2 * s)); be = np.zeros(n + s)
    for t in range(n): Ae[t, t * k:(t + 1) * k] = 1; be[t] = 1
    for t in range(n - 1):
        for j in range(k):
            r = n + t * k + j
            Ae[r, (t + 1) * k + j] = 1; Ae[r, t * k + j] = -1; Ae[r, q + t * k + j] = -1; Ae[r, q + s + t * k + j] = 1
    Au = np.zeros((k, q + 2 * s))
    for j in range(k):
        Au[j, q + j:q + s:k] = 1; Au[j, q + s + j::k] = 1
    r = linprog(np.concatenate([D.ravel(), np.zeros(2 * s)]), A_ub=Au, b_ub=np.full(k, float(C)), A_eq=Ae, b_eq=be, bounds=[(0, None)] * (q + 2 * s), method="highs")
    assert r.status == 0
    return float(r.fun)


@prop("C18")
def weight_update(rng, i):
    from reor.fembv import FEMBV
    n, k = int(rng.randint(1, 8)), int(rng.randint(1, 5))
    C = pick(rng, None, 0.0, 1.0, 2, float(rng.uniform(0, 3)), -2)
    D = rng.uniform(size=(n, k)) * pick(rng, 1, 10)
    if rng.randint(3) == 0: D = rng.randint(0, 3, size=(n, k)).astype(float)

    class M(FEMBV):
        def _evaluate_distance_matrix(self): self.distance_matrix = D.copy()
    m = M(k, C, random_state=seed_like(rng)); m.distance_matrix = D.copy()
    m._initialize_weights(None, n)
    d = dict(n=n, k=k, max_tv_norm=C, distances=D)
    for rep in range(2):
        m._update_weights()
        G = np.asarray(m.Gamma)
        check(G.shape == (n, k), "shape", **d)
        if k == 1:
            check_close(G, np.ones((n, 1)), "single component affiliations are not one", 1e-9, **d); break
        check((G >= -1e-6).all() and np.abs(G.sum(axis=1) - 1).max() < 1e-5, "affiliations infeasible", Gamma=G, **d)
        if C is not None and C >= 0 and n > 1: check(tv(G).max() <= C + 1e-4, "total-variation bound violated", Gamma=G, variation=tv(G), **d)
        b = best(D, C); got = float((G * D).sum())
        check(abs(got - b) <= 1e-4 * (1 + np.abs(D).max()), "affiliations do not minimise the affiliation-weighted distances", got=got, optimum=b, Gamma=G, **d)
        D = rng.uniform(size=(n, k)) * 4; d["second_distances"] = D
    return d


@prop("C18")
def fit_feasible(rng, i):
    import reor.fembv_kmeans as fk
    n, f, k = int(rng.randint(4, 9)), int(rng.randint(1, 3)), int(rng.randint(2, 4))
    X = rng.standard_normal((n, f)); C = pick(rng, None, 1.0, 2.0)
    m = fk.FEMBVKMeans(k, C, max_iterations=3, random_state=seed_like(rng), init=pick(rng, "random", None))
    d = dict(X=X, k=k, max_tv_norm=C)
    try:
        G = m.fit_transform(X)
    except Exception:
        if m.Gamma is not None and (m.Gamma.sum(axis=0) < 1e-6).any(): raise Skip("empty cluster")
        raise
    if not np.isfinite(m.Theta).all(): raise Skip("empty cluster")
    check((G >= -1e-6).all() and np.abs(G.sum(axis=1) - 1).max() < 1e-5, "affiliations infeasible", Gamma=G, **d)
    if C is not None: check(tv(G).max() <= C + 1e-4, "total-variation bound violated", Gamma=G, **d)
    D = ((X[:, None] - m.Theta[None]) ** 2).sum(-1)
    check((G * D).sum() <= best(D, C) + 1e-4 * (1 + D.max()), "final affiliations are not minimisers for the final centroids", Gamma=G, Theta=m.Theta, **d)
    return d


@prop("C19")
def kmeans(rng, i):
    import reor.fembv_kmeans as fk
    n, f, k = int(rng.randint(2, 9)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    k = min(k, n)
    X = data_matrix(rng, n, f); Xi = layout(rng, X)
    if rng.randint(4) == 0: X = rng.randint(-4, 5, size=(n, f)); Xi = X.copy()
    G = row_stochastic(rng, n, k); C = pick(rng, None, 1.0, 3.0)
    Th = rng.standard_normal((k, f)) * 2
    if rng.randint(3) == 0: Th = rng.randint(-3, 4, size=(k, f))
    m = fk.FEMBVKMeans(k, C, random_state=seed_like(rng), max_iterations=int(pick(rng, 1, 2, 4)))
    d = dict(X=Xi, Gamma=G, Theta=Th, max_tv_norm=C)
    m._initialize(Xi, parameters=Th, weights=G, init="custom")
    dist = lambda T: ((np.asarray(X, float)[:, None] - np.asarray(T, float)[None]) ** 2).sum(-1)
    sc = 1 + np.abs(dist(Th)).max()
    check_close(m.distance_matrix, dist(Th), "distances are not the squared distances to the centroids", 1e-9, sc, **d)
    m._evaluate_distance_matrix()
    check_close(m.distance_matrix, dist(m.Theta), "distances are not the squared distances to the centroids", 1e-9, sc, **d)
    m._update_parameters()
    pos = G.sum(axis=0) > 1e-8
    want = (G.T @ X)[pos] / G.sum(axis=0)[pos, None]
    check_close(m.Theta[pos], want, "centroid is not the weighted mean", 1e-7, 1 + np.abs(X).max(), **d)
    check_close(m.distance_matrix[:, pos], dist(m.Theta)[:, pos], "stale distances after the parameter update", 1e-9, sc, **d)
    m2 = fk.FEMBVKMeans(k, C, random_state=seed_like(rng), max_iterations=int(pick(rng, 1, 2, 4)))
    kw = {}
    if rng.randint(2): kw = dict(weights=G, parameters=Th, init="custom")
    if rng.randint(4) == 0: kw["update_weights"] = False
    elif rng.randint(4) == 0: kw["update_parameters"] = False
    try:
        W = m2.fit_transform(Xi, **kw)
    except Exception:
        if m2.Gamma is not None and (m2.Gamma.sum(axis=0) < 1e-6).any(): raise Skip("empty cluster")
        raise
    if not np.isfinite(m2.Theta).all(): raise Skip("empty cluster")
    check_close(m2.cost_, (W * dist(m2.Theta)).sum(), "reported cost is not the weighted distance of the fitted state", 1e-8, sc * n, W=W, **d)
    return d


def varx_design(Y, p, U, s, pre):
    """reference design: for each sample t >= pre, [1, y_{t-1}.., y_{t-p}, u_t, u_{t-1}..u_{t-s}] as named blocks."""
    n = Y.shape[0]
    one = np.ones((n - pre, 1))
    ylags = [Y[pre - j:n - j] for j in range(1, p + 1)]
    ulags = [] if U is None else [U[pre - j:n - j] for j in range(0, s + 1)]
    return one, ylags, ulags


def predict_varx(Y, p, U, s, pre, mu, A, B0, B):
    one, yl, ul = varx_design(Y, p, U, s, pre)
    P = one @ mu[None, :]
    for j in range(p): P = P + yl[j] @ A[j].T
    if U is not None:
        P = P + ul[0] @ B0.T
        for j in range(1, s + 1): P = P + ul[j] @ B[j - 1].T
    return P


@prop("C20")
def local_varx(rng, i):
    from reor.fembv_varx import FEMBVVARXLocalLinearModel as M
    f, p = int(rng.randint(1, 4)), int(pick(rng, 0, 1, 2, 3))
    q = int(pick(rng, 0, 1, 2)); s = int(pick(rng, 0, 1, 2, 3)) if q else 0
    pre = max(p, s)
    n = pre + 1 + p * f + q * (1 + s) + f + int(rng.randint(4, 12))
    Y = rng.standard_normal((n, f)) * pick(rng, 1, 5) + pick(rng, 0, 3)
    if rng.randint(5) == 0: Y = rng.randint(-5, 6, size=(n, f))
    U = rng.standard_normal((n, q)) if q else None
    Yi, Ui = layout(rng, Y) if Y.dtype.kind == "f" else Y.copy(), None if U is None else layout(rng, U)
    args = dict(p=np.int64(p) if rng.randint(2) else p)
    if q: args.update(u=Ui, s=s)
    m = M(Yi, **args)
    Yf = np.asarray(Y, float)
    fits = []
    for rep in range(int(pick(rng, 1, 1, 2))):
        w = None
        mode = rng.randint(4)
        if mode == 1: w = rng.uniform(size=n)
        elif mode == 2: w = rng.uniform(size=n) * (rng.uniform(size=n) < .8)
        elif mode == 3: w = rng.uniform(size=n) ** 4 * 3; 
        if w is not None and rng.randint(5) == 0: w = np.ones(n, dtype=int); w[rng.randint(n)] = 2
        fits.append(w)
        d = dict(Y=Y, p=p, U=U, s=s, weights=w, refit=rep)
        try:
            m.fit() if w is None else m.fit(weights=w)
        except np.linalg.LinAlgError:
            raise Skip("singular residual covariance")
        P = predict_varx(Yf, p, U, s, pre, np.asarray(m.mu), m.A, m.B0, m.B)
        R = Yf[pre:] - P
        sc = 1 + np.abs(Yf).max() + np.abs(P).max()
        check(m.residuals.shape == Y.shape, "residual shape", **d)
        check_close(m.residuals[pre:], R, "stored residual is not sample minus prediction", 1e-8, sc, mu=m.mu, A=m.A, B0=m.B0, B=m.B, **d)
        check((m.residuals[:pre] == 0).all(), "pre-sample residual not zero", **d)
        one, yl, ul = varx_design(Yf, p, U, s, pre)
        Z = np.hstack([one] + yl + ul)
        W = np.ones(n - pre) if w is None else np.asarray(w, float)[pre:]
        N = (Z * W[:, None]).T @ R
        check(np.abs(N).max() <= 1e-7 * (1 + np.abs(Z).max()) * sc * n * max(1, W.max()), "weighted normal equations violated", normal_equations=N, mu=m.mu, A=m.A, B0=m.B0, B=m.B, **d)
    return dict(n=n, f=f, p=p, q=q, s=s, Y=Y, weights=fits)


@prop("C21")
def fembv_varx(rng, i):
    from reor.fembv_varx import FEMBVVARX
    f, k = int(rng.randint(1, 3)), int(rng.randint(1, 4))
    form = rng.randint(4)
    if form == 0: mem = None; ml = [0] * k
    elif form == 1: mem = int(pick(rng, 0, 1, 2, 3)); ml = [mem] * k
    else:
        ml = [int(x) for x in rng.randint(0, 4, size=k)]; mem = tuple(ml) if form == 2 else list(ml)
    mm = max(ml); q = int(pick(rng, 0, 0, 1, 2))
    n = mm + (mm + 1) * f + q + f + int(rng.randint(6, 14))
    X = rng.standard_normal((n, f)) + np.arange(n)[:, None] * .1
    if rng.randint(6) == 0: X = rng.randint(-5, 6, size=(n, f))
    U = rng.standard_normal((n, q)) if q else None
    kw = {} if U is None else dict(external_factors=layout(rng, U))
    C = pick(rng, None, 1.0)
    T = n - mm
    G = row_stochastic(rng, T, k) if k > 1 else np.ones((T, 1))
    G = 0.7 * G + 0.3 / k
    d = dict(X=X, memory=ml, form=int(form), U=U, Gamma=G, max_tv_norm=C)
    Xf = np.asarray(X, float)
    m = FEMBVVARX(k, C, memory=mem, max_iterations=2, tolerance=1e-9, random_state=seed_like(rng))

    def residual(j, mu, A, B0):
        P = np.tile(mu, (T, 1))
        for a in range(1, ml[j] + 1): P = P + Xf[mm - a:n - a] @ A[a - 1].T
        if U is not None: P = P + U[mm:] @ B0.T
        return Xf[mm:] - P

    def distances(where, mu, A, B0):
        check(m.distance_matrix.shape == (T, k), "distance matrix shape " + where, got=list(m.distance_matrix.shape), **d)
        for j in range(k):
            R = residual(j, mu[j], None if A is None else A[j], None if B0 is None else B0[j])
            check_close(m.distance_matrix[:, j], (R ** 2).sum(axis=1), "distance row is not the squared one-step residual of component %d at the aligned sample %s" % (j, where), 1e-7, 1 + (R ** 2).max(), mu=mu[j], **d)
    try:
        m._initialize(X.copy(), weights=G, init="custom", **kw)
        mus = [np.asarray(mo.mu) for mo in m.models]; As = [mo.A for mo in m.models]; Bs = [mo.B0 for mo in m.models]
        distances("initially", mus, As, Bs)
        for j in range(k): normal(Xf, U, n, mm, ml[j], np.ones(T), residual(j, mus[j], As[j], Bs[j]), "initially", d)
        m._update_parameters(); m._evaluate_distance_matrix()
        A = m.A if mm > 0 else None
        distances("after a parameter update", m.mu, A, m.B0)
        for j in range(k):
            normal(Xf, U, n, mm, ml[j], G[:, j], residual(j, m.mu[j], None if A is None else A[j], None if m.B0 is None else m.B0[j]), "after a parameter update (component %d)" % j, d)
            mo = m.models[j]
            check_close(m.mu[j], mo.mu, "reported intercept is not the component's", 1e-12, **d)
            if ml[j]: check_close(m.A[j, :ml[j]], mo.A, "reported coefficients are not the component's", 1e-12, **d)
            if mm: check(np.all(m.A[j, ml[j]:] == 0), "coefficients beyond the memory", **d)
            if U is not None: check_close(m.B0[j], mo.B0, "reported external coefficients are not the component's", 1e-12, **d)
    except np.linalg.LinAlgError:
        raise Skip("singular residual covariance")
    if rng.randint(3) == 0:
        m = FEMBVVARX(k, C, memory=mem, max_iterations=2, tolerance=1e-9, random_state=seed_like(rng))
        try:
            W = m.fit_transform(X.copy(), weights=G, init="custom", **kw)
        except np.linalg.LinAlgError:
            raise Skip("singular residual covariance")
        except Exception:
            if (m.Gamma.sum(axis=0) < f + q + mm * f + 2).any(): raise Skip("component with too few samples")
            raise
        if (np.asarray(m.Gamma).sum(axis=0) < 2).any() or not np.isfinite(m.mu).all(): raise Skip("component with too few samples")
        check(W.shape == (T, k), "affiliations shape", got=list(W.shape), **d)
        A = m.A if mm > 0 else None
        distances("after a fit", m.mu, A, m.B0)
    return d


def normal(Xf, U, n, mm, p, w, R, where, d):
    Z = np.hstack([np.ones((n - mm, 1))] + [Xf[mm - a:n - a] for a in range(1, p + 1)] + ([U[mm:]] if U is not None else []))
    N = (Z * w[:, None]).T @ R
    check(np.abs(N).max() <= 1e-7 * (1 + np.abs(Z).max()) * (1 + np.abs(R).max()) * n, "component parameters do not solve the affiliation-weighted regression " + where, normal_equations=N, **d)


class StubCluster:
    def __init__(self, labels): self.labels = labels
    def fit_predict(self, z, *a, **k): self.z = np.array(z); return self.labels.copy()


class StubClass:
    def __init__(self, labels): self.labels = labels
    def fit(self, x, y, *a, **k): self.x, self.y = np.array(x), np.array(y); return self
    def predict(self, x, *a, **k):
        self.last = np.array(x)
        return self.labels.copy() if x.shape[0] == self.labels.size else np.zeros(x.shape[0], int)


@prop("C22")
def pwvarx(rng, i):
    from reor.pwvarx import ClusterPWVARX
    f, p = int(rng.randint(1, 4)), int(pick(rng, 0, 1, 2, 3))
    q = int(pick(rng, 0, 0, 1, 2)); s = int(pick(rng, 0, 1, 2, 3)); k = int(rng.randint(1, 4))
    trend = bool(rng.randint(3))
    if p == 0 and (q == 0 or s == 0) and not trend: trend = True
    pre = max(p, s); n = pre + k * (2 + p * f + q * s + 3) + int(rng.randint(0, 8))
    Y = rng.standard_normal((n, f)) * 2 + 1; U = rng.standard_normal((n, q)) if q else None
    if rng.randint(6) == 0: Y = rng.randint(-5, 6, size=(n, f))
    yin = Y[:, 0] if (f == 1 and rng.randint(2)) else Y
    uin = None if U is None else (U[:, 0] if (q == 1 and rng.randint(2)) else layout(rng, U))
    T = n - pre
    lab = rng.randint(k, size=T); lab[:k] = np.arange(k)
    if rng.randint(4) == 0: lab = np.zeros(T, int)
    clab = rng.randint(k, size=T)
    d = dict(Y=yin, p=p, s=s, U=uin, labels=lab, trend=trend, k=k)
    sc, sv = StubCluster(clab), StubClass(lab)
    m = ClusterPWVARX(k, p, s=s, include_trend=trend, clusterer=sc, classifier=sv)
    r = m.fit_transform(yin, uin)
    check(np.array_equal(r, lab), "labels are not those of the classifier", got=r, **d)
    Yf = np.asarray(Y, float)
    lagged = U is not None and s > 0
    for c in range(k):
        idx = np.flatnonzero(lab == c)
        if idx.size == 0: continue
        P = np.zeros((T, f)); Z = []
        if trend: P = P + m.mu[c]; Z.append(np.ones((T, 1)))
        for j in range(1, p + 1): P = P + Yf[pre - j:n - j] @ m.A[c, j - 1].T; Z.append(Yf[pre - j:n - j])
        if lagged:
            for j in range(1, s + 1): P = P + U[pre - j:n - j] @ m.B[c, j - 1].T; Z.append(U[pre - j:n - j])
        R = (Yf[pre:] - P)[idx]; Z = np.hstack(Z)[idx]
        scl = (1 + np.abs(Yf).max() + np.abs(P).max())
        check_close(m.residuals[idx], R, "stored residuals are not sample minus regime prediction", 1e-8, scl, regime=c, **d)
        N = Z.T @ R
        check(np.abs(N).max() <= 1e-7 * (1 + np.abs(Z).max()) * scl * n, "normal equations of regime %d violated" % c, normal_equations=N, **d)
    check(m.residuals.shape == (T, f), "residual shape", **d)
    t = m.transform(yin, exog=uin)
    check(np.array_equal(t, sv.labels), "transform labels", **d)
    check(np.array_equal(sv.last, sv.x), "transform uses other predictors than the fitted classifier", **d)
    yl = [Yf[pre - j:n - j] for j in range(1, p + 1)] + ([U[pre - j:n - j] for j in range(1, s + 1)] if lagged else [])
    want = np.hstack(yl) if yl else np.zeros((T, 0))
    check(sv.x.shape == want.shape and np.array_equal(np.sort(sv.x, axis=1), np.sort(want, axis=1)), "predictors are not the lagged values", got=sv.x, **d)
    return d


@prop("C22")
def pwvarx_default(rng, i):
    from reor.pwvarx import ClusterPWVARX
    f, p, k = int(rng.randint(1, 3)), int(rng.randint(1, 3)), 2
    n = 40
    Y = rng.standard_normal((n, f)) + np.where(np.arange(n) % 20 < 10, 3, -3)[:, None]
    m = ClusterPWVARX(k, p)
    try:
        lab = m.fit_transform(Y)
    except ValueError as e:
        if "class" in str(e): raise Skip("one class")
        raise
    t = m.transform(Y)
    d = dict(Y=Y, p=p)
    check(np.array_equal(lab, t), "transform of the fitted data differs from the fitted labels", **d)
    x = np.hstack([Y[p - j:n - j] for j in range(1, p + 1)])
    check(np.array_equal(m.classifier.predict(x), t) or x.shape[1] != m.classifier.n_features_in_, "labels are not the classifier's", **d)
    return d


class FakeKMeans:
    labels = None
    def __init__(self, n_clusters=8, **k): self.n_clusters = n_clusters; self.kw = k
    def fit(self, X, *a, **k):
        self.labels_ = FakeKMeans.labels.copy(); self.cluster_centers_ = np.zeros((self.n_clusters, X.shape[1])); self.inertia_ = 0.; self.n_iter_ = 1
        return self
    def predict(self, X, *a, **k): return FakeKMeans.pred.copy()
    def transform(self, X): return np.zeros((X.shape[0], self.n_clusters))


@prop("C23")
def crom_labels(rng, i):
    import reor.crom as cm
    if not hasattr(cm, "KMeans"): raise Skip("renamed")
    n, k = int(rng.randint(2, 15)), int(rng.randint(1, 5))
    lab = rng.randint(k, size=n)
    if n <= k: lab = np.zeros(n, int); k = 1
    lab[:k] = rng.permutation(k)
    if lab[-1] not in lab[:-1]: lab[-1] = lab[0]
    FakeKMeans.labels = lab.astype(pick(rng, np.int32, np.int64)); FakeKMeans.pred = rng.randint(k, size=int(rng.randint(1, 7)))
    h = int(pick(rng, 0, 1, 2, 5))
    X = rng.standard_normal((n, 2)); X2 = rng.standard_normal((FakeKMeans.pred.size, 2))
    d = dict(labels=lab, k=k, horizon=h, predicted=FakeKMeans.pred)
    orig = cm.KMeans; cm.KMeans = FakeKMeans
    try:
        m = cm.KMeansMarkovCROM(k).fit(X)
        P = m.predict(X2, horizon=h)
    finally:
        cm.KMeans = orig
    markov(m.transition_matrix_, lab, k, d)
    forecast(P, m.transition_matrix_, FakeKMeans.pred, h, d)
    return d


def markov(T, lab, k, d):
    W = np.zeros((k, k))
    for a, b in zip(lab[:-1], lab[1:]): W[b, a] += 1
    tot = np.array([np.sum(lab[:-1] == c) for c in range(k)])
    if (tot == 0).any(): raise Skip("cluster without a successor")
    check_close(T, W / tot[None, :], "transition matrix is not the empirical Markov chain", 1e-12, **d)
    check(is_col_stochastic(T, 1e-9), "columns are not distributions", T=T, **d)


def forecast(P, T, lab, h, d):
    want = np.eye(T.shape[0])[:, lab]
    for _ in range(h): want = T @ want
    check_close(np.asarray(P), want.T, "prediction is not the transition matrix applied %d times" % h, 1e-9, T=T, **d)
    check(is_row_stochastic(P, 1e-8), "prediction rows are not distributions", P=P, **d)


@prop("C23")
def crom_kmeans(rng, i):
    from reor.crom import KMeansMarkovCROM, kmeans_markov_crom
    n, k, f = int(rng.randint(6, 25)), int(rng.randint(1, 4)), int(rng.randint(1, 3))
    X = rng.standard_normal((n, f)) + rng.randint(3, size=n)[:, None] * 4
    if rng.randint(3) == 0: X = np.asfortranarray(X)
    h = int(pick(rng, 0, 1, 3)); seed = int(rng.randint(10 ** 6))
    sw = rng.uniform(0.1, 1, size=n) if rng.randint(3) == 0 else None
    d = dict(X=X, k=k, horizon=h, seed=seed)
    nk = None if rng.randint(6) == 0 else k
    if nk is None: k = 2
    m = KMeansMarkovCROM(nk, random_state=seed, n_init=1)
    mode = rng.randint(3)
    if mode == 0: m.fit(X, sample_weight=sw)
    elif mode == 1:
        l = m.fit_predict(X, sample_weight=sw); check(np.array_equal(l, m.labels_), "fit_predict labels", **d)
    else:
        t = m.fit_transform(X, sample_weight=sw); check_close(t, m.kmeans_.transform(X), "fit_transform distances", 1e-9, **d)
    check(np.array_equal(m.labels_, m.kmeans_.labels_), "labels", **d)
    markov(m.transition_matrix_, m.labels_, k, d)
    X2 = rng.standard_normal((int(rng.randint(1, 6)), f)) * 3
    forecast(m.predict(X2, horizon=h), m.transition_matrix_, m.kmeans_.predict(X2), h, d)
    km, T = kmeans_markov_crom(X, n_clusters=k, sample_weight=sw, random_state=seed, n_init=1)
    markov(T, km.labels_, k, d)
    return d
