"""Oracles for the archetypal-analysis and convex-coding models (C06-C16)."""
import copy, warnings
import numpy as np
from common import *
from spies import *


def mods():
    import reor.archetypal_analysis as aa, reor.gpnh_convex_coding as gp, reor.mtd_convex_coding as mt, reor.gpnh_convex_coding_crom as cr
    return aa, gp, mt, cr


def common_opts(rng):
    o = ls_options(rng)
    o["max_iterations"] = int(pick(rng, 1, 2, 3, 5, 8))
    o["tolerance"] = float(pick(rng, 1e-10, 1e-6, 1e-3, 0.0))
    o["random_state"] = seed_like(rng)
    if rng.uniform() < .2:
        o["line_search_memory"] = int(pick(rng, 2, 3))
    if rng.uniform() < .4 or o.get("line_search_memory", 1) > 1:
        o["require_monotonic_cost_decrease"] = False
    if rng.uniform() < .1: o["verbose"] = 1
    return o


def show(o): return {k: (v if isinstance(v, (int, float, str, list)) or v is None else repr(v)) for k, v in o.items()}


def data_matrix(rng, n, f):
    m = rng.randint(5)
    if m == 0: X = rng.standard_normal((n, f))
    elif m == 1: X = rng.uniform(size=(n, f)) * 3
    elif m == 2: X = rng.randint(-3, 4, size=(n, f)).astype(float)
    elif m == 3: X = rng.standard_normal((n, f)) * 5 + 10
    else:
        k = rng.randint(1, 4); X = row_stochastic(rng, n, k) @ rng.standard_normal((k, f))
    return X


def try_fit(f, *a, **k):
    try:
        return f(*a, **k)
    except RuntimeError as e:
        if cost_raise(e): return None
        raise


# ---------------------------------------------------------------- archetypal analysis

def aa_case(rng, checks, transform=True):
    aa = mods()[0]
    n, f, k = int(rng.randint(1, 8)), int(rng.randint(1, 5)), int(rng.randint(1, 5))
    o = common_opts(rng)
    X = data_matrix(rng, n, f); K = X @ X.T
    std = rng.randint(3) == 0
    psd = True
    if not std and rng.uniform() < .3 and o.get("line_search_memory", 1) == 1:
        K = rng.standard_normal((n, n)); K = K + K.T; psd = False
    if rng.uniform() < .3: o["delta"] = float(pick(rng, 0.1, 0.5, 1.0))
    mode = rng.randint(4)
    rec = Rec(AAAdapter(), checks)
    cls = spy_class(aa.ArchetypalAnalysis if std else aa.KernelAA)
    inp = layout(rng, X if std else K)
    desc = dict(n=n, f=f, k=k, standard=std, psd=psd, mode=int(mode), options=show(o), data=inp)
    S0, C0 = row_stochastic(rng, n, k), row_stochastic(rng, k, n)
    with patch_linesearch(aa, rec) if 'trial' in checks else quiet():
        if mode == 0:                                    # update sequence on a hand-made state
            m = cls(n_components=k, **o); m.spy = rec
            m.K = np.array(K); m.S, m.C = S0.copy(), C0.copy()
            m._initialize_workspace()
            if m.delta > 0: m.alpha = 1 + m.delta * rng.uniform(-1, 1, size=k) * 0.9
            for _ in range(rng.randint(1, 7)):
                b = rng.randint(3)
                if b == 0: m._update_dictionary()
                elif b == 1: m._update_weights()
                elif 'cost' in checks:
                    check_close(m._evaluate_cost(), rec.ad.cost(m), "evaluated cost is not the objective", 1e-9, 1 + rec.ad.scale(m), **rec.ad.state(m))
            return m, rec, desc, None
        if mode == 1:
            o["init"] = "custom"; kw = dict(dictionary=C0, weights=S0)
            if rng.randint(2): kw.update(update_dictionary=bool(rng.randint(2)))
            if rng.randint(3) == 0: kw.update(update_weights=bool(rng.randint(2)))
        elif mode == 2: o["init"] = "random"; kw = {}
        else:
            o["init"] = "random" if (k > n or not psd) else pick(rng, None, "furthest_sum"); kw = {}
        m = cls(n_components=k, **o); m.spy = rec
        W = try_fit(m.fit_transform, inp, **kw)
        desc["kwargs"] = sorted(kw)
        if W is not None:
            if 'stoch' in checks:
                check(is_row_stochastic(W), "returned weights not row-stochastic", W=W)
                check(is_row_stochastic(m.dictionary_), "fitted dictionary not row-stochastic", C=m.dictionary_)
            if 'cost' in checks:
                want = aa_cost(K, W, m.dictionary_, rec.ad.eff_alpha(m))
                check_close(m.cost_, want, "reported cost is not the objective of the returned factors", 1e-9, 1 + rec.ad.scale(m), W=W, C=m.dictionary_, K=K)
            if transform and rng.randint(2):
                C1 = np.array(m.dictionary_)
                T = try_fit(m.transform, inp)
                if T is not None and 'stoch' in checks:
                    check(is_row_stochastic(T), "transform weights not row-stochastic", W=T)
                    check(is_row_stochastic(m.dictionary_), "fitted dictionary not row-stochastic after transform", C=m.dictionary_)
    return m, rec, desc, W


def gp_case(rng, checks, which=None):
    aa, gp, mt, cr = mods()
    which = which or pick(rng, "gpnh", "mtd")
    n, f, k = int(rng.randint(1, 9)), int(rng.randint(1, 5)), int(rng.randint(1, 5))
    o = common_opts(rng)
    X = data_matrix(rng, n, f)
    o["epsilon_states"] = float(pick(rng, 0, 0, 0.1, 1.0, 10.0))
    if which != "gpnh":
        n = int(rng.randint(3, 10)); X = data_matrix(rng, n, f)
        o["lags"] = lag_set(rng, min(5, n - 1))
    if which == "mtd": o["epsilon_weights"] = float(pick(rng, 0, 0.1, 1.0, 20.0))
    mode = rng.randint(4)
    ad = {"gpnh": GPAdapter, "mtd": MTDAdapter, "crom": CROMAdapter}[which]()
    rec = CromRec(ad, checks) if which == "crom" else Rec(ad, checks)
    mod = {"gpnh": gp, "mtd": mt, "crom": cr}[which]
    base = {"gpnh": gp.GPNHConvexCoding, "mtd": mt.MTDConvexCoding, "crom": cr.GPNHConvexCodingCROM}[which]
    cls = spy_class(base)
    inp = layout(rng, X)
    G0, S0 = row_stochastic(rng, n, k), rng.standard_normal((k, f)) * pick(rng, 1, 3)
    if which != "gpnh":
        p = len(o["lags"])
        w0 = row_stochastic(rng, 1, p)[0]; T0 = np.array([row_stochastic(rng, k, k).T for _ in range(p)])
    desc = dict(model=which, n=n, f=f, k=k, mode=int(mode), options=show(o), data=inp)
    if which == "crom" and mode == 0: mode = 1
    with patch_linesearch(mod, rec) if 'trial' in checks else quiet():
        m = None
        if mode == 0:
            m = cls(n_components=k, **o); m.spy = rec
            m.X, m.Gamma, m.S = np.array(X), G0.copy(), S0.copy()
            if which == "mtd": m.order_weights, m.transition_matrices = w0.copy(), T0.copy()
            m._initialize_workspace()
            for _ in range(rng.randint(1, 8)):
                b = rng.randint(4 if which == "mtd" else 3)
                if b == 0: m._update_dictionary()
                elif b == 1: m._update_weights()
                elif b == 3: m._update_parameters()
                elif 'cost' in checks:
                    check_close(m._evaluate_cost(), ad.cost(m), "evaluated cost is not the objective", 1e-9, 1 + ad.scale(m), **ad.state(m))
            return m, rec, desc, None
        kw = {}
        if mode == 1:
            o["init"] = "custom"; kw = dict(dictionary=S0, weights=G0)
            if which == "mtd": kw.update(order_weights=w0, transition_matrices=T0)
            for b in ("update_dictionary", "update_weights") + (("update_parameters",) if which == "mtd" else ()):
                if rng.randint(4) == 0: kw[b] = False
        elif mode == 2: o["init"] = pick(rng, "random", None)
        else: o["init"] = "random" if k > n else "furthest_sum"
        m = cls(n_components=k, **o); m.spy = rec
        W = try_fit(m.fit_transform, inp, **kw)
        desc["kwargs"] = sorted(kw)
        if W is not None:
            if 'stoch' in checks:
                check(is_row_stochastic(W), "returned weights not row-stochastic", W=W)
                if which != "gpnh": par_stochastic(m, "after fit")
            if 'cost' in checks and which != "crom":
                args = (X, W, m.dictionary_, m.epsilon_states)
                want = gp_cost(*args)
                if which == "mtd": want += m.epsilon_weights * mtd_dev(W, ad.lags(m), m.order_weights, m.transition_matrices)
                check_close(m.cost_, want, "reported cost is not the objective of the returned factors", 1e-9, 1 + ad.scale(m), X=X, W=W, S=m.dictionary_)
            if which == "crom" and 'frame' in checks:
                check(np.array_equal(W, m.Gamma), "returned weights are not the model's weights")
            if rng.randint(3) == 0:
                T = try_fit(m.transform, inp)
                if T is not None and 'stoch' in checks:
                    check(is_row_stochastic(T), "transform weights not row-stochastic", W=T)
                    if which != "gpnh": par_stochastic(m, "after transform")
    return m, rec, desc, W


@prop("C06")
def aa_stoch(rng, i): return aa_case(rng, {'stoch'})[2]


@prop("C07")
def aa_costs(rng, i): return aa_case(rng, {'cost', 'trial'})[2]


@prop("C08")
def aa_dir(rng, i): return aa_case(rng, {'direction'})[2]


@prop("C08")
def aa_gradient(rng, i):
    """the gradient routines on a consistent state"""
    aa = mods()[0]
    n, k = int(rng.randint(1, 8)), int(rng.randint(1, 5))
    K = rng.standard_normal((n, n)); K = K + K.T
    delta = float(pick(rng, 0, 0, 0.3))
    m = aa.KernelAA(n_components=k, delta=delta)
    m.K, m.S, m.C = K.copy(), row_stochastic(rng, n, k), row_stochastic(rng, k, n)
    m._initialize_workspace()
    ad = AAAdapter()
    gS, gC = aa_grads(m.K, m.S, m.C, ad.eff_alpha(m))
    m._evaluate_cost(); m._update_weights_gradient(); m._update_dictionary_gradient()
    d = dict(K=K, S=m.S.copy(), C=m.C.copy(), delta=delta)
    check_close(m.grad_S, gS, "weights gradient is not the derivative", 1e-9, 1 + ad.scale(m), **d)
    check_close(m.grad_C, gC, "dictionary gradient is not the derivative", 1e-9, 1 + ad.scale(m), **d)
    return d


@prop("C09")
def gp_costs(rng, i): return gp_case(rng, {'cost', 'trial'}, "gpnh")[2]


@prop("C10")
def gp_dir(rng, i): return gp_case(rng, {'direction'}, "gpnh")[2]


@prop("C11")
def mtd_costs(rng, i): return gp_case(rng, {'cost', 'trial'}, "mtd")[2]


@prop("C12")
def mtd_dir(rng, i): return gp_case(rng, {'direction'}, "mtd")[2]


@prop("C13")
def stoch(rng, i): return gp_case(rng, {'stoch'}, pick(rng, "gpnh", "mtd", "crom"))[2]


@prop("C14")
def crom_fit(rng, i):
    m, rec, desc, W = gp_case(rng, {'cost', 'direction', 'frame', 'trial', 'only_parameters'}, "crom")
    return desc


# ---------------------------------------------------------------- forecasts

@prop("C15")
def forecasts(rng, i):
    aa, gp, mt, cr = mods()
    crom = bool(rng.randint(2))
    n, f, k = int(rng.randint(3, 10)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    lags = lag_set(rng, min(4, n - 1))
    X = data_matrix(rng, n, f)
    seed = int(rng.randint(2 ** 31 - 1))
    m = (cr.GPNHConvexCodingCROM if crom else mt.MTDConvexCoding)(k, lags=lags, max_iterations=3, tolerance=1e-3, random_state=seed, **({} if crom else {"epsilon_weights": 0.5}))
    if try_fit(m.fit_transform, X) is None: raise Skip("cost")
    if (np.abs(m.dictionary_) < 1e-300).any(): raise Skip("zero in the dictionary hides NaN")
    L = max(lags); n2 = int(rng.randint(L + 1, 10))
    Y = layout(rng, data_matrix(rng, n2, f))
    h = int(pick(rng, 0, 1, 2, L, L + 2, 7))
    w, T, S = np.array(m.order_weights), np.array(m.transition_matrices), np.array(m.dictionary_)
    m2 = copy.deepcopy(m)
    G = try_fit(m2.transform, Y)
    if G is None: raise Skip("cost")
    G = np.array(G)
    P = m.predict(Y, horizon=h)
    d = dict(crom=crom, lags=lags, horizon=h, weights=G, order_weights=w, transition_matrices=T, S=S)
    if h == 0:
        want = G @ S
    else:
        F = np.full((n2, k), np.nan)
        for t in range(L - 1, n2):
            hist = [G[s] for s in range(t + 1)]
            for _ in range(h):
                hist.append(sum(w[a] * (T[a] @ hist[-l]) for a, l in enumerate(lags)))
            F[t] = hist[-1]
            check(abs(F[t].sum() - 1) < 1e-6 and (F[t] > -1e-8).all(), "forecast weights are not a convex combination", forecast=F[t], **d)
        want = F @ S
    P = np.asarray(P)
    check(P.shape == want.shape, "shape", got=list(P.shape), **d)
    check(np.array_equal(np.isnan(P), np.isnan(want)), "wrong samples reported as missing", got=P, **d)
    check_close(P, want, "forecast is not the iterated transition model", 1e-8, got_=P, **d)
    return d


# ---------------------------------------------------------------- descent and stopping

def count_fit(cls_base, adapter_rec, rng, make, inp, kw, aa_like, desc):
    cls = spy_class(cls_base)
    m = make(cls); m.spy = adapter_rec
    with quiet() as w:
        W = try_fit(m.fit_transform, inp, **kw)
    if W is None: return None
    finish_checks(m, adapter_rec, w, aa_like, desc)
    return m


def finish_checks(m, rec, w, aa_like, desc, descent=True):
    per = {}
    for b, c in rec.log: per.setdefault(b, []).append(c)
    blocks = list(per)
    if not blocks: raise Skip("no blocks")
    n_it = max(len(v) for v in per.values())
    check(all(len(v) == n_it for v in per.values()), "blocks updated unequally often", counts={b: len(v) for b, v in per.items()})
    # cost at the end of each iteration
    nb = len(blocks)
    ends = [rec.log[(t + 1) * nb - 1][1] for t in range(n_it)]
    costs = [rec.start_cost] + ends
    fuzz = 1e-9 * (1 + rec.ad.scale(m))
    for t in range(1, n_it + 1):
        dl = abs(costs[t] - costs[t - 1])
        if t < n_it: check(dl >= m.tolerance - fuzz, "did not stop at the first iteration whose change is below the tolerance", iteration=t, change=dl, tolerance=m.tolerance, iterations=n_it, costs=costs)
        else: check(dl <= m.tolerance + fuzz or n_it == m.max_iterations, "stopped early", change=dl, tolerance=m.tolerance, iterations=n_it, max_iterations=m.max_iterations, costs=costs)
    check(n_it <= m.max_iterations, "more iterations than the limit", iterations=n_it)
    rep = m.n_iter_
    if rep != n_it:
        if aa_like and rep == n_it - 1:
            KNOWN.append(("C16", "AA-n_iter", "%s.n_iter_ is one less than the number of iterations performed" % aa_like))
        else:
            raise Violation("reported iteration count is not the number of iterations performed", reported=rep, performed=n_it)
    warned = any(issubclass(x.category, UserWarning) and "iterations" in str(x.message) for x in w)
    conv = abs(costs[-1] - costs[-2])
    if n_it == m.max_iterations and conv > m.tolerance + fuzz and m.tolerance > 0:
        check(warned, "limit exhausted without converging but no warning", iterations=n_it, change=conv, tolerance=m.tolerance)
    if n_it < m.max_iterations: check(not warned, "warning although the limit was not reached", iterations=n_it)
    if descent and m.require_monotonic_cost_decrease:
        check(m.cost_ <= rec.start_cost + fuzz, "cost larger than that of the initial guess", start=rec.start_cost, final=m.cost_)
        check(ends[-1] <= rec.start_cost + fuzz, "final factors are worse than the initial guess", start=rec.start_cost, final=ends[-1])


@prop("C16")
def stopping(rng, i):
    aa, gp, mt, cr = mods()
    which = pick(rng, "aa", "gpnh", "mtd")
    n, f, k = int(rng.randint(4, 9)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    X = data_matrix(rng, n, f)
    o = ls_options(rng, .4)
    o["max_iterations"] = int(pick(rng, 1, 2, 3, 6, 40))
    o["tolerance"] = float(pick(rng, 1e-1, 1e-2, 1e-3, 1e-5, 0.0))
    o["random_state"] = seed_like(rng); o["init"] = "random"
    if rng.uniform() < .15: o["line_search_memory"] = 2; o["require_monotonic_cost_decrease"] = False
    if rng.uniform() < .1: o["verbose"] = 1
    kw = {}
    m = rng.randint(5)
    if m == 0: kw["update_dictionary"] = False
    if m == 1: kw["update_weights"] = False
    rec = Rec({"aa": AAAdapter, "gpnh": GPAdapter, "mtd": MTDAdapter}[which](), {'decrease'})
    if which == "aa":
        if kw.get("update_dictionary") is False: kw["dictionary"] = row_stochastic(rng, k, n)
        if kw.get("update_weights") is False: kw["weights"] = row_stochastic(rng, n, k)
        base = pick(rng, aa.KernelAA, aa.ArchetypalAnalysis)
        inp = X @ X.T if base is aa.KernelAA else X
    else:
        if kw.get("update_dictionary") is False: kw["dictionary"] = rng.standard_normal((k, f))
        if kw.get("update_weights") is False: kw["weights"] = row_stochastic(rng, n, k)
        o["epsilon_states"] = float(pick(rng, 0, 0.1, 1))
        base = gp.GPNHConvexCoding; inp = X
        if which == "mtd":
            base = mt.MTDConvexCoding; o["lags"] = lag_set(rng, 3); o["epsilon_weights"] = float(pick(rng, 0, 0.5, 5))
            if rng.randint(4) == 0:
                p = len(o["lags"])
                kw.update(update_parameters=False, order_weights=row_stochastic(rng, 1, p)[0], transition_matrices=np.array([row_stochastic(rng, k, k).T for _ in range(p)]))
    desc = dict(model=base.__name__, n=n, f=f, k=k, options=show(o), kwargs=sorted(kw), data=X)
    count_fit(base, rec, rng, lambda c: c(n_components=k, **o), inp, kw, base.__name__ if which == "aa" else None, desc)
    return desc


@prop("C16")
def stopping_forced(rng, i):
    """The iteration driver on scripted costs: real _iterate with the updates replaced by recorded cost sequences."""
    aa, gp, mt, cr = mods()
    import reor.fembv as fb
    which = rng.randint(4)
    base = [aa.KernelAA, gp.GPNHConvexCoding, mt.MTDConvexCoding, fb.FEMBV][which]
    if not all(hasattr(base, x) for x in ("_iterate", "_evaluate_cost", "_update_weights")): raise Skip("renamed")
    nit = int(rng.randint(1, 7)); tol = float(pick(rng, 0.0, 0.5, 1.0, 2.0))
    cost0 = 50.0
    blocks = {0: ["dictionary", "weights"], 1: ["dictionary", "weights"], 2: ["dictionary", "weights", "parameters"], 3: ["parameters", "weights"]}[which]
    flags = {b: bool(rng.randint(4)) for b in blocks}
    if not any(flags.values()): flags[blocks[0]] = True
    log = []
    inc = bool(rng.randint(3) == 0)

    class M(base):
        def _evaluate_cost(self): return self.c
    def upd(b):
        def f(self, *a, **k):
            step = float(pick(rng, 0.0, 0.25, 0.5, 1.0, 1.5, 3.0))
            if inc and rng.randint(6) == 0: step = -step
            self.c -= step; log.append((b, self.c))
            return 0
        return f
    for b in blocks: setattr(M, "_update_" + b, upd(b))
    mono = bool(rng.randint(2))
    args = dict(n_components=2, max_iterations=nit, tolerance=tol, random_state=0, require_monotonic_cost_decrease=mono)
    if which == 3: args["max_tv_norm"] = None
    m = M(**args); m.c = cost0
    m.S = m.Gamma = np.ones((2, 2)) / 2
    desc = dict(model=base.__name__, max_iterations=nit, tolerance=tol, flags=flags, monotone=mono)
    try:
        cost, it = m._iterate(**{"update_" + b: v for b, v in flags.items()})
    except RuntimeError as e:
        if cost_raise(e) and mono: return desc
        raise
    on = [b for b in blocks if flags[b]]
    n_it = len(log) // len(on)
    check(len(log) == n_it * len(on), "incomplete iteration", log=log, **desc)
    check([b for b, _ in log] == on * n_it, "update order or selection wrong", log=log, **desc)
    costs = [cost0] + [log[(t + 1) * len(on) - 1][1] for t in range(n_it)]
    for t in range(1, n_it + 1):
        d = abs(costs[t] - costs[t - 1])
        if t < n_it: check(not d < tol, "continued after convergence", costs=costs, **desc)
        else: check(d < tol or n_it == nit, "stopped early", costs=costs, **desc)
    check(cost == costs[-1], "returned cost is not that of the final state", got=cost, costs=costs, **desc)
    if it != n_it:
        if which == 0 and it == n_it - 1: KNOWN.append(("C16", "AA-n_iter", "KernelAA.n_iter_ is one less than the number of iterations performed"))
        else: raise Violation("iteration count", got=it, performed=n_it, **desc)
    if mono and which < 3: check(costs[-1] <= cost0, "cost increased without being refused", costs=costs, log=log, **desc)
    return desc


@prop("C16")
def stopping_fembv(rng, i):
    import reor.fembv_kmeans as fk
    n, f, k = int(rng.randint(4, 8)), int(rng.randint(1, 3)), int(rng.randint(1, 4))
    X = rng.standard_normal((n, f))
    log = []

    class M(fk.FEMBVKMeans):
        def _update_parameters(self):
            super()._update_parameters(); log.append(("p", cost(self)))
        def _update_weights(self):
            super()._update_weights(); log.append(("w", cost(self)))

    def cost(m):
        return float((m.Gamma * ((m.X[:, None, :] - m.Theta[None]) ** 2).sum(-1)).sum())
    o = dict(max_iterations=int(pick(rng, 1, 2, 3, 20)), tolerance=float(pick(rng, 1e-6, 1e-3, .5, 0)), random_state=seed_like(rng), max_tv_norm=pick(rng, None, 1.0, 3))
    kw = {}
    if rng.randint(4) == 0: kw["update_weights"] = False
    m = M(k, **o)
    with quiet() as w:
        try:
            m.fit_transform(X, **kw)
        except Exception:
            if m.Gamma is not None and (m.Gamma.sum(axis=0) < 1e-6).any(): raise Skip("empty cluster")
            raise
    if not np.isfinite([c for _, c in log]).all(): raise Skip("empty cluster")

    class R: pass
    rec = R(); rec.log = log; rec.start_cost = None; rec.ad = R(); rec.ad.scale = lambda m: 1.0
    nb = len({b for b, _ in log}); n_it = len(log) // nb
    costs = [log[(t + 1) * nb - 1][1] for t in range(n_it)]
    desc = dict(n=n, k=k, options=show(o), data=X, costs=costs)
    check(m.n_iter_ == n_it, "reported iteration count", reported=m.n_iter_, performed=n_it, **desc)
    for t in range(1, n_it):
        d = abs(costs[t] - costs[t - 1])
        if t < n_it - 1: check(d >= o["tolerance"] - 1e-9, "continued after convergence", **desc)
        else: check(d <= o["tolerance"] + 1e-9 or n_it == o["max_iterations"], "stopped early", **desc)
    warned = any("iterations" in str(x.message) for x in w)
    if n_it == o["max_iterations"] and n_it > 1 and abs(costs[-1] - costs[-2]) > o["tolerance"] + 1e-9 and o["tolerance"] > 0: check(warned, "no warning", **desc)
    if n_it < o["max_iterations"]: check(not warned, "warning before the limit", **desc)
    check_close(m.cost_, costs[-1], "reported cost", 1e-9, **desc)
    return desc


# ---------------------------------------------------------------- C05: line searches end

@prop("C05")
def searches_end(rng, i):
    aa, gp, mt, cr = mods()
    which = rng.randint(4)
    n, f, k = int(rng.randint(3, 7)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    X = data_matrix(rng, n, f)
    mod = [aa, gp, mt, cr][which]
    o = dict(gamma=float(pick(rng, 1e-4, 0.9, 2.0, 50.0, 1e6)), max_iterations=2, tolerance=0, require_monotonic_cost_decrease=False, random_state=int(rng.randint(10 ** 6)))
    if rng.randint(2): o.update(sigma_two=float(pick(rng, .3, .5, .9)), sigma_one=float(pick(rng, 0.05, .2)))
    if rng.randint(2): o.update(step_size_tolerance=float(pick(rng, 1e-12, 1e-5, .3)))
    if which >= 2: o["lags"] = lag_set(rng, n - 1)
    if which == 2: o["epsilon_weights"] = 1.0
    cls = [aa.ArchetypalAnalysis, gp.GPNHConvexCoding, mt.MTDConvexCoding, cr.GPNHConvexCodingCROM][which]
    s2 = max(0.5, o.get("sigma_two", 0.9)); tol = o.get("step_size_tolerance", 1e-12)
    bound = int(np.ceil(np.log(tol) / np.log(s2))) + 3
    calls = [0]
    orig = getattr(mod, "get_next_spg_step_length", None)
    if orig is None: raise Skip("renamed")
    class TooMany(Exception): pass
    def wrapped(cur, *a, **kw):
        calls[0] = 1 if cur == 1 else calls[0] + 1
        if calls[0] > bound: raise TooMany()
        return orig(cur, *a, **kw)
    setattr(mod, "get_next_spg_step_length", wrapped)
    desc = dict(model=cls.__name__, n=n, f=f, k=k, options=show(o), data=X)
    try:
        try_fit(cls(k, init="random", **o).fit_transform, X)
    except TooMany:
        raise Violation("a line search does not end within the number of trials the step rules allow", bound=bound, **desc)
    finally:
        setattr(mod, "get_next_spg_step_length", orig)
    return desc
