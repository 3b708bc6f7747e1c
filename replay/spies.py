"""Spies on the iterative models: subclass hooks that look at every block update of the real code."""
import sys
import numpy as np
from common import *


def aa_cost(K, S, C, a):
    """||X - S D C X||^2 with K = X X^T."""
    M = S @ (a[:, None] * C)
    return float(np.trace(K) - 2 * np.sum(M * K) + np.sum((M @ K) * M))


def aa_grads(K, S, C, a):
    DC = a[:, None] * C
    M = S @ DC
    G = 2 * (M @ K) - 2 * K           # d cost / d M  (K symmetric)
    gS = G @ DC.T
    gC = a[:, None] * (S.T @ G)
    return gS, gC


def gp_cost(X, G, S, eps):
    n, f = X.shape; k = S.shape[0]
    v = ((X - G @ S) ** 2).sum() / (n * f)
    if k > 1:
        pen = 0.0
        for i in range(k):
            pen += ((S - S[i]) ** 2).sum()
        v += eps * pen / (k * (k - 1) * f)
    return float(v)


def gp_grads(X, G, S, eps):
    n, f = X.shape; k = S.shape[0]
    R = G @ S - X
    gS = 2.0 / (n * f) * (G.T @ R); gG = 2.0 / (n * f) * (R @ S.T)
    if k > 1:
        gS = gS + eps * 4.0 / (k * (k - 1) * f) * (k * S - S.sum(axis=0))
    return gS, gG


def mtd_resid(G, lags, w, T):
    n, k = G.shape; L = max(lags)
    Z = np.zeros((n - L, k))
    for i, l in enumerate(lags):
        Z += w[i] * (G[L - l:n - l] @ T[i].T)
    return G[L:] - Z


def mtd_dev(G, lags, w, T):
    """normalised squared deviation from the mixture-transition prediction"""
    n, k = G.shape; L = max(lags)
    return float((mtd_resid(G, lags, w, T) ** 2).sum() / (k * (n - L)))


def mtd_dev_grads(G, lags, w, T):
    n, k = G.shape; L = max(lags)
    R = mtd_resid(G, lags, w, T); c = 2.0 / (k * (n - L))
    gG = np.zeros_like(G); gG[L:] += c * R
    gw = np.zeros_like(w, dtype=float); gT = np.zeros_like(T, dtype=float)
    for i, l in enumerate(lags):
        gG[L - l:n - l] -= c * w[i] * (R @ T[i])
        gw[i] = -c * np.sum(R * (G[L - l:n - l] @ T[i].T))
        gT[i] = -c * w[i] * (R.T @ G[L - l:n - l])
    return gG, gw, gT


class Block:
    """One block of variables of a model: how to read it, its gradient and its projection."""
    def __init__(self, names, project):
        self.names, self.project = names, project     # project: list of None|'rows'|'cols'|'vec'|'mats'


def pr(kind, A):
    if kind is None: return A
    if kind == 'rows': return proj_rows(A)
    if kind == 'vec': return proj(A)
    if kind == 'mats': return np.array([proj_cols(M) for M in A])
    raise ValueError(kind)


class SpyMixin:
    """Mixed in before a model class.  self.spy is a Rec; the model adapters are below."""

    def _initialize_workspace(self):
        super()._initialize_workspace()
        if getattr(self, "spy", None): self.spy.started(self)

    def _update_dictionary(self, *a, **k):
        if not getattr(self, "spy", None): return super()._update_dictionary(*a, **k)
        return self.spy.step(self, "dictionary", super()._update_dictionary, a, k)

    def _update_weights(self, *a, **k):
        if not getattr(self, "spy", None): return super()._update_weights(*a, **k)
        return self.spy.step(self, "weights", super()._update_weights, a, k)

    def _update_parameters(self, *a, **k):
        if not getattr(self, "spy", None): return super()._update_parameters(*a, **k)
        return self.spy.step(self, "parameters", super()._update_parameters, a, k)


class Rec:
    """Checks selected by name on every block update."""
    def __init__(self, adapter, checks, psd=True):
        self.ad, self.checks, self.psd = adapter, set(checks), psd
        self.log = []            # (block, cost after)
        self.n = {}
        self.start = None
        self.mem = {}
        self.current = None
        self.forced_alpha = None

    def started(self, m):
        self.start = self.ad.state(m)
        self.start_cost = self.ad.cost(m)
        self.log = []; self.n = {}; self.mem = {}
        if 'stoch' in self.checks: self.ad.stochastic(m, "initially")

    def step(self, m, block, f, a, k):
        s0 = self.ad.state(m)
        c0 = self.ad.cost(m)
        names, kinds, grads, alpha = self.ad.block(m, block)
        self.current = (m, block)
        r = f(*a, **k)
        self.current = None
        s1 = self.ad.state(m)
        c1 = self.ad.cost(m)
        self.n[block] = self.n.get(block, 0) + 1
        self.log.append((block, c1))
        where = "after %s update %d" % (block, self.n[block])
        for nm in s0:
            if nm not in names and 'frame' in self.checks:
                check(np.array_equal(s0[nm], s1[nm]), "%s changed by the %s update" % (nm, block), before=s0[nm], after=s1[nm])
        if 'stoch' in self.checks: self.ad.stochastic(m, where)
        if 'cost' in self.checks:
            v = self.ad.reported(m)
            if v is not None:
                check_close(v, c1, "evaluated cost is not the objective of the current factors " + where, 1e-9, 1 + self.ad.scale(m), **s1)
        lam = self.direction(m, block, s0, s1, names, kinds, grads, alpha, where)
        if 'decrease' in self.checks and lam is not None:
            self.decrease(m, block, s0, s1, names, kinds, grads, alpha, lam, c0, c1, where)
        return r

    def direction(self, m, block, s0, s1, names, kinds, grads, alpha, where):
        if not self.checks & {'direction', 'decrease'} or alpha is None: return None
        amax = max(1.0, m.line_search_alpha_max)
        if 'direction' in self.checks:
            check(0 < alpha <= amax * (1 + 1e-9), "step length out of bounds " + where, alpha=alpha)
        P = [pr(kd, s0[nm] - alpha * g) - s0[nm] for nm, kd, g in zip(names, kinds, grads)]
        D = [s1[nm] - s0[nm] for nm in names]
        pp = sum(float((p * p).sum()) for p in P)
        pd = sum(float((p * d).sum()) for p, d in zip(P, D))
        size = max(1.0, max(float(np.abs(s0[nm]).max(initial=0)) for nm in names), max(float(np.abs(p).max(initial=0)) for p in P))
        noise = 1e-7 * size * (1 + 1e-5 * alpha * max(float(np.abs(g).max(initial=0)) for g in grads))
        if pp <= (100 * noise) ** 2:
            if 'direction' in self.checks:
                check(all(np.abs(d).max(initial=0) <= 200 * noise for d in D), "moved from a stationary point " + where, move=D)
            return None
        lam = pd / pp
        if 'direction' in self.checks:
            for nm, p, d, g in zip(names, P, D, grads):
                check(np.abs(d - lam * p).max(initial=0) <= noise, "%s does not move along the exact (projected) gradient step %s" % (nm, where),
                      before=s0[nm], after=s1[nm], exact_gradient=g, alpha=alpha, expected_direction=p, fraction=lam, **self.ad.data(m))
            check(lam > -noise / np.sqrt(pp) and lam <= 1 + 1e-6, "fraction of the step not in (0, 1] " + where, fraction=lam, **s0)
        return lam

    def decrease(self, m, block, s0, s1, names, kinds, grads, alpha, lam, c0, c1, where):
        mem = self.mem.setdefault(block, [0.0] * m.line_search_memory)
        mem.pop(0); mem.append(c0)
        slope = sum(float(((pr(kd, s0[nm] - alpha * g) - s0[nm]) * g).sum()) for nm, kd, g in zip(names, kinds, grads))
        bound = max(mem) + m.line_search_gamma * lam * slope
        tol = 1e-7 * (1 + self.ad.scale(m))
        if abs(lam * slope) < 1e-10 * (1 + self.ad.scale(m)): return
        check(c1 <= bound + tol or lam < m.step_size_tolerance * (1 + 1e-6), "line search ended without sufficient decrease " + where,
              cost_before=c0, cost_after=c1, bound=bound, fraction=lam, slope=slope, gamma=m.line_search_gamma, memory=m.line_search_memory, **s0)


class AAAdapter:
    def state(self, m): return {"S": np.array(m.S), "C": np.array(m.C)}
    def data(self, m): return {"K": np.array(m.K), "alpha_factors": np.array(m.alpha)}
    def eff_alpha(self, m): return np.array(m.alpha, dtype=float) if m.delta > 0 else np.ones(m.C.shape[0])
    def cost(self, m): return aa_cost(m.K, m.S, m.C, self.eff_alpha(m))
    def scale(self, m): return float(np.abs(m.K).sum() * max(1.0, np.abs(m.alpha).max()) ** 2)
    def reported(self, m): return m._evaluate_cost()
    def stochastic(self, m, where):
        check(is_row_stochastic(m.S), "weights are not row-stochastic " + where, S=np.array(m.S), K=np.array(m.K))
        check(is_row_stochastic(m.C), "archetype coefficients are not row-stochastic " + where, C=np.array(m.C), K=np.array(m.K))
    def block(self, m, b):
        gS, gC = aa_grads(m.K, m.S, m.C, self.eff_alpha(m))
        if b == "weights": return ["S"], ['rows'], [gS], getattr(m, "alpha_S", None)
        return ["C"], ['rows'], [gC], getattr(m, "alpha_C", None)


class GPAdapter:
    def state(self, m): return {"Gamma": np.array(m.Gamma), "S": np.array(m.S)}
    def data(self, m): return {"X": np.array(m.X), "epsilon_states": m.epsilon_states}
    def cost(self, m): return gp_cost(m.X, m.Gamma, m.S, m.epsilon_states)
    def scale(self, m): return float(np.mean(np.square(m.X)) + np.mean(np.square(m.S)) * (1 + abs(m.epsilon_states)))
    def reported(self, m): return m._evaluate_cost()
    def stochastic(self, m, where):
        check(is_row_stochastic(m.Gamma), "weights are not row-stochastic " + where, Gamma=np.array(m.Gamma), X=np.array(m.X))
    def block(self, m, b):
        gS, gG = gp_grads(m.X, m.Gamma, m.S, m.epsilon_states)
        if b == "weights": return ["Gamma"], ['rows'], [gG], getattr(m, "alpha_Gamma", None)
        return ["S"], [None], [gS], getattr(m, "alpha_S", None)


class MTDAdapter(GPAdapter):
    def lags(self, m): return [int(l) for l in m.lags]
    def state(self, m):
        return {"Gamma": np.array(m.Gamma), "S": np.array(m.S), "order_weights": np.array(m.order_weights), "transition_matrices": np.array(m.transition_matrices)}
    def data(self, m): return {"X": np.array(m.X), "epsilon_states": m.epsilon_states, "epsilon_weights": m.epsilon_weights, "lags": self.lags(m)}
    def cost(self, m):
        return gp_cost(m.X, m.Gamma, m.S, m.epsilon_states) + m.epsilon_weights * mtd_dev(m.Gamma, self.lags(m), m.order_weights, m.transition_matrices)
    def scale(self, m): return GPAdapter.scale(self, m) + abs(m.epsilon_weights)
    def stochastic(self, m, where):
        GPAdapter.stochastic(self, m, where)
        par_stochastic(m, where)
    def block(self, m, b):
        gS, gG = gp_grads(m.X, m.Gamma, m.S, m.epsilon_states)
        dG, dw, dT = mtd_dev_grads(m.Gamma, self.lags(m), m.order_weights, m.transition_matrices)
        e = m.epsilon_weights
        if b == "weights": return ["Gamma"], ['rows'], [gG + e * dG], getattr(m, "alpha_Gamma", None)
        if b == "dictionary": return ["S"], [None], [gS], getattr(m, "alpha_S", None)
        return ["order_weights", "transition_matrices"], ['vec', 'mats'], [e * dw, e * dT], getattr(m, "alpha_parameters", None)


def par_stochastic(m, where):
    w, T = np.array(m.order_weights), np.array(m.transition_matrices)
    check((w >= -1e-8).all() and abs(w.sum() - 1) < 1e-8, "order weights are not in the simplex " + where, order_weights=w)
    check(all(is_col_stochastic(t) for t in T), "transition matrix is not column-stochastic " + where, transition_matrices=T)


class CROMAdapter(GPAdapter):
    """GPNH part as above; the parameters block minimises the Markov residual."""
    def lags(self, m): return [int(l) for l in m.lags]
    def fitting(self, m): return m.transition_matrices is not None and not getattr(m, "_gp_phase", False)
    def state(self, m):
        d = GPAdapter.state(self, m)
        if m.transition_matrices is not None:
            d["order_weights"] = np.array(m.order_weights); d["transition_matrices"] = np.array(m.transition_matrices)
        return d
    def data(self, m): return {"X": np.array(m.X), "lags": self.lags(m)}
    def stochastic(self, m, where):
        GPAdapter.stochastic(self, m, where)
        if "parameters" in where: par_stochastic(m, where)
    def block(self, m, b):
        if b != "parameters": return GPAdapter.block(self, m, b)
        dG, dw, dT = mtd_dev_grads(m.Gamma, self.lags(m), m.order_weights, m.transition_matrices)
        return ["order_weights", "transition_matrices"], ['vec', 'mats'], [dw, dT], getattr(m, "alpha_parameters", None)


class CromRec(Rec):
    """For the CROM parameters phase the cost is the Markov residual."""
    def __init__(self, adapter, checks):
        Rec.__init__(self, adapter, checks)

    def step(self, m, block, f, a, k):
        if block != "parameters":
            if 'only_parameters' in self.checks: return f(*a, **k)
            return Rec.step(self, m, block, f, a, k)
        ad = self.ad
        if self.n.get("parameters", 0) == 0:
            self.par_start = ad.state(m)
            if 'stoch' in self.checks: par_stochastic(m, "initially (parameters)")
        save = (ad.cost, ad.reported, ad.scale)
        ad.cost = lambda m: mtd_dev(m.Gamma, ad.lags(m), m.order_weights, m.transition_matrices)
        ad.reported = lambda m: m._evaluate_fit_residual()
        ad.scale = lambda m: 1.0
        try:
            return Rec.step(self, m, block, f, a, k)
        finally:
            ad.cost, ad.reported, ad.scale = save


def spy_class(base):
    return type("Spy" + base.__name__, (SpyMixin, base), {})


def patch_linesearch(module, rec, tolf=1e-8):
    """Wrap the step rule seen by a model module so that trial costs inside line searches are checked."""
    import contextlib

    @contextlib.contextmanager
    def cm():
        name = "get_next_spg_step_length"
        orig = getattr(module, name, None)
        if orig is None:
            yield; return

        def wrapped(cur, delta, f_old, f_new, *a, **k):
            if rec.current is not None and not (rec.current[1] == 'dictionary' and getattr(rec.current[0], 'delta', 0) > 0):
                m, block = rec.current
                c = rec.ad.cost(m)
                rec.trials = getattr(rec, "trials", 0) + 1
                check_close(f_new, c, "trial cost inside the %s line search is not the objective of the trial factors" % block, tolf, 1 + rec.ad.scale(m), **rec.ad.state(m))
            return orig(cur, delta, f_old, f_new, *a, **k)
        setattr(module, name, wrapped)
        try:
            yield
        finally:
            setattr(module, name, orig)
    return cm()
