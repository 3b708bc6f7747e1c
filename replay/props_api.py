"""Oracles for the whole-API properties C24-C27 (frame, transform, validation, initialisation)."""
import numpy as np
from common import *
from spies import *
from props_models import mods, show, data_matrix, try_fit, common_opts
from props_fembv import best, tv, FakeKMeans, StubCluster, StubClass


class Guard:
    """Arrays that must keep their contents."""
    def __init__(self): self.items = []
    def add(self, name, a):
        if a is None: return a
        if isinstance(a, np.ndarray): self.items.append((name, a, a.copy()))
        elif isinstance(a, list): self.items.append((name, a, list(a)))
        return a
    def check(self, op, d):
        for name, a, c in self.items:
            same = np.array_equal(a, c, equal_nan=(isinstance(a, np.ndarray) and a.dtype.kind == "f")) if isinstance(a, np.ndarray) else a == c
            check(same, "%s changed %s" % (op, name), before=c, after=np.array(a), **d)


def result(g, name, r):
    for j, a in enumerate(r if isinstance(r, tuple) else (r,)):
        if isinstance(a, np.ndarray): g.add("%s[%d]" % (name, j) if isinstance(r, tuple) else name, a)


@prop("C24")
def frame_models(rng, i):
    aa, gp, mt, cr = mods()
    which = pick(rng, "kaa", "aa", "gpnh", "mtd", "crom")
    n, f, k = int(rng.randint(4, 8)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    o = common_opts(rng); o["max_iterations"] = int(pick(rng, 1, 2, 4))
    o["require_monotonic_cost_decrease"] = False; o.pop("verbose", None)
    if which in ("mtd", "crom"): o["lags"] = lag_set(rng, 3)
    if which == "mtd": o["epsilon_weights"] = 1.0
    if which in ("kaa", "aa") and rng.randint(3) == 0: o["delta"] = .3
    lagsarg = o.get("lags")
    g = Guard()
    if lagsarg is not None: o["lags"] = g.add("lags argument", np.array(lagsarg) if rng.randint(2) and which == "crom" else list(lagsarg))
    cls = dict(kaa=aa.KernelAA, aa=aa.ArchetypalAnalysis, gpnh=gp.GPNHConvexCoding, mtd=mt.MTDConvexCoding, crom=cr.GPNHConvexCodingCROM)[which]
    o["init"] = pick(rng, "custom", "random", "furthest_sum", None)
    m = cls(k, **o)
    ops = []
    d = dict(model=cls.__name__, n=n, f=f, k=k, options=show(o), ops=ops)
    for t in range(rng.randint(1, 5)):
        X = data_matrix(rng, n, f)
        A = g.add("data of call %d" % t, layout(rng, X @ X.T if which == "kaa" else X))
        kw = {}
        if o["init"] == "custom":
            kw = dict(weights=layout(rng, row_stochastic(rng, n, k)), dictionary=layout(rng, row_stochastic(rng, k, n) if which in ("kaa", "aa") else rng.standard_normal((k, f))))
            if which == "mtd":
                p = len(lagsarg); kw.update(order_weights=row_stochastic(rng, 1, p)[0], transition_matrices=np.array([row_stochastic(rng, k, k).T for _ in range(p)]))
            for b in ("update_dictionary", "update_weights") + (("update_parameters",) if which == "mtd" else ()):
                if rng.randint(3) == 0: kw[b] = False
        elif o["init"] == "furthest_sum" or (o["init"] is None and which in ("kaa", "aa")):
            if rng.randint(2):
                e = rng.permutation(n)[:int(rng.randint(0, n - k + 1))]
                rest = [j for j in range(n) if j not in e]
                kw = dict(start_index=int(rest[0]), exclude=g.add("exclusion list", pick(rng, np.array(e, dtype=int), [int(x) for x in e])), n_extra_steps=int(pick(rng, 0, 1, 5)))
        for a in list(kw):
            if isinstance(kw[a], np.ndarray): g.add("%s of call %d" % (a, t), kw[a])
        op = pick(rng, "fit", "fit_transform", "transform", "predict", "inverse_transform") if t else pick(rng, "fit", "fit_transform")
        if op == "predict" and which not in ("mtd", "crom"): op = "transform"
        ops.append(op)
        try:
            if op in ("fit", "fit_transform"): r = getattr(m, op)(A, **kw); 
            elif op == "predict": r = m.predict(A, horizon=int(pick(rng, 0, 1, 4)))
            elif op == "transform": r = m.transform(A)
            else: r = m.inverse_transform(g.add("weights passed", row_stochastic(rng, 3, k)))
        except RuntimeError as e:
            if not cost_raise(e): raise
            r = None
        g.check("%s (call %d)" % (op, t), d)
        if isinstance(r, np.ndarray): g.add("the result of %s (call %d)" % (op, t), r)
        if op.startswith("fit"):
            for at in ("dictionary_",):
                if getattr(m, at, None) is not None: g.add("%s fitted by call %d" % (at, t), getattr(m, at))
    return d


@prop("C24")
def frame_fembv(rng, i):
    import reor.fembv_kmeans as fk, reor.fembv_varx as fv
    which = rng.randint(3)
    f, k = int(rng.randint(1, 3)), int(rng.randint(1, 3))
    n = int(rng.randint(14, 20)); g = Guard(); ops = []
    d = dict(which=int(which), n=n, f=f, k=k, ops=ops)
    C = pick(rng, None, 2.0)
    if which == 2:
        p, q, s = int(rng.randint(0, 3)), int(rng.randint(0, 2)), int(rng.randint(0, 2))
        Y = g.add("y", layout(rng, rng.standard_normal((n, f)))); U = g.add("u", layout(rng, rng.standard_normal((n, q)))) if q else None
        m = fv.FEMBVVARXLocalLinearModel(Y, p=p, **({} if U is None else dict(u=U, s=s)))
        for t in range(2):
            w = g.add("weights", layout(rng, rng.uniform(.1, 1, size=n))) if rng.randint(3) else None
            m.fit(weights=w); g.check("fit", d)
            ops.append("fit")
        return d
    if which == 1: mem = [int(x) for x in rng.randint(0, 3, size=k)]
    m = fk.FEMBVKMeans(k, C, random_state=seed_like(rng), max_iterations=2) if which == 0 else fv.FEMBVVARX(k, C, memory=g.add("memory", mem), random_state=seed_like(rng), max_iterations=1)
    for t in range(rng.randint(1, 4)):
        X = g.add("data of call %d" % t, layout(rng, rng.standard_normal((n, f))))
        kw = {}
        T = n - (max(mem) if which == 1 else 0)
        if rng.randint(2):
            G = g.add("weights of call %d" % t, layout(rng, .5 * row_stochastic(rng, T, k) + .5 / k))
            kw = dict(weights=G, init="custom")
            if which == 0 and rng.randint(2): kw["parameters"] = g.add("parameters", layout(rng, rng.standard_normal((k, f))))
        if which == 1 and rng.randint(2): kw["external_factors"] = g.add("external factors", layout(rng, rng.standard_normal((n, 1))))
        op = "fit_transform" if t == 0 or which == 1 or rng.randint(2) else "transform"
        if op == "transform": kw = {}
        ops.append(op)
        try:
            r = getattr(m, op)(X, **kw)
        except np.linalg.LinAlgError:
            raise Skip("singular")
        except Exception:
            if m.Gamma is not None and (m.Gamma.sum(axis=0) < 6).any(): raise Skip("empty cluster")
            raise
        g.check("%s (call %d)" % (op, t), d)
        g.add("the result of %s (call %d)" % (op, t), r)
        if which == 0: g.add("centroids fitted by call %d" % t, m.Theta)
    return d


@prop("C24")
def frame_rest(rng, i):
    from reor.pwvarx import ClusterPWVARX
    import reor.crom as cm
    from reor.furthest_sum import furthest_sum
    g = Guard(); n = 30; f = int(rng.randint(1, 3)); which = rng.randint(3)
    d = dict(which=int(which), f=f)
    if which == 0:
        p, s = int(rng.randint(1, 3)), int(rng.randint(0, 3))
        Y = g.add("endog", layout(rng, rng.standard_normal((n, f)))); U = g.add("exog", layout(rng, rng.standard_normal((n, 1))))
        lab = g.add("labels", rng.randint(2, size=n - max(p, s)))
        m = ClusterPWVARX(2, p, s=s, clusterer=StubCluster(lab), classifier=StubClass(lab))
        r = g.add("returned labels", m.fit_transform(Y, U)); g.check("fit_transform", d)
        m.transform(Y, U); g.check("transform", d); m.fit(Y, U); g.check("fit", d)
    elif which == 1:
        X = g.add("X", layout(rng, rng.standard_normal((n, f)))); sw = g.add("sample_weight", rng.uniform(.1, 1, size=n))
        m = cm.KMeansMarkovCROM(2, random_state=0, n_init=1); m.fit(X, sample_weight=sw); g.check("fit", d)
        for nm in ("labels_", "transition_matrix_", "cluster_centers_"): g.add(nm, getattr(m, nm))
        r0 = g.add("prediction 0", m.predict(X)); r1 = g.add("prediction 2", m.predict(X, horizon=2)); g.check("predict", d)
        m.transform(X); m.fit_predict(X); g.check("fit_predict", d)
    else:
        D = g.add("dissimilarities", layout(rng, rng.uniform(size=(6, 6)))); e = g.add("exclude", pick(rng, [4, 1], np.array([4, 1])))
        r = furthest_sum(D, 3, 0, exclude=e, extra_steps=int(rng.randint(0, 5))); g.check("furthest_sum", d)
        g.add("selection", r); furthest_sum(D, 3, 2, exclude=e, extra_steps=2); g.check("furthest_sum", d)
    return d


# ------------------------------------------------------------------------------------- C25

def optimum_rows(H, L, G0):
    """min over row-stochastic W of 0.5 tr(W H W^T) - <L, W> by accelerated projected gradient (H psd)."""
    W = G0.copy(); V = W.copy(); t = 1.0
    step = 1.0 / max(np.linalg.norm(H, 2), 1e-12)
    for _ in range(3000):
        W2 = proj_rows(V - step * (V @ H - L))
        t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
        V = W2 + (t - 1) / t2 * (W2 - W)
        if np.abs(W2 - W).max() < 1e-12: W = W2; break
        W, t = W2, t2
    return W


@prop("C25")
def transform_models(rng, i):
    aa, gp, mt, cr = mods()
    which = pick(rng, "kaa", "aa", "gpnh", "mtd", "crom")
    n, f, k = int(rng.randint(4, 8)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    o = dict(max_iterations=int(pick(rng, 3, 400)), tolerance=float(pick(rng, 1e-10, 1e-3)), random_state=seed_like(rng), require_monotonic_cost_decrease=False)
    if which in ("mtd", "crom"): o["lags"] = lag_set(rng, 3)
    if which == "mtd": o["epsilon_weights"] = float(pick(rng, 0, 1.0))
    if which in ("gpnh", "mtd", "crom"): o["epsilon_states"] = float(pick(rng, 0, 1.0))
    cls = dict(kaa=aa.KernelAA, aa=aa.ArchetypalAnalysis, gpnh=gp.GPNHConvexCoding, mtd=mt.MTDConvexCoding, crom=cr.GPNHConvexCodingCROM)[which]
    o["init"] = pick(rng, "custom", "random", "furthest_sum", None)
    ad = dict(kaa=AAAdapter, aa=AAAdapter, gpnh=GPAdapter, mtd=MTDAdapter, crom=GPAdapter)[which]()
    rec = Rec(ad, set())
    m = spy_class(cls)(k, **o)
    X = data_matrix(rng, n, f); A = X @ X.T if which == "kaa" else X
    kw = {}
    if o["init"] == "custom":
        kw = dict(weights=row_stochastic(rng, n, k), dictionary=row_stochastic(rng, k, n) if which in ("kaa", "aa") else rng.standard_normal((k, f)))
        if which == "mtd":
            p = len(o["lags"]); kw.update(order_weights=row_stochastic(rng, 1, p)[0], transition_matrices=np.array([row_stochastic(rng, k, k).T for _ in range(p)]))
    W = m.fit_transform(A, **kw)
    keep = ["dictionary_"] + (["order_weights", "transition_matrices"] if which in ("mtd", "crom") else [])
    live = "C" if which in ("kaa", "aa") else "S"
    fitted = {a: np.array(getattr(m, a)) for a in keep}
    d = dict(model=cls.__name__, n=n, f=f, k=k, options=show(o), data=A, fitted=fitted)
    for rep in range(rng.randint(1, 3)):
        n2 = n if which in ("kaa", "aa") else int(rng.randint(4, 9))
        X2 = data_matrix(rng, n2, f); B = X2 @ X2.T if which == "kaa" else X2
        m.spy = rec
        T = m.transform(layout(rng, B))
        d["new_data"] = B
        for a in keep: check(np.array_equal(np.asarray(getattr(m, a)), fitted[a]), "%s changed by transform" % a, after=np.asarray(getattr(m, a)), **d)
        D = fitted["dictionary_"]
        check(np.array_equal(np.asarray(getattr(m, live)), D), "the model's dictionary is not the fitted one after transform", after=np.asarray(getattr(m, live)), **d)
        check(T.shape == (n2, k), "shape", got=list(T.shape), **d)
        check(is_row_stochastic(T, 1e-8), "transform weights not row-stochastic", W=T, **d)
        K2 = X2 @ X2.T
        if which in ("kaa", "aa"): c = lambda V: aa_cost(K2, V, D, np.ones(k))
        elif which == "mtd": c = lambda V: gp_cost(X2, V, D, m.epsilon_states) + m.epsilon_weights * mtd_dev(V, [int(l) for l in m.lags], fitted["order_weights"], fitted["transition_matrices"])
        else: c = lambda V: gp_cost(X2, V, D, m.epsilon_states)
        sc = 1e-9 * (1 + ad.scale(m))
        check(c(T) <= rec.start_cost + sc, "transform made the weights worse than its own starting point", start=rec.start_cost, final=c(T), **d)
        if o["max_iterations"] == 400 and o["tolerance"] == 1e-10 and not (which == "mtd" and o["epsilon_weights"]):
            if which in ("kaa", "aa"): Wo = optimum_rows(D @ K2 @ D.T, K2 @ D.T, row_stochastic(rng, n2, k))
            else: Wo = optimum_rows(D @ D.T, X2 @ D.T, row_stochastic(rng, n2, k))
            ref = np.full((n2, k), 1.0 / k)
            check(c(T) <= c(Wo) + 0.1 * abs(max(c(ref), rec.start_cost) - c(Wo)) + 1e-4 * (1 + ad.scale(m)), "transform weights are far from the optimum for the fitted dictionary", got=c(T), optimum=c(Wo), start=rec.start_cost, **d)
        R = m.inverse_transform(T)
        check_close(R, T @ D, "reconstruction is not weights times dictionary", 1e-12, **d)
        Wn = row_stochastic(rng, 3, k); check_close(m.inverse_transform(Wn), Wn @ D, "reconstruction is not weights times dictionary", 1e-12, **d)
    return d


@prop("C25")
def transform_kmeans(rng, i):
    import reor.fembv_kmeans as fk
    n, f, k = int(rng.randint(4, 9)), int(rng.randint(1, 3)), int(rng.randint(1, 4))
    X = rng.standard_normal((n, f)); C = pick(rng, None, 1.0, 3.0)
    m = fk.FEMBVKMeans(k, C, random_state=seed_like(rng), max_iterations=3, init=pick(rng, "random", None, "custom"))
    kw = {}
    if m.init == "custom": kw = dict(weights=.5 * row_stochastic(rng, n, k) + .5 / k, parameters=rng.standard_normal((k, f)))
    try:
        m.fit(X, **kw)
    except Exception:
        if m.Gamma is not None and (m.Gamma.sum(axis=0) < 1e-6).any(): raise Skip("empty cluster")
        raise
    if not np.isfinite(m.Theta).all(): raise Skip("empty cluster")
    Th = np.array(m.Theta)
    n2 = int(rng.randint(2, 9)); Y = layout(rng, rng.standard_normal((n2, f)) * 2)
    G = m.transform(Y)
    d = dict(X=X, Y=Y, Theta=Th, max_tv_norm=C, k=k)
    check(np.array_equal(m.Theta, Th), "centroids changed by transform", after=m.Theta, **d)
    check(G.shape == (n2, k), "shape", **d)
    D = ((Y[:, None] - Th[None]) ** 2).sum(-1)
    if k == 1: check_close(G, np.ones((n2, 1)), "single component", 1e-9, **d); return d
    check((G >= -1e-6).all() and np.abs(G.sum(axis=1) - 1).max() < 1e-5, "affiliations infeasible", Gamma=G, **d)
    if C is not None and n2 > 1: check(tv(G).max() <= C + 1e-4, "variation bound", Gamma=G, **d)
    check((G * D).sum() <= best(D, C) + 1e-4 * (1 + D.max()), "transform affiliations are not optimal for the fitted centroids", got=(G * D).sum(), optimum=best(D, C), **d)
    return d


# ------------------------------------------------------------------------------------- C26

class Iterated(Exception): pass


def noiter(cls):
    class T(cls):
        def _iterate(self, *a, **k): raise Iterated()
    for b in ("dictionary", "weights", "parameters"):
        if hasattr(cls, "_update_" + b):
            def f(self, *a, **k): raise Iterated()
            setattr(T, "_update_" + b, f)
    T.__name__ = "NoIter" + cls.__name__
    return T


def model_table():
    aa, gp, mt, cr = mods()
    import reor.fembv_kmeans as fk, reor.fembv_varx as fv
    return dict(kaa=aa.KernelAA, aa=aa.ArchetypalAnalysis, gpnh=gp.GPNHConvexCoding, mtd=mt.MTDConvexCoding, crom=cr.GPNHConvexCodingCROM, km=fk.FEMBVKMeans, varx=fv.FEMBVVARX)


def setup(rng, which, init):
    n, f, k = int(rng.randint(4, 8)), int(rng.randint(2, 5)), int(rng.randint(1, 4))
    if which == "varx": n += 6
    X = rng.standard_normal((n, f)); A = X @ X.T if which == "kaa" else X
    o = dict(random_state=int(rng.randint(10 ** 6)), max_iterations=2, tolerance=1e-3)
    kw = {}
    if which in ("mtd", "crom"): o["lags"] = lag_set(rng, 3)
    if which in ("km", "varx"): o["max_tv_norm"] = pick(rng, None, 1.0)
    else: o["require_monotonic_cost_decrease"] = False
    o["init"] = init
    if init == "custom":
        kw["weights"] = row_stochastic(rng, n, k)
        if which == "km": kw["parameters"] = rng.standard_normal((k, f))
        elif which in ("kaa", "aa"): kw["dictionary"] = row_stochastic(rng, k, n)
        elif which != "varx": kw["dictionary"] = rng.standard_normal((k, f))
        if which == "mtd":
            p = len(o["lags"]); kw.update(order_weights=row_stochastic(rng, 1, p)[0], transition_matrices=np.array([row_stochastic(rng, k, k).T for _ in range(p)]))
    return n, f, k, A, o, kw


@prop("C26")
def rejects(rng, i):
    which = pick(rng, "kaa", "aa", "gpnh", "mtd", "crom", "km", "varx")
    base = model_table()[which]; cls = noiter(base)
    kind = rng.randint(5)
    custom = kind >= 3
    n, f, k, A, o, kw = setup(rng, which, "custom" if custom or rng.randint(3) == 0 else "random")
    d = dict(model=base.__name__, n=n, f=f, k=k, kind=int(kind))
    if kind == 0:
        bad = pick(rng, 0, -1, -5, 2.5, 2.0, "3", [2], np.int64(0), np.float64(2))
        if which == "varx" and isinstance(bad, list): bad = 0
        k = bad; d["n_components"] = repr(bad)
    elif kind == 1: o["max_iterations"] = pick(rng, 0, -3, 1.5, 10.0, None, "5", np.int64(0)); d["max_iterations"] = repr(o["max_iterations"])
    elif kind == 2: o["tolerance"] = pick(rng, -1e-3, -1, "a", None, [1e-3], np.float64(-2)); d["tolerance"] = repr(o["tolerance"])
    elif kind == 3:
        if which == "kaa" and rng.randint(3) == 0:
            A = A[:, :-1] if rng.randint(2) else A[:-1]; d["kernel"] = list(A.shape)
        else:
            nm = sorted(kw)[rng.randint(len(kw))]; a = kw[nm]; ax = rng.randint(a.ndim); how = rng.randint(3)
            if how == 0: b = np.concatenate([a, a], axis=ax)
            elif how == 1 and a.shape[ax] > 1: b = np.take(a, range(a.shape[ax] - 1), axis=ax)
            else: b = np.concatenate([a, np.take(a, [0], axis=ax)], axis=ax)
            if a.ndim == 2 and rng.randint(4) == 0 and a.shape[0] != a.shape[1]: b = a.T
            kw[nm] = np.array(b); d["wrong_shape"] = nm; d["shape"] = list(kw[nm].shape)
    else:
        names = [x for x in kw if x in ("weights", "order_weights", "transition_matrices") or (x == "dictionary" and which in ("kaa", "aa"))]
        nm = names[rng.randint(len(names))]; a = kw[nm].copy()
        how = rng.randint(3)
        if how == 0: a[tuple(rng.randint(s) for s in a.shape)] += float(pick(rng, 1e-3, .3, -1e-2))
        elif how == 1: a = a * float(pick(rng, 1.01, 2.0, .5))
        else:
            if nm == "weights" and n != k: a = row_stochastic(rng, k, n).T
            elif nm == "transition_matrices" and k > 1: a = np.array([row_stochastic(rng, k, k) for _ in a])
            elif nm == "dictionary": a = row_stochastic(rng, n, k).T
            ax = 0 if nm == "order_weights" else 1
            if np.abs(a.sum(axis=ax) - 1).max() < 1e-3: a = a * 1.5
        kw[nm] = a; d["wrong_sums"] = nm
    d["options"] = show(o); d["arrays"] = kw
    try:
        m = cls(k, **o)
        getattr(m, pick(rng, "fit", "fit_transform"))(A, **kw)
    except ValueError:
        return d
    except Iterated:
        raise Violation("an iteration was run with invalid settings", **d)
    raise Violation("invalid settings accepted", **d)


@prop("C26")
def accepts(rng, i):
    which = pick(rng, "kaa", "aa", "gpnh", "mtd", "crom", "km", "varx")
    cls = noiter(model_table()[which])
    n, f, k, A, o, kw = setup(rng, which, pick(rng, "custom", "random", None))
    d = dict(model=which, n=n, f=f, k=k)
    o["max_iterations"] = pick(rng, 1, np.int32(3), np.int64(2), 7); o["tolerance"] = pick(rng, 0, 0.0, 1e-6, np.float64(1e-3), 1, 5)
    kk = pick(rng, k, np.int64(k), np.int32(k))
    if o["init"] != "custom" and rng.randint(3) == 0:
        kk = None; want = n if which in ("kaa", "aa") else f
        if which == "km" and f > n: raise Skip("fewer samples than features")
    else: want = k
    if kw:
        for a in kw:
            if rng.randint(3) == 0 and a in ("weights", "dictionary", "transition_matrices", "order_weights", "parameters"): kw[a] = layout(rng, kw[a])
        if rng.randint(4) == 0 and "weights" in kw:
            W = np.zeros((n, k), dtype=int); W[:, 0] = 1; kw["weights"] = W
        if rng.randint(4) == 0 and "weights" in kw and kw["weights"].dtype.kind == "f": kw["weights"] = kw["weights"] * (1 + 1e-10)
    d["options"] = show(o); d["n_components"] = repr(kk)
    m = cls(kk, **o)
    try:
        m.fit(A, **kw)
    except Iterated:
        pass
    check(m.n_components == want, "number of components", got=repr(m.n_components), expected=want, **d)
    fac = m.S if which in ("kaa", "aa") else m.Gamma
    check(fac.shape[1] == want, "factor shape", **d)
    return d


@prop("C26")
def helpers(rng, i):
    from reor import _validation as v
    sh = tuple(int(x) for x in rng.randint(1, 5, size=int(pick(rng, 1, 2, 2, 3))))
    ax = int(rng.randint(len(sh)))
    A = rng.uniform(.1, 1, size=sh); A = A / A.sum(axis=ax, keepdims=True)
    A = layout(rng, A); d = dict(A=A, axis=ax)
    v._check_unit_axis_sums(A, "x", axis=ax); v._check_array_shape(A, sh, "x")
    B = A.copy(); B[tuple(rng.randint(s) for s in sh)] += float(pick(rng, 1e-3, -1e-3, 1))
    try: v._check_unit_axis_sums(B, "x", axis=ax)
    except ValueError: pass
    else: raise Violation("axis sums accepted", B=B, **d)
    bad = pick(rng, sh + (1,), sh[:-1] + (sh[-1] + 1,), (sh[0] + 1,) + sh[1:], sh[::-1] if sh != sh[::-1] else (9,), sh[:-1])
    try: v._check_array_shape(A, bad, "x")
    except ValueError: pass
    else: raise Violation("shape accepted", wanted=list(bad), **d)
    return d


# ------------------------------------------------------------------------------------- C27

@prop("C27")
def initialisation(rng, i):
    from reor.furthest_sum import furthest_sum
    which = pick(rng, "kaa", "aa", "gpnh", "mtd", "crom", "km", "varx")
    base = model_table()[which]; cls = noiter(base)
    init = pick(rng, "random", "custom", "furthest_sum", None, "bogus")
    if which in ("km", "varx") and init == "furthest_sum": init = "random"
    n, f, k, A, o, kw = setup(rng, which, init)
    X = A
    if which == "aa": K = A @ A.T
    elif which == "kaa": K = A
    seed = o["random_state"]
    d = dict(model=base.__name__, n=n, f=f, k=k, options=show(o), data=A)
    form = rng.randint(2)
    eff = init
    if init is None: eff = "furthest_sum" if which in ("kaa", "aa") else "random"
    if eff == "furthest_sum":
        if rng.randint(4):
            e = rng.permutation(n)[:int(rng.randint(0, n - k + 1))]
            rest = [j for j in range(n) if j not in e]
            if rng.randint(3): kw["start_index"] = int(rest[rng.randint(len(rest))])
            else: e = e[:0]
            if rng.randint(3): kw["exclude"] = pick(rng, np.array(e, dtype=int), [int(x) for x in e])
            else: e = e[:0]
            if rng.randint(3): kw["n_extra_steps"] = int(pick(rng, 0, 1, 2, 5, 11))
        d["furthest_sum_options"] = {a: (np.array(b) if not isinstance(b, int) else b) for a, b in kw.items()}

    def run():
        o2 = dict(o); o2["random_state"] = np.random.RandomState(seed) if form else seed
        m = cls(k, **o2)
        try: m.fit(A, **kw)
        except Iterated: pass
        return m
    g0 = np.random.get_state()[1].copy()
    if init == "bogus":
        try: run()
        except ValueError: return d
        raise Violation("unknown initialisation accepted", **d)
    m = run()
    check(np.array_equal(g0, np.random.get_state()[1]), "global random state used although a random state was given", **d)
    np.random.uniform(size=7)
    m2 = run()
    aal = which in ("kaa", "aa")
    fac = dict(weights=lambda m: m.S if aal else m.Gamma)
    if aal: fac["dictionary"] = lambda m: m.C
    elif which not in ("km", "varx"): fac["dictionary"] = lambda m: m.S
    elif which == "km": fac["parameters"] = lambda m: m.Theta
    if which == "mtd": fac["order_weights"] = lambda m: m.order_weights; fac["transition_matrices"] = lambda m: m.transition_matrices
    for nm, get in fac.items():
        a, b = np.asarray(get(m)), np.asarray(get(m2))
        check(np.array_equal(a, b), "initial %s differ between runs with the same random state" % nm, first=a, second=b, **d)
        if init == "custom":
            check(np.array_equal(a, np.asarray(kw[nm], float)), "custom initial %s are not the given ones" % nm, got=a, given=kw[nm], **d)
    if init == "custom": return d
    W = fac["weights"](m)
    check(W.shape == (n, k) and is_row_stochastic(W, 1e-12), "initial weights not row-stochastic", W=W, **d)
    if which == "mtd":
        par_stochastic(m, "initially")
    if aal:
        check(m.C.shape == (k, n) and is_row_stochastic(m.C, 1e-12), "initial dictionary not row-stochastic", C=m.C, **d)
        if eff == "random" and n > 1 and k > 1: check(not np.array_equal(m.S, m.C.T), "weights and dictionary use the same draws", **d)
    if eff == "furthest_sum":
        if aal:
            check(((m.C == 0) | (m.C == 1)).all(), "dictionary rows are not single samples", C=m.C, **d)
            sel = [int(np.flatnonzero(r)[0]) for r in m.C]
        else:
            K = X @ X.T; sel = []
            for r in m.S:
                hit = np.flatnonzero((X == r).all(axis=1))
                check(hit.size > 0, "dictionary row is not a sample of the data", S=m.S, **d)
                sel.append(int(hit[0]))
        check(len(set(sel)) == k, "repeated sample in the dictionary", selected=sel, **d)
        ex = set(int(e) for e in kw.get("exclude", []))
        check(not ex & set(sel), "excluded sample in the dictionary", selected=sel, **d)
        if "start_index" in kw:
            kd = np.diag(K); D = np.sqrt(np.maximum(kd[None, :] - 2 * K + kd[:, None], 0))
            want = [int(s) for s in furthest_sum(D, k, kw["start_index"], exclude=kw.get("exclude"), extra_steps=kw.get("n_extra_steps", 10))]
            check(sel == want, "dictionary does not follow the requested furthest-sum options", selected=sel, expected=want, **d)
    return d


@prop("C27")
def random_helpers(rng, i):
    """random initialisation of the Markov parameters and affiliations over many shapes"""
    aa, gp, mt, cr = mods()
    import reor.fembv as fb
    n, k, p, f = int(rng.randint(1, 9)), int(rng.randint(1, 6)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    seed = int(rng.randint(10 ** 6)); n = max(n, p + 1)
    X = rng.standard_normal((n, f)); lags = [int(x) + 1 for x in rng.permutation(p)]
    m = noiter(mt.MTDConvexCoding)(k, lags=lags, random_state=seed, init="random")
    d = dict(n=n, k=k, lags=lags, seed=seed, data=X)
    try: m.fit(X)
    except Iterated: pass
    par_stochastic(m, "initially"); check(m.transition_matrices.shape == (p, k, k) and m.order_weights.shape == (p,), "shape", **d)
    check(is_row_stochastic(m.Gamma, 1e-12), "weights", W=m.Gamma, **d)
    if k > 1 and p > 1: check(not np.array_equal(m.transition_matrices[0], m.transition_matrices[1]), "transition matrices of different lags are the same draw", **d)

    class F(fb.FEMBV):
        def _initialize_components(self, data, parameters=None, init=None, **kw): self.distance_matrix = np.ones((n, k))
        def _iterate(self, *a, **k): raise Iterated()
    F2 = F(k, pick(rng, None, 1.0), random_state=seed)
    try: F2.fit(X)
    except Iterated: pass
    check(F2.Gamma.shape == (n, k) and is_row_stochastic(F2.Gamma, 1e-12), "affiliations not row-stochastic", G=F2.Gamma, **d)
    return d
