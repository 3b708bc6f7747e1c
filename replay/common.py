"""Shared parts of the executable oracles.  Run with the interpreter that has reor's dependencies."""
import contextlib, io, warnings
import numpy as np


class Violation(Exception):
    def __init__(self, msg, **data):
        Exception.__init__(self, msg)
        self.msg, self.data = msg, data


class Skip(Exception):
    """The generated case is outside the property's quantifier."""


PROPS = {}


def prop(pid):
    def deco(f):
        PROPS.setdefault(pid, []).append(f)
        return f
    return deco


KNOWN = []          # (property, key, text) known-finding candidates met in this run


def check(cond, msg, **data):
    if not cond:
        raise Violation(msg, **data)


def close(a, b, tol=1e-8, scale=None):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if scale is None:
        scale = 1.0 + max(np.nanmax(np.abs(a), initial=0.0), np.nanmax(np.abs(b), initial=0.0))
    return bool(np.all(np.abs(a - b) <= tol * scale) if not (np.isnan(a).any() or np.isnan(b).any())
                else (np.array_equal(np.isnan(a), np.isnan(b)) and np.all(np.abs(np.nan_to_num(a) - np.nan_to_num(b)) <= tol * scale)))


def check_close(a, b, msg, tol=1e-8, scale=None, **data):
    if not close(a, b, tol, scale):
        raise Violation(msg, got=a, expected=b, **data)


def row_stochastic(rng, n, k):
    mode = rng.randint(4)
    if mode == 0:
        A = rng.uniform(size=(n, k))
        return A / A.sum(axis=1, keepdims=True)
    if mode == 1:
        A = rng.gamma(0.3, size=(n, k)) + 1e-9
        return A / A.sum(axis=1, keepdims=True)
    if mode == 2:
        A = np.zeros((n, k)); A[np.arange(n), rng.randint(k, size=n)] = 1.0
        return A
    A = rng.uniform(size=(n, k)) * (rng.uniform(size=(n, k)) < 0.6)
    A[np.arange(n), rng.randint(k, size=n)] += 0.5
    return A / A.sum(axis=1, keepdims=True)


def layout(rng, A):
    """The same values in a different memory layout."""
    mode = rng.randint(4)
    if mode == 0:
        return np.ascontiguousarray(A)
    if mode == 1:
        return np.asfortranarray(A)
    if mode == 2:
        big = rng.standard_normal(tuple(2 * s + 1 for s in A.shape))
        v = big[tuple(slice(0, 2 * s, 2) for s in A.shape)]
        v[...] = A
        return v
    big = np.empty(A.shape[::-1]); v = big.T
    v[...] = A
    return v


def proj(v):
    """Reference Euclidean projection of a vector onto the simplex (threshold by sorting)."""
    v = np.asarray(v, dtype=float)
    u = np.sort(v)[::-1]
    css = np.cumsum(u) - 1.0
    idx = np.arange(1, v.size + 1)
    rho = idx[u - css / idx > 0][-1]
    return np.maximum(v - css[rho - 1] / rho, 0.0)


def proj_rows(A):
    return np.array([proj(r) for r in A]).reshape(A.shape)


def proj_cols(A):
    return proj_rows(A.T).T


def is_row_stochastic(A, tol=1e-8):
    A = np.asarray(A)
    return bool(np.isfinite(A).all() and (A >= -tol).all() and np.all(np.abs(A.sum(axis=1) - 1) <= tol))


def is_col_stochastic(A, tol=1e-8):
    return is_row_stochastic(np.asarray(A).T, tol)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        old = np.seterr(all="ignore")
        try:
            yield w
        finally:
            np.seterr(**old)


def cost_raise(e):
    """The documented refusal to return a worse result."""
    return isinstance(e, RuntimeError) and "increased" in str(e)


def pick(rng, *opts):
    return opts[rng.randint(len(opts))]


def seed_like(rng):
    """A random_state argument in one of its accepted forms (never None, so cases replay)."""
    s = int(rng.randint(2 ** 31 - 1))
    return s if rng.randint(2) else np.random.RandomState(s)


def lag_set(rng, biggest=4):
    k = rng.randint(1, 4)
    return [int(x) for x in rng.permutation(np.arange(1, biggest + 1))[:min(k, biggest)]]


def ls_options(rng, p=0.5):
    """Line-search options; large gamma forces long backtracking, small alpha bounds force clamps."""
    o = {}
    if rng.uniform() < p:
        if rng.uniform() < 0.4:
            o["gamma"] = float(pick(rng, 1e-8, 1e-4, 0.5, 0.9))
        if rng.uniform() < 0.3:
            o["alpha_max"] = float(pick(rng, 0.5, 2.0, 1e3))
        if rng.uniform() < 0.3:
            o["alpha_min"] = float(pick(rng, 1e-6, 1e-3, 0.3))
        if rng.uniform() < 0.3:
            o["sigma_one"] = float(pick(rng, 0.01, 0.1, 0.4))
            o["sigma_two"] = float(pick(rng, 0.5, 0.6, 0.9))
        if rng.uniform() < 0.2:
            o["step_size_tolerance"] = float(pick(rng, 1e-12, 1e-6, 1e-2))
    return o
