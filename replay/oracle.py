"""Executable oracles: run the real reor code on generated inputs and compare with the property.

  oracle.py PROP [--seed S] [--time T] [--cases N] [--case I] [--out FILE]

Deterministic in (PROP, seed, case).  Exit 0: no failing input; 1: failing input (described in the output);
3: nothing could be decided (all cases skipped or oracle error).
"""
import argparse, hashlib, json, os, signal, sys, time, traceback
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import common
from common import PROPS, Violation, Skip, quiet

CASE_LIMIT = 120


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def jsonable(x):
    if isinstance(x, np.ndarray):
        return {"shape": list(x.shape), "dtype": str(x.dtype), "values": x.ravel()[:400].tolist()}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def in_reor(tb):
    last = None
    for fr in traceback.extract_tb(tb):
        if os.sep + "reor" + os.sep in fr.filename and "site-packages" not in fr.filename:
            last = fr
    return last


def run_case(pid, seed, i):
    h = int(hashlib.sha256(("%s/%d/%d" % (pid, seed, i)).encode()).hexdigest()[:8], 16)
    rng = np.random.RandomState(h)
    np.random.seed(h ^ 0x5bd1e995)
    fs = PROPS[pid]
    f = fs[i % len(fs)]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with quiet():
            desc = f(rng, i)
        return "ok", {"case": i, "oracle": f.__name__, "input": jsonable(desc)}
    except Skip as e:
        return "skip", str(e)
    except Violation as e:
        return "violation", {"case": i, "oracle": f.__name__, "what": e.msg, "data": jsonable(e.data)}
    except Timeout:
        return "violation", {"case": i, "oracle": f.__name__, "what": "no result after %d s" % CASE_LIMIT, "data": {}}
    except np.linalg.LinAlgError as e:          # numerically singular data: outside every quantifier
        return "skip", repr(e)
    except Exception as e:
        fr = in_reor(e.__traceback__)
        if fr is not None:
            return "violation", {"case": i, "oracle": f.__name__,
                                 "what": "valid use raised %s: %s" % (type(e).__name__, e),
                                 "data": {"at": "%s:%d %s" % (os.path.basename(fr.filename), fr.lineno, fr.name)},
                                 "traceback": traceback.format_exc()[-3000:]}
        return "error", traceback.format_exc()[-2000:]
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--time", type=float, default=10)
    ap.add_argument("--cases", type=int, default=100000)
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--out", default=None)
    a = ap.parse_args()
    import importlib
    for m in sorted(os.listdir(HERE)):
        if m.startswith("props_") and m.endswith(".py"):
            importlib.import_module(m[:-3])
    t0 = time.time()
    res = {"property": a.prop, "seed": a.seed, "cases": 0, "skipped": 0, "errors": [], "n_errors": 0,
           "distinct": 0, "samples": [], "violation": None, "known": []}
    seen = set()
    idx = [a.case] if a.case is not None else range(a.cases)
    for i in idx:
        if a.case is None and time.time() - t0 > a.time:
            break
        st, d = run_case(a.prop, a.seed, i)
        res["cases"] += 1
        if st == "skip":
            res["skipped"] += 1
        elif st == "error":
            res["n_errors"] += 1
            if len(res["errors"]) < 3:
                res["errors"].append(d)
        elif st == "violation":
            res["violation"] = d
            break
        else:
            key = json.dumps(d["input"], sort_keys=True) + d["oracle"]
            seen.add(hashlib.sha1(key.encode()).digest())
            if len(res["samples"]) < 5:
                res["samples"].append(d)
    res["distinct"] = len(seen)
    res["known"] = sorted(set(common.KNOWN))
    res["wall_s"] = round(time.time() - t0, 2)
    txt = json.dumps(res, indent=1)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(txt)
    if res["violation"]:
        return 1
    if not seen:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
