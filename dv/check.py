"""The check of one property:  python3-vt -m dv.check C09 [--thorough]

1. contracts/<id>.py generates obligations from the current source of /repo and discharges them;
2. the executable oracle of the property runs the real code (bounded, labelled so);
3. evidence/<id>.json is rewritten; exit 1 and a VIOLATION line on a violation.
"""
import argparse
import gc
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = os.environ.get('REOR_SRC', '/repo/src')


def oracle_start(pid, seed, secs, cases=None):
    """Starts the oracle on the real code."""
    fd, out = tempfile.mkstemp(prefix='orc_', suffix='.json')
    os.close(fd)
    env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    cmd = [PY, '-W', 'ignore', os.path.join(VERIF, 'replay', 'oracle.py'), pid, '--seed', str(seed), '--time', str(secs), '--out', out]
    if cases:
        cmd += ['--cases', str(cases)]
    err = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, env=env, cwd=tempfile.gettempdir(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
    return p, out, err, secs, time.time()


def oracle_result(h):
    """Waits for it; returns its report."""
    p, out, err, secs, t0 = h
    none = {'violation': None, 'cases': 0, 'distinct': 0, 'samples': [], 'known': []}
    try:
        p.wait(timeout=max(1.0, t0 + secs + 300 - time.time()))
        txt = open(out).read()
        err.seek(0)
        rep = json.loads(txt) if txt else dict(none, error=err.read().decode(errors='replace')[-3000:])
        # an import error of the code under test also ends without a report
        rep['rc'] = p.returncode if txt else 2
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rep = dict(none, rc=2, error='timeout')
    finally:
        err.close()
        os.unlink(out)
    return rep


def known_findings():
    """KNOWN: property=<id> key=<key> text   (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('known: property='):
            head, text = line[len('known: property='):].split(' ', 2)[0:2], line.split(' ', 3)[3]
            pid = head[0]
            key = head[1][len('key='):]
            out.setdefault(pid, {})[key] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--no-oracle', action='store_true')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.prop
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    evf = os.path.join(VERIF, 'evidence', pid + '.json')
    # --- the oracle runs beside the proof ------------------------------------------------
    secs = {'quick': 12, 'thorough': 150}[tier]
    nproc = 3 if tier == 'quick' else 4
    futs = [] if a.no_oracle else [oracle_start(pid, seed * 1000 + j, secs, CASES[tier]) for j in range(nproc)]
    # --- proof ---------------------------------------------------------------------------
    from .session import Session
    from . import smt
    S = Session(pid, tier, 500.0 if tier == 'quick' else 1500.0)
    mod = None
    try:
        mod = importlib.import_module('contracts.' + pid)
    except ModuleNotFoundError as e:
        if pid not in str(e):
            raise
    gc.collect()
    gc.disable()
    if mod is not None:
        if not a.serial:
            S.jobs = []
        try:
            mod.verify(S)
        except Exception as e:
            S.undecided.append(('set-up', 'engine error %s: %s' % (type(e).__name__, e)))
        if not a.serial:
            gc.freeze()
            S.run_jobs(8 if a.no_oracle else 7, lambda: any(h[0].poll() == 1 for h in futs))
    S.pull()
    proof_s = time.time() - t0
    failed = [o for o in S.obs if o['status'] != 'discharged']
    done = [o for o in S.obs if o['status'] == 'discharged']
    # --- cross-check in the thorough tier ---------------------------------------------------
    cross = None
    if tier == 'thorough' and S.obs:
        cross = smt.cross_check() if hasattr(smt, 'cross_check') else None
    reps = [oracle_result(f) for f in futs]
    broken = []
    for r in reps:
        if r.get('violation'):
            broken.append(r)
    # --- search for a failing input -----------------------------------------------------
    need = bool(failed) or bool(S.undecided) or (mod is None)
    if not broken and need and not a.no_oracle:
        secs2 = {'quick': 75, 'thorough': 240}[tier] if failed else {'quick': 35, 'thorough': 120}[tier]
        futs = [oracle_start(pid, seed * 1000 + 100 + j, secs2, None if failed else 5 * CASES[tier]) for j in range(6)]
        r2 = [oracle_result(f) for f in futs]
        reps += r2
        broken = [r for r in r2 if r.get('violation')]
    kf = known_findings().get(pid, {})
    lines, rc = [], 0
    nviol = 0
    cand = {}
    for r in reps:
        for p_, key, text in r.get('known', []):
            if p_ == pid:
                cand[key] = text
    for key, text in sorted(cand.items()):
        if key in kf:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf[key]))
        else:
            broken.append({'violation': {'what': 'unlisted finding %s: %s' % (key, text)}, 'seed': seed})
    rf = os.path.join(VERIF, 'evidence', 'replays', '%s.json' % pid)
    if os.path.exists(rf):
        os.unlink(rf)
    if broken:
        v = broken[0]
        rec = {'property': pid, 'kind': 'failing input on the real code', 'seed': v.get('seed'), 'violation': v['violation'],
               'replay_cmd': 'PYTHONPATH=%s %s %s/replay/oracle.py %s --seed %s --case %s' % (
                   SRC, PY, VERIF, pid, v.get('seed'), v['violation'].get('case')),
               'failed_obligations': failed[:20], 'undecided': S.undecided}
        json.dump(rec, open(rf, 'w'), indent=1)
        lines.append('failing input: %s' % (v['violation'].get('what'),))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rf))
        rc, nviol = 1, 1
    elif failed:
        rec = {'property': pid, 'kind': 'failed proof obligation', 'failed_obligations': failed[:50],
               'searched': sum(r.get('cases', 0) for r in reps)}
        json.dump(rec, open(rf, 'w'), indent=1)
        for o in failed[:10]:
            lines.append('failed obligation: %s (%s)' % (o['name'], o['where']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rf))
        rc, nviol = 1, len(failed)
    if not rc:
        for n, why in S.undecided:
            lines.append('UNDECIDED-BY-PROOF: property=%s %s: %s (bounded search of the real code instead)' % (pid, n, why.split(' | ')[0]))
        if S.undecided and a.v:
            for n, why in S.undecided:
                lines.append(why)
        ran = sum(r.get('distinct', 0) for r in reps)
        bad = [r for r in reps if r.get('rc') not in (0, 1)]
        if not a.no_oracle and ran == 0 and not S.obs:
            lines.append('ERROR: nothing was decided: %s' % [r.get('error') or r.get('errors') for r in bad][:2])
            rc = 2
        if not a.no_oracle and ran == 0:
            lines.append('NOTE: the bounded oracle decided nothing: %s' % ([str(r.get('error') or r.get('errors'))[-600:] for r in bad][:1],))
    # --- evidence ------------------------------------------------------------------------
    level = 'proof' if S.obs and not S.undecided else 'exploration' if not S.obs else 'proof'
    samples = [s for r in reps for s in r.get('samples', [])][:4]
    cov = {
        'evaluations': sum(r.get('cases', 0) for r in reps),
        'distinct_nontrivial': sum(r.get('distinct', 0) for r in reps),
        'rule': 'bounded part: random cases of replay/oracle.py on the real code, one per (seed, case number), distinct by their '
                'printed input; cases outside the quantifier are skipped and not counted. Never counted as proved.',
        'samples': samples,
        'bounded': {'cases': sum(r.get('cases', 0) for r in reps), 'skipped': sum(r.get('skipped', 0) for r in reps),
                    'oracle_errors': sum(r.get('n_errors', 0) for r in reps),
                    'stand_in_for': S.bounded},
    }
    if S.obs:
        be = {}
        for o in done:
            be[o['backend']] = be.get(o['backend'], 0) + 1
        cov.update({
            'obligations': len(S.obs), 'discharged': len(done),
            'checker_cmd': 'cd %s && PYTHONPATH=. python3-vt -m dv.check %s%s' % (VERIF, pid, ' --thorough' if tier == 'thorough' else ''),
            'trusted_base': sorted(S.trusted | BASE),
            'functions_under_contract': sorted(S.functions),
            'functions_through_contract': sorted(S.contracts),
            'discharged_by_backend': be,
            'solver': {'z3_queries': smt.STATS['queries'], 'z3_s': round(smt.STATS['time'], 2), 'z3': z3version(),
                       'cvc5_cross_check': cross},
            'obligation_list': [{k: o[k] for k in ('name', 'where', 'status', 'backend', 'wall_s')} for o in S.obs],
            'undecided_sections': S.undecided,
            'proof_wall_s': round(proof_s, 2),
        })
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(S.assumed | (ASSUME if S.obs else set())), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    json.dump(ev, open(evf, 'w'), indent=1)
    if a.v:
        for t in S.times:
            print('section %-70s %7.2f s %4d obligations' % t)
    for l in lines:
        print(l)
    print('%s: %d obligations, %d discharged, %d failed, %d sections undecided; bounded: %d cases (%d distinct); %.1f s'
          % (pid, len(S.obs), len(done), len(failed), len(S.undecided), cov['evaluations'], cov['distinct_nontrivial'], ev['wall_s']))
    sys.stdout.flush()
    os._exit(rc)


def z3version():
    import z3
    return z3.get_version_string()


CASES = {'quick': 1000, 'thorough': 10000}     # bounded cases per process (also limited by time)

BASE = {
    'dv: the symbolic executor, the NumPy/SciPy/scikit-learn library model (dv/npm.py, dv/lib.py), the normal-form engine and the term-to-z3 translation, all in /verif',
    'z3 (SMT solver)',
    'CPython ast.parse for the extraction of the source',
}
ASSUME = {
    'machine floating-point arithmetic is treated as exact real arithmetic; rounding, overflow and NaN are outside the proofs',
    'arrays are NumPy float64/int64 arrays; integers do not overflow',
}

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'      # every run makes the same queries
        os.execv(sys.executable, [sys.executable, '-m', 'dv.check'] + sys.argv[1:])
    main()
