"""A verification session: collects and discharges the obligations of one property."""
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import z3
from . import terms as tm
from . import smt
from .smt import Ctx
from .core import Unsupported, RaiseV, ExcV
from .exec import Engine
from .prover import prove


class OutOfTime(Exception):
    pass


class Session:
    def __init__(self, prop, tier='quick', budget=300.0):
        self.prop, self.tier, self.budget = prop, tier, budget
        self.t0 = time.time()
        self.obs = []           # dicts
        self.undecided = []     # (section, reason)
        self.functions = set()  # repository functions whose real body was executed symbolically
        self.contracts = set()  # functions applied through their contract
        self.trusted = set()
        self.bounded = []       # text
        self.assumed = set()
        self.section_name = '-'
        self.engines = []
        self.cache = {}
        self.jobs = None        # list: sections are recorded, then distributed
        self.times = []         # (section, seconds, obligations)

    # -- engines -----------------------------------------------------------------------
    def engine(self, **contracts):
        E = Engine()
        self.engines.append(E)
        return E

    def trust(self, *items):
        self.trusted.update(items)

    def assume_note(self, *items):
        self.assumed.update(items)

    # -- sections ----------------------------------------------------------------------
    def warm(self, fn, *a, **k):
        """Build a shared model before the sections are distributed over processes."""
        if self.jobs is not None:
            try:
                fn(self, *a, **k)
            except Exception:       # reported by the sections that need it
                pass

    def section(self, name, fn, *a, **k):
        """A group of obligations; a construct outside the subset leaves it undecided."""
        if self.jobs is not None:
            self.jobs.append((name, fn, a, k))
        else:
            self.run_section(name, fn, a, k)

    def run_jobs(self, procs=8, stop=None):
        """Every recorded section in a process of its own, forked from this state, so that what a
        section does never depends on another one or on timing."""
        jobs, self.jobs = self.jobs, None
        self.pull()
        running, results = {}, {}
        limit = None        # set when a failing input is known: the proof is then cut short
        todo = list(enumerate(jobs))
        while todo or running:
            while todo and len(running) < procs:
                i, (name, fn, a, k) = todo.pop(0)
                fd, path = tempfile.mkstemp(prefix='sec_', suffix='.pickle')
                os.close(fd)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        self.obs, self.undecided, self.times = [], [], []
                        smt.STATS.update({q: 0 for q in smt.STATS})
                        self.run_section(name, fn, a, k)
                        self.pull()
                        with open(path, 'wb') as f:
                            pickle.dump((self.obs, self.undecided, self.times, self.functions, self.contracts, self.trusted,
                                         self.bounded, self.assumed, dict(smt.STATS)), f)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(0)
                running[pid] = (i, path)
            pid = None
            while pid is None:
                for q in running:
                    r, status = os.waitpid(q, os.WNOHANG)
                    if r:
                        pid = q
                        break
                else:
                    time.sleep(0.01)
                    if limit is None and stop is not None and stop():
                        limit = time.time() + 20
                    if limit is not None and time.time() > limit:
                        for q in running:
                            os.kill(q, signal.SIGKILL)
                        todo = []
                        limit = float('inf')
            i, path = running.pop(pid)
            try:
                with open(path, 'rb') as f:
                    results[i] = pickle.load(f)
            except Exception:
                results[i] = ([], [(jobs[i][0], 'the process of this section ended (status %d)' % status)], [], (), (), (), [], (), {})
            os.unlink(path)
        for i, j in enumerate(jobs):
            if i not in results:
                self.undecided.append((j[0], 'not run: a failing input was found first'))
        for i in sorted(results):
            obs, und, tms, fs, cs, tr, bd, ass, st = results[i]
            self.obs += obs
            self.undecided += und
            self.times += tms
            self.functions |= set(fs)
            self.contracts |= set(cs)
            self.trusted |= set(tr)
            self.bounded += [b for b in bd if b not in self.bounded]
            self.assumed |= set(ass)
            for q, v in st.items():
                smt.STATS[q] = smt.STATS.get(q, 0) + v

    def run_section(self, name, fn, a, k):
        old = self.section_name
        self.section_name = name
        n0, t0 = len(self.obs), time.time()
        try:
            fn(self, *a, **k)
            if len(self.obs) == n0:
                self.undecided.append((name, 'no obligation was generated'))
        except Unsupported as e:
            self.undecided.append((name, 'outside the subset: %s' % e))
        except OutOfTime:
            self.undecided.append((name, 'time budget of the proof used up'))
        except RecursionError as e:
            self.undecided.append((name, 'recursion: %s' % e))
        except Exception as e:      # an engine error is not a verdict about the code
            self.undecided.append((name, 'engine error %s: %s | %s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
        finally:
            self.section_name = old
            self.times.append((name, round(time.time() - t0, 2), len(self.obs) - n0))

    # -- obligations -------------------------------------------------------------------
    def ob(self, label, ctx, goal, where=None):
        if time.time() - self.t0 > self.budget:
            raise OutOfTime()
        if not isinstance(ctx, Ctx):
            ctx = ctx.ctx
        q0, z0 = smt.STATS['queries'], smt.STATS['time']
        t = time.time()
        try:
            smt.OBLIGATION = True
            ok = prove(ctx, goal)
            err = None
        except z3.Z3Exception as e:
            ok, err = False, repr(e)
        finally:
            smt.OBLIGATION = False
        dt = time.time() - t
        q = smt.STATS['queries'] - q0
        rec = {'name': '%s/%s' % (self.section_name, label), 'where': where,
               'status': 'discharged' if ok else 'failed',
               'backend': ('normal form + z3' if q else 'normal form') if goal_is_real(goal) else ('z3' if q else 'syntactic'),
               'solver_queries': q, 'solver_s': round(smt.STATS['time'] - z0, 4), 'wall_s': round(dt, 4)}
        if not ok:
            rec['goal'] = show(goal, 2500)
            rec['assumptions'] = [show(a, 300) for a in ctx.ass][:60]
            if err:
                rec['error'] = err
            try:
                m = ctx.model(goal)
                rec['model'] = str(m)[:2000] if m is not None else None
            except Exception as e:
                rec['model'] = 'no model: %r' % (e,)
        self.obs.append(rec)
        return ok

    def fact(self, label, ok, detail=None, where=None, backend='syntactic'):
        """An obligation decided by the engine itself (frame, control flow, exception outcome)."""
        rec = {'name': '%s/%s' % (self.section_name, label), 'where': where,
               'status': 'discharged' if ok else 'failed', 'backend': backend,
               'solver_queries': 0, 'solver_s': 0.0, 'wall_s': 0.0}
        if not ok:
            rec['goal'] = detail or label
        self.obs.append(rec)
        return ok

    def definedness(self, E):
        """Discharge the obligations the engine generated (bounds, shapes, divisors, casts, ...)."""
        for o in E.obligations:
            self.ob('%s @%s:%s' % (o.label, o.where[0], o.where[1]), Ctx(o.pc), o.goal, where='%s:%s' % o.where)
        E.obligations = []

    def pull(self):
        for E in self.engines:
            self.functions |= E.used
            self.contracts |= E.called

    def infeasible(self, st):
        """One of the decisions taken contradicts the rest."""
        for p in st.path:
            if p.op in ('not', 'exists', 'forall', 'eq', 'le', 'lt'):
                try:
                    if prove(Ctx([q for q in st.pc if q is not p]), tm.tnot(p)):
                        return True
                except z3.Z3Exception:
                    pass
        return False

    def outcomes(self, E, outs, label, raises=(), allow_none=False):
        """Feasible normal outcomes; an exception outcome not listed in `raises` fails."""
        res = []
        for s, v in outs:
            if isinstance(v, RaiseV):
                nm = exc_name(v)
                if not s.ctx.consistent() or (nm not in raises and self.infeasible(s)):
                    continue
                self.fact('%s: raises only %s' % (label, list(raises) or 'nothing'), nm in raises,
                          'reachable exception %s under %s' % (nm, [show(p, 200) for p in s.path]))
                continue
            if s.ctx.consistent():
                res.append((s, v))
        if not res and not allow_none:
            self.fact('%s: has a normal outcome' % label, False, 'no feasible normal outcome')
        return res


def exc_name(v):
    e = v.exc
    c = e.cls
    return c if isinstance(c, str) else getattr(c, 'name', str(c))


def goal_is_real(g):
    return any(x.op == 'sum' or x.sort == 'R' for x in tm.subterms(g)) if not isinstance(g, bool) else False


def show(t, n=400):
    try:
        s = tm.show(t)
    except Exception as e:
        s = repr(t)
    return s if len(s) <= n else s[:n] + '...'
