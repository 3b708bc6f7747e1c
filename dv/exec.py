"""Symbolic executor for the Python source in /repo.

The interpreter walks the abstract syntax tree of the real source files, parsed
afresh on every run.  Every construct either has an exact model or raises
Unsupported, which makes the obligation that needed it fail.
"""
import ast
import warnings
import os
import sys
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, var, fv
from .smt import Ctx
from .core import *
from . import core

sys.setrecursionlimit(100000)
SRC = os.environ.get('REOR_SRC', '/repo/src')

NUMT = (int, float, Fraction)


def isnum(v):
    return isinstance(v, (T,) + NUMT)


def tn(v):
    if isinstance(v, T):
        if v.sort == 'B':
            return tm.ite(v, ONE, ZERO)
        return v
    if isinstance(v, NUMT):
        return num(v, 'R') if isinstance(v, float) and v != int(v) else num(v)
    raise Unsupported('number expected, got %r' % (v,))


class Obligation:
    __slots__ = ('label', 'where', 'pc', 'goal', 'kind')

    def __init__(self, label, where, pc, goal, kind='def'):
        self.label, self.where, self.pc, self.goal, self.kind = label, where, pc, goal, kind


BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'fdiv',
          ast.Mod: 'mod', ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or'}
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne',
       ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}


class Engine:
    MAXPATHS = 400

    def __init__(self, src=None):
        self.src = src or SRC
        self.modules = {}
        self.contracts = {}
        self.obligations = []
        self.quiet = 0
        self.steps = 0
        self.where = []
        self.hooks = {}         # name -> callable (loop templates etc.)
        self.modstate = State(self)
        self.depth = 0
        self.used = set()       # qualified names of repository functions executed
        self.called = set()     # contracts applied
        self.maxsyms = {}
        from . import npm
        self.np = npm
        self.notes = []

    # obligations ---------------------------------------------------------------

    def lineno(self):
        return self.where[-1] if self.where else ('?', 0)

    def oblige(self, st, goal, label, kind='def'):
        """Record a proof obligation at the current program point."""
        if goal is TRUE or goal is True:
            return
        if self.quiet:
            return
        if goal is False:
            goal = FALSE
        self.obligations.append(Obligation(label, self.lineno(), list(st.pc), goal, kind))

    def lossy(self, st, a):
        self.oblige(st, FALSE, 'a real value is stored into an integer array', 'def')

    # modules ---------------------------------------------------------------------

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.src, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(self.src, *name.split('.'), '__init__.py')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(open(path).read(), path)
        envid = newid()
        self.modstate.envs[envid] = {'__name__': name}
        self.modules[name] = envid
        st = self.modstate
        outs = self.block(tree.body, st, (envid, name, None))
        if len(outs) != 1 or outs[0][1] is not None:
            raise Unsupported('module %s does not initialise deterministically' % name)
        return envid

    def fresh_state(self):
        return self.modstate.fork()

    def func(self, mod, name):
        envid = self.module(mod)
        d = self.modstate.envs[envid]
        parts = name.split('.')
        if parts[0] not in d:
            raise Unsupported('%s.%s not found' % (mod, name))
        v = d[parts[0]]
        for p in parts[1:]:
            v = v.lookup(p)
            if v is None:
                raise Unsupported('%s.%s not found' % (mod, name))
        return v

    # names -------------------------------------------------------------------------

    def lookup(self, st, env, name):
        e = env[0]
        while e is not None:
            d = st.envs.get(e)
            if d is None:
                d = self.modstate.envs[e]
            if name in d:
                if d[name] is POISON:
                    raise Unsupported('value of %s is not known at the loop head' % name)
                return d[name]
            e = d.get('__parent__')
        if name in self.np.BUILTINS:
            return Builtin(name)
        raise Unsupported('unbound name %s' % name)

    # statements --------------------------------------------------------------------

    def block(self, stmts, st, env):
        """Execute statements; returns list of (state, signal)."""
        outs = [(st, None)]
        for s in stmts:
            nxt = []
            for st1, sig in outs:
                if sig is not None:
                    nxt.append((st1, sig))
                else:
                    nxt.extend(self.stmt(s, st1, env))
            outs = nxt
            if len(outs) > self.MAXPATHS:
                raise Unsupported('too many paths')
            if all(sig is not None for _, sig in outs):
                break
        return outs

    def stmt(self, s, st, env):
        self.where.append((env[1], s.lineno))
        try:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s' % type(s).__name__)
            return list(m(s, st, env))
        finally:
            self.where.pop()

    def s_Pass(self, s, st, env):
        return [(st, None)]

    def s_Global(self, s, st, env):
        raise Unsupported('global')

    def s_Nonlocal(self, s, st, env):
        for n in s.names:
            e = st.envs[env[0]].get('__parent__')
            while e is not None and n not in st.envs[e]:
                e = st.envs[e].get('__parent__')
            if e is None:
                raise Unsupported('nonlocal')
            st.envs[env[0]].setdefault('__nonlocal__', {})
            d = dict(st.envs[env[0]]['__nonlocal__'])
            d[n] = e
            st.envs[env[0]]['__nonlocal__'] = d
        return [(st, None)]

    def s_Expr(self, s, st, env):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(st1, ('raise', v.exc) if isinstance(v, RaiseV) else None) for st1, v in self.ev(s.value, st, env)]

    def s_Import(self, s, st, env):
        for a in s.names:
            if a.asname:
                st.envs[env[0]][a.asname] = Module(a.name)
            else:
                st.envs[env[0]][a.name.split('.')[0]] = Module(a.name.split('.')[0])
        return [(st, None)]

    def s_ImportFrom(self, s, st, env):
        for a in s.names:
            nm = a.asname or a.name
            mod = s.module or ''
            if s.level:
                mod = 'reor' + ('.' + mod if mod else '')
            if mod == '__future__':
                continue
            if mod.split('.')[0] == 'reor':
                if os.path.exists(os.path.join(self.src, *(mod.split('.') + [a.name + '.py']))):
                    self.module(mod + '.' + a.name)
                    st.envs[env[0]][nm] = Module(mod + '.' + a.name)
                    continue
                e = self.module(mod)
                d = self.modstate.envs[e]
                if a.name not in d:
                    raise Unsupported('cannot import %s from %s' % (a.name, mod))
                st.envs[env[0]][nm] = d[a.name]
            else:
                st.envs[env[0]][nm] = self.np.external(mod + '.' + a.name)
        return [(st, None)]

    def s_FunctionDef(self, s, st, env):
        if s.decorator_list:
            names = [ast.unparse(d) for d in s.decorator_list]
            if names != ['staticmethod']:
                raise Unsupported('decorator %s' % names)
        prefix = env[1] + ('.' + env[2] if env[2] else '')
        out = []
        for st1, f in self.mkfunc(s, st, env, prefix + '.' + s.name):
            self.bind(st1, env, s.name, f)
            out.append((st1, None))
        return out

    def mkfunc(self, s, st, env, qual, owner=None):
        defs = list(s.args.defaults)
        kwd = [(a.arg, d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None]
        for st1, vals in self.evs(defs + [d for _, d in kwd], st, env):
            if isinstance(vals, RaiseV):
                raise Unsupported('raising default')
            dv = vals[:len(defs)]
            kv = {a: v for (a, _), v in zip(kwd, vals[len(defs):])}
            yield st1, FuncV(s, env[1], qual, env[0], owner, None, dv, kv)

    def s_ClassDef(self, s, st, env):
        bases = []
        for b in s.bases:
            for st1, v in self.ev(b, st, env):
                bases.append(v)
        c = ClassV(s.name, s, env[1], bases)
        for m in s.body:
            if isinstance(m, ast.FunctionDef):
                deco = [ast.unparse(d) for d in m.decorator_list]
                if deco not in ([], ['staticmethod']):
                    raise Unsupported('decorator %s' % deco)
                fs = list(self.mkfunc(m, st, env, env[1] + '.' + s.name + '.' + m.name, owner=c))
                f = fs[0][1]
                f.static = deco == ['staticmethod']
                c.methods[m.name] = f
            elif isinstance(m, ast.Expr) and isinstance(m.value, ast.Constant):
                pass
            elif isinstance(m, ast.Pass):
                pass
            elif isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name):
                for st1, v in self.ev(m.value, st, env):
                    c.methods[m.targets[0].id] = v
            else:
                raise Unsupported('class body statement %s' % type(m).__name__)
        st.envs[env[0]][s.name] = c
        return [(st, None)]

    def s_Return(self, s, st, env):
        if s.value is None:
            return [(st, ('ret', None))]
        return [(st1, ('raise', v.exc) if isinstance(v, RaiseV) else ('ret', v))
                for st1, v in self.ev(s.value, st, env)]

    def s_Raise(self, s, st, env):
        if s.exc is None:
            return [(st, ('raise', ExcV('?')))]
        out = []
        for st1, v in self.ev(s.exc, st, env):
            if isinstance(v, RaiseV):
                out.append((st1, ('raise', v.exc)))
            elif isinstance(v, ExcV):
                out.append((st1, ('raise', v)))
            elif isinstance(v, Builtin):
                out.append((st1, ('raise', ExcV(v.name))))
            else:
                raise Unsupported('raise %r' % (v,))
        return out

    def s_Assert(self, s, st, env):
        out = []
        for st1, c in self.cond(s.test, st, env):
            if isinstance(c, RaiseV):
                out.append((st1, ('raise', c.exc)))
            else:
                for st2, b in self.split(st1, c):
                    out.append((st2, None if b else ('raise', ExcV('AssertionError'))))
        return out

    def s_Break(self, s, st, env):
        return [(st, ('break',))]

    def s_Continue(self, s, st, env):
        return [(st, ('continue',))]

    def s_Delete(self, s, st, env):
        for t in s.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported('del')
            st.envs[env[0]].pop(t.id, None)
        return [(st, None)]

    def s_Try(self, s, st, env):
        raise Unsupported('try statement')

    def s_With(self, s, st, env):
        # only context managers without modelled effect
        outs = [(st, None)]
        for item in s.items:
            nxt = []
            for st1, _ in outs:
                for st2, v in self.ev(item.context_expr, st1, env):
                    if not (isinstance(v, Opaque) and v.what == 'context'):
                        raise Unsupported('with statement')
                    if item.optional_vars is not None:
                        raise Unsupported('with ... as')
                    nxt.append((st2, None))
            outs = nxt
        res = []
        for st1, _ in outs:
            res.extend(self.block(s.body, st1, env))
        return res

    def s_Assign(self, s, st, env):
        out = []
        for st1, v in self.ev(s.value, st, env):
            if isinstance(v, RaiseV):
                out.append((st1, ('raise', v.exc)))
                continue
            outs = [(st1, None)]
            for t in s.targets:
                nxt = []
                for st2, sg in outs:
                    nxt.extend(self.assign(t, v, st2, env) if sg is None else [(st2, sg)])
                outs = nxt
            out.extend(outs)
        return out

    def s_AnnAssign(self, s, st, env):
        if s.value is None:
            return [(st, None)]
        out = []
        for st1, v in self.ev(s.value, st, env):
            if isinstance(v, RaiseV):
                out.append((st1, ('raise', v.exc)))
            else:
                out.extend(self.assign(s.target, v, st1, env))
        return out

    def bind(self, st, env, name, v):
        d = st.envs[env[0]]
        nl = d.get('__nonlocal__')
        if nl and name in nl:
            st.envs[nl[name]][name] = v
        else:
            d[name] = v

    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            self.bind(st, env, t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            vals = self.unpack(st, v, len(t.elts))
            outs = [(st, None)]
            for e, x in zip(t.elts, vals):
                nxt = []
                for st1, sg in outs:
                    nxt.extend(self.assign(e, x, st1, env) if sg is None else [(st1, sg)])
                outs = nxt
            return outs
        if isinstance(t, ast.Attribute):
            out = []
            for st1, o in self.ev(t.value, st, env):
                if isinstance(o, RaiseV):
                    out.append((st1, ('raise', o.exc)))
                elif isinstance(o, ObjRef):
                    st1.setattr(o, t.attr, v)
                    out.append((st1, None))
                else:
                    raise Unsupported('attribute assignment on %r' % (o,))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for st1, vals in self.evs([t.value, t.slice], st, env):
                if isinstance(vals, RaiseV):
                    out.append((st1, ('raise', vals.exc)))
                    continue
                r = self.np.setitem(self, st1, vals[0], vals[1], v)
                out.append((st1, ('raise', r.exc) if isinstance(r, RaiseV) else None))
            return out
        raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, st, v, n):
        if isinstance(v, tuple):
            vals = list(v)
        elif isinstance(v, ListRef) and isinstance(st.lists[v.id], CList):
            vals = list(st.lists[v.id].items)
        elif isinstance(v, self.np.pairs.PairRef):
            vals = [self.np.getitem(self, st, v, i) for i in range(2)]
        elif isinstance(v, Arr):
            if v.shape[0].op == 'num' and v.shape[0].val == n:
                vals = [self.np.getitem(self, st, v, i) for i in range(n)]
            else:
                raise Unsupported('unpacking an array')
        else:
            raise Unsupported('unpacking %r' % (v,))
        if len(vals) != n:
            raise Unsupported('unpack count')
        return vals

    def s_AugAssign(self, s, st, env):
        op = BINOPS.get(type(s.op))
        if op is None:
            raise Unsupported('augmented operator')
        out = []
        t = s.target
        if isinstance(t, ast.Name):
            for st1, vals in self.evs([ast.Name(id=t.id, ctx=ast.Load(), lineno=s.lineno, col_offset=0), s.value], st, env):
                if isinstance(vals, RaiseV):
                    out.append((st1, ('raise', vals.exc)))
                    continue
                r = self.np.inplace(self, st1, op, vals[0], vals[1])
                self.bind(st1, env, t.id, r)
                out.append((st1, None))
            return out
        if isinstance(t, ast.Attribute):
            for st1, vals in self.evs([t.value, s.value], st, env):
                if isinstance(vals, RaiseV):
                    out.append((st1, ('raise', vals.exc)))
                    continue
                o = vals[0]
                if not isinstance(o, ObjRef):
                    raise Unsupported('augmented attribute')
                r = self.np.inplace(self, st1, op, self.getattr(st1, o, t.attr), vals[1])
                st1.setattr(o, t.attr, r)
                out.append((st1, None))
            return out
        if isinstance(t, ast.Subscript):
            for st1, vals in self.evs([t.value, t.slice, s.value], st, env):
                if isinstance(vals, RaiseV):
                    out.append((st1, ('raise', vals.exc)))
                    continue
                old = self.np.getitem(self, st1, vals[0], vals[1])
                if isinstance(old, RaiseV):
                    out.append((st1, ('raise', old.exc)))
                    continue
                r = self.np.inplace(self, st1, op, old, vals[2])
                if not (isinstance(old, Arr) and same(old, r)) or isinstance(vals[1], Arr):
                    self.np.setitem(self, st1, vals[0], vals[1], r)
                out.append((st1, None))
            return out
        raise Unsupported('augmented target')

    def s_If(self, s, st, env):
        out = []
        for st1, c in self.cond(s.test, st, env):
            if isinstance(c, RaiseV):
                out.append((st1, ('raise', c.exc)))
                continue
            parts = self.split(st1, c)
            if len(parts) == 1:
                st2, b = parts[0]
                out.extend(self.block(s.body if b else s.orelse, st2, env))
                continue
            base = list(st1.pc)
            path = st1.path
            res = []
            for st2, b in parts:
                res.append(self.block(s.body if b else s.orelse, st2, env))
            A, B = res
            if len(A) == 1 and len(B) == 1 and A[0][1] is None and B[0][1] is None:
                m = self.merge(A[0][0], B[0][0], base, path)
                if m is not None:
                    out.append((m, None))
                    continue
            out.extend(A)
            out.extend(B)
        return out

    def merge(self, a, b, base, path):
        if states_equal(a, b):
            # the branches differ at most in what they assume
            a.pc = list(base)
            a.path = path
            a._ctx = None
            return a
        return None

    def s_For(self, s, st, env):
        from . import loops
        out = []
        for st1, it in self.ev(s.iter, st, env):
            if isinstance(it, RaiseV):
                out.append((st1, ('raise', it.exc)))
                continue
            out.extend(loops.run_for(self, s, st1, env, self.np.iterate(self, st1, it)))
        return out

    def s_While(self, s, st, env):
        from . import loops
        return loops.run_while(self, s, st, env)

    # conditions --------------------------------------------------------------------

    def cond(self, node, st, env):
        for st1, v in self.ev(node, st, env):
            if isinstance(v, RaiseV):
                yield st1, v
            else:
                yield st1, self.truth(st1, v)

    def truth(self, st, v):
        """Python truth value: True, False or a boolean term."""
        if isinstance(v, T):
            if v.sort == 'B':
                return True if v is TRUE else False if v is FALSE else v
            return self.truth(st, tm.ne(v, ZERO))
        if v is None or isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, ListRef):
            l = st.lists[v.id]
            if isinstance(l, CList):
                return bool(l.items)
            return self.truth(st, tm.lt(ZERO, l.n))
        if isinstance(v, DictRef):
            return bool(st.dicts[v.id])
        if isinstance(v, Arr):
            if all(d is ONE for d in v.shape):
                return self.truth(st, st.cell(v, (0,) * len(v.shape)))
            raise Unsupported('truth value of an array')
        if isinstance(v, (ObjRef, FuncV, Builtin, ClassV, Module)):
            return True
        if isinstance(v, Opaque):
            return tm.fresh_var('truth', 'B')
        raise Unsupported('truth of %r' % (v,))

    def decide(self, st, c):
        if c is True or c is TRUE:
            return True
        if c is False or c is FALSE:
            return False
        ctx = st.ctx
        if ctx.proves(c, timeout=1500):
            return True
        if ctx.proves(tm.tnot(c), timeout=1500):
            return False
        return None

    def split(self, st, c):
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        s1, s2 = st, st.fork()
        s1 = st.fork()
        s1.decide(c)
        s2.decide(tm.tnot(c))
        return [(s1, True), (s2, False)]

    # expressions ---------------------------------------------------------------------

    def ev(self, n, st, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.lineno()))
        return m(n, st, env)

    def evs(self, nodes, st, env):
        """Evaluate several expressions left to right."""
        if not nodes:
            yield st, []
            return
        for st1, v in self.ev(nodes[0], st, env):
            if isinstance(v, RaiseV):
                yield st1, v
                continue
            for st2, rest in self.evs(nodes[1:], st1, env):
                if isinstance(rest, RaiseV):
                    yield st2, rest
                else:
                    yield st2, [v] + rest

    def e_Constant(self, n, st, env):
        yield st, n.value

    def e_Name(self, n, st, env):
        yield st, self.lookup(st, env, n.id)

    def e_JoinedStr(self, n, st, env):
        yield st, Opaque('str')

    def e_Tuple(self, n, st, env):
        for st1, v in self.evs_star(n.elts, st, env):
            yield st1, v if isinstance(v, RaiseV) else tuple(v)

    def evs_star(self, elts, st, env):
        flat = [e.value if isinstance(e, ast.Starred) else e for e in elts]
        for st1, v in self.evs(flat, st, env):
            if isinstance(v, RaiseV):
                yield st1, v
                continue
            out = []
            for e, x in zip(elts, v):
                if isinstance(e, ast.Starred):
                    it = self.np.iterate(self, st1, x)
                    if it.concrete is None:
                        raise Unsupported('starred symbolic sequence')
                    out.extend(it.concrete)
                else:
                    out.append(x)
            yield st1, out

    def e_List(self, n, st, env):
        for st1, v in self.evs_star(n.elts, st, env):
            yield st1, v if isinstance(v, RaiseV) else st1.newlist(v)

    def e_Dict(self, n, st, env):
        if any(k is None for k in n.keys):
            raise Unsupported('dict unpacking')
        for st1, v in self.evs(list(n.keys) + list(n.values), st, env):
            if isinstance(v, RaiseV):
                yield st1, v
                continue
            k = len(n.keys)
            yield st1, st1.newdict(dict(zip(v[:k], v[k:])))

    def e_Lambda(self, n, st, env):
        f = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.Return(value=n.body, lineno=n.lineno, col_offset=0)],
                            decorator_list=[], lineno=n.lineno, col_offset=0)
        for st1, fv_ in self.mkfunc(f, st, env, env[1] + '.<lambda>'):
            yield st1, fv_

    def e_Attribute(self, n, st, env):
        for st1, v in self.ev(n.value, st, env):
            if isinstance(v, RaiseV):
                yield st1, v
            else:
                yield st1, self.getattr(st1, v, n.attr)

    def getattr(self, st, v, name):
        if isinstance(v, ObjRef):
            cls, d = st.objs[v.id]
            if name in d:
                if d[name] is POISON:
                    raise Unsupported('value of attribute %s is not known at the loop head' % name)
                if isinstance(v, Elem):
                    if 'elem_attr' in self.hooks:
                        self.hooks['elem_attr'](self, st, v, name)
                    return st.getattr(v, name)
                return d[name]
            m = cls.lookup(name) if isinstance(cls, ClassV) else None
            if m is not None:
                if isinstance(m, FuncV) and not getattr(m, 'static', False):
                    return m.bind(v)
                return m
            if not isinstance(cls, ClassV):
                return self.np.obj_attr(self, st, v, name)
            if name == '__class__':
                return cls
            return RaiseV(ExcV('AttributeError'))
        if isinstance(v, ClassV):
            m = v.lookup(name)
            if m is None:
                raise Unsupported('class attribute %s' % name)
            return m
        if isinstance(v, Module):
            if v.name.split('.')[0] == 'reor':
                return self.modstate.envs[self.module(v.name)][name]
            return self.np.external(v.name + '.' + name)
        if isinstance(v, SuperV):
            c = v.cls
            for b in c.bases:
                if isinstance(b, ClassV):
                    m = b.lookup(name)
                    if m is not None:
                        return m.bind(v.obj)
            if name == '__init__':
                return Builtin('object.__init__')
            raise Unsupported('super().%s' % name)
        return self.np.attribute(self, st, v, name)

    def e_Subscript(self, n, st, env):
        for st1, v in self.evs([n.value, n.slice], st, env):
            if isinstance(v, RaiseV):
                yield st1, v
            else:
                yield st1, self.np.getitem(self, st1, v[0], v[1])

    def e_Slice(self, n, st, env):
        nodes = [x for x in (n.lower, n.upper, n.step) if x is not None]
        for st1, v in self.evs(nodes, st, env):
            if isinstance(v, RaiseV):
                yield st1, v
                continue
            it = iter(v)
            yield st1, slice(*[next(it) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_UnaryOp(self, n, st, env):
        for st1, v in self.ev(n.operand, st, env):
            if isinstance(v, RaiseV):
                yield st1, v
            elif isinstance(n.op, ast.Not):
                t = self.truth(st1, v)
                yield st1, (not t) if isinstance(t, bool) else tm.tnot(t)
            elif isinstance(n.op, ast.USub):
                yield st1, self.np.unary(self, st1, 'neg', v)
            elif isinstance(n.op, ast.UAdd):
                yield st1, v
            elif isinstance(n.op, ast.Invert):
                yield st1, self.np.unary(self, st1, 'not', v)
            else:
                raise Unsupported('unary operator')

    def e_BinOp(self, n, st, env):
        op = BINOPS.get(type(n.op))
        if op is None:
            raise Unsupported('operator %s' % type(n.op).__name__)
        for st1, v in self.evs([n.left, n.right], st, env):
            if isinstance(v, RaiseV):
                yield st1, v
            else:
                yield st1, self.np.binop(self, st1, op, v[0], v[1])

    def e_BoolOp(self, n, st, env):
        isand = isinstance(n.op, ast.And)
        yield from self.boolop(n.values, isand, st, env)

    def boolop(self, nodes, isand, st, env):
        for st1, v in self.ev(nodes[0], st, env):
            if isinstance(v, RaiseV) or len(nodes) == 1:
                yield st1, v
                continue
            t = self.truth(st1, v)
            d = t if isinstance(t, bool) else self.decide(st1, t)
            if d is not None:
                if d == isand:
                    yield from self.boolop(nodes[1:], isand, st1, env)
                else:
                    yield st1, v if isinstance(t, bool) else d
                continue
            # symbolic: evaluate the rest under the assumption that it is reached
            s2 = st1.fork()
            s2.decide(t if isand else tm.tnot(t))
            probe = s2.fork()
            rest = list(self.boolop(nodes[1:], isand, s2, env))
            if len(rest) == 1 and not isinstance(rest[0][1], RaiseV):
                s3, w = rest[0]
                tw = self.truth(s3, w)
                if states_equal(s3, probe):
                    tw = tm.boolc(tw) if isinstance(tw, bool) else tw
                    yield st1, tm.tand(t, tw) if isand else tm.tor(t, tw)
                    continue
            s4 = st1.fork()
            s4.decide(tm.tnot(t) if isand else t)
            yield s4, (not isand)
            yield from rest

    def e_Compare(self, n, st, env):
        for st1, v in self.evs([n.left] + list(n.comparators), st, env):
            if isinstance(v, RaiseV):
                yield st1, v
                continue
            parts = []
            for i, op in enumerate(n.ops):
                parts.append(self.np.compare(self, st1, CMP[type(op)], v[i], v[i + 1]))
            if len(parts) == 1:
                yield st1, parts[0]
                continue
            r = TRUE
            for p in parts:
                t = self.truth(st1, p)
                r = tm.tand(r, tm.boolc(t) if isinstance(t, bool) else t)
            yield st1, True if r is TRUE else False if r is FALSE else r

    def e_IfExp(self, n, st, env):
        for st1, c in self.cond(n.test, st, env):
            if isinstance(c, RaiseV):
                yield st1, c
                continue
            for st2, b in self.split(st1, c):
                yield from self.ev(n.body if b else n.orelse, st2, env)

    def e_ListComp(self, n, st, env):
        yield from self.comp(n, st, env, 'list')

    def e_GeneratorExp(self, n, st, env):
        yield from self.comp(n, st, env, 'gen')

    def comp(self, n, st, env, kind):
        from . import loops
        e2 = newid()
        st.envs[e2] = {'__parent__': env[0]}
        env2 = (e2, env[1], env[2])
        yield from loops.comprehension(self, n.elt, n.generators, st, env2)

    def e_Starred(self, n, st, env):
        raise Unsupported('starred expression')

    def e_Call(self, n, st, env):
        for st1, f in self.ev(n.func, st, env):
            if isinstance(f, RaiseV):
                yield st1, f
                continue
            if isinstance(f, Builtin) and f.name == 'super' and not n.args:
                e = env[0]
                d = None
                while e is not None:
                    d = st1.envs.get(e)
                    if d is not None and '__class_owner__' in d:
                        break
                    e = d.get('__parent__') if d else None
                yield st1, SuperV(d['__class_owner__'], d['__self__'])
                continue
            argn = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
            kwn = [k.value for k in n.keywords]
            for st2, v in self.evs(argn + kwn, st1, env):
                if isinstance(v, RaiseV):
                    yield st2, v
                    continue
                args = []
                for a, x in zip(n.args, v[:len(argn)]):
                    if isinstance(a, ast.Starred):
                        it = self.np.iterate(self, st2, x)
                        if it.concrete is None:
                            raise Unsupported('starred symbolic argument')
                        args.extend(it.concrete)
                    else:
                        args.append(x)
                kw = {}
                bad = None
                for k, x in zip(n.keywords, v[len(argn):]):
                    if k.arg is None:
                        if isinstance(x, DictRef):
                            kw.update(st2.dicts[x.id])
                        elif isinstance(x, Opaque):
                            kw['**'] = x
                        else:
                            raise Unsupported('** argument')
                    else:
                        if k.arg in kw:
                            bad = RaiseV(ExcV('TypeError'))
                        kw[k.arg] = x
                if bad:
                    yield st2, bad
                    continue
                yield from self.call(st2, f, args, kw)

    # calls -------------------------------------------------------------------------------

    def call(self, st, f, args, kw):
        self.steps += 1
        if isinstance(f, FuncV):
            h = self.contracts.get(f.qual)
            if h is not None:
                self.called.add(f.qual)
                a = ([f.bound] if f.bound is not None else []) + list(args)
                yield from h(self, st, f, a, dict(kw))
                return
            yield from self.call_user(st, f, args, kw)
            return
        if isinstance(f, ClassV):
            o = st.newobj(f)
            init = f.lookup('__init__')
            if init is None:
                yield st, o
                return
            for st1, v in self.call(st, init.bind(o), args, kw):
                yield st1, v if isinstance(v, RaiseV) else o
            return
        if isinstance(f, Builtin):
            r = self.np.call(self, st, f, args, kw)
            if isinstance(r, Multi):
                yield from r.outs
            else:
                yield st, r
            return
        if isinstance(f, ObjRef):
            cls = st.objs[f.id][0]
            if isinstance(cls, ClassV) and cls.lookup('__call__'):
                yield from self.call(st, cls.lookup('__call__').bind(f), args, kw)
                return
        if isinstance(f, Opaque) and f.what == 'callable':
            yield from f.data(self, st, args, kw)
            return
        raise Unsupported('call of %r' % (f,))

    def bind_args(self, st, f, args, kw):
        """Returns dict of parameters or RaiseV."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if f.bound is not None:
            args = [f.bound] + args
        d = {}
        for nme, v in zip(names, args):
            d[nme] = v
        if len(args) > len(names):
            if a.vararg is None:
                return RaiseV(ExcV('TypeError'))
            d[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    return RaiseV(ExcV('TypeError'))
                d[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return RaiseV(ExcV('TypeError'))
        if a.kwarg is not None:
            d[a.kwarg.arg] = st.newdict(extra)
        defs = f.defaults or []
        off = len(names) - len(defs)
        for i, nme in enumerate(names):
            if nme not in d:
                if i >= off:
                    d[nme] = defs[i - off]
                else:
                    return RaiseV(ExcV('TypeError'))
        for x in a.kwonlyargs:
            if x.arg not in d:
                if f.kwdefaults and x.arg in f.kwdefaults:
                    d[x.arg] = f.kwdefaults[x.arg]
                else:
                    return RaiseV(ExcV('TypeError'))
        return d

    def call_user(self, st, f, args, kw):
        self.used.add(f.qual)
        d = self.bind_args(st, f, args, kw)
        if isinstance(d, RaiseV):
            yield st, d
            return
        if self.depth > 60:
            raise Unsupported('recursion')
        e = newid()
        d['__parent__'] = f.envid
        if f.owner is not None and f.bound is not None:
            d['__class_owner__'] = f.owner
            d['__self__'] = f.bound
        st.envs[e] = d
        self.depth += 1
        try:
            outs = self.block(f.node.body, st, (e, f.module, (f.qual[len(f.module) + 1:])))
        finally:
            self.depth -= 1
        res = []
        for st1, sig in outs:
            if sig is None:
                v = None
            elif sig[0] == 'ret':
                v = sig[1]
            elif sig[0] == 'raise':
                v = RaiseV(sig[1])
            else:
                raise Unsupported('stray %s' % sig[0])
            if not captured(st1, e, v):
                st1.envs.pop(e, None)
            res.append((st1, v))
        yield from self.merge_returns(res)

    def merge_returns(self, res):
        """Paths of a call that end in the same state with the same value are one path
        when their assumptions together cover the common prefix; scalar results of two
        pure paths are joined into a conditional."""
        if len(res) == 2 and all(not isinstance(v, RaiseV) for _, v in res):
            (a, va), (b, vb) = res
            k = 0
            while k < min(len(a.pc), len(b.pc)) and a.pc[k] is b.pc[k]:
                k += 1
            ra, rb = a.pc[k:], b.pc[k:]
            if len(ra) == 1 and len(rb) == 1 and ra[0] is tm.tnot(rb[0]) and states_equal(a, b):
                if same(va, vb):
                    a.pc = a.pc[:k]
                    a.path = tuple(x for x in a.path if x is not ra[0])
                    a._ctx = None
                    return [(a, va)]
                if isnum(va) and isnum(vb) and not isinstance(va, bool) and not isinstance(vb, bool):
                    a.pc = a.pc[:k]
                    a.path = tuple(x for x in a.path if x is not ra[0])
                    a._ctx = None
                    return [(a, tm.ite(ra[0], tn(va), tn(vb)))]
        return res


def captured(st, e, v):
    """Does anything reachable still reference environment e?"""
    def refs(x, depth=0):
        if isinstance(x, FuncV):
            return x.envid == e
        if isinstance(x, tuple):
            return any(refs(y) for y in x)
        return False
    if refs(v):
        return True
    for k, d in st.envs.items():
        if k != e and any(refs(x) for x in d.values()):
            return True
        if k != e and d.get('__parent__') == e:
            return True
    for _, d in st.objs.values():
        if any(refs(x) for x in d.values()):
            return True
    return False


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Multi:
    """Several outcomes of a built-in call."""
    def __init__(self, outs):
        self.outs = outs
