"""Shared contract pieces: specifications over terms, trusted contracts, frames."""
from dv import terms as tm
from dv.terms import *
from dv.core import *
from dv.exec import Engine
from dv.smt import Ctx


def rng(*tris):
    """0 <= i < n for pairs (i, n)"""
    return tand(*[tand(le(ZERO, i), lt(i, n)) for i, n in tris])


def allocd(st, name, shape, dtype='f', origin='fresh'):
    return st.alloc_fn(shape, name, dtype, origin)


def fresh_array(st, shape, name, dtype='f'):
    nm = tm.fresh_name(name)
    return st.alloc_fn(shape, nm, dtype)


def fresh_real(name, *facts):
    return tm.fresh_var(name, 'R')


def fn1(st, a):
    f = st.fn_of(a)
    return lambda *i: f(tuple(num(x) for x in i))


def flat_events(evs):
    """events, those inside loops included"""
    for e in evs:
        if e and e[0] == 'loop':
            yield from flat_events(e[1])
        else:
            yield e


def sum2(n, m, f):
    return mksum(0, n, lambda i: mksum(0, m, lambda j: f(i, j)))


def matmul(f, g, inner):
    return lambda i, j: mksum(0, inner, lambda l: mul(f(i, l), g(l, j)))


def attrs(st, o):
    return st.objs[o.id][1]


def only_changes(S, E, label, before, after, o, allowed_attrs=(), allowed_bufs=(), extra_ok=(), own=()):
    """Frame condition: nothing reachable before changed, except the named attributes of o
    and the buffers given."""
    bad = []
    for i, b in before.heap.items():
        a = after.heap.get(i)
        if a is not None and a.body is not b.body and i not in allowed_bufs:
            bad.append('buffer %d (%s)' % (i, b.note or b.origin))
    for oid, (c, d) in before.objs.items():
        if oid in own:
            continue
        d2 = after.objs[oid][1]
        for k in d2:
            if k not in d or not same(d[k], d2[k]):
                if o is not None and oid == o.id and (k in allowed_attrs or k not in d):
                    continue
                bad.append('attribute %s of %s' % (k, getattr(c, 'name', c)))
    for i, l in before.lists.items():
        l2 = after.lists.get(i)
        if l2 is not None and l2 is not l and not same(l, l2) and i not in extra_ok:
            bad.append('list %d' % i)
    for i, d in before.dicts.items():
        if i in after.dicts and not same(d, after.dicts[i]) and i not in extra_ok:
            bad.append('dict %d' % i)
    return S.fact('%s: frame' % label, not bad, 'modified: %s' % bad)


# specifications -------------------------------------------------------------------------

def spec_dict_penalty(eps, k, d, Sf):
    """eps * mean over ordered pairs of distinct components of the mean squared difference of rows."""
    pairs = mul(k, sub(k, num(1)))
    s = mksum(0, k, lambda a: mksum(0, k, lambda b: ite(ne(a, b), div(mksum(0, d, lambda j: power(sub(Sf(a, j), Sf(b, j)), 2)), d), ZERO)))
    return mul(eps, ite(eq(k, 1), ZERO, div(s, pairs)))


def spec_gpnh_cost(n, d, k, eps, X, G, Sf):
    R = lambda i, j: sub(X(i, j), mksum(0, k, lambda l: mul(G(i, l), Sf(l, j))))
    return add(div(sum2(n, d, lambda i, j: power(R(i, j), 2)), mul(n, d)), spec_dict_penalty(eps, k, d, Sf))
