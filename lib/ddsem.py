"""Uninterpreted view of the DD package for the abstract interpreter: makeDDNode is
the free constructor node(v, edges), number lookups are the identity, recursive
calls and compute tables are left to each rule.  Resulting terms are read as the
matrices / vectors they denote."""
import itertools
from absint import *
import sem


def _val(vs):
    return vs[-1][0] == 'throwv' if vs else False


def is_zero_edge(x):
    """provably the zero edge (symbolic weights stand for generic non-zero numbers)"""
    if x[0] != 'rec':
        return False
    return zero_weight(rget(x, 'w')) is True


def zero_weight(w):
    """True / False / None"""
    if w is None:
        return None
    if w[0] == 'rec':
        d = dict(w[3])
        ks = [d[k] for k in ('r', 'i', 're', 'im') if k in d]
        ns = [num(x) for x in ks]
        if len(ks) == 2 and all(n is not None for n in ns):
            return ns == [0, 0]
        return False
    n = num(w)
    return n == 0 if n is not None else False


def h_makenode(ip, e, st, fr, wl):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        if _val(vs):
            out.append(ip.ret(s, vs[-1], wl))
            continue
        cls = 'dd::CachedEdge' if 'CachedEdge' in (e['a'][1].get('t') or '') else 'dd::Edge'
        s = s.copy()
        es = vs[1][1] if vs[1][0] == 'vec' else None
        if es and all(is_zero_edge(x) for x in es):
            out.append(ip.ret(s, rec(cls, {'p': NULL, 'w': ZEROW(cls)}), wl))
            continue
        if es and len(es) == 4 and es[0] == es[3] and is_zero_edge(es[1]) and is_zero_edge(es[2]):
            out.append(ip.ret(s, es[0], wl))
            continue
        nd = ap('node', vs[0], vs[1])
        out.append(ip.ret(s, rec(cls, {'p': nd, 'w': ap('nw', nd)}), wl))
    return out


def ZEROW(cls):
    return rec('dd::ComplexValue', {'r': Fl(0.), 'i': Fl(0.)}) if 'Cached' in cls else rec('dd::Complex', {'r': Fl(0.), 'i': Fl(0.)})


def h_zero(ip, e, st, fr, wl):
    """exactlyZero / approximatelyZero: symbols are generic (non-zero) numbers"""
    out = []
    for s, l in ip.objloc(e, st, fr):
        v = l[1] if l[0] == 'val' else ip.load(s, l)
        z = zero_weight(v)
        if z is None:
            return None
        out.append(ip.ret(s, ('b', z), wl))
    return out


def h_one(ip, e, st, fr, wl):
    out = []
    for s, l in ip.objloc(e, st, fr):
        v = l[1] if l[0] == 'val' else ip.load(s, l)
        d = dict(v[3]) if v[0] == 'rec' else {}
        ns = [num(d[k]) for k in ('r', 'i', 're', 'im') if k in d]
        out.append(ip.ret(s, ('b', len(ns) == 2 and ns == [1, 0]), wl))
    return out


def cplx(re, im): return rec('std::complex', {'re': re, 'im': im})


def h_lookup(ip, e, st, fr, wl):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        if _val(vs):
            out.append(ip.ret(s, vs[-1], wl))
        elif len(vs) == 1:
            out.append(ip.ret(s, vs[0], wl))
        else:
            out.append(ip.ret(s, rec('std::complex', {'re': vs[0], 'im': vs[1]}), wl))
    return out


HOOKS = {'dd::Package::makeDDNode': h_makenode, 'dd::ComplexNumbers::lookup': h_lookup,
         'dd::ComplexValue::exactlyZero': h_zero, 'dd::ComplexValue::approximatelyZero': h_zero,
         'dd::Complex::exactlyZero': h_zero, 'dd::Complex::approximatelyZero': h_zero,
         'dd::ComplexValue::exactlyOne': h_one, 'dd::ComplexValue::approximatelyOne': h_one,
         'dd::Complex::exactlyOne': h_one, 'dd::Complex::approximatelyOne': h_one}


def nodeweight(nd):
    """the (arbitrary but fixed) normalisation factor of a node"""
    import hashlib
    h = hashlib.sha1(repr(nd).encode()).digest()
    return complex(0.5 + h[0] / 256, 0.25 + h[1] / 256)


def weight(w, env):
    if w in env:
        return env[w]
    if w[0] == 'ap' and w[1] == 'nw':
        return nodeweight(w[2])
    if w[0] == 'rec':
        d = dict(w[3])
        if 'r' in d and 'i' in d:
            return complex(sem.val(_ptr(d['r']), env)) + 1j * complex(sem.val(_ptr(d['i']), env))
    return complex(sem.val(w, env))


def _ptr(v):
    return v


TERM = ('node?',)


def dmatrix(edge, n, env, top=None):
    """matrix denoted by an edge over qubits n-1..0 (identity-reduced)"""
    if edge in env:
        return env[edge]
    d = dict(edge[3])
    w = weight(d['w'], env)
    if w == 0:
        return [[0j] * (1 << n) for _ in range(1 << n)]
    p = d['p']
    return sem.scale(w, nmatrix(p, n, env))


def isterm(p):
    return not (p[0] == 'ap' and p[1] == 'node')


def nmatrix(p, n, env):
    if (p, n) in env:
        return env[(p, n)]
    if p[0] == 'ap' and p[1] == 'node' and num(p[2]) is None:
        raise sem.Undefined('node level not decided: %s' % show(p[2])[:100])
    if isterm(p):
        return sem.eye(1 << n)
    v = num(p[2])
    if v >= n:
        raise sem.Undefined("node level %d above its parent" % v)
    es = p[3][1]
    blk = [dmatrix(x, v, env) for x in es]
    h = 1 << v
    m = [[0j] * (2 * h) for _ in range(2 * h)]
    for i in range(2):
        for j in range(2):
            for a in range(h):
                for b in range(h):
                    m[i * h + a][j * h + b] = blk[2 * i + j][a][b]
    m = sem.scale(1 / nodeweight(p), m)
    return sem.kron(sem.eye(1 << (n - 1 - v)), m) if v < n - 1 else m


def dvector(edge, n, env):
    d = dict(edge[3])
    w = weight(d['w'], env)
    if w == 0:
        return [0j] * (1 << n)
    p = d['p']
    if isterm(p):
        if n:
            raise sem.Undefined("terminal vector at level %d" % n)
        return [w]
    v = num(p[2])
    if v != n - 1:
        raise sem.Undefined("vector node at level %d, expected %d" % (v, n - 1))
    out = []
    for x in p[3][1]:
        out += dvector(x, n - 1, env)
    return [w / nodeweight(p) * y for y in out]
