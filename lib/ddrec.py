"""Decision diagrams as abstract heap objects: operand nodes live in the abstract store with
concrete levels, symbolic edge weights and (at the leaves) opaque sub-diagrams standing for an
arbitrary matrix/vector.  Recursive calls are replaced by their specification (induction
hypothesis), compute tables by hit/miss alternatives."""
import cmath, hashlib, math, random
from absint import *
import sem, ddsem

ONE, ZERO = Fl(1.), Fl(0.)


def cw(re, im, cls='dd::Complex'): return rec(cls, {'r': re, 'i': im})


def czero(cls='dd::Complex'): return cw(ZERO, ZERO, cls)
def cone(cls='dd::Complex'): return cw(ONE, ZERO, cls)


def csym(name, cls='dd::Complex'): return cw(sym(name + '.r'), sym(name + '.i'), cls)


def edge(p, w, cls): return rec(cls, {'p': p, 'w': w})


def cz(v):
    """complex term of a record"""
    if v[0] == 'rec':
        d = dict(v[3])
        r, i = d.get('r', d.get('re')), d.get('i', d.get('im'))
        if r is None or i is None:
            return v
        if r[0] == 'ap' and r[1] == 'real' and i[0] == 'ap' and i[1] == 'imag' and r[2] == i[2]:
            return r[2]
        if num(r) is not None and num(i) is not None:
            return rec('c', {'r': Fl(num(r)), 'i': Fl(num(i))})
    return v


def uncz(z, cls='dd::ComplexValue'):
    if z[0] == 'rec':
        d = dict(z[3])
        return rec(cls, {'r': d.get('r', d.get('re')), 'i': d.get('i', d.get('im'))})
    return rec(cls, {'r': ap('real', z), 'i': ap('imag', z)})


def const(z):
    if z[0] == 'rec':
        d = dict(z[3])
        r, i = num(d.get('r', d.get('re', NULL))), num(d.get('i', d.get('im', NULL)))
        if r is not None and i is not None:
            return complex(r, i)
    n = num(z)
    return complex(n) if n is not None else None


def _bin(op):
    def h(ip, e, st, fr, wl):
        ts = [strip_t(a.get('t', '')) for a in e['a']]
        if len(ts) != 2 or not any('Complex' in t for t in ts):
            return None
        out = []
        for s, vs in ip.evs(e['a'], st, fr):
            if vs[-1][0] == 'throwv':
                out.append(ip.ret(s, vs[-1], wl))
                continue
            a, b = [load(ip, s, v) for v in vs[-2:]]
            out.append(ip.ret(s, uncz(arith(op, cz(a), cz(b))), wl))
        return out
    return h


def load(ip, s, v):
    return ip.load(s, v[1]) if v[0] == 'ptr' else v


def arith(op, a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None and not (op == '/' and cb == 0):
        r = {'+': lambda: ca + cb, '*': lambda: ca * cb, '/': lambda: ca / cb, '-': lambda: ca - cb}[op]()
        return rec('c', {'r': Fl(r.real), 'i': Fl(r.imag)})
    if op == '*' and (ca == 0 or cb == 0):
        return rec('c', {'r': ZERO, 'i': ZERO})
    if op == '*' and ca == 1: return b
    if op == '*' and cb == 1 or op == '/' and cb == 1: return a
    if op == '+' and ca == 0: return b
    if op == '+' and cb == 0: return a
    return ap(op, a, b)


def h_addassign(ip, e, st, fr, wl):
    """ComplexValue += / *= """
    op = e.get('op', '')[0:1]
    out = []
    if not e.get('obj') and len(e['a']) != 2:
        return None
    lhs, rhs = (e['obj'], e['a'][-1]) if e.get('obj') else (e['a'][0], e['a'][1])
    for s, l in ip.lv(lhs, st, fr):
        for s2, v in ip.ev(rhs, s, fr):
            if l[0] == 'val' or v[0] == 'throwv':
                return None
            s2 = s2.copy()
            ip.save(s2, l, uncz(arith(op, cz(ip.load(s2, l)), cz(load(ip, s2, v)))))
            out.append((s2, l if wl else ip.load(s2, l)))
    return out


def h_id(ip, e, st, fr, wl):
    return [ip.ret(s, vs[-1], wl) for s, vs in ip.evs(e['a'], st, fr)]


def h_flip(ip, e, st, fr, wl):
    return [ip.ret(s, ip.unop('-', vs[0], 'double') if vs[0] != Fl(0.) else vs[0], wl) for s, vs in ip.evs(e['a'], st, fr)]


def h_cval(ip, e, st, fr, wl):
    """Complex -> ComplexValue / std::complex conversion"""
    out = []
    std = 'std::complex' in (e.get('t') or '')
    for s, l in ip.objloc(e, st, fr):
        v = l[1] if l[0] == 'val' else ip.load(s, l)
        if v[0] != 'rec':
            return None
        d = dict(v[3])
        out.append(ip.ret(s, rec('std::complex', {'re': d['r'], 'im': d['i']}) if std else uncz(cz(v)), wl))
    return out


def h_mag(sq):
    def h(ip, e, st, fr, wl):
        out = []
        it = ip.objloc(e, st, fr) if e.get('obj') else [(s, ('val', vs[0])) for s, vs in ip.evs(e['a'], st, fr)]
        for s, l in it:
            v = l[1] if l[0] == 'val' else ip.load(s, l)
            out.append(ip.ret(s, ap('norm' if sq else 'abs', cz(v)), wl))
        return out
    return h


def h_conj(ip, e, st, fr, wl):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        v = load(ip, s, vs[0])
        z = cz(v)
        c = const(z)
        r = rec('c', {'r': Fl(c.real), 'i': Fl(-c.imag)}) if c is not None else ap('conj', z)
        out.append(ip.ret(s, uncz(r, 'dd::Complex'), wl))
    return out


def h_neg(ip, e, st, fr, wl):
    return [ip.ret(s, uncz(arith('*', rec('c', {'r': Fl(-1.), 'i': ZERO}), cz(load(ip, s, vs[0]))), 'dd::Complex'), wl)
            for s, vs in ip.evs(e['a'], st, fr)]


def h_look(ip, e, st, fr, wl):
    """ComplexNumbers::lookup: identity on values (and on the weight of an edge)"""
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        v = load(ip, s, vs[0])
        if v[0] == 'throwv':
            out.append(ip.ret(s, v, wl))
            continue
        if v[0] == 'rec' and rget(v, 'p') is not None and rget(v, 'w') is not None:
            w = rget(v, 'w')
            r = rec('dd::Edge' + v[1][v[1].find('<'):] if '<' in v[1] else 'dd::Edge', {'p': rget(v, 'p'), 'w': uncz(cz(w), 'dd::Complex')})
        elif len(vs) == 2:
            r = cw(vs[0], vs[1])
        elif v[0] == 'rec':
            r = uncz(cz(v), 'dd::Complex')
        else:
            r = cw(v, ZERO)
        out.append(ip.ret(s, r, wl))
    return out


def h_edgeeq(ip, e, st, fr, wl):
    return None


HOOKS = dict(ddsem.HOOKS)
HOOKS.update({
    'dd::operator*': _bin('*'), 'dd::operator/': _bin('/'), 'dd::operator+': _bin('+'),
    'dd::ComplexValue::operator+=': h_addassign, 'dd::ComplexValue::operator*=': h_addassign,
    'dd::RealNumber::val': h_id, 'dd::RealNumber::flipPointerSign': h_flip,
    'dd::Complex::operator ComplexValue': h_cval, 'dd::Complex::operator complex': h_cval,
    'dd::Complex::zero': lambda ip, e, st, fr, wl: [ip.ret(st, czero(), wl)],
    'dd::Complex::one': lambda ip, e, st, fr, wl: [ip.ret(st, cone(), wl)],
    'dd::ComplexValue::mag': h_mag(False), 'dd::ComplexValue::mag2': h_mag(True),
    'dd::ComplexNumbers::mag': h_mag(False), 'dd::ComplexNumbers::mag2': h_mag(True),
    'dd::ComplexNumbers::conj': h_conj, 'dd::ComplexNumbers::neg': h_neg, 'dd::ComplexNumbers::lookup': h_look,
})


def h_make(ip, e, st, fr, wl):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        if vs and vs[-1][0] == 'throwv':
            out.append(ip.ret(s, vs[-1], wl))
            continue
        es = vs[1]
        if es[0] != 'vec':
            raise AnalysisError("makeDDNode on an undecided edge array")
        ea = tuple(es[1])
        cached = 'CachedEdge' in (e['a'][1].get('t') or '')
        cls, wc = ('dd::CachedEdge', 'dd::ComplexValue') if cached else ('dd::Edge', 'dd::Complex')
        cls += {2: '<dd::vNode>', 4: '<dd::mNode>'}[len(ea)]
        s = s.copy()
        if all(ddsem.is_zero_edge(x) for x in ea):
            out.append(ip.ret(s, edge(NULL, czero(wc), cls), wl))
            continue
        if len(ea) == 4 and ddsem.is_zero_edge(ea[1]) and ddsem.is_zero_edge(ea[2]) and rget(ea[0], 'p') == rget(ea[3], 'p') \
                and cz(rget(ea[0], 'w')) == cz(rget(ea[3], 'w')):
            out.append(ip.ret(s, edge(rget(ea[0], 'p'), uncz(cz(rget(ea[0], 'w')), wc), cls), wl))
            continue
        nd = ap('node', vs[0], es)
        s.event('node', vs[0], es)
        out.append(ip.ret(s, edge(nd, uncz(ap('nw', nd), wc), cls), wl))
    return out


HOOKS['dd::Package::makeDDNode'] = h_make
# garbage collection and reference counts do not change what a diagram denotes
for n in ('garbageCollect',):
    HOOKS['dd::Package::' + n] = lambda ip, e, st, fr, wl: [ip.ret(st, FALSE, wl)]


def note(name):
    def h(ip, e, st, fr, wl):
        out = []
        for s, vs in ip.evs(e['a'], st, fr):
            s = s.copy()
            s.event(name, tuple(load(ip, s, v) for v in vs))
            out.append(ip.ret(s, ('null',), wl))
        return out
    return h


for n in ('incRef', 'decRef'):
    HOOKS['dd::Package::' + n] = note(n)


# ---------------------------------------------------------------- heaps
class Heap:
    """operand diagrams; .store goes into the initial state, .env gives every symbol a number"""

    def __init__(self, seed=1):
        self.rnd = random.Random(seed)
        self.store, self.env, self.den = {}, {}, {}
        self.n = 0
        self.true_norm = False # node weights by the normalisation contract (decided by D08) rather than an arbitrary one
        self.base = 0          # vector diagrams start at this level

    def state(self):
        return State(dict(self.store))

    def weight(self, name, cls='dd::Complex', pos=False, val=None):
        w = csym(name, cls)
        z = val if val is not None else complex(self.rnd.uniform(.3, 2), 0 if pos else self.rnd.uniform(-2, -.3))
        self.env[sym(name + '.r')], self.env[sym(name + '.i')] = z.real, z.imag
        if pos:
            w = cw(sym(name + '.r'), ZERO, cls)
        return w

    def opaque(self, kind, v, pos=False):
        """a node at level v standing for an arbitrary diagram"""
        key = ('N', 'o%d' % self.n)
        self.n += 1
        cls = 'dd::%sNode' % kind
        self.store[key] = rec(cls, {'v': I(v), 'flags': I(0), 'ref': I(1)}, sym(str(key)))
        d = 1 << (v + 1)
        g = (lambda: complex(self.rnd.uniform(.1, 1), 0)) if pos else (lambda: complex(self.rnd.uniform(-1, 1), self.rnd.uniform(-1, 1)))
        self.den[key] = [[g() for _ in range(d)] for _ in range(d)] if kind != 'v' else [g() for _ in range(d)]
        return ('ptr', (key, ()))

    def node(self, kind, v, edges, name=None):
        key = ('N', name or 'n%d' % self.n)
        self.n += 1
        self.store[key] = rec('dd::%sNode' % kind, {'v': I(v), 'flags': I(0), 'ref': I(1), 'e': ('vec', tuple(edges))})
        return ('ptr', (key, ()))

    # -- meaning ---------------------------------------------------------
    def num(self, w):
        """numeric value of a complex weight"""
        return complex(self.val(cz(w)))

    def val(self, z):
        k = z[0]
        if z in self.env:
            return self.env[z]
        if k == 'rec':
            d = dict(z[3])
            return complex(self.val(d.get('r', d.get('re')))) + 1j * complex(self.val(d.get('i', d.get('im'))))
        if k == 'ap':
            if z[1] == 'nw':
                return self.nodeweight(z[2])
            if z[1] == 'rw':
                return rfac(z[2])
            a = z[2:]
            if z[1] in sem.BIN and len(a) == 2:
                return sem.BIN[z[1]](self.val(a[0]), self.val(a[1]))
            if z[1] in sem.FUN and len(a) == 1:
                return sem.FUN[z[1]](self.val(a[0]))
            if z[1] == 'scalar':
                return self.spec(z)
        return sem.val(z, self.env)

    def nodeweight(self, nd):
        """homogeneous: scaling all edges scales the factor; nodes built here get factor 1 when their edges are normalised"""
        es = nd[3][1]
        if self.true_norm:
            return true_norm([self.num(rget(x, 'w')) for x in es])
        t = sum(COEF[i] * self.num(rget(x, 'w')) for i, x in enumerate(es))
        if abs(t) < 1e-12:
            raise sem.Undefined("degenerate node weight")
        return t

    def mat(self, e, n):
        """matrix over n qubits denoted by edge e"""
        w = self.num(rget(e, 'w'))
        if w == 0:
            return [[0j] * (1 << n) for _ in range(1 << n)]
        return sem.scale(w, self.nmat(rget(e, 'p'), n))

    def nmat(self, p, n):
        if p[0] == 'null':
            return sem.eye(1 << n)
        if p[0] == 'ptr':
            key = p[1][0]
            if p[1][1]:
                raise sem.Undefined("interior pointer as node")
            r = self.store[key]
            v = num(rget(r, 'v'))
            if key in self.den:
                m = self.den[key]
            else:
                m = self.blocks(v, rget(r, 'e')[1])
        elif p[0] == 'ap' and p[1] == 'node':
            v = lvl(p[2])
            if v is None:
                raise sem.Undefined("node level not decided: %s" % show(p[2])[:120])
            if v >= n:
                raise BadLevel("node at level %d where at most %d is possible" % (v, n - 1))
            m = sem.scale(1 / self.nodeweight(p), self.blocks(v, p[3][1]))
        elif p[0] == 'ap' and p[1] == 'R':
            m, k = self.spec(p)
            while k > n:          # results are identity-reduced
                d = 1 << (k - 1)
                lo = [r[:d] for r in m[:d]]
                if not sem.close(m, sem.kron(sem.eye(2), lo)):
                    raise BadLevel("recursive result over %d qubits used at %d" % (k, n))
                m, k = lo, k - 1
            v = k - 1
            m = sem.scale(1 / rfac(p), m)
        else:
            raise sem.Undefined("node pointer not decided: %s" % show(p)[:160])
        if v >= n:
            raise BadLevel("node at level %d where at most %d is possible" % (v, n - 1))
        return sem.kron(sem.eye(1 << (n - 1 - v)), m) if v < n - 1 else m

    def blocks(self, v, es):
        b = [self.mat(x, v) for x in es]
        h = 1 << v
        return [[b[2 * (i // h) + j // h][i % h][j % h] for j in range(2 * h)] for i in range(2 * h)]

    def vec(self, e, n):
        w = self.num(rget(e, 'w'))
        if w == 0:
            return [0j] * (1 << (n - self.base))
        return [w * x for x in self.nvec(rget(e, 'p'), n)]

    def nvec(self, p, n):
        if p[0] == 'null':
            if n != self.base:
                raise BadLevel("terminal where %d qubits remain" % (n - self.base))
            return [1 + 0j]
        if p[0] == 'ptr':
            key = p[1][0]
            if p[1][1]:
                raise sem.Undefined("interior pointer as node")
            r = self.store[key]
            v = num(rget(r, 'v'))
            m = self.den[key] if key in self.den else sum((self.vec(x, v) for x in rget(r, 'e')[1]), [])
        elif p[0] == 'ap' and p[1] == 'node':
            v = lvl(p[2])
            if v is None:
                raise sem.Undefined("node level not decided: %s" % show(p[2])[:120])
            if v != n - 1:
                raise BadLevel("vector node at level %d where %d is required" % (v, n - 1))
            t = self.nodeweight(p)
            m = [y / t for x in p[3][1] for y in self.vec(x, v)]
        elif p[0] == 'ap' and p[1] == 'R':
            m, k = self.spec(p)
            v = k - 1
            m = [y / rfac(p) for y in m]
        else:
            raise sem.Undefined("node pointer not decided: %s" % show(p)[:160])
        if v != n - 1:
            raise BadLevel("vector node at level %d where %d is required" % (v, n - 1))
        return m

    def spec(self, p):
        """meaning of an uninterpreted recursive result: ('ap','R', tag, args...) -> (matrix or vector, qubits)"""
        return SPECS[p[2]](self, p[3][1], *p[4:])


class BadLevel(AnalysisError):
    """the produced diagram is malformed (a genuine violation, not an analysis gap)"""


def true_norm(ws, eps=1e-13):
    mag = [abs(w) ** 2 for w in ws]
    if len(ws) == 2:
        if 0 in ws:
            return ws[0] + ws[1]
        k = 0 if mag[0] + eps >= mag[1] else 1
        return ws[k] / abs(ws[k]) * math.sqrt(mag[0] + mag[1])
    k = None
    for i, w in enumerate(ws):
        if w != 0 and (k is None or mag[i] - mag[k] > eps):
            k = i
    return ws[k]


COEF = [complex(.83, .21), complex(-.47, .66), complex(.29, -.91), complex(.58, .37)]
SPECS = {}


def lvl(t):
    n = num(t)
    return n


def rhash(p):
    h = hashlib.sha1(repr(p).encode()).digest()
    return complex(0.5 + h[0] / 256, 0.25 + h[1] / 256)


def rfac(p): return 1 + 0j if p[2] == 'kron' else rhash(p)


def vclose(a, b, tol=1e-8):
    return len(a) == len(b) and all(abs(x - y) < tol for x, y in zip(a, b))


def h_isterminal(ip, e, st, fr, wl):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        p = vs[0]
        if p[0] == 'null':
            out.append(ip.ret(s, TRUE, wl))
        elif p[0] == 'ptr' or p[0] == 'ap' and p[1] == 'node':
            out.append(ip.ret(s, FALSE, wl))
        else:
            return None
    return out


HOOKS['dd::NodeBase::isTerminal'] = h_isterminal
