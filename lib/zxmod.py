"""Model of the multiprecision numbers behind zx::PiRational and the reference
semantics of ZX diagrams (sum over the spiders' bits; written independently of the
repository)."""
import cmath, math
from fractions import Fraction
from absint import *
from facts import AnalysisError
import sem

BM = 'boost::multiprecision::'
PI = math.pi


def Q(x, y=1): return ('q', Fraction(x) / Fraction(y))


def frac(v):
    """exact value of a ground number, else None"""
    if v[0] == 'q':
        return v[1]
    if v[0] == 'i':
        return Fraction(v[1])
    if v[0] == 'f':
        return Fraction(v[1]) if math.isfinite(v[1]) else None
    return None


def qop(op, a, b):
    x, y = frac(a), frac(b)
    if x is None or y is None:
        return ap(op, a, b)
    if op == '/':
        if y == 0:
            return ('throwv', 'std::overflow_error')
        return ('q', x / y)
    if op == '%':
        if y == 0:
            return ('throwv', 'std::overflow_error')
        r = abs(x) % abs(y)
        return ('q', r if x >= 0 else -r)
    if op in ('+', '-', '*'):
        return ('q', {'+': x + y, '-': x - y, '*': x * y}[op])
    return ('b', {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])


def hooks(princ=True):
    """interpreter hooks; with princ, reducing an undecided angle is the principal value"""
    H = {}

    def args(ip, e, st, fr, wl, g):
        out = []
        for s, vs in ip.evs([x for x in e['a'] if x['k'] != 'defarg'], st, fr):
            out.append(ip.ret(s, vs[-1] if vs and vs[-1][0] == 'throwv' else g(vs), wl))
        return out

    def binary(op):
        def f(ip, e, st, fr, wl):
            if len(e['a']) == 1:
                return args(ip, e, st, fr, wl, lambda vs: ('q', -frac(vs[0])) if frac(vs[0]) is not None else ap('neg', vs[0]))
            return args(ip, e, st, fr, wl, lambda vs: qop(op, vs[0], vs[1]))
        return f
    for op in ('+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', '!='):
        H[BM + 'operator' + op] = binary(op)

    def assign(op):
        def f(ip, e, st, fr, wl):
            obj, arg = (e['obj'], e['a'][0]) if 'obj' in e else e['a'][:2]
            out = []
            for s, v in ip.ev(arg, st, fr):
                if v[0] == 'throwv':
                    out.append(ip.ret(s, v, wl))
                    continue
                for s2, l in ip.lv(obj, s, fr):
                    s2 = s2.copy()
                    if l[0] == 'val':       # assignment to a temporary
                        out.append(ip.ret(s2, v, wl))
                        continue
                    nv = qop(op, ip.load(s2, l), v) if op else (('q', frac(v)) if frac(v) is not None else v)
                    if nv[0] == 'throwv':
                        out.append(ip.ret(s2, nv, wl))
                        continue
                    ip.save(s2, l, nv)
                    out.append((s2, l) if wl else (s2, nv))
            return out
        return f
    for op in ('', '+', '-', '*', '/', '%'):
        H[BM + 'number::operator' + op + '='] = assign(op)

    def make(vs):
        if not vs:
            return Q(0)
        if len(vs) == 1:
            x = frac(vs[0])
            return ('q', x) if x is not None else vs[0]
        return qop('/', vs[0], vs[1])
    H['ctor:' + BM + 'number'] = lambda ip, e, st, fr, wl: args(ip, e, st, fr, wl, make)

    def numer(vs):
        x = frac(vs[0])
        return Q(x.numerator) if x is not None else vs[0]

    def denom(vs):
        x = frac(vs[0])
        return Q(x.denominator) if x is not None else Q(1)
    # numerator()/denominator() return values: assigning to them changes nothing
    H[BM + 'numerator'] = lambda ip, e, st, fr, wl: args(ip, e, st, fr, wl, numer)
    H[BM + 'denominator'] = lambda ip, e, st, fr, wl: args(ip, e, st, fr, wl, denom)

    def conv(ip, e, st, fr, wl):
        t = (e.get('ta') or [e.get('t', '')])[0]
        out = []
        for s, l in ip.lv(e['obj'], st, fr):
            v = l[1] if l[0] == 'val' else ip.load(s, l)
            x = frac(v)
            if x is not None:
                v = Fl(float(x)) if 'double' in t or 'float' in t else I(int(x))
            out.append(ip.ret(s, v, wl))
        return out
    H[BM + 'number::convert_to'] = conv
    H[BM + 'number::operator double'] = conv

    def field(ip, e, st, fr):
        for s, l in ip.objloc(e, st, fr):
            yield s, l, rget(l[1] if l[0] == 'val' else ip.load(s, l), 'frac')

    if princ:
        def modpi(ip, e, st, fr, wl):
            out = []
            for s, l, v in field(ip, e, st, fr):
                if v is None or frac(v) is not None:
                    return None
                s = s.copy()
                ip.save(s, (l[0], l[1] + (('f', 'frac'),)) if l[0] != 'val' else l, ap('princ', v))
                out.append(ip.ret(s, ('void',), wl))
            return out
        H['zx::PiRational::modPi'] = modpi

        def generic(ip, e, st, fr, wl):
            """no undecided angle is one of the special values"""
            out = []
            for s, l, v in field(ip, e, st, fr):
                if v is None or frac(v) is not None:
                    return None
                out.append(ip.ret(s, FALSE, wl))
            return out
        H['zx::PiRational::isInteger'] = generic
        H['zx::PiRational::isZero'] = generic

        def ctor(ip, e, st, fr, wl):
            a = [x for x in e['a'] if x['k'] != 'defarg']
            if len(a) != 1 or strip_t(a[0].get('t', '')) not in ('double', 'float'):
                return None
            out = []
            for s, v in ip.ev(a[0], st, fr):
                if v[0] == 'throwv':
                    out.append((s, v))
                elif frac(v) is not None:
                    x = v[1] / PI
                    q = Fraction(x).limit_denominator(4096)
                    q = q if abs(float(q) - x) < 1e-12 else Fraction(x)
                    q = q % 2
                    out.append((s, rec('zx::PiRational', {'frac': ('q', q - 2 if q > 1 else q)})))
                else:
                    out.append((s, rec('zx::PiRational', {'frac': ap('princ', ap('/', v, Fl(PI)))})))
            return out
        H['ctor:zx::PiRational'] = ctor
    return H


def princ(x):
    """representative modulo 2 in (-1, 1]"""
    x = sem._r(x)
    r = math.fmod(x, 2.)
    return r - 2 if r > 1 else r + 2 if r <= -1 else r


sem.FUN['princ'] = princ


def angle(e, env):
    """value of a zx::PiExpression in radians"""
    f = rget(rget(e, 'constant'), 'frac')
    r = PI * (float(f[1]) if f[0] == 'q' else sem._r(sem.val(f, env)))
    for t in rget(e, 'terms')[1]:
        r += sem._r(sem.val(rget(t, 'coeff'), env)) * sem._r(sem.val(rget(t, 'var'), env))
    return r


class Graph:
    """plain ZX diagram: v -> (type, phase); edges [(a, b, hadamard)]"""

    def __init__(self, verts, edges, ins, outs):
        self.v, self.e, self.ins, self.outs = verts, edges, ins, outs


class Broken(Exception):
    pass


def read(d, env):
    """Graph of a zx::ZXDiagram record; Broken when its parts contradict each other"""
    vs = {}
    for i, o in enumerate(rget(d, 'vertices')[1]):
        if o[0] == 'opt':
            t = rget(o[1], 'type')
            vs[i] = (t[2], angle(rget(o[1], 'phase'), env))
    adj = {}
    for i, es in enumerate(rget(d, 'edges')[1]):
        if i not in vs:
            continue
        for x in es[1]:
            to, ty = num(rget(x, 'to')), rget(x, 'type')[2]
            if to not in vs:
                raise Broken("vertex %d has an edge to the missing vertex %d" % (i, to))
            adj.setdefault((i, to, ty == 'Hadamard'), 0)
            adj[i, to, ty == 'Hadamard'] += 1
    edges = []
    for (a, b, h), n in sorted(adj.items()):
        m = adj.get((b, a, h), 0)
        if a == b:
            if n % 2:
                raise Broken("vertex %d has half a loop" % a)
            edges += [(a, a, h)] * (n // 2)
            continue
        if n != m:
            raise Broken("vertex %d has %d %s edges to %d, which has %d back" % (a, n, 'Hadamard' if h else 'simple', b, m))
        if a < b:
            edges += [(a, b, h)] * n
    g = Graph(vs, edges, [num(x) for x in rget(d, 'inputs')[1]], [num(x) for x in rget(d, 'outputs')[1]])
    for x in g.ins + g.outs:
        if x not in vs:
            raise Broken("boundary vertex %d is missing" % x)
    nv, ne = num(rget(d, 'nvertices')), num(rget(d, 'nedges'))
    if nv != len(vs):
        raise Broken("%d vertices, counted as %s" % (len(vs), nv))
    g.ne = ne
    return g


def tensor(g):
    """linear map of a diagram as {(outs, ins) bits: amplitude}, up to a positive real factor"""
    par = {v: v for v in g.v}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    had = []
    for a, b, h in g.e:
        # an X spider is a Z spider with a Hadamard on every leg
        k = h ^ (g.v[a][0] == 'X') ^ (g.v[b][0] == 'X')
        if k:
            had.append((a, b))
        else:
            par[find(a)] = find(b)
    ph = {}
    for v, (t, p) in g.v.items():
        ph[find(v)] = ph.get(find(v), 0.) + (p if t != 'Boundary' else 0.)
    ext = list(g.ins) + list(g.outs)
    keep = []
    for v in ext:
        if find(v) not in keep:
            keep.append(find(v))
    facs = [((r,), {(0,): 1., (1,): cmath.exp(1j * p)}) for r, p in ph.items()]
    for a, b in had:
        a, b = find(a), find(b)
        if a == b:
            facs.append(((a,), {(0,): 1., (1,): -1.}))
        else:
            facs.append(((a, b), {(x, y): -1. if x and y else 1. for x in (0, 1) for y in (0, 1)}))
    rest = [r for r in ph if r not in keep]
    while rest:
        # the variable whose elimination creates the smallest table
        best = min(rest, key=lambda r: len({x for vs, _ in facs if r in vs for x in vs}))
        rest.remove(best)
        mine = [f for f in facs if best in f[0]]
        facs = [f for f in facs if best not in f[0]]
        facs.append(combine(mine, best))
    allv = keep
    out = {}
    table = combine(facs, None, allv)[1] if facs else {(): 1.}
    for vals, a in table.items():
        d = dict(zip(allv, vals))
        out[tuple(d[find(v)] for v in g.outs), tuple(d[find(v)] for v in g.ins)] = a
    return out


def combine(fs, drop, order=None):
    vs = list(order) if order is not None else sorted({x for f in fs for x in f[0]})
    if len(vs) > 16:
        raise sem.Undefined("diagram is too entangled to evaluate")
    idx = [tuple(vs.index(x) for x in f[0]) for f in fs]
    keep = [i for i, x in enumerate(vs) if x != drop]
    out = {}
    for m in range(1 << len(vs)):
        bits = tuple((m >> i) & 1 for i in range(len(vs)))
        a = 1.
        for (f, t), ix in zip(fs, idx):
            a *= t[tuple(bits[i] for i in ix)]
            if a == 0:
                break
        k = tuple(bits[i] for i in keep)
        out[k] = out.get(k, 0.) + a
    return tuple(vs[i] for i in keep), out


def matrix(g):
    """rows: outputs, columns: inputs, qubit 0 least significant"""
    t = tensor(g)
    n, m = len(g.outs), len(g.ins)
    M = [[0j] * (1 << m) for _ in range(1 << n)]
    for (o, i), a in t.items():
        M[sum(b << k for k, b in enumerate(o))][sum(b << k for k, b in enumerate(i))] += a
    return M


def proportional(a, b, tol=1e-7):
    """a = c b for a non-zero complex c"""
    if len(a) != len(b) or len(a[0]) != len(b[0]):
        return False
    na = math.sqrt(sum(abs(x) ** 2 for r in a for x in r))
    nb = math.sqrt(sum(abs(x) ** 2 for r in b for x in r))
    if na < 1e-9 or nb < 1e-9:
        return na < 1e-9 and nb < 1e-9
    ip = sum(complex(y).conjugate() * x for r, s in zip(a, b) for x, y in zip(r, s)) / na / nb
    if abs(abs(ip) - 1) > tol:
        return False
    c = ip * na / nb
    return all(abs(x - c * y) <= tol * na for r, s in zip(a, b) for x, y in zip(r, s))


def zero(a, tol=1e-7):
    return all(abs(x) <= tol for r in a for x in r)


# construction of diagram records
VT = {'B': ('e', 'zx::VertexType', 'Boundary', 0), 'Z': ('e', 'zx::VertexType', 'Z', 1), 'X': ('e', 'zx::VertexType', 'X', 2)}
ET = {'S': ('e', 'zx::EdgeType', 'Simple', 0), 'H': ('e', 'zx::EdgeType', 'Hadamard', 1)}
VAR = rec('sym::Variable', {'id': I(4711)})


def phase(x):
    """PiExpression: a fraction, the name of a generic angle (in multiples of pi), or 'S..' for a symbolic one"""
    terms = ()
    if isinstance(x, str) and x.startswith('S'):
        terms = (rec('sym::Term', {'coeff': Fl(1.5), 'var': VAR}),)
        f = Q(1, 4)
    elif isinstance(x, str):
        f = GEN[x]
    else:
        f = Q(x)
    return rec('sym::Expression', {'constant': rec('zx::PiRational', {'frac': f}), 'terms': ('vec', terms)})


ANG = {VAR: .9137}
GEN = dict(zip('abcdefgh', (Q(3, 17), Q(-5, 23), Q(7, 29), Q(-11, 31), Q(13, 37), Q(17, 41), Q(-19, 43), Q(23, 47))))


def mk(verts, edges, ins, outs, gap=None, gphase=0):
    """diagram record from [(type, phase)], [(a, b, 'S'/'H')]; gap: index of an unused slot to insert"""
    m = {i: i if gap is None or i < gap else i + 1 for i in range(len(verts))}
    n = len(verts) + (gap is not None)
    vs, es = [('nullopt',)] * n, [[] for _ in range(n)]
    qof = {}
    for k, v in enumerate(ins):
        qof[v] = k
    for k, v in enumerate(outs):
        qof[v] = k
    for i, (t, p) in enumerate(verts):
        vs[m[i]] = ('opt', rec('zx::VertexData', {'col': I(i), 'qubit': I(qof.get(i, 0)), 'phase': phase(p), 'type': VT[t]}))
    for a, b, t in edges:
        es[m[a]].append(rec('zx::Edge', {'to': I(m[b]), 'type': ET[t]}))
        es[m[b]].append(rec('zx::Edge', {'to': I(m[a]), 'type': ET[t]}))
    return rec('zx::ZXDiagram', {'vertices': ('vec', tuple(vs)), 'edges': ('vec', tuple(('vec', tuple(e)) for e in es)), 'deleted': ('vec', (I(gap),) if gap is not None else ()),
                                 'inputs': ('vec', tuple(I(m[x]) for x in ins)), 'outputs': ('vec', tuple(I(m[x]) for x in outs)), 'nvertices': I(len(verts)), 'nedges': I(len(edges)),
                                 'globalPhase': phase(gphase)}), m


def listing_hooks(H):
    """getVertices/getEdges as the lists of what exists, in index order (Z03 checks that they are)"""
    def verts(ip, e, st, fr, wl):
        out = []
        for s, l in ip.objloc(e, st, fr):
            d = l[1] if l[0] == 'val' else ip.load(s, l)
            v = ('vec', tuple(rec('std::pair', {'first': I(i), 'second': o[1]}) for i, o in enumerate(rget(d, 'vertices')[1]) if o[0] == 'opt'))
            out.append(ip.ret(s, v, wl))
        return out

    def edges(ip, e, st, fr, wl):
        out = []
        for s, l in ip.objloc(e, st, fr):
            d = l[1] if l[0] == 'val' else ip.load(s, l)
            vs = rget(d, 'vertices')[1]
            v = ('vec', tuple(rec('std::pair', {'first': I(i), 'second': rget(x, 'to')}) for i, es in enumerate(rget(d, 'edges')[1]) if vs[i][0] == 'opt'
                              for x in es[1] if num(rget(x, 'to')) >= i))
            out.append(ip.ret(s, v, wl))
        return out
    H['zx::ZXDiagram::getVertices'] = verts
    H['zx::ZXDiagram::getEdges'] = edges
    return H


def range_hook(H):
    """vectors made from a pair of the repository's own iterators: step with ++ until == the end"""
    def body(ip, f, st, this, locs=()):
        nf = Frame(f, ('ptr', this) if this else None, None)
        for p, l in zip(f['ps'], locs):
            ip.bindvar(st, nf, p['id'], l)
        rs = ip.ex(f['body'], st, nf)
        if len(rs) != 1 or rs[0][1][0] not in ('return', 'next'):
            raise AnalysisError("%s: %s" % (f['n'], [r[1] for r in rs][:3]))
        s, oc = rs[0]
        v = oc[1] if oc[0] == 'return' else ('void',)
        if oc[0] == 'return' and len(oc) > 2 and oc[2]:
            v = ip.load(s, v)
        return s, v

    def ctor(ip, e, st, fr, wl):
        a = [x for x in e['a'] if x['k'] != 'defarg']
        if len(a) != 2 or 'Iterator' not in a[0].get('t', ''):
            return None
        out = []
        for s, vs in ip.evs(a, st, fr):
            if vs[-1][0] == 'throwv':
                out.append((s, vs[-1]))
                continue
            if vs[0][0] != 'rec' or vs[1][0] != 'rec':
                raise AnalysisError("iterator pair " + show(vs[0]))
            s = s.copy()
            it, end = ip.new_root(s, vs[0], 'it'), ip.new_root(s, vs[1], 'it')
            cn = vs[0][1]
            inc = [f for f in ip.F.fns(cn + '::operator++') if not f['ps']][0]
            deref = ip.F.fn(cn + '::operator*')
            ne = [f for f in ip.F.fns(cn.rsplit('::', 2)[0] + '::operator!=') if cn.split('::')[-1] in f['ps'][0]['t']][0]
            got = []
            while True:
                s, v = body(ip, ne, s, None, (it, end))
                t = ip.truth(v)
                if t is None:
                    raise AnalysisError("end of iteration not decided: " + show(v))
                if not t:
                    break
                if len(got) > 200:
                    got.append(('endless',))
                    break
                s, v = body(ip, deref, s, it)
                got.append(v)
                s, v = body(ip, inc, s, it)
            out.append((s, ('vec', tuple(got))))
        return out
    H['ctor:std::vector'] = ctor
    return H
