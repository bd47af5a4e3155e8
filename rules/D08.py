"""State/matrix constructors and readers of decision diagrams; normalisation."""
from rules.common import *
import cmath, itertools, math
import sem, ddrec
from ddrec import Heap, edge, czero, cone, cw, BadLevel, vclose
from rules.D07 import pick, EE, CE, same

NB = 4          # size of the analysed package


def pkg(n=NB): return rec('dd::Package', {'nqubits': I(n)}, sym('pkg'))


CONSTS = {}


def consts(F, ip):
    for u, g in F.globals.items():
        if g.get('qn', '').startswith('dd::constants::') and 'init' in g:
            v = num(ip.ev(g['init']['a'][1], State(), Frame(None))[0][1])
            if v is None:
                raise AnalysisError("value of %s not decided" % g['qn'])
            CONSTS[('ptr', (('G', u), ()))] = float(v)
    CONSTS[sym('g:dd::RealNumber::eps')] = CONSTS[sym('G:dd::RealNumber::eps')] = 1024 * 2.0 ** -52


def feasible(h, s):
    h.env.update(CONSTS)
    return all(bool(h.val(c)) == b for c, b in s.pc)


def terms(rs):
    """a throwing path must not have created nodes"""
    return [e for e in rs if e[0] == 'node']


def basis(n, i):
    return [1 + 0j if k == i else 0j for k in range(1 << n)]


def check(ctx):
    ctx.rule("ctor", "the diagram a constructor builds from free node constructors denotes the documented state/matrix, for every size and argument value up to the bound")
    ctx.rule("guard", "a request for more qubits than the package has, or with too little or malformed data, ends in an exception before any node is created")
    ctx.rule("read", "every reader of amplitudes/entries returns the entries of the denoted vector/matrix, on every analysed diagram (levels skipped, zero and terminal edges)")
    ctx.rule("norm", "normalising a node leaves what it denotes unchanged, gives equal nodes to proportional edge lists, and drops zero-weight successors")
    F = load(ctx, ['ir', 'dd'])
    ip = Interp(F, hooks=dict(ddrec.HOOKS))
    ip.max_depth = ip.max_rec = 40
    consts(F, ip)
    ctors(ctx, F, ip)
    readers(ctx, F, ip)
    norm(ctx, F)
    for r, n in (('ctor', 60), ('guard', 20), ('read', 100), ('norm', 30)):
        ctx.need(r, n)


# ---------------------------------------------------------------- constructors
def build(ctx, ip, f, args, n, want, w, key, kind='v', start=0, h=None, nq=NB, rule='ctor'):
    with ctx.sub(rule, w):
        h = h or Heap(3)
        h.true_norm = True
        h.base = start
        feas = 0
        for s, oc, _, _ in ip.run(f, args, this=pkg(nq), st=h.state()):
            if not feasible(h, s):
                continue
            feas += 1
            if oc[0] != 'return':
                ctx.bad(rule, w, key, "valid request rejected: %s" % (oc,))
                continue
            try:
                got = h.vec(oc[1], n + start) if kind == 'v' else h.mat(oc[1], n)
                good, msg = same(got, want), "the diagram does not denote the requested %s" % ('state' if kind == 'v' else 'matrix')
            except BadLevel as e:
                good, msg = False, str(e)
            ctx.ob(good, rule, w, key, msg)
            lev = [num(e[1]) for e in s.ev if e[0] == 'node']
            ctx.ob(all(v is not None and v < nq for v in lev), rule, w, key + ':level', "node created on a level the package does not have: %s" % lev)
        if not feas:
            raise AnalysisError("no feasible path")


def reject(ctx, ip, f, args, w, key, nq=NB, h=None):
    with ctx.sub("guard", w):
        h = h or Heap(3)
        feas = 0
        h.true_norm = True
        for s, oc, _, _ in ip.run(f, args, this=pkg(nq), st=h.state()):
            if any(c[0] == 'ap' and has_oob(c) for c, _ in s.pc):
                feas += 1
                ctx.bad("guard", w, key, "the request is not rejected before data beyond its end is read")
                continue
            if not feasible(h, s):
                continue
            feas += 1
            ctx.ob(oc[0] == 'throw' and not any(e[0] == 'node' for e in s.ev), "guard", w, key,
                   "request beyond the package or with malformed data is not rejected up front (%s)" % (oc[0],))
        if not feas:
            raise AnalysisError("no feasible path")


def has_oob(t):
    return isinstance(t, tuple) and (t[:2] == ('ap', 'oob') or any(has_oob(x) for x in t))


def vecv(bits): return ('vec', tuple(('b', bool(b)) for b in bits))


def cvec(h, vals, tag='a'):
    out = []
    for i, z in enumerate(vals):
        if z == 0:
            out.append(rec('std::complex', {'re': Fl(0.), 'im': Fl(0.)}))
        else:
            x = sym('%s%d' % (tag, i))
            h.env[x] = z
            h.env[ap('real', x)] = h.env[('fld', x, 're')] = z.real
            h.env[ap('imag', x)] = h.env[('fld', x, 'im')] = z.imag
            out.append(rec('std::complex', {'re': sym(tag + '%d.r' % i), 'im': sym(tag + '%d.i' % i)}))
            h.env[sym(tag + '%d.r' % i)], h.env[sym(tag + '%d.i' % i)] = z.real, z.imag
    return ('vec', tuple(out))


BS = {'zero': (1, 0), 'one': (0, 1), 'plus': (math.sqrt(.5), math.sqrt(.5)), 'minus': (math.sqrt(.5), -math.sqrt(.5)),
      'right': (math.sqrt(.5), 1j * math.sqrt(.5)), 'left': (math.sqrt(.5), -1j * math.sqrt(.5))}


def ctors(ctx, F, ip):
    one = lambda name, has=None, n=None: pick(F, 'dd::Package::' + name, None, n, has)
    # |0...0>
    f = one('makeZeroState')
    for n in range(0, NB + 1):
        for st in range(0, NB + 1):
            w = "%s n=%d start=%d" % (where(f), n, st)
            if n + st <= NB:
                build(ctx, ip, f, [I(n), I(st)], n, basis(n, 0), w, 'zero', start=st)
            else:
                reject(ctx, ip, f, [I(n), I(st)], w, 'zero:guard')
    # basis states
    f = one('makeBasisState', 'vector<bool')
    for n in range(0, 4):
        for bits in itertools.product((0, 1), repeat=n):
            w = "%s bits=%s" % (where(f), bits)
            build(ctx, ip, f, [I(n), vecv(bits), I(0)], n, basis(n, sum(b << i for i, b in enumerate(bits))), w, 'basis')
    for st in (1, 2):
        for bits in itertools.product((0, 1), repeat=NB):
            n = NB - st
            build(ctx, ip, f, [I(n), vecv(bits), I(st)], n, basis(n, sum(bits[st + i] << i for i in range(n))),
                  "%s start=%d bits=%s" % (where(f), st, bits), 'basis:start', start=st)
    reject(ctx, ip, f, [I(NB + 1), vecv([1] * (NB + 1)), I(0)], where(f) + " n too large", 'basis:guard')
    reject(ctx, ip, f, [I(NB), vecv([1] * (NB + 2)), I(1)], where(f) + " n+start too large", 'basis:guard')
    for n, m, st in ((1, 0, 0), (3, 2, 0), (2, 2, 1), (1, 1, 2)):
        reject(ctx, ip, f, [I(n), vecv([1] * m), I(st)], "%s n=%d start=%d with %d bits" % (where(f), n, st, m), 'basis:short')
    # product states
    E = {c['n']: ('e', 'dd::BasisStates', c['n'], c['v']) for c in F.enum('dd::BasisStates')['c']}
    f = one('makeBasisState', 'BasisStates')
    if set(E) != set(BS):
        raise AnalysisError("BasisStates has values unknown to the reference: %s" % sorted(set(E) ^ set(BS)))
    for n in (0, 1, 2):
        for ss in itertools.product(sorted(E), repeat=n):
            v = [1]
            for q in ss:
                v = [y * x for y in BS[q] for x in v]
            build(ctx, ip, f, [I(n), ('vec', tuple(E[q] for q in ss)), I(0)], n, [complex(x) for x in v], "%s %s" % (where(f), ss), 'product:' + ('x' if not ss else ss[-1]))
    for ss in itertools.product(('zero', 'left'), ('one', 'right'), ('minus', 'one')):
        v = [1]
        for q in ss[1:]:
            v = [y * x for y in BS[q] for x in v]
        build(ctx, ip, f, [I(2), ('vec', tuple(E[q] for q in ss)), I(1)], 2, [complex(x) for x in v], "%s start=1 %s" % (where(f), ss), 'product:start', start=1)
    reject(ctx, ip, f, [I(NB + 1), ('vec', (E['one'],) * (NB + 1)), I(0)], where(f) + " n too large", 'product:guard')
    reject(ctx, ip, f, [I(NB), ('vec', (E['one'],) * (NB + 1)), I(1)], where(f) + " n+start too large", 'product:guard')
    for n, m, st in ((1, 0, 0), (3, 2, 0), (2, 2, 1), (1, 1, 2)):
        reject(ctx, ip, f, [I(n), ('vec', (E['plus'],) * m), I(st)], "%s n=%d start=%d with %d states" % (where(f), n, st, m), 'product:short')
    # GHZ, W
    f, g = one('makeGHZState'), one('makeWState')
    for n in range(0, NB + 1):
        gz = basis(n, 0) if n == 0 else [math.sqrt(.5) * (a + b) for a, b in zip(basis(n, 0), basis(n, (1 << n) - 1))]
        build(ctx, ip, f, [I(n)], n, gz, "%s n=%d" % (where(f), n), 'ghz')
        wz = basis(0, 0) if n == 0 else [complex(1 / math.sqrt(n)) if bin(i).count('1') == 1 else 0j for i in range(1 << n)]
        build(ctx, ip, g, [I(n)], n, wz, "%s n=%d" % (where(g), n), 'w')
    reject(ctx, ip, f, [I(NB + 1)], where(f) + " n too large", 'ghz:guard')
    reject(ctx, ip, g, [I(NB + 1)], where(g) + " n too large", 'w:guard')
    # arbitrary vectors
    fs = [x for x in F.fns('dd::Package::makeStateFromVector') if 'body' in x and len(x['ps']) == 1]
    if len(fs) != 1:
        raise AnalysisError("anchor makeStateFromVector")
    f = fs[0]
    for n in range(0, 4):
        for zs in zero_sets(1 << n):
            h = Heap(17 + n)
            vals = [0 if i in zs else complex(h.rnd.uniform(-1, 1), h.rnd.uniform(-1, 1)) for i in range(1 << n)]
            build(ctx, ip, f, [cvec(h, vals)], n, [complex(v) for v in vals], "%s %d amplitudes, zero: %s" % (where(f), 1 << n, sorted(zs)), 'vector', h=h)
    build(ctx, ip, f, [('vec', ())], 0, [1 + 0j], where(f) + " empty", 'vector:empty')
    for m in (3, 5, 6, 7):
        h = Heap(4)
        reject(ctx, ip, f, [cvec(h, [1j] * m)], "%s %d amplitudes" % (where(f), m), 'vector:length', h=h)
    for n, nq in ((2, 1), (3, 1), (3, 2)):
        h = Heap(4)
        reject(ctx, ip, f, [cvec(h, [.3 + .1j * i for i in range(1 << n)])], "%s %d amplitudes, package of %d qubits" % (where(f), 1 << n, nq), 'vector:guard', nq=nq, h=h)
    # arbitrary matrices
    fs = [x for x in F.fns('dd::Package::makeDDFromMatrix') if 'body' in x and len(x['ps']) == 1]
    if len(fs) != 1:
        raise AnalysisError("anchor makeDDFromMatrix")
    f = fs[0]
    for n in range(0, 4):
        d = 1 << n
        for name, z in (('full', lambda i, j: False), ('diagonal', lambda i, j: i != j), ('lower', lambda i, j: j > i), ('corner', lambda i, j: i >= d // 2 or j < d // 2)):
            if n == 0 and name != 'full':
                continue
            h = Heap(23 + n)
            rows = [[0 if z(i, j) else complex(h.rnd.uniform(-1, 1), h.rnd.uniform(-1, 1)) for j in range(d)] for i in range(d)]
            a = ('vec', tuple(cvec(h, r, 'm%d_' % i) for i, r in enumerate(rows)))
            build(ctx, ip, f, [a], n, [[complex(x) for x in r] for r in rows], "%s %dx%d %s" % (where(f), d, d, name), 'matrix', 'm', h=h)
    build(ctx, ip, f, [('vec', ())], 0, [[1 + 0j]], where(f) + " empty", 'matrix:empty', 'm')
    for shape in ((3, 3, 3), (2, 3), (4, 4), (1, 2), (2,), (2, 1), (4, 4, 4, 3), (4, 4, 4, 5), (4, 3, 4, 4)):
        h = Heap(4)
        a = ('vec', tuple(cvec(h, [.2 + .1j * j for j in range(m)], 'm%d_' % i) for i, m in enumerate(shape)))
        if list(shape) == [4] * 4:
            continue
        reject(ctx, ip, f, [a], "%s rows of length %s" % (where(f), shape), 'matrix:shape' if len(set(shape)) == 1 or shape[0] != len(shape) else 'matrix:ragged', h=h)
    for n, nq in ((2, 1), (3, 2)):
        h, d = Heap(4), 1 << n
        a = ('vec', tuple(cvec(h, [.3 + .1j * i - .2 * j for j in range(d)], 'm%d_' % i) for i in range(d)))
        reject(ctx, ip, f, [a], "%s %dx%d, package of %d qubits" % (where(f), d, d, nq), 'matrix:guard', nq=nq, h=h)
    # density operator |0..0><0..0|
    f = one('makeZeroDensityOperator')
    for n in range(0, NB + 1):
        want = [[1 + 0j if i == j == 0 else 0j for j in range(1 << n)] for i in range(1 << n)]
        build(ctx, ip, f, [I(n)], n, want, "%s n=%d" % (where(f), n), 'density', 'm')
    reject(ctx, ip, f, [I(NB + 1)], where(f) + " n too large", 'density:guard')
    # identity
    f = one('makeIdent')
    for n in range(0, 3):
        build(ctx, ip, f, [], n, sem.eye(1 << n), where(f), 'ident', 'm')
    # ancillary projectors
    f = one('createInitialMatrix')
    for n in range(0, 4):
        for anc in itertools.product((0, 1), repeat=n):
            want = [[1 + 0j if i == j and not any(anc[q] and (i >> q) & 1 for q in range(n)) else 0j for j in range(1 << n)] for i in range(1 << n)]
            build(ctx, ip, f, [vecv(anc)], n, want, "%s ancillary=%s" % (where(f), anc), 'initial', 'm')


def zero_sets(d):
    yield set()
    for i in range(d):
        if d > 1:
            yield {i}
            yield set(range(d)) - {i}
    if d >= 4:
        yield set(range(d // 2))
        yield set(range(d // 2, d))
        yield set(range(0, d, 2))


# ---------------------------------------------------------------- readers
def vheap(h, n, shape, name='v'):
    """shape: nested tuple of (left, right) with 0 (zero edge) or 1 (subtree / terminal)"""
    def sub(v, sh, nm):
        if sh == 0:
            return edge(NULL, czero(), EE['v'])
        if v < 0:
            return edge(NULL, h.weight(nm), EE['v'])
        es = [sub(v - 1, x, nm + str(i)) for i, x in enumerate(sh)]
        return edge(h.node('v', v, es, nm), h.weight(nm + 'w'), EE['v'])
    return sub(n - 1, shape, name)


def vshapes(n):
    if n == 0:
        return [1]
    lo = vshapes(n - 1)
    out = [(a, b) for a in lo for b in lo]
    out += [(0, b) for b in lo] + [(a, 0) for a in lo]
    return out


def mheap(h, n, shape, name='m'):
    """shape: 0 zero edge | 'i' terminal (identity on all lower levels) | 's',shape: skip one level | 4-tuple"""
    def sub(v, sh, nm):
        if sh == 0:
            return edge(NULL, czero(), EE['m'])
        if sh == 'i' or v < 0:
            return edge(NULL, h.weight(nm + 't'), EE['m'])
        if sh[0] == 's':
            return sub(v - 1, sh[1], nm + 's')
        es = [sub(v - 1, x, nm + str(i)) for i, x in enumerate(sh)]
        return edge(h.node('m', v, es, nm), h.weight(nm + 'w'), EE['m'])
    return sub(n - 1, shape, name)


M1 = [('i', 'i', 'i', 'i'), ('i', 0, 0, 'i'), (0, 'i', 'i', 0), ('i', 0, 0, 0), (0, 0, 'i', 0)]


def mshapes(n):
    if n == 0:
        return ['i', 0]
    if n == 1:
        return M1 + ['i', 0]
    if n == 2:
        return [(M1[0],) * 4, (M1[0], 0, 0, 'i'), ('i', M1[2], M1[3], 0), (0, 'i', M1[0], M1[4]), ('s', M1[0]), ('s', M1[2]), 'i', (M1[2], 0, 0, 0)]
    a = (M1[0], 'i', 0, M1[2])
    return [(a, 0, ('s', M1[0]), 'i'), (0, a, 'i', 0), ('s', a), ('s', ('s', M1[0])), 'i', (a, a, a, a)]


def text(i, n): return ''.join(str((i >> q) & 1) for q in range(n))


def cnum(h, v):
    if v[0] == 'ptr':
        raise AnalysisError("amplitude is a pointer")
    return complex(h.num(v))


def listv(h, v):
    if v[0] != 'vec':
        raise AnalysisError("vector not resolved: %s" % show(v)[:120])
    return [cnum(h, x) for x in v[1]]


def read(ctx, ip, f, h, this, args, w, key, want, conv, post=None):
    with ctx.sub("read", w):
        feas = 0
        for s, oc, fr, thisloc in ip.run(f, args, this=this, st=h.state()):
            if not feasible(h, s):
                continue
            feas += 1
            if oc[0] == 'throw':
                ctx.bad("read", w, key, "valid request rejected: %s" % (oc,))
                continue
            v = post(s, fr) if post else oc[1]
            got = conv(v)
            ctx.ob(same(got, want) if not isinstance(want, dict) else dsame(got, want), "read", w, key, "returned values are not the entries of the diagram")
        if not feas:
            raise AnalysisError("no feasible path")


def dsame(a, b):
    ks = set(a) | set(b)
    return all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-8 for k in ks)


def readers(ctx, F, ip):
    cls = lambda k: 'dd::Edge<dd::%sNode>' % k

    def meth(k, name, nargs=None):
        fs = [f for f in F.functions.values() if f['n'] == cls(k) + '::' + name and 'body' in f and not f.get('tmpl')]
        fs = [f for f in fs if not any('visited' == p['n'] for p in f['ps'])]
        if len(fs) != 1:
            raise AnalysisError("anchor Edge<%s>::%s: %d candidates" % (k, name, len(fs)))
        return fs[0]
    nmax = 3
    for n in range(0, nmax + 1):
        shs = vshapes(n) if n < 3 else [s for i, s in enumerate(vshapes(3)) if ctx.tier == 'thorough' or i % 9 == 0]
        for sh in shs:
            h = Heap(n * 31 + len(str(sh)))
            e = vheap(h, n, sh)
            want = h.vec(e, n)
            lab = "vector diagram %s" % (sh,)
            f = meth('v', 'getVector')
            read(ctx, ip, f, h, e, [Fl(0.)], "%s %s" % (where(f), lab), 'getVector', want, lambda v: listv(h, v))
            f = meth('v', 'getSparseVector')
            read(ctx, ip, f, h, e, [Fl(0.)], "%s %s" % (where(f), lab), 'getSparseVector', {i: z for i, z in enumerate(want)},
                 lambda v: {num(k): cnum(h, x) for k, x in mapv(v)})
            f = meth('v', 'addToVector')
            base = [complex(.5, i) for i in range(1 << n)]
            arr = ('vec', tuple(rec('std::complex', {'re': Fl(z.real), 'im': Fl(z.imag)}) for z in base))
            hh = h
            with ctx.sub("read", where(f) + " " + lab):
                st = h.state()
                loc = ip.new_root(st, arr, 'amps')
                feas = 0
                for s, oc, fr, _ in ip.run(f, [('LOCARG', loc)], this=e, st=st):
                    if not feasible(h, s):
                        continue
                    feas += 1
                    ctx.ob(same(listv(h, ip.load(s, loc)), [a + b for a, b in zip(base, want)]), "read", "%s %s" % (where(f), lab), 'addToVector',
                           "the amplitudes added are not the entries of the diagram")
                if not feas:
                    raise AnalysisError("no feasible path")
            g, p = meth('v', 'getValueByIndex'), meth('v', 'getValueByPath')
            for i in range(1 << n):
                read(ctx, ip, g, h, e, [I(i)], "%s %s index %d" % (where(g), lab, i), 'vValueByIndex', want[i], lambda v: cnum(h, v))
                read(ctx, ip, p, h, e, [I(n), Sx(text(i, n))], "%s %s path %s" % (where(p), lab, text(i, n)), 'vValueByPath', want[i], lambda v: cnum(h, v))
    for n in range(0, nmax + 1):
        for sh in mshapes(n):
            if n == 0 and sh == 0:
                continue
            h = Heap(n * 37 + len(str(sh)))
            e = mheap(h, n, sh)
            want = h.mat(e, n)
            lab = "matrix diagram %s over %d qubits" % (sh, n)
            f = meth('m', 'getMatrix')
            read(ctx, ip, f, h, e, [I(n), Fl(0.)], "%s %s" % (where(f), lab), 'getMatrix', want, lambda v: [listv(h, r) for r in v[1]])
            f = meth('m', 'getSparseMatrix')
            read(ctx, ip, f, h, e, [I(n), Fl(0.)], "%s %s" % (where(f), lab), 'getSparseMatrix',
                 {(i, j): want[i][j] for i in range(1 << n) for j in range(1 << n)},
                 lambda v: {pairkey(k): cnum(h, x) for k, x in mapv(v)})
            g, p = meth('m', 'getValueByIndex'), meth('m', 'getValueByPath')
            for i in range(1 << n):
                for j in range(1 << n):
                    if n == 3 and (5 * i + 3 * j) % 4:
                        continue
                    read(ctx, ip, g, h, e, [I(n), I(i), I(j)], "%s %s entry %d,%d" % (where(g), lab, i, j), 'mValueByIndex', want[i][j], lambda v: cnum(h, v))
                    path = ''.join(str(2 * ((i >> q) & 1) + ((j >> q) & 1)) for q in range(n))
                    read(ctx, ip, p, h, e, [I(n), Sx(path)], "%s %s path %s" % (where(p), lab, path), 'mValueByPath', want[i][j], lambda v: cnum(h, v))


def mapv(v):
    if v[0] != 'map':
        raise AnalysisError("map not resolved: %s" % show(v)[:120])
    return v[1]


def pairkey(k):
    if k[0] == 'rec':
        return num(rget(k, 'first')), num(rget(k, 'second'))
    if k[0] in ('tup', 'vec'):
        return tuple(num(x) for x in k[1])
    raise AnalysisError("pair not resolved: %s" % show(k)[:120])


# ---------------------------------------------------------------- normalisation
def orders(m):
    """weight magnitudes of m non-zero edges: every ordering with ties"""
    seen = set()
    for t in itertools.product(range(m), repeat=m):
        r = sorted(set(t))
        t = tuple(r.index(x) for x in t)
        if t not in seen:
            seen.add(t)
            yield t


def norm(ctx, F):
    ip = Interp(F, hooks={k: v for k, v in ddrec.HOOKS.items()})
    for cls, kind in (('dd::Edge<dd::vNode>', 'v'), ('dd::Edge<dd::mNode>', 'm'), ('dd::CachedEdge<dd::vNode>', 'v'), ('dd::CachedEdge<dd::mNode>', 'm')):
        fs = [f for f in F.functions.values() if f['n'] == cls + '::normalize' and 'body' in f and not f.get('tmpl')]
        if len(fs) != 1:
            raise AnalysisError("anchor %s::normalize: %d candidates" % (cls, len(fs)))
        f = fs[0]
        m = 2 if kind == 'v' else 4
        for zs in itertools.chain.from_iterable(itertools.combinations(range(m), k) for k in range(m + 1)):
            for o in orders(m - len(zs)):
                one_norm(ctx, ip, f, cls, kind, m, zs, o)


def one_norm(ctx, ip, f, cls, kind, m, zs, o):
    cached = 'Cached' in cls
    wc = 'dd::ComplexValue' if cached else 'dd::Complex'
    w = "%s zero weights at %s, magnitudes ordered %s" % (where(f).replace('dd::', cls + ' ', 1), list(zs), o)
    key = cls + ':'
    with ctx.sub("norm", w):
        h = Heap(1 + sum(o) + 7 * len(zs))
        h.true_norm = True
        it = iter(o)
        es, ptrs, ws = [], [], []
        for i in range(m):
            p = h.opaque(kind, 1)
            ptrs.append(p)
            if i in zs:
                es.append(edge(NULL, czero(wc), cls))
                ws.append(0j)
                continue
            z = cmath.rect(.4 + .3 * next(it), h.rnd.uniform(-3, 3))
            ws.append(z)
            es.append(edge(p, h.weight('w%d' % i, wc, val=z), cls))
        nd = ('N', 'norm')
        h.store[nd] = rec('dd::%sNode' % kind, {'v': I(2), 'flags': I(0), 'ref': I(0), 'e': ('vec', tuple(edge(NULL, cone(), EE[kind]) for _ in range(m)))})
        args = [('ptr', (nd, ())), ('vec', tuple(es)), sym('mm'), sym('cn')]
        feas = 0
        for s, oc, fr, _ in ip.run(f, args, st=h.state()):
            if not feasible(h, s):
                continue
            feas += 1
            if oc[0] != 'return':
                ctx.bad("norm", w, key + 'throw', "normalisation fails: %s" % (oc,))
                continue
            r = oc[1]
            rw, rp = h.num(rget(r, 'w')), rget(r, 'p')
            if len(zs) == m:
                ctx.ob(rw == 0 and rp == NULL, "norm", w, key + 'zero', "edges that are all zero do not normalise to the zero edge")
                continue
            if not ctx.ob(rp == args[0], "norm", w, key + 'node', "the result does not point to the normalised node"):
                continue
            out = rget(s.store[nd], 'e')[1]
            nw = [h.num(rget(x, 'w')) for x in out]
            ctx.ob(rget(s.store[nd], 'v') == I(2), "norm", w, key + 'level', "normalisation changes the node's level")
            ctx.ob(all(abs(rw * a - b) < 1e-9 for a, b in zip(nw, ws)), "norm", w, key + 'meaning', "top weight times normalised weights are not the original weights")
            ctx.ob(all(rget(x, 'p') == (NULL if i in zs else ptrs[i]) for i, x in enumerate(out)), "norm", w, key + 'succ', "successors are changed, or a zero-weight edge keeps a node")
            big = ddrec.true_norm(ws)
            ctx.ob(abs(rw - big) < 1e-9, "norm", w, key + 'canonical',
                   "the top weight is not the canonical one (%s): proportional edge lists would not share a node" %
                   ("norm of the weights with the phase of the first largest" if kind == 'v' else "the first weight of largest magnitude"))
        if not feas:
            raise AnalysisError("no feasible path")
