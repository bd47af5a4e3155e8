"""Decision-diagram arithmetic: one level of every recursion, recursive calls replaced by their specification."""
from rules.common import *
import itertools, math
import sem, ddrec
from ddrec import Heap, edge, czero, cone, BadLevel, SPECS, rhash, vclose

NQ = 'nqubits'


# ------------------------------------------------------------------ specifications
def n_of(var):
    v = num(var)
    if v is None:
        raise sem.Undefined("level not decided: %s" % show(var)[:100])
    return (v + 1) & 0xffff


def madd(a, b): return sem.add(a, b)


def edge_den(h, x, n, k):
    return h.vec(x, n) if k == 'v' else h.mat(x, n)


def s_add(h, k, x, y, var):
    n = n_of(var)
    a, b = edge_den(h, x, n, k), edge_den(h, y, n, k)
    return ([p + q for p, q in zip(a, b)] if k == 'v' else madd(a, b)), n


def s_mag(h, k, x, y, var):
    n = n_of(var)
    a, b = edge_den(h, x, n, k), edge_den(h, y, n, k)
    f = lambda p, q: complex(math.hypot(abs(p), abs(q)))
    return ([f(p, q) for p, q in zip(a, b)] if k == 'v' else [[f(p, q) for p, q in zip(r, s)] for r, s in zip(a, b)]), n


def mulden(h, k, x, y, n):
    a = h.mat(x, n)
    return [sum(p * q for p, q in zip(r, h_y)) for r, h_y in ((r, h.vec(y, n)) for r in a)] if k == 'v' else sem.mm(a, h.mat(y, n))


def s_mul(h, k, x, y, var):
    n = n_of(var)
    return mulden(h, k, x, y, n), n


def s_conj(h, k, x, n):
    n = num(n)
    return [z.conjugate() for z in h.vec(x, n)], n


def s_ct(h, k, x, n):
    n = num(n)
    return sem.dag(h.mat(x, n)), n


def s_inner(h, k, x, y, var):
    """the first argument's top weight is already conjugated by the caller"""
    n = num(var)
    a = [h.num(rget(x, 'w')) * z.conjugate() for z in unit(h, x, n)]
    return sum(p * q for p, q in zip(a, h.vec(y, n))), n


def unit(h, x, n):
    if h.num(rget(x, 'w')) == 0:
        return [0j] * (1 << n)
    return h.nvec(rget(x, 'p'), n)


def s_kron(h, k, x, y, ny, inc):
    ny = num(ny)
    if k == 'v':
        nx = width(h, rget(x, 'p'), 'v')
        return [p * q for p in h.vec(x, nx) for q in h.vec(y, ny)], nx + (ny if inc == TRUE else 0)
    nx = width(h, rget(x, 'p'), 'm')
    return sem.kron(h.mat(x, nx), h.mat(y, ny)), nx + ny


def width(h, p, k):
    if p[0] == 'null':
        return 0
    if p[0] == 'ptr':
        return num(rget(h.store[p[1][0]], 'v')) + 1
    if p[0] == 'ap' and p[1] == 'node':
        return num(p[2]) + 1
    if p[0] == 'ap' and p[1] == 'R':
        return h.spec(p)[1]
    raise sem.Undefined("width of %s" % show(p)[:100])


def s_trace(h, k, x, elim, level):
    el = [num(b) for b in elim[1]]
    n = num(level)
    keep = [q for q in range(n) if not el[q]]
    gone = [q for q in range(n) if el[q]]
    m = h.mat(x, n)
    d = 1 << len(keep)
    out = [[0j] * d for _ in range(d)]
    for i in range(1 << n):
        for j in range(1 << n):
            if all((i >> q) & 1 == (j >> q) & 1 for q in gone):
                a = sum(((i >> q) & 1) << c for c, q in enumerate(keep))
                b = sum(((j >> q) & 1) << c for c, q in enumerate(keep))
                out[a][b] += m[i][j] / (1 << len(gone))
    return out, len(keep)


SPECS.update(add=s_add, mag=s_mag, mul=s_mul, conj=s_conj, ct=s_ct, kron=s_kron, trace=s_trace, inner=s_inner)


def scalar_spec(h, z):
    return SPECS[z[2]](h, z[3][1], *z[4:])[0]


# ------------------------------------------------------------------ hooks
CE = {'v': 'dd::CachedEdge<dd::vNode>', 'm': 'dd::CachedEdge<dd::mNode>'}
EE = {'v': 'dd::Edge<dd::vNode>', 'm': 'dd::Edge<dd::mNode>'}


def is_zero(x): return ddrec.ddsem.is_zero_edge(x)


class Run:
    """one function under analysis: hooks for its recursive calls and its compute tables"""

    def __init__(self, F, tables):
        self.F, self.tables = F, tables
        self.hit = False
        self.ip = Interp(F, hooks=dict(ddrec.HOOKS))
        H = self.ip.hooks
        H['dd::Package::add2'] = self.rec('add', zero='both')
        H['dd::Package::addMagnitudes'] = self.rec('mag', zero='both')
        H['dd::Package::multiply2'] = self.rec('mul', zero='any')
        H['dd::Package::conjugateRec'] = self.rec('conj', zero='any', pad=True)
        H['dd::Package::conjugateTransposeRec'] = self.rec('ct', zero='any', pad=True)
        H['dd::Package::kronecker2'] = self.rec('kron', zero='any')
        H['dd::Package::trace'] = self.rec('trace', zero='any')
        H['dd::Package::innerProduct'] = self.scalar('inner')
        for t in ('ComputeTable', 'UnaryComputeTable'):
            H['dd::%s::lookup' % t] = self.lookup
            H['dd::%s::insert' % t] = self.insert
        self.tag = None
        self.h = None

    def args(self, e, st, fr):
        for s, vs in self.ip.evs(e['a'], st, fr):
            yield s, [ddrec.load(self.ip, s, v) if v[0] == 'ptr' and self.is_edge(s, v) else v for v in vs]

    def is_edge(self, s, v):
        x = self.ip.load(s, v[1])
        return x[0] == 'rec' and rget(x, 'p') is not None and rget(x, 'w') is not None and 'Edge' in x[1]

    def kind(self, vs):
        return 'v' if any(v[0] == 'rec' and 'vNode' in v[1] for v in vs) else 'm'

    def rec(self, tag, zero, pad=False):
        def h(ip, e, st, fr, wl):
            out = []
            for s, vs in self.args(e, st, fr):
                if any(v[0] == 'throwv' for v in vs):
                    out.append(ip.ret(s, next(v for v in vs if v[0] == 'throwv'), wl))
                    continue
                es = [v for v in vs if v[0] == 'rec' and 'Edge' in v[1]]
                rest = [v for v in vs if not (v[0] == 'rec' and 'Edge' in v[1])]
                k = 'v' if 'vNode' in (e.get('t') or '') else 'm'
                zs = [is_zero(x) for x in es]
                if any(zs) if zero == 'any' else all(zs):
                    out.append(ip.ret(s, edge(NULL, czero('dd::ComplexValue'), CE[k]), wl))
                    continue
                if tag in ('add', 'mag') and len(rest) != 1 or tag == 'mul' and not rest:
                    return None
                if tag == 'mul':
                    rest = rest[:1]
                if tag == 'kron' and len(rest) == 1:
                    rest = rest + [TRUE]
                if tag == 'trace':
                    if len(rest) < 2 or rest[0][0] != 'vec':
                        return None          # the public overload
                    rest = rest[:2]
                if pad:
                    rest = [I(self.childlevel)]
                s = s.copy()
                if tag == 'kron':
                    # normalised nodes: the weight is the product of the weights
                    wt = ddrec.arith('*', *[ddrec.cz(rget(x, 'w')) for x in es])
                    if all(rget(x, 'p') == NULL for x in es):
                        out.append(ip.ret(s, edge(NULL, ddrec.uncz(wt), CE[k]), wl))
                        continue
                    p = ap('R', tag, ('k', k), *[unitedge(rget(x, 'p'), k) for x in es], *rest)
                    s.event('rec', p)
                    out.append(ip.ret(s, edge(p, ddrec.uncz(wt), CE[k]), wl))
                    continue
                p = ap('R', tag, ('k', k), *[canon(x) for x in es], *rest)
                s.event('rec', p)
                out.append(ip.ret(s, edge(p, ddrec.uncz(ap('rw', p)), CE[k]), wl))
            return out
        return h

    def scalar(self, tag):
        def h(ip, e, st, fr, wl):
            out = []
            for s, vs in self.args(e, st, fr):
                if len(vs) < 3:
                    return None
                z = ap('scalar', tag, ('k', 'v'), *[canon(x) if x[0] == 'rec' else x for x in vs])
                s = s.copy()
                s.event('rec', z)
                out.append(ip.ret(s, ddrec.uncz(z), wl))
            return out
        return h

    def table(self, ip, e, st, fr):
        for s, l in ip.objloc(e, st, fr):
            t = l[1]
            name = None
            if l[0] != 'val' and l[1]:
                name = l[1][-1][1] if l[1][-1][0] == 'f' else None
            elif l[0] == 'val' and l[1][0] == 'fld':
                name = l[1][2]
            if name is None:
                raise AnalysisError("compute table not resolved")
            yield s, name

    def lookup(self, ip, e, st, fr, wl):
        out = []
        for s0, name in self.table(ip, e, st, fr):
            for s, vs in self.args(e, s0, fr):
                s = s.copy()
                keys = tuple(canon(v) if v[0] == 'rec' else v for v in vs)
                s.event('lookup', name, keys)
                if not self.hit:
                    out.append(ip.ret(s, NULL, wl))
                else:
                    out.append(ip.ret(s, ('ptr', self.hit(self, ip, s, name, keys)), wl))
        return out

    def insert(self, ip, e, st, fr, wl):
        out = []
        for s0, name in self.table(ip, e, st, fr):
            for s, vs in self.args(e, s0, fr):
                s = s.copy()
                s.event('insert', name, tuple(canon(v) if v[0] == 'rec' else v for v in vs[:-1]), vs[-1])
                out.append(ip.ret(s, ('null',), wl))
        return out


def canon(x):
    """edges independent of their weight representation (Complex / ComplexValue)"""
    if x[0] == 'rec' and 'Edge' in x[1]:
        return edge(rget(x, 'p'), ddrec.uncz(ddrec.cz(rget(x, 'w')), 'c'), 'Edge')
    return x


# ------------------------------------------------------------------ operand shapes
def mshape(h, name, shape, var, cls, pos=False, normal=False):
    """shape: 'zero' | 'id' | 'low' (node below var) | tuple of 4 of '0tol'"""
    wc = 'dd::ComplexValue' if 'Cached' in cls else 'dd::Complex'
    if shape == 'zero':
        return edge(NULL, czero(wc), cls)
    w = h.weight(name, wc)
    if shape == 'one':
        return edge(NULL, cone(wc), cls)
    if shape == 'id':
        return edge(NULL, w, cls)
    if shape == 'low':
        return edge(h.opaque('m', var - 1, pos), w, cls)
    return edge(mnode(h, name, shape, var, pos, normal), w, cls)


def kids(h, name, shape, var, kind, pos, normal):
    E = EE['v' if kind == 'v' else 'm']
    vals = [complex(h.rnd.uniform(.3, 2), 0 if pos else h.rnd.uniform(-2, 2)) for _ in shape]
    if normal:
        t = sum(ddrec.COEF[i] * vals[i] for i in range(len(shape)) if shape[i] != '0')
        vals = [v / t for v in vals]
    out = []
    for i, c in enumerate(shape):
        if c == '0':
            out.append(edge(NULL, czero(), E))
            continue
        w = h.weight('%s%d' % (name, i), pos=pos, val=vals[i])
        out.append(edge(NULL if c == 't' else h.opaque(kind, var - (2 if c == 'l' else 1), pos), w, E))
    return out


def mnode(h, name, shape, var, pos=False, normal=False):
    return h.node('m', var, kids(h, name, shape, var, 'm', pos, normal), name)


def vshape(h, name, shape, var, cls, pos=False, normal=False):
    wc = 'dd::ComplexValue' if 'Cached' in cls else 'dd::Complex'
    if shape == 'zero':
        return edge(NULL, czero(wc), cls)
    w = h.weight(name, wc)
    if shape == 'term':
        return edge(NULL, w, cls)
    return edge(h.node('v', var, kids(h, name, shape, var, 'v', pos, normal), name), w, cls)


M2 = ['oooo', 'o00t', '0tt0', 't0oo', 'ol0t', '000o', 'o0t0']     # var >= 2 for 'l'
M1 = ['oooo', 'o00t', '0tt0', 'tot0', '0o00']
M0 = ['tttt', 't00t', '0tt0', 'tt00', '000t']
V1, V0 = ['oo', 'o0', '0o'], ['tt', 't0', '0t']


def mshapes(var): return {0: M0, 1: M1, 2: M2}[var]
def vshapes(var): return V0 if var == 0 else V1


def pick(F, name, ta, nargs=None, has=None):
    fs = [f for f in F.fns(name) if 'body' in f and not f.get('tmpl') and (ta is None or f.get('ta') == ta) and (nargs is None or len(f['ps']) == nargs)
          and (has is None or any(has in p['t'] for p in f['ps']))]
    if len(fs) != 1:
        raise AnalysisError("anchor %s%s: %d candidates" % (name, ta or '', len(fs)))
    return fs[0]


# ------------------------------------------------------------------ running one case
class Case:
    def __init__(self, ctx, run, f, rule, tag):
        self.ctx, self.run, self.f, self.rule, self.tag = ctx, run, f, rule, tag

    def go(self, h, args, w, key, want, read, tabval=None, hit=None):
        """want(): expected meaning; read(h, value): meaning of the returned value;
        tabval(h, keys): meaning of a table entry for those keys"""
        R = self.run
        ctx = self.ctx
        with ctx.sub(self.rule, w):
            R.h, R.hit = h, hit
            st = h.state()
            rs = R.ip.run(self.f, args, this=rec('dd::Package', {'nqubits': I(8)}, sym('pkg')), st=st)
            feas = 0
            wv = want()
            for s, oc, _, _ in rs:
                if not all(bool(h.val(c)) == b for c, b in s.pc):
                    continue
                feas += 1
                if oc[0] != 'return':
                    ctx.bad(self.rule, w, key, "ends with %s" % (oc,))
                    continue
                try:
                    got = read(h, oc[1])
                    good = same(got, wv)
                    msg = "result does not denote the specified value"
                except BadLevel as e:
                    good, msg = False, str(e)
                ctx.ob(good, self.rule, w, key, msg)
                names = {}
                for ev in s.ev:
                    if ev[0] in ('lookup', 'insert'):
                        names.setdefault(ev[1], set()).add(ev[0])
                        self.run.tables.setdefault(ev[1], set()).add(self.tag)
                    if ev[0] == 'insert' and tabval is not None:
                        try:
                            tv = unitedge(rget(ev[3], 'p'), None) if tabval == 'node' else ev[3]     # entry weight unused
                            good = same(read(h, tv) if tabval != 'scalar' else h.num(rget(ev[3], 'w')), self.keyval(h, ev[2]))
                            msg = "value stored in %s is not the function of its key" % ev[1]
                        except BadLevel as e:
                            good, msg = False, str(e)
                        ctx.ob(good, 'table', w, 'table:%s:%s' % (self.tag, ev[1]), msg)
                    if ev[0] == 'rec':
                        try:
                            h.spec(ev[1]) if ev[1][1] == 'R' else scalar_spec(h, ev[1])
                        except BadLevel as e:
                            ctx.bad(self.rule, w, key, "recursive call on malformed operands: %s" % e)
            if not feas:
                raise AnalysisError("no feasible path: %s" % w)


def same(a, b):
    if isinstance(a, list) and a and isinstance(a[0], list):
        return sem.close(a, b, 1e-8)
    if isinstance(a, list):
        return vclose(a, b)
    return abs(a - b) < 1e-8


Heap.val_ = Heap.val


def _val(self, z):
    if z[0] == 'ap' and z[1] == 'scalar':
        return scalar_spec(self, z)
    if z[0] == 'ap' and z[1] == 'hit':
        return self.hits[z]
    return Heap.val_(self, z)


Heap.val = _val


def unitedge(p, k):
    return edge(p, cone('c'), 'Edge')


def hit_edge(tag, k, extra=()):
    """compute-table hit: the entry stores the function value of its keys"""
    def f(run, ip, s, name, keys):
        es = [x if x[0] == 'rec' else unitedge(x, k) for x in keys if x[0] == 'rec' or x[0] in ('ptr', 'null', 'ap')]
        ex = extra() if callable(extra) else extra
        p = ap('R', tag, ('k', k), *es, *ex)
        return ip.new_root(s, edge(p, ddrec.uncz(ap('rw', p)), CE[k]), 'entry')
    return f


def check(ctx):
    ctx.rule("add", "add2: for every shape of both operands (zero, identity, same node, node at or below the level; zero/terminal/opaque successors) "
             "the result denotes the sum, given that recursive calls do")
    ctx.rule("mag", "addMagnitudes: element-wise sqrt(|x|^2+|y|^2), same schema")
    ctx.rule("mul", "multiply2: matrix-matrix and matrix-vector product, same schema")
    ctx.rule("conj", "conjugateRec / conjugateTransposeRec: entry-wise conjugate / adjoint, same schema")
    ctx.rule("inner", "innerProduct: sum of conj(x_i) y_i, same schema, including the entry function")
    ctx.rule("kron", "kronecker2: tensor product with x on the more significant qubits, same schema (nodes normalised homogeneously)")
    ctx.rule("trace", "trace: normalised partial trace over the marked qubits with remaining qubits renumbered, same schema")
    ctx.rule("table", "what is inserted in a compute table is a function of the key only, and a hit is re-weighted to the same value; "
             "no table is shared by different operations")
    ctx.rule("top", "add / multiply start the recursion at the higher of both operands' levels and weight the result")
    F = load(ctx, ['ir', 'dd'])
    tables = {}
    R = Run(F, tables)
    add_like(ctx, F, R, 'add', 'dd::Package::add2', s_add)
    add_like(ctx, F, R, 'mag', 'dd::Package::addMagnitudes', s_mag, pos=True)
    mul(ctx, F, R)
    conj(ctx, F, R)
    inner(ctx, F, R)
    kron(ctx, F, R)
    trace(ctx, F, R)
    top(ctx, F, R)
    for name, tags in sorted(tables.items()):
        ctx.ob(len(tags) == 1, 'table', 'compute table ' + name, 'shared:' + name, "table %s serves different operations: %s" % (name, sorted(tags)))
    for r, n in (('add', 100), ('mag', 60), ('mul', 60), ('conj', 20), ('inner', 20), ('kron', 20), ('trace', 30), ('table', 60), ('top', 20)):
        ctx.need(r, n)


def where2(f): return where(f)


def add_like(ctx, F, R, tag, name, spec, pos=False):
    for k in 'vm':
        f = pick(F, name, ['dd::%sNode' % k])
        C = Case(ctx, R, f, tag, tag + k)
        for var in (0, 1, 2) if k == 'm' else (0, 1):
            sh = (vshapes(var) + ['zero']) if k == 'v' else (mshapes(var) + ['zero', 'id'] + (['low'] if var else []))
            mk = vshape if k == 'v' else mshape
            pairs = list(itertools.product(sh, sh))
            if var == 2 and ctx.tier != 'thorough':
                pairs = [p for i, p in enumerate(pairs) if i % 3 == 0 or 'low' in p or 'id' in p or any('l' in x for x in p)]
            for a, b in pairs:
                for mode in ('miss', 'hit'):
                    h = Heap(hash_((tag, k, var, a, b)))
                    x = mk(h, 'x', a, var, CE[k], pos)
                    y = mk(h, 'y', b, var, CE[k], pos)
                    w = "%s<%sNode> level %d x=%s y=%s %s" % (f['n'], k, var, a, b, mode)
                    if mode == 'hit' and ('zero' in (a, b) or a == b == 'id'):
                        continue
                    C.keyval = lambda h, keys: spec(h, k, *keys, I(var))[0]
                    C.go(h, [x, y, I(var)], w, '%s:%s:%s' % (tag, k, mode),
                         lambda: spec(h, k, x, y, I(var))[0], lambda h, v: edge_den(h, v, var + 1, k),
                         tabval=True, hit=hit_edge(tag, k, (I(var),)) if mode == 'hit' else None)
            # both operands share the node
            for a in sh:
                if a in ('zero', 'id'):
                    continue
                h = Heap(7)
                x = mk(h, 'x', a, var, CE[k], pos)
                y = edge(rget(x, 'p'), h.weight('y', 'dd::ComplexValue'), CE[k])
                w = "%s<%sNode> level %d same node %s" % (f['n'], k, var, a)
                C.keyval = lambda h, keys: spec(h, k, *keys, I(var))[0]
                C.go(h, [x, y, I(var)], w, '%s:%s:same' % (tag, k), lambda: spec(h, k, x, y, I(var))[0],
                     lambda h, v: edge_den(h, v, var + 1, k), tabval=True)


def hash_(t):
    import zlib
    return zlib.crc32(repr(t).encode())


def mul(ctx, F, R):
    for k in 'vm':
        f = pick(F, 'dd::Package::multiply2', ['dd::mNode', 'dd::%sNode' % k])
        C = Case(ctx, R, f, 'mul', 'mul' + k)
        for var in (0, 1, 2):
            xs = mshapes(var) + ['zero', 'id', 'one'] + (['low'] if var else [])
            ys = vshapes(var) + ['zero'] if k == 'v' else xs
            for n, (a, b) in enumerate(itertools.product(xs, ys)):
                if var == 2 and ctx.tier != 'thorough' and n % 4 and not {'low', 'id'} & {a, b}:
                    continue
                if 'low' == a and 'low' == b:
                    continue        # then the level would be the lower one
                for mode in ('miss', 'hit'):
                    if mode == 'hit' and ({'zero', 'id', 'one'} & {a, b}):
                        continue
                    h = Heap(hash_(('mul', k, var, a, b)))
                    x = mshape(h, 'x', a, var, EE['m'])
                    y = vshape(h, 'y', b, var, EE['v']) if k == 'v' else mshape(h, 'y', b, var, EE['m'])
                    w = "%s<%sNode> level %d x=%s y=%s %s" % (f['n'], k, var, a, b, mode)
                    C.keyval = lambda h, keys: mulden(h, k, unitedge(keys[0], 'm'), unitedge(keys[1], k), var + 1)
                    C.go(h, [x, y, I(var), FALSE], w, 'mul:%s:%s' % (k, mode), lambda: mulden(h, k, x, y, var + 1),
                         lambda h, v: edge_den(h, v, var + 1, k), tabval=True,
                         hit=hit2('mul', k, (I(var),)) if mode == 'hit' else None)


def hit2(tag, k, extra=()):
    def f(run, ip, s, name, keys):
        es = [unitedge(p, None) for p in keys if p[0] not in ('b', 'i')]
        p = ap('R', tag, ('k', k), *es, *extra)
        return ip.new_root(s, edge(p, ddrec.uncz(ap('rw', p)), CE[k]), 'entry')
    return f


def conj(ctx, F, R):
    for k, name, spec in (('v', 'dd::Package::conjugateRec', s_conj), ('m', 'dd::Package::conjugateTransposeRec', s_ct)):
        tag = 'conj' if k == 'v' else 'ct'
        f = pick(F, name, None)
        C = Case(ctx, R, f, 'conj', tag)
        for var in (0, 1, 2):
            sh = (['zero', 'term'] if var == 0 else ['zero']) + vshapes(var) if k == 'v' else ['zero', 'id'] + mshapes(var)
            for a in sh:
                for mode in ('miss', 'hit'):
                    if mode == 'hit' and a in ('zero', 'id', 'term'):
                        continue
                    n = 0 if a == 'term' else var + 1
                    h = Heap(hash_((tag, var, a)))
                    x = (vshape if k == 'v' else mshape)(h, 'x', a, var, EE[k])
                    R.childlevel = n - 1
                    w = "%s level %d %s %s" % (f['n'], var, a, mode)
                    C.keyval = lambda h, keys: spec(h, k, unitedge(keys[0], k), I(n))[0]
                    C.go(h, [x], w, '%s:%s' % (tag, mode), lambda: spec(h, k, x, I(n))[0], lambda h, v: edge_den(h, v, n, k),
                         tabval=True, hit=hit2(tag, k, (I(n),)) if mode == 'hit' else None)


def inner(ctx, F, R):
    f = pick(F, 'dd::Package::innerProduct', None, 3)
    C = Case(ctx, R, f, 'inner', 'inner')
    for var in (0, 1, 2):
        sh = ['zero', 'term'] if var == 0 else ['zero'] + vshapes(var - 1)
        for a, b in itertools.product(sh, sh):
            for mode in ('miss', 'hit'):
                if mode == 'hit' and (var == 0 or 'zero' in (a, b)):
                    continue
                h = Heap(hash_(('in', var, a, b)))
                x = vshape(h, 'x', a, var - 1, EE['v'])
                y = vshape(h, 'y', b, var - 1, EE['v'])
                w = "%s remaining %d x=%s y=%s %s" % (f['n'], var, a, b, mode)
                C.keyval = lambda h, keys: s_inner(h, 'v', unitedge(keys[0], 'v'), unitedge(keys[1], 'v'), I(var))[0]

                def hit(run, ip, s, name, keys):
                    z = ap('scalar', 'inner', ('k', 'v'), unitedge(keys[0], 'v'), unitedge(keys[1], 'v'), I(var))
                    return ip.new_root(s, edge(NULL, ddrec.uncz(z), CE['v']), 'entry')
                C.go(h, [x, y, I(var)], w, 'inner:%s' % mode, lambda: s_inner(h, 'v', x, y, I(var))[0],
                     lambda h, v: h.num(v), tabval='scalar', hit=hit if mode == 'hit' else None)
    # entry function: conjugates the first operand's weight
    g = pick(F, 'dd::Package::innerProduct', None, 2)
    C = Case(ctx, R, g, 'inner', 'inner')
    for var in (0, 1):
        for a, b in itertools.product(['zero'] + vshapes(var), repeat=2):
            h = Heap(hash_(('top', var, a, b)))
            x, y = vshape(h, 'x', a, var, EE['v']), vshape(h, 'y', b, var, EE['v'])
            w = "%s level %d x=%s y=%s" % (g['n'], var, a, b)
            C.go(h, [x, y], w, 'inner:top', lambda: sum(p.conjugate() * q for p, q in zip(h.vec(x, var + 1), h.vec(y, var + 1))), lambda h, v: scal(h, v))


def scal(h, v):
    n = num(v)
    return complex(n) if n is not None else h.num(v) if v[0] == 'rec' else complex(h.val(v))


def kron(ctx, F, R):
    for k in 'vm':
        f = pick(F, 'dd::Package::kronecker2', ['dd::%sNode' % k])
        C = Case(ctx, R, f, 'kron', 'kron' + k)
        for vx, vy, up in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)) + (((0, 0, 1), (1, 0, 1)) if k == 'm' else ()):
            xs = vshapes(vx) + ['zero'] if k == 'v' else mshapes(vx) + ['zero', 'id']
            ys = vshapes(vy) + ['zero'] if k == 'v' else mshapes(vy)[:2] + ['zero', 'id']
            for a, b in itertools.product(xs, ys):
                for mode in ('miss', 'hit', 'stale'):
                    if mode != 'miss' and ('zero' in (a, b) or a == 'id'):
                        continue
                    if mode == 'stale' and (k == 'v' or b != 'id'):
                        continue
                    h = Heap(hash_(('kr', k, vx, vy, a, b)))
                    mk = vshape if k == 'v' else mshape
                    x, y = mk(h, 'x', a, vx, EE[k], normal=True), mk(h, 'y', b, vy, EE[k], normal=True)
                    ny = vy + 1 + up
                    R.kron_ny = ny
                    w = "%s<%sNode> x level %d %s, y level %d %s %s" % (f['n'], k, vx, a, vy, b, mode)
                    n = vx + 1 + ny
                    C.keyval = lambda h, keys: kden(h, k, unitedge(keys[0], k), vx + 1, unitedge(keys[1], k), ny)

                    def hit(run, ip, s, name, keys, ny=ny, stale=(mode == 'stale')):
                        d = ny + (1 if stale else 0)
                        lv = vx + d
                        nd = ip_opaque(h, s, k, lv, kden(h, k, unitedge(keys[0], k), vx + 1, unitedge(keys[1], k), d))
                        return ip.new_root(s, edge(nd, cone('dd::ComplexValue'), CE[k]), 'entry')
                    C.go(h, [x, y, I(ny), TRUE], w, 'kron:%s:%s' % (k, mode), lambda: kden(h, k, x, vx + 1, y, ny),
                         lambda h, v: edge_den(h, v, n, k), tabval='node', hit=hit if mode != 'miss' else None)


def ip_opaque(h, s, k, lv, den):
    p = h.opaque(k, lv)
    h.den[p[1][0]] = den
    s.store[p[1][0]] = h.store[p[1][0]]
    return p


def kden(h, k, x, nx, y, ny):
    if k == 'v':
        return [p * q for p in h.vec(x, nx) for q in h.vec(y, ny)]
    return sem.kron(h.mat(x, nx), h.mat(y, ny))


def trace(ctx, F, R):
    f = pick(F, 'dd::Package::trace', ['dd::mNode'], has='vector<bool')
    C = Case(ctx, R, f, 'trace', 'trace')
    for level in (1, 2, 3):
        for elim in itertools.product((True, False), repeat=level):
            for v in range(level):
                for a in ['zero', 'id'] + mshapes(v):
                    if v != level - 1 and a in ('zero', 'id'):
                        continue
                    if level == 3 and ctx.tier != 'thorough' and mshapes(v).index(a) % 2 if a in mshapes(v) else False:
                        continue
                    for mode in ('miss', 'hit'):
                        if mode == 'hit' and (a in ('zero', 'id') or not all(elim)):
                            continue
                        h = Heap(hash_(('tr', level, elim, v, a)))
                        x = mshape(h, 'x', a, v, EE['m'])
                        ev = ('vec', tuple(('b', b) for b in elim))
                        w = "%s level %d eliminate %s node level %d %s %s" % (f['n'], level, elim, v, a, mode)
                        C.keyval = lambda h, keys: s_trace(h, 'm', unitedge(keys[0], 'm'), ev, I(level))[0]
                        keep = elim.count(False)
                        C.go(h, [x, ev, I(level), I(0)][:len(f['ps'])], w, 'trace:%s' % mode, lambda: s_trace(h, 'm', x, ev, I(level))[0],
                             lambda h, z: h.mat(z, keep), tabval=True,
                             hit=hit2('trace', 'm', (ev, I(level))) if mode == 'hit' else None)


def top(ctx, F, R):
    for name, tag, ks in (('dd::Package::add', 'add', (['dd::vNode'], ['dd::mNode'])),
                          ('dd::Package::multiply', 'mul', (['dd::mNode', 'dd::vNode'], ['dd::mNode', 'dd::mNode']))):
        for ta in ks:
            f = pick(F, name, ta)
            k = 'v' if 'dd::vNode' in ta else 'm'
            C = Case(ctx, R, f, 'top', tag + k)
            for lx, ly in itertools.product((None, 0, 1, 2), repeat=2):
                if k == 'v' and (ly is None or tag == 'add' and lx != ly or lx is not None and lx > ly):
                    continue
                h = Heap(hash_(('t', name, lx, ly)))
                xk = 'v' if tag == 'add' and k == 'v' else 'm'
                mkx = lambda nm, l, kk: edge(NULL if l is None else h.opaque(kk, l), h.weight(nm), EE[kk])
                x, y = mkx('x', lx, xk), mkx('y', ly, k)
                n = max(-1 if l is None else l for l in (lx, ly)) + 1
                n = max(n, 1) if k == 'm' else n
                w = "%s<%s> levels %s %s" % (f['n'], k, lx, ly)
                args = [x, y] + ([FALSE] if tag == 'mul' else [])
                C.go(h, args, w, 'top:%s:%s' % (tag, k),
                     (lambda: s_add(h, k, x, y, I(n - 1))[0]) if tag == 'add' else (lambda: mulden(h, k, x, y, n)),
                     lambda h, v: edge_den(h, v, n, k))
