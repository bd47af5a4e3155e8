"""ZX-diagrams as graphs and as maps."""
from rules.common import *
import itertools, random
from fractions import Fraction
import sem, zxmod
from zxmod import mk, GEN
from rules.Z02 import text

CLS = 'zx::ZXDiagram::'
ENV = zxmod.ANG
ETV = {'S': zxmod.ET['S'], 'H': zxmod.ET['H']}
HALF = Fraction(1, 2)


class D:
    """a diagram and the operations on it"""

    def __init__(self, F):
        self.F = F
        self.ip = Interp(F, hooks=zxmod.range_hook(zxmod.hooks()))
        self.ip.ref_members = True
        self.ip.max_iter = 400

    def fn(self, name, n):
        fs = [f for f in self.F.fns(CLS + name) if len(f['ps']) == n]
        if len(fs) != 1:
            raise AnalysisError("%s with %d parameters: %d functions" % (name, n, len(fs)))
        return fs[0]

    def call(self, name, d, *vs, f=None):
        f = f or self.fn(name, len(vs))
        rs = list(self.ip.run(f, [I(v) if isinstance(v, int) else v for v in vs], this=d))
        if len(rs) != 1:
            raise AnalysisError("%d outcomes of %s" % (len(rs), name))
        s, oc, fr, tl = rs[0]
        v = oc[1] if oc[0] == 'return' else ('void',)
        if oc[0] == 'throw':
            v = ('throwv', oc[1])
        elif oc[0] == 'return' and oc[2]:
            v = self.ip.load(s, v)
        return v, self.ip.load(s, tl)


class G:
    """the model: a multigraph"""

    def __init__(self, d):
        g = zxmod.read(d, ENV)
        self.v = {v: (t, round(p % (2 * zxmod.PI), 9) % round(2 * zxmod.PI, 9)) for v, (t, p) in g.v.items()}
        self.e = sorted(g.e)
        self.ins, self.outs = list(g.ins), list(g.outs)
        if g.ne != len(g.e):
            raise zxmod.Broken("%d edges, counted as %s" % (len(g.e), g.ne))
        n = len(rget(d, 'vertices')[1])
        dele = sorted(num(x) for x in rget(d, 'deleted')[1])
        if dele != sorted(set(range(n)) - set(g.v)) or len(rget(d, 'edges')[1]) != n:
            raise zxmod.Broken("slots of deleted vertices are not listed exactly")
        self.graph = g

    def key(self):
        return self.v, self.e, self.ins, self.outs


def family():
    """graphs with every kind of vertex, edge and free slot"""
    V = [('Z', 'a'), ('X', 'b'), ('Z', 'S'), ('B', 0), ('B', 0)]
    E = [(0, 1), (1, 2), (0, 2), (0, 3), (2, 4)]
    for i, ts in enumerate(itertools.product(' SH', repeat=3)):
        for tb in (('S', 'S'), ('H', 'S'), ('S', 'H')):
            for gap in (None, 0, 2, 5):
                es = [(a, b, t) for (a, b), t in zip(E, ts + tb) if t != ' ']
                yield mk(V, es, [3], [4], gap)


def wires(rng, n, size):
    """a random diagram with n inputs and n outputs"""
    verts, edges = [], []
    ends = []
    for _ in range(2 * n):
        verts.append(('B', 0))
    k = rng.randint(1, size)
    for i in range(k):
        verts.append((rng.choice('ZX'), rng.choice(['a', 'b', 'c', 0, 1, HALF])))
    inner = list(range(2 * n, 2 * n + k))
    free = list(range(2 * n))
    rng.shuffle(free)
    while free:
        x = free.pop()
        if free and rng.random() < .15:
            y = free.pop()
        else:
            y = rng.choice(inner)
        edges.append((x, y, rng.choice('SH')))
    pairs = list(itertools.combinations(inner, 2))
    rng.shuffle(pairs)
    for a, b in pairs[:rng.randint(0, len(pairs))]:
        edges.append((a, b, rng.choice('SSH')))
    b = list(range(2 * n))
    rng.shuffle(b)
    return verts, edges, b[:n], b[n:]


def relabel(d, by):
    """the qubit labels of the boundary vertices shifted: they carry no meaning"""
    vs = list(rget(d, 'vertices')[1])
    for i, o in enumerate(vs):
        if o[0] == 'opt':
            vs[i] = ('opt', rset(o[1], 'qubit', I(num(rget(o[1], 'qubit')) + by)))
    return rset(d, 'vertices', ('vec', tuple(vs)))


def mat(g):
    return zxmod.matrix(g)


def mul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def jobs(F, tier):
    D0 = D(F)
    J = []

    def fam_job(part):
        def j(ctx):
            for d, m in part:
                edit(ctx, d, m)
        return j

    def equal(ctx, rule, w, key, what, d, v, e, ins, outs):
        try:
            g = G(d)
            bad = None
            if g.v != v:
                bad = "leaves the vertices %s" % (g.v,)
            elif g.e != sorted(e):
                bad = "leaves the edges %s" % (g.e,)
            elif (g.ins, g.outs) != (ins, outs):
                bad = "leaves inputs %s and outputs %s" % (g.ins, g.outs)
        except zxmod.Broken as x:
            bad = "leaves an inconsistent diagram: %s" % x
        return ctx.ob(bad is None, rule, w, key, "%s %s" % (what, bad))

    def edit(ctx, d, m):
        g = G(d)
        T = text(d)

        def loc(n, k):
            return where(D0.fn(n, k)) + ' on [%s]' % T
        # listing
        with ctx.sub('listing', T):
            v, _ = D0.call('getVertices', d)
            got = [(num(rget(x, 'first')) if x[0] == 'rec' else None, rget(x, 'second') if x[0] == 'rec' else None) for x in v[1]]
            want = [(i, rget(d, 'vertices')[1][i][1]) for i in sorted(g.v)]
            ctx.ob(got == want, 'listing', loc('getVertices', 0), 'getVertices', "getVertices of [%s] lists %s" % (T, [x for x, _ in got]))
            v, _ = D0.call('getEdges', d)
            got = sorted((num(rget(x, 'first')), num(rget(x, 'second'))) if x[0] == 'rec' else (-1, -1) for x in v[1])
            ctx.ob(got == sorted((a, b) for a, b, _ in g.e), 'listing', loc('getEdges', 0), 'getEdges', "getEdges of [%s] lists %s" % (T, got))
            for n, want in (('getNVertices', len(g.v)), ('getNEdges', len(g.e)), ('getNQubits', len(g.ins)), ('getNdeleted', len(rget(d, 'deleted')[1]))):
                v, _ = D0.call(n, d)
                ctx.ob(num(v) == want, 'listing', loc(n, 0), n, "%s of [%s] is %s" % (n, T, show(v)))
        # queries
        with ctx.sub('query', T):
            n = len(rget(d, 'vertices')[1])
            v, _ = D0.call('getAdjMat', d)
            A = [[D0.ip.truth(x) for x in r[1]] if r[0] == 'vec' else None for r in v[1]] if v[0] == 'vec' else None
            want = [[i == j or any((a, b) in ((i, j), (j, i)) for a, b, _ in g.e) for j in range(n)] for i in range(n)]
            ctx.ob(A == want, 'query', loc('getAdjMat', 0), 'getAdjMat', "getAdjMat of [%s] is wrong or reads outside its rows" % T)
            for a in sorted(g.v):
                for fn, want in (('degree', sum((x == a) + (y == a) for x, y, _ in g.e)), ('isInput', a in g.ins), ('isOutput', a in g.outs), ('isDeleted', False),
                                 ('isBoundaryVertex', g.v[a][0] == 'Boundary')):
                    v, _ = D0.call(fn, d, a)
                    t = num(v) if fn == 'degree' else D0.ip.truth(v)
                    ctx.ob(t == want, 'query', loc(fn, 1), fn, "%s(%d) of [%s] is %s" % (fn, a, T, show(v)))
                for b in range(n):
                    ed = [h for x, y, h in g.e if (x, y) in ((a, b), (b, a))]
                    v, _ = D0.call('connected', d, a, b)
                    ctx.ob(D0.ip.truth(v) == bool(ed), 'query', loc('connected', 2), 'connected', "connected(%d, %d) of [%s] is %s" % (a, b, T, show(v)))
                    if b in g.v:
                        v, _ = D0.call('getEdge', d, a, b)
                        got = [] if v[0] == 'nullopt' else [rget(v[1], 'type')[2] == 'Hadamard'] if v[0] == 'opt' and num(rget(v[1], 'to')) == b else None
                        ctx.ob(got == ed, 'query', loc('getEdge', 2), 'getEdge', "getEdge(%d, %d) of [%s] is %s" % (a, b, T, show(v)))
            for s in itertools.chain(itertools.combinations(sorted(g.v), 1), itertools.combinations(sorted(g.v), 2)):
                for ex in ((), (min(g.v),), tuple(sorted(g.v))[1:3]):
                    V = lambda xs: ('vec', tuple(I(x) for x in xs))
                    v, _ = D0.call('getConnectedSet', d, V(s), V(ex))
                    want = sorted({y if x in s else x for a, b, _ in g.e for x, y in ((a, b), (b, a)) if x in s} - set(ex))
                    want = sorted({y for a, b, _ in g.e for x, y in ((a, b), (b, a)) if x in s} - set(ex))
                    got = [num(x) for x in v[1]] if v[0] == 'vec' else None
                    ctx.ob(got == want, 'query', loc('getConnectedSet', 2), 'getConnectedSet', "getConnectedSet(%s, excluding %s) of [%s] is %s" % (s, ex, T, got))
        # editing
        with ctx.sub('edit', T):
            free = [num(x) for x in rget(d, 'deleted')[1]]
            data = rec('zx::VertexData', {'col': I(3), 'qubit': I(1), 'phase': zxmod.phase('d'), 'type': zxmod.VT['X']})
            for args in ((data,), (I(1), I(3), zxmod.phase('d'), zxmod.VT['X'])):
                v, d1 = D0.call('addVertex', d, *args)
                want = dict(g.v)
                i = num(v)
                ok = i not in g.v and (i in free if free else i == len(rget(d, 'vertices')[1]))
                want[i] = ('X', round(float(GEN['d'][1]) * zxmod.PI % (2 * zxmod.PI), 9))
                ctx.ob(ok, 'edit', loc('addVertex', len(args)), 'addVertex:slot', "addVertex on [%s] returns %s" % (T, show(v)))
                equal(ctx, 'edit', loc('addVertex', len(args)), 'addVertex', "addVertex on [%s]" % T, d1, want, g.e, g.ins, g.outs)
                # its slot's former edges are gone, and it can be connected
                v2, d2 = D0.call('addEdge', d1, i, min(g.v), ETV['H'])
                a, b = sorted((i, min(g.v)))
                equal(ctx, 'edit', loc('addEdge', 3), 'addEdge', "addEdge(new, %d) on [%s]" % (min(g.v), T), d2, want, g.e + [(a, b, True)], g.ins, g.outs)
            for a, b in itertools.combinations(sorted(g.v), 2):
                ed = [x for x in g.e if x[:2] == (a, b)]
                for x, y in ((a, b), (b, a)):
                    if ed:
                        _, d1 = D0.call('removeEdge', d, x, y)
                        equal(ctx, 'edit', loc('removeEdge', 2), 'removeEdge', "removeEdge(%d, %d) on [%s]" % (x, y, T), d1, g.v, [z for z in g.e if z not in ed], g.ins, g.outs)
                    else:
                        for t in 'SH':
                            _, d1 = D0.call('addEdge', d, x, y, ETV[t])
                            equal(ctx, 'edit', loc('addEdge', 3), 'addEdge', "addEdge(%d, %d, %s) on [%s]" % (x, y, t, T), d1, g.v, g.e + [(a, b, t == 'H')], g.ins, g.outs)
                            if not ('Boundary' in (g.v[a][0], g.v[b][0])):
                                continue
                            _, d1 = D0.call('addEdgeParallelAware', d, x, y, ETV[t])
                            equal(ctx, 'edit', loc('addEdgeParallelAware', 3), 'addEdgeParallelAware:new', "addEdgeParallelAware(%d, %d, %s) on [%s]" % (x, y, t, T), d1, g.v, g.e + [(a, b, t == 'H')], g.ins, g.outs)
            inner = [v for v in sorted(g.v) if g.v[v][0] != 'Boundary']
            for a in inner:
                _, d1 = D0.call('removeVertex', d, a)
                left = {v: x for v, x in g.v.items() if v != a}
                e1 = [x for x in g.e if a not in x[:2]]
                if equal(ctx, 'edit', loc('removeVertex', 1), 'removeVertex', "removeVertex(%d) on [%s]" % (a, T), d1, left, e1, g.ins, g.outs):
                    # and the slot is reused cleanly
                    v, d2 = D0.call('addVertex', d1, data)
                    left = dict(left)
                    left[num(v)] = ('X', round(float(GEN['d'][1]) * zxmod.PI % (2 * zxmod.PI), 9))
                    equal(ctx, 'edit', loc('addVertex', 1), 'addVertex:reuse', "addVertex after removeVertex(%d) on [%s]" % (a, T), d2, left, e1, g.ins, g.outs)
                    for b in inner:
                        if b != a:
                            _, d2 = D0.call('removeVertex', d1, b)
                            equal(ctx, 'edit', loc('removeVertex', 1), 'removeVertex:two', "removeVertex(%d) and (%d) on [%s]" % (a, b, T), d2,
                                  {v: x for v, x in g.v.items() if v not in (a, b)}, [x for x in e1 if b not in x[:2]], g.ins, g.outs)
            for a in sorted(g.v):
                two = lambda p: round(p % (2 * zxmod.PI), 9) % round(2 * zxmod.PI, 9)
                old = zxmod.read(d, ENV).v[a]
                for nm, p in (('setPhase', float(GEN['e'][1]) * zxmod.PI), ('addPhase', old[1] + float(GEN['e'][1]) * zxmod.PI)):
                    _, d1 = D0.call(nm, d, a, zxmod.phase('e'))
                    want = dict(g.v)
                    want[a] = (old[0], two(p))
                    equal(ctx, 'edit', loc(nm, 2), nm, "%s(%d) on [%s]" % (nm, a, T), d1, want, g.e, g.ins, g.outs)
    fam = list(family())
    if tier != 'thorough':
        fam = fam[::5]
    for part in chunks(fam, 6):
        J.append(fam_job(part))

    # adding an edge next to existing ones: the rules for parallel edges and loops
    def par(ctx):
        f = D0.fn('addEdgeParallelAware', 3)
        for t0, t1 in itertools.product('ZX', repeat=2):
            for ex in (' ', 'S', 'H'):
                for new in 'SH':
                    for other in ((), ('H',), ('S', 'H')):
                        for a, b in ((0, 1), (1, 0)):
                            V = [(t0, 'a'), (t1, 'S'), ('Z', 'c'), ('B', 0), ('B', 0)]
                            E = [(0, 3, 'S'), (1, 4, 'S')] + [(i, 2, t) for i, t in enumerate(other)] + ([(0, 1, ex)] if ex != ' ' else [])
                            d, m = mk(V, E, [3], [4], 2)
                            ref, _ = mk(V, E + [(0, 1, new)], [3], [4], 2)
                            what = "addEdgeParallelAware(%d, %d, %s) on [%s]" % (m[a], m[b], new, text(d))
                            with ctx.sub('parallel', what):
                                v, d1 = D0.call('', d, m[a], m[b], ETV[new], f=f)
                                try:
                                    g1, g0 = G(d1), zxmod.read(ref, ENV)
                                    bad = None if zxmod.proportional(mat(g1.graph), mat(g0)) else "is not the diagram with that edge added"
                                    if bad is None and len(g1.e) != len({x[:2] for x in g1.e}):
                                        bad = "leaves parallel edges"
                                except zxmod.Broken as x:
                                    bad = "leaves an inconsistent diagram: %s" % x
                                ctx.ob(bad is None, 'parallel', where(f) + ': ' + what, 'addEdgeParallelAware', "%s %s" % (what, bad))
            for new in 'SH':
                V = [(t0, 'a'), (t1, 'b'), ('B', 0), ('B', 0)]
                E = [(0, 2, 'S'), (0, 1, 'H'), (1, 3, 'S')]
                d, m = mk(V, E, [2], [3])
                ref, _ = mk(V, E + [(0, 0, new)], [2], [3])
                what = "addEdgeParallelAware(0, 0, %s) on [%s]" % (new, text(d))
                with ctx.sub('parallel', what):
                    v, d1 = D0.call('', d, 0, 0, ETV[new], f=f)
                    try:
                        bad = None if zxmod.proportional(mat(G(d1).graph), mat(zxmod.read(ref, ENV))) else "is not the diagram with that loop added"
                    except zxmod.Broken as x:
                        bad = "leaves an inconsistent diagram: %s" % x
                    ctx.ob(bad is None, 'parallel', where(f) + ': ' + what, 'addEdgeParallelAware:loop', "%s %s" % (what, bad))
    J.append(par)

    # maps
    rng = random.Random(11)
    pool = {}
    for n in (1, 2):
        pool[n] = [wires(rng, n, 4) for _ in range(60 if tier == 'thorough' else 24)]
        pool[n] += [([('B', 0)] * (2 * n), [(i, n + i, 'S') for i in range(n)], list(range(n)), list(range(n, 2 * n))),
                    ([('B', 0)] * (2 * n), [(i, n + i, 'H') for i in range(n)], list(range(n)), list(range(n, 2 * n)))]
    pool[2].append(([('B', 0)] * 4, [(0, 3, 'S'), (1, 2, 'H')], [0, 1], [2, 3]))
    built = {n: [(mk(*x, gap=(i * 3) % (len(x[0]) + 1) if i % 2 else None, gphase=('a', 'b', 0, 1)[i % 4])[0]) for i, x in enumerate(xs)] for n, xs in pool.items()}

    def gp(d):
        return zxmod.angle(rget(d, 'globalPhase'), ENV)

    def same_angle(a, b):
        r = (a - b) % (2 * zxmod.PI)
        return min(r, 2 * zxmod.PI - r) < 1e-9

    def maps(ctx, name, what, d1, want, phase, key=None, n=0):
        f = D0.fn(name, n)
        w = where(f) + ': ' + what
        try:
            g1 = G(d1)
            bad = None
            m1 = mat(g1.graph)
            if len(m1) != len(want) or len(m1[0]) != len(want[0]) or not zxmod.proportional(m1, want):
                bad = "denotes another map"
            elif not same_angle(gp(d1), phase):
                bad = "has the global phase %.4f instead of %.4f" % (gp(d1), phase)
        except zxmod.Broken as x:
            bad = "is inconsistent: %s" % x
        ctx.ob(bad is None, 'map', w, key or name, "%s %s" % (what, bad))

    def unary(n, ds):
        def j(ctx):
            for d in ds:
                g = zxmod.read(d, ENV)
                M0 = mat(g)
                T = text(d)
                adj = [[complex(x).conjugate() for x in c] for c in zip(*M0)]
                with ctx.sub('map', T):
                    v, d1 = D0.call('adjoint', d)
                    maps(ctx, 'adjoint', "adjoint of [%s]" % T, v, adj, -gp(d))
                    ctx.ob(d1 == d, 'map', where(D0.fn('adjoint', 0)) + ': ' + T, 'adjoint:const', "adjoint of [%s] changes the diagram itself" % T)
                    v, d1 = D0.call('invert', d)
                    maps(ctx, 'invert', "inverse of [%s]" % T, d1, adj, -gp(d))
                    v, d1 = D0.call('toGraphlike', d)
                    maps(ctx, 'toGraphlike', "graph-like form of [%s]" % T, d1, M0, gp(d))
                    ctx.ob(all(t in ('Z', 'Boundary') for t, _ in zxmod.read(d1, ENV).v.values()), 'map', where(D0.fn('toGraphlike', 0)) + ': ' + T, 'toGraphlike:form',
                           "graph-like form of [%s] has X spiders" % T)
                    v, d1 = D0.call('removeDisconnectedSpiders', d)
                    keep, todo = set(g.ins + g.outs), list(g.ins + g.outs)
                    while todo:
                        x = todo.pop()
                        for a, b, _ in g.e:
                            for y in ((b,) if a == x else (a,) if b == x else ()):
                                if y not in keep:
                                    keep.add(y)
                                    todo.append(y)
                    m = G(d)
                    equal(ctx, 'map', where(D0.fn('removeDisconnectedSpiders', 0)) + ': ' + T, 'removeDisconnectedSpiders', "removeDisconnectedSpiders on [%s]" % T, d1,
                          {v: x for v, x in m.v.items() if v in keep}, [x for x in m.e if x[0] in keep], m.ins, m.outs)
                    v, d1 = D0.call('isIdentity', d)
                    t = D0.ip.truth(v)
                    isid = sorted((a, b, h) for a, b, h in g.e) == sorted((min(a, b), max(a, b), False) for a, b in zip(g.ins, g.outs)) and same_angle(gp(d), 0)
                    ctx.ob(t == isid, 'map', where(D0.fn('isIdentity', 0)) + ': ' + T, 'isIdentity', "isIdentity of [%s] is %s" % (T, show(v)))
                    v, d1 = D0.call('addGlobalPhase', d, zxmod.phase('f'))
                    maps(ctx, 'addGlobalPhase', "addGlobalPhase on [%s]" % T, d1, M0, gp(d) + float(GEN['f'][1]) * zxmod.PI, n=1)
                    for q in range(n):
                        for r in range(n):
                            v, d1 = D0.call('makeAncilla', d, q, r)
                            P = proj(M0, q, r, n)
                            maps(ctx, 'makeAncilla', "makeAncilla(%d, %d) on [%s]" % (q, r, T), d1, P, gp(d), n=2)
                            if q == r:
                                v, d1 = D0.call('makeAncilla', d, q)
                                maps(ctx, 'makeAncilla', "makeAncilla(%d) on [%s]" % (q, T), d1, P, gp(d), n=1)
        return j

    def proj(M0, q, r, n):
        """input q and output r fixed to zero"""
        rows = [i for i in range(1 << n) if not i >> r & 1]
        cols = [i for i in range(1 << n) if not i >> q & 1]
        return [[M0[i][k] for k in cols] for i in rows]

    def binary(n, pairs):
        def j(ctx):
            f, g = D0.fn('concat', 1), [x for x in F.fns(CLS + 'operator+=') if len(x['ps']) == 1][0]
            for a, b in pairs:
                gb = zxmod.read(b, ENV)
                if any(x in gb.ins and y in gb.ins for x, y, _ in gb.e):
                    continue        # inputs wired to each other
                what = "[%s] then [%s]" % (text(a), text(b))
                with ctx.sub('map', what):
                    want = mul(mat(zxmod.read(b, ENV)), mat(zxmod.read(a, ENV)))
                    for k, fn, b1 in (('concat', f, b), ('operator+=', g, b), ('concat:labels', f, relabel(b, 2))):
                        v, d1 = D0.call('', a, b1, f=fn)
                        maps(ctx, 'concat', what, d1, want, gp(a) + gp(b), key=k, n=1)
        return j
    for n in (1, 2):
        for part in chunks(built[n], 6):
            J.append(unary(n, part))
        ds = built[n]
        pr = [(ds[i], ds[(i * 5 + s) % len(ds)]) for i in range(len(ds)) for s in (1, 2)] + [(ds[-1], ds[-2]), (ds[-2], ds[-1]), (ds[-2], ds[-2])]
        for part in chunks(pr, 12):
            J.append(binary(n, part))

    def special(ctx):
        for n in range(4):
            f = F.fns(CLS + 'ZXDiagram')
            f = [x for x in f if len(x['ps']) == 1 and 'ZXDiagram' not in x['ps'][0]['t']][0]
            with ctx.sub('map', 'ZXDiagram(%d)' % n):
                d0, _ = mk([], [], [], [])
                v, d1 = D0.call('', d0, n, f=f)
                try:
                    g = G(d1)
                    ok = zxmod.proportional(mat(g.graph), sem.eye(1 << n)) and len(g.v) == 2 * n and len(g.e) == n
                    t = D0.ip.truth(D0.call('isIdentity', d1)[0])
                except zxmod.Broken as x:
                    ok = t = False
                ctx.ob(ok and t is True, 'map', where(f), 'ZXDiagram(n)', "ZXDiagram(%d) is not the identity on %d qubits" % (n, n))
                v, _ = D0.call('getEdges', d1)
                ctx.ob(v[0] == 'vec' and len(v[1]) == n, 'listing', where(D0.fn('getEdges', 0)), 'getEdges:id', "getEdges of ZXDiagram(%d) is %s" % (n, show(v)))
            with ctx.sub('map', 'addQubits(%d)' % n):
                d0, _ = mk([('B', 0), ('Z', 'a'), ('B', 0)], [(0, 1, 'S'), (1, 2, 'H')], [0], [2], 1)
                v, d1 = D0.call('addQubits', d0, n)
                try:
                    g = G(d1)
                    g0 = G(d0)
                    new = [x for x in g.v if x not in g0.v]
                    ok = len(new) == 2 * n and all(g.v[x][0] == 'Boundary' for x in new) and g.e == g0.e and g.ins[:1] == g0.ins and g.outs[:1] == g0.outs and \
                        sorted(g.ins[1:] + g.outs[1:]) == sorted(new) and len(g.ins) == len(g.outs) == n + 1
                except zxmod.Broken as x:
                    ok = False
                ctx.ob(ok, 'edit', where(D0.fn('addQubits', 1)), 'addQubits', "addQubits(%d) does not add %d inputs and outputs" % (n, n))
        d1 = [x for x in built[1]][:1][0]
        d2 = [x for x in built[2]][:1][0]
        for a, b in ((d1, d2), (d2, d1)):
            v, _ = D0.call('concat', a, b)
            ctx.ob(v == ('throwv', 'zx::ZXException'), 'map', where(D0.fn('concat', 1)), 'concat:size', "concat of diagrams with different numbers of qubits gives %s" % show(v)[:80])
        # the empty diagram
        d0, _ = mk([], [], [], [])
        for nm in ('getEdges', 'getVertices'):
            with ctx.sub('listing', nm + ' of the empty diagram'):
                v, _ = D0.call(nm, d0)
                ctx.ob(v == ('vec', ()), 'listing', where(D0.fn(nm, 0)), nm + ':empty', "%s of the empty diagram is %s" % (nm, show(v)[:60]))
        for nm in ('begin', 'end'):
            f = F.fn('zx::Edges::' + nm)
            with ctx.sub('listing', 'Edges::%s of the empty diagram' % nm):
                ip = D0.ip
                st = State()
                l, l2 = ip.new_root(st, ('vec', ())), ip.new_root(st, ('vec', ()))
                rs = list(ip.run(f, [], this=rec('zx::Edges', {'edges': ('refm', l), 'vertices': ('refm', l2)}), st=st))
                bad = len(rs) != 1 or rs[0][1][0] != 'return' or any(t in repr(rs[0][1][1]) for t in ("'oob'", "'back'", "'front'"))
                ctx.ob(not bad, 'listing', where(f), 'EdgeIterator:empty', "Edges::%s of an empty diagram reads a missing adjacency list" % nm)
        # rounding
        for base in (0, HALF, -HALF, 1):
            for eps in (0, Fraction(1, 10 ** 5), -Fraction(1, 10 ** 5), Fraction(1, 100), -Fraction(1, 100)):
                p = base + eps
                p = p - 2 if p > 1 else p
                d, _ = mk([('Z', p), ('X', 'S'), ('B', 0)], [(0, 1, 'S'), (0, 2, 'H')], [2], [])
                with ctx.sub('map', 'approximateCliffords'):
                    v, d1 = D0.call('approximateCliffords', d, Fl(1e-4))
                    q = rget(rget(rget(rget(d1, 'vertices')[1][0][1], 'phase'), 'constant'), 'frac')
                    want = base if abs(eps) < Fraction(1, 1000) else p
                    ok = q == ('q', Fraction(want)) and rget(d1, 'vertices')[1][1:] == rget(d, 'vertices')[1][1:] and rget(d1, 'edges') == rget(d, 'edges')
                    ctx.ob(ok, 'map', where(D0.fn('approximateCliffords', 1)), 'approximateCliffords', "approximateCliffords(1e-4) turns the phase %s pi into %s" % (p, show(q)))
    J.append(special)
    return J


def check(ctx):
    ctx.rule("listing", "vertices, edges and counts are listed exactly, whatever slots are free")
    ctx.rule("query", "connectivity queries describe the graph")
    ctx.rule("edit", "adding and removing vertices and edges changes exactly that, and freed slots are reused cleanly")
    ctx.rule("parallel", "adding an edge parallel to another, or a loop, gives the diagram with that edge (up to a scalar) without parallel edges")
    ctx.rule("map", "adjoint, concatenation, ancillas, graph-like form and the identity test agree with the linear maps and global phases")
    F = load(ctx, ['ir', 'zx'])
    parallel(ctx, jobs(F, ctx.tier))
    for r, n in (('listing', 100), ('query', 500), ('edit', 300), ('parallel', 100), ('map', 200)):
        ctx.need(r, n)
