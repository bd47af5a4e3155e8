"""Rewriting of ZX-diagrams."""
from rules.common import *
import itertools
from fractions import Fraction
import sem, zxmod
from zxmod import mk
from rules.Z01 import Tr, SYMS

HALF = Fraction(1, 2)
VERTEX = [('checkIdSimp', 'removeId'), ('checkLocalComp', 'localComp')]
EDGE = [('checkSpiderFusion', 'fuseSpiders'), ('checkPivotPauli', 'pivotPauli'), ('checkPivot', 'pivot'), ('checkPivotGadget', 'pivotGadget')]
DRIVERS = ['idSimp', 'spiderSimp', 'localCompSimp', 'pivotPauliSimp', 'pivotSimp', 'pivotgadgetSimp', 'gadgetSimp', 'interiorCliffordSimp', 'cliffordSimp', 'fullReduce']


class M:
    def __init__(self, F):
        self.F = F
        self.ip = Interp(F, hooks=zxmod.listing_hooks(zxmod.hooks()))
        self.ip.max_rec = 4
        self.ip.max_iter = 600
        self.ip.max_secs = 120
        self.ip.max_steps = 40000000

    def call(self, name, d, *vs):
        f = self.F.fn('zx::' + name)
        rs = list(self.ip.run(f, [d] + [I(v) if isinstance(v, int) else v for v in vs]))
        if len(rs) != 1:
            raise AnalysisError("%d outcomes of %s" % (len(rs), name))
        s, oc, fr, tl = rs[0]
        return oc, self.ip.load(s, self.ip.lookup(s, fr, f['ps'][0]['id']))

    def yes(self, oc, name):
        t = self.ip.truth(oc[1]) if oc[0] == 'return' else None
        if t is None:
            raise AnalysisError("%s is not decided: %s" % (name, oc))
        return t


def text(d):
    """short description of a diagram"""
    out = []
    ins, outs = [num(x) for x in rget(d, 'inputs')[1]], [num(x) for x in rget(d, 'outputs')[1]]
    for i, o in enumerate(rget(d, 'vertices')[1]):
        if o[0] != 'opt':
            continue
        t = rget(o[1], 'type')[2]
        p = rget(rget(rget(o[1], 'phase'), 'constant'), 'frac')
        n = '%d:%s' % (i, {'Boundary': 'in' if i in ins else 'out'}.get(t, t))
        if t != 'Boundary':
            n += '(%s%s)' % (p[1] if p[0] == 'q' else '?', '+x' if rget(rget(o[1], 'phase'), 'terms')[1] else '')
        n += ''.join('%s%d' % ('~' if rget(x, 'type')[2] == 'Hadamard' else '-', num(rget(x, 'to'))) for x in rget(d, 'edges')[1][i][1] if num(rget(x, 'to')) >= i)
        out.append(n)
    return ' '.join(out)


def compare(ctx, rule, w, key, what, d0, d1, env, ref=None):
    try:
        g0 = zxmod.read(d0, env) if ref is None else None
        g1 = zxmod.read(d1, env)
        a = zxmod.matrix(g0) if ref is None else ref
        bad = None
        if not zxmod.proportional(zxmod.matrix(g1), a):
            bad = "changes the linear map"
        elif g1.ne != len(g1.e):
            bad = "leaves %d edges counted as %s" % (len(g1.e), g1.ne)
    except zxmod.Broken as e:
        bad = "leaves an inconsistent diagram: %s" % e
    ctx.ob(bad is None, rule, w, key, "%s %s" % (what, bad))
    return bad is None


def family_colour():
    """three spiders of both colours with boundaries"""
    for ts in itertools.product('ZX', repeat=3):
        for es in itertools.product(' SH', repeat=3):
            for bs in (('S', 'S', 'S'), ('H', '', 'S'), ('', 'H', 'S'), ('', '', 'H')):
                for ps in ((0, 0), (0, 'a'), ('a', 'b'), (1, 'S')):
                    yield ts, es, bs, ps


def make(ts, es, bs, ps, gap=None):
    n = len(ts)
    verts = [(t, p) for t, p in zip(ts, ps)]
    edges = [(a, b, e) for (a, b), e in zip(itertools.combinations(range(n), 2), es) if e != ' ']
    ins, outs = [], []
    for i, b in enumerate(bs):
        if b:
            v = len(verts)
            verts.append(('B', 0))
            edges.append((i, v, b))
            (outs if len(ins) > len(outs) else ins).append(v)
    return mk(verts, edges, ins, outs, gap)


def family_graph(tier):
    """four Z spiders, vertex 0 and 1 with every kind of phase"""
    P = [0, 1, HALF, -HALF, 'a', 'S']
    B = [tuple('S' if m >> i & 1 else '' for i in range(4)) for m in range(16)] + [('H', '', 'S', 'S'), ('', 'H', 'S', 'S'), ('H', 'H', 'S', '')]
    for es in itertools.product(' H', repeat=6):
        for bs in B:
            for p0 in P:
                for p1 in P:
                    yield es, bs, p0, p1
    for k in range(6):
        for es in itertools.product(' H', repeat=5):
            es = es[:k] + ('S',) + es[k:]
            for bs in (('', '', 'S', 'S'), ('S', '', 'S', 'S'), ('', 'S', '', 'S')):
                for p0, p1 in ((0, 0), (0, 1), (HALF, 0), (0, 'a'), (1, HALF)):
                    yield es, bs, p0, p1


def family_gadget(tier='quick'):
    """two phase gadgets on up to three wires and everything one edit away"""
    for k in (1, 2, 3):
        for h0, h1 in itertools.product((0, 1, HALF, 'c'), repeat=2):
            for order in (0, 1, 2):
                base = dict(k=k, h0=h0, h1=h1, order=order, drop=(), styp=(), extra=(), noB=(), swapleaf=False, third=None)
                yield base
                # hubs without a wire: attached to the other's hub, to a boundary, or to nothing
                yield dict(base, drop=tuple(('h0', 't%d' % i) for i in range(k)), extra=(('h0', 'b', 'H'),))
                yield dict(base, drop=tuple(('h0', 't%d' % i) for i in range(k)), extra=(('h0', 'b', 'S'),))
                yield dict(base, drop=tuple(('h0', 't%d' % i) for i in range(k)), extra=(('h0', 'h1', 'H'),))
                if order == 0 or (h0, h1) in ((0, 0), (1, 1)):
                    for e in [('l0', 'h0'), ('l1', 'h1')] + [('h0', 't%d' % i) for i in range(k)] + [('h1', 't%d' % i) for i in range(k)] + [('t%d' % i, 'b%d' % i) for i in range(k)]:
                        yield dict(base, styp=(e,))
                        if e[0] != 't0':
                            yield dict(base, drop=(e,))
                if (h0, h1) in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    for e in [('h0', 'h1'), ('l0', 'l1'), ('l0', 'h1'), ('l1', 't0'), ('h1', 'b'), ('h0', 'b'), ('l1', 'b'), ('l0', 'b')]:
                        yield dict(base, extra=(e + ('H',),))
                        yield dict(base, extra=(e + ('S',),))
                    yield dict(base, noB=tuple(range(k)))
                    for i in range(k):
                        yield dict(base, noB=(i,))
                    for third in ((0,), tuple(range(k)), tuple(range(1, k))):
                        yield dict(base, third=third)
                        yield dict(base, third=third, drop=(('h1', 't%d' % (k - 1)),))
                        yield dict(base, third=third, drop=(('l1', 'h1'),))


def gadget(s):
    names, verts, edges, ins, outs = {}, [], [], [], []

    def V(n, t, p):
        names[n] = len(verts)
        verts.append((t, p))
    k = s['k']
    order = ['l0', 'h0', 'l1', 'h1'] + ['t%d' % i for i in range(k)] + ['b%d' % i for i in range(k)]
    if s['order'] == 1:
        order = order[::-1]
    if s['order'] == 2:
        order = ['t%d' % i for i in range(k)] + ['h1', 'h0', 'l0', 'l1'] + ['b%d' % i for i in range(k)]
    ph = {'l0': 'a', 'l1': 'b', 'h0': s['h0'], 'h1': s['h1'], 't0': 'd', 't1': 'e', 't2': 'f'}
    for n in order:
        if n[0] == 'b':
            if int(n[1:]) in s['noB']:
                continue
            V(n, 'B', 0)
            (outs if len(ins) > len(outs) else ins).append(names[n])
        else:
            V(n, 'Z', ph[n])
    if s['third'] is not None:
        V('l2', 'Z', 'g')
        V('h2', 'Z', 0)
    E = [('l0', 'h0', 'H'), ('l1', 'h1', 'H')] + [('h0', 't%d' % i, 'H') for i in range(k)] + [('h1', 't%d' % i, 'H') for i in range(k)]
    if s['order'] == 2:
        E = E[::-1]
    E += [('t%d' % i, 'b%d' % i, 'S') for i in range(k) if i not in s['noB']]
    if s['third'] is not None:
        E += [('l2', 'h2', 'H')] + [('h2', 't%d' % i, 'H') for i in s['third']]
    E = [e for e in E if e[:2] not in s['drop']]
    E = [(a, b, 'S' if t == 'H' else 'H') if (a, b) in s['styp'] else (a, b, t) for a, b, t in E]
    for a, b, t in s['extra']:
        if b == 'b':
            b = 'bx'
            V(b, 'B', 0)
            (outs if len(ins) > len(outs) else ins).append(names[b])
        E.append((a, b, t))
    return mk(verts, [(names[a], names[b], t) for a, b, t in E], ins, outs)[0], names


def jobs(F, tier):
    m = M(F)
    J = []
    env = zxmod.ANG

    def loc(name):
        return where(F.fn('zx::' + name))

    def rewrite(ctx, chk, rule, d, vs):
        oc, d1 = m.call(chk, d, *vs)
        if not m.yes(oc, chk):
            return False
        what = "%s at %s of [%s]" % (rule, ','.join(map(str, vs)), text(d))
        with ctx.sub('rewrite', what):
            oc, d1 = m.call(rule, d, *vs)
            if oc[0] == 'throw':
                ctx.bad('rewrite', loc(rule) + ': ' + what, rule + ':throws', what + " throws " + str(oc[1]))
            else:
                compare(ctx, 'rewrite', loc(rule) + ': ' + what, rule, what, d, d1, env)
        return True

    for part in chunks(family_colour(), 250):
        def j(ctx, part=part):
            for ts, es, bs, ps in part:
                d, mp = make(ts, es, bs, ps + ('c',), 1 if ts[0] == 'X' else None)
                with ctx.sub('rewrite', text(d)):
                    rewrite(ctx, 'checkIdSimp', 'removeId', d, [mp[0]])
                    for a, b in ((0, 1), (1, 0)):
                        rewrite(ctx, 'checkSpiderFusion', 'fuseSpiders', d, [mp[a], mp[b]])
        J.append(j)

    def ident(ctx):
        for t in 'ZX':
            for e0, e1 in itertools.product('SH', repeat=2):
                d, _ = mk([(t, 0), ('B', 0), ('B', 0)], [(0, 1, e0), (0, 2, e1)], [1], [2])
                rewrite(ctx, 'checkIdSimp', 'removeId', d, [0])
                for t1 in 'ZX':
                    for e2 in 'SH':
                        d, _ = mk([(t, 0), (t1, 'a'), ('B', 0), ('B', 0)], [(0, 2, e0), (0, 1, e1), (1, 3, e2)], [2], [3])
                        rewrite(ctx, 'checkIdSimp', 'removeId', d, [0])
        # boundaries are never rewritten
        for p in (0,):
            d, _ = mk([('B', 0), ('B', 0)], [(0, 1, 'S')], [0], [1])
            for chk, rule in VERTEX:
                rewrite(ctx, chk, rule, d, [0])
            for chk, rule in EDGE:
                rewrite(ctx, chk, rule, d, [0, 1])
            for e0, e1 in itertools.product('SH', repeat=2):
                d, _ = mk([('Z', 'a'), ('B', 0), ('B', 0)], [(0, 1, e0), (0, 2, e1)], [1], [2])
                for chk, rule in VERTEX:
                    for v in range(3):
                        rewrite(ctx, chk, rule, d, [v])
                for chk, rule in EDGE:
                    for v, u in itertools.permutations(range(3), 2):
                        rewrite(ctx, chk, rule, d, [v, u])
    J.append(ident)

    fam = list(family_graph(tier))
    if tier != 'thorough':
        # the phases and boundaries of the other vertex matter only for the rules on pairs
        fam = [x for i, x in enumerate(fam) if x[0][0] == 'H' or x[3] == 0]
        fam = [x for i, x in enumerate(fam) if i % 4 == 0 or x[2] in (0, 1) and x[3] in (0, 1) and i % 2 == 0]
    for part in chunks(fam, 400):
        def j(ctx, part=part):
            for es, bs, p0, p1 in part:
                d, mp = make('ZZZZ', es, bs, (p0, p1, 'c', 'd'), 2 if bs[0] else None)
                with ctx.sub('rewrite', text(d)):
                    if p1 == 0 or es[0] != 'H':
                        rewrite(ctx, 'checkLocalComp', 'localComp', d, [mp[0]])
                    if es[0] != ' ':
                        for chk, rule in EDGE[1:]:
                            rewrite(ctx, chk, rule, d, [mp[0], mp[1]])
        J.append(j)

    gad = list(family_gadget())
    for part in chunks(gad, 60):
        def j(ctx, part=part):
            for s in part:
                d, names = gadget(s)
                for leaf in ('l0', 'l1'):
                    what = "checkAndFuseGadget at %d of [%s]" % (names[leaf], text(d))
                    with ctx.sub('gadget', what):
                        oc, d1 = m.call('checkAndFuseGadget', d, names[leaf])
                        t = m.yes(oc, 'checkAndFuseGadget')
                        if not t:
                            ctx.ob(d1 == d, 'gadget', loc('checkAndFuseGadget') + ': ' + what, 'checkAndFuseGadget:refused', what + " changes the diagram and reports no match")
                        else:
                            compare(ctx, 'gadget', loc('checkAndFuseGadget') + ': ' + what, 'checkAndFuseGadget', what, d, d1, env)
        J.append(j)

    # the strategies on the diagrams of circuits
    T = Tr(F)
    T.ip = m.ip

    def circ(ctx, name, ops, n, drivers):
        recs, acc, res = T.run(ops, {i: i for i in range(n)}, n)
        if len(res) != 1 or res[0][1][0] != 'return':
            raise AnalysisError("diagram of %s not decided" % name)
        d = res[0][1][1]
        for dr in drivers:
            what = "%s of %s" % (dr, name)
            with ctx.sub('strategy', what):
                d0 = d
                if dr not in ('idSimp', 'spiderSimp', 'fullReduce'):
                    # these expect what interiorCliffordSimp and toGraphlike make
                    rs = list(m.ip.run(F.fn('zx::ZXDiagram::toGraphlike'), [], this=d))
                    if len(rs) != 1:
                        raise AnalysisError("toGraphlike forks")
                    d0 = m.ip.load(rs[0][0], rs[0][3])
                    oc, d0 = m.call('spiderSimp', d0)
                oc, d1 = m.call(dr, d0)
                w = loc(dr) + ': ' + what
                if oc[0] != 'return':
                    ctx.bad('strategy', w, dr + ':throws', what + " ends with %s" % (oc,))
                    continue
                if compare(ctx, 'strategy', w, dr, what, d, d1, env):
                    changed = d1 != d0
                    k = num(oc[1])
                    ctx.ob(k is not None and (k > 0 or not changed or dr in ('interiorCliffordSimp', 'cliffordSimp', 'fullReduce')), 'strategy', w, dr + ':count',
                           what + " reports %s simplifications" % show(oc[1]))
                    if dr == 'fullReduce':
                        g = zxmod.read(d1, env)
                        inner = [v for v, (t, p) in g.v.items() if t != 'Boundary']
                        reach = set(g.ins + g.outs)
                        todo = list(reach)
                        while todo:
                            x = todo.pop()
                            for a, b, _ in g.e:
                                for y in ((b,) if a == x else (a,) if b == x else ()):
                                    if y not in reach:
                                        reach.add(y)
                                        todo.append(y)
                        ok = all(v in reach for v in inner) and all(g.v[v][0] == 'Z' for v in inner)
                        ctx.ob(ok, 'strategy', w, 'fullReduce:form', what + " leaves X spiders or spiders without connection to the boundary")

    from rules.Z02_circuits import circuits
    cs = list(circuits(tier))
    for part in chunks(cs, 6):
        def j(ctx, part=part):
            for name, n, ops in part:
                with ctx.sub('strategy', name):
                    circ(ctx, name, ops, n, ['fullReduce'] if name.startswith('random') else DRIVERS)
        J.append(j)
    # and on graph-like diagrams that are not circuits
    gl = [x for x in family_graph(tier) if 'S' not in x[0] and sum(map(bool, x[1])) >= 2]
    gl = [x for i, x in enumerate(gl) if i % (29 if tier == 'thorough' else 211) == 0]
    for part in chunks(gl, 20):
        def j(ctx, part=part):
            for es, bs, p0, p1 in part:
                d, mp = make('ZZZZ', es, bs, (p0, p1, HALF if p0 == 'a' else 0, 'd' if p1 == 'a' else 1), None)
                if zxmod.zero(zxmod.matrix(zxmod.read(d, env))):
                    continue        # no linear map to keep: every diagram is that one times zero
                what = "fullReduce of [%s]" % text(d)
                with ctx.sub('strategy', what):
                    oc, d1 = m.call('fullReduce', d)
                    w = loc('fullReduce') + ': ' + what
                    if oc[0] != 'return':
                        ctx.bad('strategy', w, 'fullReduce:throws', what + " ends with %s" % (oc,))
                        continue
                    compare(ctx, 'strategy', w, 'fullReduce:graph', what, d, d1, env)
        J.append(j)
    return J


def check(ctx):
    ctx.rule("rewrite", "a rewrite rule applied where its check accepts keeps the diagram's linear map up to a scalar and its bookkeeping consistent")
    ctx.rule("gadget", "fusing phase gadgets does so too, and changes nothing where it reports no match")
    ctx.rule("strategy", "every simplification strategy keeps the linear map of a circuit's diagram up to a scalar, ends, and full reduction leaves only Z spiders connected to the boundary")
    F = load(ctx, ['ir', 'zx'])
    parallel(ctx, jobs(F, ctx.tier))
    for r, n in (('rewrite', 1500), ('gadget', 500), ('strategy', 200)):
        ctx.need(r, n)
