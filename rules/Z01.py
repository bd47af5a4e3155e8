"""Translation of circuits to ZX-diagrams."""
from rules.common import *
import itertools, math
import sem, opsem, zxmod
from ops import World
from rules.I09 import circuit

SYMS = [sym('p0'), sym('p1'), sym('p2')]
VX, VY, VZ = 0.8372, -1.2251, 0.4419
NS = 'zx::FunctionalityConstruction'


def env_of(pt, W=None):
    e = dict(zip(SYMS, pt))
    return e


def ref_unitary(W, r, env, lay, n):
    """unitary of an operation record on the logical qubits"""
    ty = opsem.tname(r)
    if ty in ('Barrier', 'Measure', 'I'):
        return sem.eye(1 << n)
    if ty == 'Compound':
        u = sem.eye(1 << n)
        for p in rget(r, 'ops')[1]:
            u = sem.mm(ref_unitary(W, W.store[p[1][0]], env, lay, n), u)
        return u
    ps = opsem.params(r, env)
    k = sem.REF[ty][0]
    ts = [lay[q] for q in opsem.qubits(rget(r, 'targets'))]
    m = sem.ref(ty, ps)
    cs = [(lay[q], p) for q, p in opsem.controls(rget(r, 'controls'))]
    return sem.embed(m, ts if k else [], n, cs)


def mirror(W, r, env, lay, n):
    ty = opsem.tname(r)
    if ty not in ('XXplusYY', 'XXminusYY') or rget(r, 'controls')[1]:
        return None
    th, be = opsem.params(r, env)
    th = math.remainder(th, 2 * math.pi)
    m = sem.ref(ty, [-th, -be if ty == 'XXplusYY' else be])
    return sem.embed(m, [lay[q] for q in opsem.qubits(rget(r, 'targets'))], n, [])


class Tr:
    def __init__(self, F):
        self.F = F
        self.ip = Interp(F, hooks=zxmod.hooks())
        self.build = F.fn(NS + '::buildFunctionality')
        self.ok = [f for f in F.fns(NS + '::transformableToZX') if 'QuantumComputation' in f['ps'][0]['t']][0]
        self.W = World(F)
        self.ip.max_rec = 6

    def run(self, ops, lay, n):
        """(accepted, [(pc, diagram or thrown type)])"""
        W = self.W
        W.store, W.n = {}, 0
        recs = ops(W)
        c = circuit(lay, 1, ops=[W.put(o) for o in recs])
        st = W.state()
        p = ('ptr', self.ip.new_root(st, c))
        acc = set()
        for s, oc, fr, _ in self.ip.run(self.ok, [p], st=st.copy()):
            t = self.ip.truth(oc[1]) if oc[0] == 'return' else None
            if t is None:
                raise AnalysisError("transformableToZX is not decided: %s" % (oc,))
            acc.add(t)
        if len(acc) != 1:
            raise AnalysisError("transformableToZX is not decided")
        res = []
        for s, oc, fr, _ in self.ip.run(self.build, [p], st=st.copy()):
            res.append((s.pc, oc))
        return recs, acc.pop(), res


def label_of(W, r):
    t = opsem.tname(r)
    if t == 'Compound':
        return '{' + '; '.join(label_of(W, W.store[p[1][0]]) for p in rget(r, 'ops')[1]) + '}'
    if t == 'ClassicControlled':
        return 'if(..) ' + label_of(W, W.store[rget(r, 'op')[1][0]])
    cs = ''.join(('+' if p else '-') + str(q) for q, p in opsem.controls(rget(r, 'controls')))
    sy = '~' if rget(r, 'symbolicParameter') is not None else ''
    return '%s%s%s(%s)' % (sy, t, '[' + cs + ']' if cs else '', ','.join(str(q) for q in opsem.qubits(rget(r, 'targets'))))


def key_of(W, r):
    t = opsem.tname(r)
    if t == 'Compound':
        return '{' + ';'.join(key_of(W, W.store[p[1][0]]) for p in rget(r, 'ops')[1]) + '}'
    if t == 'ClassicControlled':
        return 'if ' + key_of(W, W.store[rget(r, 'op')[1][0]])
    cs = ''.join('+' if p else '-' for q, p in opsem.controls(rget(r, 'controls')))
    sy = '~' if rget(r, 'symbolicParameter') is not None else ''
    return cs + sy + t


def one(ctx, T, rule, ops, lay, n, points, symenv, must=None):
    F, W = T.F, T.W
    try:
        recs, acc, res = T.run(ops, lay, n)
    except RecursionError:
        raise AnalysisError("interpreter recursion")
    lab = '; '.join(label_of(W, r) for r in recs) or 'empty circuit'
    if lay != {i: i for i in range(n)}:
        lab += ' with layout %s' % lay
    key = 'zx:' + ';'.join(key_of(W, r) for r in recs)
    w = where(T.build) + ': ' + lab
    if must is not None and acc != must:
        ctx.bad(rule, where(T.ok) + ': ' + lab, key + ':transformable', "transformableToZX says %s for %s" % ('yes' if acc else 'no', lab))
        return
    if not acc:
        ctx.ob(all(oc[0] == 'throw' for _, oc in res), 'reject', w, key + ':accepted', "buildFunctionality translates %s, which transformableToZX rejects" % lab)
        return
    bad = None
    seen = False
    for pt in points:
        env = env_of(pt)
        env.update(symenv)
        us = [ref_unitary(W, r, env, lay, n) for r in recs]
        u = sem.eye(1 << n)
        for x in us:
            u = sem.mm(x, u)
        live = [oc for pc, oc in res if sem.holds(pc, env)]
        if len(live) != 1:
            raise AnalysisError("%d paths at one point for %s" % (len(live), lab))
        oc = live[0]
        seen = True
        if oc[0] == 'throw':
            bad = "throws"
            break
        try:
            g = zxmod.read(oc[1], env)
            if len(g.ins) != n or len(g.outs) != n:
                bad = "a diagram with %d inputs and %d outputs" % (len(g.ins), len(g.outs))
            elif not zxmod.proportional(zxmod.matrix(g), u):
                bad = "a diagram with another linear map at %s" % (tuple(round(x, 4) for x in pt),)
                mirrored = [mirror(W, r, env, lay, n) for r in recs]
                if None not in mirrored and zxmod.proportional(zxmod.matrix(g), mirrored[0]):
                    # one recognisable deviation: the rotation has the opposite sense
                    key = 'zx:' + opsem.tname(recs[0]) + ':sense'
            elif g.ne is not None and g.ne != len(g.e):
                bad = "a diagram with %d edges that counts %d" % (len(g.e), g.ne)
        except zxmod.Broken as e:
            bad = "an inconsistent diagram: %s" % e
        if bad:
            break
    if not seen:
        raise AnalysisError("no point")
    ctx.ob(bad is None, rule, w, key, "buildFunctionality turns %s into %s" % (lab, bad))


def gates():
    for ty, (nt, npar, _) in sem.REF.items():
        yield ty, nt, npar


def single(nc):
    """(controls, targets) placements of one gate"""
    out = []
    for pol in itertools.product((True, False), repeat=nc):
        out.append(pol)
    return out


def jobs(F):
    T = Tr(F)
    J = []
    ID3 = {0: 0, 1: 1, 2: 2}
    PTS = sem.POINTS
    SE = {}

    def gate(ty, nt, npar, pol, place, lay, symb=False, pts=None):
        def ops(W):
            cs = [(q, p) for q, p in zip(place[nt:], pol)]
            ts = list(place[:nt])
            if symb:
                # every parameter a multiple of a variable plus a constant
                sp = [(c, v, k) for c, v, k in ((2., 'x', .5), (1., 'y', -.75), (-.5, 'z', 2.9))][:npar]
                return [W.symb(ty, ts, cs, [0.] * npar, sp)]
            return [W.std(ty, ts, cs, SYMS[:npar])]
        return ops

    syme = {}
    W = T.W
    for nme, v in (('x', VX), ('y', VY), ('z', VZ)):
        syme[W.var(nme)] = v
    for ty, nt, npar in gates():
        def j(ctx, ty=ty, nt=nt, npar=npar):
            for nc in range(0, 4):
                if nt + nc > 3 and nc < 3:
                    continue
                for pol in single(nc):
                    n = max(3, nt + nc)
                    places = list(itertools.permutations(range(3), nt + nc)) if nt + nc <= 3 else [tuple(range(nt + nc))]
                    if not nt and not nc:
                        places = [()]
                    # all placements for uncontrolled and singly controlled gates
                    for pl in places[:6] if nc < 2 else places[::2] if nc == 2 else places[:1]:
                        lay = {i: i for i in range(n)}
                        with ctx.sub('gate', ty):
                            one(ctx, T, 'gate', gate(ty, nt, npar, pol, pl, lay), lay, n, PTS if npar else PTS[:1], {})
                    with ctx.sub('layout', ty):
                        lay = {0: 2, 1: 0, 2: 1} if n == 3 else {0: 1, 1: 0, 2: 3, 3: 2, 4: 4}
                        lay = {k: v for k, v in lay.items() if k < n}
                        if n > 4:
                            lay = {i: i for i in range(n)}
                        one(ctx, T, 'layout', gate(ty, nt, npar, pol, tuple(range(nt + nc)), lay), lay, n, PTS[:2], {})
                    if npar:
                        with ctx.sub('symbolic', ty):
                            lay = {i: i for i in range(n)}
                            one(ctx, T, 'symbolic', gate(ty, nt, npar, pol, tuple(range(nt + nc)), lay, True), lay, n, PTS[:1], syme)
        J.append(j)

    cx = [(c, t) for c in range(3) for t in range(3) if c != t]
    seqs = list(itertools.product(cx, repeat=3))
    for part in chunks(seqs, 40):
        def j(ctx, part=part):
            for sq in part:
                with ctx.sub('sequence', str(sq)):
                    one(ctx, T, 'sequence', lambda W: [W.std('X', [t], [(c, True)]) for c, t in sq], ID3, 3, PTS[:1], {}, True)
        J.append(j)

    def misc(ctx):
        X = lambda W, c, t, p=True: W.std('X', [t], [(c, p)])
        lay = {0: 1, 1: 2, 2: 0}
        S = {
            'empty': lambda W: [],
            'swap with a negative control': None,
            'compound': lambda W: [W.std('H', [0]), W.comp([W.std('H', [1]), X(W, 0, 1), W.comp([W.std('T', [1]), X(W, 1, 2)])]), W.std('S', [2])],
            'swap in a compound': lambda W: [W.comp([X(W, 0, 1), X(W, 1, 0), X(W, 0, 1), W.std('H', [0])]), W.std('T', [0])],
            'swap across a compound': lambda W: [X(W, 0, 1), W.comp([X(W, 1, 0), X(W, 0, 1)])],
            'swap then': lambda W: [X(W, 0, 1), X(W, 1, 0), X(W, 0, 1), W.std('T', [0]), X(W, 1, 2)],
            'cx cx h': lambda W: [X(W, 0, 1), X(W, 1, 0), W.std('H', [1])],
            'cx ccx cx': lambda W: [X(W, 0, 1), W.std('X', [0], [(1, True), (2, True)]), X(W, 0, 1)],
            'cx barrier cx cx': lambda W: [X(W, 0, 1), W.std('Barrier', [0, 1]), X(W, 1, 0), X(W, 0, 1)],
            'barrier': lambda W: [W.std('H', [0]), W.std('Barrier', [0, 1, 2]), W.std('H', [1])],
            'measure': lambda W: [W.std('H', [0]), W.measure([0], [0])],
            'nested empty': lambda W: [W.comp([]), W.std('H', [0])],
        }
        for pol in itertools.product((True, False), repeat=3):
            if all(pol):
                continue
            S['swap ' + str(pol)] = lambda W, pol=pol: [X(W, 0, 1, pol[0]), X(W, 1, 0, pol[1]), X(W, 0, 1, pol[2])]
        for nme, ops in S.items():
            if ops is None:
                continue
            for l in (ID3, lay):
                with ctx.sub('sequence', nme):
                    one(ctx, T, 'sequence', ops, l, 3, PTS[:1], {})
        R = {
            'reset': lambda W: [W.reset([0])],
            'classic': lambda W: [W.cc(W.std('X', [0]), bit=0)],
            'classic swap': lambda W: [X(W, 0, 1), W.cc(X(W, 1, 0), bit=0), X(W, 0, 1)],
            'classic in compound': lambda W: [W.comp([W.std('H', [0]), W.cc(W.std('X', [0]), bit=0)])],
        }
        for nme, ops in R.items():
            with ctx.sub('reject', nme):
                one(ctx, T, 'reject', ops, ID3, 3, PTS[:1], {}, False)
    J.append(misc)
    # all pairs of gates on two qubits: the composition order and wire bookkeeping
    few = [('H', 1, 0), ('X', 1, 0), ('T', 1, 0), ('SX', 1, 0), ('RY', 1, 1), ('SWAP', 2, 0), ('RZZ', 2, 1), ('ECR', 2, 0), ('CX', 0, 0), ('CCZ', 0, 0), ('iSWAP', 2, 0)]

    def mk(W, g, pl):
        ty, nt, npar = g
        if ty == 'CX':
            return W.std('X', [pl[1]], [(pl[0], True)])
        if ty == 'CCZ':
            return W.std('Z', [pl[1]], [(pl[0], True), (pl[2], True)])
        return W.std(ty, list(pl[:nt]), [], SYMS[:npar])

    def pairs(ctx, a):
        for b in few:
            for pl in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
                with ctx.sub('sequence', '%s %s' % (a[0], b[0])):
                    one(ctx, T, 'sequence', lambda W: [mk(W, a, (0, 1, 2)), mk(W, b, pl), mk(W, a, (1, 2, 0))], ID3, 3, PTS[:1], {}, True)
    for a in few:
        J.append(lambda ctx, a=a: pairs(ctx, a))
    return J


def check(ctx):
    ctx.rule("gate", "the diagram built for one accepted gate is, up to a scalar, the gate's unitary, for every parameter value, control polarity and order of qubits")
    ctx.rule("symbolic", "the same for symbolic parameters with every value of their variables")
    ctx.rule("layout", "gates act on the logical qubits their physical qubits hold")
    ctx.rule("sequence", "sequences of gates, compound operations and barriers compose, also where gates are merged into a wire crossing")
    ctx.rule("reject", "operations that transformableToZX rejects are not translated")
    F = load(ctx, ['ir', 'zx'])
    parallel(ctx, jobs(F))
    for r, n in (('gate', 150), ('symbolic', 12), ('layout', 40), ('sequence', 400), ('reject', 100)):
        ctx.need(r, n)
