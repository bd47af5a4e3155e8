"""Optimisation passes keep what the circuit does."""
from rules.common import *
import itertools
import sem, opsem, prog
from ops import World
from rules.I09 import circuit
from rules.I06 import P

CO = 'qc::CircuitOptimizer'
NC = 3
ENV = {rec('sym::Variable', {'id': I(ord('x'))}): .37}


class Passes:
    """runs optimisation passes on circuits and compares their meaning"""

    def __init__(self, ctx, F):
        self.ctx, self.F, self.W = ctx, F, World(F)
        self.ip = Interp(F, max_iter=200)
        self.ip.max_rec = 8
        self.jobs = []

    def fn(self, name, k):
        fs = [f for f in self.F.fns(CO + '::' + name) if 'body' in f and len(f['ps']) == k]
        if len(fs) != 1:
            raise AnalysisError("anchor vanished: %s::%s" % (CO, name))
        return fs[0]

    def run(self, name, ops, n, args=(), layout=None, out=None, **kw):
        """(function, outcome, operations after, circuit after)"""
        W = self.W
        W.store, W.n = {}, 0
        f = self.fn(name, 1 + len(args))
        d = circuit(layout or {i: i for i in range(n)}, NC, out, ops=[W.put(o) for o in ops(W)], **kw)
        self.before = [W.deep(o)[1] for o in rget(d, 'ops')[1]]
        p = W.put(d)
        rs = self.ip.run(f, [('LOCARG', p[1])] + list(args), st=W.state())
        if len(rs) != 1:
            raise AnalysisError("%s is not decided (%d paths, %s)" % (name, len(rs), [show(c)[:150] for r in rs[:1] for c in r[0].pc[:2]]))
        s, oc, _, _ = rs[0]
        if oc[0] == 'throw':
            return f, oc, None, None
        d2 = s.store[p[1][0]]
        if rget(d2, 'ops')[0] != 'vec':
            raise AnalysisError("operations not decided: " + show(rget(d2, 'ops'))[:200])
        after = []
        for o in rget(d2, 'ops')[1]:
            v = W.deep(o, s)
            after.append(v[1] if v[0] == 'own' else v)
        return f, oc, after, d2


def brief(ops):
    out = []
    for o in ops:
        if o[0] == 'own':
            o = o[1]
        if o[1] == 'qc::CompoundOperation':
            out.append('{' + brief(rget(o, 'ops')[1]) + '}')
        elif o[1] == 'qc::ClassicControlledOperation':
            r, b = rget(o, 'controlRegister'), rget(o, 'controlBit')
            c = 'c%s' % num(b[1]) if b[0] == 'opt' else 'c[%s+%s]' % (num(rget(r[1], 'startIndex')), num(rget(r[1], 'size'))) if r[0] == 'opt' else '?'
            out.append('if(%s %s %s)%s' % (c, rget(o, 'comparisonKind')[2], num(rget(o, 'expectedValue')), brief([rget(o, 'op')])))
        elif o[0] != 'rec':
            out.append(show(o)[:30])
        else:
            try:
                cs = ''.join('%s%s' % ('' if p else '!', q) for q, p in opsem.controls(rget(o, 'controls')))
                cl = rget(o, 'classics')
                out.append('%s%s(%s%s)' % (opsem.tname(o), '[%s]' % cs if cs else '', ','.join(map(str, opsem.qubits(rget(o, 'targets')))),
                                           '->' + ','.join(str(num(c)) for c in cl[1]) if cl and cl[1] else ''))
            except sem.Undefined:
                out.append(show(o)[:60])
    return ' '.join(out)


def G(n, ts, cs=(), p=()):
    return lambda W: W.std(n, ts, cs, p)


def seq(*gs):
    return lambda W: [g(W) for g in gs]


def comp(*gs, **kw):
    return lambda W: W.comp([g(W) for g in gs], **kw)


def meas(qs, cs):
    return lambda W: W.measure(qs, cs)


def reset(*qs):
    return lambda W: W.reset(list(qs))


def when(g, **kw):
    return lambda W: W.cc(g(W), **kw)


CX = lambda c, t: G('X', [t], [(c, True)])
NCX = lambda c, t: G('X', [t], [(c, False)])
CCX = lambda c, d, t: G('X', [t], [(c, True), (d, True)])
CZ = lambda c, t: G('Z', [t], [(c, True)])
SWAP = lambda a, b: G('SWAP', [a, b])
CSWAP = lambda c, a, b: G('SWAP', [a, b], [(c, True)])
H, X, Y, Z, S, SDG, T, TDG, ID = (lambda n: lambda q: G(n, [q]))('H'), *[(lambda n: lambda q: G(n, [q]))(n) for n in ('X', 'Y', 'Z', 'S', 'Sdg', 'T', 'Tdg', 'I')]
RX = lambda q, t=.7: G('RX', [q], (), (t,))
PH = lambda q, t=.7: G('P', [q], (), (t,))
BAR = lambda *qs: G('Barrier', list(qs))
SYM = lambda q, c=(): (lambda W: W.symb('RX', [q], list(c), (0.,), [(1.5, 'x', .2)]))
GPH = lambda t=.3: (lambda W: W.base('qc::StandardOperation', 'GPhase', 'gphase', parameter=('vec', (Fl(t),))))


def tagged(alphabet, k, extra=()):
    for c in itertools.product(alphabet, repeat=k):
        yield seq(*c)
    for c in extra:
        yield c


def meaning_same(a, b, n, keep=None, n2=None, states=(1, 2)):
    keep = list(range(n)) if keep is None else keep
    for sd in states:
        psi = prog.state(n, sd)
        x = prog.joint(prog.run(a, n, NC, psi, ENV), keep, n)
        y = prog.joint(prog.run(b, n, NC, psi, ENV), keep, n)
        if not prog.same(x, y):
            return False
    return True


def amplitudes_same(a, b, n):
    """equal including the global phase, for circuits without measurements"""
    for sd in (1, 2):
        psi = prog.state(n, sd)
        x, y = prog.run(a, n, NC, psi, ENV), prog.run(b, n, NC, psi, ENV)
        if any(abs(p - q) > 1e-9 for p, q in zip(x[0][1], y[0][1])):
            return False
    return True


def dynamic(ops):
    s = brief(ops)
    return 'Measure' in s or 'Reset' in s or 'if(' in s


def keeps(ctx, PS, rule, name, circuits, *a, **kw):
    PS.jobs += [lambda c, part=part: keep_all(c, PS, rule, name, part, *a, **kw) for part in chunks(circuits, 40)]


def keep_all(ctx, PS, rule, name, circuits, n=3, args=(), key=None, shape=None, dynamics=False):
    """the pass leaves the meaning of every circuit as it is"""
    for ops in circuits:
        W = PS.W
        W.store, W.n = {}, 0
        start = [W.deep(o) for o in ops(W)]
        label = brief(start)
        if dynamics and late(start):
            continue        # deferMeasurements does not support it (C02)
        with ctx.sub(rule, "%s on %s" % (name, label)):
            f, oc, after, d2 = PS.run(name, ops, n, args)
            w = where(f) + ": " + label
            if oc[0] == 'throw' and dynamics:
                ctx.count("circuits collectBlocks rejects")
                continue
            if oc[0] == 'throw':
                ctx.bad(rule, w, (key or name) + ":throws", "%s throws on %s" % (name, label))
                continue
            try:
                good = (meaning_same if dynamic(PS.before) else amplitudes_same)(PS.before, after, n)
            except sem.Undefined as e:
                ctx.bad(rule, w, (key or name) + ":undefined", "%s turns %s into %s: %s" % (name, label, brief(after), e))
                continue
            ctx.ob(good, rule, w, key or name, "%s turns %s into %s, which does something else" % (name, label, brief(after)))
            if good and shape:
                bad = shape(after, PS.before)
                ctx.ob(not bad, "form", w, (key or name) + ":form", "%s turns %s into %s: %s" % (name, label, brief(after), bad))


def leaves(ops, depth=9):
    for o in ops:
        if o[0] == 'own':
            o = o[1]
        if o[1] == 'qc::CompoundOperation':
            if depth:
                yield from leaves(rget(o, 'ops')[1], depth - 1)
        else:
            yield o


def late(ops):
    """does a gate that is not diagonal on it act on a qubit after its measurement"""
    seen = set()
    for o in leaves(ops):
        x = o
        while x[1] == 'qc::ClassicControlledOperation':
            x = rget(x, 'op')[1]
        for y in leaves([x]):
            n = opsem.tname(y)
            if n in ('Measure', 'Reset', 'Barrier'):
                continue
            if n not in ('I', 'Z', 'S', 'Sdg', 'T', 'Tdg', 'P', 'RZ', 'RZZ', 'GPhase') and set(opsem.qubits(rget(y, 'targets'))) & seen:
                return True
        if opsem.tname(o) == 'Measure':
            seen |= set(opsem.qubits(rget(o, 'targets')))
    return False


def check(ctx):
    ctx.rule("cnot", "reconstructing SWAPs, cancelling CNOTs and decomposing SWAPs leave the circuit's unitary and measurement behaviour as it is")
    ctx.rule("fusion", "single-qubit gate fusion leaves the circuit's unitary and measurement behaviour as it is")
    ctx.rule("structure", "removing identities, flattening compound operations and replacing MCX by MCZ leave the circuit's unitary and measurement behaviour as it is")
    ctx.rule("blocks", "collecting blocks leaves the circuit's unitary and measurement behaviour as it is")
    ctx.rule("form", "the passes that promise a form (no identities, no SWAPs, no compound operations, no multi-controlled X, blocks within the size) reach it")
    F = load(ctx, ['ir', 'co'])
    PS = Passes(ctx, F)
    th = ctx.tier == 'thorough'
    cnot = [CX(0, 1), CX(1, 0), SWAP(0, 1), CX(1, 2), H(0)]
    cnot3 = cnot + [SWAP(1, 0), NCX(0, 1), CCX(0, 2, 1), CSWAP(2, 0, 1), CX(2, 0)]
    other = [BAR(0, 1, 2), meas([0], [0]), reset(1), when(X(0), bit=0), comp(CX(0, 1)), comp(H(1), CX(1, 0)), GPH(), SYM(0, [(1, True)])]
    mixes = [seq(a, o, b) for a in cnot[:3] for o in other for b in cnot[:3]] + [seq(SWAP(0, 1), CX(0, 1), CX(0, 1)), seq(CX(0, 1), CX(1, 0), CX(0, 1), CX(1, 0), CX(0, 1), CX(1, 0)),
                                                                                   seq(CX(0, 1), CX(1, 2), CX(1, 2), CX(0, 1)), seq(CX(2, 1), CX(0, 1), CX(1, 0), CX(0, 1), CX(2, 1))]
    for name in ('swapReconstruction', 'cancelCNOTs'):
        keeps(ctx, PS, "cnot", name, tagged(cnot3, 2 if not th else 3, mixes))
        keeps(ctx, PS, "cnot", name, tagged(cnot[:4] if not th else cnot, 4 if not th else 5))
        keeps(ctx, PS, "cnot", name, tagged(cnot, 3))
    sw = [SWAP(0, 1), SWAP(2, 0), CSWAP(2, 0, 1), G('SWAP', [1, 2], [(0, False)]), CX(0, 1), comp(SWAP(0, 1), H(0)), comp(CX(1, 0), SWAP(0, 2), SWAP(1, 2)),
          comp(comp(SWAP(1, 2)), X(0)), meas([0], [0]), when(SWAP(0, 1), bit=0), when(comp(SWAP(0, 1), H(1)), bit=0), GPH(), comp()]

    def noswap(after, before):
        return "a SWAP is left" if any(opsem.tname(o) == 'SWAP' and not opsem.controls(rget(o, 'controls')) for o in leaves(after, 1)) else None
    for d in (False, True):
        keeps(ctx, PS, "cnot", 'decomposeSWAP', tagged(sw, 1), args=(('b', d),), shape=noswap, key='decomposeSWAP:directed' if d else None)
        keeps(ctx, PS, "cnot", 'decomposeSWAP', tagged(sw[:8], 2), args=(('b', d),), shape=noswap, key='decomposeSWAP:directed' if d else None)
    one = [X(0), Y(0), H(0), S(0), SDG(0), T(0), TDG(0), G('SX', [0]), G('SXdg', [0]), RX(0), PH(0, .9)]
    keeps(ctx, PS, "fusion", 'singleQubitGateFusion', tagged(one, 2))
    few = [X(0), H(0), T(0), TDG(0), RX(0)]
    keeps(ctx, PS, "fusion", 'singleQubitGateFusion', tagged(few, 3 if not th else 4))
    odd = [meas([0], [0]), reset(0), when(X(0), bit=0), when(H(0), reg=(0, 2, 'c'), value=1), CX(0, 1), CX(1, 0), SWAP(0, 1), BAR(0), BAR(0, 1), comp(H(0), X(0)), comp(X(0)), comp(CX(0, 1), X(0)),
           comp(meas([0], [0])), comp(X(0), meas([0], [0])), comp(H(0), reset(0)), comp(X(0), when(X(0), bit=1)), comp(comp(T(0), X(0))), comp(X(0), comp(X(1))), GPH(), ID(0), comp(), H(1),
           comp(comp(X(0), X(0)), X(0)), comp(H(0), BAR(0)), G('X', [0], [(1, False)]), SYM(0), SYM(0, [(1, True)]), comp(SYM(0), X(0)), when(SYM(0), bit=0)]
    keeps(ctx, PS, "fusion", 'singleQubitGateFusion', [seq(a, o, b) for a in few[:3] for o in odd for b in few[:4]])
    keeps(ctx, PS, "fusion", 'singleQubitGateFusion', [seq(a, b) for a in odd for b in odd])
    misc = [ID(0), G('I', [0, 1]), G('I', [0], [(1, True)]), X(0), CX(0, 1), CCX(0, 1, 2), NCX(0, 1), G('X', [2], [(0, False), (1, True)]), comp(ID(0)), comp(X(0), ID(1)), comp(ID(0), CX(0, 1), H(1)), comp(comp(ID(0), ID(1)), H(0)),
            comp(comp(X(0), H(1)), CX(1, 0)), comp(comp(comp(CX(0, 1), H(0)), T(0))), meas([0], [0]), when(X(1), bit=0), when(CX(0, 1), bit=0), when(comp(X(1), CX(1, 2)), bit=0), comp(meas([1], [1]), H(0)), comp(), GPH(), SYM(0, [(1, True)]), comp(SYM(1)), 
            comp(comp()), comp(comp(X(0)), comp(X(1)))]
    isid = lambda o: opsem.tname(o) == 'I'

    def noid(after, before):
        return "an identity is left" if any(map(isid, after)) or any(map(isid, (x for o in after if o[1] == 'qc::CompoundOperation' for x in leaves([o], 1)))) else None

    def flat(after, before):
        return "a compound operation is left" if any(o[1] == 'qc::CompoundOperation' for o in after) else \
            "operations were lost or reordered" if brief(after) != brief(list(leaves(before))) else None

    def nomcx(after, before):
        return "a controlled X is left" if any(opsem.tname(o) == 'X' and opsem.controls(rget(o, 'controls')) for o in leaves(after)) else None
    for name, args, shape in (('removeIdentities', (), noid), ('flattenOperations', (('b', False),), flat), ('flattenOperations', (('b', True),), None), ('replaceMCXWithMCZ', (), nomcx)):
        keeps(ctx, PS, "structure", name, tagged(misc, 1), args=args, shape=shape)
        keeps(ctx, PS, "structure", name, tagged(misc, 2), args=args, shape=shape)
    custom = [comp(H(0), CX(0, 1), custom=True), comp(X(0), comp(H(1), T(1), custom=True)), comp(comp(H(1), T(1)), X(0), custom=True)]

    def flatc(after, before):
        return "a custom gate is left" if any(o[1] == 'qc::CompoundOperation' and rget(o, 'customGate') == TRUE for o in after) else None
    keeps(ctx, PS, "structure", 'flattenOperations', tagged(custom, 1), args=(('b', True),), shape=flatc)
    keeps(ctx, PS, "structure", 'flattenOperations', tagged(custom + misc[12:14], 2), args=(('b', True),), shape=flatc)
    blk = [H(0), X(1), CX(0, 1), CX(1, 2), CX(2, 0), CCX(0, 1, 2), comp(H(1), CX(1, 2)), GPH(), BAR(0, 1)]
    dyn = [meas([0], [0]), when(X(1), bit=0), reset(1)]

    def size(m):
        def f(after, before):
            for o in after:
                if o[1] == 'qc::CompoundOperation':
                    qs = {q for x in leaves([o]) for q in used(x)}
                    if len(qs) > max([m] + [len({q for x in leaves([b]) for q in used(x)}) for b in before]):
                        return "a block acts on %d qubits" % len(qs)
        return f
    for m in (1, 2, 3):
        keeps(ctx, PS, "blocks", 'collectBlocks', tagged(blk, 2 if not th else 3), args=(I(m),), shape=size(m))
        keeps(ctx, PS, "blocks", 'collectBlocks', tagged(blk[:5], 3 if not th else 4), args=(I(m),), shape=size(m))
        keeps(ctx, PS, "blocks", 'collectBlocks', [seq(a, d, b) for a in blk[:5] for d in (BAR(0, 1, 2), GPH(), comp(H(0), CX(0, 2)), SYM(1, [(0, True)])) for b in blk[:5]], args=(I(m),), shape=size(m))
    import random
    rnd = random.Random(5)
    al = [H(q) for q in range(4)] + [CX(a, b) for a in range(4) for b in range(4) if a != b] + [CCX(0, 1, 2), CCX(1, 2, 3), CCX(3, 0, 1), SWAP(1, 3), BAR(0, 2)]
    for m in (1, 2, 3, 4):
        keeps(ctx, PS, "blocks", 'collectBlocks', [seq(*[rnd.choice(al) for _ in range(rnd.randint(3, 7))]) for _ in range(250 if not th else 2500)], n=4, args=(I(m),), shape=size(m))
    dyn += [comp(meas([0], [0]), H(1)), when(CX(0, 1), bit=0), meas([0, 1], [0, 1])]
    dyn = [seq(a, d, b) for a in blk[:5] for d in dyn for b in blk[:5]] + [seq(H(0), a, meas([0], [0]), b, when(X(1), bit=0), c) for a in blk[:4] for b in blk[1:5] for c in blk[:5]]
    for m in (1, 2, 3):
        keeps(ctx, PS, "blocks", 'collectBlocks', dyn, args=(I(m),), dynamics=True)
    parallel(ctx, PS.jobs)
    for r, k in (("cnot", 1200), ('fusion', 1200), ('structure', 2000), ('blocks', 600), ('form', 2000)):
        ctx.need(r, k)


def used(o):
    if o[1] == 'qc::ClassicControlledOperation':
        return used(rget(o, 'op')[1])
    return set(opsem.qubits(rget(o, 'targets'))) | {q for q, _ in opsem.controls(rget(o, 'controls'))}
