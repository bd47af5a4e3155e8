"""The exported OpenQASM text denotes the exported operation or circuit."""
from rules.common import *
import opsem, qasm, sem, strm
from ops import World
from rules.I06 import P, call, overload, CLS
from rules.I09 import circuit

CMP = {'Eq': '==', 'Neq': '!=', 'Lt': '<', 'Leq': '<=', 'Gt': '>', 'Geq': '>='}


def regrec(kind, s, z, n):
    return rec('qc::%sRegister' % kind, {'startIndex': I(s), 'size': I(z), 'name': Sx(n)})


def regmap(kind, regs):
    out = []
    for n, (s, z) in regs.items():
        r = regrec(kind, s, z, n)
        out += [(I(s + i), rec('std::pair', {'first': r, 'second': Sx('%s[%d]' % (n, i))})) for i in range(z)]
    return ('map', tuple(out))


# ------------------------------------------------------------ reference: operation -> elements
def elements(W, op, qasm3):
    """the statements an operation stands for, as a tree of elements"""
    cls = op[1]
    if cls == 'qc::CompoundOperation':
        return [x for p in rget(op, 'ops')[1] for x in elements(W, W.get(p), qasm3)]
    if cls == 'qc::ClassicControlledOperation':
        b, r = rget(op, 'controlBit'), rget(op, 'controlRegister')
        v = num(rget(op, 'expectedValue'))
        if b[0] == 'opt':
            c = ('bit', num(b[1]), v)
        else:
            c = ('reg', (num(rget(r[1], 'startIndex')), num(rget(r[1], 'size'))), CMP[rget(op, 'comparisonKind')[2]], v)
        return [('if', c, elements(W, W.get(rget(op, 'op')), qasm3))]
    ty = opsem.tname(op)
    ts = opsem.qubits(rget(op, 'targets'))
    if ty == 'Measure':
        return [('measure', q, num(c)) for q, c in zip(ts, rget(op, 'classics')[1])]
    if ty == 'Reset':
        return [('reset', q) for q in ts]
    if ty == 'Barrier':
        return [('barrier', tuple(ts))]
    return [('gate', ty, tuple(rget(op, 'parameter')[1]), tuple(ts), tuple(opsem.controls(rget(op, 'controls'))), False)]


def flat(els, conds=()):
    """(conditions, element) in order"""
    out = []
    for e in els:
        if e[0] == 'if':
            out += flat(e[2], conds + (e[1],))
        else:
            out.append((conds, e))
    return out


def same(a, b, n, envs):
    """None or what differs between two element trees"""
    x, y = blocks(flat(a)), blocks(flat(b))
    if len(x) != len(y):
        return "%d blocks of statements instead of %d: %s" % (len(y), len(x), [d[1][:2] for d in y][:3])
    for (c1, e1), (c2, e2) in zip(x, y):
        if c1 != c2:
            return "condition %s instead of %s" % (c2, c1)
        if e1[0] != e2[0]:
            return "%s instead of %s" % (e2[0], e1[0])
        if e1[0] == 'gates':
            for env in envs:
                u, v = sem.eye(1 << n), sem.eye(1 << n)
                for g in e1[1]:
                    u = sem.mm(qasm.matrix(g, env, n), u)
                for g in e2[1]:
                    v = sem.mm(qasm.matrix(g, env, n), v)
                if not sem.close(u, v, 1e-8):
                    return "the statements %s denote another unitary than %s" % ([(g[1], g[3], g[4]) for g in e2[1]], [(g[1], g[3], g[4]) for g in e1[1]])
        elif e1[0] in ('reset', 'barrier', 'measure'):
            if e1[0] == 'barrier':
                if sorted(e1[1]) != sorted(e2[1]):
                    return "barrier on %s instead of %s" % (e2[1], e1[1])
            elif e1 != e2:
                return "%s instead of %s" % (e2, e1)
        elif e1 != e2:
            return "%s instead of %s" % (e2, e1)
    return None


def blocks(f):
    """adjacent gates under one condition form a block; adjacent measurements / resets are ordered by bit"""
    out = []
    for c, e in f:
        if e[0] == 'gate' and e[1] != 'Move':
            if out and out[-1][0] == c and out[-1][1][0] == 'gates':
                out[-1] = (c, ('gates', out[-1][1][1] + (e,)))
            else:
                out.append((c, ('gates', (e,))))
        else:
            out.append((c, e))
    # an identity block is no statement
    return out


def run_dump(F, W, ip, f, op, qregs, cregs, indent, q3):
    st = W.state()
    o = ip.new_root(st, strm.new(), 'of')
    p = W.put(op)
    st.store[p[1][0]] = op
    rs = ip.run(f, [('LOCARG', o), regmap('Quantum', qregs), regmap('Classical', cregs), I(indent), ('b', q3)], this=('LOCARG', p[1]), st=st)
    if len(rs) != 1:
        raise AnalysisError("%d paths" % len(rs))
    s, oc, _, _ = rs[0]
    if oc[0] == 'throw':
        return 'throw', oc[1]
    v = ip.load(s, o)
    if not strm.is_stream(v):
        raise AnalysisError("output not decided: %s" % show(v)[:200])
    return 'text', strm.text(rget(v, 'buf')[1])


QREGS = {'a': (0, 2), 'q': (2, 3)}
CREGS = {'k': (0, 1), 'c': (1, 3), 'd': (4, 2)}


def nonunitary_samples(W):
    M, R = W.measure, W.reset
    g = lambda ty, t, c=(), p=(): W.std(ty, t if isinstance(t, list) else [t], list(c), p)
    s = {}
    for i, (qs, cs) in enumerate([([2], [1]), ([0, 1], [4, 5]), ([1, 0], [4, 5]), ([0, 1], [5, 4]), ([2, 3, 4], [1, 2, 3]), ([2, 4, 3], [1, 2, 3]), ([2, 3, 4], [1, 3, 2]),
                                  ([2, 4], [1, 3]), ([2, 4], [1, 2]), ([0, 1], [0, 1]), ([0, 1], [1, 2]), ([4, 2, 3], [3, 1, 2]), ([0, 2], [4, 5]), ([3, 4], [4, 5]), ([0, 1, 2], [1, 2, 3]),
                                  ([3, 0, 4, 1], [2, 5, 0, 3]), ([0, 1, 2, 3, 4], [0, 1, 2, 3, 4])]):
        s['measure %s -> %s' % (qs, cs)] = M(qs, cs)
    for qs in ([1], [0, 1], [2, 3, 4], [2, 4], [3, 4], [1, 2, 3], [0, 1, 2, 3, 4]):
        s['reset %s' % qs] = R(qs)
    for qs in ([1], [0, 1], [1, 0], [2, 3, 4], [2, 4], [4, 2, 3], [2, 4, 3], [0, 2, 3], [0, 1, 2, 3, 4]):
        s['barrier %s' % qs] = W.std('Barrier', qs)
    inner = {'x': lambda: g('X', 3), 'negative control': lambda: g('RX', 3, [(0, False), (2, True)], (sym('p0'),)),
             'peres': lambda: g('Peres', [4, 1], [(0, False)]), 'measure': lambda: M([2, 4], [0, 3]), 'measure register': lambda: M([0, 1], [4, 5]), 'reset': lambda: R([2, 4]),
             'compound': lambda: W.comp([g('H', 3), g('X', 1, [(3, False)]), W.comp([g('Z', 0)])]),
             'mixed': lambda: W.comp([g('H', 3), M([3, 4], [4, 0]), R([3]), W.std('Barrier', [0, 2])])}
    for n, m in inner.items():
        s['if bit, ' + n] = W.cc(m(), bit=2)
        s['if not bit, ' + n] = W.cc(m(), bit=4, value=0)
        s['if register, ' + n] = W.cc(m(), reg=(1, 3, 'c'), value=5, kind='Geq')
    for k in CMP:
        s['if register ' + k] = W.cc(g('X', 3), reg=(1, 3, 'c'), value=3, kind=k)
    s['if if'] = W.cc(W.cc(g('X', 3, [(1, False)]), bit=0), reg=(4, 2, 'd'), value=1, kind='Lt')
    s['compound'] = W.comp([g('H', 0), g('X', 1, [(0, True)]), W.comp([g('S', 2), M([0, 2], [0, 2])]), W.cc(g('X', 4), bit=0), R([1])])
    s['compound empty'] = W.comp([])
    return s


def check(ctx):
    ctx.rule("operation", "the text dumped for an operation parses, in both language versions, to statements denoting that operation")
    ctx.rule("precision", "numbers that are not constants are written with at least 13 significant digits")
    ctx.rule("circuit", "the text dumped for a circuit declares its registers in order, its layouts, and parses to its operations and, in version 3, its global phase")
    F = load(ctx, ['ir', 'na'])
    W = World(F)
    ip = Interp(F, max_iter=300)
    ip.max_rec = 8
    envs = [{sym('p%d' % i): x for i, x in enumerate(p[:3])} for p in sem.POINTS[:4]]
    dumps = {f['cls']: f for f in F.functions.values() if f['n'].endswith('::dumpOpenQASM') and 'body' in f and f.get('cls', '').endswith('Operation')}
    n = 5
    for ty in W.T:
        if ty not in sem.REF and ty != 'Move':
            continue
        k, np_ = (sem.REF[ty][:2] if ty != 'Move' else (2, 0))
        for ts, cs in (([3, 1][:k], []), ([2, 4][:k], [(0, True)]), ([2, 4][:k], [(1, False)]), ([4, 0][:k], [(1, True), (3, False)]), ([1, 3][:k], [(0, False), (2, True), (4, False)])):
            if ty == 'Move' and cs:
                continue
            if ty == 'I' and len(cs) > 1:
                continue
            op = W.std(ty, ts, cs, tuple(sym('p%d' % i) for i in range(np_)))
            for q3 in (True, False):
                ctx.guard("operation", ty, one, ctx, F, W, ip, dumps, op, n, q3, envs, "%s on %s controlled on %s" % (ty, ts, cs))
    for label, op in nonunitary_samples(W).items():
        for q3 in (True, False):
            ctx.guard("operation", label, one, ctx, F, W, ip, dumps, op, n, q3, envs, label)
    for ty in ('AodActivate', 'AodDeactivate', 'AodMove'):
        for ts, ms in (([2], [('X', sym('p0'), sym('p1'))]), ([0, 3], [('Y', sym('p1'), sym('p0')), ('X', sym('p2'), sym('p2'))])):
            ctx.guard("operation", ty, aod, ctx, F, W, ip, dumps['na::AodOperation'], ty, ts, ms)
    circuits(ctx, F, W, ip, envs)
    ctx.need("operation", 300)
    ctx.need("precision", 40)
    ctx.need("circuit", 30)


def one(ctx, F, W, ip, dumps, op, n, q3, envs, label):
    f = dumps[op[1]]
    for indent in (0, 2) if op[1] != 'qc::StandardOperation' or label.startswith('H on') else (0,):
        w = "%s: %s, version %d%s" % (where(f), label, 3 if q3 else 2, ', nested' if indent else '')
        key = "operation:%s:%d:%s" % (opsem.tname(op), 3 if q3 else 2, 'neg' if 'False' in label else label if op[1] != 'qc::StandardOperation' else '')
        with ctx.sub("operation", w):
            k, t = run_dump(F, W, ip, f, op, QREGS, CREGS, indent, q3)
            if k == 'throw':
                ctx.bad("operation", w, key + ":throws", "dumping throws %s" % show(t)[:80])
                continue
            try:
                pr = qasm.Parser(t, QREGS, CREGS)
                got = pr.program()
            except qasm.Bad as ex:
                ctx.bad("operation", w, key + ":unreadable", "the text is no program (%s): %s" % (ex, show(t)[:200]))
                continue
            d = same(elements(W, op, q3), got, n, envs)
            ctx.ob(d is None, "operation", w, key, "%s; text: %s" % (d, show(t)[:200]))
            if pr.digits != 99:
                ctx.ob(pr.digits >= 13, "precision", w, "precision:%s:%d" % (opsem.tname(op), 3 if q3 else 2), "parameters are written with %d digits" % pr.digits)


def aod(ctx, F, W, ip, f, ty, ts, ms):
    from rules.I04 import printed
    op = W.aod(ty, ts, [])
    D = {c['n']: c['v'] for c in F.enum('na::Dimension')['c']}
    mv = tuple(rec('na::SingleOperation', {'dir': ('e', 'na::Dimension', d, D[d]), 'start': a, 'end': b}) for d, a, b in ms)
    nm = printed(F, W, ip, W.T[ty])
    op = rset(rset(op, 'operations', ('vec', mv)), 'name', nm)
    for q3 in (True, False):
        w = "%s: %s on %s, version %d" % (where(f), ty, ts, 3 if q3 else 2)
        with ctx.sub("operation", w):
            k, t = run_dump(F, W, ip, f, op, QREGS, CREGS, 1, q3)
            try:
                tk = qasm.tokens(t)
            except qasm.Bad as ex:
                ctx.bad("operation", w, "operation:aod:unreadable", str(ex))
                continue
            # name ( dir, start, end; ... ) qubits ;
            want = [('id', nm[1]), ('sym', '(')]
            for d, a, b in ms:
                want += [('num', str(D[d])), ('sym', ','), ('num', a), ('sym', ','), ('num', b), ('sym', ';')]
            want.append(('sym', ')'))
            for i, q in enumerate(ts):
                n, (s0, z) = [(n, r) for n, r in QREGS.items() if r[0] <= q < sum(r)][0]
                want += ([('sym', ',')] if i else []) + [('id', n), ('sym', '['), ('num', str(q - s0)), ('sym', ']')]
            want.append(('sym', ';'))
            got = [('num', x[3] if x[3] is not None else x[1]) if x[0] == 'num' else x for x in tk]
            ctx.ob(got == want, "operation", w, "operation:aod", "dumped as %s" % show(t)[:200])
            dg = [x[2] for x in tk if x[0] == 'num' and x[3] is None]
            ctx.ob(bool(dg) and min(dg) >= 13, "precision", w, "precision:aod", "coordinates are written with %s digits" % min(dg or [0]))


def circuits(ctx, F, W, ip, envs):
    f = overload(F, 'dumpOpenQASM', 2)
    g = lambda ty, t, c=(), p=(): W.std(ty, t if isinstance(t, list) else [t], list(c), p)
    progs = {
        'empty': [],
        'gates': [g('H', 0), g('X', 1, [(0, True)]), g('RZ', 2, [], (sym('p0'),)), g('SWAP', [2, 0], [(3, False)])],
        'measured': [g('H', 0), W.measure([0, 1], [0, 1]), W.cc(g('X', 3), reg=(0, 2, 'm'), value=2), W.reset([0]), W.measure([2], [2])],
        'compound': [W.comp([g('H', 0), g('T', 3)]), W.cc(g('Z', 1), bit=2), W.std('Barrier', [0, 1, 2, 3])],
    }
    shapes = {
        'one register': ({'q': (0, 4)}, {}, {'m': (0, 2), 'k': (2, 1)}),
        'two registers': ({'z': (0, 2), 'b': (2, 2)}, {}, {'m': (0, 2), 'k': (2, 1)}),
        'ancilla': ({'z': (0, 3)}, {'anc': (3, 1)}, {'m': (0, 2), 'a': (2, 1)}),
        'ancilla first': ({'a2': (1, 2), 'z': (3, 1)}, {'anc': (0, 1)}, {'m': (0, 2), 'k': (2, 1)}),
    }
    lays = {'identity': ({0: 0, 1: 1, 2: 2, 3: 3},) * 2, 'permuted': ({0: 2, 1: 0, 2: 3, 3: 1}, {0: 1, 1: 3, 2: 2, 3: 0}), 'partial': ({0: 1, 1: 0, 2: 2, 3: 3}, {3: 0, 1: 2})}
    for pn, ops in progs.items():
        for sn, (qr, ar, cr) in shapes.items():
            for ln, (lay, out) in lays.items():
                for ph in (Fl(0.), Fl(1.25)):
                    for q3 in (True, False):
                        if (ln != 'identity') + (sn != 'one register') + (ph != Fl(0.)) > 1 and not (pn == 'gates' and q3):
                            continue
                        w = "%s: %s, %s, %s layout, phase %s, version %d" % (where(f), pn, sn, ln, ph[1], 3 if q3 else 2)
                        key = "circuit:%s:%d" % (pn, 3 if q3 else 2)
                        with ctx.sub("circuit", w):
                            circuit1(ctx, F, W, ip, f, ops, qr, ar, cr, lay, out, ph, q3, envs, w, key)


def circuit1(ctx, F, W, ip, f, ops, qr, ar, cr, lay, out, ph, q3, envs, w, key):
    C = circuit(lay, 3, out=out, ops=[W.put(o) for o in ops])
    rm = lambda kind, m: ('map', tuple((Sx(n), regrec(kind, s, z, n)) for n, (s, z) in m.items()))
    C = rset(rset(rset(C, 'quantumRegisters', rm('Quantum', qr)), 'ancillaRegisters', rm('Quantum', ar)), 'classicalRegisters', rm('Classical', cr))
    C = rset(rset(C, 'globalPhase', ph), 'nancillae', I(sum(z for _, z in ar.values())))
    st = W.state()
    o = ip.new_root(st, strm.new(), 'of')
    c = ip.new_root(st, C, 'qc')
    rs = ip.run(f, [('LOCARG', o), ('b', q3)], this=('LOCARG', c), st=st)
    if len(rs) != 1:
        raise AnalysisError("%d paths" % len(rs))
    s, oc, _, _ = rs[0]
    if oc[0] == 'throw':
        ctx.bad("circuit", w, key + ":throws", "dumping throws %s" % show(oc[1])[:80])
        return
    v = ip.load(s, o)
    if not strm.is_stream(v):
        raise AnalysisError("output not decided: %s" % show(v)[:200])
    t = strm.text(rget(v, 'buf')[1])
    try:
        pr = qasm.Parser(t)
        got = pr.program()
    except qasm.Bad as ex:
        ctx.bad("circuit", w, key + ":unreadable", "the text is no program (%s): %s" % (ex, show(t)[:300]))
        return
    ctx.ob(pr.version == ('3.0' if q3 else '2.0'), "circuit", w, "circuit:version", "version %s is declared" % pr.version)
    allq = dict(qr)
    allq.update(ar)
    ctx.ob(pr.qregs == allq and pr.cregs == cr, "circuit", w, "circuit:registers", "declared registers %s %s instead of %s %s" % (pr.qregs, pr.cregs, allq, cr))
    li = [tuple(int(x) for x in cm[4:].split()) for cm in pr.comments if cm.startswith('// i')]
    lo = [tuple(int(x) for x in cm[4:].split()) for cm in pr.comments if cm.startswith('// o')]
    inv = {l: p for p, l in lay.items()}
    wi = tuple(inv[l] for l in sorted(inv))
    io = {l: p for p, l in out.items()}
    wo = tuple(io[l] for l in sorted(io))
    ctx.ob(li == [wi], "circuit", w, "circuit:layout", "initial layout written as %s instead of %s" % (li, wi))
    ctx.ob(lo == [wo], "circuit", w, "circuit:output", "output permutation written as %s instead of %s" % (lo, wo))
    want = [x for op in ops for x in elements(W, op, q3)]
    if q3 and num(ph):
        want = want + [('gate', 'GPhase', (ph,), (), (), False)]
    if pr.qregs == allq and pr.cregs == cr:
        d = same(want, got, 4, envs)
        ctx.ob(d is None, "circuit", w, key, "%s; text: %s" % (d, show(t)[:300]))
