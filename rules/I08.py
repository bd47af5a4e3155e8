"""Commutation queries are sound and cover the documented cases."""
from rules.common import *
import sem, opsem
from ops import World

DIAG = ('I', 'Z', 'S', 'Sdg', 'T', 'Tdg', 'P', 'RZ', 'RZZ')
N = 3


def check(ctx):
    ctx.rule("sound", "if two operations are reported to commute at every qubit they share, their unitaries commute")
    ctx.rule("documented", "operations commute at a qubit one of them does not act on, that controls both, where both are diagonal, that controls one and is a target "
             "of a diagonal other, or that both target with the same type, targets and (beyond one parameter) parameters")
    ctx.rule("classical", "measurements, resets, barriers and classically controlled gates are not reported to commute with a gate that does not commute with them")
    F = load(ctx, ['ir'])
    W = World(F)
    ip = Interp(F, max_iter=60)
    ip.max_rec = 6
    ctx.guard("sound", "gates", pairs, ctx, F, W, ip)
    ctx.guard("sound", "symbolic", symbolic, ctx, F, W, ip)
    ctx.guard("sound", "compound", compound, ctx, F, W, ip)
    ctx.guard("classical", "classical", classical, ctx, F, W, ip)
    for r, n in (('sound', 1500), ('documented', 3000), ('classical', 50)):
        ctx.need(r, n)


def templates(W, thorough):
    out = []
    for n, (k, m, _) in sem.REF.items():
        ps = tuple([.7, -1.1, 2.3][:m])
        if k == 0:
            places = [([], [(0, True)]), ([], [(0, True), (1, False)])]
        elif k == 1:
            places = [([0], []), ([0], [(1, True)]), ([1], [(0, False)])]
            if thorough:
                places += [([0], [(1, True), (2, False)]), ([2], [(0, True), (1, True)])]
        else:
            places = [([0, 1], []), ([1, 0], []), ([0, 2], [(1, True)])]
            if thorough:
                places += [([1, 2], [(0, False)]), ([2, 0], [])]
        for ts, cs in places:
            out.append((n, ts, cs, W.std(n, ts, cs, ps)))
            if m and ts in ([0], [0, 1]) and not cs:
                out.append((n, ts, cs, W.std(n, ts, cs, tuple(p + .4 for p in ps))))
    return out


def dispatch(F, ip, W, a, q, b, s0=None):
    """abstract result of a.commutesAtQubit(b, q)"""
    cl, m = a[1], None
    while m is None:
        ms = [f for f in F.fns(cl + '::commutesAtQubit') if 'body' in f]
        if ms:
            m = ms[0]
        else:
            bs = F.cls_by_name[cl][0]['bases']
            cl = bs[0] if isinstance(bs[0], str) else bs[0].get('n')
    pa, pb = W.put(a), W.put(b)
    rs = ip.run(m, [('LOCARG', pb[1]), I(q)], this=('LOCARG', pa[1]), st=W.state())
    del W.store[pa[1][0]], W.store[pb[1][0]]
    if len(rs) != 1 or rs[0][1][0] != 'return' or rs[0][1][1][0] != 'b':
        raise AnalysisError("commutation of %s and %s at %d is not decided: %s" % (show(a)[:80], show(b)[:80], q, [(r[1][0], show(r[1][1])[:80] if r[1][0] == 'return' else '') for r in rs][:2]))
    return rs[0][1][1][1], m


def acts(ts, cs, q):
    return q in ts or q in [c for c, _ in cs]


def documented(a, b, q):
    (n, ts, cs, x), (n2, ts2, cs2, y) = a, b
    if not acts(ts, cs, q) or not acts(ts2, cs2, q):
        return True
    c1, c2 = q in [c for c, _ in cs], q in [c for c, _ in cs2]
    if c1 and c2:
        return True
    if c1 or c2:
        return (n2 if c1 else n) in DIAG
    if n in DIAG and n2 in DIAG:
        return True
    return n == n2 and ts == ts2 and (len(rget(x, 'parameter')[1]) <= 1 or rget(x, 'parameter') == rget(y, 'parameter'))


def matrix(x, memo={}):
    if x not in memo:
        memo[x] = opsem.unitary(x, {}, N)
    return memo[x]


def commute(u, v):
    return sem.close(sem.mm(u, v), sem.mm(v, u), 1e-8)


def pairs(ctx, F, W, ip):
    ts = templates(W, ctx.tier == 'thorough')
    memo = {}
    for a in ts:
        for b in ts:
            shared = [q for q in range(N) if acts(a[1], a[2], q) and acts(b[1], b[2], q)]
            w = "%s%s%s against %s%s%s" % (a[0], a[1], a[2], b[0], b[1], b[2])
            key = None
            with ctx.sub("sound", w):
                rs = {}
                for q in (range(N) if ctx.tier == 'thorough' or a[0] == b[0] else shared):
                    rs[q], m = dispatch(F, ip, W, a[3], q, b[3])
                    if documented(a, b, q):
                        ctx.ob(rs[q], "documented", where(m) + ": " + w + " at %d" % q, "documented", "reported as not commuting")
                if all(rs[q] for q in shared) and shared:
                    ctx.ob(commute(matrix(a[3]), matrix(b[3])), "sound", where(m) + ": " + w, "sound", "reported to commute at every shared qubit, but the unitaries do not commute")
                elif shared:
                    ctx.ok("sound", w)


def symbolic(ctx, F, W, ip):
    """symbolic operations with different expressions commute only if they do so for all values"""
    env = [{W.var('x'): a, W.var('y'): b} for a, b in ((.37, 1.9), (2.2, -.8))]
    ex = {'x': (1., 'x', 0.), 'y': (1., 'y', .3), 'x2': (2., 'x', 0.)}
    ops = []
    for n, (k, m, _) in sem.REF.items():
        if not m or not k:
            continue
        for pat in [(e,) + (None,) * (m - 1) for e in ex] + ([(None,) * (m - 1) + (e,) for e in ex] if m > 1 else []):
            ops.append((n, pat, W.symb(n, list(range(k)), [], tuple(0. if e else .5 for e in pat), [ex[e] if e else None for e in pat])))
    std = [(n, None, W.std(n, list(range(k)), [], tuple([0., .5, .5][:m]))) for n, (k, m, _) in sem.REF.items() if k and m]
    for a in ops:
        for b in ops + std:
            if a[0] != b[0] and not (a[0] in DIAG and b[0] in DIAG):
                continue
            for x, y in ((a, b), (b, a)):
                w = "%s%s against %s%s" % (x[0], x[1], y[0], y[1])
                with ctx.sub("sound", w):
                    r = [dispatch(F, ip, W, x[2], q, y[2]) for q in range(sem.REF[a[0]][0])]
                    if all(v for v, _ in r):
                        good = all(commute(opsem.unitary(x[2], e, 2), opsem.unitary(y[2], e, 2)) for e in env)
                        ctx.ob(good, "sound", where(r[0][1]) + ": symbolic " + w, "sound:symbolic", "reported to commute, but the unitaries do not commute for all variable values")
                    else:
                        ctx.ok("sound", w)


def compound(ctx, F, W, ip):
    g = lambda n, ts, cs=(), p=(): W.std(n, ts, cs, p)
    parts = {'diagonal': [g('T', [0]), g('RZZ', [0, 1], (), (.4,))], 'control': [g('X', [1], [(0, True)]), g('Z', [0])],
             'mixed': [g('H', [0]), g('X', [1], [(0, True)])], 'other qubit': [g('H', [1]), g('Y', [1])], 'cancel': [g('X', [0]), g('X', [0])], 'empty': [],
             'last breaks': [g('Z', [0]), g('S', [0]), g('X', [0])]}
    single = {'Z': g('Z', [0]), 'X': g('X', [0]), 'CX': g('X', [1], [(0, True)]), 'CXr': g('X', [0], [(1, True)]), 'CZ': g('Z', [0], [(1, True)]), 'H1': g('H', [1]),
              'RX': g('RX', [0], (), (.3,)), 'U': g('U', [0], (), (.3, .4, .5)), 'RZZ': g('RZZ', [1, 0], (), (.2,))}
    mk = {k: (lambda ps=ps: W.comp([o for o in ps])) for k, ps in parts.items()}
    mk['nested'] = lambda: W.comp([W.comp([g('Z', [0])]), g('T', [1])])
    mk['nested mixed'] = lambda: W.comp([g('Z', [0]), W.comp([g('X', [1]), W.comp([g('H', [0])])])])
    items = [(k, f) for k, f in mk.items()] + [(k, (lambda o=o: o)) for k, o in single.items()]

    def mat(o):
        if o[1] == 'qc::CompoundOperation':
            m = sem.eye(1 << N)
            for p in rget(o, 'ops')[1]:
                m = sem.mm(mat(W.get(p)), m)
            return m
        return opsem.unitary(o, {}, N)

    def used(o):
        if o[1] == 'qc::CompoundOperation':
            return set().union(*[used(W.get(p)) for p in rget(o, 'ops')[1]]) if rget(o, 'ops')[1] else set()
        return set(opsem.qubits(rget(o, 'targets'))) | {q for q, _ in opsem.controls(rget(o, 'controls'))}
    for i, (ka, fa) in enumerate(items):
        for kb, fb in items:
            a, b = fa(), fb()
            if 'CompoundOperation' not in a[1] + b[1]:
                continue
            w = "%s against %s" % (ka, kb)
            with ctx.sub("sound", w):
                shared = used(a) & used(b)
                r = {q: dispatch(F, ip, W, a, q, b) for q in range(N)}
                m = r[0][1]
                for q in set(range(N)) - shared:
                    ctx.ob(r[q][0], "documented", where(m) + ": compound " + w, "documented:compound", "not commuting at a qubit that is not shared")
                if all(r[q][0] for q in shared):
                    ctx.ob(commute(mat(a), mat(b)), "sound", where(m) + ": compound " + w, "sound:compound", "reported to commute, but the unitaries do not commute")
                else:
                    ctx.ok("sound", w)


def classical(ctx, F, W, ip):
    g = lambda n, ts, cs=(), p=(): W.std(n, ts, cs, p)
    gates = [g('X', [0]), g('H', [0]), g('X', [0], [(1, True)]), g('RX', [0], (), (.3,)), g('SWAP', [0, 1])]
    others = {'measure': W.measure([0], [0]), 'reset': W.reset([0]), 'barrier': g('Barrier', [0, 1]), 'if Z': W.cc(g('Z', [0]), bit=0),
              'if X controlled': W.cc(g('X', [1], [(0, True)]), bit=0)}
    for k, o in others.items():
        for x in gates:
            for a, b in ((x, o), (o, x)):
                w = "%s against %s" % (k, opsem.tname(x))
                with ctx.sub("classical", w):
                    r, m = dispatch(F, ip, W, a, 0, b)
                    ctx.ob(not r, "classical", where(m) + ": " + w, "classical:" + k, "reported to commute")
        c = g('Z', [1], [(0, True)])
        if k == 'reset':
            for a, b in ((c, o), (o, c)):
                with ctx.sub("classical", k + " against control"):
                    r, m = dispatch(F, ip, W, a, 0, b)
                    ctx.ob(not r, "classical", where(m) + ": %s against a control" % k, "classical:" + k, "reported to commute")
