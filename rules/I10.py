"""Whole-circuit transformations keep the program."""
from rules.common import *
import opsem
from ops import World
from rules.I03 import circuit_state, fields
from rules.I06 import P, unP, call, overload, Circ, CLS
from rules.I09 import circuit


def wires(W, o):
    """('q', i) and ('c', j) an operation touches"""
    out = set()
    for k in ('targets',):
        out |= {('q', num(t)) for t in rget(o, k)[1]}
    out |= {('q', num(rget(c, 'qubit'))) for c in rget(o, 'controls')[1]}
    if rget(o, 'classics') is not None:
        out |= {('c', num(b)) for b in rget(o, 'classics')[1]}
    if o[1] == 'qc::ClassicControlledOperation':
        b, r = rget(o, 'controlBit'), rget(o, 'controlRegister')
        if b[0] == 'opt':
            out.add(('c', num(b[1])))
        if r[0] == 'opt':
            s = num(rget(r[1], 'startIndex'))
            out |= {('c', s + i) for i in range(num(rget(r[1], 'size')))}
        out |= wires(W, W.get(rget(o, 'op')))
    if o[1] == 'qc::CompoundOperation':
        for p in rget(o, 'ops')[1]:
            out |= wires(W, W.get(p))
    return out


def sequences(W):
    g = lambda ty, t, c=(): W.std(ty, [t], [(x, True) for x in c])
    cx = lambda c, t: g('X', t, (c,))
    return {
        'empty': [],
        'one': [g('H', 0)],
        'disjoint': [g('H', 0), g('H', 1), g('H', 2)],
        'chain': [g('H', 0), cx(0, 1), cx(1, 2), g('H', 2)],
        'reverse chain': [g('H', 2), cx(2, 1), cx(1, 0), g('H', 0)],
        'interleaved': [cx(0, 2), g('H', 1), cx(1, 2), g('X', 0), cx(0, 1), g('Z', 2), g('Y', 1)],
        'two targets': [W.std('SWAP', [0, 2]), g('H', 1), W.std('iSWAP', [1, 2]), g('X', 0), W.std('SWAP', [0, 1], [(2, True)])],
        'barrier': [g('H', 2), W.std('Barrier', [0, 1, 2]), g('H', 0), g('H', 2)],
        'measure': [g('H', 0), W.measure([0, 2], [1, 0]), g('X', 2), W.measure([1], [2])],
        'measure then if': [g('H', 0), W.measure([0], [0]), W.cc(g('X', 2), bit=0), g('H', 1)],
        'measure then if register': [W.measure([0], [1]), W.cc(g('X', 2), reg=(0, 2, 'c'), value=2), W.measure([1], [0])],
        'if then measure': [W.cc(g('X', 2), bit=1), W.measure([0], [1]), W.cc(g('Z', 2), bit=1)],
        'reset': [g('H', 0), W.reset([0, 1]), g('X', 1), W.reset([2])],
        'same bit': [W.measure([0], [0]), W.measure([2], [0]), W.cc(g('X', 1), bit=0)],
        'compound': [W.comp([g('H', 0), cx(0, 1)]), g('X', 2), W.comp([W.measure([1], [1])]), W.comp([W.cc(g('X', 2), bit=1)])],
        'symbolic': [W.symb('RX', [2], [(0, True)], (0.,), [(2., 'x', .5)]), g('H', 0), g('H', 2)],
        'phase': [g('H', 0), W.base('qc::StandardOperation', 'GPhase', 'gphase', parameter=('vec', (Fl(.5),))), g('H', 1)],
        'controlled phase': [g('H', 0), W.std('GPhase', [], [(0, True), (2, True)], (.5,)), g('X', 2), g('H', 1)],
    }


def check(ctx):
    ctx.rule("reorder", "reordering operations keeps every operation once and the relative order of any two that share a qubit or a classical bit")
    ctx.rule("iomap", "deriving the input/output mapping: the first measurement of each qubit fixes its output, qubits without an output are garbage")
    ctx.rule("reset", "resetting a circuit leaves the content of a newly made one")
    ctx.rule("compound", "a circuit made from a compound operation holds its parts in order on registers large enough for all their qubits and bits")
    ctx.rule("last", "an operation is reported last on its qubits iff no later operation shares one of them")
    F = load(ctx, ['ir'])
    W = World(F)
    ip = Interp(F, max_iter=200)
    ip.max_rec = 6
    lay = {0: 0, 1: 1, 2: 2}
    for label, ops in sequences(W).items():
        for nm, l in (('', lay), (' permuted', {0: 2, 1: 0, 2: 1})):
            C = circuit(l, 3, ops=[W.put(o) for o in ops])
            ctx.guard("reorder", label, reorder, ctx, F, W, ip, C, ops, label + nm)
        C = circuit(lay, 3, ops=[W.put(o) for o in ops])
        ctx.guard("last", label, last, ctx, F, W, ip, C, ops, label)
        ctx.guard("compound", label, from_compound, ctx, F, W, ip, ops, label)
    iomap(ctx, F, W, ip)
    ctx.guard("reset", "reset", reset, ctx, F, W, ip)
    for r, n in (('reorder', 36), ('iomap', 20), ('reset', 10), ('compound', 20), ('last', 40)):
        ctx.need(r, n)


def reorder(ctx, F, W, ip, C, ops, label):
    f = overload(F, 'reorderOperations', 0)
    w = "%s on %s" % (where(f), label)
    s, oc, d2 = call(F, W, ip, C, f, [], w)
    ps = list(rget(C, 'ops')[1])
    if oc[0] == 'throw':
        ctx.bad("reorder", w, "reorder:throws", "reordering throws")
        return
    got = rget(d2, 'ops')
    if got[0] != 'vec':
        raise AnalysisError("operations not decided: %s" % show(got)[:200])
    got = list(got[1])
    ctx.ob(sorted(map(str, got)) == sorted(map(str, ps)), "reorder", w, "reorder:lost", "%d operations become %d" % (len(ps), len(set(map(str, got)))))
    if sorted(map(str, got)) != sorted(map(str, ps)):
        return
    pos = {p: i for i, p in enumerate(got)}
    bad = []
    for i, a in enumerate(ps):
        for j in range(i + 1, len(ps)):
            if wires(W, ops[i]) & wires(W, ops[j]) and pos[a] > pos[ps[j]]:
                bad.append((i, j))
    ctx.ob(not bad, "reorder", w, "reorder:order", "operations %s change their order although they share %s" % (
        bad[:2], [sorted(wires(W, ops[i]) & wires(W, ops[j])) for i, j in bad[:2]]))


def last(ctx, F, W, ip, C, ops, label):
    f = [g for g in F.fns(CLS + '::isLastOperationOnQubit') if 'body' in g and len(g['ps']) == 2][0]
    ps = rget(C, 'ops')[1]
    for i in range(len(ops) + 1):
        w = "%s: operation %d of %s" % (where(f), i, label)
        q = lambda o: {x for x in wires(W, o) if x[0] == 'q'}
        want = i == len(ops) or not any(q(ops[i]) & q(o) for o in ops[i + 1:])
        with ctx.sub("last", w):
            s, oc, d2 = call(F, W, ip, C, f, [('it', ps, i, None), ('it', ps, len(ps), None)], w)
            if oc[0] != 'return' or oc[1][0] != 'b':
                raise AnalysisError("not decided: %s" % show(oc[1])[:100])
            ctx.ob(oc[1][1] == want, "last", w, "last", "reported %s" % oc[1][1])


def from_compound(ctx, F, W, ip, ops, label):
    f = overload(F, 'fromCompoundOperation', 1)
    c = W.comp(ops)
    p = W.put(c)
    w = "%s: %s" % (where(f), label)
    rs = ip.run(f, [('LOCARG', p[1])], st=W.state())
    if len(rs) != 1 or rs[0][1][0] != 'return':
        raise AnalysisError("not decided: %s" % [(r[1][0], r[0].pc[:2]) for r in rs][:2])
    s, oc, _, _ = rs[0]
    v = oc[1]
    v = ip.load(s, v[1]) if v[0] in ('loc', 'ptr') else v
    got = [W.deep(x, s) for x in rget(v, 'ops')[1]]
    want = [W.deep(x) for x in rget(c, 'ops')[1]]
    ctx.ob(got == want, "compound", w, "compound:ops", "the circuit holds %d operations of %d, or others" % (len(got), len(want)))
    ctx.ob(not set(W.pointers(rget(v, 'ops'), s)) & set(W.pointers(c)), "compound", w, "compound:shared", "the circuit shares operations with the compound")
    ws = set().union(*[wires(W, o) for o in ops]) if ops else set()
    nq, nb = max([i for k, i in ws if k == 'q'], default=-1) + 1, max([i for k, i in ws if k == 'c'], default=-1) + 1
    k = Circ(v)
    fs = k.faults()
    ctx.ob(not fs, "compound", w, "compound:registers", '; '.join(fs))
    ctx.ob(k.nq + k.na >= nq and k.nc >= nb, "compound", w, "compound:size", "%d qubits and %d bits for operations on qubit %d and bit %d" % (k.nq, k.nc, nq - 1, nb - 1))


def iomap(ctx, F, W, ip):
    f = overload(F, 'initializeIOMapping', 0)
    g = lambda ty, t: W.std(ty, [t])
    M = W.measure
    seqs = {
        'no measurement': [g('H', 0), g('X', 2)],
        'all in order': [M([0], [0]), M([1], [1]), M([2], [2])],
        'one operation': [M([0, 1, 2], [0, 1, 2])],
        'swapped': [M([0, 1, 2], [2, 0, 1])],
        'single': [g('H', 1), M([1], [0])],
        'two of three': [M([2], [0]), M([0], [1])],
        'measured twice': [M([0], [0]), g('X', 0), M([0, 1], [2, 1])],
        'measured twice first': [M([0], [0]), M([0, 2], [1, 2])],
        'reversed': [M([2, 1, 0], [0, 1, 2])],
        'before barrier': [W.std('Barrier', [0, 1, 2]), M([1, 0], [0, 1])],
    }
    lays = {'identity': {0: 0, 1: 1, 2: 2}, 'permuted': {0: 1, 1: 2, 2: 0}}
    for label, ops in seqs.items():
        for ln, l in lays.items():
            for anc in (None, 2):
                for known in (False, True):
                    C = circuit(l, 3, out=l if known else {}, ops=[W.put(o) for o in ops])
                    if anc is not None:
                        C = rset(C, 'ancillary', ('vec', tuple(('b', i == anc) for i in range(3))))
                        C = rset(rset(C, 'nqubits', I(2)), 'nancillae', I(1))
                    w = "%s: %s on the %s layout%s%s" % (where(f), label, ln, '' if anc is None else ', ancilla %d' % anc, ', known outputs' if known else '')
                    with ctx.sub("iomap", w):
                        s, oc, d2 = call(F, W, ip, C, f, [], w)
                        if oc[0] == 'throw':
                            ctx.bad("iomap", w, "iomap:throws", "deriving the mapping throws")
                            continue
                        want = {}
                        for o in ops:
                            if opsem.tname(o) == 'Measure':
                                for q, b in zip(opsem.qubits(rget(o, 'targets')), [num(x) for x in rget(o, 'classics')[1]]):
                                    want.setdefault(q, b)
                        if not want and known:
                            want = dict(l)
                        used = {i for o in ops for k, i in wires(W, o) if k == 'q'}
                        garb = []
                        for p, lg in l.items():
                            if lg not in want.values() or lg == anc and p not in used:
                                garb.append(lg)
                        want = {p: b for p, b in want.items() if b not in garb}
                        c = Circ(d2)
                        ctx.ob(c.out == want, "iomap", w, "iomap:output", "output permutation %s instead of %s" % (c.out, want))
                        ctx.ob([i for i, x in enumerate(c.garb) if x] == sorted(garb), "iomap", w, "iomap:garbage", "garbage %s instead of %s" % (c.garb, garb))
                        ctx.ob(c.layout == l and rget(d2, 'ops') == rget(C, 'ops'), "iomap", w, "iomap:rest", "the layout or the operations change")


def reset(ctx, F, W, ip):
    f = overload(F, 'reset', 0)
    d = rec(CLS, circuit_state(W, [W.std('H', [0])]))
    s, oc, d2 = call(F, W, ip, d, f, [], where(f))
    for k in fields(F, CLS):
        if k in ('mt', 'seed', 'name'):
            continue          # a reset circuit keeps its name and random generator
        v = rget(d2, k)
        v = rget(v, 'permutation') if k in ('initialLayout', 'outputPermutation') else v
        ctx.ob(v in (('vec', ()), ('map', ()), I(0), Fl(0.)), "reset", where(f) + " " + k, "reset:" + k, "%s is %s after a reset" % (k, show(v)[:100]))
