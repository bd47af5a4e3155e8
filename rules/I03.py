"""Copying, comparing and hashing of operations."""
from rules.common import *
import sem, opsem
from ops import World

A, B, C = 0.37, 1.21, -0.58
AOD = ('AodMove', (1, 2), [('X', .5, 1.5), ('Y', .25, 2.)])


def samples(W):
    """label -> builder of one operation with generic content in every field"""
    g = lambda: W.std('RX', [2], [(0, True), (4, False)], (A,))
    return {
        'standard': lambda: W.std('U', [2], [(0, True), (4, False)], (A, B, C)),
        'standard two-qubit': lambda: W.std('XXminusYY', [3, 1], [(0, True), (4, False)], (A, B)),
        'standard diagonal': lambda: W.std('P', [1], [(0, True), (4, False)], (A,)),
        'standard symmetric': lambda: W.std('SWAP', [3, 1], [(0, True)], ()),
        'barrier': lambda: W.std('Barrier', [0, 2, 3]),
        'symbolic': lambda: W.symb('U', [2], [(0, True), (4, False)], (0., B, 0.), [(2., 'x', .5), None, (1., 'y', .25)]),
        'symbolic numeric': lambda: W.symb('RX', [2], [(0, True)], (A,), [None]),
        'measure': lambda: W.measure([2, 0], [1, 3]),
        'reset': lambda: W.reset([2, 0]),
        'if register': lambda: W.cc(g(), reg=(1, 3, 'c'), value=5, kind='Lt'),
        'if register eq': lambda: W.cc(g(), reg=(1, 3, 'c'), value=5),
        'if bit': lambda: W.cc(g(), bit=2, value=0),
        'compound': lambda: W.comp([g(), W.measure([1], [0]), W.cc(W.std('X', [1]), bit=1)], custom=True),
        'compound nested': lambda: W.comp([g(), W.comp([W.std('H', [1])]), W.std('Barrier', [0, 1])], controls=[(4, True)]),
        'compound empty': lambda: W.comp([]),
        'aod': lambda: W.aod(*AOD),
    }


def variants(W):
    """(label, a, b) pairs of operations with different effect"""
    g = lambda t=2, c=((0, True), (4, False)), p=(A,), ty='RX': W.std(ty, [t], list(c), p)
    out = [
        ('gate type', g(), g(ty='RY')),
        ('target', g(), g(t=3)),
        ('control qubit', g(), g(c=((0, True), (3, False)))),
        ('control polarity', g(), g(c=((0, False), (4, False)))),
        ('number of controls', g(), g(c=((0, True),))),
        ('parameter', g(), g(p=(B,))),
        ('last parameter', W.std('U', [0], (), (A, B, C)), W.std('U', [0], (), (A, B, A))),
        ('order of targets', W.std('XXminusYY', [0, 1], (), (A, B)), W.std('XXminusYY', [1, 0], (), (A, B))),
        ('control/target roles', W.std('X', [1], [(0, True)]), W.std('X', [0], [(1, True)])),
        ('diagonal polarity', W.std('P', [1], [(0, True), (2, False)], (A,)), W.std('P', [1], [(0, True), (2, True)], (A,))),
        ('diagonal qubits', W.std('P', [1], [(0, True)], (A,)), W.std('P', [1], [(3, True)], (A,))),
        ('diagonal parameter', W.std('P', [1], [(0, True)], (A,)), W.std('P', [1], [(0, True)], (B,))),
        ('symbolic coefficient', W.symb('RX', [0], [], (0.,), [(2., 'x', .5)]), W.symb('RX', [0], [], (0.,), [(3., 'x', .5)])),
        ('symbolic variable', W.symb('RX', [0], [], (0.,), [(2., 'x', .5)]), W.symb('RX', [0], [], (0.,), [(2., 'y', .5)])),
        ('symbolic constant', W.symb('RX', [0], [], (0.,), [(2., 'x', .5)]), W.symb('RX', [0], [], (0.,), [(2., 'x', .75)])),
        ('symbolic second parameter', W.symb('U', [0], [], (0., 0., C), [(2., 'x', .5), (1., 'y', 0.), None]), W.symb('U', [0], [], (0., 0., C), [(2., 'x', .5), (1., 'z', 0.), None])),
        ('symbolic numeric parameter', W.symb('U', [0], [], (0., 0., C), [(2., 'x', .5), (1., 'y', 0.), None]), W.symb('U', [0], [], (0., 0., B), [(2., 'x', .5), (1., 'y', 0.), None])),
        ('symbolic against numeric', W.symb('RX', [0], [], (0.,), [(2., 'x', .5)]), W.symb('RX', [0], [], (A,), [None])),
        ('symbolic against standard', W.symb('RX', [0], [], (0.,), [(2., 'x', .5)]), W.std('RX', [0], [], (0.,))),
        ('symbolic gate type', W.symb('RX', [0], [], (0.,), [(2., 'x', .5)]), W.symb('RY', [0], [], (0.,), [(2., 'x', .5)])),
        ('symbolic target', W.symb('RX', [0], [], (0.,), [(2., 'x', .5)]), W.symb('RX', [1], [], (0.,), [(2., 'x', .5)])),
        ('symbolic control', W.symb('RX', [0], [(1, True)], (0.,), [(2., 'x', .5)]), W.symb('RX', [0], [(2, True)], (0.,), [(2., 'x', .5)])),
        ('symbolic control polarity', W.symb('RX', [0], [(1, True)], (0.,), [(2., 'x', .5)]), W.symb('RX', [0], [(1, False)], (0.,), [(2., 'x', .5)])),
        ('measured qubits', W.measure([0, 1], [0, 1]), W.measure([0, 2], [0, 1])),
        ('classical bits', W.measure([0, 1], [0, 1]), W.measure([0, 1], [0, 2])),
        ('measurement assignment', W.measure([0, 1], [0, 1]), W.measure([0, 1], [1, 0])),
        ('number of measured qubits', W.measure([0, 1], [0, 1]), W.measure([0], [0])),
        ('reset qubits', W.reset([0, 1]), W.reset([0, 2])),
        ('measure against reset', W.measure([0], [0]), W.reset([0])),
        ('classic against plain', W.cc(g(), bit=2), g()),
        ('control register size', W.cc(g(), reg=(0, 3, 'c'), value=2), W.cc(g(), reg=(0, 2, 'c'), value=2)),
        ('control register name', W.cc(g(), reg=(0, 3, 'c'), value=2), W.cc(g(), reg=(0, 3, 'd'), value=2)),
        ('control bit', W.cc(g(), bit=2), W.cc(g(), bit=1)),
        ('bit against register', W.cc(g(), bit=0), W.cc(g(), reg=(0, 1, 'c'))),
        ('expected value', W.cc(g(), reg=(0, 3, 'c'), value=2), W.cc(g(), reg=(0, 3, 'c'), value=3)),
        ('expected bit', W.cc(g(), bit=2, value=0), W.cc(g(), bit=2, value=1)),
        ('comparison', W.cc(g(), reg=(0, 3, 'c'), value=2, kind='Lt'), W.cc(g(), reg=(0, 3, 'c'), value=2, kind='Geq')),
        ('guarded operation', W.cc(g(), bit=2), W.cc(g(ty='RY'), bit=2)),
        ('number of parts', W.comp([g(), g()]), W.comp([g()])),
        ('order of parts', W.comp([g(), g(ty='RY')]), W.comp([g(ty='RY'), g()])),
        ('last part', W.comp([g(), g()]), W.comp([g(), g(p=(B,))])),
        ('compound against plain', W.comp([g()]), g()),
        ('aod moves', W.aod(*AOD), W.aod('AodMove', (1, 2), [('X', .5, 1.75), ('Y', .25, 2.)])),
        ('aod direction', W.aod('AodMove', (1,), [('X', .5, 1.5)]), W.aod('AodMove', (1,), [('Y', .5, 1.5)])),
        ('aod type', W.aod('AodActivate', (1, 2), [('X', .5, 1.5)]), W.aod('AodDeactivate', (1, 2), [('X', .5, 1.5)])),
    ]
    return out


def equals(W):
    """(label, a, b) pairs of operations with equal effect that must compare equal and hash equally"""
    f = samples(W)
    out = [(k, b(), b()) for k, b in f.items()]
    out += [('measure reordered', W.measure([2, 0], [1, 3]), W.measure([0, 2], [3, 1])),
            ('diagonal control/target', W.std('Z', [1], [(0, True)]), W.std('Z', [0], [(1, True)])),
            ('diagonal three', W.std('P', [1], [(0, True), (2, False)], (A,)), W.std('P', [0], [(1, True), (2, False)], (A,)))]
    return out


HASH = {'qc::StandardOperation': 'Operation', 'qc::NonUnitaryOperation': 'NonUnitaryOperation', 'qc::SymbolicOperation': 'SymbolicOperation',
        'qc::ClassicControlledOperation': 'ClassicControlledOperation', 'qc::CompoundOperation': 'CompoundOperation', 'na::AodOperation': 'Operation'}


def hooks():
    def hc(ip, e, st, fr, wl):
        return [ip.ret(s, vs[-1] if vs[-1][0] == 'throwv' else ap('hash', *vs), wl) for s, vs in ip.evs(e['a'], st, fr)]

    def hcomb(ip, e, st, fr, wl):
        out = []
        for s, l in ip.lv(e['a'][0], st, fr):
            for s2, v in ip.ev(e['a'][1], s, fr):
                s2 = s2.copy()
                ip.save(s2, l, ap('hash', ip.load(s2, l), v))
                out.append(ip.ret(s2, ('void',), wl))
        return out
    def hvar(ip, e, st, fr, wl):
        return [ip.ret(s, ap('hash', *vs), wl) for s, vs in ip.evs(e['a'][-1:], st, fr)]
    return {'std::hash<sym::Variable>::operator()': hvar, 'qc::combineHash': hc, 'qc::hashCombine': hcomb}


def fields(F, cls):
    out = []
    while cls:
        ks = F.cls_by_name.get(cls, [])
        if not ks:
            raise AnalysisError("class %s vanished" % cls)
        out += [f['n'] for f in ks[0]['fields'] if not f.get('static') and f['n'].upper() != f['n']]
        cls = ks[0]['bases'][0]['n'] if ks[0]['bases'] else None
    return out


def check(ctx):
    ctx.rule("copy", "a clone, copy-constructed or copy-assigned operation has every data member equal to the original's, and owns its own children")
    ctx.rule("equal", "operations with equal content compare equal, in both directions")
    ctx.rule("differ", "operations that differ in any content that affects their meaning do not compare equal, in either direction")
    ctx.rule("hash", "operations that compare equal hash equally")
    ctx.rule("perm", "an operation equals its relabelled self when compared under that relabelling")
    F = load(ctx, ['ir', 'na'])
    W = World(F)
    ip = Interp(F, hooks=hooks())
    for label, b in samples(W).items():
        op = b()
        W.fields = fields(F, op[1])
        with ctx.sub("copy", label):
            have = {k for k, _ in op[3]}
            if have != set(W.fields):
                raise AnalysisError("data members of %s are %s, the analysed object has %s" % (op[1], sorted(W.fields), sorted(have)))
            copies(ctx, F, W, ip, label, op, samples(W))
    for label, a, b in equals(W):
        eq(ctx, F, W, ip, "equal", label, a, b, True)
        with ctx.sub("hash", label):
            hs = [hashof(F, W, ip, x) for x in (a, b)]
            ctx.ob(hs[0] == hs[1], "hash", "std::hash<%s> on %s" % (a[1], label), "hash:" + label, "equal operations hash differently")
    for label, a, b in variants(W):
        eq(ctx, F, W, ip, "differ", label, a, b, False)
    perms(ctx, F, W, ip)
    ctx.guard("copy", "circuits", circuits, ctx, F, W, ip)
    for r, n in (('copy', 30), ('equal', 30), ('differ', 60), ('hash', 15), ('perm', 10)):
        ctx.need(r, n)


def method(F, cls, name, nps):
    c = cls
    while c:
        fs = [f for f in F.functions.values() if f['n'] == c + '::' + name and len(f['ps']) == nps and 'body' in f]
        if fs:
            return fs[0]
        ks = F.cls_by_name.get(c, [])
        c = ks[0]['bases'][0]['n'] if ks and ks[0]['bases'] else None
    raise AnalysisError("anchor vanished: %s::%s" % (cls, name))


def copies(ctx, F, W, ip, label, op, other):
    p = W.put(op)
    want = W.deep(op)
    f = method(F, op[1], 'clone', 0)

    def judge(st, v, w, key):
        got = W.deep(v, st)
        if got != want:
            d = [k for k, x in want[3] if dict(got[3]).get(k) != x] if got[0] == 'rec' and got[1] == op[1] else ['class']
            ctx.bad("copy", w, key + ':' + ','.join(d), "the copy differs in %s" % ', '.join(d))
        else:
            mine = set(W.pointers(op))
            ctx.ob(not mine & set(W.pointers(v, st)), "copy", w, key + ':shared', "the copy shares children with the original")
        ctx.ob(W.deep(W.get(p, st), st) == want, "copy", w, key + ':original', "copying changes the original")
    for s, oc, fr, th in ip.run(f, [], this=("LOCARG", p[1]), st=W.state()):
        if oc[0] != 'return' or oc[1][0] != 'ptr':
            raise AnalysisError("clone: %s" % (oc,))
        judge(s, ip.load(s, oc[1][1]), "%s on %s" % (where(f), label), 'clone:' + op[1])
    # assignment over an operation of the same class with other content
    asg = [f for f in F.functions.values() if f['n'] == op[1] + '::operator=' and 'body' in f and '&&' not in f['ps'][0]['t']]
    for f in asg:
        if f.get('defaulted') or f.get('implicit'):
            continue
        for l2, b in other.items():
            tgt = b()
            if tgt[1] != op[1]:
                continue
            t = W.put(tgt)
            w = "%s from %s to %s" % (where(f), label, l2)
            with ctx.sub("copy", w):
                for s, oc, fr, th in ip.run(f, [('LOCARG', p[1])], this=("LOCARG", t[1]), st=W.state()):
                    judge(s, W.get(t, s), w, 'assign:' + op[1])


def eq(ctx, F, W, ip, rule, label, a, b, want):
    pa, pb = W.put(a), W.put(b)
    for x, y, d in ((pa, pb, ''), (pb, pa, ' (swapped)')):
        cls = W.get(x)[1]
        w = "%s%s" % (label, d)
        with ctx.sub(rule, w):
            for nm, n in (('equals', 1), ('operator==', 1)):
                f = method(F, cls if nm == 'equals' else 'qc::Operation', nm, n)
                for s, oc, fr, th in ip.run(f, [('LOCARG', y[1])], this=("LOCARG", x[1]), st=W.state()):
                    if oc[0] == 'throw':
                        ctx.bad(rule, where(f) + ": " + w, "%s:%s" % (rule, label), "comparison throws %s" % (oc[1],))
                        continue
                    v = ip.truth(oc[1])
                    if v is None:
                        raise AnalysisError("comparison not decided: %s under %s" % (show(oc[1])[:200], s.pc[:3]))
                    ctx.ob(v == want, rule, where(f) + ": " + w, "%s:%s" % (rule, label),
                           "operations differing in %s compare equal" % label if not want else "equal operations do not compare equal")


def hashof(F, W, ip, op):
    n = 'std::hash<qc::%s>::operator()' % HASH[op[1]]
    fs = [f for f in F.functions.values() if f['n'] == n and 'body' in f]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: " + n)
    p = W.put(op)
    rs = ip.run(fs[0], [('LOCARG', p[1])], st=W.state())
    if len(rs) != 1 or rs[0][1][0] != 'return':
        raise AnalysisError("hash not decided: %s" % [r[1] for r in rs][:2])
    return rs[0][1][1]


def perms(ctx, F, W, ip):
    m = {0: 3, 1: 0, 2: 4, 3: 1, 4: 2}

    def relabel(v):
        if v[0] == 'rec':
            d = {}
            for k, x in v[3]:
                if k == 'targets':
                    x = ('vec', tuple(I(m[num(t)]) for t in x[1]))
                elif k == 'controls':
                    x = ('vec', tuple(sorted((rset(c, 'qubit', I(m[num(rget(c, 'qubit'))])) for c in x[1]), key=lambda c: num(rget(c, 'qubit')))))
                elif k == 'op':
                    x = W.put(relabel(W.get(x)))
                elif k == 'ops':
                    x = ('vec', tuple(W.put(relabel(W.get(y))) for y in x[1]))
                d[k] = x
            return ('rec', v[1], v[2], tuple(sorted(d.items())))
        return v
    P = opsem.perm(5, m)
    none = rec('qc::Permutation', {'permutation': ('map', ())})
    for label, b in samples(W).items():
        op = b()
        a, r = W.put(op), W.put(relabel(op))
        f = method(F, op[1], 'equals', 3)
        for x, y, p1, p2, want, d in ((a, r, P, none, True, 'left'), (r, a, none, P, True, 'right'), (a, a, P, P, True, 'both'), (a, a, P, none, len(W.pointers(op)) == 0 and 'empty' in label, 'wrong')):
            w = "%s: %s, relabelling on %s side" % (where(f), label, d)
            with ctx.sub("perm", w):
                for s, oc, fr, th in ip.run(f, [('LOCARG', y[1]), p1, p2], this=("LOCARG", x[1]), st=W.state()):
                    v = ip.truth(oc[1]) if oc[0] == 'return' else None
                    if v is None:
                        raise AnalysisError("comparison not decided: %s" % (oc,))
                    ctx.ob(v == want, "perm", w, "perm:" + label, "comparison under a relabelling gives %s" % v)


def circuit_state(W, ops):
    """a circuit with generic content in every data member"""
    q = lambda i, n, nm, k='qc::QuantumRegister': (Sx(nm), rec(k, {'startIndex': I(i), 'size': I(n), 'name': Sx(nm)}))
    P = lambda m: rec('qc::Permutation', {'permutation': ('map', tuple((I(a), I(b)) for a, b in m))})
    return {'ops': ('vec', tuple(W.put(o) for o in ops)), 'nqubits': I(3), 'nclassics': I(2), 'nancillae': I(1), 'name': Sx('circ'),
            'quantumRegisters': ('map', (q(0, 3, 'q'),)), 'classicalRegisters': ('map', (q(0, 2, 'c', 'qc::ClassicalRegister'),)),
            'ancillaRegisters': ('map', (q(3, 1, 'anc'),)), 'ancillary': ('vec', tuple(('b', x) for x in (False, False, False, True))),
            'garbage': ('vec', tuple(('b', x) for x in (False, True, False, False))), 'mt': sym('mt'), 'seed': I(7), 'globalPhase': Fl(.5),
            'occurringVariables': ('vec', (W.var('x'),)), 'initialLayout': P([(0, 1), (1, 0), (2, 2), (3, 3)]),
            'outputPermutation': P([(0, 2), (2, 0), (1, 1)])}


def circuits(ctx, F, W, ip):
    cls = 'qc::QuantumComputation'
    g = lambda ty='RX', p=(A,): W.std(ty, [2], [(0, True)], p)
    ops = lambda: [g(), W.cc(W.std('X', [1]), bit=1, value=0), W.comp([g(), W.std('H', [0])]), W.symb('RX', [0], [], (0.,), [(2., 'x', .5)])]
    d = circuit_state(W, ops())
    want = set(fields(F, cls))
    if want != set(d):
        raise AnalysisError("data members of the circuit are %s, the analysed object has %s" % (sorted(want), sorted(d)))
    src = W.put(rec(cls, d))
    ref = W.deep(W.get(src))
    mine = set(W.pointers(W.get(src)))

    def judge(s, v, w, key):
        got = W.deep(v, s)
        if got[0] != 'rec':
            raise AnalysisError("no circuit: %s" % show(got)[:100])
        bad = [k for k, x in ref[3] if dict(got[3]).get(k) != x]
        ctx.ob(not bad, "copy", w, key + ':' + ','.join(bad), "the copied circuit differs in %s" % ', '.join(bad))
        ctx.ob(not mine & set(W.pointers(v, s)), "copy", w, key + ':shared', "the copied circuit shares operations with the original")
        ctx.ob(W.deep(W.get(src, s), s) == ref, "copy", w, key + ':original', "copying changes the original circuit")
    for f in [f for f in F.functions.values() if f['n'] == cls + '::operator=' and 'body' in f and '&&' not in f['ps'][0]['t'] and not f.get('defaulted')]:
        for l2, dd in (('empty', {k: (('vec', ()) if x[0] == 'vec' else ('map', ()) if x[0] == 'map' else I(0) if x[0] == 'i' else Fl(0.) if x[0] == 'f' else Sx('') if x[0] == 's' else x)
                                  for k, x in circuit_state(W, []).items()}), ('other', circuit_state(W, [g('RY'), g('RZ')]))):
            dd['initialLayout'] = dd['outputPermutation'] = rec('qc::Permutation', {'permutation': ('map', ())})
            t = W.put(rec(cls, dd))
            w = "%s over %s circuit" % (where(f), l2)
            with ctx.sub("copy", w):
                for s, oc, fr, th in ip.run(f, [('LOCARG', src[1])], this=('LOCARG', t[1]), st=W.state()):
                    judge(s, W.get(t, s), w, 'assign:circuit')
    ct = [f for f in F.functions.values() if f['n'] == cls + '::QuantumComputation' and len(f['ps']) == 1 and 'body' in f and
          'QuantumComputation' in f['ps'][0]['t'] and '&&' not in f['ps'][0]['t']]
    for f in ct:
        w = where(f)
        with ctx.sub("copy", w):
            t = W.put(rec(cls, {}))
            for s, oc, fr, th in ip.run(f, [('LOCARG', src[1])], this=('LOCARG', t[1]), st=W.state()):
                judge(s, W.get(t, s), w, 'construct:circuit')
    # comparison
    alt = {'nqubits': I(4), 'nclassics': I(3), 'nancillae': I(2), 'seed': I(8), 'globalPhase': Fl(.75),
           'ancillary': ('vec', tuple(('b', x) for x in (False, False, True, True))), 'garbage': ('vec', tuple(('b', x) for x in (True, True, False, False))),
           'occurringVariables': ('vec', (W.var('y'),)),
           'initialLayout': rec('qc::Permutation', {'permutation': ('map', tuple((I(i), I(i)) for i in range(4)))}),
           'outputPermutation': rec('qc::Permutation', {'permutation': ('map', tuple((I(i), I(i)) for i in range(3)))}),
           'quantumRegisters': ('map', ()), 'classicalRegisters': ('map', ()), 'ancillaRegisters': ('map', ())}
    seqs = {'number of operations': ops()[:-1], 'last operation': ops()[:-1] + [g('RY')], 'first operation': [g('RY')] + ops()[1:],
            'order of operations': [ops()[i] for i in (1, 0, 2, 3)], 'parameter': [g(p=(B,))] + ops()[1:]}
    fs = [f for f in F.functions.values() if f['n'] == cls + '::operator==' and 'body' in f]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: %s::operator==" % cls)
    f = fs[0]
    pairs = [('same circuit', circuit_state(W, ops()), True)]
    for k, v in alt.items():
        c = circuit_state(W, ops())
        c[k] = v
        pairs.append((k, c, False))
    for k, v in seqs.items():
        pairs.append((k, circuit_state(W, v), False))
    for k, c, eqv in pairs:
        o = W.put(rec(cls, c))
        for x, y, d in ((src, o, ''), (o, src, ' (swapped)')):
            rule = "equal" if eqv else "differ"
            w = "%s: circuits differing in %s%s" % (where(f), k, d)
            with ctx.sub(rule, w):
                for s, oc, fr, th in ip.run(f, [('LOCARG', y[1])], this=('LOCARG', x[1]), st=W.state()):
                    v = ip.truth(oc[1]) if oc[0] == 'return' else None
                    if v is None:
                        raise AnalysisError("comparison not decided: %s" % (oc,))
                    ctx.ob(v == eqv, rule, w, "circuit:" + k, "circuits differing in %s compare %s" % (k, 'equal' if v else 'unequal'))
