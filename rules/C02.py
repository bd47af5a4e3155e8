"""Optimisation passes on circuits with measurements and resets keep the measured outcomes."""
from rules.common import *
import sem, opsem, prog
from rules.C01 import *
from rules.C01 import ENV, NC


def bits_joint(ops, n, psi, nc=NC):
    return prog.joint(prog.run(ops, n, nc, psi, ENV), [], n)


def pad(psi, n, m):
    """more qubits, in |0>"""
    return list(psi) + [0] * ((1 << m) - (1 << n))


def keeps_outcomes(ctx, PS, rule, name, circuits, **kw):
    PS.jobs += [lambda c, part=part, rule=rule: keep_some(c, PS, rule, name, part, **kw) for part in chunks(circuits, 20)]


def keep_some(ctx, PS, rule, name, circuits, n=3, args=(), relation=None, may_throw=False):
    for ops in circuits:
        W = PS.W
        W.store, W.n = {}, 0
        label = brief([W.deep(o) for o in ops(W)])
        with ctx.sub(rule, "%s on %s" % (name, label)):
            f, oc, after, d2 = PS.run(name, ops, n, args)
            w = where(f) + ": " + label
            if oc[0] == 'throw':
                if may_throw:
                    ctx.ok(rule, w)
                    ctx.count("%s: rejected circuits" % name, 1)
                else:
                    ctx.bad(rule, w, name + ":throws", "%s throws on %s" % (name, label))
                continue
            try:
                bad = relation(PS.before, after, n, d2)
            except sem.Undefined as e:
                bad = "which is not a circuit: %s" % e
            ctx.ob(not bad, rule, w, name + (":later gate" if bad and relation is deferred and late(PS.before) and plainly(PS.before, after, n) else ""), "%s turns %s into %s, %s" % (name, label, brief(after), bad))


def same_outcomes(before, after, n, d2):
    for sd in (1, 2):
        psi = prog.state(n, sd)
        if not prog.same(bits_joint(before, n, psi), bits_joint(after, n, psi)):
            return "which has other measurement outcomes"


def same_everything(before, after, n, d2):
    if not meaning_same(before, after, n):
        return "which does something else"


def final_removed(before, after, n, d2):
    """measuring the qubits that lost their measurement again gives the circuit back"""
    def ms(ops):
        out = []
        for o in leaves(ops):
            if opsem.tname(o) == 'Measure':
                out += list(zip(opsem.qubits(rget(o, 'targets')), [num(c) for c in rget(o, 'classics')[1]]))
        return out
    a, b = ms(before), ms(after)
    gone = list(a)
    for x in b:
        if x not in gone:
            return "with a new measurement"
        # the kept ones are the earlier ones
        gone.remove(x)
    for sd in (1, 2):
        psi = prog.state(n, sd)
        br = prog.run(after, n, NC, psi, ENV)
        for q, c in gone:
            new = []
            for bits, v in br:
                for r in (0, 1):
                    w = [x if (i >> q & 1) == r else 0 for i, x in enumerate(v)]
                    if sum(abs(x) ** 2 for x in w) > 1e-14:
                        new.append((bits[:c] + (r,) + bits[c + 1:], w))
            br = new
        if not prog.same(prog.joint(prog.run(before, n, NC, psi, ENV), list(range(n)), n), prog.joint(br, list(range(n)), n)):
            return "which does something else even when the removed measurements are added again"


def no_final(before, after, n, d2):
    r = final_removed(before, after, n, d2)
    if r:
        return r
    flat = list(leaves(after))
    for i, o in enumerate(flat):
        if opsem.tname(o) == 'Measure' and len(opsem.qubits(rget(o, 'targets'))) == 1:
            q, c = opsem.qubits(rget(o, 'targets'))[0], num(rget(o, 'classics')[1][0])
            later = flat[i + 1:]
            if all(q not in used(x) for x in later if opsem.tname(x) != 'Barrier') and not any('if(' in brief([x]) for x in later):
                return "which still ends with a measurement of qubit %d" % q


def resets_gone(before, after, n, d2):
    if any(opsem.tname(o) == 'Reset' for o in leaves(after)):
        return "which still has a reset"
    m = num(rget(d2, 'nqubits'))
    if m is None or m < n or m > n + 6:
        return "on %s qubits" % m
    for sd in (1, 2):
        psi = prog.state(n, sd)
        if not prog.same(bits_joint(before, n, psi), bits_joint(after, m, pad(psi, n, m))):
            return "which has other measurement outcomes"


def plainly(before, after, n):
    """is the result what moving the measurements to the end (past gates that do not commute with them: the known finding) gives"""
    ops, todo = list(before), []
    i = 0
    while i < len(ops):
        if opsem.tname(ops[i]) != 'Measure':
            i += 1
            continue
        q, c = opsem.qubits(rget(ops[i], 'targets')), [num(x) for x in rget(ops[i], 'classics')[1]]
        if len(q) != 1:
            return False
        todo.append((q[0], c[0]))
        del ops[i]
        at, fixed, j = i, False, i
        while j < len(ops):
            o = ops[j]
            if opsem.tname(o) == 'Measure':
                if num(rget(o, 'classics')[1][0]) == c[0]:
                    break
                at += not fixed
            elif o[1] == 'qc::ClassicControlledOperation' and prog.holds(o, tuple(int(k == c[0]) for k in range(NC))) != prog.holds(o, (0,) * NC):
                inner = rget(o, 'op')[1]
                pos = prog.holds(o, tuple(int(k == c[0]) for k in range(NC)))
                cs = [x for x in rget(inner, 'controls')[1] if num(rget(x, 'qubit')) != q[0]] + [rec('qc::Control', {'qubit': I(q[0]), 'type': ('e', 'qc::Control::Type', 'Pos' if pos else 'Neg', int(pos))})]
                del ops[j]
                ops.insert(at, rset(inner, 'controls', (rget(inner, 'controls')[0], tuple(cs))))
                at, fixed = at + 1, False
                j = at
                continue
            else:
                x = rget(o, 'op')[1] if o[1] == 'qc::ClassicControlledOperation' else o
                fixed = fixed or not commutes_z(x, q[0], n)
                at += not fixed
            j += 1
    if not todo:
        return False
    tail = [a for a in after if opsem.tname(a) == 'Measure']
    if [(opsem.qubits(rget(a, 'targets'))[0], num(rget(a, 'classics')[1][0])) for a in tail] != todo:
        return False
    return meaning_same(ops + tail, after, n)


def commutes_z(o, q, n):
    psi = prog.state(n, 3)
    z = lambda v: [-x if i >> q & 1 else x for i, x in enumerate(v)]
    (_, a), = prog.step(o, n, [((0,) * NC, z(psi))], ENV)
    (_, b), = prog.step(o, n, [((0,) * NC, psi)], ENV)
    return all(abs(x - y) < 1e-9 for x, y in zip(a, z(b)))


def deferred(before, after, n, d2):
    seen = set()
    for o in leaves(after):
        if opsem.tname(o) == 'Measure':
            seen |= set(opsem.qubits(rget(o, 'targets')))
        elif used(o) & seen and opsem.tname(o) != 'Barrier':
            return "which still has an operation after a measurement"
    return same_outcomes(before, after, n, d2)


def check(ctx):
    ctx.rule("final", "removing final measurements removes only measurements after which nothing happens to the qubit and nothing depends on the bit")
    ctx.rule("diagonal", "removing diagonal gates before measurements keeps the joint distribution of all measured bits")
    ctx.rule("resets", "eliminating resets leaves a circuit without resets, on added qubits, with the same joint distribution of all measured bits")
    ctx.rule("defer", "deferring measurements gives a circuit with the same joint distribution of all classical bits in which no gate follows a measurement on its qubit, or throws")
    F = load(ctx, ['ir', 'co'])
    PS = Passes(ctx, F)
    th = ctx.tier == 'thorough'
    M = lambda q, c=None: meas([q], [q if c is None else c])
    alpha = [M(0), M(1), H(0), CX(0, 1), when(X(1), bit=0), BAR(0, 1), M(2)]
    fin = list(tagged(alpha, 2)) + list(tagged(alpha, 3)) + [
        seq(H(0), meas([0, 1], [0, 1])), seq(meas([0, 1], [1, 0]), M(2)), seq(meas([0, 1], [0, 1]), X(1)), seq(meas([0, 1, 2], [0, 1, 2])), seq(comp(H(0), M(0))), seq(comp(M(0), M(1))),
        seq(comp(M(0), H(0))), seq(M(0), comp(M(1), H(0))), seq(comp(M(0), M(1)), X(1)), seq(comp(M(0), M(1)), X(0)), seq(comp(M(1), M(0)), X(1)), seq(comp(H(1), M(0)), M(1)), seq(comp(M(0), X(1)), M(1)), seq(M(1), BAR(0, 1, 2), M(0), BAR(0, 1)), seq(reset(0), M(0)), seq(M(0), reset(0)), seq(M(0), comp(CX(0, 1))),
        seq(M(0), M(0)), seq(M(0), M(0, 1)), seq(M(0, 1), M(1, 0)), seq(CX(0, 1), M(0), M(1), when(X(2), reg=(0, 2, 'c'), value=3)), seq(BAR(0), H(0)), seq(X(0), BAR(0, 1), X(1))]
    keeps_outcomes(ctx, PS, "final", 'removeFinalMeasurements', fin, relation=final_removed)
    dg = [Z(0), T(1), G('Z', [0], [(1, True)]), G('Z', [1], [(0, False)]), RZZ(0, 1), H(0), CX(0, 1), M(0), M(1)]
    di = [seq(H(0), H(1), *x) for k in (2, 3) for x in itertools.product(dg, repeat=k) if any(y in (M, dg[7], dg[8]) for y in x)]
    ends = [seq(M(0)), seq(M(0), M(1)), seq(M(1)), seq(M(1, 0), M(0, 1)), seq(meas([0, 1], [1, 0])), seq(M(2), M(0))]
    mids = [comp(Z(0), T(1)), comp(Z(0), H(0)), comp(H(0), Z(0)), comp(CZ(0, 1), T(0)), comp(CX(1, 0), T(0)), when(Z(0), bit=2), when(CZ(0, 1), bit=2), when(X(0), bit=2), CZ(0, 2), G('Z', [2], [(0, True), (1, True)]), BAR(0, 1), SYMZ(0),
            G('P', [0], [(1, True)], (.7,)), G('RZ', [1], [(0, False)], (.4,)), GPH(), reset(0), M(0, 2), G('GPhase', [], [(0, True)], (.3,)), G('GPhase', [], [(0, True), (1, True)], (.3,))]

    def cat(*xs):
        return lambda W: [o for x in xs for o in x(W)]
    di += [cat(seq(H(0), H(1), H(2)), seq(a), e) for a in mids for e in ends] + [cat(seq(H(0), H(1), H(2)), seq(b, a), e) for a in mids for b in dg[:5] for e in ends[:3]]
    di += [cat(seq(H(0), H(1), H(2)), seq(b, a), e) for a in mids[8:11] for b in (H(2), CX(2, 0), CZ(1, 2), T(2)) for e in ends]
    di += [seq(H(0), H(1), H(2), CX(0, 2), Z(2), CZ(2, 0), M(0), M(2)), seq(H(0), H(1), H(2), CZ(0, 1), CZ(1, 2), CZ(0, 2), M(0), M(1), M(2)), seq(H(0), H(1), CZ(0, 1), H(1), CZ(0, 1), M(0), M(1)),
           seq(H(0), H(1), H(2), CZ(1, 2), CZ(0, 1), CZ(0, 2), M(0), M(1)), seq(H(0), Z(0), M(0), when(H(1), bit=0), CZ(0, 1), M(1))]
    keeps_outcomes(ctx, PS, "diagonal", 'removeDiagonalGatesBeforeMeasure', di, relation=same_outcomes)
    ra = [reset(0), H(0), CX(0, 1), CX(1, 0), M(0), when(X(0), bit=0), comp(H(0), CX(0, 1))]
    rs = [cat(c, seq(M(0, 1), M(1, 2))) for k in (2, 3) for c in tagged(ra, k) if k == 2 or th or True]
    rx = [reset(0, 1), reset(2), comp(reset(0), H(0)), comp(H(0), reset(0), X(0)), comp(CX(0, 1), reset(1), CX(0, 1)), G('X', [0], [(1, False)]), when(CX(0, 1), bit=0), when(comp(H(0), CX(0, 1)), bit=0), comp(M(0), when(X(0), bit=0)),
          BAR(0, 1), SWAP(0, 1), comp(comp(H(0), CX(0, 1))), comp(comp(reset(0), H(0))), CCX(0, 1, 2), SYM(0), SYM(1, [(0, True)]), GPH(), meas([0, 1], [1, 0])]
    rs += [cat(seq(H(0), CX(0, 1)), seq(a, b), seq(M(0, 1), M(1, 2))) for a in rx for b in rx] + [cat(seq(reset(0), reset(1)), seq(a, b), seq(M(0, 1), M(1, 2))) for a in rx[2:] for b in (reset(0), CX(0, 1), CX(1, 0))]
    keeps_outcomes(ctx, PS, "resets", 'eliminateResets', rs, relation=resets_gone)
    da = [H(0), M(0), when(X(1), bit=0), CX(0, 1), CX(1, 2), M(1)]
    ds = [cat(seq(H(0), H(1)), c) for k in (2, 3) for c in tagged(da, k)]
    dx = [when(X(1), bit=0, value=0), when(X(1), bit=0, kind='Neq'), when(X(1), reg=(0, 1, 'c'), value=1, kind='Geq'), when(X(1), reg=(0, 1, 'c'), value=1, kind='Lt'), when(X(1), reg=(0, 1, 'c'), value=1, kind='Neq'), when(X(1), reg=(0, 1, 'c'), value=0, kind='Leq'),
          when(X(1), reg=(0, 1, 'c'), value=0, kind='Gt'), when(X(1), reg=(0, 1, 'c'), value=2), when(X(1), reg=(0, 1, 'c'), value=0), when(X(1), reg=(0, 2, 'c'), value=1), when(CX(2, 1), bit=0), when(SYM(1), bit=0), when(X(1), bit=1), when(GPH(), bit=0), when(comp(X(1), H(2)), bit=0),
          when(X(0), bit=0), when(CX(0, 1), bit=0), M(0), M(0, 1), M(2, 0), M(2), comp(X(1), M(1)), comp(when(X(1), bit=0), H(2)), comp(H(0), H(1)), comp(M(1), M(2)), X(0), SWAP(0, 1), reset(1), BAR(0, 1), when(RX(1), bit=0), meas([0, 1], [0, 1]), meas([1, 2], [1, 2]), CX(2, 0), CZ(0, 2), GPH()]
    ds += [seq(H(0), H(1), M(0), a) for a in dx] + [seq(H(0), H(1), M(0), a, b) for a in dx for b in (when(X(2), bit=0), M(1), H(0), dx[0], M(0))] + [seq(H(0), M(0), H(1), M(1), a, when(H(2), bit=1)) for a in dx]
    ds += [seq(H(0), H(1), meas([0, 1], [0, 1]), a) for a in dx[:12]] + [seq(H(0), H(1), M(0), M(1), when(X(2), bit=0), when(H(2), bit=1), when(X(2), bit=0), M(2)), seq(H(0), H(1), M(0, 1), M(1, 0), when(X(2), bit=0), M(2)),
           seq(H(0), M(0, 1), when(X(1), bit=0), when(X(2), bit=1)), seq(H(0), M(0), when(X(1), bit=0), M(1), when(X(2), bit=1), M(2)), seq(H(0), M(0), H(1), CX(1, 2), when(X(2), bit=0), H(1), M(1, 0), when(X(2), bit=0))]
    keeps_outcomes(ctx, PS, "defer", 'deferMeasurements', ds, relation=deferred, may_throw=True)
    # circuits the pass has to accept
    ok = [seq(H(0), M(0), when(X(1), bit=0)), seq(H(0), M(0), when(X(1), bit=0, value=0), M(1)), seq(H(0), H(1), M(0), M(1), when(X(2), bit=0), when(RX(2), bit=1), M(2)), seq(H(0), M(0), CX(1, 2), when(CX(1, 2), bit=0), M(1), M(2)),
          seq(H(0), M(0), H(1), when(X(1), reg=(0, 1, 'c'), value=1), M(1)), seq(H(0), M(0), M(1)), seq(H(0), CX(0, 1)), seq(M(0), BAR(1, 2), M(1))]
    keeps_outcomes(ctx, PS, "defer", 'deferMeasurements', ok, relation=deferred)
    import os
    PS.jobs = [j for j in PS.jobs if not os.environ.get("VP_ONLY") or os.environ["VP_ONLY"] == j.__defaults__[1]]
    parallel(ctx, PS.jobs)
    if not os.environ.get("VP_ONLY"):
        for r, k in (('final', 380), ('diagonal', 850), ('resets', 700), ('defer', 450)):
            ctx.need(r, k)


def RZZ(a, b):
    return G('RZZ', [a, b], (), (.6,))


def SYMZ(q):
    return lambda W: W.symb('RZ', [q], [], (0.,), [(1.5, 'x', .2)])
