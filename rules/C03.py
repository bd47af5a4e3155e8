"""Passes on permutations keep what the circuit does from its initial layout to its output permutation."""
from rules.common import *
import sem, opsem, prog
from rules.C01 import *
from rules.C01 import ENV, NC


def perm_of(m):
    m = rget(m, 'permutation') if m[0] == 'rec' else m
    return {num(k): num(v) for k, v in m[1]}


def logical(ops, lay, out, n, sd, wires):
    """outcomes and reduced state of the logical qubits named by the output permutation, in order"""
    psi = prog.state(n, sd)
    amp = [0] * (1 << wires)
    for i, x in enumerate(psi):
        amp[sum((i >> lay[p] & 1) << p for p in lay)] = x
    br = prog.run(ops, wires, NC, amp, ENV)
    inv = {l: p for p, l in out.items()}
    if len(inv) != len(out):
        raise sem.Undefined("two qubits hold the same output")
    return prog.joint(br, [inv[l] for l in sorted(inv)], wires)


def elide(ctx, PS, circuits, lay, out, n):
    for ops in circuits:
        W = PS.W
        W.store, W.n = {}, 0
        label = brief([W.deep(o) for o in ops(W)]) + " with layout %s, output %s" % (lay, out)
        with ctx.sub("elide", label):
            f, oc, after, d2 = PS.run('elidePermutations', ops, n, layout=lay, out=out)
            w = where(f) + ": " + label
            if oc[0] == 'throw':
                ctx.bad("elide", w, "elidePermutations:throws", "elidePermutations throws on " + label)
                continue
            bad, lay2, out2 = None, {}, {}
            try:
                lay2, out2 = perm_of(rget(d2, 'initialLayout')), perm_of(rget(d2, 'outputPermutation'))
                if not ops(W):
                    lay2 = lay2
                if set(out2.values()) != set(out.values()):
                    bad = "other outputs"
                elif sorted(lay2.values()) != sorted(lay.values()):
                    bad = "another set of input qubits"
                else:
                    wires = max(list(lay) + list(out) + list(lay2) + list(out2)) + 1
                    for sd in (1, 2):
                        if not prog.same(logical(PS.before, lay, out, n, sd, wires), logical(after, lay2, out2, n, sd, wires)):
                            bad = "which does something else"
            except sem.Undefined as e:
                bad = "which is not a circuit: %s" % e
            ctx.ob(not bad, "elide", w, "elidePermutations", "elidePermutations turns %s into %s with layout %s, output %s: %s" % (label, brief(after), lay2, out2, bad))
            if not bad and any(opsem.tname(o) == 'SWAP' and not opsem.controls(rget(o, 'controls')) for o in leaves(after)):
                ctx.bad("form", w, "elidePermutations:form", "elidePermutations leaves a SWAP in " + label)
            elif not bad:
                ctx.ok("form", w)


def swaps(ops):
    for o in leaves(ops):
        if opsem.tname(o) == 'SWAP' and not opsem.controls(rget(o, 'controls')) and len(opsem.qubits(rget(o, 'targets'))) == 2:
            yield opsem.qubits(rget(o, 'targets'))


def back(ctx, PS, circuits, out, n):
    for ops in circuits:
        W = PS.W
        W.store, W.n = {}, 0
        label = brief([W.deep(o) for o in ops(W)]) + " on %d qubits, output %s" % (n, out)
        with ctx.sub("back", label):
            f, oc, after, d2 = PS.run('backpropagateOutputPermutation', ops, n, out=out)
            w = where(f) + ": " + label
            if oc[0] == 'throw':
                ctx.bad("back", w, "backpropagate:throws", "backpropagateOutputPermutation throws on " + label)
                continue
            lay2, out2 = perm_of(rget(d2, 'initialLayout')), perm_of(rget(d2, 'outputPermutation'))
            bad = None
            if brief(after) != brief(PS.before) or after != PS.before:
                bad = "and changes the operations"
            elif out2 != out:
                bad = "and changes the output permutation to %s" % out2
            elif sorted(lay2) != list(range(n)) or sorted(lay2.values()) != list(range(n)):
                bad = "which is not a permutation of the qubits"
            else:
                at = dict(lay2)
                for a, b in swaps(after):
                    at[a], at[b] = at[b], at[a]
                if any(at[p] != l for p, l in out.items()):
                    bad = "which the SWAPs take to %s" % at
            ctx.ob(not bad, "back", w, "backpropagate", "for %s backpropagateOutputPermutation gives the layout %s, %s" % (label, lay2, bad))


def check(ctx):
    ctx.rule("elide", "eliding SWAPs gives a circuit that takes the logical input qubits (initial layout) to the same outcomes and output qubits (output permutation)")
    ctx.rule("form", "no uncontrolled, unconditional SWAP is left")
    ctx.rule("back", "backpropagating gives a complete initial layout which the circuit's uncontrolled SWAPs take to the output permutation, and leaves everything else as it is")
    F = load(ctx, ['ir', 'co'])
    PS = Passes(ctx, F)
    th = ctx.tier == 'thorough'
    S_ = [SWAP(0, 1), SWAP(2, 1), H(0), CX(0, 1), CX(1, 2), meas([0], [0]), when(X(1), bit=0)]
    more = [SWAP(0, 2), G('SWAP', [0, 1], [(2, True)]), G('SWAP', [1, 2], [(0, False)]), comp(SWAP(0, 1), H(0)), comp(H(1), SWAP(1, 2), CX(1, 0)), comp(SWAP(0, 1)), comp(SWAP(0, 1), SWAP(1, 2), T(2)), comp(comp(SWAP(1, 0), T(1)), X(0)),
            comp(), when(SWAP(0, 1), bit=0), when(comp(SWAP(0, 1), H(1)), bit=0), reset(1), meas([0, 2], [0, 1]), SYM(0, [(1, True)]), GPH(), BAR(0, 1), G('iSWAP', [0, 1]), G('RZX', [1, 2], (), (.4,)), comp(CX(0, 1), H(0)), comp(meas([1], [1]), SWAP(0, 1), X(0)),
            comp(comp(comp(SWAP(0, 1)), SWAP(1, 2)), SWAP(0, 1), S(0)), ID(2)]
    lays = [({0: 0, 1: 1, 2: 2}, {0: 0, 1: 1, 2: 2}), ({0: 2, 1: 0, 2: 1}, {0: 1, 1: 2, 2: 0}), ({0: 1, 1: 0, 2: 2}, {0: 0, 2: 2})]
    jobs = []

    def job(fn, cs, *a):
        jobs.extend(lambda c, part=part: fn(c, PS, part, *a) for part in chunks(cs, 60))
    for lay, out in lays:
        job(elide, list(tagged(S_, 2)) + [x for x in tagged(S_, 3)] + ([x for x in tagged(S_[:5], 4)] if th else []), lay, out, 3)
        job(elide, [seq(a) for a in more] + [seq(a, b) for a in S_[:5] for b in more] + [seq(a, b) for a in more for b in S_[:5]] + [seq(a, b, c) for a in more for b in S_[:2] for c in (CX(0, 1), CX(1, 2))], lay, out, 3)
    two = [SWAP(2, 4), H(2), CX(4, 2), meas([2], [0]), comp(SWAP(4, 2), T(4)), when(X(4), bit=0)]
    for lay, out in (({2: 0, 4: 1}, {2: 1, 4: 0}), ({2: 1, 4: 0}, {2: 1, 4: 0}), ({2: 1, 4: 0}, {4: 0}), ({2: 1, 4: 0}, {})):
        job(elide, [seq(a) for a in two] + [seq(a, b) for a in two for b in two] + [seq(a, b, c) for a in two for b in two for c in two[:3]], lay, out, 2)
    sw = [SWAP(0, 1), SWAP(1, 2), SWAP(3, 0), CX(0, 1), comp(SWAP(2, 3), H(0), SWAP(0, 2)), G('SWAP', [0, 1], [(2, True)])]
    outs = [{0: 0, 1: 1, 2: 2, 3: 3}, {0: 3, 1: 0, 2: 1, 3: 2}, {0: 0}, {0: 1}, {3: 0}, {0: 3, 1: 2}, {1: 0, 2: 1}, {1: 3, 3: 1}, {0: 2, 1: 0, 2: 1}, {}, {2: 3}]
    for out in outs:
        job(back, list(tagged(sw, 1)) + list(tagged(sw, 2)) + list(tagged(sw[:3] + sw[4:5], 3 if not th else 4)) + [seq(H(0)), seq(comp(comp(SWAP(0, 1)), SWAP(1, 2))), seq(meas([0], [0])), seq(when(SWAP(0, 1), bit=0)), seq(G('iSWAP', [0, 1]))], out, 4)
    parallel(ctx, jobs)
    for r, k in (("elide", 1700), ("form", 1700), ("back", 1000)):
        ctx.need(r, k)
