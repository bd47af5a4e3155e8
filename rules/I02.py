"""Operation-type tables and the circuit builders."""
from rules.common import *
import itertools
import sem, opsem

META = {'None', 'Compound', 'Measure', 'Reset', 'ClassicControlled', 'ATrue', 'AFalse', 'MultiATrue', 'MultiAFalse', 'Move',
        'AodActivate', 'AodDeactivate', 'AodMove', 'OpTypeEnd', 'Barrier'}
# documented spellings (OpenQASM/Qiskit names) and the base gate they stand for
ALIASES = {'id': 'I', 'cnot': 'X', 'cx': 'X', 'mcx': 'X', 'u3': 'U', 'u1': 'P', 'phase': 'P', 'mcp': 'P', 'mcphase': 'P', 'cphase': 'P'}


def one(rs, what):
    r = [(s, oc) for s, oc, _, _ in rs]
    if len(r) != 1:
        raise AnalysisError("%s is not decided (%d paths)" % (what, len(r)))
    return r[0][1]


def check(ctx):
    ctx.rule("names", "toString is total and injective over the operation types, and parsing the printed name gives the type back")
    ctx.rule("alias", "a documented alternative spelling (id, cnot, u1, u3, phase, c-prefixed) parses to the gate it denotes")
    ctx.rule("flags", "a gate type is flagged diagonal iff its unitary is diagonal for all parameters; flipping the inverse flag of a type "
             "that has an inverse partner gives the type of its adjoint")
    ctx.rule("class", "the single-/two-qubit classification agrees with the number of targets the gate's unitary acts on")
    ctx.rule("builder", "every gate method of the circuit appends one operation of the named type with the given controls, targets "
             "and parameters (numeric as numbers, symbolic as expressions)")
    F = load(ctx, ['ir'])
    T = optypes(F)
    ip = Interp(F)
    ts = F.fn('qc::toString', pred=lambda f: len(f['ps']) == 1 and 'OpType' in f['ps'][0]['t'])
    fs = F.fn('qc::opTypeFromString')
    names = {}
    for n, v in T.items():
        if n == 'OpTypeEnd':
            continue
        oc = one(ip.run(ts, [v]), "toString(%s)" % n)
        w = where(ts) + " " + n
        if not ctx.ob(oc[0] == 'return' and oc[1][0] == 's', "names", w, "tostring:" + n, "type %s has no printed name" % n):
            continue
        nm = oc[1][1]
        ctx.ob(nm not in names, "names", w, "dup:" + n, "types %s and %s share the name %r" % (n, names.get(nm), nm))
        names[nm] = n
        oc = one(ip.run(fs, [Sx(nm)]), "opTypeFromString(%s)" % nm)
        ctx.ob(oc[0] == 'return' and num(oc[1]) == num(v), "names", where(fs) + " " + nm, "roundtrip:" + n,
               "the printed name %r of %s parses to %s" % (nm, n, show(oc[1])[:60] if oc[0] == 'return' else 'an exception'))
    inv = {v: k for k, v in names.items()}
    al = dict(ALIASES)
    for nm, n in names.items():
        if n in sem.REF and n not in ('GPhase', 'I'):
            oc = one(ip.run(fs, [Sx('c' + nm)]), "opTypeFromString(c%s)" % nm)
            if oc[0] == 'return':
                al.setdefault('c' + nm, n)
    for a in ('cu3',):
        al[a] = 'U'
    al['cu1'] = 'P'
    for a, n in al.items():
        oc = one(ip.run(fs, [Sx(a)]), "opTypeFromString(%s)" % a)
        ctx.ob(oc[0] == 'return' and num(oc[1]) == num(T[n]), "alias", where(fs) + " " + a, "alias:" + a,
               "%r parses to %s instead of %s" % (a, show(oc[1])[:60] if oc[0] == 'return' else 'an exception', n))
    # unknown names are rejected
    for a in ('', 'qwerty', 'X', 'rxy', 'cc'):
        oc = one(ip.run(fs, [Sx(a)]), "opTypeFromString(%r)" % a)
        ctx.ob(oc[0] == 'throw', "alias", where(fs) + " %r" % a, "reject:" + a, "the unknown name %r is accepted" % a)
    flags(ctx, F, T, ip)
    builders(ctx, F, T, inv)
    ctx.need("names", 60)
    ctx.need("flags", 40)
    ctx.need("class", 50)
    ctx.need("builder", 120)


def flags(ctx, F, T, ip):
    diag = F.fn('qc::Operation::isDiagonalGate')
    fl = {c['n']: c['v'] for c in F.enum('qc::OpTypeFlags')['c']}
    I_ = fl['OpTypeInv']
    byv = {num(v): n for n, v in T.items()}
    s1, s2 = F.fn('qc::isSingleQubitGate'), F.fn('qc::isTwoQubitGate')
    for n in T:
        for k, f in ((1, s1), (2, s2)):
            oc = one(ip.run(f, [T[n]]), f['n'])
            want = n in sem.REF and sem.REF[n][0] == k
            ctx.ob(oc[1] == ('b', want), "class", where(f) + " " + n, "class:%s:%d" % (n, k),
                   "%s is %sclassified as a %s-qubit gate" % (n, '' if not want else 'not ', {1: 'single', 2: 'two'}[k]))
        if n not in sem.REF or n == 'GPhase':
            continue
        k, m, _ = sem.REF[n]
        ms = [sem.ref(n, pt) for pt in sem.POINTS]
        isd = all(abs(M[i][j]) < 1e-12 for M in ms for i in range(len(M)) for j in range(len(M)) if i != j)
        op = opsem.stdop(F, T, n, [sym('p%d' % i) for i in range(m)], range(k))
        oc = one(ip.run(diag, [], this=op), "isDiagonalGate(%s)" % n)
        ctx.ob(oc[1] == ('b', isd), "flags", where(diag) + " " + n, "diag:" + n,
               "%s is%s reported diagonal although its unitary is%s" % (n, '' if not isd else ' not', ' not' if not isd else ''))
        partner = byv.get(num(T[n]) ^ I_)
        if partner is not None and partner in sem.REF:
            good = all(sem.close(sem.ref(partner, pt), sem.dag(sem.ref(n, pt))) for pt in sem.POINTS)
            ctx.ob(good, "flags", "OpType " + n, "inv:" + n, "%s and %s differ only in the inverse flag but are not adjoint" % (n, partner))
        elif partner is None:
            ctx.ob(not (num(T[n]) & I_), "flags", "OpType " + n, "invflag:" + n, "%s carries the inverse flag without a partner" % n)


def builders(ctx, F, T, names):
    """gate methods of qc::QuantumComputation named after gate types"""
    cls = 'qc::QuantumComputation'
    hk = {}

    def h_sym(ip, e, st, fr, wl):
        return [ip.ret(s, ('void',), wl) for s, _ in ip.evs(e['a'], st, fr)]
    hk['qc::QuantumComputation::addVariables'] = h_sym
    hk['qc::QuantumComputation::addVariable'] = h_sym
    ip = Interp(F, hooks=hk)
    for ty, nm in names_by_type(names).items():
        if ty not in sem.REF or ty in ('GPhase',):
            continue
        k, m, _ = sem.REF[ty]
        for pre in ('', 'c', 'mc'):
            fs = [f for f in F.fns('%s::%s%s' % (cls, pre, nm)) if 'body' in f]
            if not fs:
                ctx.bad("builder", cls, "missing:" + pre + nm, "no method %s%s for gate %s" % (pre, nm, ty))
                continue
            f = fs[0]
            for symbolic in ([False, True] if m else [False]):
                with ctx.sub('builder', where(f)):
                    one_builder(ctx, F, T, ip, f, ty, k, m, pre, symbolic)


def names_by_type(names):
    return {k: v for k, v in names.items()}


def one_builder(ctx, F, T, ip, f, ty, k, m, pre, symbolic):
    # U-type constructors canonicalise special angles (decided by I04-style rule elsewhere): use angles that are not special
    ang = [0.7390851, 1.2345678, 2.5772156][:m]
    kinds = [('opt', None)] if symbolic else None
    ps = []
    for i in range(m):
        if symbolic and i == m - 1:
            ps.append(rec('sym::Expression', {'terms': ('vec', (rec('sym::Term', {'coeff': Fl(1.0), 'var': sym('x')}),)), 'constant': Fl(0.25)}))
        else:
            ps.append(Fl(ang[i]))
    ctl = {'': [], 'c': [opsem.ctrl(F, 4, False)], 'mc': [opsem.ctrl(F, 3, True), opsem.ctrl(F, 4, False)]}[pre]
    args = list(ps)
    if pre == 'c':
        args.append(ctl[0])
    elif pre == 'mc':
        args.append(('vec', tuple(ctl)))
    tg = [2, 0][:k]
    args += [I(t) for t in tg]
    this = opsem.circuit(5)
    w = "%s symbolic=%s" % (where(f), symbolic)
    rs = ip.run(f, args, this=this)
    if not rs:
        raise AnalysisError("no path through " + f['n'])
    for s, oc, fr, th in rs:
        if oc[0] == 'throw':
            if any(str(x).startswith('sym') for x in s.pc) or s.pc:
                raise AnalysisError("%s: path condition on a concrete call: %s" % (w, s.pc))
            ctx.bad("builder", w, "builder:%s%s" % (pre, ty), "a valid call throws")
            continue
        ops = rget(ip.load(s, th), 'ops')
        if ops is None or ops[0] != 'vec' or len(ops[1]) != 1:
            ctx.bad("builder", w, "builder:%s%s" % (pre, ty), "the call appends %s" % (show(ops)[:200],))
            continue
        o = ops[1][0]
        o = ip.load(s, o[1]) if o[0] == 'ptr' else o
        good, why = True, ''
        try:
            if opsem.tname(o) != ty:
                good, why = False, "type " + opsem.tname(o)
            elif opsem.qubits(rget(o, 'targets')) != tg:
                good, why = False, "targets %s" % opsem.qubits(rget(o, 'targets'))
            elif sorted(opsem.controls(rget(o, 'controls'))) != sorted(opsem.controls(('vec', tuple(ctl)))):
                good, why = False, "controls %s" % opsem.controls(rget(o, 'controls'))
            elif m:
                env = {sym('x'): 0.613}
                got = opsem.params(o, env)[:m]
                want = [opsem.symparam(p, env) if p[0] == 'rec' else num(p) for p in ps]
                if len(got) != m or any(g is None or abs(g - v) > 1e-12 for g, v in zip(got, want)):
                    good, why = False, "parameters %s instead of %s" % (got, want)
                if (o[1] == 'qc::SymbolicOperation') != symbolic:
                    good, why = False, "class " + o[1]
        except sem.Undefined as e:
            raise AnalysisError("%s: %s" % (w, e))
        ctx.ob(good, "builder", w, "builder:%s%s" % (pre, ty), "%s%s builds an operation with %s" % (pre, ty, why))
