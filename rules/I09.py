"""Circuit builders: range checks, recorded variables, measurement helpers."""
from rules.common import *
import opsem
from ops import World
from rules.I06 import P, call, CLS

QT, CT, CS = 'qc::Qubit', 'qc::Control', 'qc::Controls'


def classify(F, f):
    """kinds of a builder's parameters, or None when it is no builder"""
    out = []
    for p in f['ps']:
        t, n = p['t'], p['n']
        ty = t.replace('const ', '').replace('&', '').strip()
        if 'variant' in ty:
            out.append('param')
        elif ty in ('qc::Control', 'struct qc::Control'):
            out.append('control')
        elif 'std::set<qc::Control' in ty or ty == 'qc::Controls':
            out.append('controls')
        elif 'vector<unsigned int' in ty or ty == 'qc::Targets':
            out.append('qubits')
        elif 'vector<unsigned long' in ty:
            out.append('bits')
        elif 'vector<double' in ty:
            out.append('params')
        elif 'ClassicalRegister' in ty:
            out.append('reg')
        elif 'OpType' in ty:
            out.append('optype')
        elif 'ComparisonKind' in ty:
            out.append('cmp')
        elif ty in ('unsigned int', 'qc::Qubit'):
            out.append('qubit')
        elif ty in ('unsigned long', 'qc::Bit', 'std::size_t', 'std::uint64_t'):
            out.append('bit' if 'it' in n.lower() else 'value')
        else:
            return None
    return out


def check(ctx):
    ctx.rule("reject", "a builder called with any single qubit or bit outside the circuit throws and appends nothing")
    ctx.rule("accept", "a builder called with qubits and bits of the circuit appends exactly one operation on exactly those")
    ctx.rule("variables", "a builder called with symbolic parameters records exactly their variables as occurring in the circuit")
    ctx.rule("measure", "measuring all qubits, or according to the output permutation, measures each qubit once into its bit")
    F = load(ctx, ['ir'])
    W = World(F)
    ip = Interp(F)
    fs = []
    for f in F.functions.values():
        if not f['n'].startswith(CLS + '::') or 'body' not in f or not f['ps'] or f.get('static'):
            continue
        k = classify(F, f)
        if not k or f.get('rt') != 'void':
            continue
        nm = f['n'].split('::')[-1]
        if nm.startswith('check') or nm.startswith('add') or nm.startswith('set') or nm == 'emplace_back' or not ({'qubit', 'qubits'} & set(k)):
            continue
        fs.append((f, k, nm))
    ctx.count("builder methods", len(fs))
    # physical qubit 1 has been removed from the circuit, 5 and 9 never existed
    lay = {0: 0, 2: 1, 3: 2, 4: 3}
    perm = {0: 2, 2: 0, 3: 3, 4: 1}
    for layname, l in (('gap', lay), ('permuted', perm)):
        C = circuit(l)
        for f, k, nm in sorted(fs, key=lambda x: (x[0]['n'], x[0]['l'])):
            if layname == 'permuted' and nm not in ('rx', 'mcx', 'measure', 'barrier', 'reset'):
                continue
            builder(ctx, F, W, ip, C, f, k, nm, l)
    for f, k, nm in fs:
        if 'param' in k:
            variables(ctx, F, W, f, k, nm)
    ctx.guard("measure", "measureAll", measure_all, ctx, F, W, ip)
    ctx.guard("measure", "appendMeasurementsAccordingToOutputPermutation", measure_out, ctx, F, W, ip)
    for r, n in (('reject', 250), ('accept', 100), ('variables', 40), ('measure', 6)):
        ctx.need(r, n)


def circuit(l, nc=3, out=None, regs=True, **kw):
    n = len(l)
    d = opsem.circuit(n, nc=nc, **kw)
    d = rset(rset(d, 'initialLayout', P(l)), 'outputPermutation', P(out if out is not None else l))
    R = lambda k, s, z, nm: (Sx(nm), rec(k, {'startIndex': I(s), 'size': I(z), 'name': Sx(nm)}))
    d = rset(d, 'quantumRegisters', ('map', tuple(R('qc::QuantumRegister', p, 1, 'q_%d' % p) for p in sorted(l))))
    d = rset(d, 'classicalRegisters', ('map', (R('qc::ClassicalRegister', 0, nc, 'c'),) if nc else ()))
    d = rset(d, 'ancillaRegisters', ('map', ()))
    return rset(d, 'occurringVariables', ('vec', ()))


GOOD = [0, 3, 2, 4]


def arguments(F, W, k, bad=None, badq=9, symbolic=None):
    """argument values for the parameter kinds, with one slot out of range; returns (args, slots, qubits, controls, bits)"""
    qs = list(GOOD)
    slots, args, tq, cq, bits = [], [], [], [], []

    def take(kind):
        slots.append(kind)
        me = len(slots) - 1
        if kind == 'q':
            g = qs.pop(0)
            return badq if bad == me else g
        return 3 if bad == me else 1
    np_ = 0
    for x in k:
        if x == 'param':
            v = Fl((0.7390851, 1.2345678, 2.5772156)[np_])
            if symbolic and symbolic[np_]:
                v = rec('sym::Expression', {'terms': ('vec', tuple(rec('sym::Term', {'coeff': Fl(1.5), 'var': W.var(c)}) for c in symbolic[np_])), 'constant': Fl(.25)})
            args.append(v)
            np_ += 1
        elif x == 'control':
            q = take('q')
            cq.append((q, False))
            args.append(opsem.ctrl(F, q, False))
        elif x == 'controls':
            q1, q2 = take('q'), take('q')
            cs = sorted([(q1, False), (q2, True)])
            cq += cs
            args.append(('vec', tuple(opsem.ctrl(F, q, p) for q, p in cs)))
        elif x == 'qubit':
            q = take('q')
            tq.append(q)
            args.append(I(q))
        elif x == 'qubits':
            a, b = take('q'), take('q')
            tq += [a, b]
            args.append(('vec', (I(a), I(b))))
        elif x == 'bits':
            b1 = take('b')
            b2 = take('b')
            if b2 == 1:
                b2 = 0
            bits += [b1, b2]
            args.append(('vec', (I(b1), I(b2))))
        elif x == 'bit':
            b = take('b')
            bits.append(b)
            args.append(I(b))
        elif x == 'reg':
            slots.append('b')
            big = bad == len(slots) - 1
            # the last bit of the register decides
            bits.append((1, 3 if big else 2))
            args.append(rec('qc::ClassicalRegister', {'startIndex': I(1), 'size': I(3 if big else 2), 'name': Sx('c')}))
        elif x == 'optype':
            args.append(W.T['X'])
        elif x == 'cmp':
            args.append(W.K['Lt' if 'reg' in k else 'Neq'])
        elif x == 'value':
            args.append(I(2 if 'reg' in k else 1))
        elif x == 'params':
            args.append(('vec', ()))
    return args, slots, tq, cq, bits


def appended(W, s, d, d2):
    ops = rget(d2, 'ops')
    if ops is None or ops[0] != 'vec':
        raise AnalysisError("operations not decided")
    return [W.deep(o, s)[1] for o in ops[1][len(rget(d, 'ops')[1]):]]


def builder(ctx, F, W, ip, C, f, k, nm, l):
    args, slots, tq, cq, bits = arguments(F, W, k)
    w = "%s%s" % (where(f), '' if l[0] == 0 else ' permuted layout')
    sig = "%s(%s)" % (nm, ','.join(k))
    with ctx.sub("accept", w):
        s, oc, d2 = call(F, W, ip, C, f, args, w)
        if oc[0] == 'throw':
            ctx.bad("accept", w, "throws:" + sig, "a valid call throws")
        else:
            ops = appended(W, s, C, d2)
            good = len(ops) == 1
            if good:
                o = ops[0]
                if o[1] == 'qc::ClassicControlledOperation':
                    creg, cbit = rget(o, 'controlRegister'), rget(o, 'controlBit')
                    b = bits[0]
                    if isinstance(b, tuple):
                        cr = creg[1] if creg[0] == 'opt' else None
                        good = cr is not None and (num(rget(cr, 'startIndex')), num(rget(cr, 'size'))) == b and cbit == ('nullopt',)
                    else:
                        good = cbit == ('opt', I(b)) and creg == ('nullopt',)
                    cond = (rget(o, 'comparisonKind')[2], num(rget(o, 'expectedValue')))
                    good = good and cond in ((('Lt', 2),) if 'reg' in k else (('Neq', 1), ('Eq', 0)))
                    o = rget(o, 'op')[1]
                elif bits:
                    good = [num(x) for x in rget(o, 'classics')[1]] == bits
                good = good and sorted(opsem.qubits(rget(o, 'targets'))) == sorted(tq) and (bits or opsem.qubits(rget(o, 'targets')) == tq or nm == 'barrier')
                good = good and sorted(opsem.controls(rget(o, 'controls'))) == sorted(cq)
                if k[0] == 'qubits' and bits:
                    good = good and opsem.qubits(rget(o, 'targets')) == tq
            ctx.ob(good, "accept", w, "accept:" + sig, "the call appends %s" % ([show(o)[:200] for o in ops],))
    for i, kind in enumerate(slots):
        for badq in ((9, 1) if kind == 'q' else (None,)):
            a = arguments(F, W, k, bad=i, badq=badq)[0]
            with ctx.sub("reject", "%s slot %d" % (w, i)):
                s, oc, d2 = call(F, W, ip, C, f, a, w)
                n = len(rget(d2, 'ops')[1])
                ctx.ob(oc[0] == 'throw' and n == 0, "reject", "%s: %s argument %d" % (w, 'qubit' if kind == 'q' else 'bit', i), "reject:" + sig,
                       "%s %s outside the circuit is accepted" % ('qubit %s' % badq if kind == 'q' else 'bit', 'argument %d' % i) if oc[0] != 'throw' else
                       "the rejected call appends an operation")


def variables(ctx, F, W, f, k, nm):
    np_ = k.count('param')
    C = circuit({i: i for i in range(5)})
    for which in range(1, 1 << np_):
        symb = [['x', 'y'] if which >> i & 1 and i == 0 else ['z'] if which >> i & 1 and i == 1 else ['w'] if which >> i & 1 else None for i in range(np_)]
        want = sorted(v for x in symb if x for v in x)
        a = arguments(F, W, k, symbolic=symb)[0]
        w = "%s symbolic %s" % (where(f), symb)
        with ctx.sub("variables", w):
            s, oc, d2 = call(F, W, Interp(F), C, f, a, w)
            vs = rget(d2, 'occurringVariables')
            if vs is None or vs[0] != 'vec':
                raise AnalysisError("variables not decided")
            got = sorted(chr(num(rget(v, 'id'))) for v in vs[1])
            ctx.ob(oc[0] != 'throw' and got == want, "variables", w, "variables:" + nm, "records the variables %s instead of %s" % (got, want))


def measured(ops):
    out = []
    for o in ops:
        if opsem.tname(o) == 'Measure':
            out += list(zip(opsem.qubits(rget(o, 'targets')), [num(x) for x in rget(o, 'classics')[1]]))
        elif opsem.tname(o) != 'Barrier':
            out.append(opsem.tname(o))
    return out


def measure_all(ctx, F, W, ip):
    f = [g for g in F.fns(CLS + '::measureAll') if 'body' in g][0]
    for n, nc, add in ((3, 0, True), (3, 2, True), (3, 3, False), (3, 5, False), (3, 2, False), (1, 0, True)):
        C = circuit({i: i for i in range(n)}, nc)
        w = "%s n=%d bits=%d add=%s" % (where(f), n, nc, add)
        with ctx.sub("measure", w):
            s, oc, d2 = call(F, W, ip, C, f, [('b', add)], w)
            if not add and nc < n:
                ctx.ob(oc[0] == 'throw' and not rget(d2, 'ops')[1], "measure", w, "measureAll:short", "measuring into too few bits is accepted")
                continue
            if oc[0] == 'throw':
                ctx.bad("measure", w, "measureAll:throws", "a valid call throws")
                continue
            got = measured(appended(W, s, C, d2))
            off = nc if add else 0
            ctx.ob(sorted(map(str, got)) == sorted(str((i, off + i)) for i in range(n)) and num(rget(d2, 'nclassics')) == nc + (n if add else 0),
                   "measure", w, "measureAll", "measures %s with %s bits" % (got, show(rget(d2, 'nclassics'))))


def measure_out(ctx, F, W, ip):
    f = [g for g in F.fns(CLS + '::appendMeasurementsAccordingToOutputPermutation') if 'body' in g][0]
    for nc, out in ((0, {0: 0, 1: 1, 2: 2}), (0, {0: 2, 1: 0, 2: 1}), (3, {0: 1, 1: 0, 2: 2}), (1, {0: 2, 1: 0, 2: 1}), (0, {0: 1, 2: 0}), (0, {0: 2, 1: 0}), (2, {1: 2, 2: 0})):
        C = circuit({i: i for i in range(3)}, nc, out)
        w = "%s bits=%d outputs=%s" % (where(f), nc, out)
        with ctx.sub("measure", w):
            s, oc, d2 = call(F, W, ip, C, f, [Sx('m')], w)
            if oc[0] == 'throw':
                ctx.bad("measure", w, "outputs:throws", "the outputs cannot be measured: throws")
                continue
            got = measured(appended(W, s, C, d2))
            ctx.ob(sorted(map(str, got)) == sorted(str(x) for x in out.items()), "measure", w, "outputs", "measures %s instead of %s" % (got, sorted(out.items())))
