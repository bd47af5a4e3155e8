"""Structural queries and edits of operations, through compounds and classical control."""
from rules.common import *
import opsem
from ops import World
from rules.I03 import method, fields

A, B = 0.37, 1.21


def samples(W):
    g = lambda ty='RX', t=2, c=((0, True), (4, False)), p=(A,): W.std(ty, [t], list(c), p)
    f = {
        'single': lambda: W.std('H', [1]),
        'controlled': lambda: g(),
        'two targets': lambda: W.std('XXminusYY', [3, 1], [(0, True)], (A, B)),
        'swap': lambda: W.std('SWAP', [3, 1]),
        'barrier': lambda: W.std('Barrier', [0, 2, 3]),
        'symbolic': lambda: W.symb('RX', [2], [(0, True)], (0.,), [(2., 'x', .5)]),
        'symbolic numeric': lambda: W.symb('RX', [2], [(0, True)], (A,), [None]),
        'measure': lambda: W.measure([2, 0], [1, 3]),
        'reset': lambda: W.reset([1, 3]),
        'if single': lambda: W.cc(W.std('X', [1]), bit=1),
        'if controlled': lambda: W.cc(g(), reg=(1, 3, 'c'), value=5, kind='Lt'),
        'if symbolic': lambda: W.cc(W.symb('RX', [2], [(0, True)], (0.,), [(2., 'x', .5)]), bit=1),
        'if if': lambda: W.cc(W.cc(g(), bit=0), bit=1),
        'if compound': lambda: W.cc(W.comp([g(), W.std('H', [3])]), bit=1),
        'if controlled compound': lambda: W.cc(W.comp([g(), W.std('H', [0], [(4, False)])], controls=[(4, False)]), bit=1),
        'compound': lambda: W.comp([g(), W.std('H', [3]), W.std('X', [1], [(3, True)])]),
        'compound with barrier': lambda: W.comp([W.std('H', [3]), W.std('Barrier', [1, 3]), W.std('H', [1])]),
        'compound controlled': lambda: W.comp([g(), W.std('H', [3], [(0, True)])], controls=[(0, True)]),
        'compound measure': lambda: W.comp([W.std('H', [3]), W.measure([3], [0])]),
        'compound reset': lambda: W.comp([W.reset([3]), W.std('H', [3])]),
        'compound if': lambda: W.comp([W.std('H', [3]), W.cc(g(), bit=1)]),
        'compound symbolic': lambda: W.comp([W.std('H', [3]), W.symb('RX', [2], [], (0.,), [(2., 'x', .5)])]),
        'compound last symbolic': lambda: W.comp([W.symb('RX', [2], [], (0.,), [(2., 'x', .5)]), W.std('H', [3])]),
        'compound nested': lambda: W.comp([W.std('X', [1], [(2, True)]), W.comp([g(), W.comp([W.std('H', [3])])])]),
        'compound of one': lambda: W.comp([W.comp([g()])]),
        'compound empty': lambda: W.comp([]),
        'compound uniform': lambda: W.comp([W.std('RY', [i], [], (A,)) for i in range(5)]),
        'compound mixed parameters': lambda: W.comp([W.std('RY', [i], [], (A if i < 4 else B,)) for i in range(5)]),
        'compound mixed types': lambda: W.comp([W.std('RY' if i else 'RX', [i], [], (A,)) for i in range(5)]),
        'compound partial': lambda: W.comp([W.std('RY', [i], [], (A,)) for i in range(4)]),
        'global': lambda: W.std('X', [2], [(0, True), (1, True), (3, True), (4, False)]),
        'compound one if': lambda: W.comp([W.cc(W.std('X', [2], [(0, True), (1, True), (3, True), (4, False)]), bit=1)]),
    }
    return f


# ------------------------------------------------------------ reference model
class Ref:
    """operations as (own, children) trees over the heap of W"""

    def __init__(self, W):
        self.W = W

    def kids(self, op):
        if op[1] == 'qc::CompoundOperation':
            return [self.W.get(p) for p in rget(op, 'ops')[1]]
        if op[1] == 'qc::ClassicControlledOperation':
            return [self.W.get(rget(op, 'op'))]
        return None

    def targets(self, op):
        return [num(t) for t in rget(op, 'targets')[1]]

    def controls(self, op):
        return [(num(rget(c, 'qubit')), rget(c, 'type')[2] == 'Pos') for c in rget(op, 'controls')[1]]

    def own(self, op):
        return self.targets(op) + [q for q, _ in self.controls(op)]

    def used(self, op):
        k = self.kids(op)
        if k is None:
            return set(self.own(op))
        return set().union(*[self.used(x) for x in k])

    def relabel(self, op, m):
        d = dict(op[3])
        if op[1] != 'qc::ClassicControlledOperation':
            d['targets'] = ('vec', tuple(I(m[q]) for q in self.targets(op)))
            d['controls'] = self.ctrls([(m[q], p) for q, p in self.controls(op)])
        return self.rebuild(op, d, lambda k: self.relabel(k, m))

    def ctrls(self, cs):
        return ('vec', tuple(opsem.ctrl(self.W.F, q, p) for q, p in sorted(cs)))

    def rebuild(self, op, d, f):
        if 'ops' in d:
            d['ops'] = ('vec', tuple(self.W.put(f(self.W.get(p))) for p in d['ops'][1]))
        if 'op' in d:
            d['op'] = self.W.put(f(self.W.get(d['op'])))
        return ('rec', op[1], op[2], tuple(sorted(d.items())))

    def add(self, op, c):
        """None = rejected"""
        d = dict(op[3])
        if op[1] == 'qc::NonUnitaryOperation':
            raise ValueError
        if op[1] != 'qc::ClassicControlledOperation':
            if self.kids(op) is None and c[0] in self.own(op):
                raise ValueError
            d['controls'] = self.ctrls(self.controls(op) + [c])
        return self.rebuild(op, d, lambda k: self.add(k, c))

    def remove(self, op, cs):
        d = dict(op[3])
        if not cs:
            return op
        if op[1] == 'qc::NonUnitaryOperation':
            raise ValueError
        if op[1] != 'qc::ClassicControlledOperation':
            if not set(cs) <= set(self.controls(op)):
                raise ValueError
            d['controls'] = self.ctrls([c for c in self.controls(op) if c not in cs])
        return self.rebuild(op, d, lambda k: self.remove(k, cs))

    def clear(self, op):
        """classical control forwards; a compound takes only its own controls off its parts"""
        if op[1] == 'qc::NonUnitaryOperation':
            raise ValueError
        if op[1] == 'qc::ClassicControlledOperation':
            return self.rebuild(op, dict(op[3]), self.clear)
        return self.remove(op, self.controls(op))

    def depth(self, op, d):
        k = self.kids(op)
        if k is not None:
            for x in k:
                self.depth(x, d)
        elif op[1] == 'qc::NonUnitaryOperation':
            for q in self.targets(op):
                d[q] += 1
        elif rget(op, 'type')[2] != 'Barrier':
            m = 1 + max(d[q] for q in self.own(op))
            for q in self.own(op):
                d[q] = m

    def unitary(self, op):
        if op[1] in ('qc::NonUnitaryOperation', 'qc::ClassicControlledOperation'):
            return False
        return all(self.unitary(k) for k in self.kids(op) or [])

    def nonunitary(self, op):
        if op[1] == 'qc::NonUnitaryOperation':
            return True
        return op[1] == 'qc::CompoundOperation' and any(self.nonunitary(k) for k in self.kids(op))

    def symbolic(self, op):
        k = self.kids(op)
        if k is None:
            return op[1] == 'qc::SymbolicOperation' and any(x[0] == 'opt' for x in rget(op, 'symbolicParameter')[1])
        return any(self.symbolic(x) for x in k)

    def std(self, op):
        return op[1] == 'qc::StandardOperation' or (op[1] == 'qc::SymbolicOperation' and not self.symbolic(op))

    def controlled(self, op):
        if op[1] == 'qc::ClassicControlledOperation':
            return self.controlled(self.kids(op)[0])
        return bool(self.controls(op))

    def glob(self, op, n):
        if self.std(op):
            return len(self.used(op)) == n
        if op[1] != 'qc::CompoundOperation' or not self.kids(op):
            return False
        ks = self.kids(op)
        return len(self.used(op)) == n and all(self.std(k) and not self.controls(k) and rget(k, 'type') == rget(ks[0], 'type') and
                                               rget(k, 'parameter') == rget(ks[0], 'parameter') for k in ks)

    def collapses(self, op):
        ks = self.kids(op)
        return len(ks) == 1 and (ks[0][1] != 'qc::CompoundOperation' or self.collapses(ks[0]))

    def collapsed(self, op):
        k = self.kids(op)[0]
        return k if k[1] != 'qc::CompoundOperation' else self.collapsed(k)


def check(ctx):
    ctx.rule("qubits", "an operation's used qubits, and the qubits it acts on, are those of its targets and controls, through compounds and classical control")
    ctx.rule("apply", "applying a qubit permutation relabels every target and control of every part exactly once and changes nothing else")
    ctx.rule("depth", "an operation's depth contribution is that of its parts in order; barriers contribute nothing")
    ctx.rule("control", "adding a control reaches every part; removing or clearing it restores the operation; operations that cannot take it reject it")
    ctx.rule("class", "unitary/non-unitary/symbolic/standard/controlled/global classification follows the parts")
    ctx.rule("collapse", "a compound collapses to a single operation exactly when nested compounds hold one operation, which is returned")
    ctx.rule("circuit", "circuit-level queries (depth, dynamic, free variables, idle qubits, last operation) and instantiation follow the operations and their parts")
    F = load(ctx, ['ir'])
    W = World(F)
    R = Ref(W)
    ip = Interp(F)
    ip.max_rec = 8
    for label, b in samples(W).items():
        op = b()
        n = lambda k: method(F, op[1], k[0], k[1])
        want = set(fields(F, op[1]))
        if want != {k for k, _ in op[3]}:
            raise AnalysisError("data members of %s are %s" % (op[1], sorted(want)))
        p = W.put(op)

        def call(rule, m, args, key):
            """-> (where, (state, outcome)*)"""
            f = method(F, op[1], m, len(args))
            w = "%s on %s" % (where(f), label)
            return w, [(s, oc) for s, oc, fr, th in ip.run(f, args, this=('LOCARG', p[1]), st=W.state())]

        def boolean(rule, m, args, exp):
            with ctx.sub(rule, "%s of %s" % (m, label)):
                w, rs = call(rule, m, args, m)
                for s, oc in rs:
                    v = ip.truth(oc[1]) if oc[0] == 'return' else None
                    if v is None:
                        raise AnalysisError("%s not decided: %s" % (m, oc))
                    ctx.ob(v == exp, rule, w, "%s:%s" % (m, label), "%s gives %s for %s" % (m, v, label))

        def edit(rule, m, args, exp, key):
            with ctx.sub(rule, "%s of %s" % (key, label)):
                w, rs = call(rule, m, args, m)
                for s, oc in rs:
                    if exp is None:
                        ctx.ob(oc[0] == 'throw', rule, w, "%s:%s" % (key, label), "%s is accepted by an operation that cannot take it" % key)
                    elif oc[0] == 'throw':
                        ctx.bad(rule, w, "%s:%s" % (key, label), "%s throws %s" % (key, oc[1]))
                    else:
                        got, ref = W.deep(W.get(p, s), s), W.deep(exp)
                        ctx.ob(got == ref, rule, w, "%s:%s" % (key, label), "%s leaves %s" % (key, diff(got, ref)))

        # qubits
        for q in range(6):
            boolean("qubits", 'actsOn', [I(q)], q in R.used(op))
        m = {0: 3, 1: 0, 2: 4, 3: 1, 4: 2}
        for P, mm in ((rec('qc::Permutation', {'permutation': ('map', ())}), {i: i for i in range(5)}), (opsem.perm(5, m), m)):
            with ctx.sub("qubits", label):
                w, rs = call("qubits", 'getUsedQubitsPermuted', [P], 'used')
                for s, oc in rs:
                    if oc[0] != 'return' or oc[1][0] != 'vec':
                        raise AnalysisError("used qubits: %s" % (oc,))
                    ctx.ob(sorted(num(x) for x in oc[1][1]) == sorted(mm[q] for q in R.used(op)), "qubits", w, "used:" + label, "used qubits are %s" % show(oc[1]))
            edit("apply", 'apply', [P], R.relabel(op, mm), 'apply')
        # depth
        with ctx.sub("depth", label):
            d0 = [4, 0, 2, 7, 1]
            ref = list(d0)
            R.depth(op, ref)
            st = W.state()
            f = method(F, op[1], 'addDepthContribution', 1)
            loc = ip.new_root(st, ('vec', tuple(I(x) for x in d0)), 'depths')
            for s, oc, fr, th in ip.run(f, [('LOCARG', loc)], this=('LOCARG', p[1]), st=st):
                if oc[0] == 'throw':
                    ctx.bad("depth", where(f), "depth:" + label, "throws")
                    continue
                got = [num(x) for x in ip.load(s, loc)[1]]
                ctx.ob(got == ref, "depth", "%s on %s" % (where(f), label), "depth:" + label, "depths become %s, expected %s" % (got, ref))
        # controls
        if op[1] != 'na::AodOperation':
            T = rec('qc::Control', {})
            for c in ((5, True), (5, False), (2, True)):
                cv = opsem.ctrl(F, *c)
                edit("control", 'addControl', [cv], attempt(lambda: R.add(op, c)), 'addControl')
                if c[0] == 5:
                    edit("control", 'removeControl', [cv], attempt(lambda: R.remove(op, [c])), 'removeControl absent')
                    edit("control", 'addControls', [R.ctrls([c, (6, True)])], attempt(lambda: R.add(R.add(op, c), (6, True))), 'addControls')
                    edit("control", 'setControls', [R.ctrls([c, (6, True)])], attempt(lambda: R.add(R.add(R.clear(op), c), (6, True))), 'setControls')
            edit("control", 'clearControls', [], attempt(lambda: R.clear(op)), 'clearControls')
            inner = op
            while inner[1] == 'qc::ClassicControlledOperation':
                inner = R.kids(inner)[0]
            for c in R.controls(inner):
                edit("control", 'removeControl', [opsem.ctrl(F, *c)], attempt(lambda: R.remove(op, [c])), 'removeControl')
            edit("control", 'removeControls', [R.ctrls(R.controls(inner))], attempt(lambda: R.remove(op, R.controls(inner))), 'removeControls')
            if op[1] == 'qc::ClassicControlledOperation' and R.kids(inner) is None:
                k = R.rebuild(op, dict(op[3]), lambda x: R.rebuild(x, dict(x[3], targets=('vec', (I(3),))), lambda y: ('rec', y[1], y[2], tuple(sorted(dict(y[3], targets=('vec', (I(3),))).items())))))
                exp = k
                if label != 'if if':
                    edit("control", 'setTargets', [('vec', (I(3),))], exp, 'setTargets')
        # classification
        for m_, exp in (('isUnitary', R.unitary(op)), ('isNonUnitaryOperation', R.nonunitary(op)), ('isSymbolicOperation', R.symbolic(op)),
                        ('isStandardOperation', R.std(op)), ('isControlled', R.controlled(op)),
                        ('isCompoundOperation', op[1] == 'qc::CompoundOperation'), ('isClassicControlledOperation', op[1] == 'qc::ClassicControlledOperation')):
            boolean("class", m_, [], exp)
        for k in (3, 4, 5):
            boolean("class", 'isGlobal', [I(k)], R.glob(op, k))
        if op[1] == 'qc::CompoundOperation':
            boolean("collapse", 'isConvertibleToSingleOperation', [], R.collapses(op))
            if R.collapses(op):
                with ctx.sub("collapse", label):
                    w, rs = call("collapse", 'collapseToSingleOperation', [], 'c')
                    for s, oc in rs:
                        got = W.deep(oc[1], s) if oc[0] == 'return' else oc
                        ctx.ob(got == ('own', W.deep(R.collapsed(op))), "collapse", w, "collapse:" + label, "collapsing returns %s" % show(got)[:200])
    ctx.guard("circuit", "circuits", circuits, ctx, F, W, R, ip)
    for r, k in (("qubits", 200), ("apply", 50), ("depth", 25), ("control", 200), ("class", 200), ("collapse", 12), ("circuit", 100)):
        ctx.need(r, k)


def circuits(ctx, F, W, R, ip):
    f = samples(W)
    sy = f['symbolic']
    seqs = {
        'empty': [],
        'plain': ['single', 'controlled', 'swap', 'single'],
        'barriers': ['single', 'barrier', 'controlled'],
        'final measurements': ['controlled', 'single', 'measure'],
        'gate after measurement': ['measure', 'single', 'controlled'],
        'other qubit after measurement': ['measure', 'single'],
        'swap after measurement': ['measure', 'swap'],
        'symbolic after measurement': ['measure', 'symbolic'],
        'symbolic compound after measurement': ['measure', 'compound symbolic'],
        'symbolic': ['single', 'symbolic'],
        'symbolic in if': ['single', 'if symbolic'],
        'symbolic in compound': ['compound symbolic', 'single'],
        'numeric symbolic': ['symbolic numeric'],
        'if': ['single', 'if single'],
        'if compound': ['if compound'],
        'if in compound': ['compound if'],
        'reset': ['reset', 'single'],
        'reset in compound': ['compound reset'],
        'measure in compound': ['compound measure'],
        'gate after measure in compound': ['compound measure', 'compound'],
        'nested': ['compound nested', 'compound of one'],
        'empty compound': ['compound empty', 'single'],
    }
    for label, names in seqs.items():
        ops = [f[n]() for n in names]
        n = 5
        d = dict(opsem.circuit(n, [W.put(o) for o in ops], nc=4)[3])
        d['occurringVariables'] = ('vec', (W.var('x'),))
        q = W.put(rec('qc::QuantumComputation', d))

        def run(m, args, want, key):
            with ctx.sub("circuit", "%s of %s" % (m, label)):
                fs = [g for g in F.functions.values() if g['n'] == 'qc::QuantumComputation::' + m and len(g['ps']) == len(args) and 'body' in g]
                if not fs:
                    raise AnalysisError("anchor vanished: QuantumComputation::" + m)
                for s, oc, fr, th in ip.run(fs[0], args, this=('LOCARG', q[1]), st=W.state()):
                    w = "%s on %s" % (where(fs[0]), label)
                    if oc[0] == 'throw':
                        ctx.bad("circuit", w, "%s:%s" % (m, label), "%s throws %s" % (m, oc[1]))
                        continue
                    v = ip.truth(oc[1]) if isinstance(want, bool) else num(oc[1])
                    if v is None:
                        raise AnalysisError("%s not decided: %s" % (m, show(oc[1])[:200]))
                    ctx.ob(v == want, "circuit", w, "%s:%s" % (m, label), "%s gives %s, expected %s" % (m, v, want))
        dep = [0] * n
        for o in ops:
            R.depth(o, dep)
        run('getDepth', [], max(dep) if ops else 0, 'depth')
        run('isVariableFree', [], not any(R.symbolic(o) for o in ops), 'free')
        run('isDynamic', [], dynamic(R, ops), 'dynamic')
        for k in range(n):
            run('isIdleQubit', [I(k)], not any(k in R.used(o) for o in ops), 'idle')
        if not any(o[1] == 'qc::CompoundOperation' and any(R.kids(k) is not None for k in R.kids(o)) for o in ops):
            flat = [k for o in ops for k in (R.kids(o) if o[1] == 'qc::CompoundOperation' else [o])]
            run('getNindividualOps', [], len(flat), 'individual')
            run('getNsingleQubitOps', [], sum(1 for o in flat if R.unitary(o) and not R.controls(o) and len(R.targets(o)) == 1), 'single')
        # instantiation
        with ctx.sub("circuit", "instantiation of " + label):
            fs = [g for g in F.functions.values() if g['n'] == 'qc::QuantumComputation::instantiateInplace' and 'body' in g]
            if not fs:
                raise AnalysisError("anchor vanished: instantiateInplace")
            asg = ('map', ((W.var('x'), Fl(.8)),))
            for s, oc, fr, th in ip.run(fs[0], [asg], this=('LOCARG', q[1]), st=W.state()):
                w = "%s on %s" % (where(fs[0]), label)
                if oc[0] == 'throw':
                    ctx.bad("circuit", w, "instantiate:" + label, "instantiation throws %s" % (oc[1],))
                    continue
                W2 = Later(W, s)
                R2 = Ref(W2)
                after = [W2.get(p) for p in rget(W2.get(q), 'ops')[1]]
                ctx.ob(len(after) == len(ops) and all(inst(R, R2, a, b, .8) for a, b in zip(ops, after)), "circuit", w, "instantiate:" + label,
                       "instantiation leaves %s" % ', '.join(show(W.deep(o, s))[:300] for o in after))


class Later:
    """the same heap in a later state"""

    def __init__(self, W, s):
        self.F, self.s, self.W = W.F, s, W

    def get(self, p):
        return self.s.store[p[1][0]]

    def put(self, r):
        return self.W.put(r)


def inst(R, R2, a, b, x):
    """b is a with its variable replaced by x"""
    ka, kb = R.kids(a), R2.kids(b)
    if ka is not None:
        return kb is not None and a[1] == b[1] and len(ka) == len(kb) and all(inst(R, R2, p, q, x) for p, q in zip(ka, kb))
    if kb is not None or R2.symbolic(b):
        return False
    pa = [num(v) for v in rget(a, 'parameter')[1]]
    if a[1] == 'qc::SymbolicOperation':
        for i, e in enumerate(rget(a, 'symbolicParameter')[1]):
            if e[0] == 'opt':
                pa[i] = num(rget(e[1], 'constant')) + sum(num(rget(t, 'coeff')) * x for t in rget(e[1], 'terms')[1])
    pb = [num(v) for v in rget(b, 'parameter')[1]]
    return R.targets(a) == R2.targets(b) and R.controls(a) == R2.controls(b) and rget(a, 'type') == rget(b, 'type') and None not in pb and \
        len(pa) == len(pb) and all(abs(p - q) < 1e-9 for p, q in zip(pa, pb))


def dynamic(R, ops, measured=None):
    measured = set() if measured is None else measured
    for o in ops:
        if rget(o, 'type')[2] == 'Reset' or o[1] == 'qc::ClassicControlledOperation':
            return True
        if o[1] == 'qc::CompoundOperation':
            if dynamic(R, R.kids(o), measured):
                return True
        elif rget(o, 'type')[2] == 'Measure':
            measured |= set(R.targets(o))
        elif measured & R.used(o):
            return True
    return False


def attempt(f):
    try:
        return f()
    except ValueError:
        return None


def diff(a, b):
    if a[0] == 'own':
        return diff(a[1], b[1]) if b[0] == 'own' else 'other structure'
    if a[0] == 'rec' and b[0] == 'rec':
        da, db = dict(a[3]), dict(b[3])
        return ', '.join("%s=%s" % (k, diff(da[k], db[k])) for k in da if k in db and da[k] != db[k])
    if a[0] == 'vec' and b[0] == 'vec' and len(a[1]) == len(b[1]):
        return '[' + ', '.join(diff(x, y) for x, y in zip(a[1], b[1]) if x != y) + ']'
    return show(a)[:150]
