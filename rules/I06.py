"""Register, layout and ancilla bookkeeping of circuits."""
from rules.common import *
import opsem
from ops import World
from rules.I03 import method, fields

CLS = 'qc::QuantumComputation'
REG = 'qc::QuantumRegister'


def overload(F, name, nps, types=()):
    fs = [f for f in F.fns(CLS + '::' + name) if 'body' in f and len(f['ps']) == nps and all(t in f['ps'][i]['t'] for i, t in types)]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: %s::%s with %d parameters (%d found)" % (CLS, name, nps, len(fs)))
    return fs[0]


def P(m):
    return rec('qc::Permutation', {'permutation': ('map', tuple((I(a), I(b)) for a, b in sorted(m.items())))})


def unP(v, what):
    m = rget(v, 'permutation') if v is not None else None
    if m is None or m[0] != 'map':
        raise AnalysisError("%s not decided: %s" % (what, show(v)[:100] if v else v))
    out = {}
    for a, b in m[1]:
        if num(a) is None or num(b) is None:
            raise AnalysisError("%s not decided: %s" % (what, show(v)[:200]))
        out[num(a)] = num(b)
    return out


class Circ:
    """decided content of a circuit record"""

    def __init__(self, r):
        n = lambda k: self.num(r, k)
        self.nq, self.na, self.nc = n('nqubits'), n('nancillae'), n('nclassics')
        self.layout, self.out = unP(rget(r, 'initialLayout'), 'initial layout'), unP(rget(r, 'outputPermutation'), 'output permutation')
        self.regs = {k: self.regmap(rget(r, k), k) for k in ('quantumRegisters', 'ancillaRegisters', 'classicalRegisters')}
        self.anc, self.garb = self.bools(rget(r, 'ancillary'), 'ancillary'), self.bools(rget(r, 'garbage'), 'garbage')

    @staticmethod
    def num(r, k):
        v = num(rget(r, k)) if rget(r, k) is not None else None
        if v is None:
            raise AnalysisError("%s not decided: %s" % (k, show(rget(r, k) or ('none',))[:100]))
        return v

    def regmap(self, v, k):
        if v is None or v[0] != 'map':
            raise AnalysisError("%s not decided" % k)
        out = {}
        for key, x in v[1]:
            if key[0] != 's' or x[0] != 'rec':
                raise AnalysisError("%s not decided: %s" % (k, show(v)[:200]))
            s, z, nm = num(rget(x, 'startIndex')), num(rget(x, 'size')), rget(x, 'name')
            if s is None or z is None or nm[0] != 's':
                raise AnalysisError("%s not decided: %s" % (k, show(v)[:200]))
            out[key[1]] = (s, z, nm[1])
        return out

    @staticmethod
    def bools(v, k):
        if v is None or v[0] != 'vec' or any(x[0] != 'b' for x in v[1]):
            raise AnalysisError("%s not decided: %s" % (k, show(v)[:100] if v else v))
        return [x[1] for x in v[1]]

    def cover(self, k):
        out = []
        for s, z, _ in self.regs[k].values():
            out += range(s, s + z)
        return sorted(out)

    def faults(self):
        """violated invariants"""
        n = self.nq + self.na
        f = []
        if not 0 <= self.nq <= 64 or not 0 <= self.na <= 64:
            return ["the circuit has %d qubits and %d ancillae" % (self.nq, self.na)]
        if len(self.layout) != n:
            f.append("%d qubits, but the initial layout has %d entries" % (n, len(self.layout)))
        if sorted(self.layout.values()) != list(range(len(self.layout))):
            f.append("the initial layout assigns the logical qubits %s" % sorted(self.layout.values()))
        q, a = self.cover('quantumRegisters'), self.cover('ancillaRegisters')
        if len(set(q + a)) != len(q + a):
            f.append("registers overlap: %s %s" % (self.regs['quantumRegisters'], self.regs['ancillaRegisters']))
        if set(q + a) != set(self.layout):
            f.append("registers hold the qubits %s, the initial layout %s" % (sorted(set(q + a)), sorted(self.layout)))
        if set(self.regs['quantumRegisters']) & set(self.regs['ancillaRegisters']):
            f.append("a qubit and an ancilla register share a name")
        for k, m in self.regs.items():
            for nm, (s, z, own) in m.items():
                if nm != own:
                    f.append("register %s is stored under the name %s" % (own, nm))
                if z <= 0:
                    f.append("register %s is empty" % nm)
        c = self.cover('classicalRegisters')
        if c != list(range(self.nc)):
            f.append("classical registers hold the bits %s of %d" % (c, self.nc))
        if not set(self.out) <= set(self.layout):
            f.append("output permutation mentions the qubits %s outside the circuit" % sorted(set(self.out) - set(self.layout)))
        vs = list(self.out.values())
        if len(set(vs)) != len(vs) or any(v >= n for v in vs):
            f.append("the output permutation assigns the outputs %s" % sorted(vs))
        if len(self.anc) < n or len(self.garb) < n:
            f.append("%d qubits, but %d ancillary and %d garbage flags" % (n, len(self.anc), len(self.garb)))
        if sum(self.anc) != self.na:
            f.append("%d ancillae, but %d qubits are flagged ancillary" % (self.na, sum(self.anc)))
        if sum(self.garb[n:]):
            f.append("a qubit outside the circuit is flagged garbage")
        for i, g in enumerate(self.garb[:n]):
            if g and i in self.out.values():
                f.append("logical qubit %d is garbage and an output" % i)
        return f

    def key(self):
        n = self.nq + self.na
        return (self.nq, self.na, self.nc, tuple(sorted(self.layout.items())), tuple(sorted(self.out.items())), tuple(self.anc[:n]), tuple(self.garb[:n]),
                tuple(self.cover('quantumRegisters')), tuple(self.cover('ancillaRegisters')), tuple(sorted(self.regs['quantumRegisters'])))


# -------------------------------------------------------------- reference model
class Model:
    def __init__(self):
        self.nq = self.na = self.nc = 0
        self.layout, self.out, self.anc, self.garb, self.used = {}, {}, [], [], set()
        self.q, self.a = set(), set()
        self.names = {'q': set(), 'a': set(), 'c': set()}
        self.meas = []

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def next(self):
        return max(self.layout, default=-1) + 1

    def addreg(self, kind, n, name):
        other = 'a' if kind == 'q' else 'q'
        if name in self.names[kind] or name in self.names[other] or n == 0 or (kind == 'q' and self.na):
            return False
        s, t = self.next(), self.nq + self.na
        for i in range(n):
            self.layout[s + i] = t + i
            # the default output of a new qubit is itself
            self.out[s + i] = t + i
            self.anc.append(kind == 'a')
            self.garb.append(False)
            (self.q if kind == 'q' else self.a).add(s + i)
        if kind == 'q':
            self.nq += n
        else:
            self.na += n
        self.names[kind].add(name)
        return True

    def addcreg(self, n, name):
        if name in self.names['c'] or n == 0:
            return False
        self.nc += n
        self.names['c'].add(name)
        return True

    def ancillary(self, l):
        if not self.anc[l]:
            self.anc[l] = True
            self.nq, self.na = self.nq - 1, self.na + 1
        return True

    def garbage(self, l):
        self.garb[l] = True
        self.out = {p: v for p, v in self.out.items() if v != l}
        return True

    def drop(self, p):
        """remove a physical qubit and renumber the logical ones"""
        l = self.layout.pop(p)
        self.out.pop(p, None)
        if self.anc.pop(l):
            self.na -= 1
        else:
            self.nq -= 1
        self.garb.pop(l)
        self.q.discard(p)
        self.a.discard(p)
        self.layout = {a: b - (b > l) for a, b in self.layout.items()}
        self.out = {a: b - (b > l) for a, b in self.out.items()}

    def strip(self, force):
        for p in sorted(self.layout, reverse=True):
            if p in self.used:
                continue
            if not force and (p in self.out or self.layout[p] in self.out.values()):
                continue
            self.drop(p)
        return True

    def addanc(self, p, out):
        if p in self.layout:
            return False
        t = self.nq + self.na
        self.layout[p] = t
        self.anc.append(True)
        self.garb.append(out is None)
        if out is not None:
            self.out[p] = out
        self.a.add(p)
        self.na += 1
        return True

    def unify(self):
        self.q, self.a = set(self.layout), set()
        self.nq, self.na = self.nq + self.na, 0
        self.anc = [False] * self.nq
        self.names['q'], self.names['a'] = {'q'}, set()
        return True

    def key(self):
        return (self.nq, self.na, self.nc, tuple(sorted(self.layout.items())), tuple(sorted(self.out.items())), tuple(self.anc), tuple(self.garb),
                tuple(sorted(self.q)), tuple(sorted(self.a)))


def actions(m):
    """(label, method name, argument values, model step) applicable to a model state"""
    n = m.nq + m.na
    big = n >= 6
    A = []

    def add(label, name, args, step):
        A.append((label, name, args, step))
    if not big:
        for k in (1, 2):
            add("addQubitRegister(%d,r%d)" % (k, k), 'addQubitRegister', [I(k), Sx('r%d' % k)], lambda x, k=k: x.addreg('q', k, 'r%d' % k))
        add("addAncillaryRegister(2,a)", 'addAncillaryRegister', [I(2), Sx('a')], lambda x: x.addreg('a', 2, 'a'))
        add("addAncillaryRegister(1,q)", 'addAncillaryRegister', [I(1), Sx('q')], lambda x: x.addreg('a', 1, 'q'))
        add("addQubitRegister(0,z)", 'addQubitRegister', [I(0), Sx('z')], lambda x: x.addreg('q', 0, 'z'))
        add("addAncillaryRegister(0,z)", 'addAncillaryRegister', [I(0), Sx('z')], lambda x: x.addreg('a', 0, 'z'))
        add("addAncillaryQubit(new)", 'addAncillaryQubit', [I(m.next()), ('nullopt',)], lambda x: x.addanc(m.next(), None))
        add("addAncillaryQubit(new,out)", 'addAncillaryQubit', [I(m.next()), ('opt', I(n))], lambda x: x.addanc(m.next(), n))
        for p in range(m.next()):
            if p not in m.layout:
                add("addAncillaryQubit(%d)" % p, 'addAncillaryQubit', [I(p), ('nullopt',)], lambda x, p=p: x.addanc(p, None))
    if m.layout:
        p = min(m.layout)
        add("addAncillaryQubit(taken)", 'addAncillaryQubit', [I(p), ('nullopt',)], lambda x: x.addanc(p, None))
    if m.nc < 4:
        add("addClassicalRegister(2,c2)", 'addClassicalRegister', [I(2), Sx('c2')], lambda x: x.addcreg(2, 'c2'))
        add("addClassicalRegister(0,z)", 'addClassicalRegister', [I(0), Sx('z')], lambda x: x.addcreg(0, 'z'))
    for l in sorted({0, n // 2, n - 1} & set(range(n))):
        add("setLogicalQubitAncillary(%d)" % l, 'setLogicalQubitAncillary', [I(l)], lambda x, l=l: x.ancillary(l))
        add("setLogicalQubitGarbage(%d)" % l, 'setLogicalQubitGarbage', [I(l)], lambda x, l=l: x.garbage(l))
    if n >= 2:
        def rng(x, f):
            getattr(x, f)(n - 2)
            getattr(x, f)(n - 1)
            return True
        add("setLogicalQubitsAncillary(last two)", 'setLogicalQubitsAncillary', [I(n - 2), I(n - 1)], lambda x: rng(x, 'ancillary'))
        add("setLogicalQubitsGarbage(last two)", 'setLogicalQubitsGarbage', [I(n - 2), I(n - 1)], lambda x: rng(x, 'garbage'))
    add("stripIdleQubits()", 'stripIdleQubits', [FALSE], lambda x: x.strip(False))
    if all(m.out.get(p, l) == l for p, l in m.layout.items()):
        add("stripIdleQubits(force)", 'stripIdleQubits', [TRUE], lambda x: x.strip(True))
    if n and sorted(m.layout) == list(range(n)):
        add("unifyQuantumRegisters()", 'unifyQuantumRegisters', [Sx('q')], lambda x: x.unify())
    return A


def check(ctx):
    ctx.rule("registers", "after any sequence of register, ancilla, garbage and strip requests the qubit counts, registers, layouts and flags agree with each other")
    ctx.rule("effect", "each request changes exactly what the reference bookkeeping says")
    ctx.rule("reject", "invalid requests (taken name or qubit, empty register, qubit register after ancillae) throw and leave the circuit unchanged")
    ctx.rule("query", "queries about registers and qubits answer from that bookkeeping")
    ctx.rule("restore", "removing a qubit and adding it back restores the circuit's qubits, layouts and flags")
    F = load(ctx, ['ir'])
    W = World(F)
    ip = Interp(F)
    start = []
    for n, used in ((3, (0,)), (3, (1,)), (4, (0, 2)), (0, ())):
        d = opsem.circuit(n)
        m = Model()
        if n:
            m.addreg('q', n, 'q')
        m.used = set(used)
        d = rset(d, 'quantumRegisters', ('map', ((Sx('q'), rec(REG, {'startIndex': I(0), 'size': I(n), 'name': Sx('q')})),) if n else ()))
        d = rset(d, 'ancillaRegisters', ('map', ()))
        d = rset(d, 'classicalRegisters', ('map', ()))
        d = rset(d, 'ops', ('vec', tuple(W.put(W.std('X', [q])) for q in used)))
        start.append((d, m, 'qc(%d)' % n))
    # a circuit on a permuted layout
    d, m, _ = start[2]
    lay = {0: 2, 1: 0, 2: 3, 3: 1}
    m2 = m.copy()
    m2.layout, m2.out = dict(lay), dict(lay)
    m2.garbage(0)
    d = rset(rset(d, 'initialLayout', P(m2.layout)), 'outputPermutation', P(m2.out))
    d = rset(d, 'garbage', ('vec', tuple(('b', x) for x in m2.garb)))
    start.append((d, m2, 'qc(4) permuted'))
    depth = 2 if ctx.tier == 'quick' else 3
    seen = set()
    front = start
    for lvl in range(depth):
        nxt = []
        for d, m, hist in front:
            for label, name, args, step in actions(m):
                w = hist + '; ' + label
                with ctx.sub("registers", w):
                    r = apply(ctx, F, W, ip, d, m, name, args, step, w)
                    if r is None:
                        continue
                    d2, m2 = r
                    k = (m2.key(), tuple(sorted(m2.names['q'])), tuple(sorted(m2.used)))
                    if k not in seen and lvl + 1 < depth:
                        seen.add(k)
                        nxt.append((d2, m2, w))
                        if lvl < 2:
                            queries(ctx, F, W, ip, d2, m2, w)
        front = nxt
        ctx.count("circuits after %d requests" % (lvl + 1), len(nxt))
    for d, m, hist in start:
        queries(ctx, F, W, ip, d, m, hist)
        restore(ctx, F, W, ip, d, m, hist)
    for r, n in (('registers', 300), ('effect', 300), ('reject', 50), ('query', 100), ('restore', 8)):
        ctx.need(r, n)


def call(F, W, ip, d, f, args, w):
    p = W.put(d)
    rs = ip.run(f, args, this=("LOCARG", p[1]), st=W.state())
    if len(rs) != 1:
        raise AnalysisError("%s is not decided (%d paths, %s)" % (w, len(rs), [r[0].pc[:2] for r in rs[:2]]))
    s, oc, fr, th = rs[0]
    return s, oc, s.store[p[1][0]]


def apply(ctx, F, W, ip, d, m, name, args, step, w):
    f = overload(F, name, len(args))
    m2 = m.copy()
    c0 = Circ(d)
    m2.names = {k: set(c0.regs[r]) for k, r in (('q', 'quantumRegisters'), ('a', 'ancillaRegisters'), ('c', 'classicalRegisters'))}
    good = step(m2)
    s, oc, d2 = call(F, W, ip, d, f, args, w)
    if not good:
        same = oc[0] == 'throw' and Circ(d2).key() == Circ(d).key() and rget(d2, 'ops') == rget(d, 'ops')
        ctx.ob(same, "reject", where(f) + ": " + w, "reject:" + name, "the invalid request is %s" % ("accepted" if oc[0] != 'throw' else "rejected, but changes the circuit"))
        return None
    if oc[0] == 'throw':
        ctx.bad("effect", where(f) + ": " + w, "throws:" + name, "a valid request throws")
        return None
    c = Circ(d2)
    fs = c.faults()
    ctx.ob(not fs, "registers", where(f) + ": " + w, "invariant:" + name, '; '.join(fs))
    got = (c.nq, c.na, c.nc, tuple(sorted(c.layout.items())), tuple(sorted(c.out.items())), tuple(c.anc[:c.nq + c.na]), tuple(c.garb[:c.nq + c.na]),
           tuple(c.cover('quantumRegisters')), tuple(c.cover('ancillaRegisters')))
    labels = ('qubits', 'ancillae', 'classical bits', 'initial layout', 'output permutation', 'ancillary flags', 'garbage flags', 'qubit registers', 'ancilla registers')
    diff = ["%s %s instead of %s" % (l, a, b) for l, a, b in zip(labels, got, m2.key()) if a != b]
    if name == 'setLogicalQubitAncillary' or any(m2.anc[:m2.nq]):
        pass
    ctx.ob(not diff, "effect", where(f) + ": " + w, "effect:" + name, '; '.join(diff))
    if name.endswith('Register') and oc[0] == 'return':
        v = oc[1]
        v = ip.load(s, v[1]) if v[0] in ('ptr', 'loc') else v
        if v[0] == 'rec':
            nm = args[1][1]
            kind = {'addQubitRegister': 'quantumRegisters', 'addAncillaryRegister': 'ancillaRegisters', 'addClassicalRegister': 'classicalRegisters'}[name]
            ctx.ob(c.regs[kind].get(nm) == (num(rget(v, 'startIndex')), num(rget(v, 'size')), nm) and c.regs[kind][nm][1] == num(args[0]), "effect",
                   where(f) + ": " + w, "returned:" + name, "the returned register is not the one added")
    if fs or diff:
        return None
    return d2, m2


def queries(ctx, F, W, ip, d, m, hist):
    n = m.nq + m.na

    def q(name, args, want, conv=lambda v, s: num(v) if v[0] in ('i', 'e') else v[1] if v[0] == 'b' else None):
        f = overload(F, name, len(args))
        w = "%s: %s; %s" % (where(f), hist, name)
        with ctx.sub("query", w):
            s, oc, d2 = call(F, W, ip, d, f, args, w)
            got = 'throws' if oc[0] == 'throw' else conv(oc[1], s)
            if got is None:
                raise AnalysisError("answer not decided: %s" % show(oc[1])[:100])
            ctx.ob(got == want, "query", w, "query:" + name, "%s(%s) gives %s instead of %s" % (name, ', '.join(show(a) for a in args), got, want))
            ctx.ob(d2 == d, "query", w, "pure:" + name, "the query changes the circuit")
    def pair(v, s):
        a, b = [x for _, x in v[3]] if v[0] == 'rec' else v[1] if isinstance(v[1], tuple) and v[0] in ('pair', 'tup') else v[1:]
        if b[0] == 'opt' and b[1][0] in ('loc', 'ptr'):
            b = ('opt', ip.load(s, b[1][1]))
        return (bool(num(a)), None if b[0] == 'nullopt' else num(b[1] if b[0] == 'opt' else b))
    inv = {l: p for p, l in m.layout.items()}
    for l in range(n + 1):
        q('getPhysicalQubitIndex', [I(l)], inv.get(l, 'throws'))
        q('containsLogicalQubit', [I(l)], (l in inv, inv.get(l)), pair)
    for p in list(m.layout) + [m.next()]:
        q('physicalQubitIsAncillary', [I(p)], p in m.a)
        q('isIdleQubit', [I(p)], p not in m.used)

        def reg(v, s):
            v = ip.load(s, v[1]) if v[0] in ('ptr', 'loc') else v
            if v[0] != 'rec':
                return None
            a, z = num(rget(v, 'startIndex')), num(rget(v, 'size'))
            return a <= p < a + z
        q('getQubitRegister', [I(p)], True if p in m.layout else 'throws', reg)
    if m.layout:
        q('getHighestPhysicalQubitIndex', [], max(m.layout))
        q('getHighestLogicalQubitIndex', [], max(m.layout.values()))
    q('getNqubits', [], n)
    q('getNqubitsWithoutAncillae', [], m.nq)
    q('getNancillae', [], m.na)
    q('getNcbits', [], m.nc)
    q('getNgarbageQubits', [], sum(m.garb))
    q('getNmeasuredQubits', [], n - sum(m.garb))


def restore(ctx, F, W, ip, d, m, hist):
    rm, ad, an = overload(F, 'removeQubit', 1), overload(F, 'addQubit', 3), overload(F, 'addAncillaryQubit', 2)
    for l in sorted(m.layout.values()):
        for anc in (False, True):
            w = "%s: %s; removeQubit(%d); %s" % (where(rm), hist, l, 'addAncillaryQubit' if anc else 'addQubit')
            with ctx.sub("restore", w):
                p = next(a for a, b in m.layout.items() if b == l)
                out = m.out.get(p)
                s, oc, d2 = call(F, W, ip, d, rm, [I(l)], w)
                if oc[0] == 'throw':
                    ctx.bad("restore", w, "remove:throws", "removing a qubit of the circuit throws")
                    continue
                v = oc[1]
                vs = [x for _, x in v[3]] if v[0] == 'rec' else list(v[1])
                ctx.ob(num(vs[0]) == p and (vs[1] == ('nullopt',) if out is None else vs[1] == ('opt', I(out))), "restore", w, "remove:result",
                       "removal reports physical qubit %s and output %s" % (show(vs[0]), show(vs[1])))
                c0, c1 = Circ(d), Circ(d2)
                n1 = c1.nq + c1.na
                want = ({a: b for a, b in c0.layout.items() if a != p}, {a: b for a, b in c0.out.items() if a != p}, c0.nq + c0.na - 1,
                        sorted(set(c0.cover('quantumRegisters') + c0.cover('ancillaRegisters')) - {p}),
                        c0.anc[:l] + c0.anc[l + 1:], c0.garb[:l] + c0.garb[l + 1:])
                got = (c1.layout, c1.out, n1, sorted(c1.cover('quantumRegisters') + c1.cover('ancillaRegisters')), c1.anc[:n1], c1.garb[:n1])
                ctx.ob(got == want, "restore", w, "remove:effect", "removing logical qubit %d gives %s instead of %s" % (l, got, want))
                if got != want:
                    continue
                if anc:
                    if l != m.nq + m.na - 1:
                        continue
                    s, oc, d3 = call(F, W, ip, d2, an, [I(p), ('nullopt',) if out is None else ('opt', I(out))], w)
                else:
                    s, oc, d3 = call(F, W, ip, d2, ad, [I(l), I(p), ('nullopt',) if out is None else ('opt', I(out))], w)
                if oc[0] == 'throw':
                    ctx.bad("restore", w, "add:throws", "adding the removed qubit back throws")
                    continue
                c2 = Circ(d3)
                g = list(c0.garb)
                n2 = len(c0.layout)
                got = (c2.layout, c2.out, c2.nq, c2.na, sorted(c2.cover('quantumRegisters')), sorted(c2.cover('ancillaRegisters')), c2.anc[:n2], c2.garb[:n2])
                q0, a0 = set(c0.cover('quantumRegisters')), set(c0.cover('ancillaRegisters'))
                k = 1 if anc else 0
                a = list(c0.anc[:n2])
                a[l] = anc
                # a qubit put back without an output is garbage for ancillae, and not flagged otherwise
                g = g[:n2]
                g[l] = (out is None) if anc else False
                want = (c0.layout, c0.out, n2 - sum(a), sum(a), sorted(q0 - {p} if anc else q0 | {p}), sorted(a0 | {p} if anc else a0 - {p}), a, g)
                ctx.ob(got == want, "restore", w, "restore:" + ('anc' if anc else 'qubit'), "putting logical qubit %d back gives %s instead of %s" % (l, got, want))
