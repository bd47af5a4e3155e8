"""Operations and circuits as heap objects of the abstract interpreter (unique_ptr = pointer)."""
from absint import *
import sem, opsem


class World:
    def __init__(self, F):
        self.F = F
        self.T = {c['n']: ('e', 'qc::OpType', c['n'], c['v']) for c in F.enum('qc::OpType')['c']}
        self.K = {c['n']: ('e', 'qc::ComparisonKind', c['n'], c['v']) for c in F.enum('qc::ComparisonKind')['c']}
        self.store = {}
        self.n = 0

    def state(self):
        return State(dict(self.store))

    def put(self, r):
        self.n += 1
        key = ('O', self.n)
        self.store[key] = r
        return ('ptr', (key, ()))

    def get(self, p, s=None):
        return (s.store if s else self.store)[p[1][0]]

    def base(self, cls, ty, name, **kw):
        d = {'type': self.T[ty], 'name': Sx(name), 'controls': ('vec', ()), 'targets': ('vec', ()), 'parameter': ('vec', ())}
        d.update(kw)
        return rec(cls, d)

    def std(self, ty, targets, controls=(), params=(), cls='qc::StandardOperation', **kw):
        """controls: (qubit, positive)"""
        cs = sorted(controls)
        return self.base(cls, ty, ty.lower(), targets=('vec', tuple(I(t) for t in targets)),
                         controls=('vec', tuple(opsem.ctrl(self.F, q, p) for q, p in cs)),
                         parameter=('vec', tuple(Fl(p) if isinstance(p, float) else p for p in params)), **kw)

    def symb(self, ty, targets, controls, params, symbolic):
        """symbolic: per parameter None or (coeff, var, const)"""
        sp = []
        for x in symbolic:
            if x is None:
                sp.append(('nullopt',))
            else:
                t = rec('sym::Term', {'coeff': Fl(x[0]), 'var': self.var(x[1])})
                sp.append(('opt', rec('sym::Expression', {'terms': ('vec', (t,)), 'constant': Fl(x[2])})))
        return self.std(ty, targets, controls, params, 'qc::SymbolicOperation', symbolicParameter=('vec', tuple(sp)))

    def var(self, name):
        return rec('sym::Variable', {'id': I(ord(name[0]))})

    def measure(self, qs, cs):
        return self.base('qc::NonUnitaryOperation', 'Measure', 'measure', targets=('vec', tuple(I(q) for q in qs)), classics=('vec', tuple(I(c) for c in cs)))

    def reset(self, qs):
        return self.base('qc::NonUnitaryOperation', 'Reset', 'reset', targets=('vec', tuple(I(q) for q in qs)), classics=('vec', ()))

    def cc(self, op, reg=None, bit=None, value=1, kind='Eq'):
        p = self.put(op)
        r = ('nullopt',) if reg is None else ('opt', rec('qc::ClassicalRegister', {'startIndex': I(reg[0]), 'size': I(reg[1]), 'name': Sx(reg[2])}))
        ps = [Fl(reg[0]), Fl(reg[1]), Fl(value)] if reg is not None else [Fl(bit), Fl(value)]
        return self.base('qc::ClassicControlledOperation', 'ClassicControlled', 'c_' + str(rget(op, 'type')[2]).lower(), op=p, controlRegister=r,
                         controlBit=('nullopt',) if bit is None else ('opt', I(bit)), expectedValue=I(value), comparisonKind=self.K[kind], parameter=('vec', tuple(ps)))

    def comp(self, ops, custom=False, controls=()):
        return self.base('qc::CompoundOperation', 'Compound', 'Compound operation:', ops=('vec', tuple(self.put(o) for o in ops)),
                         customGate=('b', custom), controls=('vec', tuple(opsem.ctrl(self.F, q, p) for q, p in sorted(controls))))

    def aod(self, ty, targets, moves):
        D = {c['n']: ('e', 'na::Dimension', c['n'], c['v']) for c in self.F.enum('na::Dimension')['c']}
        return self.base('na::AodOperation', ty, ty.lower(), targets=('vec', tuple(I(t) for t in targets)),
                         operations=('vec', tuple(rec('na::SingleOperation', {'dir': D[d], 'start': Fl(a), 'end': Fl(b)}) for d, a, b in moves)))

    def deep(self, v, st=None):
        """value with owned pointers replaced by what they point to"""
        store = st.store if st is not None else self.store
        if v[0] == 'ptr' and not v[1][1] and v[1][0] in store:
            return ('own', self.deep(store[v[1][0]], st))
        if v[0] in ('vec',):
            return ('vec', tuple(self.deep(x, st) for x in v[1]))
        if v[0] == 'rec':
            return (v[0], v[1], v[2], tuple((k, self.deep(x, st)) for k, x in v[3]))
        if v[0] == 'opt':
            return ('opt', self.deep(v[1], st))
        return v

    def pointers(self, v, st=None):
        """owned pointers reachable from a value"""
        store = st.store if st is not None else self.store
        out = []
        if v[0] == 'ptr':
            out.append(v)
            if v[1][0] in store:
                out += self.pointers(store[v[1][0]], st)
        elif v[0] == 'vec':
            for x in v[1]:
                out += self.pointers(x, st)
        elif v[0] == 'rec':
            for _, x in v[3]:
                out += self.pointers(x, st)
        elif v[0] == 'opt':
            out += self.pointers(v[1], st)
        return out
