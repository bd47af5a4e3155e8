"""Operations as abstract values and the unitary they denote."""
from absint import *
import sem


def ctrl(F, q, pos=True):
    t = {c['n']: c['v'] for c in F.enum('qc::Control::Type')['c']}
    n = 'Pos' if pos else 'Neg'
    return rec('qc::Control', {'qubit': I(q) if isinstance(q, int) else q, 'type': ('e', 'qc::Control::Type', n, t[n])})


def stdop(F, T, name, params, targets, controls=(), cls='qc::StandardOperation', **kw):
    d = {'type': T[name], 'parameter': ('vec', tuple(params)),
         'targets': ('vec', tuple(I(t) if isinstance(t, int) else t for t in targets)),
         'controls': ('vec', tuple(controls)), 'name': ('s', '')}
    d.update(kw)
    return rec(cls, d)


def field(v, f):
    x = rget(v, f)
    if x is None:
        raise sem.Undefined("no field %s" % f)
    return x


def tname(v):
    t = field(v, 'type')
    if t[0] != 'e':
        raise sem.Undefined("operation type is not decided: %s" % show(t))
    return t[2]


def qubits(v):
    if v[0] != 'vec':
        raise sem.Undefined("qubit list not decided")
    out = []
    for x in v[1]:
        n = num(x)
        if n is None:
            raise sem.Undefined("qubit not decided: %s" % show(x))
        out.append(n)
    return out


def controls(v):
    if v[0] != 'vec':
        raise sem.Undefined("controls not decided: %s" % show(v)[:200])
    return [(num(rget(c, 'qubit')), rget(c, 'type')[2] == 'Pos') for c in v[1]]


def symparam(v, env):
    """value of a sym::Expression record"""
    if v[0] != "rec":
        raise sem.Undefined("symbolic parameter not decided: " + show(v)[:200])
    r = sem.val(rget(v, "constant"), env)
    for t in rget(v, 'terms')[1]:
        r += sem.val(rget(t, 'coeff'), env) * sem.val(rget(t, 'var'), env)
    return r


def params(v, env):
    ps = [None] * len(field(v, 'parameter')[1])
    for i, p in enumerate(field(v, 'parameter')[1]):
        try:
            ps[i] = sem.val(p, env)
        except sem.Undefined:
            ps[i] = None
    sp = rget(v, 'symbolicParameter')
    if sp is not None and sp[0] == 'vec':
        for i, s in enumerate(sp[1]):
            if s[0] == 'opt':
                ps[i] = symparam(s[1], env)
    return ps


def unitary(v, env, n):
    """unitary on n qubits denoted by an operation record; Barrier is the identity"""
    name = tname(v)
    if name == 'Barrier':
        return sem.eye(1 << n)
    if name not in sem.REF:
        raise sem.Undefined("no unitary for " + name)
    ps = params(v, env)
    if None in ps[:sem.REF[name][1]]:
        raise sem.Undefined("parameters of %s not decided" % name)
    if len(ps) < sem.REF[name][1]:
        raise sem.Undefined("%s with %d parameters" % (name, len(ps)))
    ts = qubits(field(v, 'targets'))
    k = sem.REF[name][0]
    if k and len(ts) != k:
        raise sem.Undefined("%s with %d targets" % (name, len(ts)))
    return sem.embed(sem.ref(name, ps), ts if k else [], n, controls(field(v, 'controls')))


def perm(n, m=None):
    """an identity qc::Permutation on n qubits (or the given mapping)"""
    items = sorted((m or {i: i for i in range(n)}).items())
    return rec('qc::Permutation', {'permutation': ('map', tuple((('i', a), ('i', b)) for a, b in items))})


def circuit(n, ops=(), nc=0, **kw):
    """a qc::QuantumComputation with n plain qubits holding the given operations"""
    d = {'ops': ('vec', tuple(ops)), 'nqubits': ('i', n), 'nancillae': ('i', 0), 'nclassics': ('i', nc),
         'initialLayout': perm(n), 'outputPermutation': perm(n), 'globalPhase': ('f', 0.0),
         'ancillary': ('vec', (FALSE,) * n), 'garbage': ('vec', (FALSE,) * n)}
    d.update(kw)
    return rec('qc::QuantumComputation', d)
