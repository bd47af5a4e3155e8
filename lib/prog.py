"""What a circuit does: amplitudes per classical outcome, for circuits with measurements, resets and classical conditions."""
import cmath, math
from absint import *
import sem, opsem


def apply(v, n, u, ts, cs):
    """small matrix u on targets ts (first target = most significant), controlled by cs"""
    k = len(ts)
    cm = cv = 0
    for q, p in cs:
        cm |= 1 << q
        cv |= (1 << q) if p else 0
    tm = sum(1 << t for t in ts)
    offs = [sum(((i >> (k - 1 - j)) & 1) << t for j, t in enumerate(ts)) for i in range(1 << k)]
    out = list(v)
    for b in range(1 << n):
        if b & tm or b & cm != cv:
            continue
        x = [v[b | o] for o in offs]
        for r, o in enumerate(offs):
            out[b | o] = sum(u[r][c] * x[c] for c in range(1 << k))
    return out


_ref = {}


def small(name, ps):
    key = (name, tuple(ps))
    if key not in _ref:
        _ref[key] = sem.ref(name, list(ps))
    return _ref[key]


def holds(o, bits):
    """does the condition of a classically controlled operation hold"""
    reg, bit = rget(o, 'controlRegister'), rget(o, 'controlBit')
    exp, kind = num(rget(o, 'expectedValue')), rget(o, 'comparisonKind')[2]
    if reg[0] == 'opt':
        s, z = num(rget(reg[1], 'startIndex')), num(rget(reg[1], 'size'))
        val = sum(bits[s + i] << i for i in range(z))
    elif bit[0] == 'opt':
        val = bits[num(bit[1])]
    else:
        raise sem.Undefined("condition not decided")
    return {'Eq': val == exp, 'Neq': val != exp, 'Lt': val < exp, 'Leq': val <= exp, 'Gt': val > exp, 'Geq': val >= exp}[kind]


def step(o, n, branches, env, extra=()):
    if o[0] == 'own':
        o = o[1]
    cl = o[1]
    if cl == 'qc::CompoundOperation':
        cs = list(extra)
        for p in rget(o, 'ops')[1]:
            branches = step(p, n, branches, env, extra)
        return branches
    if cl == 'qc::ClassicControlledOperation':
        out = []
        for bits, v in branches:
            out += step(rget(o, 'op'), n, [(bits, v)], env, extra) if holds(o, bits) else [(bits, v)]
        return out
    name = opsem.tname(o)
    ts = opsem.qubits(rget(o, 'targets'))
    if name in ('Barrier', 'I'):
        return branches
    if name in ('Measure', 'Reset'):
        if o[1] != 'qc::NonUnitaryOperation':
            raise sem.Undefined("%s as %s" % (name, o[1]))
        cl_ = [num(c) for c in rget(o, 'classics')[1]] if name == 'Measure' else [None] * len(ts)
        if len(cl_) != len(ts):
            raise sem.Undefined("measurement with %d qubits and %d bits" % (len(ts), len(cl_)))
        for q, c in zip(ts, cl_):
            if q >= n:
                raise sem.Undefined("qubit %d does not exist" % q)
            new = []
            for bits, v in branches:
                for r in (0, 1):
                    w = [x if (i >> q & 1) == r else 0 for i, x in enumerate(v)]
                    if sum(abs(x) ** 2 for x in w) < 1e-14:
                        continue
                    if c is None:
                        if r:
                            w = [w[i ^ (1 << q)] for i in range(len(w))]
                        new.append((bits, w))
                    else:
                        if c >= len(bits):
                            raise sem.Undefined("bit %d does not exist" % c)
                        new.append((bits[:c] + (r,) + bits[c + 1:], w))
            branches = new
        return branches
    if name not in sem.REF:
        raise sem.Undefined("no meaning for " + name)
    ps = opsem.params(o, env)
    k, m = sem.REF[name][0], sem.REF[name][1]
    if None in ps[:m] or len(ps) < m:
        raise sem.Undefined("parameters of %s not decided" % name)
    cs = opsem.controls(rget(o, 'controls')) + list(extra)
    if k and len(ts) != k:
        raise sem.Undefined("%s with %d targets" % (name, len(ts)))
    if k == 0:
        ts = []
    if any(q >= n for q in ts + [q for q, _ in cs]):
        raise sem.Undefined("%s on a qubit that does not exist" % name)
    if len(set(ts) | {q for q, _ in cs}) != len(ts) + len(cs):
        raise sem.Undefined("%s uses a qubit twice" % name)
    u = small(name, ps[:m])
    return [(b, apply(v, n, u, ts, cs)) for b, v in branches]


def run(ops, n, nc, psi, env={}):
    """[(classical bits, unnormalised state)] after running ops on psi"""
    br = [((0,) * nc, list(psi))]
    for o in ops:
        br = step(o, n, br, env)
    return br


def state(n, seed=1):
    """a fixed product state with generic amplitudes"""
    v = [1]
    for q in range(n):
        a, b = .6 + .17 * q + .05 * seed, .4 + 1.3 * q + .31 * seed
        x, y = math.cos(a), math.sin(a) * cmath.exp(1j * b)
        v = [x * t for t in v] + [y * t for t in v]   # qubit q is bit q
    return v


def zero(n):
    return [1] + [0] * ((1 << n) - 1)


def joint(br, keep, n, bits=None):
    """per classical outcome, the unnormalised density matrix of the qubits `keep` (in that order)"""
    out = {}
    rest = [q for q in range(n) if q not in keep]
    for b, v in br:
        if bits is not None:
            b = tuple(b[i] for i in bits)
        acc = out.setdefault(b, {})
        groups = {}
        for i, x in enumerate(v):
            if x:
                r = sum((i >> q & 1) << j for j, q in enumerate(rest))
                a = sum((i >> q & 1) << j for j, q in enumerate(keep))
                groups.setdefault(r, []).append((a, x))
        for g in groups.values():
            for a, x in g:
                for c, y in g:
                    acc[a, c] = acc.get((a, c), 0) + x * complex(y).conjugate()
    return out


def same(a, b, tol=1e-9):
    for k in set(a) | set(b):
        x, y = a.get(k, {}), b.get(k, {})
        for i in set(x) | set(y):
            if abs(x.get(i, 0) - y.get(i, 0)) > tol:
                return False
    return True
