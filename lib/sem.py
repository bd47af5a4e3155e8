"""Reference semantics (textbook definitions, written independently of the
repository) and evaluation of the terms the abstract interpreter extracts.  Two
terms over real parameters are compared at fixed generic points; the functions
involved are trigonometric polynomials, so agreement there is agreement
everywhere up to the comparison tolerance."""
import cmath, math
from facts import AnalysisError

TOL = 1e-9
# generic parameter points (no special angles)
pi = math.pi
# generic points, points outside one period (half-angle gates have period 4 pi), special angles
POINTS = [(0.7390851, 1.2345678, -0.5772156, 0.3141), (-2.1972245, 0.6180339, 1.9021605, 2.2),
          (3.0517578, -1.4426950, 0.2613061, -1.07), (7.9, -8.3, 9.7, -6.6), (-11.3, 13.1, -15.7, 19.9), (29.3, 33.1, -27.2, 41.7),
          (0., 0., 0., 0.), (pi, pi / 2, -pi / 2, pi), (pi / 2, 0., pi, 0.), (-pi, pi, pi / 4, -pi / 2),
          (2 * pi, -pi / 2, pi / 2, 0.3), (pi / 2, -pi / 2, pi / 2, pi / 3), (1e-7, -1e-7, 2e-7, 0.)]


# ---------------------------------------------------------------- matrices
def mm(a, b):
    n, k, m = len(a), len(b), len(b[0])
    return [[sum(a[i][x] * b[x][j] for x in range(k)) for j in range(m)] for i in range(n)]


def dag(a):
    return [[complex(a[j][i]).conjugate() for j in range(len(a))] for i in range(len(a[0]))]


def eye(n): return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
def scale(c, a): return [[c * x for x in r] for r in a]
def add(a, b): return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def kron(a, b):
    return [[a[i][j] * b[k][l] for j in range(len(a[0])) for l in range(len(b[0]))]
            for i in range(len(a)) for k in range(len(b))]


def dist(a, b):
    if len(a) != len(b) or len(a[0]) != len(b[0]):
        return float('inf')
    return max(abs(x - y) for r, s in zip(a, b) for x, y in zip(r, s))


def close(a, b, tol=TOL): return dist(a, b) < tol


def close_phase(a, b, tol=TOL):
    if len(a) != len(b):
        return False
    i, j = max(((i, j) for i in range(len(b)) for j in range(len(b[0]))), key=lambda p: abs(b[p[0]][p[1]]))
    if abs(b[i][j]) < 1e-12 or abs(a[i][j]) < 1e-12:
        return close(a, b, tol)
    c = a[i][j] / b[i][j]
    return abs(abs(c) - 1) < tol and close(a, scale(c, b), tol)


X = [[0, 1], [1, 0]]
Y = [[0, -1j], [1j, 0]]
Z = [[1, 0], [0, -1]]
ID = [[1, 0], [0, 1]]


def expm_pauli(theta, p):
    """exp(-i theta/2 P) for an involution P"""
    return add(scale(math.cos(theta / 2), eye(len(p))), scale(-1j * math.sin(theta / 2), p))


def phase(l): return cmath.exp(1j * l)


def u3(t, p, l):
    return [[math.cos(t / 2), -phase(l) * math.sin(t / 2)],
            [phase(p) * math.sin(t / 2), phase(p + l) * math.cos(t / 2)]]


def cxm(c, t, n=2):
    """bit position 0 is the most significant index"""
    N = 1 << n
    m = [[0] * N for _ in range(N)]
    for i in range(N):
        j = i ^ (1 << (n - 1 - t)) if (i >> (n - 1 - c)) & 1 else i
        m[j][i] = 1
    return m


s2 = math.sqrt(0.5)
SXm = [[(1 + 1j) / 2, (1 - 1j) / 2], [(1 - 1j) / 2, (1 + 1j) / 2]]
XI, IX = kron(X, ID), kron(ID, X)


def xx_minus_yy(t, b):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return [[c, 0, 0, -1j * s * phase(-b)], [0, 1, 0, 0], [0, 0, 1, 0], [-1j * s * phase(b), 0, 0, c]]


def xx_plus_yy(t, b):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return [[1, 0, 0, 0], [0, c, -1j * s * phase(b), 0], [0, -1j * s * phase(-b), c, 0], [0, 0, 0, 1]]


# name -> (number of targets, number of parameters, matrix).  Two-qubit matrices
# index the first target as the most significant bit.
REF = {
    'GPhase': (0, 1, lambda a: [[phase(a)]]),
    'I': (1, 0, lambda: ID), 'H': (1, 0, lambda: [[s2, s2], [s2, -s2]]),
    'X': (1, 0, lambda: X), 'Y': (1, 0, lambda: Y), 'Z': (1, 0, lambda: Z),
    'S': (1, 0, lambda: [[1, 0], [0, 1j]]), 'Sdg': (1, 0, lambda: [[1, 0], [0, -1j]]),
    'T': (1, 0, lambda: [[1, 0], [0, phase(math.pi / 4)]]), 'Tdg': (1, 0, lambda: [[1, 0], [0, phase(-math.pi / 4)]]),
    'V': (1, 0, lambda: expm_pauli(math.pi / 2, X)), 'Vdg': (1, 0, lambda: expm_pauli(-math.pi / 2, X)),
    'U': (1, 3, u3), 'U2': (1, 2, lambda p, l: u3(math.pi / 2, p, l)),
    'P': (1, 1, lambda l: [[1, 0], [0, phase(l)]]),
    'SX': (1, 0, lambda: SXm), 'SXdg': (1, 0, lambda: dag(SXm)),
    'RX': (1, 1, lambda t: expm_pauli(t, X)), 'RY': (1, 1, lambda t: expm_pauli(t, Y)),
    'RZ': (1, 1, lambda t: expm_pauli(t, Z)),
    'SWAP': (2, 0, lambda: [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]),
    'iSWAP': (2, 0, lambda: [[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]]),
    'iSWAPdg': (2, 0, lambda: [[1, 0, 0, 0], [0, 0, -1j, 0], [0, -1j, 0, 0], [0, 0, 0, 1]]),
    # Peres: CX(first -> second) followed by X on the first target
    'Peres': (2, 0, lambda: mm(XI, cxm(0, 1))), 'Peresdg': (2, 0, lambda: mm(cxm(0, 1), XI)),
    'DCX': (2, 0, lambda: mm(cxm(1, 0), cxm(0, 1))),
    'ECR': (2, 0, lambda: [[0, 0, s2, 1j * s2], [0, 0, 1j * s2, s2], [s2, -1j * s2, 0, 0], [-1j * s2, s2, 0, 0]]),
    'RXX': (2, 1, lambda t: expm_pauli(t, kron(X, X))), 'RYY': (2, 1, lambda t: expm_pauli(t, kron(Y, Y))),
    'RZZ': (2, 1, lambda t: expm_pauli(t, kron(Z, Z))), 'RZX': (2, 1, lambda t: expm_pauli(t, kron(Z, X))),
    'XXminusYY': (2, 2, xx_minus_yy), 'XXplusYY': (2, 2, xx_plus_yy),
}


def ref(name, params):
    nt, np_, f = REF[name]
    if len(params) < np_:
        raise KeyError("%s with %d parameters" % (name, len(params)))
    return f(*params[:np_])


def embed(m, targets, n, controls=()):
    """matrix on n qubits; qubit 0 is the LEAST significant bit of the index.
    targets[0] is the most significant bit of m's index.  controls: (qubit, positive)"""
    N = 1 << n
    k = len(targets)
    out = [[0j] * N for _ in range(N)]
    for col in range(N):
        if all(((col >> q) & 1) == (1 if pos else 0) for q, pos in controls):
            ci = 0
            for q in targets:
                ci = (ci << 1) | ((col >> q) & 1)
            for ri in range(1 << k):
                v = m[ri][ci]
                if v == 0:
                    continue
                row = col
                for b, q in enumerate(targets):
                    bit = (ri >> (k - 1 - b)) & 1
                    row = (row & ~(1 << q)) | (bit << q)
                out[row][col] += v
        else:
            out[col][col] += 1
    return out


# ------------------------------------------------------------- term values
class Undefined(AnalysisError):
    pass


def _r(x):
    return x.real if isinstance(x, complex) else x


def _nearby(x):
    return float(round(_r(x)))


FUN = {'sin': cmath.sin, 'cos': cmath.cos, 'sqrt': cmath.sqrt, 'exp': cmath.exp, 'neg': lambda x: -x,
       'tan': cmath.tan, 'acos': cmath.acos, 'asin': cmath.asin, 'conj': lambda x: complex(x).conjugate(),
       'abs': abs, 'fabs': abs, 'norm': lambda x: abs(x) ** 2, 'arg': lambda x: cmath.phase(x),
       'real': lambda x: complex(x).real, 'imag': lambda x: complex(x).imag, '!': lambda x: not x,
       'floor': lambda x: float(math.floor(_r(x))), 'ceil': lambda x: float(math.ceil(_r(x))), 'trunc': lambda x: float(math.trunc(_r(x))),
       'nearbyint': _nearby, 'rint': _nearby, 'round': lambda x: float(math.floor(abs(_r(x)) + .5)) * (1 if _r(x) >= 0 else -1),
       'signbit': lambda x: math.copysign(1, _r(x)) < 0, 'isnan': lambda x: math.isnan(_r(x)), 'isfinite': lambda x: math.isfinite(_r(x)),
       'atan': lambda x: math.atan(_r(x)), 'log': cmath.log, 'log2': lambda x: math.log2(_r(x))}
BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: _div(a, b),
       'pow': lambda a, b: a ** b, 'fmod': lambda a, b: math.fmod(a.real, b.real), 'remainder': lambda a, b: math.remainder(_r(a), _r(b)),
       'atan2': lambda a, b: math.atan2(complex(a).real, complex(b).real), 'hypot': lambda a, b: math.hypot(_r(a), _r(b)),
       'polar': lambda a, b: a * cmath.exp(1j * b), 'copysign': lambda a, b: math.copysign(_r(a), _r(b)),
       '<': lambda a, b: _r(a) < _r(b), '>': lambda a, b: _r(a) > _r(b), '<=': lambda a, b: _r(a) <= _r(b), '>=': lambda a, b: _r(a) >= _r(b),
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '&&': lambda a, b: bool(a) and bool(b), '||': lambda a, b: bool(a) or bool(b),
       'max': lambda a, b: max(_r(a), _r(b)), 'min': lambda a, b: min(_r(a), _r(b))}


def _div(a, b):
    if b == 0:
        if isinstance(a, complex) or isinstance(b, complex) or a == 0:
            raise Undefined("division by zero")
        return math.inf if (a > 0) == (math.copysign(1, b) > 0) else -math.inf
    return a / b


def holds(pc, env):
    """does the path condition hold at this point?"""
    return all(bool(val(c, env)) == b for c, b in pc)


def val(v, env):
    """numeric value of a scalar term; env: symbol/term -> number"""
    if v in env:
        return env[v]
    k = v[0]
    if k in ('i', 'f'):
        return v[1]
    if k == 'q':
        return float(v[1])
    if k == 'b':
        return 1 if v[1] else 0
    if k == 'e':
        return v[3]
    if k == 'rec':
        d = dict(v[3])
        if 're' in d and 'im' in d:
            return complex(val(d['re'], env)) + 1j * complex(val(d['im'], env))
        if 'r' in d and 'i' in d:
            return complex(val(d['r'], env)) + 1j * complex(val(d['i'], env))
    if k == 'ap':
        op, a = v[1], v[2:]
        if op in BIN and len(a) == 2:
            return BIN[op](val(a[0], env), val(a[1], env))
        if op in FUN and len(a) == 1:
            return FUN[op](val(a[0], env))
        if op == 'ite' and len(a) == 3:
            raise Undefined("conditional term")
    raise Undefined("no value for term %r" % (v,))


def matrix_of(v, env):
    """vec of 4 entries (row major 2x2) or vec of rows"""
    if v[0] == 'rec':
        d = dict(v[3])
        for x in d.values():
            if x[0] == 'vec':
                v = x
                break
    if v[0] != 'vec':
        raise Undefined("not a matrix: %r" % (v,))
    es = v[1]
    if es and es[0][0] == 'vec':
        return [[val(x, env) for x in r[1]] for r in es]
    if len(es) == 4:
        return [[val(es[0], env), val(es[1], env)], [val(es[2], env), val(es[3], env)]]
    raise Undefined("matrix with %d entries" % len(es))
