"""Circuits whose diagrams the simplification strategies are run on."""
import itertools, random
import math


def circuits(tier):
    def g(W, t):
        ty, qs, ps = t
        if ty == 'CX':
            return W.std('X', [qs[1]], [(qs[0], True)])
        if ty == 'CZ':
            return W.std('Z', [qs[1]], [(qs[0], True)])
        if ty == 'CP':
            return W.std('P', [qs[1]], [(qs[0], True)], [num_(ps)])
        if ty == 'CCX':
            return W.std('X', [qs[2]], [(qs[0], True), (qs[1], True)])
        if ty == 'CCZ':
            return W.std('Z', [qs[2]], [(qs[0], True), (qs[1], True)])
        return W.std(ty, list(qs), [], [num_(ps)] if ps is not None else [])

    from absint import Fl

    def num_(x):
        return Fl(x)

    def seq(*ts):
        return lambda W: [g(W, t) for t in ts]

    H = lambda q: ('H', (q,), None)
    P = lambda q, x: ('P', (q,), x)
    T = lambda q: ('T', (q,), None)
    S = lambda q: ('S', (q,), None)
    X = lambda q: ('X', (q,), None)
    CX = lambda a, b: ('CX', (a, b), None)
    CZ = lambda a, b: ('CZ', (a, b), None)
    yield 'empty', 2, seq()
    yield 'h', 1, seq(H(0))
    yield 'hh', 1, seq(H(0), H(0))
    yield 'hth', 1, seq(H(0), T(0), H(0))
    yield 'hsh shs', 1, seq(H(0), S(0), H(0), S(0), H(0), S(0))
    yield 'xzx', 1, seq(X(0), ('Z', (0,), None), X(0), ('Y', (0,), None))
    yield 'bell', 2, seq(H(0), CX(0, 1))
    yield 'cx cx', 2, seq(CX(0, 1), CX(0, 1))
    yield 'cx xc cx', 2, seq(CX(0, 1), H(0), CX(1, 0), H(0), CX(0, 1))
    yield 'ghz', 3, seq(H(0), CX(0, 1), CX(1, 2))
    yield 'swap', 2, seq(('SWAP', (0, 1), None), T(0), H(1))
    yield 'ccx', 3, seq(('CCX', (0, 1, 2), None))
    if tier == 'thorough':
        yield 'ccx ccx', 3, seq(('CCX', (0, 1, 2), None), ('CCX', (0, 1, 2), None))
    yield 'ccz h', 3, seq(('CCZ', (0, 1, 2), None), H(1), CX(1, 2))
    yield 'gadgets', 3, seq(CX(0, 1), CX(1, 2), ('RZ', (2,), .3), CX(1, 2), CX(0, 1), H(0), CX(0, 1), CX(1, 2), ('RZ', (2,), .7), CX(1, 2), CX(0, 1))
    yield 'gadgets fuse', 3, seq(CX(0, 1), CX(1, 2), ('RZ', (2,), .3), CX(1, 2), CX(0, 1), CX(0, 2), CX(2, 1), ('RZ', (1,), .9), CX(2, 1), CX(0, 2))
    yield 'gadget pauli', 3, seq(CX(0, 1), CX(1, 2), ('RZ', (2,), .3), CX(1, 2), CX(0, 1), X(1), CX(0, 1), CX(1, 2), ('RZ', (2,), .3), CX(1, 2), CX(0, 1), X(1))
    yield 'cp', 2, seq(('CP', (0, 1), .4), H(0), ('CP', (1, 0), -.4))
    yield 'qft', 3, seq(H(2), ('CP', (1, 2), math.pi / 2), ('CP', (0, 2), math.pi / 4), H(1), ('CP', (0, 1), math.pi / 2), H(0))
    yield 'iswap rzz', 2, seq(('iSWAP', (0, 1), None), ('RZZ', (0, 1), 1.1), ('RXX', (0, 1), -.6), ('RYY', (1, 0), .2), ('RZX', (0, 1), .5))
    yield 'clifford', 3, seq(H(0), S(0), CX(0, 1), H(1), S(1), CX(1, 2), H(2), S(2), CX(2, 0), H(0), S(0), CZ(0, 1), H(1))
    yield 'clifford t', 3, seq(H(0), T(0), CX(0, 1), H(1), T(1), CX(1, 2), H(2), T(2), CX(2, 0), H(0), T(0), CZ(0, 1), H(1), T(1))
    r = random.Random(7)
    kinds = ['H', 'H', 'T', 'S', 'X', 'P', 'CX', 'CX', 'CX', 'CZ', 'RX', 'SX', 'CCZ']
    ccz = lambda ts: sum(t[0] == 'CCZ' for t in ts)
    for i in range(400 if tier == 'thorough' else 48):
        n = r.choice((2, 3, 3))
        ts = []
        for _ in range(r.randint(4, 10 if tier != 'thorough' else 20)):
            k = r.choice(kinds if n == 3 and (ccz(ts) == 0 or tier == 'thorough' and ccz(ts) < 2) else kinds[:-1])
            qs = tuple(r.sample(range(n), {'CX': 2, 'CZ': 2, 'CCZ': 3}.get(k, 1)))
            ts.append((k, qs, r.choice((math.pi / 2, math.pi, -math.pi / 2, .3, math.pi / 4, 1.2)) if k in ('P', 'RX') else None))
        yield 'random circuit %d: %s' % (i, ' '.join('%s%s' % (k, ','.join(map(str, q))) + ('(%.3f)' % p if p else '') for k, q, p in ts)), n, seq(*ts)
