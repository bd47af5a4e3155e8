"""Gate calls in OpenQASM programs: names, parameters, operands, modifiers, broadcasting, definitions."""
import itertools
from rules.common import *
from rules.qtexts import V2, V3, run
import qref, sem

PAR = ['0.3', '-1.1', '0.7', '2.9']


def arity(n):
    c, t = qref.STD[n]
    nt, np, _ = sem.REF[t]
    return c, nt, np


def call(n, qs, mods='', args=None):
    np = arity(n)[2]
    a = args or PAR[:np]
    return "%s%s%s %s;" % (mods, n, '(' + ', '.join(a) + ')' if a else '', ', '.join('q[%d]' % q for q in qs))


def names():
    """every gate of the language, its standard library and the extensions the importer knows"""
    return [n for n in qref.STD if n != 'gphase']


def plain():
    for ch in chunks(names(), 6):
        parts = []
        for n in ch:
            c, nt, np = arity(n)
            for qs in ([3, 1, 4, 0, 2], [0, 4, 2, 1, 3]):
                parts.append(call(n, qs[:c + nt], args=PAR[:np] if qs[0] == 3 else PAR[::-1][:np]))
        yield 'gate', 'ok', V3 + 'qubit[5] q; h q; ', parts
    yield 'gate', 'ok', V3 + 'qubit[5] q; h q; ', ['cu(0.1, 0.2, 0.3, 0.4) q[1], q[0];', 'inv @ cu(0.1, 0.2, 0.3, 0.4) q[1], q[4];', 'gphase(0.4);', 'ctrl @ gphase(0.4) q[1];', 'negctrl @ gphase(-0.4) q[2];', 'ctrl @ ctrl @ gphase(0.9) q[1], q[0];']
    for n in ('mcx', 'mcx_gray', 'mcphase'):
        a = '(0.3)' if n == 'mcphase' else ''
        yield 'gate', 'ok', V3 + 'qubit[5] q; h q; ', ['%s%s %s;' % (n, a, ', '.join('q[%d]' % i for i in range(k))) for k in (2, 3, 5)]
    yield 'gate', 'ok', V3 + 'qubit[7] q; h q; ', ['mcx_vchain q[0],q[1],q[2],q[3],q[4];', 'mcx_vchain q[6],q[1],q[2],q[3],q[4],q[5],q[0];', 'mcx_recursive q[0],q[1],q[2],q[3],q[4];', 'mcx_recursive q[5],q[1],q[2],q[3],q[4],q[0];', 'mcx_recursive q[6],q[5],q[1],q[2],q[3],q[4],q[0];']


def modified(deep):
    M = ['ctrl @ ', 'negctrl @ ', 'inv @ ', 'ctrl(2) @ ', 'negctrl(2) @ ']
    G = ['x', 'rx', 's', 'cx', 'u2', 'swap', 'iswap', 'dcx', 'xx_plus_yy', 'cswap', 'ccx', 'cp', 'sx', 'u', 'ecr', 'p']
    stacks = [(m,) for m in M] + [s for s in itertools.product(M, repeat=2) if True]
    if deep:
        G = names()
        stacks += list(itertools.product(M, repeat=3))
    order = [2, 4, 0, 3, 1]
    todo = []
    for i, s in enumerate(stacks):
        nc = sum(0 if m == 'inv @ ' else 2 if '2' in m else 1 for m in s)
        for j, g in enumerate(G):
            c, nt, np = arity(g)
            if nc + c + nt <= 5 and (deep or len(s) == 1 or (i + j) % 4 == 0):
                todo.append(call(g, order[:nc + c + nt], ''.join(s)))
    for ch in chunks(todo, 10):
        yield 'modifier', 'ok', V3 + 'qubit[5] q; h q; ', ch


def broadcasts():
    pre = V3 + 'qubit[2] q; qubit[2] r; qubit s; qubit[1] t; h q; rx(0.3) r[1]; '
    yield 'broadcast', 'ok', pre, ['h q;', 'rz(0.4) r;', 'cx q, r;', 'cx q[0], r;', 'cx r, s;', 'cx s, t;', 'rzz(0.2) q, r[0];', 'ccx q, r, s;', 'ccx s, q, t;', 'negctrl @ rx(0.1) r, q;', 'ctrl @ inv @ s q, r;', 'cswap s, q, r;', 'inv @ ctrl @ sx t, q;', 'U(0.1, 0.2, 0.3) s;', 'x t;']
    yield 'broadcast', 'ok', pre + 'gate g(a) x1, x2 { rx(a) x1; cx x1, x2; } gate k x1 { h x1; t x1; } ', ['g(0.2) q, r;', 'g(-0.1) s, q;', 'ctrl @ g(0.3) t, q, r;', 'inv @ g(0.3) r, q;', 'k q;', 'negctrl @ k q, r;']
    for t in ('qubit[2] q; qubit[3] r; cx q, r;', 'qubit[3] q; qubit[2] r; qubit[2] s; ccx q[0], q, r;', 'qubit[2] q; qubit[2] r; qubit[3] s; ccx q, r, s;', 'qubit[2] q; cx q[0], q;', 'qubit[2] q; cx q, q;', 'qubit[2] q; cx q[0], q[0];', 'qubit[2] q; swap q[1], q[1];',
              'qubit[3] q; ctrl @ cx q[0], q[1], q[0];', 'qubit[3] q; ccx q[0], q[0], q[1];', 'qubit[2] q; qubit[2] r; ctrl @ swap q, r, q[1];', 'gate g a, b { cx a, b; } qubit[2] q; g q[1], q[1];'):
        yield 'broadcast', 'bad', V3 + t, None


def definitions():
    pre = V3 + 'qubit[4] q; h q; const float a = 0.7; '
    T = ['gate g r { rx(a) r; } g q[0]; gate h2(a) r { g r; ry(a) r; } h2(0.2) q[1];', 'gate g(t) r { rx(t) r; rz(-t/2) r; } g(0.3) q[2]; inv @ g(0.4) q[1]; ctrl @ g(0.5) q[3], q[0];',
         'gate g(t, u) r, s { rx(t+u) s; cp(u*2) r, s; barrier r, s; p(t) r; } g(0.3, -0.2) q[2], q[0]; g(1, 2) q[0], q[2]; ctrl @ inv @ g(0.1, 0.5) q[1], q[3], q[0];',
         'gate g r { } g q[0]; ctrl @ g q[0], q[1]; x q[1];', 'gate g r { x r; } g q; negctrl @ g q[3], q[2];',
         'gate g r, s { ctrl @ z r, s; negctrl @ x s, r; } negctrl @ inv @ g q[0], q[2], q[1]; g q[3], q[1];',
         'gate g(t) r { rx(t) r; } gate k(u) r, s { g(u) r; g(2*u) s; ctrl @ g(u - 1) s, r; } gate l r, s, v { k(0.3) s, v; inv @ k(0.2) v, r; } l q[3], q[0], q[1]; ctrl @ l q[2], q[1], q[0], q[3];',
         'gate g(pi2) r { rz(pi2 + pi) r; } g(0.25) q[0];', 'gate g(t) x1 { u2(t, sin(t)) x1; U(cos(t), t*t, -t) x1; } g(0.6) q[3];',
         'gate g(t) r { p(t) r; } gate k(t) r { g(t + 1) r; rz(t) r; } k(0.5) q[0];', 'gate g x1, y1 { swap x1, y1; } gate k x1, y1 { g y1, x1; cx y1, x1; } k q[1], q[2]; ctrl @ k q[0], q[3], q[1];',
         'gate s2 r { s r; sdg r; t r; } inv @ s2 q[1]; inv @ inv @ s2 q[2]; ctrl @ inv @ s2 q[0], q[1];', 'gate g r { inv @ t r; inv @ rx(0.3) r; } inv @ g q[0];', 'gate one r, s { cx r, s; } ctrl @ one q[2], q[0], q[1]; inv @ one q[3], q[1];',
         'gate bell r, s { h r; cx r, s; } gate ghz r, s, t { bell r, s; cx s, t; } negctrl @ ghz q[0], q[1], q[2], q[3]; inv @ ghz q[3], q[2], q[1];']
    for t in T:
        yield 'definition', 'ok', pre + t, None
    for t in ('gate g(a1) r { rx(a1) r; } gate g(a1) r { rx(a1) r; }', 'gate g r { g r; } g q[0];', 'gate g r { h r; } gate k r { g r; k r; } k q[0];', 'gate g r { rx(b) r; } g q[0];', 'gate g(b, b) r { rx(b) r; } g(1, 2) q[0];', 'gate g r, r { cx r, r; } g q[0], q[1];',
              'gate g r { x s; } g q[0];', 'gate g r { x q[0]; } g q[0];', 'gate g r { x r[0]; } g q[0];', 'gate g r { measure r; } g q[0];', 'gate g r { y1 r; } g q[0];', 'gate g r, s { cx r, r; } g q[0], q[1];', 'nogate q[0];', 'ctrl @ nogate q[0], q[1];',
              'gate g r { if (true) x r; } g q[0];', 'opaque g r; g q[0];', 'gate g r { rx(c) r; } gate k(c) r { g r; } k(0.3) q[0];', 'gate g(t) r { rx(t) r; } rx(t) q[0];', 'gate g(t) r { rx(t) r; } gate k r { rz(t) r; } g(0.1) q[0]; k q[0];'):
        yield 'definition', 'bad', pre + t, None
    for t in ('gate g() r { h r; } g() q[0]; g q[1];', 'gate g(q1) q1 { rx(q1) q1; } g(0.3) q[0];', 'gate g r { reset r; } g q[0];', 'gate x r { y r; } x q[0];', 'gate swap r, s { cx r, s; } swap q[0], q[1];', 'qubit[1] r; gate g r { x r; } g q[1];'):
        yield 'definition', 'any', pre + t, None


def refused():
    pre = V3 + 'qubit[4] q; '
    for n in names():
        c, nt, np = arity(n)
        k = c + nt
        yield 'operands', 'bad', pre, [call(n, range(k - 1))]
    for t in ('rx q[0];', 'rx() q[0];', 'rx(0.1, 0.2) q[0];', 'x(0.1) q[0];', 'x q[0], q[1];', 'cx q[0], q[1], q[2];', 'u2(0.1) q[0];', 'u3(0.1, 0.2) q[0];', 'ctrl @ x q[0];', 'ctrl(2) @ x q[0], q[1];', 'ctrl(3) @ x q[0], q[1], q[2];', 'ctrl @ x q[0], q[1], q[2];', 'negctrl @ cx q[0], q[1];',
              'ctrl(-1) @ x q[0], q[1];', 'ctrl(1.5) @ x q[0], q[1];', 'ctrl(true) @ x q[0], q[1];', 'ctrl(n) @ x q[0], q[1];', 'x q[4];', 'x q[-1];', 'x q[1.0];', 'x q[true];', 'x r;', 'x r[0];', 'x q[0][0];', 'x q[0]', 'x;', 'rx(0.1 q[0];', 'rx(true) q[0];', 'rx(u) q[0];', 'inv x q[0];', 'ctrl x q[0], q[1];', 'foo @ x q[0];', 'rx(0.1,,0.2) q[0];'):
        yield 'operands', 'bad', pre, [t]
    for t in ('pow(2) @ x q[0];', 'pow(0.5) @ x q[0];', 'pow(-1) @ s q[0];', 'ctrl(0) @ x q[0];', 'ctrl(1 + 1) @ x q[0], q[1], q[2];', 'ctrl @ mcx q[0], q[1], q[2];', 'inv @ mcphase(0.2) q[0], q[1], q[2];', 'mcx q[0];', 'mcx_vchain q[0];', 'mcx_vchain q[0], q[1];', 'mcx_recursive q[0];', 'mcphase(0.1) q[0];', 'ctrl @ cu(0.1, 0.2, 0.3, 0.4) q[0], q[1], q[2];',
              'x q[1 + 1];', 'x q[{0, 1}];', 'x q[0:1];', 'gphase(0.1) q[0];', 'h $0;', 'cx $0, $1;', 'delay[100ns] q[0];', 'box { x q[0]; }', 'inv @ gphase(0.3);'):
        yield 'operands', 'any', pre, [t]


def version2(deep):
    pre = V2 + 'qreg q[5]; creg c[5]; h q; '
    G = ['x', 'y', 'z', 'h', 's', 'sdg', 't', 'rx', 'ry', 'rz', 'p', 'u1', 'u2', 'u3', 'u', 'swap', 'sx', 'id', 'iswap', 'rzz', 'rxx', 'dcx']
    for ch in chunks([(i, g) for i, g in enumerate(G)], 5):
        parts = []
        for i, g in ch:
            c, nt, np = arity(g)
            for k in (0, 1, 2, 3):
                if k == 1 and g == 'u':
                    continue            # cu is a gate of its own
                if k + c + nt <= 5 and (deep or k == 0 or (i + k) % 3 == 0 or k == 1):
                    parts.append("%s%s%s %s;" % ('c' * k, g, '(' + ', '.join(PAR[:np]) + ')' if np else '', ', '.join('q[%d]' % q for q in [3, 0, 4, 1, 2][:k + c + nt])))
        yield 'version 2', 'ok', pre, parts
    pre = V2 + 'include "qelib1.inc"; qreg q[5]; creg c[5]; h q; '
    yield 'version 2', 'ok', pre, ['c3x q[0],q[1],q[2],q[3];', 'c4x q[0],q[1],q[2],q[3],q[4];', 'rccx q[2],q[0],q[1];', 'rc3x q[2],q[0],q[1],q[4];', 'c3sqrtx q[0],q[1],q[2],q[3];', 'cu1(0.3) q[4],q[1];', 'cu3(0.1,0.2,0.3) q[0],q[1];', 'CX q[1],q[0];', 'U(0.1,0.2,0.3) q[0];', 'id q[0];', 'cswap q[0],q[1],q[2];', 'crz(0.2) q[1],q[2];', 'csx q[0],q[3];']
    yield 'version 2', 'ok', V2 + 'qreg q[3]; gate g(t) r, s { rx(t/2) r; cx r, s; } h q[0]; g(pi) q[2], q[0]; cg(0.3) q[0], q[1], q[2];', None
    for t in ('qreg q[3]; cnogate q[0], q[1];', 'qreg q[3]; ccx q[0], q[1];', 'qreg q[3]; cc q[0], q[1];', 'qreg q[3]; c q[0];'):
        yield 'version 2', 'bad', V2 + t, None
    # without version 2 there are no implicit controls
    for t in ('qubit[3] q; crxx(0.1) q[0], q[1], q[2];', 'qubit[4] q; cccz q[0], q[1], q[2], q[3];', 'qubit[3] q; csdg q[0], q[1];'):
        yield 'version 2', 'bad', V3 + t, None


def jobs(deep):
    for g in (plain(), modified(deep), broadcasts(), definitions(), refused(), version2(deep)):
        for r, m, t, p in g:
            yield (r, m, t, p)


def check(ctx):
    ctx.rule("gate", "every gate name applies the gate, parameters and operands it names, in order")
    ctx.rule("modifier", "ctrl, negctrl and inv, in any order and number, modify the gate they precede; their operands come first")
    ctx.rule("broadcast", "registers as operands apply the gate to each index; other widths and repeated qubits are rejected")
    ctx.rule("definition", "calling a defined gate applies its body with its own parameters and qubits; invalid definitions and calls are rejected")
    ctx.rule("operands", "calls with the wrong number or kind of operands, parameters or modifiers are rejected with CompilerError")
    ctx.rule("version 2", "OpenQASM 2 programs may prefix gates by implicit controls; in OpenQASM 3 such names are unknown")
    run(ctx, jobs(ctx.tier == 'thorough'))
    for r, k in (("gate", 110), ("modifier", 165), ("operands", 100), ("version 2", 75), ("definition", 38), ("broadcast", 30)):
        ctx.need(r, k)
