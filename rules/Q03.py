"""Whole OpenQASM programs: registers, measurements, resets, conditions, includes, comments; what is not a program is rejected."""
import itertools
from rules.common import *
from rules.qtexts import V2, V3, run


def jobs(deep):
    pre = V3 + 'qubit[3] q; bit[2] c; bit d; h q; ry(0.3) q[1]; cx q[0], q[2]; '
    # registers
    for t in ('qubit q; h q;', 'qubit[1] q; h q[0];', 'qubit[2] a; qubit b; qubit[3] e; x e[2]; cx a[1], b; h e; cx b, e[0];', 'bit[2] a; qubit[2] b; bit e; qubit f; measure b -> a; e = measure f; x f;', 'int[4] i; uint[3] u; bit[2] c; qubit[2] q; h q; c = measure q;', 'qubit[2] q; bit[2] c = measure q; bit d = measure q[1];',
              'qubit q; int i; uint j; bit b = measure q;', 'qubit[2] q; h q; bit[3] c; measure q[0] -> c[2]; measure q[1] -> c[0];', 'const int n = 2; qubit q; bit b; h q; b = measure q;', 'qreg q[2]; creg c[2]; h q; measure q -> c;'):
        yield 'register', 'ok', V3 + t, None
    for t in ('qubit[2] q; qubit[3] q;', 'qubit[2] q; bit[3] q;', 'bit[2] c; bit c;', 'qubit q; const float q = 1;', 'qubit 2q;', 'qubit;', 'qubit[2];', 'qubit q', 'bit[2] c[2];', 'qubit q = 1;', 'qubit q; gate g q { x r; } x r;', 'int int;', 'qubit measure;', 'qubit[2] q, r;'):
        yield 'register', 'bad', V3 + t, None
    for t in ('float[64] f;', 'angle[8] f;', 'bool b;', 'complex[float[64]] z;', 'array[int[8], 2] a;', 'duration t;', 'stretch s;', 'let a = q;', 'input int[4] i;', 'output bit[2] o;', 'qubit x; x x;', 'qubit pi;', 'bit c = 1;', 'bit[2] c = "01";', 'int[4] i = 3;', 'uint[4] j = 3; qubit q; if (j == 3) x q;', 'mutable int i;', 'const bit b = true;', 'qubit[8] q; x q[7];'):
        yield 'register', 'any', V3 + t, None
    # measurements, resets, barriers
    for t in ('c = measure q[0:1];' if False else 'c[1] = measure q[0]; c[0] = measure q[1];', 'measure q[0] -> c[1]; reset q[0]; h q[0]; measure q[0] -> c[0];', 'd = measure q[2]; measure q[1] -> d;', 'reset q; x q[1];', 'reset q[1]; reset q[0];', 'barrier q; barrier q[0], q[2]; x q[1]; barrier q[1];', 'c[0] = measure q[2]; reset q[2]; c[1] = measure q[0]; d = measure q[1];', 'measure q[2] -> c[0]; measure q[2] -> c[1];', 'bit[3] e; e = measure q; measure q -> e;', 'd[0] = measure q[1];'):
        yield 'measure', 'ok', pre + t, None
    for t in ('c = measure q;', 'measure q -> c;', 'measure q -> d;', 'd = measure q;', 'c = measure q[0];', 'measure q[0] -> c;', 'c[2] = measure q[0];', 'measure q[3] -> c[0];', 'e = measure q[0];', 'measure r -> c[0];', 'measure q[0] -> q[1];', 'measure c[0] -> d;', 'measure q[0] ->;', 'measure -> c[0];', 'c[0] = measure;', 'reset c;', 'reset c[0];', 'reset q[3];', 'reset r;', 'reset;', 'barrier c;', 'barrier q[3];', 'barrier r;', 'c[0] = q[0];', 'c[0] = x;', 'q[0] = measure q[1];', 'd + 1;', 'c[0] = measure q[0] + 1;', 'measure q[0] -> c[0] -> c[1];', 'c[0][0] = measure q[0];', 'bit e = measure c;', 'measure q[0] -> c[-1];'):
        yield 'measure', 'bad', pre + t, None
    for t in ('barrier;', 'measure q;', 'measure q[0];', 'c[0] = 1;', 'c = 2;', 'd = c[0];', 'c[0] = c[1];', 'c[0] = true;', 'd = 1;', 'c += 1;', 'end;', 'c = measure q[{0, 1}];', 'bit e = c[0];', 'd = !c[0];', 'd = measure q[0]; d = ~d;'):
        yield 'measure', 'any', pre + t, None
    # conditions
    m = pre + 'c = measure q[0:1]; '
    m = pre + 'measure q[0] -> c[0]; measure q[1] -> c[1]; measure q[2] -> d; '
    ok = ['if (c[0]) x q[0];', 'if (c[1]) x q[0];', 'if (!c[0]) x q[0];', 'if (!c[1]) { h q[0]; cx q[0], q[1]; }', 'if (~c[1]) x q[2];', 'if (d) x q[0]; else z q[0];', 'if (!d) { x q[0]; } else { rx(0.3) q[1]; h q[0]; }', 'if (c[0]) { x q[0]; } else { x q[1]; }']
    for o in ('==', '!=', '<', '<=', '>', '>='):
        for v in (0, 1, 2, 3):
            if (o, v) in (('<', 0), ('>', 3)) or deep or (v + len(o)) % 2 or o == '==':
                ok.append('if (c %s %d) x q[0];' % (o, v))
        ok.append('if (2 %s c) { h q[0]; x q[1]; } else { y q[1]; }' % o)
        ok.append('if (c %s 1) { x q[0]; } else { h q[2]; rz(0.2) q[2]; }' % o)
    ok += ['if (d == 1) x q[0];', 'if (d == 0) x q[0];', 'if (c == 0x2) x q[0];', 'if (c == 4) x q[0];', 'if (c < 5) x q[0];', 'if (c[0]) rx(pi/3) q[1]; if (c[1]) rz(0.4) q[1]; if (d) ctrl @ h q[0], q[1];', 'if (c == 3) inv @ s q[0]; x q[0];', 'gate g(t) r, s { rx(t) r; cx r, s; } if (c[1]) g(0.3) q[0], q[1]; if (c != 1) inv @ g(0.1) q[2], q[0];', 'if (c == 2) h q;', 'if (c[0]) cx q[0], q[1];']
    for ch in chunks(ok, 3):
        yield 'condition', 'ok', m, ch
    for t in ('if (c[0]) { }', 'if (c[0]) { } else { x q[0]; }', 'if (c == 1) { x q[0]; } else { }', 'if (c) x q[0];', 'if (c[0] == 1) x q[0];', 'if (c[1] == 0) x q[0];', 'if (c[1] != 1) x q[0];', 'if (d != 1) x q[0];', 'if (d == true) x q[0];', 'if (c[0] == true) x q[0];', 'if (c[1] == false) x q[0];', 'if (true) x q[0];', 'if (false) x q[0];', 'if (1) x q[0];', 'if (0) x q[0];', 'if (c[0] && c[1]) x q[0];', 'if (c[0] || d) x q[0];', 'if (!(c == 1)) x q[0];', 'if (!!c[0]) x q[0];', 'if (c == d) x q[0];', 'if (c[0] == c[1]) x q[0];', 'if (c[0]) if (c[1]) x q[0];', 'if (c[0]) { if (c[1]) x q[0]; else y q[1]; }', 'if (c[0]) { measure q[0] -> d; }', 'if (c[0]) reset q[0];', 'if (c[0]) { reset q[1]; x q[1]; }', 'if (c == 1 + 1) x q[0];', 'const uint k = 2; if (c == k) x q[0];', 'const uint k = 1; if (c[k]) x q[0];', 'if (c[1 - 1]) x q[0];', 'if (c == -1) x q[0];', 'if (-1 < c) x q[0];', 'if (c > -1) x q[0];', 'if (c == 1.0) x q[0];', 'if (c < 1.5) x q[0];', 'if (~c == 1) x q[0];', 'if (c + 1 == 2) x q[0];', 'if ((c) == (1)) x q[0];', 'if (1 == 1) x q[0];', 'if (1 < 0) x q[0];', 'if (c[0]) barrier q;', 'if (!c) x q[0];', 'if (c[0] != c[0]) x q[0];', 'if (2 == 2.0) x q[0];', 'if (c == 1) bit e = measure q[0];', 'if (0 == c[1]) x q[0];', 'if (c[1] > 0) x q[0];', 'if (!(!c[0])) x q[0];', 'if (!true) x q[0];', 'if (c[1] == c) x q[0];'):
        yield 'condition', 'may', m + t, None
    for t in ('if (e) x q[0];', 'if (e == 1) x q[0];', 'if (q) x q[0];', 'if (q[0]) x q[0];', 'if (q == 1) x q[0];', 'if (c[2]) x q[0];', 'if (c[-1]) x q[0];', 'if (!c[2]) x q[0];', 'if c[0] x q[0];', 'if (c[0] x q[0];', 'if () x q[0];', 'if (c == ) x q[0];', 'if (c = 1) x q[0];', 'if (c[0]) x q[5];', 'if (c[0]) nogate q[0];', 'if (c[0]) { x q[0];', 'if (c[0]) else x q[0];', 'else x q[0];', 'if (measure q[0]) x q[0];', 'if (x) y q[0];', 'if (c == q) x q[0];', 'if ("a" == c) x q[0];', 'if (e[0] == 1) x q[0];', 'if (!e) x q[0];', 'if (~e) x q[0];', 'if (1 == e) x q[0];'):
        yield 'condition', 'bad', m + t, None
    # OpenQASM 2
    p2 = V2 + 'qreg q[3]; creg c[2]; creg d[1]; h q; '
    for t in ('measure q[0] -> c[0]; measure q[2] -> c[1]; if (c == 2) x q[1]; if (c == 0) rz(0.2) q[0];', 'measure q[1] -> d[0]; if (d == 1) u3(0.1, 0.2, 0.3) q[1]; if(d==0) cx q[0], q[1];', 'barrier q; reset q[0]; barrier q[0], q[1]; x q[0];', 'qreg r[2]; creg e[2]; cx q[0], r; measure r -> e;', 'gate g a, b { cx a, b; h b; } g q[0], q[2]; if (c == 1) g q[1], q[0];', 'opaque h a; x q[0];', 'creg e[3]; measure q -> e; if (e == 5) x q[2];', 'reset q;'):
        yield 'version 2', 'ok', p2 + t, None
    for t in ('qreg q[2];', 'creg q[2];', 'if (c == 1) nogate q[0];', 'measure q -> c;', 'measure q[0] -> c;', 'x q[3];', 'qreg r;' if False else 'qreg r[-1];', 'gate h2 a { h a }', 'creg 1c[2];', 'U(0,0) q[0];', 'CX q[0];', 'opaque nogate a; nogate q[0];'):
        yield 'version 2', 'bad', p2 + t, None
    # layout comments, other comments, white space, includes, versions
    for t in ('// i 1 0 2\n// o 0 2 1\n' + V3 + 'qubit[3] q; x q[0]; cx q[0], q[1];', '// i 0 1\nOPENQASM 3.0;\ninclude "stdgates.inc";\nqubit[2] q; // i see 2 qubits\n// o well\n// io 1 0\n/* i 1 0 */ h q; /* // x q[0]; \n*/ x q[1]; // x q[0];', V3 + '\n\tqubit[2]\r\n q;x\nq [ 0 ];cx q[0],q[1];/**/h q[1];//', V3 + '/* a */ qubit /* b */ q; /***/ x q; // the end', 'qubit[2] q; h q; cx q[0], q[1];', 'OPENQASM 3; qubit q; x q;' if False else 'OPENQASM 3.1; qubit q; x q;', V3 + 'qubit _q1; qubit Q_2; x _q1; cx _q1, Q_2;', V3 + 'qubit q;;' if False else V3, '', '// nothing', 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[2];\n// i 1 0\nx q[0];',
              V3 + 'qubit[2] q; // rotate by pi 2 times\nx q[0]; // o 1 or two', V3 + 'qubit i; qubit o; x i; cx i, o;'):
        yield 'text', 'ok', t, None
    for t in ('OPENQASM 3.0; OPENQASM 3.0;', 'qubit q; OPENQASM 3.0;', 'OPENQASM;', 'OPENQASM three;', 'include "nofile.inc"; qubit q;', 'include stdgates;', 'include "stdgates.inc"', 'qubit q; x q;; y q; }', '{ qubit q;', 'qubit q; x(q);', 'qubit q; x q', 'foo', 'foo;', 'foo bar;', '1;', '"text";', ';', '@', '# 1', 'qubit q; h q; ?', 'qubit q; h q; \\', 'gate', 'gate g', 'gate g {', 'gate g q {', 'gate g q { x q; ', 'gate g(', 'gate g(a', 'gate g(a) q', 'if', 'if (', 'measure', 'measure q ->', 'reset', 'barrier q', 'qubit[', 'qubit[2', 'const', 'const float', 'const float x =', 'ctrl', 'ctrl @', 'ctrl(', 'ctrl(2', 'rx(', 'rx(1', 'rx(1,', 'inv', 'opaque', 'opaque g', 'qreg', 'qreg q', 'qreg q[', 'creg c[2]', 'include', 'include "', "include 'a", '"', "'", '/* open', '/* open *', 'qubit q; /*/ x q;', '/', '-', '0x', '1.', '$', '$0', 'x $0', 'qubit q; x q[', 'qubit q; x q[0', 'def f() { }', 'for int i in [0:1] { }', 'while (true) { }', 'return;', 'extern f();', 'cal { }', 'defcal x $0 { }', 'pragma x', 'box {', 'let', 'input', '\x01', '\u00e9', 'qubit \u00e9;', 'a = ', 'a[', 'a[0] =', 'U(', 'qubit q; U(0,0,0', 'gphase', 'gphase(', 'gphase(1', 'qubit q; gate g q { } g q; g;'):
        yield 'text', 'any' if t in (';', 'qubit q; x q;; y q; }', '\u00e9', 'qubit \u00e9;', 'pragma x', 'qubit q; x(q);', 'OPENQASM;', '/* open', '/* open *', 'qubit q; /*/ x q;', 'x $0', 'opaque', 'opaque g', '\x01') else 'bad', t, None


def check(ctx):
    ctx.rule("register", "declarations make registers of the given kind, size, name and order; others are rejected")
    ctx.rule("measure", "measurements, resets and barriers act on the qubits and bits they name; others are rejected")
    ctx.rule("condition", "conditional statements act exactly when the condition holds; conditions that are not supported are rejected")
    ctx.rule("version 2", "the same for OpenQASM 2 programs")
    ctx.rule("text", "comments and white space do not matter, except for layout comments; texts that are not programs are rejected with CompilerError")
    run(ctx, jobs(ctx.tier == 'thorough'))
    for r, k in (("register", 40), ("measure", 50), ("condition", 100), ("version 2", 20), ("text", 100)):
        ctx.need(r, k)
