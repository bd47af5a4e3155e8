"""Constant expressions in OpenQASM programs: literals, operators, functions, constants, sizes and indices."""
import itertools
from rules.common import *
from rules.qtexts import V2, V3, run

OPS = ['+', '-', '*', '/', '^']


def angles(deep):
    """expressions as gate parameters"""
    atoms = ['2', '3', '0.5', 'pi', 'a', '7', '1.5e-1', 'n']
    out = []
    # two operands, every kind
    for x, y in itertools.product(['2', '7', '0.5', 'pi', 'a', 'n', 'm', 'u', '0'], repeat=2):
        for o in OPS:
            if o == '/' and y in ('0',):
                continue
            if o == '^' and (x in ('m', '0') and y not in ('2', '0', '7')):
                continue        # no real value, or 0^0.5
            if deep or (x + y + o).__len__() % 2 or o in '-/':
                out.append(x + o + y if len(out) % 2 else "%s %s %s" % (x, o, y))
    # precedence and associativity: every pair of operators, with and without parentheses
    for o, p in itertools.product(OPS, repeat=2):
        out += ["7%s2%s3" % (o, p), "(0.7%spi)%s2" % (o, p), "0.7%s(pi%s2)" % (o, p), "pi %s a %s 3" % (o, p)]
        out += ["1.5%s0.5%s2%s3" % (o, p, o)]
    # signs
    for x in ('2', 'pi', 'a', 'n', '0.25', '(2)', '(pi/2)', 'sin(0.4)', '-2', '--a', '2^2', 'pi^2', '0x10'):
        out += ['-' + x, '3*-' + x, '3--' + x if not x.startswith('-') else '3 - ' + x, '2^-' + x if x not in ('(2)',) and not x.startswith('--') else '-' + x, '- ' + x + ' + 1', '1-' + x if not x.startswith('-') else '1 - ' + x]
    for f in ('sin', 'cos', 'tan', 'exp', 'ln', 'sqrt'):
        out += ['%s(%s)' % (f, x) for x in ('2', '0.5', 'pi', 'a', 'n', '1 + 1', 'u')] + ['2*%s(0.3)^2' % f, '-%s(1)' % f, '%s(%s(0.9) + 1)' % (f, f)]
    # literals
    out += ['0', '00012', '1_000', '0x1F', '0Xab', '0xC_0', '0b101', '0B1_1', '0o17', '1.', '.5', '1.5', '0.25e2', '1e2', '1E-2', '2.5e+1', '1_0.2_5', '12345678901', '0.1', '3.141592653589793', '1e-300', '9007199254740993', 'tau', 'euler', '2*tau', 'euler^2', '0x7fffffffffffffff', '4294967296', '2147483648', '-2147483648', '65536*65536', '3000000000 + 3000000000', '100000*100000']
    return out


def jobs(deep):
    pre = V3 + 'const float a = 0.37; const uint n = 3; const int m = -4; const uint u = 5; qubit q; '
    for ch in chunks(angles(deep), 12):
        yield 'value', 'ok', pre, ['rx(%s) q;' % x for x in ch]
    for t in ('1/0', 'n/0', '-7/0', '(1-1)/(2-2)', '7/(n-3)', '3^60', '(-2)^65', '10^30', '0^-1' if False else '1/(0)', '1e400', '1 +', '+', '* 2', '2 3', 'pi pi', '(2', '2)', 'sin 2', 'sin()', 'sin(1, 2)', 'b + 1', 'q', 'q + 1', 'q[0]', '2 // 3', '"a"', 'true + 1', 'true', 'false', '!2', 'true && false' if False else '1 == 1', 'n < 2', '~2.5', '-true', '0b', '0x', '0b2', '0o8', '1..2', '1.2.3', 'a[0]', '[1]', '{1}', '1 ? 2 : 3', '$0', 'pi()'):
        yield 'invalid', 'any' if t in ('3^60', '10^30', '(-2)^65', '~2.5', '0b', '0x', '2 // 3', '1..2', '1.2.3', 'a[0]', '-true') else 'bad', pre + 'rx(%s) q;' % t, None
    for t in ('7 % 3', '2 << 3', '16 >> 2', '6 & 3', '6 | 1', '2 ** 3', '2 ** 3 ** 2', 'mod(3, 2)', 'arcsin(0.1)', 'log(2)', 'pow(2, 3)', '\u03c0', '\u03c4', '2e', '5ns', '1.5s', '1_', '1im', 'int(3.5)', 'float[64](2)', 'abs(-1)'):
        yield 'invalid', 'any', pre + 'rx(%s) q;' % t, None
    # OpenQASM 2: real-valued
    p2 = V2 + 'qreg q[1]; '
    for ch in chunks(['1/2', '3/4*pi', '-3/4', '7/2/2', '2*3/4', '3*pi/4', '(1+2)/2', '-(1/2)', '5/2^2', '2^3^1', '1/2 + 1/3', '-pi/2', 'pi/-2', '3/(2/4)', 'sqrt(2)/2', '-1/2*pi', '1-2/4', '2-3', '4/2', 'cos(1/2)', 'ln(3/2)', 'exp(-1/2)'], 8):
        yield 'version 2', 'ok', p2, ['rx(%s) q[0];' % x for x in ch]
    yield 'version 2', 'any', p2 + 'rx(pi/(1/0)) q[0];', None
    for t in ('gate g r { rx(1/0) r; } g q;', 'gate g(t) r { rx(true) r; } g(1) q;', 'gate g(t) r { rx(v) r; } g(1) q;', 'gate g(t) r { rx(t + true) r; } g(1) q;', 'gate g r { ctrl(0 - 2) @ x r; } g q;'):
        yield 'invalid', 'bad', pre + t, None
    # constants
    for t in ('const float x = 2; rx(x/4) q;', 'const float x = pi/3; const float y = x*2 - 1; rx(y) q; rz(-x) q;', 'const float[64] x = 0.5; rx(x) q;', 'const uint k = 2 + 3; rx(k*0.1) q;', 'const uint k = 2*3; const float z = k/4; rx(z) q;',
              'const float x = 1.5; gate g(y) r { rx(x*y) r; } g(x) q; g(2) q;', 'const float x = 0.1; const float y = x; const float z = y + x; rx(z - y) q;', 'const int k = -3; rx(k*0.1) q; rz(-k) q;', 'const int[32] k = 2 - 5; rx(k*0.1) q;', 'const uint[8] k = 7; rx(k) q;'):
        yield 'constant', 'may' if '[8]' in t or '[32]' in t or 'const uint k = 2*3; const float z' in t else 'ok', V3 + 'qubit q; ' + t, None
    for t in ('const float x; rx(1) q;', 'const float x = y;', 'const float x = x;', 'const float x = 1; const float x = 2;', 'const float x = 1; x = 2; rx(x) q;', 'const uint k = -1;', 'const uint k = 1.5;', 'const int k = 0.5; rx(k) q;', 'const float pi = 3; rx(pi) q;', 'rx(z) q; const float z = 1;', 'const float x = q;', 'const float x = 1/0;', 'const qubit r = 1;', 'const bit b = 1.5;', 'const float x = measure q;', 'float x = 0.5; rx(x) q;'):
        yield 'constant', 'any' if t.startswith(('const bit', 'const uint k = -1', 'const float x = 1; x', 'const float pi')) else 'bad', V3 + 'qubit q; ' + t, None
    # sizes and indices
    for t in ('qubit[1 + 2] r; x r[2];', 'qubit[2*3 - 4] r; h r; cx r[0], r[1];', 'const uint k = 3; qubit[k] r; x r[1]; bit[k] c; c = measure r;', 'const uint k = 2; qubit[k + 1] r; x r[k]; h r;', 'const uint k = 2; qubit[k*2] r; cx r[k + 1], r[k - 1];', 'qubit[0x3] r; h r[0b10];', 'qubit[7/3] r; h r;', 'qubit[2^2] r; h r[2^1];', 'const uint k = 5; qubit[k/2] r; x r[k/2 - 1];',
              'bit[2 + 1] c; measure q -> c[2];', 'const uint k = 1; bit[3] c; measure q -> c[k];', 'qubit[3] r; const uint i = 2; cx r[i], r[i - 1];', 'qubit[(2)] r; x r[(1)];'):
        yield 'size', 'may', V3 + 'qubit q; ' + t, None
    for t in ('qubit[1 + 2] r; x r[2];', 'const uint k = 3; qubit[k] r; x r[1]; bit[k] c; c = measure r;', 'const uint k = 2; qubit[k + 1] r; x r[k]; h r;', 'qubit[2*3 - 4] r; h r; cx r[0], r[1];', 'qubit[3] r; const uint i = 2; cx r[i], r[i - 1];', 'qubit[2^2] r; h r[2^1];'):
        yield 'size', 'ok', V3 + 'qubit q; ' + t, None
    for t in ('qubit[-1] r;', 'qubit[1.5] r;', 'qubit[2 - 3] r;', 'qubit[true] r;', 'qubit[k] r;', 'qubit[pi] r;', 'qubit[1/0] r;', 'qubit[2] r; x r[2];', 'qubit[2] r; x r[3 - 1];', 'qubit[2] r; x r[0 - 1];', 'qubit[2] r; x r[1.0];', 'qubit[2] r; x r[k];', 'qubit[2] r; x r[1/0];', 'qubit[2] r; x r[true];', 'bit[2] c; measure q -> c[2];', 'bit[2] c; measure q -> c[-1];', 'bit[-2] c;', 'bit[1.5] c;', 'bit[2] c; measure q -> c[0.0];', 'bit[2] c; measure q -> c[false];', 'const int k = -2; qubit[k] r;', 'const float k = 2; qubit[k] r;', 'qubit[] r;', 'qubit[2,2] r;', 'qubit[2 r;'):
        yield 'size', 'bad', V3 + 'qubit q; ' + t, None


def check(ctx):
    ctx.rule("value", "a gate parameter is the value of its expression: literals, precedence, associativity, integers, reals and functions")
    ctx.rule("version 2", "in OpenQASM 2, quotients of integers are real")
    ctx.rule("constant", "constants stand for the value of their expression; invalid declarations are rejected")
    ctx.rule("size", "sizes and indices are the value of their expression, and rejected if that is not a natural number in range")
    ctx.rule("invalid", "expressions without a value are rejected with CompilerError")
    run(ctx, jobs(ctx.tier == 'thorough'))
    for r, k in (("value", 330), ("version 2", 20), ("constant", 20), ("size", 35), ("invalid", 50)):
        ctx.need(r, k)
