"""What an OpenQASM program means: a small reference reader, written from the language's description and independent of the
repository's scanner, parser and importer."""
import cmath, math, re
import sem, prog


class Bad(Exception):
    """the program is not valid"""


TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<str>"[^"\n]*")|(?P<num>0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO][0-7_]+|(?:\d[\d_]*)?\.\d[\d_]*(?:[eE][-+]?\d+)?|\d[\d_]*\.?(?:[eE][-+]?\d+)?)|'
                 r'(?P<id>\$\d+|[A-Za-z_\u03c0\u03c4\u2107][A-Za-z_0-9]*)|(?P<op>->|\*\*|&&|\|\||==|!=|<=|>=|<<|>>|[-+*/%^~!@=<>&|(){}\[\];,])', re.S)

# name: (controls, type, parameters)
STD = {'gphase': (0, 'GPhase'), 'U': (0, 'U'), 'p': (0, 'P'), 'u1': (0, 'P'), 'phase': (0, 'P'), 'cphase': (1, 'P'), 'cp': (1, 'P'), 'id': (0, 'I'), 'u2': (0, 'U2'), 'u3': (0, 'U'), 'u': (0, 'U'),
       'x': (0, 'X'), 'cx': (1, 'X'), 'CX': (1, 'X'), 'ccx': (2, 'X'), 'c3x': (3, 'X'), 'c4x': (4, 'X'), 'rx': (0, 'RX'), 'crx': (1, 'RX'), 'y': (0, 'Y'), 'cy': (1, 'Y'), 'ry': (0, 'RY'), 'cry': (1, 'RY'),
       'z': (0, 'Z'), 'cz': (1, 'Z'), 'rz': (0, 'RZ'), 'crz': (1, 'RZ'), 'h': (0, 'H'), 'ch': (1, 'H'), 's': (0, 'S'), 'sdg': (0, 'Sdg'), 't': (0, 'T'), 'tdg': (0, 'Tdg'), 'sx': (0, 'SX'), 'sxdg': (0, 'SXdg'),
       'c3sqrtx': (3, 'SXdg'),       # as in qelib1.inc
       'swap': (0, 'SWAP'), 'cswap': (1, 'SWAP'), 'iswap': (0, 'iSWAP'), 'iswapdg': (0, 'iSWAPdg'), 'rxx': (0, 'RXX'), 'ryy': (0, 'RYY'), 'rzz': (0, 'RZZ'), 'rzx': (0, 'RZX'), 'dcx': (0, 'DCX'), 'ecr': (0, 'ECR'),
       'xx_minus_yy': (0, 'XXminusYY'), 'xx_plus_yy': (0, 'XXplusYY')}
LIBS = {'stdgates.inc': 'gate cu(theta, phi, lambda, gamma) c, t { p(gamma) c; ctrl @ U(theta, phi, lambda) c, t; }',
        'qelib1.inc': 'gate rccx a,b,c { u2(0,pi) c; u1(pi/4) c; cx b,c; u1(-pi/4) c; cx a,c; u1(pi/4) c; cx b,c; u1(-pi/4) c; u2(0,pi) c; }'
                      'gate rc3x a,b,c,d { u2(0,pi) d; u1(pi/4) d; cx c,d; u1(-pi/4) d; u2(0,pi) d; cx a,d; u1(pi/4) d; cx b,d; u1(-pi/4) d; cx a,d; u1(pi/4) d; cx b,d; u1(-pi/4) d; u2(0,pi) d; u1(pi/4) d; cx c,d; u1(-pi/4) d; u2(0,pi) d; }'}
CONST = {'pi': math.pi, '\u03c0': math.pi, 'tau': 2 * math.pi, '\u03c4': 2 * math.pi, 'euler': math.e, '\u2107': math.e}
PREC = [('||',), ('&&',), ('|',), ('&',), ('==', '!='), ('<', '<=', '>', '>='), ('<<', '>>'), ('+', '-'), ('*', '/', '%')]
FUN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'ln': math.log, 'sqrt': math.sqrt}


def tokens(t):
    out, p = [], 0
    while p < len(t):
        m = TOK.match(t, p)
        if not m:
            raise Bad("character %r" % t[p])
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
        p = m.end()
    return out + [('eof', '')]


KEYWORDS = set('OPENQASM include defcalgrammar def cal defcal gate opaque extern box let break continue if else end return for while in pragma input output const readonly mutable qreg qubit creg bool bit int uint float '
               'angle complex array void duration stretch inv pow ctrl negctrl durationof delay reset measure barrier true false im sin cos tan exp ln sqrt'.split())


class Reader:
    def __init__(self, text):
        self.t, self.p = tokens(text), 0

    def peek(self, k=0):
        return self.t[min(self.p + k, len(self.t) - 1)][1]

    def kind(self):
        return self.t[self.p][0]

    def next(self):
        x = self.t[self.p]
        if x[0] == 'eof':
            raise Bad("unexpected end")
        self.p += 1
        return x[1]

    def at(self, *ws):
        return self.kind() != 'str' and self.peek() in ws

    def take(self, w):
        if self.kind() != 'str' and self.peek() == w:
            self.p += 1
            return True
        return False

    def want(self, w):
        if not self.take(w):
            raise Bad("expected %s, found %s" % (w, self.peek()))

    def name(self):
        if self.kind() != 'id' or self.peek() in KEYWORDS:
            raise Bad("expected a name, found %s" % self.peek())
        return self.next()

    # expressions ------------------------------------------------------
    def expr(self, lvl=0):
        if lvl == len(PREC):
            return self.unary()
        a = self.expr(lvl + 1)
        while self.kind() == 'op' and self.peek() in PREC[lvl]:
            a = ('bin', self.next(), a, self.expr(lvl + 1))
        return a

    def unary(self):
        if self.kind() == 'op' and self.peek() in '-!~':
            o = self.next()
            return ('un', o, self.unary())
        return self.power()

    def power(self):
        a = self.atom()
        if self.take('**') or self.take('^'):       # the importer's dialect: ^ is the power operator, as in OpenQASM 2
            return ('bin', '**', a, self.unary())
        return a

    def atom(self):
        k, w = self.t[self.p]
        if k == 'num':
            self.p += 1
            w = w.replace('_', '')
            if re.fullmatch(r'\d+', w):
                return ('num', int(w))
            if w[:1] == '0' and w[1:2] in tuple('xXbBoO'):
                return ('num', int(w[2:], {'x': 16, 'b': 2, 'o': 8}[w[1].lower()]))
            if float(w) == math.inf:
                raise Bad('literal')
            return ('num', float(w))
        if k == 'id':
            self.p += 1
            if w in FUN and self.take('('):
                a = self.expr()
                self.want(')')
                return ('fun', w, a)
            if w in ('true', 'false'):
                return ('num', w == 'true')
            idx = []
            while self.take('['):
                idx.append(self.expr())
                self.want(']')
            return ('id', w, tuple(idx))
        if self.take('('):
            a = self.expr()
            self.want(')')
            return a
        raise Bad("expected an expression, found %s" % w)

    # statements -------------------------------------------------------
    def ident(self):
        n = self.name()
        idx = []
        while self.take('['):
            idx.append(self.expr())
            self.want(']')
        if len(idx) > 1:
            raise Bad("several indices")
        return n, (idx[0] if idx else None)

    def idents(self):
        out = [self.ident()]
        while self.take(','):
            out.append(self.ident())
        return out

    def block(self):
        if self.take('{'):
            out = []
            while not self.take('}'):
                out.append(self.stmt())
            return out
        return [self.stmt()]

    def stmt(self):
        w = self.peek()
        if w in ('qubit', 'bit', 'int', 'uint', 'float'):
            return self.decl(False)
        if w == 'const':
            self.next()
            return self.decl(True)
        if w in ('qreg', 'creg'):
            self.next()
            n, k = self.ident()
            self.want(';')
            return ('decl', 'qubit' if w == 'qreg' else 'bit', k, n, None, False)
        if w == 'gate':
            self.next()
            n = self.name()
            ps = []
            if self.take('('):
                while not self.take(')'):
                    ps.append(self.name())
                    if not self.at(')'):
                        self.want(',')
            qs = [self.name()]
            while self.take(','):
                qs.append(self.name())
            self.want('{')
            body = []
            while not self.take('}'):
                body.append(self.stmt())
            return ('gate', n, ps, qs, body)
        if w == 'opaque':
            self.next()
            n = self.name()
            while not self.take(';'):
                if self.kind() == 'eof':
                    raise Bad("end")
                self.next()
            return ('opaque', n)
        if w == 'if':
            self.next()
            self.want('(')
            c = self.expr()
            self.want(')')
            a = self.block()
            b = self.block() if self.take('else') else []
            return ('if', c, a, b)
        if w == 'measure':
            self.next()
            q = self.ident()
            if self.take('->'):
                c = self.ident()
                self.want(';')
                return ('measure', q, c)
            self.want(';')
            return ('bad',)
        if w == 'reset':
            self.next()
            q = self.ident()
            self.want(';')
            return ('reset', q)
        if w == 'barrier':
            self.next()
            qs = self.idents() if not self.at(';') else []
            self.want(';')
            return ('barrier', qs)
        if w in ('include', 'OPENQASM'):
            self.next()
            x = self.next()
            self.want(';')
            return (w, x.strip('"'))
        mods = []
        while self.peek() in ('ctrl', 'negctrl', 'inv', 'pow'):
            m = self.next()
            k = None
            if self.take('('):
                k = self.expr()
                self.want(')')
            self.want('@')
            mods.append((m, k))
        n, idx = self.ident()
        if not mods and self.at('='):
            self.next()
            if self.take('measure'):
                q = self.ident()
                self.want(';')
                return ('measure', q, (n, idx))
            self.expr()
            self.want(';')
            return ('bad',)
        if idx is not None:
            raise Bad("indexed gate name")
        ps = []
        if self.take('('):
            while not self.take(')'):
                ps.append(self.expr())
                if not self.at(')'):
                    self.want(',')
        qs = self.idents() if not self.at(';') else []
        self.want(';')
        return ('call', n, mods, ps, qs)

    def decl(self, const):
        ty = self.next()
        k = None
        if self.take('['):
            k = self.expr()
            self.want(']')
        n = self.name()
        init = None
        if self.take('='):
            init = ('measure', self.ident()) if self.take('measure') else ('expr', self.expr())
        self.want(';')
        return ('decl', ty, k, n, init, const)

    def program(self):
        out = []
        while self.kind() != 'eof':
            out.append(self.stmt())
        return out


def number(e, env):
    """value of a constant expression (exact integers, Python floats)"""
    try:
        x = number_(e, env)
    except (ZeroDivisionError, OverflowError, ValueError, TypeError):
        raise Bad("value of an expression")
    if isinstance(x, complex):
        raise Bad("value of an expression")
    return x


def number_(e, env):
    k = e[0]
    if k == 'num':
        return e[1]
    if k == 'id':
        if e[2] or e[1] not in env:
            raise Bad("unknown name " + e[1])
        return env[e[1]]
    if k == 'fun':
        return FUN[e[1]](number(e[2], env))
    if k == 'un':
        x = number(e[2], env)
        if isinstance(x, bool) != (e[1] == '!'):
            raise Bad('operand')
        return {'-': lambda: -x, '!': lambda: not x, '~': lambda: ~x}[e[1]]()
    a, b = number(e[2], env), number(e[3], env)
    if (isinstance(a, bool) or isinstance(b, bool)) and e[1] in ('+', '-', '*', '/', '**', '%', '<', '<=', '>', '>='):
        raise Bad("arithmetic on booleans")
    whole = not isinstance(a, float) and not isinstance(b, float)
    o = e[1]
    if o in ('/', '%') and b == 0:
        raise Bad("division by zero")
    if o == '/':
        if env.get('/'):
            return a / b
        return (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1) if whole else a / b
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '**': lambda: a ** b, '%': lambda: int(math.fmod(a, b)) if whole else math.fmod(a, b), '<<': lambda: a << b, '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
            '==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '&&': lambda: bool(a and b), '||': lambda: bool(a or b)}[o]()


class Program:
    """the meaning of a program: registers and elementary steps"""

    def __init__(self, text, division=False):
        self.q, self.c, self.nq, self.nc, self.steps = {}, {}, 0, 0, []
        self.gates, self.consts, self.decl, self.v2 = {}, dict(CONST), set(), False
        for i, s in enumerate(Reader(text).program()):
            if s[0] == 'OPENQASM' and (i or not re.fullmatch(r'\d+\.\d+', s[1])):
                raise Bad("version")
            self.do(s)

    # operands
    def size(self, k):
        if k is None:
            return 1
        x = number(k, self.consts)
        if isinstance(x, (float, bool)) or x < 0:
            raise Bad("size")
        return x

    def index(self, k, n, env):
        x = number(k, env)
        if isinstance(x, (float, bool)) or not 0 <= x < n:
            raise Bad("index")
        return x

    def qubits(self, o, local=None, env=None):
        n, k = o
        if local is not None:
            if n not in local or k is not None:
                raise Bad("gate operand")
            return [local[n]]
        if n not in self.q:
            raise Bad("unknown register " + n)
        s, z = self.q[n]
        return [s + i for i in range(z)] if k is None else [s + self.index(k, z, self.consts)]

    def bits(self, o):
        n, k = o
        if n not in self.c:
            raise Bad("unknown bits " + n)
        s, z = self.c[n]
        return [s + i for i in range(z)] if k is None else [s + self.index(k, z, self.consts)]

    # gates
    def lookup(self, n, nq):
        """(implicit controls, definition)"""
        if n in self.gates:
            return 0, self.gates[n]
        if n in STD:
            return STD[n][0], STD[n][1]
        if n in ('mcx', 'mcx_gray', 'mcx_vchain', 'mcx_recursive', 'mcphase'):
            k = nq
            if n == 'mcx_vchain':
                k -= (nq + 1) // 2 - 2
            if n == 'mcx_recursive' and nq > 5:
                k -= 1
            if not 2 <= k <= nq:
                raise Bad("operands of " + n)
            return k - 1, ('P' if n == 'mcphase' else 'X', nq - k)
        if self.v2:
            m = n
            while m[:1] == 'c':
                m = m[1:]
                if m in self.gates:
                    return len(n) - len(m), self.gates[m]
                if m in STD:
                    return len(n) - len(m) + STD[m][0], STD[m][1]
        raise Bad("unknown gate " + n)

    def call(self, s, local, env, depth=0):
        """elementary unitaries [(matrix, targets, controls)] of a gate call"""
        _, n, mods, ps, ops = s
        if depth > 20:
            raise Bad("recursive gate")
        qs = [self.qubits(o, local) for o in ops]
        w = {len(q) for q in qs if len(q) != 1}
        if len(w) > 1 or 0 in w:
            raise Bad("widths")
        w = (w or {1}).pop()
        out = []
        if any(m == 'pow' for m, k in mods):
            raise Bad("pow")
        ks = [(m, 1 if k is None else number(k, self.consts)) for m, k in mods if m != 'inv']
        if any(isinstance(k, (float, bool)) or k < 1 for m, k in ks):
            raise Bad("number of controls")
        inv = sum(m == 'inv' for m, k in mods) % 2
        vals = [number(p, env) for p in ps]
        if any(isinstance(v, bool) or v != v or abs(v) > 1e300 or v in (math.inf, -math.inf) or v != v for v in vals):
            raise Bad('value of a parameter')
        for i in range(w):
            a = [q[i] if len(q) > 1 else q[0] for q in qs]
            cs = []
            for m, k in ks:         # the outermost modifier's controls come first
                cs += [(x, m == 'ctrl') for x in a[:k]]
                if len(a) < k:
                    raise Bad("too few operands")
                a = a[k:]
            imp, d = self.lookup(n, len(a))
            if len(a) < imp:
                raise Bad("too few operands")
            cs += [(x, True) for x in a[:imp]]
            a = a[imp:]
            if len(set(a) | {x for x, _ in cs}) != len(a) + len(cs):
                raise Bad("qubit used twice")
            if isinstance(d, tuple) and len(d) == 2:
                if len(a) - d[1] != 1:
                    raise Bad("operands")
                a, d = a[:1], d[0]
            if isinstance(d, str):
                nt, npar, f = sem.REF[d]
                if len(a) != nt or len(vals) != npar:
                    raise Bad("operands or parameters of " + n)
                us = [(f(*[float(v) for v in vals]), a, cs)]
            else:
                _, _, pn, qn, body = d
                if len(pn) != len(vals) or len(qn) != len(a):
                    raise Bad("operands or parameters of " + n)
                e2 = dict(self.consts)
                e2.update(zip(pn, [float(v) for v in vals]))
                us = []
                for b in body:
                    if b[0] == 'barrier':
                        [self.qubits(o, dict(zip(qn, a))) for o in b[1]]
                    elif b[0] == 'call':
                        us += self.call(b, dict(zip(qn, a)), e2, depth + 1)
                    else:
                        raise Bad("statement in a gate")
                us = [(u, t, cs + c) for u, t, c in us]
            if inv:
                us = [(sem.dag(u), t, c) for u, t, c in reversed(us)]
            out += us
        return out

    def check_body(self, g):
        _, n, ps, qs, body = g
        if len(set(ps)) != len(ps) or len(set(qs)) != len(qs) or set(ps) & set(qs):
            raise Bad("names used twice")

    # conditions
    def cond(self, e):
        """a function of the bits"""
        v = self.cval(e)
        return lambda b: bool(v(b))

    def cval(self, e):
        if e[0] == 'id' and e[1] in self.c:
            bs = self.bits((e[1], e[2][0] if e[2] else None))
            return lambda b: sum(b[x] << i for i, x in enumerate(bs))
        if e[0] == 'num':
            return lambda b: e[1]
        if e[0] == 'un' and e[1] in '!~':
            if e[1] == '~' and not (e[2][0] == 'id' and len(self.bits((e[2][1], e[2][2][0] if e[2][2] else None))) == 1):
                raise Bad("condition")
            f = self.cval(e[2])
            return lambda b: int(not f(b))
        if e[0] == 'un' and e[1] == '-':
            f = self.cval(e[2])
            return lambda b: -f(b)
        if e[0] == 'bin':
            f, g, o = self.cval(e[2]), self.cval(e[3]), e[1]
            return lambda b: number(('bin', o, ('num', f(b)), ('num', g(b))), {})
        x = number(e, self.consts)
        return lambda b: x

    def do(self, s, out=None):
        out = self.steps if out is None else out
        k = s[0]
        if k == 'bad':
            raise Bad("classical computation")
        if k == 'OPENQASM':
            self.v2 = s[1].startswith('2')
            self.consts['/'] = self.v2          # OpenQASM 2 expressions are real-valued
        elif k == 'include':
            if s[1] not in LIBS:
                raise Bad("no file " + s[1])
            for x in Reader(LIBS[s[1]]).program():
                self.do(x)
        elif k == 'decl':
            _, ty, n, name, init, const = s
            if name in self.decl or name in self.consts:
                raise Bad("declared twice")
            self.decl.add(name)
            if const:
                if not init or init[0] != 'expr' or ty in ('qubit', 'bit'):
                    raise Bad("constant")
                x = number(init[1], self.consts)
                if ty != 'float' and isinstance(x, float) or isinstance(x, bool):
                    raise Bad("initialiser")
                self.consts[name] = float(x) if ty == 'float' else x
                if ty in ('int', 'uint'):       # the importer also makes these a classical register
                    z = 32 if n is None else self.size(n)
                    self.c[name] = (self.nc, z)
                    self.nc += z
                return
            z = self.size(n)
            if ty == 'qubit':
                self.q[name] = (self.nq, z)
                self.nq += z
                if init:
                    raise Bad("initialised qubit")
            elif ty in ('bit', 'int', 'uint'):
                if n is None and ty != 'bit':
                    z = 32
                self.c[name] = (self.nc, z)
                self.nc += z
                if init and (init[0] != 'measure' or ty != 'bit'):
                    raise Bad("initialiser")
                if init:
                    self.do(('measure', init[1], (name, None)), out)
        elif k == 'gate':
            if s[1] in STD:
                return
            if s[1] in self.gates:
                raise Bad("gate declared twice")
            self.check_body(s)
            self.gates[s[1]] = s
        elif k == 'opaque':
            if s[1] not in STD and s[1] not in self.gates:
                raise Bad("opaque gate")
        elif k == 'call':
            out += [('u',) + u for u in self.call(s, None, self.consts)]
        elif k == 'measure':
            a, b = self.qubits(s[1]), self.bits(s[2])
            if len(a) != len(b):
                raise Bad("widths")
            out += [('m', x, y) for x, y in zip(a, b)]
        elif k == 'reset':
            out += [('r', x) for x in self.qubits(s[1])]
        elif k == 'barrier':
            for o in s[1]:
                self.qubits(o)
        elif k == 'if':
            f = self.cond(s[1])
            a, b = [], []
            for x in s[2]:
                self.do(x, a)
            for x in s[3]:
                self.do(x, b)
            out.append(('if', f, a, b))
        else:
            raise Bad(k)

    def run(self, psi, n=None):
        br = [((0,) * self.nc, list(psi))]
        return self.steps_on(self.steps, br, n or self.nq)

    def steps_on(self, steps, br, n):
        for s in steps:
            if s[0] == 'u':
                br = [(b, prog.apply(v, n, s[1], s[2], s[3])) for b, v in br]
            elif s[0] == 'if':
                new = []
                for b, v in br:
                    new += self.steps_on(s[2] if s[1](b) else s[3], [(b, v)], n)
                br = new
            else:
                new = []
                for b, v in br:
                    for r in (0, 1):
                        w = [x if (i >> s[1] & 1) == r else 0 for i, x in enumerate(v)]
                        if sum(abs(x) ** 2 for x in w) < 1e-14:
                            continue
                        if s[0] == 'r':
                            new.append((b, [w[i ^ (1 << s[1])] for i in range(len(w))] if r else w))
                        else:
                            new.append((b[:s[2]] + (r,) + b[s[2] + 1:], w))
                br = new
        return br
