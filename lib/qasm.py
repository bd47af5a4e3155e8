"""Reader for the OpenQASM text an exporter produces; numbers may be terms.  Written from the language specification
(and, for the shorthand `c...` control prefixes and the extra two-qubit gates, the library's documentation)."""
import re, math, cmath
from absint import *
import sem

# gate -> (base operation type, number of implicit controls, fixed parameters before/None)
NAMES = {'gphase': 'GPhase', 'id': 'I', 'h': 'H', 'x': 'X', 'y': 'Y', 'z': 'Z', 's': 'S', 'sdg': 'Sdg', 't': 'T', 'tdg': 'Tdg', 'U': 'U',
         'u': 'U', 'u3': 'U', 'u2': 'U2', 'u1': 'P', 'p': 'P', 'phase': 'P', 'sx': 'SX', 'sxdg': 'SXdg', 'rx': 'RX', 'ry': 'RY', 'rz': 'RZ', 'swap': 'SWAP',
         'iswap': 'iSWAP', 'iswapdg': 'iSWAPdg', 'dcx': 'DCX', 'ecr': 'ECR', 'rxx': 'RXX', 'ryy': 'RYY', 'rzz': 'RZZ', 'rzx': 'RZX',
         'xx_minus_yy': 'XXminusYY', 'xx_plus_yy': 'XXplusYY', 'move': 'Move'}


class Bad(Exception):
    """the text is not a program"""


TOK = re.compile(r'\s*(?:(//[^\n]*)|([A-Za-z_][A-Za-z_0-9]*)|((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)|("[^"]*")|(->|==|!=|<=|>=|[-+*/()\[\]{},;=<>!@]))')


def tokens(v):
    """tokens of a string value: ('id', s) ('num', term, digits) ('str', s) ('sym', c) ('comment', s)"""
    import strm
    out = []
    ps = strm.pieces(v)
    if ps is None:
        raise AnalysisError("the text is not decided: %s" % show(v)[:200])
    for p in ps:
        if p[0] == 's':
            i, s = 0, p[1]
            while i < len(s):
                m = TOK.match(s, i)
                if not m:
                    if not s[i:].strip():
                        break
                    raise Bad("unreadable text %r" % s[i:i + 30])
                i = m.end()
                for k, g in zip(('comment', 'id', 'num', 'str', 'sym'), m.groups()):
                    if g is not None:
                        if k == 'num':
                            out.append(('num', Fl(float(g)), None if re.fullmatch(r'\d+', g) else len(re.sub(r'[eE].*|\.', '', g).lstrip('0')), g))
                        else:
                            out.append((k, g))
        else:
            d = num(p[3]) if p[3][0] != 's' else None
            mode = p[4][1] if len(p) > 4 else ''
            out.append(('num', p[2], d if mode != 'fixed' else 0, None))
    return out


class Parser:
    def __init__(self, v, qregs=None, cregs=None):
        self.t = tokens(v)
        self.i = 0
        self.comments = [x[1] for x in self.t if x[0] == 'comment']
        self.t = [x for x in self.t if x[0] != 'comment']
        self.qregs = dict(qregs or {})       # name -> (start, size)
        self.cregs = dict(cregs or {})
        self.nq = sum(z for _, z in self.qregs.values())
        self.nc = sum(z for _, z in self.cregs.values())
        self.version = None
        self.includes = []
        self.order = []
        self.digits = 99

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def nxt(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, s, k=0): return self.peek(k)[0] in ('sym', 'id') and self.peek(k)[1] == s

    def eat(self, s):
        if not self.at(s):
            raise Bad("%r expected, found %r" % (s, self.peek()[1]))
        self.i += 1

    def ident(self):
        x = self.nxt()
        if x[0] != 'id':
            raise Bad("identifier expected, found %r" % (x[1],))
        return x[1]

    def integer(self):
        x = self.nxt()
        if x[0] != 'num' or x[3] is None or not re.fullmatch(r'\d+', x[3]):
            raise Bad("integer expected")
        return int(x[3])

    def program(self):
        out = []
        while self.peek()[0] != 'eof':
            out += self.statement()
        return out

    def decl(self, regs, size, name, quantum):
        if name in self.qregs or name in self.cregs:
            raise Bad("register %s is declared twice" % name)
        if quantum:
            self.qregs[name] = (self.nq, size)
            self.nq += size
        else:
            self.cregs[name] = (self.nc, size)
            self.nc += size
        self.order.append(name)

    def statement(self):
        if self.at('OPENQASM'):
            self.nxt()
            self.version = self.nxt()[3]
            self.eat(';')
            return []
        if self.at('include'):
            self.nxt()
            self.includes.append(self.nxt()[1])
            self.eat(';')
            return []
        if self.at('qreg') or self.at('creg'):
            q = self.nxt()[1] == 'qreg'
            n = self.ident()
            self.eat('[')
            z = self.integer()
            self.eat(']')
            self.eat(';')
            self.decl(None, z, n, q)
            return []
        if self.at('qubit') or self.at('bit'):
            q = self.nxt()[1] == 'qubit'
            self.eat('[')
            z = self.integer()
            self.eat(']')
            n = self.ident()
            self.eat(';')
            self.decl(None, z, n, q)
            return []
        if self.at('if'):
            self.nxt()
            self.eat('(')
            c = self.cond()
            self.eat(')')
            if self.at('{'):
                self.nxt()
                body = []
                while not self.at('}'):
                    if self.peek()[0] == 'eof':
                        raise Bad("unterminated block")
                    body += self.statement()
                self.nxt()
            else:
                body = self.statement()
            return [('if', c, body)]
        if self.at('measure'):
            self.nxt()
            q = self.operand(self.qregs)
            self.eat('->')
            c = self.operand(self.cregs)
            self.eat(';')
            return self.meas(q, c)
        if self.at('reset'):
            self.nxt()
            q = self.operand(self.qregs)
            self.eat(';')
            return [('reset', x) for x in q]
        if self.at('barrier'):
            self.nxt()
            qs = []
            while not self.at(';'):
                qs += self.operand(self.qregs)
                if not self.at(';'):
                    self.eat(',')
            self.eat(';')
            return [('barrier', tuple(qs))]
        if self.peek()[0] == 'id' and self.peek()[1] in self.cregs:
            c = self.operand(self.cregs)
            self.eat('=')
            self.eat('measure')
            q = self.operand(self.qregs)
            self.eat(';')
            return self.meas(q, c)
        return self.gate()

    def meas(self, q, c):
        if len(q) != len(c):
            raise Bad("%d qubits are measured into %d bits" % (len(q), len(c)))
        return [('measure', a, b) for a, b in zip(q, c)]

    def operand(self, regs):
        n = self.ident()
        if n not in regs:
            raise Bad("unknown register %s" % n)
        s, z = regs[n]
        if self.at('['):
            self.nxt()
            i = self.integer()
            self.eat(']')
            if i >= z:
                raise Bad("index %d outside %s[%d]" % (i, n, z))
            return [s + i]
        return list(range(s, s + z))

    def cond(self):
        if self.at('!'):
            self.nxt()
            b = self.operand(self.cregs)
            return ('bit', b[0], 0)
        n = self.peek()[1]
        if self.at('[', 1):
            b = self.operand(self.cregs)
            if self.at('=='):
                self.nxt()
                return ('bit', b[0], self.integer())
            return ('bit', b[0], 1)
        if n not in self.cregs:
            raise Bad("unknown register %s in a condition" % n)
        self.nxt()
        op = self.nxt()[1]
        if op not in ('==', '!=', '<', '<=', '>', '>='):
            raise Bad("unknown comparison %s" % op)
        return ('reg', self.cregs[n], op, self.integer())

    def gate(self):
        mods = []
        while self.at('ctrl') or self.at('negctrl') or self.at('inv'):
            m = self.nxt()[1]
            k = 1
            if self.at('('):
                self.nxt()
                k = self.integer()
                self.eat(')')
            self.eat('@')
            mods += [m] * (k if m != 'inv' else 1)
        n = self.ident()
        k = 0
        while n not in NAMES and n.startswith('c') and len(n) > 1:
            n = n[1:]
            k += 1
        if n not in NAMES:
            raise Bad("unknown gate %s" % n)
        ps = []
        if self.at('('):
            self.nxt()
            while not self.at(')'):
                ps.append(self.expr())
                if not self.at(')'):
                    self.eat(',')
            self.nxt()
        qs = []
        while not self.at(';'):
            q = self.operand(self.qregs)
            if len(q) != 1:
                raise Bad("gate %s on a whole register" % n)
            qs += q
            if not self.at(';'):
                self.eat(',')
        self.eat(';')
        cs = [m for m in mods if m != 'inv'] + ['ctrl'] * k
        if len(qs) < len(cs) or len(set(qs)) != len(qs):
            raise Bad("gate %s with %d controls on the qubits %s" % (n, len(cs), qs))
        ty = NAMES[n]
        if ty != 'Move' and (len(qs) - len(cs) != sem.REF[ty][0] or len(ps) != sem.REF[ty][1]):
            raise Bad("gate %s with %d parameters on %d qubits" % (n, len(ps), len(qs) - len(cs)))
        return [('gate', ty, tuple(ps), tuple(qs[len(cs):]), tuple((q, m == 'ctrl') for q, m in zip(qs, cs)), mods.count('inv') % 2 == 1)]

    def expr(self):
        v = self.term()
        while self.at('+') or self.at('-'):
            o = self.nxt()[1]
            v = ap(o, v, self.term())
        return v

    def term(self):
        v = self.factor()
        while self.at('*') or self.at('/'):
            o = self.nxt()[1]
            v = ap(o, v, self.factor())
        return v

    def factor(self):
        x = self.nxt()
        if x[0] == 'sym' and x[1] == '-':
            return ap('-', Fl(0.), self.factor())
        if x[0] == 'id' and x[1] == 'pi':
            return Fl(math.pi)
        if x[0] == 'num':
            if x[2] is not None and x[3] is None:
                self.digits = min(self.digits, x[2])
            return x[1]
        if x[0] == 'sym' and x[1] == '(':
            v = self.expr()
            self.eat(')')
            return v
        raise Bad("expression expected, found %r" % (x[1],))


def matrix(g, env, n):
    _, ty, ps, ts, cs, inv = g
    m = sem.ref(ty, [sem.val(p, env) for p in ps])
    m = sem.dag(m) if inv else m
    return sem.embed(m, list(ts), n, list(cs))
