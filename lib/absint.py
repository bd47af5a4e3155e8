"""Abstract interpreter over the resolved AST (no program is executed and no solver
is used): forward, interprocedural constant/term propagation with trace
partitioning on undecided branches.  Values are constants, structured records /
sequences of values, or uninterpreted terms; loops whose trip count is not a
constant are summarised by havocking what their body writes and analysing one
generic iteration."""
import math, time
from fractions import Fraction
from facts import AnalysisError

TRUE, FALSE = ('b', True), ('b', False)
NULL = ('null',)
_cnt = [0]


def fresh(p="t"):
    _cnt[0] += 1
    return ('sym', '%s#%d' % (p, _cnt[0]))


def I(v): return ('i', int(v))
def Fl(v): return ('f', float(v))
def Sx(v): return ('s', v)
def sym(n): return ('sym', n)
def ap(op, *a): return ('ap', op) + tuple(a)
def is_const(v): return v[0] in ('i', 'b', 'f', 's', 'e', 'null')


def num(v):
    if v[0] in ('i', 'b', 'f'):
        return v[1]
    if v[0] == 'e':
        return v[3]
    return None


def ground(v):
    """constant in all components"""
    if v[0] in ('i', 'b', 'f', 's', 'e', 'null', 'nullopt', 'q'):
        return True
    if v[0] == 'vec':
        return all(ground(x) for x in v[1])
    if v[0] == 'rec':
        return v[2] is None and all(ground(x) for _, x in v[3])
    if v[0] == 'opt':
        return ground(v[1])
    return False


def rec(cls, fields, base=None):
    return ('rec', cls, base, tuple(sorted(fields.items())))


def rget(r, f):
    if r[0] != 'rec':
        raise AnalysisError('field %s of a value that was not resolved: %s' % (f, show(r)[:160]))
    for k, v in r[3]:
        if k == f:
            return v
    if r[2] is not None:
        return ('fld', r[2], f)
    return None


def rset(r, f, v):
    d = dict(r[3])
    d[f] = v
    return ('rec', r[1], r[2], tuple(sorted(d.items())))


class State:
    __slots__ = ('store', 'pc', 'ev')

    def __init__(self, store=None, pc=(), ev=()):
        self.store = store if store is not None else {}
        self.pc = pc
        self.ev = ev

    def copy(self):
        return State(dict(self.store), self.pc, self.ev)

    def event(self, *e):
        self.ev = self.ev + (tuple(e),)


class Frame:
    __slots__ = ('uid', 'this', 'fn', 'parent')

    def __init__(self, fn, this=None, parent=None):
        _cnt[0] += 1
        self.uid = ('E', _cnt[0])      # bindings live in the state: they are per path
        self.this = this
        self.fn = fn
        self.parent = parent


class TooComplex(AnalysisError):
    pass


UNSIGNED = {'unsigned long': 64, 'unsigned int': 32, 'unsigned short': 16, 'unsigned char': 8,
            'unsigned long long': 64}


def strip_t(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for s in ('const ', 'volatile '):
            if t.startswith(s):
                t = t[len(s):]
                ch = True
        for s in (' const', '&', ' &', '&&'):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
    return t


def is_ref_t(t):
    return t.endswith('&')


def base_cls(t):
    """class name of a type string without template arguments"""
    t = strip_t(t).rstrip('*').strip()
    d = 0
    out = []
    for c in t:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


def base_name(n):
    return base_cls(n)


SEQ = {'std::vector', 'std::array', 'std::deque', 'std::initializer_list', 'std::set', 'std::unordered_set',
       'std::list', 'std::tuple', 'std::multiset', 'std::stack', 'std::queue'}
MAPS = {'std::map', 'std::unordered_map', 'std::multimap'}
SMART = {'std::unique_ptr', 'std::shared_ptr'}
SCALARS = {'double', 'float', 'long double', 'bool', 'int', 'long', 'short', 'char', 'signed char', 'long long', 'unsigned char',
           'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long'}
STREAMS = {'std::basic_ostream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::ostream',
           'std::basic_ofstream'}


def term_lt(a, b):
    """a total order on terms that stops at the first difference"""
    if a is b:
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if x is y or x == y:
                continue
            return term_lt(x, y)
        return len(a) < len(b)
    if type(a) is type(b) and not isinstance(a, tuple) and a is not None:
        return a < b
    return type(a).__name__ < type(b).__name__


def disjoint(a, b):
    """two places inside one object that cannot be the same"""
    if a[0] != b[0]:
        return False
    for x, y in zip(a[1], b[1]):
        if x != y:
            return x[0] == y[0] and (x[0] == 'f' or x[0] == 'i' and num(x[1]) is not None and num(y[1]) is not None)
    return False


def address_order(a, b):
    """order of two pointers (null first; elements of one array by position), None if not decided"""
    if a == ('null',) or b == ('null',):
        if a == b:
            return 0
        x = b if a == ('null',) else a
        return None if x[0] not in ('ptr', 'own') else (-1 if a == ('null',) else 1)
    if a[0] == b[0] == 'ptr' and a[1][0] == b[1][0]:
        x, y = a[1][1], b[1][1]
        if x == y:
            return 0
        if len(x) == len(y) and x[:-1] == y[:-1] and x[-1][0] == y[-1][0] == 'i':
            i, j = num(x[-1][1]), num(y[-1][1])
            if i is not None and j is not None:
                return (i > j) - (i < j)
    return None


class Interp:
    def __init__(self, facts, opaque=None, hooks=None, max_paths=3000, max_iter=80, max_depth=14, inline=None, virt=None,
                 fork_hook=None):
        self.F = facts
        self.opaque = opaque or (lambda name, cls: False)
        self.inline = inline
        self.hooks = hooks or {}
        self.max_paths = max_paths
        self.max_iter = max_iter
        self.max_depth = max_depth
        self.depth = 0
        self.stack = []
        self.max_rec = 2
        self.virt = virt
        self.inlined = set()
        self.steps = 0
        self.max_steps = 4000000
        self.max_secs = 30
        self.ref_members = False    # members of reference type refer to the object they were bound to
        self.deadline = float('inf')
        self.gstate = {}
        self.built = {}
        self.gheap = {}      # objects owned by constant globals

    # ------------------------------------------------------------ locations
    def new_root(self, st, v, name='r'):
        _cnt[0] += 1
        r = (name, _cnt[0])
        st.store[r] = v
        return (r, ())

    def load(self, st, loc, deref=True):
        r, path = loc
        if r not in st.store:
            if r not in self.gheap:
                return ('sym', 'uninit:%s' % (r,))
            v = self.gheap[r]
        else:
            v = st.store[r]
        for p in path:
            v = self.proj(v, p, st)
        if v[0] == 'refm' and deref:
            return self.load(st, v[1])
        if v[0] == 'it' and v[3] is not None and v[3] != loc:
            # iterators see the container's current elements
            cur = self.load(st, v[3])
            if cur[0] == 'vec' and cur[1] is not v[1]:
                v = ('it', cur[1], v[2], v[3])
        return v

    def proj(self, v, p, st=None):
        k, x = p
        if k == 'f':
            if v[0] == 'rec':
                r = rget(v, x)
                return r if r is not None else ('fld', ('recv', v[1]), x)
            if v[0] == 'zero':
                return I(0)
            return ('fld', v, x)
        if k == 'o':
            return v[1] if v[0] == 'opt' else ap('*', v)
        if k == 'rev':
            return ('vec', tuple(reversed(v[1]))) if v[0] == 'vec' else ap('reversed', v)
        if k == 'pairs':
            return ('vec', tuple(rec('std::pair', {'first': a, 'second': b}) for a, b in v[1])) if v[0] == 'map' else ap('pairs', v)
        # index
        if v[0] == 'vec' and x[0] in ('i', 'e', 'b'):
            i = num(x)
            if 0 <= i < len(v[1]):
                return v[1][i]
            return ('ap', 'oob', v, x)
        if v[0] == 'map':
            for kk, vv in v[1]:
                if kk == x:
                    return vv
        if v[0] == 's' and x[0] == 'i' and 0 <= num(x) < len(v[1]):
            return I(ord(v[1][num(x)]))
        return ('ap', 'idx', v, x)

    def upd(self, v, path, new):
        if not path:
            return new
        k, x = path[0]
        if k == 'f':
            if v[0] == 'rec':
                old = rget(v, x)
                if old is None:
                    old = ('fld', ('recv', v[1]), x)
                return rset(v, x, self.upd(old, path[1:], new))
            b = ('rec', '?', v, ())
            return rset(b, x, self.upd(('fld', v, x), path[1:], new))
        if k == 'o':
            return ('opt', self.upd(v[1] if v[0] == 'opt' else ap('*', v), path[1:], new))
        if k == 'rev' and v[0] == 'vec':
            n = self.upd(self.proj(v, path[0]), path[1:], new)
            return ('vec', tuple(reversed(n[1]))) if n[0] == 'vec' else ap('reversed', n)
        if k == 'pairs' and v[0] == 'map':
            n = self.upd(self.proj(v, path[0]), path[1:], new)
            if n[0] == 'vec':
                return ('map', tuple((rget(x, 'first'), rget(x, 'second')) for x in n[1]))
            return ap('pairs', n)
        if k in ('rev', 'pairs'):
            return ap(k, self.upd(self.proj(v, path[0]), path[1:], new))
        if v[0] == 'vec' and x[0] in ('i', 'e', 'b') and 0 <= num(x) < len(v[1]):
            l = list(v[1])
            l[num(x)] = self.upd(l[num(x)], path[1:], new)
            return ('vec', tuple(l))
        if v[0] == 'map':
            items = list(v[1])
            for n, (kk, vv) in enumerate(items):
                if kk == x:
                    items[n] = (kk, self.upd(vv, path[1:], new))
                    return ('map', tuple(items))
            items.append((x, self.upd(('ap', 'idx', v, x), path[1:], new)))
            return ('map', tuple(items))
        if v[0] == 's' and x[0] == 'i' and new[0] == 'i' and 0 <= x[1] < len(v[1]):
            return Sx(v[1][:x[1]] + chr(new[1] & 255) + v[1][x[1] + 1:])
        return ('ap', 'store', v, x, self.upd(('ap', 'idx', v, x), path[1:], new))

    def save(self, st, loc, new):
        r, path = loc
        st.store[r] = self.upd(st.store[r] if r in st.store else self.gheap.get(r, ('sym', 'uninit')), path, new)

    # ------------------------------------------------------------ helpers
    def truth(self, v):
        if v[0] in ('i', 'b', 'f', 'e'):
            return bool(num(v))
        if v[0] == 'null':
            return False
        if v[0] in ('ptr', 'lam', 'fnref'):
            return True
        if v[0] == 'opt':
            return True
        if v[0] == 'nullopt':
            return False
        return None

    def known(self, st, c):
        """decide a condition term from the path condition"""
        t = self.truth(c)
        if t is not None:
            return t
        neg = False
        while c[0] == 'ap' and c[1] == '!':
            c = c[2]
            neg = not neg
        for (k, b) in st.pc:
            if k == c:
                return b != neg
        # equality with constants
        if c[0] == 'ap' and c[1] == '==':
            a, b = c[2], c[3]
            for (k, bb) in st.pc:
                if bb and k[0] == 'ap' and k[1] == '==':
                    x, y = k[2], k[3]
                    if x == a and is_const(b) and is_const(y) and not self.ceq(b, y):
                        return neg
                    if x == a and is_const(b) and is_const(y) and self.ceq(b, y):
                        return not neg
        if c[0] == 'ap' and c[1] in ('<', '<=', '>', '>='):
            a, b = c[2], c[3]
            na, nb = num(a), num(b)
            for (k, bb) in st.pc:
                if bb and k[0] == 'ap' and k[1] == '==' and num(k[3]) is not None:
                    if k[2] == a and nb is not None:
                        r = {'<': num(k[3]) < nb, '<=': num(k[3]) <= nb, '>': num(k[3]) > nb, '>=': num(k[3]) >= nb}[c[1]]
                        return r != neg
                    if k[2] == b and na is not None:
                        r = {'<': na < num(k[3]), '<=': na <= num(k[3]), '>': na > num(k[3]), '>=': na >= num(k[3])}[c[1]]
                        return r != neg
        return None

    def ceq(self, a, b):
        na, nb = num(a), num(b)
        if na is not None and nb is not None:
            return na == nb
        return a == b

    def assume(self, st, c, val):
        while c[0] == 'ap' and c[1] == '!':
            c = c[2]
            val = not val
        s = st.copy()
        s.pc = s.pc + ((c, val),)
        return s

    def branch(self, st, c):
        """-> [(state, bool)]"""
        k = self.known(st, c)
        if k is not None:
            return [(st, k)]
        cc = c
        neg = False
        while cc[0] == 'ap' and cc[1] == '!':
            cc = cc[2]
            neg = not neg
        if cc[0] == 'ap' and cc[1] == '&&':
            out = []
            for s1, b1 in self.branch(st, cc[2]):
                if b1:
                    out += [(s2, b2 != neg) for s2, b2 in self.branch(s1, cc[3])]
                else:
                    out.append((s1, False != neg))
            return out
        if cc[0] == 'ap' and cc[1] == '||':
            out = []
            for s1, b1 in self.branch(st, cc[2]):
                if not b1:
                    out += [(s2, b2 != neg) for s2, b2 in self.branch(s1, cc[3])]
                else:
                    out.append((s1, True != neg))
            return out
        return [(self.assume(st, c, True), True), (self.assume(st, c, False), False)]

    # ------------------------------------------------------------ binary ops
    def binop(self, op, a, b, t=''):
        if op in ('==', '!='):
            r = None
            if is_const(a) and is_const(b):
                r = self.ceq(a, b)
            elif a == b and a[0] != 'top':
                r = True
            elif ground(a) and ground(b):
                r = a == b
            elif {a[0], b[0]} == {'ptr', 'null'}:
                r = False
            elif a[0] == 'ptr' and b[0] == 'ptr' and (a[1][0] != b[1][0] and not a[1][1] and not b[1][1] or disjoint(a[1], b[1])):
                r = False
            elif a[0] in ('it', 'itend') and b[0] in ('it', 'itend'):
                r = a == b
            elif a[0] == 'vec' and b[0] == 'vec':
                if len(a[1]) != len(b[1]):
                    r = False
                else:
                    acc = TRUE
                    for x, y in zip(a[1], b[1]):
                        e = self.binop('==', x, y)
                        if e == FALSE:
                            acc = FALSE
                            break
                        acc = e if acc == TRUE else (acc if e == TRUE else ap('&&', acc, e))
                    return acc if op == '==' else self.unop('!', acc)
            elif a[0] == 'map' and b[0] == 'map':
                # keys must be decided; equal maps have pairwise equal values
                if all(ground(k) for k, _ in a[1] + b[1]):
                    da, db = dict(a[1]), dict(b[1])
                    if set(da) != set(db):
                        r = False
                    else:
                        acc = self.binop('==', ('vec', tuple(da[k] for k in da)), ('vec', tuple(db[k] for k in da)))
                        return acc if op == '==' else self.unop('!', acc)
            elif 'nullopt' in (a[0], b[0]) and 'opt' in (a[0], b[0]):
                r = False
            if r is not None:
                return ('b', r == (op == '=='))
            if is_const(a) and not is_const(b) or (not is_const(b) and term_lt(b, a)):
                a, b = b, a
            e = ap('==', a, b)
            return e if op == '==' else ap('!', e)
        na, nb = num(a), num(b)
        if op in ('<', '>=') and nb is not None and nb <= 0 and a[0] == 'ap' and a[1] in ('abs', 'norm'):
            return ('b', op == '>=')
        if na is not None and nb is not None:
            fl = a[0] == 'f' or b[0] == 'f'
            try:
                if op == '+': r = na + nb
                elif op == '-': r = na - nb
                elif op == '*': r = na * nb
                elif op == '/':
                    if nb == 0 and fl:
                        return Fl(math.nan if na == 0 or na != na else math.copysign(math.inf, na) * math.copysign(1., nb))
                    if nb == 0:
                        return ap('div0', a, b)
                    r = na / nb if fl else int(na / nb) if abs(na) < 2**52 else na // nb
                elif op == '%':
                    if nb == 0:
                        return ap('div0', a, b)
                    r = int(math.fmod(na, nb))
                elif op == '<': return ('b', na < nb)
                elif op == '<=': return ('b', na <= nb)
                elif op == '>': return ('b', na > nb)
                elif op == '>=': return ('b', na >= nb)
                elif op == '&': r = na & nb
                elif op == '|': r = na | nb
                elif op == '^': r = na ^ nb
                elif op == '<<': r = na << nb
                elif op == '>>': r = na >> nb
                elif op == '&&': return ('b', bool(na) and bool(nb))
                elif op == '||': return ('b', bool(na) or bool(nb))
                elif op == ',': return b
                else:
                    return ap(op, a, b)
            except (TypeError, ValueError, OverflowError):
                return ap(op, a, b)
            if fl:
                return Fl(r)
            w = UNSIGNED.get(strip_t(t))
            if w:
                r &= (1 << w) - 1
            if isinstance(r, bool) or strip_t(t) == 'bool':
                return ('b', bool(r))
            return I(r)
        if op == '+' and (a[0], b[0]) != ('s', 's') and 'basic_string' in t and 'ap' in (a[0], b[0]):
            import strm
            c = strm.cat(a, b)
            if c is not None:
                return c
        if op == '+' and {a[0], b[0]} == {'s', 'i'} and 'basic_string' in t:
            return ('s', (a[1] if a[0] == 's' else chr(a[1])) + (b[1] if b[0] == 's' else chr(b[1])))
        if op == '+' and a[0] == 's' and b[0] == 's':
            return Sx(a[1] + b[1])
        if op in ('<', '>', '<=', '>=') and a[0] == 's' and b[0] == 's':
            return ('b', {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op])
        if op == '&&':
            if a == FALSE or b == FALSE:
                return FALSE
            if self.truth(a) is True:
                return b
            if self.truth(b) is True:
                return a
        if op == '||':
            if self.truth(a) is True or self.truth(b) is True:
                return TRUE
            if a == FALSE:
                return b
            if b == FALSE:
                return a
        if op == '+' and na == 0: return b
        if op in ('+', '-') and nb == 0: return a
        if op == '*' and nb == 1: return a
        if op == '*' and na == 1: return b
        if a[0] == 'it' and nb is not None and op in ('+', '-'):
            return self.it_adv(a, nb if op == '+' else -nb)
        if a[0] in ('it', 'itend') and b[0] in ('it', 'itend') and op == '-':
            ia, ib = self.it_idx(a), self.it_idx(b)
            if ia is not None and ib is not None:
                return I(ia - ib)
        if a[0] in ('it', 'itend') and b[0] in ('it', 'itend') and op in ('<', '>', '<=', '>='):
            ia, ib = self.it_idx(a), self.it_idx(b)
            if ia is not None and ib is not None:
                return ('b', {'<': ia < ib, '>': ia > ib, '<=': ia <= ib, '>=': ia >= ib}[op])
        if op in ('<', '>', '<=', '>='):
            o = address_order(a, b)
            if o is not None:
                return ('b', {'<': o < 0, '>': o > 0, '<=': o <= 0, '>=': o >= 0}[op])
        if op == '>':
            return ap('<', b, a)
        if op == '>=':
            return ap('<=', b, a)
        return ap(op, a, b)

    def unop(self, op, a, t=''):
        n = num(a)
        if op == '-':
            if n is not None:
                if a[0] == 'f':
                    return Fl(-n)
                w = UNSIGNED.get(strip_t(t))
                return I((-n) & ((1 << w) - 1)) if w else I(-n)
            if a[0] == 'ap' and a[1] == 'neg':
                return a[2]
            return ap('neg', a)
        if op == '+':
            return a
        if op == '!':
            tv = self.truth(a)
            if tv is not None:
                return ('b', not tv)
            if a[0] == 'ap' and a[1] == '!':
                return a[2]
            return ap('!', a)
        if op == '~':
            if n is not None:
                w = UNSIGNED.get(strip_t(t))
                return I((~n) & ((1 << w) - 1)) if w else I(~n)
        return ap(op, a)

    # iterators over known sequences: ('it', (elems tuple), idx, locOrNone)
    def it_adv(self, it, n):
        if it[0] == 'it':
            return ('it', it[1], it[2] + n, it[3])
        return ap('adv', it, I(n))

    def it_idx(self, it):
        return it[2] if it[0] == 'it' else None

    # ------------------------------------------------------------ expressions
    # ev(e, st, fr) -> list of (state, value); value ('throwv', type) marks exceptional exit
    def evs(self, es, st, fr):
        res = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in res:
                if vs and vs[-1][0] == 'throwv':
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + (v,)))
            res = nxt
            if len(res) > self.max_paths:
                raise TooComplex("too many paths in argument evaluation")
        return res

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooComplex("step budget exhausted")
        if e is None:
            return [(st, ('void',))]
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return [(st, ('ap', 'unk:' + k + ':' + e.get('cls', '')))]
        return m(e, st, fr)

    def e_int(self, e, st, fr):
        return [(st, I(e['v']) if 'v' in e else I(int(e['vs'])))]

    def e_char(self, e, st, fr): return [(st, I(e['v']))]
    def e_float(self, e, st, fr): return [(st, Fl(e['v']))]
    def e_str(self, e, st, fr): return [(st, Sx(e.get('v', '')))]
    def e_bool(self, e, st, fr): return [(st, ('b', bool(e.get('v'))))]
    def e_null(self, e, st, fr): return [(st, NULL)]
    def e_zero(self, e, st, fr):
        t = strip_t(e.get('t', ''))
        if t in ('double', 'float'):
            return [(st, Fl(0.0))]
        return [(st, self.zero_val(t))]

    def e_sizeof(self, e, st, fr): return [(st, I(e['v']) if 'v' in e else fresh('sizeof'))]
    def e_this(self, e, st, fr): return [(st, fr.this if fr.this is not None else sym('this'))]
    def e_typeid(self, e, st, fr): return [(st, ap('typeid', sym(e.get('tt', '?'))))]
    def e_defarg(self, e, st, fr): return self.ev(e['e'], st, fr)
    def e_desig(self, e, st, fr): return self.ev(e['e'], st, fr)
    def e_pack(self, e, st, fr): return self.ev(e['e'], st, fr)
    def e_arraycopy(self, e, st, fr): return self.ev(e['e'], st, fr)
    def e_uninst(self, e, st, fr): return [(st, fresh('uninst'))]

    def e_throw(self, e, st, fr):
        s = st.copy()
        return [(s, ('throwv', base_name(e.get('tt', 'rethrow'))))]

    def lookup(self, st, fr, i):
        f = fr
        while f is not None:
            d = st.store.get(f.uid)
            if d is not None and i in d:
                return d[i]
            f = f.parent
        return None

    def bindvar(self, st, fr, i, loc):
        d = dict(st.store.get(fr.uid) or {})
        d[i] = loc
        st.store[fr.uid] = d

    def e_ref(self, e, st, fr):
        dk = e.get('dk')
        if dk == 'enum':
            return [(st, ('e', e.get('en', ''), e['n'], e['v']))]
        if dk == 'func':
            return [(st, ('fnref', e['u'], e['qn']))]
        if dk == 'global':
            return [(st, self.global_val(e, st))]
        if 'id' in e:
            loc = self.lookup(st, fr, e['id'])
            if loc is not None:
                return [(st, self.load(st, loc))]
            if 'v' in e:
                return [(st, I(e['v']))]
            return [(st, sym('var:' + e['n']))]
        return [(st, sym(e.get('qn', e['n'])))]

    def global_val(self, e, st):
        g = self.F.globals.get(e['u'])
        key = ('G', e['u'])
        if key in st.store:
            return st.store[key]
        if g is not None and 'init' in g and (g.get('const') or g.get('constexpr') or strip_t(g['t']) != g['t'] or 'const' in g['t']):
            if key not in self.gstate:
                self.gstate[key] = sym('rec:' + e['n'])
                r = self.ev(g['init'], State(), Frame(None))
                self.gstate[key] = r[0][1] if len(r) == 1 else sym('G:' + e.get('qn', e['n']))
                if len(r) == 1:
                    self.gheap.update((k, v) for k, v in r[0][0].store.items() if k[0] == 'heap')
            return self.gstate[key]
        if 'v' in e:
            return I(e['v'])
        return sym('G:' + e.get('qn', e['n']))

    def e_member(self, e, st, fr):
        if e.get('mk') == 'static':
            return [(st, self.global_val({'u': e['u'], 'n': e['n'], 'qn': e.get('cls', '') + '::' + e['n']}, st))]
        out = []
        for s, b in self.ev(e['b'], st, fr):
            if b[0] == 'throwv':
                out.append((s, b))
                continue
            if b[0] == 'ptr':
                b = self.load(s, b[1])
            elif e.get('arrow') and b[0] not in ('rec', 'it'):
                b = ap('*', b) if b[0] != 'sym' or b[1] != 'this' else b
            if b[0] == 'it':
                b = self.deref_it(b)
            r = self.proj(b, ('f', e['n']))
            out.append((s, self.load(s, r[1]) if r[0] == 'refm' else r))
        return out

    def deref_it(self, it):
        if it[0] == 'it' and 0 <= it[2] < len(it[1]):
            return it[1][it[2]]
        return ap('*', it)

    def e_icast(self, e, st, fr):
        return [(s, self.conv(v, e['t'], e['ck'])) for s, v in self.ev(e['e'], st, fr)]

    def conv(self, v, t, ck):
        t = strip_t(t)
        if v[0] == 'throwv':
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            tv = self.truth(v)
            return ('b', tv) if tv is not None else (v if ck != 'IntegralToBoolean' else ap('!', ap('==', v, I(0))))
        n = num(v)
        if ck == 'IntegralToFloating' or ck == 'FloatingCast':
            return Fl(n) if n is not None else v
        if ck == 'FloatingToIntegral':
            w = {'int': (-2 ** 31, 2 ** 31), 'long': (-2 ** 63, 2 ** 63), 'long long': (-2 ** 63, 2 ** 63)}.get(t) or ((0, 1 << UNSIGNED[t]) if t in UNSIGNED else None)
            if w and n is not None and not (n == n and w[0] <= int(n) < w[1]):
                return ('throwv', 'undefined conversion of %r to %s' % (n, t))
            return I(int(n)) if n is not None and n == n and abs(n) < 1e300 else ap('f2i', v)
        if ck == 'IntegralCast':
            if v[0] in ('i', 'b') or (v[0] == 'e' and not t.startswith(v[1])):
                w = UNSIGNED.get(t)
                if w:
                    return I(n & ((1 << w) - 1))
                if t == 'bool':
                    return ('b', bool(n))
                if t in ('int', 'long', 'short', 'signed char', 'char', 'long long', '__int128'):
                    w = {'int': 32, 'long': 64, 'short': 16, 'signed char': 8, 'char': 8, 'long long': 64, '__int128': 128}[t]
                    n &= (1 << w) - 1
                    if n >= 1 << (w - 1):
                        n -= 1 << w
                    return I(n)
                if t in self.F.enums:
                    return self.to_enum(t, n)
            return v
        return v

    def to_enum(self, en, n):
        for c in self.F.enums[en]['c']:
            if c['v'] == n:
                return ('e', en, c['n'], n)
        return ('e', en, '?', n)

    def e_cast(self, e, st, fr):
        out = []
        tt = strip_t(e.get('t', ''))
        for s, v in self.ev(e['e'], st, fr):
            ck = e.get('ck')
            if v[0] == 'throwv':
                out.append((s, v))
            elif e.get('style') == 'dynamic':
                out += self.dyncast(e, v, s)
            elif tt in self.F.enums and num(v) is not None:
                out.append((s, self.to_enum(tt, num(v))))
            elif tt == 'bool' and ck not in ('NoOp',):
                out.append((s, self.conv(v, tt, 'IntegralToBoolean')))
            else:
                out.append((s, self.conv(v, tt, ck)))
        return out

    def dyncast(self, e, v, s):
        tt = strip_t(e['t'])
        tc = base_cls(tt)
        if v[0] == 'ptr':
            r = self.load(s, v[1])
            if r[0] == 'rec' and r[1] in self.F.cls_by_name:
                ok = self.derives(r[1], tc)
                if ok:
                    return [(s, v)]
                return [(s, NULL)]
        if v[0] == 'null':
            return [(s, NULL)]
        if tt.endswith('*'):
            c = ap('isa', v, sym(tc))
            out = []
            for s2, b in self.branch(s, c):
                out.append((s2, v if b else NULL))
            return out
        return [(s, v)]

    def derives(self, c, b):
        if c == b:
            return True
        for k in self.F.cls_by_name.get(c, []):
            for x in k['bases']:
                if self.derives(x.get('n', ''), b):
                    return True
        return False

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '*':
            out = []
            for s, v in self.ev(e['e'], st, fr):
                if v[0] == 'ptr':
                    out.append((s, self.load(s, v[1])))
                elif v[0] == 'it':
                    out.append((s, self.deref_it(v)))
                elif v[0] == 'throwv':
                    out.append((s, v))
                elif v == sym('this'):
                    out.append((s, v))
                else:
                    out.append((s, ap('*', v)))
            return out
        if op == '&':
            out = []
            for s, l in self.lv(e['e'], st, fr):
                if isinstance(l, tuple) and l and l[0] == 'val':
                    v = l[1]
                    if v[0] == 'ap' and v[1] == '*':
                        out.append((s, v[2]))
                    else:
                        out.append((s, ap('&', v)))
                else:
                    out.append((s, ('ptr', l)))
            return out
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(e['e'], st, fr):
                s = s.copy()
                if l[0] == 'val':
                    out.append((s, ap(op, l[1])))
                    continue
                old = self.load(s, l)
                new = self.binop('+' if op == '++' else '-', old, I(1), e.get('t', ''))
                self.save(s, l, new)
                out.append((s, old if e.get('post') else new))
            return out
        return [(s, v if v[0] == 'throwv' else self.unop(op, v, e.get('t', ''))) for s, v in self.ev(e['e'], st, fr)]

    def e_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, a in self.ev(e['L'], st, fr):
                if a[0] == 'throwv':
                    out.append((s, a))
                    continue
                t = self.known(s, a)
                if t is None:
                    if self.pure(e['R']):
                        # keep as a term if evaluating the right side is effect free
                        br = self.branch(s, a)
                    else:
                        br = self.branch(s, a)
                    for s2, b in br:
                        if (op == '&&') == b:
                            out += self.ev(e['R'], s2, fr)
                        else:
                            out.append((s2, ('b', b)))
                elif t == (op == '&&'):
                    out += self.ev(e['R'], s, fr)
                else:
                    out.append((s, ('b', t)))
            return out
        out = []
        for s, vs in self.evs([e['L'], e['R']], st, fr):
            if vs[-1][0] == 'throwv':
                out.append((s, vs[-1]))
            else:
                out.append((s, self.binop(op, vs[0], vs[1], e.get('t', ''))))
        return out

    def pure(self, e):
        """a place that can be named twice without repeating an effect"""
        k = e['k']
        if k in ('ref', 'this', 'int', 'str'):
            return True
        if k == 'member':
            return self.pure(e['b'])
        if k in ('icast', 'cast'):
            return self.pure(e['e'])
        if k == 'sub':
            return self.pure(e['b']) and self.pure(e['i'])
        if k == 'un':
            return e['op'] in ('*', '&') and self.pure(e['e'])
        if k == 'call' and e.get('op') in ('[]', '*', '->'):
            return all(self.pure(x) for x in e['a'])
        return False

    def e_cond(self, e, st, fr):
        out = []
        for s, c in self.ev(e['c'], st, fr):
            if c[0] == 'throwv':
                out.append((s, c))
                continue
            for s2, b in self.branch(s, c):
                out += self.ev(e['T'] if b else e['F'], s2, fr)
        return out

    def e_assign(self, e, st, fr):
        out = []
        for s, v in self.ev(e['R'], st, fr):
            if v[0] == 'throwv':
                out.append((s, v))
                continue
            for s2, l in self.lv(e['L'], s, fr):
                s3 = s2.copy()
                if e['op'] != '=':
                    old = l[1] if l[0] == 'val' else self.load(s3, l)
                    nv = self.binop(e['op'][:-1], old, v, e.get('t', ''))
                else:
                    nv = v
                if l[0] == 'val':
                    s3.event('store', l[1], nv)
                else:
                    self.save(s3, l, nv)
                out.append((s3, nv))
        return out

    def e_sub(self, e, st, fr):
        out = []
        for s, vs in self.evs([e['b'], e['i']], st, fr):
            if vs[-1][0] == 'throwv':
                out.append((s, vs[-1]))
                continue
            b = vs[0]
            if b[0] == 'ptr':
                b = self.load(s, b[1])
            out.append((s, self.proj(b, ('i', vs[1]))))
        return out

    def e_init(self, e, st, fr):
        t = strip_t(e.get('t', ''))
        out = []
        for s, vs in self.evs(e['a'], st, fr):
            if vs and vs[-1][0] == 'throwv':
                out.append((s, vs[-1]))
                continue
            out.append((s, self.make_aggr(t, vs, s, fr, e)))
        return out

    def make_aggr(self, t, vs, s, fr, e=None):
        bc = base_cls(t)
        if bc == 'std::array' and len(vs) == 1 and vs[0][0] in ('vec',):
            return vs[0]
        cl = self.F.cls_by_name.get(t) or self.F.cls_by_name.get(bc)
        if cl and not t.endswith(']'):
            f = [x['n'] for x in cl[0]['fields'] if not x.get('static')]
            d = dict(zip(f, vs))
            return rec(cl[0]['n'], d)
        if t.endswith(']') or bc in SEQ or bc == 'std::array' or True:
            if t in SCALARS or t in self.F.enums:
                return vs[0] if vs else self.zero_val(t)
            if t.endswith('*'):
                return vs[0] if vs else NULL
            m = None
            if e is not None and e.get('filler'):
                import re
                m = re.search(r'\[(\d+)\]$', t)
            if m and len(vs) < int(m.group(1)) <= 4096:
                fill = self.zero_val(t[:m.start()])
                vs = tuple(vs) + (fill,) * (int(m.group(1)) - len(vs))
            return ('vec', tuple(vs))

    def e_lambda(self, e, st, fr):
        return [(st, ('lam', LamBox(e, fr)))]

    def e_new(self, e, st, fr):
        out = []
        s0 = st
        for s, v in (self.ev(e['init'], s0, fr) if e.get('init') else [(s0, sym('new'))]):
            s = s.copy()
            if v[0] == 'throwv':
                out.append((s, v))
                continue
            loc = self.new_root(s, v, 'heap')
            out.append((s, ('ptr', loc)))
        return out

    def e_delete(self, e, st, fr):
        return [(s, ('void',)) for s, v in self.ev(e['e'], st, fr)]

    def e_other(self, e, st, fr):
        if e.get('ch') and len(e['ch']) == 1:
            return self.ev(e['ch'][0], st, fr)
        return [(st, ap('other:' + e.get('cls', '')))]

    # ------------------------------------------------------------ lvalues
    def lv(self, e, st, fr):
        """-> [(state, loc)] or (state, ('val', term)) when not addressable"""
        k = e['k']
        if k == 'ref':
            if e.get('dk') == 'global':
                key = ('G', e['u'])
                s = st
                if key not in s.store:
                    s = st.copy()
                    s.store[key] = self.global_val(e, st)
                return [(s, (key, ()))]
            if 'id' in e:
                loc = self.lookup(st, fr, e['id'])
                if loc is not None:
                    return [(st, loc)]
            return [(s, ('val', v)) for s, v in self.ev(e, st, fr)]
        if k == 'member' and e.get('mk') != 'static':
            out = []
            if e.get('arrow'):
                for s, v in self.ev(e['b'], st, fr):
                    if v[0] == 'ptr':
                        out.append((s, (v[1][0], v[1][1] + (('f', e['n']),))))
                    elif v[0] == 'it' and v[3] is not None and 0 <= v[2] < len(v[1]):
                        out.append((s, (v[3][0], v[3][1] + (('i', I(v[2])), ('f', e['n'])))))
                    else:
                        out.append((s, ('val', self.proj(self.deref_it(v) if v[0] == 'it' else (v if v == sym('this') else ap('*', v)), ('f', e['n'])))))
                return [(s, self.canon(s, l)) for s, l in out] if self.ref_members else out
            for s, l in self.lv(e['b'], st, fr):
                if l[0] == 'val':
                    v = l[1]
                    if v[0] == 'ptr':
                        out.append((s, (v[1][0], v[1][1] + (('f', e['n']),))))
                    else:
                        out.append((s, ('val', self.proj(v, ('f', e['n'])))))
                else:
                    # reference-like smart pointers are handled in calls
                    out.append((s, (l[0], l[1] + (('f', e['n']),))))
            return [(s, self.canon(s, l)) for s, l in out] if self.ref_members else out
        if k == 'sub':
            out = []
            for s, i in self.ev(e['i'], st, fr):
                for s2, l in self.lv(e['b'], s, fr):
                    if l[0] == 'val':
                        v = l[1]
                        if v[0] == 'ptr':
                            out.append((s2, (v[1][0], v[1][1] + (('i', i),))))
                        else:
                            out.append((s2, ('val', self.proj(v, ('i', i)))))
                    else:
                        cur = self.load(s2, l)
                        if cur[0] == 'ptr':
                            out.append((s2, (cur[1][0], cur[1][1] + (('i', i),))))
                        else:
                            out.append((s2, (l[0], l[1] + (('i', i),))))
            return out
        if k == 'un' and e['op'] == '*':
            out = []
            for s, v in self.ev(e['e'], st, fr):
                if v[0] == 'ptr':
                    out.append((s, v[1]))
                elif v[0] == 'it' and v[3] is not None:
                    out.append((s, (v[3][0], v[3][1] + (('i', I(v[2])),))))
                elif v[0] == 'it':
                    out.append((s, ('val', self.deref_it(v))))
                else:
                    out.append((s, ('val', v if v == sym('this') else ap('*', v))))
            return out
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            out = []
            for s, v in self.ev(e, st, fr):
                out += self.lv(e['e'], s, fr)
            return out
        if k == 'assign':
            out = []
            for s, v in self.ev(e, st, fr):
                out += self.lv(e['L'], s, fr)
            return out
        if k in ('icast', 'cast'):
            if e.get('ck') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'BitCast', 'Dynamic'):
                return self.lv(e['e'], st, fr)
        if k == 'cond':
            out = []
            for s, c in self.ev(e['c'], st, fr):
                for s2, b in self.branch(s, c):
                    out += self.lv(e['T'] if b else e['F'], s2, fr)
            return out
        if k == 'call':
            return self.call(e, st, fr, want_lv=True)
        if k == 'this' and fr.this is not None and fr.this[0] == 'ptr':
            return [(st, ('val', fr.this))]
        return [(s, ('val', v)) for s, v in self.ev(e, st, fr)]

    # ------------------------------------------------------------ calls
    def e_call(self, e, st, fr):
        return self.call(e, st, fr, want_lv=False)

    def ret(self, s, v, want_lv):
        if want_lv:
            return (s, v if (isinstance(v, tuple) and v and v[0] == 'LOC') else ('val', v))
        return (s, v)

    def objloc(self, e, st, fr):
        """location (or ('val',term)) of the object argument of a member call"""
        o = e['obj'] if 'obj' in e else e['a'][0]
        if e.get('arrow') or o.get('t', '').rstrip().endswith('*'):
            out = []
            for s, v in self.ev(o, st, fr):
                if v[0] == 'ptr':
                    out.append((s, v[1]))
                elif v[0] == 'it' and v[3] is not None:
                    out.append((s, (v[3][0], v[3][1] + (('i', I(v[2])),))))
                elif v[0] == 'it':
                    out.append((s, ('val', self.deref_it(v))))
                else:
                    out.append((s, ('val', v if v == sym('this') or v[0] in ('rec', 'vec', 'map') else ap('*', v))))
            return out
        out = []
        for s, l in self.lv(o, st, fr):
            if l[0] == 'val' and l[1][0] == 'ptr':
                out.append((s, l[1][1]))
            else:
                out.append((s, l))
        return out

    def call(self, e, st, fr, want_lv):
        name = e.get('n')
        bn = base_name(name) if name else None
        # lambda / function object call
        out = []
        if name is None and 'f' in e:
            for s, f in self.ev(e['f'], st, fr):
                if f[0] == 'fnref' and f[1] in self.F.functions:
                    out += self.inline_call(self.F.functions[f[1]], e['a'], s, fr, None, want_lv)
                    continue
                for s2, vs in self.evs(e['a'], s, fr):
                    s2 = s2.copy()
                    s2.event('call', 'indirect', (f,) + vs, e.get('l'))
                    out.append(self.ret(s2, ap('call:indirect', f, *vs), want_lv))
            return out
        if e.get('op') == '()' and e['a']:
            res = []
            ok = True
            for s, f in self.ev(e['a'][0], st, fr):
                if f[0] == 'lam':
                    res += self.call_lambda(f, e['a'][1:], s, fr, want_lv, e.get('u'))
                elif f[0] == 'fnref' and f[1] in self.F.functions:
                    res += self.inline_call(self.F.functions[f[1]], e['a'][1:], s, fr, None, want_lv)
                else:
                    ok = False
                    break
            if ok and res:
                return res
        hk = self.hooks.get(bn) or self.hooks.get(name)
        if hk is not None:
            r = hk(self, e, st, fr, want_lv)
            if r is not None:
                return r
        if 'obj' in e and name and name.endswith('::operator=') and len(e['a']) == 1 and 'body' not in self.F.functions.get(e.get('u'), {}) \
                and (base_cls(e.get('cls', '')) in self.F.cls_by_name or base_cls(e.get('cls', '')) in SEQ | MAPS | {'std::basic_string', 'std::optional'}):
            return self.base_assign(e, st, fr, want_lv)
        m = self.model(e, bn, st, fr, want_lv)
        if m is not None:
            return m
        # user function?
        u = e.get('u')
        f = self.F.functions.get(u)
        cls = base_cls(e.get('cls', '')) if e.get('cls') else None
        if f is not None and e.get('virt') and not e.get('qual'):
            res = []
            for s, l in self.objloc(e, st, fr):
                v = l[1] if l[0] == 'val' else self.load(s, l)
                tgt = None
                if v[0] == 'rec':
                    tgt = self.resolve_virtual(f, v[1])
                elif self.virt is not None:
                    tgt = self.virt(f, v, e)
                if tgt is None or self.opaque(tgt['n'], tgt.get('cls')) or 'body' not in tgt:
                    res += self.opaque_call(e, bn, s, fr, want_lv)
                else:
                    res += self.do_user_call(tgt, e, s, fr, want_lv)
            return res
        if f is None and e.get('virt'):
            # pure virtual declared method: resolve on a known class
            res = []
            for s, l in self.objloc(e, st, fr):
                v = l[1] if l[0] == 'val' else self.load(s, l)
                tgt = self.resolve_virtual_usr(u, v[1]) if v[0] == 'rec' else None
                if tgt is None or self.opaque(tgt['n'], tgt.get('cls')):
                    res += self.opaque_call(e, bn, s, fr, want_lv)
                else:
                    res += self.do_user_call(tgt, e, s, fr, want_lv)
            return res
        if f is None or 'body' not in f or self.opaque(f['n'], f.get('cls')) or self.depth >= self.max_depth \
                or self.stack.count(u) >= self.max_rec or (self.inline and not self.inline(f)):
            if f is not None and f.get('defaulted') and e.get('op') == '==' :
                pass
            return self.opaque_call(e, bn, st, fr, want_lv)
        return self.do_user_call(f, e, st, fr, want_lv)

    def base_assign(self, e, st, fr, want_lv):
        """defaulted assignment of (the base part of) an object"""
        cls = base_cls(e['cls'])
        names = self.all_fields(cls)
        out = []
        for s, l in self.objloc(e, st, fr):
            for s2, v in self.ev(e['a'][0], s, fr):
                if v[0] == 'throwv' or l[0] == 'val':
                    out.append(self.ret(s2, v, want_lv))
                    continue
                s2 = s2.copy()
                if v[0] == 'ptr':
                    v = self.load(s2, v[1])
                if cls.startswith('std::'):
                    self.save(s2, l, v)
                for n in names:
                    x = self.proj(v, ('f', n))
                    self.save(s2, (l[0], l[1] + (('f', n),)), x)
                out.append((s2, l if want_lv else self.load(s2, l)))
        return out

    def resolve_virtual(self, f, cls):
        return self.resolve_virtual_usr(f['u'], cls) or (f if self.derives(cls, f.get('cls', '')) else None)

    def resolve_virtual_usr(self, u, cls):
        # walk up from cls looking for a method overriding u (transitively) or u itself
        todo, seen = [cls], set()
        while todo:
            c = todo.pop(0)
            if not c or c in seen:
                continue
            seen.add(c)
            ks = self.F.cls_by_name.get(c) or self.F.cls_by_name.get(base_cls(c), [])
            for k in ks:
                for m in k['methods']:
                    if m['u'] == u or self.overrides(m, u):
                        return self.F.functions.get(m['u'])
            todo += [b.get('n') for b in ks[0]['bases']] if ks else []
        return None

    def overrides(self, m, u):
        for o in m.get('ov', []):
            if o == u:
                return True
            f = self.F.functions.get(o)
            if f and self.overrides(f, u):
                return True
            for ks in self.F.classes.values():
                pass
        return False

    def do_user_call(self, f, e, st, fr, want_lv):
        if e.get('op') and f.get('cls') and 'obj' not in e and not f.get('static'):
            # operator call of a member operator: first argument is the object
            args = e['a'][1:]
            obj = e['a'][0]
        else:
            args = e['a']
            obj = e.get('obj')
        if obj is None or f.get('static') or not f.get('cls'):
            return self.inline_call(f, e['a'] if obj is None else args, st, fr, None, want_lv)
        out = []
        for s, l in self.objloc({'obj': obj, 'arrow': e.get('arrow')}, st, fr):
            s = s.copy()
            if l[0] == 'val':
                v = l[1]
                if v[0] == 'throwv':
                    out.append(self.ret(s, v, want_lv))
                    continue
                loc = self.new_root(s, v, 'tmp')
            else:
                loc = l
            out += self.inline_call(f, args, s, fr, ('ptr', loc), want_lv)
        return out

    def bind(self, ps, args, st, fr, nf):
        """evaluate args in fr and bind into frame nf -> [(state, throwv|None)]"""
        res = [(st, [], None)]
        for i, a in enumerate(args):
            nxt = []
            p = ps[i] if i < len(ps) else None
            for s, ls, th in res:
                if th:
                    nxt.append((s, ls, th))
                    continue
                if p is not None and is_ref_t(p['t']):
                    for s2, l in self.lv(a, s, fr):
                        if l[0] == 'val':
                            if l[1][0] == 'throwv':
                                nxt.append((s2, ls, l[1]))
                                continue
                            s2 = s2.copy()
                            l = self.new_root(s2, l[1], 'arg')
                        nxt.append((s2, ls + [l], None))
                else:
                    for s2, v in self.ev(a, s, fr):
                        if v[0] == 'throwv':
                            nxt.append((s2, ls, v))
                            continue
                        s2 = s2.copy()
                        nxt.append((s2, ls + [self.new_root(s2, v, 'arg')], None))
            res = nxt
        out = []
        for s, ls, th in res:
            out.append((s, ls, th))
        return out

    def inline_call(self, f, args, st, fr, this, want_lv):
        out = []
        if self.depth >= self.max_depth or self.stack.count(f["u"]) > self.max_rec:
            raise TooComplex("recursion too deep in " + f['n'])
        self.inlined.add(f['n'])
        for s, ls, th in self.bind(f['ps'], args, st, fr, None):
            if th:
                out.append(self.ret(s, th, want_lv))
                continue
            nf = Frame(f, this)
            s = s.copy()
            for p, l in zip(f['ps'], ls):
                self.bindvar(s, nf, p['id'], l)
            for p in f['ps'][len(ls):]:
                self.bindvar(s, nf, p['id'], self.new_root(s, fresh(p['n']), 'arg'))
            self.depth += 1
            self.stack.append(f['u'])
            try:
                rs = self.run_body(f, s, nf, want_lv and is_ref_t(f['rt']), is_ref_t(f['rt']))
            finally:
                self.depth -= 1
                self.stack.pop()
            for s2, oc in rs:
                if oc[0] == 'return':
                    v = oc[1]
                    if want_lv:
                        out.append((s2, v if oc[2] else ('val', v)))
                    else:
                        out.append((s2, v))
                elif oc[0] == 'throw':
                    out.append(self.ret(s2, ('throwv', oc[1]), want_lv))
                else:
                    out.append(self.ret(s2, ('void',), want_lv))
        if len(out) > self.max_paths:
            raise TooComplex("too many paths in " + f['n'])
        return out

    def run_body(self, f, st, nf, ret_lv=False, ref=False):
        self.cur_retlv = getattr(self, 'cur_retlv', False)
        old = self.cur_retlv
        self.cur_retlv = ret_lv
        try:
            return self.ex(f['body'], st, nf)
        finally:
            self.cur_retlv = old

    def bind_caps(self, node, s, nf, cfr):
        for c in node.get('caps', []):
            if 'init' in c and 'id' in c:
                if c.get('ref'):
                    s, l = self.lv(c['init'], s, cfr)[0]
                    if l[0] != 'val':
                        s = s.copy()
                        self.bindvar(s, nf, c['id'], l)
                        continue
                s, v = self.ev(c['init'], s, cfr)[0]
                s = s.copy()
                self.bindvar(s, nf, c['id'], self.new_root(s, v, 'cap'))
        return s

    def call_lambda(self, lam, args, st, fr, want_lv, u=None):
        node, cfr = lam[1].node, lam[1].frame
        ps, body = node['ps'], node['body']
        for i in node.get('insts', []):
            if i['u'] == u or len(node['insts']) == 1:
                ps, body = i['ps'], i['body']
        out = []
        if self.depth >= self.max_depth:
            raise TooComplex("lambda depth")
        for s, ls, th in self.bind(ps, args, st, fr, None):
            if th:
                out.append(self.ret(s, th, want_lv))
                continue
            nf = Frame(None, cfr.this, cfr)
            s = self.bind_caps(node, s, nf, cfr)
            s = s.copy()
            for p, l in zip(ps, ls):
                self.bindvar(s, nf, p['id'], l)
            self.depth += 1
            try:
                rs = self.run_body({'body': body}, s, nf, False)
            finally:
                self.depth -= 1
            for s2, oc in rs:
                if oc[0] == 'return':
                    out.append((s2, ('val', oc[1]) if want_lv and not oc[2] else oc[1]))
                elif oc[0] == 'throw':
                    out.append(self.ret(s2, ('throwv', oc[1]), want_lv))
                else:
                    out.append(self.ret(s2, ('void',), want_lv))
        return out

    def opaque_call(self, e, bn, st, fr, want_lv):
        out = []
        objs = [(st, None)]
        if e.get('obj') is not None:
            objs = [(s, (l[1] if l[0] == 'val' else self.load(s, l), l)) for s, l in self.objloc(e, st, fr)]
        for s, ob in objs:
            for s2, vs in self.evs(e['a'], s, fr):
                if vs and vs[-1][0] == 'throwv':
                    out.append(self.ret(s2, vs[-1], want_lv))
                    continue
                s2 = s2.copy()
                allv = ((ob[0],) if ob else ()) + vs
                n = bn or e.get('op') or '?'
                r = ap('call:' + n, *allv)
                f = self.F.functions.get(e.get('u'))
                s2.event('call', n, allv, e.get('l'))
                # havoc what may be written through references / the object
                if ob and ob[1][0] != 'val' and not e.get('cm') and not (e.get('sm')):
                    self.save(s2, ob[1], ap('after:' + n, *allv))
                if f is not None:
                    for p, a in zip(f['ps'], e['a']):
                        if is_ref_t(p['t']) and not p['t'].startswith('const') and '&&' not in p['t']:
                            for s3, l in self.lv(a, s2, fr)[:1]:
                                if l[0] != 'val':
                                    self.save(s2, l, ap('out:' + n + ':' + p['n'], *allv))
                if e.get('noret'):
                    r = ('throwv', 'noreturn')
                out.append(self.ret(s2, r, want_lv))
        return out

    # ------------------------------------------------------------ construction
    def e_ctor(self, e, st, fr):
        t = e['n']
        bt = base_name(t)
        a = e['a']
        hk = self.hooks.get('ctor:' + bt)
        if hk is not None:
            r = hk(self, e, st, fr, False)
            if r is not None:
                return r
        if (e.get('copy') or e.get('move')) and len(a) >= 1:
            res = self.ev(a[0], st, fr)
            return [(s, self.load(s, v[1]) if v[0] == 'ptr' and bt not in SMART else v) for s, v in res]
        if bt in SEQ or bt in MAPS:
            return self.make_seq(e, bt, st, fr)
        if len(a) == 1 and (bt == '__gnu_cxx::__normal_iterator' or 'iterator' in bt and 'reverse' not in bt and bt.startswith('std::_')):
            return self.ev(a[0], st, fr)
        if bt in ('std::basic_string', 'std::string', 'std::basic_string_view'):
            if not a:
                return [(st, Sx(''))]
            if len(a) == 2 and num_lit(a[0]) is not None:
                pass
            return [(s, vs[0] if len(vs) == 1 or vs[0][0] == 's' else Sx(chr(vs[1][1]) * vs[0][1]) if vs[0][0] == vs[1][0] == 'i' and 0 <= vs[0][1] < 1 << 16
                     else ap('string', *vs)) for s, vs in self.evs(a[:1] if not (len(a) > 1 and a[1]['k'] not in ('defarg',)) else a, st, fr)]
        if bt == 'std::pair':
            if len(a) == 2:
                return [(s, vs[-1] if vs[-1][0] == 'throwv' else rec('std::pair', {'first': vs[0], 'second': vs[1]})) for s, vs in self.evs(a, st, fr)]
            if len(a) == 1:
                return self.ev(a[0], st, fr)
        if bt == 'std::optional':
            if not a:
                return [(st, ('nullopt',))]
            if a[0].get('t', '').startswith('std::nullopt_t') or 'nullopt_t' in a[0].get('t', ''):
                return [(st, ('nullopt',))]
            return [(s, v if v[0] in ('opt', 'nullopt', 'throwv') or 'std::optional' in strip_t(a[0].get('t', ''))[:14] else ('opt', v)) for s, v in self.ev(a[0], st, fr)]
        if bt in SMART:
            if not a:
                return [(st, NULL)]
            return self.ev(a[0], st, fr)
        if bt in STREAMS and bt != 'std::basic_ofstream':
            import strm
            a = [x for x in a if x['k'] != 'defarg']
            out = []
            for s, vs in self.evs(a, st, fr):
                p = strm.pieces(vs[0]) if vs else None
                out.append((s, rset(strm.new(), 'buf', ('vec', strm.merge(p))) if p is not None else strm.new()))
            return out
        if bt == 'std::complex':
            return [(s, rec('std::complex', {'re': vs[0] if vs else Fl(0), 'im': vs[1] if len(vs) > 1 else Fl(0)})) for s, vs in self.evs(a, st, fr)]
        if bt in ('std::function', 'std::reference_wrapper', 'std::variant', 'std::atomic'):
            if a:
                if bt == 'std::reference_wrapper':
                    return [(s, ('ptr', l) if l[0] != 'val' else l[1]) for s, l in self.lv(a[0], st, fr)]
                return self.ev(a[0], st, fr)
        f = self.F.functions.get(e['u'])
        if f is None and e['u']:
            # implicitly defined: aggregate of the class' default member values
            cl = self.F.cls_by_name.get(t) or self.F.cls_by_name.get(bt)
            if cl and not a and not self.opaque(t, t):
                return self.default_obj(cl[0], st, fr)
        if f is None or 'inits' not in f or self.opaque(f['n'], f.get('cls')):
            out = []
            for s, vs in self.evs(a, st, fr):
                if vs and vs[-1][0] == 'throwv':
                    out.append((s, vs[-1]))
                    continue
                s = s.copy()
                s.event('ctor', bt, vs, e.get('l'))
                out.append((s, ap('ctor:' + bt, *vs)))
            return out
        return self.construct(f, t, a, st, fr)

    def default_obj(self, c, st, fr):
        d = {}
        res = [(st, {})]
        for b in c['bases']:
            k = self.F.cls_by_name.get(b.get('n', ''))
            if k:
                r = self.default_obj(k[0], st, fr)
                if r[0][1][0] == 'rec':
                    d.update(dict(r[0][1][3]))
        for fl in c['fields']:
            if fl.get('static'):
                continue
            if 'init' in fl:
                r = self.ev(fl['init'], st, Frame(None))
                d[fl['n']] = r[0][1] if len(r) == 1 else fresh(fl['n'])
            else:
                d[fl['n']] = self.default_val(fl['t'])
        return [(st, rec(c['n'], d))]

    def zero_val(self, t):
        """value-initialisation"""
        import re
        b = strip_t(t)
        m = re.match(r'std::array<(.*), (\d+)(?:UL)?>$', b) or re.match(r'(.*?)\s*\[(\d+)\]$', b)
        if m and int(m.group(2)) <= 4096:
            return ('vec', (self.zero_val(m.group(1)),) * int(m.group(2)))
        v = self.default_val(t)
        if v == ('sym', 'uninit'):
            if b.endswith('*'):
                return NULL
            if b in ('double', 'float', 'long double'):
                return Fl(0.0)
            if b == 'bool':
                return FALSE
            return I(0)
        return v

    def default_val(self, t):
        bc = base_cls(t)
        if strip_t(t).endswith('*'):
            return ('sym', 'uninit')
        if bc in SEQ and bc not in ('std::array', 'std::tuple'):
            return ('vec', ())
        if bc in MAPS:
            return ('map', ())
        if bc in ('std::basic_string', 'std::string'):
            return Sx('')
        if bc == 'std::optional':
            return ('nullopt',)
        if bc in SMART:
            return NULL
        if bc == 'boost::multiprecision::number':
            return ('q', Fraction(0))
        k = self.F.cls_by_name.get(bc) or self.F.cls_by_name.get(strip_t(t))
        if k and not k[0].get('tmpl'):
            return self.default_obj(k[0], State(), Frame(None))[0][1]
        return ('sym', 'uninit')

    def value_init(self, t):
        """value-initialised element of a container type"""
        from models import elem_type
        et = elem_type({'obj': {'t': t}}) or ''
        if strip_t(et) == 'bool':
            return FALSE
        if strip_t(et) in ('double', 'float', 'long double'):
            return Fl(0.)
        if '::' in et and not strip_t(et).endswith('*'):
            v = self.default_val(et)
            return v if v != ('sym', 'uninit') else I(0)
        return I(0)

    def construct(self, f, t, args, st, fr):
        out = []
        cl = (self.F.cls_by_name.get(t) or self.F.cls_by_name.get(base_name(t)) or [None])[0]
        self.inlined.add(f['n'])
        for s, ls, th in self.bind(f['ps'], args, st, fr, None):
            if th:
                out.append((s, th))
                continue
            s = s.copy()
            base = self.default_obj(cl, s, fr)[0][1] if cl else rec(t, {})
            loc = self.new_root(s, base, 'obj')
            for s2, th in self.run_ctor(f, loc, ls, s, fr):
                if th:
                    out.append((s2, th))
                else:
                    v = self.load(s2, loc)
                    if v[0] == 'rec' and cl:
                        v = ('rec', cl['n'], v[2], v[3])
                    self.built[id(v)] = (v, loc)
                    out.append((s2, v))
        return out

    def run_ctor(self, f, loc, ls, st, fr):
        """run member initialisers and body of constructor f on object loc"""
        nf = Frame(f, ('ptr', loc))
        st = st.copy()
        for p, l in zip(f['ps'], ls):
            self.bindvar(st, nf, p['id'], l)
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise TooComplex("ctor depth " + f['n'])
        try:
            states = [(st, None)]
            for i in f['inits']:
                nxt = []
                for s, th in states:
                    if th:
                        nxt.append((s, th))
                        continue
                    e = i['e']
                    if 'f' in i:
                        if e is None:
                            nxt.append((s, None))
                            continue
                        if self.ref_members and self.is_ref_field(f.get('cls'), i['f']):
                            for s2, l in self.lv(e, s, nf):
                                s2 = s2.copy()
                                self.save(s2, (loc[0], loc[1] + (('f', i['f']),)), ('refm', l) if l[0] != 'val' else l[1])
                                nxt.append((s2, None))
                            continue
                        for s2, v in self.ev(e, s, nf):
                            if v[0] == 'throwv':
                                nxt.append((s2, v))
                                continue
                            s2 = s2.copy()
                            if e.get('k') == 'ctor' and e['a'] == [] and not i.get('w') and v[0] == 'ap':
                                nxt.append((s2, None))
                                continue
                            self.save(s2, (loc[0], loc[1] + (('f', i['f']),)), v)
                            nxt.append((s2, None))
                    else:
                        # base / delegating constructor on the same object
                        ee = e
                        if ee and ee['k'] == 'ctor' and ee['u'] in self.F.functions and 'inits' in self.F.functions[ee['u']]:
                            g = self.F.functions[ee['u']]
                            for s2, l2, th2 in self.bind(g['ps'], ee['a'], s, nf, None):
                                if th2:
                                    nxt.append((s2, th2))
                                    continue
                                nxt += self.run_ctor(g, loc, l2, s2, nf)
                        else:
                            if ee and ee['k'] == 'ctor' and (ee.get('copy') or ee.get('move')) and ee['a']:
                                # implicit/defaulted base copy: copy all fields
                                for s2, v in self.ev(ee['a'][0], s, nf):
                                    s2 = s2.copy()
                                    if v[0] == 'ptr':
                                        v = self.load(s2, v[1])
                                    if v[0] == 'rec':
                                        cur = self.load(s2, loc)
                                        bcl = self.F.cls_by_name.get(ee['n'])
                                        names = self.all_fields(ee['n'])
                                        for k_, x_ in v[3]:
                                            if k_ in names:
                                                self.save(s2, (loc[0], loc[1] + (('f', k_),)), x_)
                                    else:
                                        for k_ in self.all_fields(ee['n']):
                                            self.save(s2, (loc[0], loc[1] + (('f', k_),)), self.proj(v, ('f', k_)))
                                    nxt.append((s2, None))
                            else:
                                nxt.append((s, None))
                states = nxt
            out = []
            for s, th in states:
                if th:
                    out.append((s, th))
                    continue
                if 'body' not in f or f['body'] is None:
                    out.append((s, None))
                    continue
                for s2, oc in self.ex(f['body'], s, nf):
                    out.append((s2, ('throwv', oc[1]) if oc[0] == 'throw' else None))
            return out
        finally:
            self.depth -= 1

    def is_ref_field(self, cn, n):
        return any(x['n'] == n and x['t'].rstrip().endswith('&') for k in self.F.cls_by_name.get(cn, [])[:1] for x in k['fields'])

    def canon(self, st, l):
        """the location a member of reference type refers to"""
        if self.ref_members and l[0] != 'val':
            v = self.load(st, l, False)
            if v[0] == 'refm':
                return v[1]
        elif self.ref_members and l[1][0] == 'refm':
            return l[1][1]
        return l

    def all_fields(self, cn):
        r = []
        for k in self.F.cls_by_name.get(cn, [])[:1]:
            r += [x['n'] for x in k['fields'] if not x.get('static')]
            for b in k['bases']:
                r += self.all_fields(b.get('n', ''))
        return r

    def make_seq(self, e, bt, st, fr):
        import models
        a = [x for x in e['a'] if x['k'] != 'defarg']
        out = []
        if not a:
            return [(st, ('map', ()) if bt in MAPS else ('vec', ()))]
        for s, vs in self.evs(a, st, fr):
            if vs[-1][0] == 'throwv':
                out.append((s, vs[-1]))
                continue
            v = vs[0]
            if bt in MAPS and v[0] == 'vec':
                items = []
                ok = True
                for x in v[1]:
                    if x[0] == 'rec' and x[1] == 'std::pair':
                        items.append((rget(x, 'first'), rget(x, 'second')))
                    elif x[0] == 'vec' and len(x[1]) == 2:
                        items.append((x[1][0], x[1][1]))
                    else:
                        ok = False
                out.append((s, ('map', models.ordered(bt, tuple(items), lambda t: t[0])) if ok else ap('ctor:' + bt, *vs)))
                continue
            if v[0] == 'vec' and (len(vs) == 1):
                if 'set' in bt:
                    el = []
                    for x in v[1]:
                        if x not in el:
                            el.append(x)
                    v = ('vec', models.ordered(bt, tuple(el)))
                out.append((s, v))
                continue
            if len(vs) == 2 and vs[0][0] == 'it' and vs[1][0] == 'it':
                out.append((s, ('vec', tuple(vs[0][1][vs[0][2]:vs[1][2]]))))
                continue
            if bt == 'std::tuple':
                out.append((s, ('vec', tuple(vs))))
                continue
            sized = not e.get('list') or any(x['k'] == 'defarg' for x in e['a'])
            if bt in ('std::vector', 'std::deque') and v[0] == 'i' and sized and 0 <= v[1] <= 256:
                el = vs[1] if len(vs) > 1 else self.value_init(e.get('t', ''))
                out.append((s, ('vec', (el,) * v[1])))
                continue
            if len(vs) == 1 and v[0] in ('sym', 'ap', 'fld') :
                out.append((s, v if bt not in ('std::vector',) or 'std::' in strip_t(a[0].get('t', '')) else ap('ctor:' + bt, *vs)))
                continue
            out.append((s, ap('ctor:' + bt, *vs)))
        return out

    # ------------------------------------------------------------ library models
    def model(self, e, bn, st, fr, want_lv):
        if bn is None:
            return None
        from models import MODELS, METHOD_MODELS
        if bn in MODELS:
            return MODELS[bn](self, e, st, fr, want_lv)
        if e.get('cls') and ('obj' in e):
            c = base_cls(e['cls'])
            mname = bn.split('::')[-1]
            if c.startswith('std::') or c.startswith('__gnu'):
                return METHOD_MODELS(self, c, mname, e, st, fr, want_lv)
        if e.get('op') and e['a']:
            from models import OP_MODEL
            return OP_MODEL(self, e, bn, st, fr, want_lv)
        return None

    # ------------------------------------------------------------ statements
    # ex -> [(state, outcome)], outcome: ('next',) ('break',) ('continue',) ('return', v, isloc) ('throw', type)
    def ex(self, s, st, fr):
        if s is None:
            return [(st, ('next',))]
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooComplex("step budget exhausted")
        if not self.steps & 255 and time.time() > self.deadline:
            raise TooComplex("time budget exhausted")
        return getattr(self, 's_' + s['s'])(s, st, fr)

    def s_block(self, s, st, fr):
        return self.seq(s['b'], st, fr)

    def seq(self, stmts, st, fr):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for c in cur:
                for s2, oc in self.ex(x, c, fr):
                    if oc[0] == 'next':
                        nxt.append(s2)
                    else:
                        out.append((s2, oc))
            cur = self.dedup(nxt)
            if len(cur) + len(out) > self.max_paths:
                raise TooComplex("path budget exhausted")
            if not cur:
                break
        return out + [(c, ('next',)) for c in cur]

    def dedup(self, l):
        return l

    def s_expr(self, s, st, fr):
        out = []
        for s2, v in self.ev(s['e'], st, fr):
            out.append((s2, ('throw', v[1]) if v[0] == 'throwv' else ('next',)))
        return out

    def s_null(self, s, st, fr): return [(st, ('next',))]
    def s_other(self, s, st, fr): return [(st, ('next',))]
    def s_break(self, s, st, fr): return [(st, ('break',))]
    def s_continue(self, s, st, fr): return [(st, ('continue',))]
    def s_label(self, s, st, fr): return self.ex(s['b'], st, fr)
    def s_case(self, s, st, fr): return self.ex(s['b'], st, fr)
    def s_default(self, s, st, fr): return self.ex(s['b'], st, fr)
    def s_goto(self, s, st, fr): raise TooComplex("goto")

    def s_return(self, s, st, fr):
        if s.get('e') is None:
            return [(st, ('return', ('void',), False))]
        out = []
        if self.cur_retlv:
            for s2, l in self.lv(s['e'], st, fr):
                if l[0] == 'val':
                    out.append((s2, ('throw', l[1][1]) if l[1][0] == 'throwv' else ('return', l[1], False)))
                else:
                    out.append((s2, ('return', l, True)))
            return out
        for s2, v in self.ev(s['e'], st, fr):
            out.append((s2, ('throw', v[1]) if v[0] == 'throwv' else ('return', v, False)))
        return out

    def declare(self, v, st, fr):
        """-> [(state, throw or None)]"""
        out = []
        if 'bind' in v:
            for s, l in (self.lv(v['init'], st, fr) if is_ref_t(v['t']) else [(a, ('val', b)) for a, b in self.ev(v['init'], st, fr)]):
                s = s.copy()
                if l[0] == 'val':
                    val = l[1]
                    if val[0] == 'throwv':
                        out.append((s, val))
                        continue
                    if val[0] == 'ptr':
                        val = self.load(s, val[1])
                    l = self.new_root(s, val, 'dec')
                cur = self.load(s, l)
                for i, b in enumerate(v['bind']):
                    if cur[0] == 'vec':
                        fr_loc = (l[0], l[1] + (('i', I(i)),))
                    elif cur[0] == 'rec' and cur[1] == 'std::pair':
                        fr_loc = (l[0], l[1] + (('f', ('first', 'second')[i]),))
                    elif cur[0] == 'rec' and cur[1] in self.F.cls_by_name:
                        fs = [x['n'] for x in self.F.cls_by_name[cur[1]][0]['fields'] if not x.get('static')]
                        fr_loc = (l[0], l[1] + (('f', fs[i]),))
                    else:
                        nm = ('first', 'second')[i] if len(v['bind']) == 2 else 'get%d' % i
                        bc = base_cls(v['t'])
                        if bc in self.F.cls_by_name:
                            fs = [x['n'] for x in self.F.cls_by_name[bc][0]['fields'] if not x.get('static')]
                            if i < len(fs):
                                nm = fs[i]
                        fr_loc = (l[0], l[1] + (('f', nm),))
                    self.bindvar(s, fr, b['id'], fr_loc)
                out.append((s, None))
            return out
        if v.get('init') is None:
            s = st.copy()
            self.bindvar(s, fr, v['id'], self.new_root(s, self.default_val(v['t']), 'v_' + v['n']))
            return [(s, None)]
        if is_ref_t(v['t']):
            for s, l in self.lv(v['init'], st, fr):
                s = s.copy()
                if l[0] == 'val':
                    if l[1][0] == 'throwv':
                        out.append((s, l[1]))
                        continue
                    l = self.new_root(s, l[1], 'v_' + v['n'])
                self.bindvar(s, fr, v['id'], l)
                out.append((s, None))
        else:
            for s, x in self.ev(v['init'], st, fr):
                s = s.copy()
                if x[0] == 'throwv':
                    out.append((s, x))
                    continue
                c = self.built.get(id(x))
                if c is not None and c[0] is x and c[1][0] in s.store and v['init'].get('k') == 'ctor':
                    s.store[c[1][0]] = x        # the object was built where it lives: pointers into it stay valid
                    self.bindvar(s, fr, v['id'], c[1])
                else:
                    self.bindvar(s, fr, v['id'], self.new_root(s, x, 'v_' + v['n']))
                out.append((s, None))
        self.built.clear()
        return out

    def s_decl(self, s, st, fr):
        cur = [st]
        out = []
        for v in s['v']:
            nxt = []
            for c in cur:
                for s2, th in self.declare(v, c, fr):
                    if th:
                        out.append((s2, ('throw', th[1])))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(c, ('next',)) for c in cur]

    def s_if(self, s, st, fr):
        if 'cv' in s:
            br = s.get('T') if s['cv'] else s.get('F')
            return self.ex(br, st, fr) if br else [(st, ('next',))]
        out = []
        pre = [(st, ('next',))]
        if 'init' in s:
            pre = self.ex(s['init'], st, fr)
        for s1, oc in pre:
            if oc[0] != 'next':
                out.append((s1, oc))
                continue
            st1 = [(s1, None)]
            if 'var' in s:
                st1 = self.declare(s['var'], s1, fr)
            for s2, th in st1:
                if th:
                    out.append((s2, ('throw', th[1])))
                    continue
                for s3, c in self.ev(s['c'], s2, fr):
                    if c[0] == 'throwv':
                        out.append((s3, ('throw', c[1])))
                        continue
                    for s4, b in self.branch(s3, c):
                        nx = s.get('T') if b else s.get('F')
                        out += self.ex(nx, s4, fr) if nx else [(s4, ('next',))]
        return out

    def flat_switch(self, body):
        """-> list of (labels, stmt) in order; labels: list of values or 'default'"""
        items = []
        stmts = body['b'] if body['s'] == 'block' else [body]
        for x in stmts:
            labels = []
            while x is not None and x['s'] in ('case', 'default'):
                labels.append(('case', x.get('cv')) if x['s'] == 'case' else ('default',))
                x = x['b']
            items.append((labels, x))
        return items

    def s_switch(self, s, st, fr):
        out = []
        items = self.flat_switch(s['b'])
        pre = [(st, ('next',))]
        if 'init' in s:
            pre = self.ex(s['init'], st, fr)
        states = []
        for s1, oc in pre:
            if oc[0] != 'next':
                out.append((s1, oc))
            else:
                states.append(s1)
        for s1 in states:
            for s2, c in self.ev(s['c'], s1, fr):
                if c[0] == 'throwv':
                    out.append((s2, ('throw', c[1])))
                    continue
                n = num(c)
                starts = []
                if n is not None:
                    idx = None
                    for i, (ls, _) in enumerate(items):
                        if ('case', n) in ls:
                            idx = i
                            break
                    if idx is None:
                        for i, (ls, _) in enumerate(items):
                            if ('default',) in ls:
                                idx = i
                    starts.append((s2, idx))
                else:
                    rest = s2
                    defi = None
                    en = None
                    tt = strip_t(s['c'].get('t', ''))
                    if s['c'].get('k') == 'icast':
                        tt = strip_t(s['c']['e'].get('t', ''))
                    for i, (ls, _) in enumerate(items):
                        for l in ls:
                            if l[0] == 'case':
                                cv = self.to_enum(tt, l[1]) if tt in self.F.enums else I(l[1])
                                cond = ap('==', c, cv)
                                k = self.known(rest, cond)
                                if k is False:
                                    continue
                                if k is True:
                                    starts.append((rest, i))
                                    rest = None
                                    break
                                starts.append((self.assume(rest, cond, True), i))
                                rest = self.assume(rest, cond, False)
                            else:
                                defi = i
                        if rest is None:
                            break
                    if rest is not None:
                        starts.append((rest, defi))
                for s3, idx in starts:
                    if idx is None:
                        out.append((s3, ('next',)))
                        continue
                    for s4, oc in self.seq([x for _, x in items[idx:] if x is not None], s3, fr):
                        out.append((s4, ('next',) if oc[0] == 'break' else oc))
        return out

    # loops
    def s_for(self, s, st, fr):
        out = []
        pre = self.ex(s['init'], st, fr) if s.get('init') else [(st, ('next',))]
        for s1, oc in pre:
            if oc[0] != 'next':
                out.append((s1, oc))
            else:
                out += self.loop(s.get('c'), s['b'], s.get('inc'), s1, fr, s)
        return out

    def s_while(self, s, st, fr):
        return self.loop(s['c'], s['b'], None, st, fr, s)

    def s_do(self, s, st, fr):
        out = []
        for s1, oc in self.ex(s['b'], st, fr):
            if oc[0] in ('next', 'continue'):
                out += self.loop(s['c'], s['b'], None, s1, fr, s)
            elif oc[0] == 'break':
                out.append((s1, ('next',)))
            else:
                out.append((s1, oc))
        return out

    def loop(self, cond, body, inc, st, fr, node):
        out = []
        work = [(st, 0)]
        while work:
            s, n = work.pop()
            cs = self.ev(cond, s, fr) if cond is not None else [(s, TRUE)]
            for s1, c in cs:
                if c[0] == 'throwv':
                    out.append((s1, ('throw', c[1])))
                    continue
                k = self.known(s1, c)
                # a loop condition decided only by earlier forks inside && is also constant
                if k is False:
                    out.append((s1, ('next',)))
                    continue
                if k is True and n < self.max_iter:
                    for s2, oc in self.ex(body, s1, fr):
                        if oc[0] in ('next', 'continue'):
                            nx = [(s2, ('void',))]
                            if inc is not None:
                                nx = self.ev(inc, s2, fr)
                            for s3, v in nx:
                                work.append((s3, n + 1))
                        elif oc[0] == 'break':
                            out.append((s2, ('next',)))
                        else:
                            out.append((s2, oc))
                    if len(work) + len(out) > self.max_paths:
                        raise TooComplex("loop path budget")
                    continue
                # unknown trip count: summarise
                out += self.summarise(cond, body, inc, s1, fr, node)
        return out

    def summarise(self, cond, body, inc, st, fr, node, bindvar=None):
        s = st.copy()
        lid = node.get('l', 0)
        self.havoc_writes([x for x in (cond, inc) if x], body, s, fr, lid)
        s.event('loop', lid)
        out = []
        cs = self.ev(cond, s, fr) if cond is not None else [(s, TRUE)]
        exits = []
        for s1, c in cs:
            if c[0] == 'throwv':
                out.append((s1, ('throw', c[1])))
                continue
            for s2, b in self.branch(s1, c):
                if not b:
                    s2 = s2.copy()
                    exits.append(s2)
                    continue
                for s3, oc in self.ex(body, s2, fr):
                    if oc[0] in ('next', 'continue'):
                        nx = [(s3, ('void',))]
                        if inc is not None:
                            nx = self.ev(inc, s3, fr)
                        for s4, v in nx:
                            s4 = s4.copy()
                            s4.event('backedge', lid)
                            out.append((s4, ('iter', lid)) if self.keep_iters else (self.after_loop(s4, cond, inc, body, fr, lid), ('next',)))
                    elif oc[0] == 'break':
                        out.append((s3, ('next',)))
                    else:
                        out.append((s3, oc))
        for x in exits:
            x.event('endloop', lid)
            out.append((x, ('next',)))
        return out

    keep_iters = False

    def after_loop(self, s, cond, inc, body, fr, lid):
        s = s.copy()
        self.havoc_writes([x for x in (cond, inc) if x], body, s, fr, lid)
        s.event('endloop', lid)
        return s

    def s_range(self, s, st, fr):
        out = []
        pre = self.ex(s['init'], st, fr) if s.get('init') else [(st, ('next',))]
        for s0, oc in pre:
            if oc[0] != 'next':
                out.append((s0, oc))
                continue
            for s1, l in self.lv(s['r'], s0, fr):
                v = l[1] if l[0] == 'val' else self.load(s1, l)
                if v[0] == 'throwv':
                    out.append((s1, ('throw', v[1])))
                    continue
                if v[0] == 'ptr':
                    l = v[1]
                    v = self.load(s1, l)
                if v[0] == 'rec':
                    s1, l, v = self.user_range(s1, l, v, fr)
                if v[0] == 'map' and l[0] != 'val':
                    l = (l[0], l[1] + (('pairs', None),))
                    v = self.load(s1, l)
                if v[0] == 's':
                    v = ('vec', tuple(I(ord(c) if ord(c) < 128 else ord(c) - 256) for c in v[1]))
                    l = ('val', v)
                if v[0] == 'vec' and len(v[1]) <= self.max_iter:
                    cur = [s1]
                    for i, el in enumerate(v[1]):
                        nxt = []
                        for c in cur:
                            c = c.copy()
                            lo = (l[0], l[1] + (('i', I(i)),)) if l[0] != 'val' and is_ref_t(s['v']['t']) else self.new_root(c, el if l[0] == 'val' else self.load(c, (l[0], l[1] + (('i', I(i)),))), 'el')
                            th = self.bind_loopvar(s['v'], lo, c, fr)
                            for s2, oc2 in self.ex(s['b'], c, fr):
                                if oc2[0] in ('next', 'continue'):
                                    nxt.append(s2)
                                elif oc2[0] == 'break':
                                    out.append((s2, ('next',)))
                                else:
                                    out.append((s2, oc2))
                        cur = nxt
                        if len(cur) + len(out) > self.max_paths:
                            raise TooComplex("range path budget")
                    out += [(c, ('next',)) for c in cur]
                elif v[0] == 'map' and len(v[1]) <= self.max_iter:
                    cur = [s1]
                    for kk, vv in v[1]:
                        nxt = []
                        for c in cur:
                            c = c.copy()
                            lo = self.new_root(c, rec('std::pair', {'first': kk, 'second': vv}), 'el')
                            self.bind_loopvar(s['v'], lo, c, fr)
                            for s2, oc2 in self.ex(s['b'], c, fr):
                                if oc2[0] in ('next', 'continue'):
                                    nxt.append(s2)
                                elif oc2[0] == 'break':
                                    out.append((s2, ('next',)))
                                else:
                                    out.append((s2, oc2))
                        cur = nxt
                    out += [(c, ('next',)) for c in cur]
                else:
                    # generic element
                    c = s1.copy()
                    lid = s.get('l', 0)
                    self.havoc_writes([], s['b'], c, fr, lid)
                    done = c.copy()
                    done.event('loop0', lid)
                    c.event('loop', lid)
                    el = ap('elem', v)
                    lo = self.new_root(c, el, 'el')
                    self.bind_loopvar(s['v'], lo, c, fr)
                    for s2, oc2 in self.ex(s['b'], c, fr):
                        if oc2[0] in ('next', 'continue'):
                            out.append((self.after_loop(s2, None, None, s['b'], fr, lid), ('next',)))
                        elif oc2[0] == 'break':
                            out.append((s2, ('next',)))
                        else:
                            out.append((s2, oc2))
                    out.append((done, ('next',)))
        return out

    def find_method(self, cls, name, nargs=0):
        c, seen = cls, set()
        while c and c not in seen:
            seen.add(c)
            for k in self.F.cls_by_name.get(c, []):
                for m in k['methods']:
                    f = self.F.functions.get(m['u'])
                    if f and f['n'].split('::')[-1] == name and len(f['ps']) == nargs and 'body' in f and not f.get('tmpl'):
                        return f
            ks = self.F.cls_by_name.get(c, [])
            c = ks[0]['bases'][0].get('n') if ks and ks[0]['bases'] else None
        return None

    def user_range(self, s1, l, v, fr):
        """range-for over a class with begin()/end(): iterate what begin() points to"""
        f = self.find_method(v[1], 'begin')
        g = self.find_method(v[1], 'end')
        if f is None or g is None:
            return s1, l, v
        if l[0] == 'val':
            l = self.new_root(s1, v, 'range')
        got = []
        for m in (f, g):
            nf = Frame(m, ('ptr', l), None)
            rs = self.ex(m['body'], s1, nf)
            if len(rs) != 1 or rs[0][1][0] != 'return':
                return s1, l, v
            got.append(rs[0][1][1])
        a, b = got
        if a[0] == 'it' and b[0] == 'it' and a[2] == 0 and b[2] == len(a[1]):
            if a[3] is not None:
                return s1, a[3], self.load(s1, a[3])
            return s1, ('val', ('vec', a[1])), ('vec', a[1])
        return s1, l, v

    def bind_loopvar(self, v, lo, st, fr):
        if 'bind' in v:
            cur = self.load(st, lo)
            for i, b in enumerate(v['bind']):
                if cur[0] == 'vec':
                    self.bindvar(st, fr, b['id'], (lo[0], lo[1] + (('i', I(i)),)))
                else:
                    nm = ('first', 'second')[i] if len(v['bind']) == 2 else 'get%d' % i
                    if cur[0] == 'rec' and cur[1] in self.F.cls_by_name:
                        fs = [x['n'] for x in self.F.cls_by_name[cur[1]][0]['fields'] if not x.get('static')]
                        nm = fs[i]
                    self.bindvar(st, fr, b['id'], (lo[0], lo[1] + (('f', nm),)))
        else:
            self.bindvar(st, fr, v['id'], lo)

    def havoc_writes(self, exprs, body, st, fr, lid):
        """forget every variable the loop may write"""
        ids = set()
        roots = set()
        def walk(n):
            if isinstance(n, dict):
                k = n.get('k')
                tgt = None
                if k == 'assign':
                    tgt = n['L']
                elif k == 'un' and n['op'] in ('++', '--', '&'):
                    tgt = n['e']
                elif k == 'call':
                    if n.get('obj') is not None and not n.get('cm'):
                        mark(n['obj'])
                    if n.get('op') and n['a'] and n['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--', '<<', '>>', '[]', '()'):
                        mark(n['a'][0])
                    f = self.F.functions.get(n.get('u'))
                    for i, a in enumerate(n['a']):
                        if f is not None and i < len(f['ps']):
                            t = f['ps'][i]['t']
                            if is_ref_t(t) and not t.startswith('const'):
                                mark(a)
                    if n.get('n') in ('std::swap', 'std::get') or (n.get('n') or '').startswith('std::swap'):
                        for a in n['a']:
                            mark(a)
                if tgt is not None:
                    mark(tgt)
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(n, list):
                for v in n:
                    if isinstance(v, (dict, list)):
                        walk(v)
        def mark(t):
            while True:
                k = t.get('k')
                if k == 'ref' and 'id' in t:
                    ids.add((t['id'], t['n']))
                    return
                if k == 'member':
                    if t['b'].get('k') == 'this':
                        roots.add(t['n'])
                        return
                    t = t['b']
                elif k == 'sub':
                    t = t['b']
                elif k in ('un', 'icast', 'cast'):
                    t = t['e']
                elif k == 'call' and t.get('obj') is not None:
                    t = t['obj']
                elif k == 'call' and t.get('op') and t['a']:
                    t = t['a'][0]
                elif k == 'this':
                    roots.add('*')
                    return
                else:
                    return
        for x in exprs:
            walk(x)
        walk(body)
        for i, n in ids:
            loc = self.lookup(st, fr, i)
            if loc is not None:
                self.save(st, loc, ('sym', 'loop%s:%s' % (lid, n)))
        if fr.this is not None and fr.this[0] == 'ptr':
            for n in roots:
                loc = fr.this[1]
                if n != '*':
                    self.save(st, (loc[0], loc[1] + (('f', n),)), ('sym', 'loop%s:this.%s' % (lid, n)))

    def s_try(self, s, st, fr):
        out = []
        for s1, oc in self.ex(s['b'], st, fr):
            if oc[0] == 'throw':
                handled = False
                for h in s['h']:
                    ht = base_cls(h['v']['t']) if h.get('v') else None
                    if ht is None or ht == oc[1] or self.derives(oc[1], ht) or ht in ('std::exception',) or oc[1] in ('noreturn',):
                        if h.get('v'):
                            s1 = s1.copy()
                            self.bindvar(s1, fr, h['v']['id'], self.new_root(s1, sym('exc'), 'exc'))
                        out += self.ex(h['b'], s1, fr)
                        handled = True
                        break
                if not handled:
                    out.append((s1, oc))
            else:
                out.append((s1, oc))
        return out

    # ------------------------------------------------------------ entry
    def run(self, f, args, this=None, st=None):
        """analyse function f with given abstract arguments (values; ref params get
        their own location).  -> list of (state, outcome, frame)"""
        st = st or State()
        if not self.stack:
            self.steps = 0
            self.deadline = time.time() + self.max_secs
        nf = Frame(f)
        for p, v in zip(f['ps'], args):
            self.bindvar(st, nf, p['id'], v[1] if v[0] == 'LOCARG' else self.new_root(st, v, 'p_' + p['n']))
        for p in f['ps'][len(args):]:
            self.bindvar(st, nf, p['id'], self.new_root(st, sym(p['n']), 'p_' + p['n']))
        thisloc = None
        if f.get('cls') and not f.get('static'):
            if this is not None and this[0] == 'LOCARG':
                thisloc = this[1]
            else:
                thisloc = self.new_root(st, this if this is not None else ('rec', f['cls'], sym('this'), ()), 'this')
            nf.this = ('ptr', thisloc)
        self.cur_retlv = False
        self.stack.append(f['u'])
        try:
            if f.get('ctor'):
                locs = [self.lookup(st, nf, p['id']) for p in f['ps']]
                res = [(s, ('throw', th[1]) if th else ('next',)) for s, th in self.run_ctor(f, thisloc, locs, st, nf)]
            else:
                res = self.ex(f['body'], st, nf)
        finally:
            self.stack.pop()
        return [(s, oc, nf, thisloc) for s, oc in res]


class LamBox:
    __slots__ = ('node', 'frame')

    def __init__(self, n, f):
        self.node, self.frame = n, f

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '<lam@%s>' % self.node.get('l')


def num_lit(e):
    return e.get('v') if e['k'] == 'int' else None


def show(v, d=0):
    if not isinstance(v, tuple):
        return repr(v)
    k = v[0]
    if k in ('i', 'f', 'b'): return repr(v[1])
    if k == 's': return '"%s"' % v[1]
    if k == 'e': return v[2]
    if k == 'sym': return v[1]
    if k == 'null': return 'nullptr'
    if k == 'fld': return show(v[1]) + '.' + v[2]
    if k == 'vec': return '[' + ', '.join(show(x) for x in v[1]) + ']'
    if k == 'map': return '{' + ', '.join(show(a) + ':' + show(b) for a, b in v[1]) + '}'
    if k == 'rec': return v[1].split('::')[-1] + '{' + ', '.join(a + '=' + show(b) for a, b in v[3]) + ('|' + show(v[2]) if v[2] else '') + '}'
    if k == 'ap': return '(' + v[1] + ' ' + ' '.join(show(x) for x in v[2:]) + ')'
    if k == 'opt': return 'opt(' + show(v[1]) + ')'
    if k == 'ptr': return '&' + repr(v[1])
    return repr(v)
