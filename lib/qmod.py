"""OpenQASM text run through the repository's scanner, parser, passes and importer by the interpreter: input streams,
regular expressions and number parsing are modelled here."""
import re
from absint import *
import absint as A
import models as M
from facts import AnalysisError
from report import where


def instream(text):
    return rec('istream', {'text': Sx(text), 'pos': I(0), 'eof': FALSE, 'fail': FALSE})


class Abort(Exception):
    pass


def hooks(F):
    H = {}

    def stream(ip, e, st, fr):
        for s, l in ip.objloc(e, st, fr):
            v = l[1] if l[0] == 'val' else ip.load(s, l)
            yield s, l, v

    def h_get(ip, e, st, fr, wl):
        out = []
        a = [x for x in e['a'] if x['k'] != 'defarg']
        for s, l, v in stream(ip, e, st, fr):
            if not (v[0] == 'rec' and v[1] == 'istream') or l[0] == 'val':
                return None
            s = s.copy()
            t, p = rget(v, 'text')[1], rget(v, 'pos')[1]
            got = None
            if p < len(t) and rget(v, 'eof') == FALSE:
                got = ord(t[p])
                v = rset(v, 'pos', I(p + 1))
            else:
                v = rset(rset(v, 'eof', TRUE), 'fail', TRUE)
            ip.save(s, l, v)
            if not a:
                out.append(ip.ret(s, I(got if got is not None else -1), wl))
                continue
            if len(a) != 1:
                return None
            for s2, cl in ip.lv(a[0], s, fr):
                s2 = s2.copy()
                if got is not None:
                    ip.save(s2, cl, I(got if got < 128 else got - 256))
                out.append((s2, l) if wl else (s2, v))
        return out

    def h_peek(ip, e, st, fr, wl):
        out = []
        for s, l, v in stream(ip, e, st, fr):
            if not (v[0] == 'rec' and v[1] == 'istream') or l[0] == 'val':
                return None
            t, p = rget(v, 'text')[1], rget(v, 'pos')[1]
            s = s.copy()
            if p < len(t) and rget(v, 'eof') == FALSE:
                out.append(ip.ret(s, I(ord(t[p])), wl))
            else:
                ip.save(s, l, rset(v, 'eof', TRUE))
                out.append(ip.ret(s, I(-1), wl))
        return out

    def flag(f):
        def h(ip, e, st, fr, wl):
            out = []
            for s, l, v in stream(ip, e, st, fr):
                if not (v[0] == 'rec' and v[1] == 'istream'):
                    return None
                out.append(ip.ret(s, f(v), wl))
            return out
        return h
    for c in ('std::basic_istream', 'std::basic_ios', 'std::basic_istringstream', 'std::ios_base', 'std::basic_ifstream'):
        H[c + '::get'] = h_get
        H[c + '::peek'] = h_peek
        H[c + '::eof'] = flag(lambda v: rget(v, 'eof'))
        H[c + '::fail'] = flag(lambda v: rget(v, 'fail'))
        H[c + '::good'] = flag(lambda v: ('b', rget(v, 'fail') == FALSE and rget(v, 'eof') == FALSE))

    def strings(ip, e, st, fr, wl, g, n=1):
        out = []
        for s, vs in ip.evs([x for x in e['a'] if x['k'] != 'defarg'][:n], st, fr):
            out.append(ip.ret(s, vs[-1] if vs and vs[-1][0] == 'throwv' else g(vs), wl))
        return out

    def make_stream(ip, e, st, fr, wl):
        return strings(ip, e, st, fr, wl, lambda vs: instream(vs[0][1]) if vs and vs[0][0] == 's' else ap('istream?'))
    H['ctor:std::basic_istringstream'] = make_stream
    H['make:std::basic_istringstream'] = lambda ip, e, st, fr, wl: boxed(ip, make_stream(ip, e, st, fr, False), wl)

    def boxed(ip, rs, wl):
        out = []
        for s, v in rs:
            s = s.copy()
            out.append(ip.ret(s, ('ptr', ip.new_root(s, v, 'heap')), wl))
        return out
    # no file is found
    H['ctor:std::basic_ifstream'] = lambda ip, e, st, fr, wl: [ip.ret(st, rset(instream(''), 'fail', TRUE), wl)]
    H['make:std::basic_ifstream'] = lambda ip, e, st, fr, wl: boxed(ip, [(st, rset(instream(''), 'fail', TRUE))], wl)

    # regular expressions
    H['ctor:std::basic_regex'] = lambda ip, e, st, fr, wl: strings(ip, e, st, fr, wl, lambda vs: rec('regex', {'re': vs[0]}) if vs and vs[0][0] in ('s', 'rec') and vs[0][0] == 's' else (vs[0] if vs else ap('regex?')))

    def h_search(ip, e, st, fr, wl, full=False):
        a = [x for x in e['a'] if x['k'] != 'defarg']
        out = []
        for s, v in ip.ev(a[0], st, fr):
            for s2, r in ip.ev(a[-1], s, fr):
                if v[0] != 's' or not (r[0] == 'rec' and r[1] == 'regex'):
                    return None
                m = (re.fullmatch if full else re.search)(rget(r, 're')[1], v[1])
                if len(a) == 2:
                    out.append(ip.ret(s2, ('b', m is not None), wl))
                    continue
                for s3, ml in ip.lv(a[1], s2, fr):
                    s3 = s3.copy()
                    ip.save(s3, ml, rec('smatch', {'subs': ('vec', tuple(Sx(g or '') for g in (m.group(0),) + m.groups()) if m else ()),
                                                   'suffix': Sx(v[1][m.end():] if m else ''), 'prefix': Sx(v[1][:m.start()] if m else '')}))
                    out.append(ip.ret(s3, ('b', m is not None), wl))
        return out
    H['std::regex_search'] = h_search
    H['std::regex_match'] = lambda ip, e, st, fr, wl: h_search(ip, e, st, fr, wl, True)

    def smatch(what):
        def h(ip, e, st, fr, wl):
            out = []
            a = [x for x in e['a'] if x['k'] != 'defarg']
            for s, l, v in stream(ip, e, st, fr):
                if not (v[0] == 'rec' and v[1] == 'smatch'):
                    return None
                for s2, vs in ip.evs(a, s, fr):
                    k = num(vs[0]) if vs else 0
                    out.append(ip.ret(s2, what(v, int(k)), wl))
            return out
        return h
    sub = lambda v, k: rget(v, 'subs')[1][k] if k < len(rget(v, 'subs')[1]) else Sx('')
    H['std::match_results::str'] = smatch(sub)
    H['std::match_results::operator[]'] = smatch(sub)
    H['std::match_results::suffix'] = smatch(lambda v, k: rget(v, 'suffix'))
    H['std::match_results::prefix'] = smatch(lambda v, k: rget(v, 'prefix'))
    H['std::match_results::position'] = smatch(lambda v, k: I(len(rget(v, 'prefix')[1])))

    def h_sub(ip, e, st, fr, wl):
        return [ip.ret(s, v, wl) for s, l, v in stream(ip, e, st, fr)]
    for m in ('str', 'operator basic_string', 'operator string_type', 'operator std::basic_string'):
        H['std::sub_match::' + m] = h_sub

    def number(conv, bad='std::invalid_argument', big='std::out_of_range'):
        def g(vs):
            if vs[0][0] != 's':
                return ap('number', vs[0])
            try:
                return conv(vs[0][1])
            except ValueError:
                return ('throwv', bad)
            except OverflowError:
                return ('throwv', big)
        return lambda ip, e, st, fr, wl: strings(ip, e, st, fr, wl, g)

    def dbl(t):
        m = re.match(r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', t)
        if not m:
            raise ValueError
        x = float(m.group(0))
        if abs(x) == float('inf') or (x == 0 and re.search('[1-9]', m.group(0).lower().split('e')[0])):
            raise OverflowError
        return Fl(x)

    def integer(hi, lo):
        def f(t):
            m = re.match(r'\s*[-+]?\d+', t)
            if not m:
                raise ValueError
            x = int(m.group(0))
            if not lo <= x < hi:
                raise OverflowError
            return I(x)
        return f
    H['std::stod'] = number(dbl)
    H['std::stoul'] = H['std::stoull'] = number(integer(1 << 64, -(1 << 64)))
    H['std::stoi'] = number(integer(1 << 31, -(1 << 31)))
    H['std::stol'] = H['std::stoll'] = number(integer(1 << 63, -(1 << 63)))
    for n, f in (('isalpha', str.isalpha), ('isdigit', str.isdigit), ('isalnum', str.isalnum), ('isspace', str.isspace)):
        H[n] = H['std::' + n] = lambda ip, e, st, fr, wl, f=f: strings(ip, e, st, fr, wl, lambda vs: I(1 if 0 <= vs[0][1] < 128 and f(chr(vs[0][1])) else 0) if vs[0][0] == 'i' else ap('ctype', vs[0]))

    def tolower(vs):
        return I(ord(chr(vs[0][1]).lower())) if vs[0][0] == 'i' and 0 <= vs[0][1] < 128 else ap('tolower', vs[0])
    for n in ('tolower', 'std::tolower'):
        H[n] = lambda ip, e, st, fr, wl: strings(ip, e, st, fr, wl, tolower)

    def ptr_cast(ip, e, st, fr, wl):
        tc = A.base_cls((e.get('ta') or ['?'])[0])
        out = []
        for s, v in ip.ev(e['a'][0], st, fr):
            if v[0] not in ('ptr', 'null', 'throwv'):
                return None
            if v[0] == 'ptr':
                r = ip.load(s, v[1])
                if r[0] != 'rec':
                    return None
                if not (cname(r[1]) == cname((e.get('ta') or ['?'])[0]) or derives(ip, r[1], (e.get('ta') or ['?'])[0])):
                    v = NULL
            out.append(ip.ret(s, v, wl))
        return out

    def cname(t):
        return re.sub(r'\s+', '', strip_t(t))

    def derives(ip, c, b):
        return ip.derives(A.base_cls(c), A.base_cls(b)) and ('<' not in c or '<' not in b or c[c.index('<'):] == b[b.index('<'):])
    for n in ('dynamic', 'static', 'const'):
        H['std::%s_pointer_cast' % n] = ptr_cast

    def isset(ip, e, st, fr, wl):
        out = []
        for s, l, v in stream(ip, e, st, fr):
            if v[0] not in ('ptr', 'null', 'rec'):
                return None
            out.append(ip.ret(s, ('b', v[0] != 'null'), wl))
        return out
    H['std::__shared_ptr::operator bool'] = isset

    def getptr(ip, e, st, fr, wl):
        out = []
        for s, l, v in stream(ip, e, st, fr):
            if v[0] not in ('ptr', 'null'):
                return None
            out.append(ip.ret(s, v, wl))
        return out
    H['std::__shared_ptr::get'] = getptr

    def self_(ip, e, st, fr, wl):
        out = []
        for s, v in ip.ev(e['obj'], st, fr):
            if v[0] != 'ptr':
                return None
            out.append(ip.ret(s, v, wl))
        return out
    H['std::enable_shared_from_this::shared_from_this'] = self_
    H['std::mersenne_twister_engine::seed'] = lambda ip, e, st, fr, wl: [ip.ret(st, ('void',), wl)]
    BITS = {'int': (31, 1), 'long': (63, 1), 'long long': (63, 1), 'short': (15, 1), 'signed char': (7, 1), 'unsigned int': (32, 0), 'unsigned long': (64, 0), 'unsigned long long': (64, 0), 'unsigned short': (16, 0), 'unsigned char': (8, 0)}

    def limits(hi):
        def h(ip, e, st, fr, wl):
            b = BITS.get(strip_t(e.get('t', '')))
            if b is None:
                return None
            return [ip.ret(st, I((1 << b[0]) - 1 if hi else -(1 << b[0]) * b[1]), wl)]
        return h
    H['std::numeric_limits::max'] = limits(True)
    H['std::numeric_limits::min'] = H['std::numeric_limits::lowest'] = limits(False)
    H['ctor:std::seed_seq'] = lambda ip, e, st, fr, wl: [ip.ret(st, ('void',), wl)]
    H['std::generate'] = lambda ip, e, st, fr, wl: [ip.ret(st, ('void',), wl)]

    def alternative(ip, e, st, fr, wl):
        t = strip_t((e.get('ta') or ['?'])[0])
        out = []
        for s, v in ip.ev(e['a'][0], st, fr):
            if v[0] in ('ptr', 'null'):
                r = 'shared_ptr' in t or 'unique_ptr' in t or t.endswith('*')
            elif v[0] == 'vec':
                r = t.startswith('std::tuple') or t.startswith('std::vector')
            elif v[0] == 'i':
                r = t in NUMT_I
            elif v[0] in ('f', 'b'):
                r = t == {'f': 'double', 'b': 'bool'}[v[0]]
            elif v[0] == 'rec':
                r = A.base_cls(t) == A.base_cls(v[1])
            else:
                return None
            out.append(ip.ret(s, ('b', r), wl))
        return out
    H['std::holds_alternative'] = alternative

    def matches(ip, e, s, v, vt):
        """does the alternative that std::get or std::get_if names hold?"""
        alts = split_args(vt)
        k = str((e.get('ta') or ['?'])[0]).rstrip('UuLl')
        want = strip_t(alts[int(k)]) if k.isdigit() and int(k) < len(alts) else strip_t(k)
        ok = {'i': want in NUMT_I, 'f': want == 'double', 'b': want == 'bool', 'ptr': 'shared_ptr' in want or want.endswith('*'), 'null': 'shared_ptr' in want,
              'vec': want.startswith('std::tuple') or want.startswith('std::vector'), 'rec': v[0] == 'rec' and A.base_cls(want) == A.base_cls(v[1]),
              's': 'basic_string' in want}.get(v[0])
        if ok and v[0] == 'ptr' and len([a for a in alts if 'shared_ptr' in a]) > 1:
            r = ip.load(s, v[1])
            inner = split_args(want)
            ok = r[0] == 'rec' and inner and derives(ip, r[1], inner[0])
            if ok and r[0] == 'rec' and 'Type<' in inner[0]:
                ok = (num(rget(r, '__T')) == 1) == ('shared_ptr' in inner[0])
        return ok

    def get(ip, e, st, fr, wl):
        vt = strip_t(e['a'][0].get('t', ''))
        if not vt.startswith('std::variant'):
            return None
        out = []
        for s, l in ip.lv(e['a'][0], st, fr):
            v = l[1] if l[0] == 'val' else ip.load(s, l)
            ok = matches(ip, e, s, v, vt)
            if ok is None:
                return None
            if not ok:
                out.append(ip.ret(s, ('throwv', 'std::bad_variant_access'), wl))
            else:
                out.append((s, l) if wl else (s, v))
        return out
    H['std::get'] = get

    def get_if(ip, e, st, fr, wl):
        vt = strip_t(e['a'][0].get('t', '')).rstrip('*').strip()
        vt = strip_t(vt)
        if not vt.startswith('std::variant'):
            return None
        out = []
        for s, p in ip.ev(e['a'][0], st, fr):
            if p[0] == 'null':
                out.append(ip.ret(s, NULL, wl))
                continue
            if p[0] != 'ptr':
                return None
            ok = matches(ip, e, s, ip.load(s, p[1]), vt)
            if ok is None:
                return None
            out.append(ip.ret(s, p if ok else NULL, wl))
        return out
    H['std::get_if'] = get_if

    def make_type(ip, e, st, fr, wl):
        # the type classes are templates: remember which instantiation an object is of
        T = (e.get('ta') or ['?'])[0]
        out = []
        for s, v in M.construct_T(ip, T, e['a'], st, fr, e):
            if v[0] != 'rec':
                out.append(ip.ret(s, v, wl))
                continue
            s = s.copy()
            out.append(ip.ret(s, ('ptr', ip.new_root(s, rset(v, '__T', I(1 if 'shared_ptr' in T else 0)), 'heap')), wl))
        return out
    for n in ('DesignatedType', 'UnsizedType', 'ArrayType'):
        H['make:qasm3::' + n] = make_type
    return H


NUMT_I = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'unsigned char', 'char', 'signed char', 'long long', 'unsigned long long')


def split_args(t):
    i = t.find('<')
    d, cur, out = 0, '', []
    for ch in t[i + 1:t.rindex('>')] if i >= 0 else '':
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
