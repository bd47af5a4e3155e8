"""Output streams and strings with embedded terms.  A stream is a record whose buffer is a sequence of pieces: text, or
('ap', 'fmt', term, precision) for a number that is not a constant."""
from absint import *
import absint as A

CLS = {'std::basic_ostream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::ostream', 'std::basic_istringstream',
       'std::basic_istream', 'std::basic_iostream', 'std::basic_ios', 'std::ios_base', 'std::basic_ofstream', 'std::stringstream', 'std::ostringstream'}


def new(text='', exceptions=None):
    return rec('stream', {'buf': ('vec', (Sx(text),) if text else ()), 'prec': I(6), 'w': I(0), 'fill': I(32), 'mode': Sx(''), 'rd': I(0)})


def is_stream(v):
    return isinstance(v, tuple) and v and v[0] == 'rec' and v[1] == 'stream'


def merge(pieces):
    out = []
    for p in pieces:
        if p[0] == 's' and out and out[-1][0] == 's':
            out[-1] = Sx(out[-1][1] + p[1])
        elif not (p[0] == 's' and not p[1]):
            out.append(p)
    return tuple(out)


def pieces(v):
    """pieces of a string value, None when it is none"""
    if v[0] == 's':
        return (v,)
    if v[0] == 'ap' and v[1] == 'cat':
        return v[2:]
    if v[0] == 'ap' and v[1] == 'to_string':
        return (ap('fmt', v[2], Sx('to_string')),)
    return None


def text(ps):
    ps = merge(ps)
    return Sx('') if not ps else ps[0] if len(ps) == 1 and ps[0][0] == 's' else ap('cat', *ps)


def cat(a, b):
    x, y = pieces(a), pieces(b)
    return text(x + y) if x is not None and y is not None else None


def fmt(x, prec, mode):
    if mode == 'fixed':
        return '%.*f' % (prec, x)
    if mode == 'scientific':
        return '%.*e' % (prec, x)
    return '%.*g' % (prec or 1, x)


def piece(st, v, t):
    """what operator<< appends for a value of type t"""
    b = strip_t(t)
    prec, mode = num(rget(st, 'prec')), rget(st, 'mode')[1]
    if v[0] == 'ap' and v[1] in ('cat',):
        return v[2:]
    if v[0] == 's':
        return (v,)
    if v[0] in ('i', 'e', 'b', 'f'):
        n = v[3] if v[0] == 'e' else v[1]
        if b in ('char', 'signed char', 'unsigned char'):
            return (Sx(chr(int(n) & 255)),)
        if v[0] == 'b' and 'boolalpha' in mode:
            return (Sx('true' if n else 'false'),)
        if b in ('double', 'float', 'long double') or v[0] == 'f':
            return (Sx(fmt(float(n), prec, mode)),)
        return (Sx(str(int(n))),)
    if b in ('double', 'float', 'long double') or v[0] in ('sym', 'ap', 'fld'):
        return (ap('fmt', v, I(prec), Sx(mode)),)
    return None


def put(st, v, t):
    """stream after `<< v`, None when not modelled"""
    if v[0] == 'ap' and v[1] == 'manip':
        k = v[2][1]
        if k == 'endl':
            return rset(st, 'buf', ('vec', merge(rget(st, 'buf')[1] + (Sx('\n'),))))
        if k in ('flush', 'left', 'right', 'dec', 'noboolalpha', 'ends', 'noskipws'):
            return st
        if k == 'setprecision':
            return rset(st, 'prec', v[3])
        if k == 'setw':
            return rset(st, 'w', v[3])
        if k == 'setfill':
            return rset(st, 'fill', v[3])
        if k in ('fixed', 'scientific', 'boolalpha', 'defaultfloat'):
            return rset(st, 'mode', Sx('' if k == 'defaultfloat' else k))
        return None
    if num(rget(st, 'prec')) is None:
        return None
    p = piece(st, v, t)
    if p is None:
        return None
    w, fill = num(rget(st, 'w')), num(rget(st, 'fill'))
    if w:
        if len(p) == 1 and p[0][0] == 's':
            p = (Sx(chr(fill) * max(0, w - len(p[0][1])) + p[0][1]),)
        st = rset(st, 'w', I(0))
    return rset(st, 'buf', ('vec', merge(rget(st, 'buf')[1] + tuple(p))))


def getline(st, delim='\n'):
    """(stream, line or None)"""
    els = []
    for p in rget(st, 'buf')[1]:
        els += [Sx(c) for c in p[1]] if p[0] == 's' else [p]
    r = num(rget(st, 'rd'))
    if r >= len(els):
        return st, None
    e = r
    while e < len(els) and els[e] != Sx(delim):
        e += 1
    return rset(st, 'rd', I(e + 1)), text(tuple(els[r:e]))


def method(ip, m, v, vs):
    """-> (new stream or None, result) or None"""
    if m in ('str', 'view') and not vs:
        return None, text(rget(v, 'buf')[1])
    if m == 'str' and len(vs) == 1:
        p = pieces(vs[0])
        return (rset(rset(v, 'buf', ('vec', merge(p))), 'rd', I(0)), ('void',)) if p is not None else None
    if m == 'precision':
        return (rset(v, 'prec', vs[0]), rget(v, 'prec')) if vs else (None, rget(v, 'prec'))
    if m == 'width':
        return (rset(v, 'w', vs[0]), rget(v, 'w')) if vs else (None, rget(v, 'w'))
    if m == 'flush':
        return None, v
    if m == 'put' and vs[0][0] == 'i':
        return rset(v, 'buf', ('vec', merge(rget(v, 'buf')[1] + (Sx(chr(vs[0][1] & 255)),)))), v
    if m in ('good', 'operator bool'):
        return None, TRUE
    if m in ('fail', 'bad', 'operator!'):
        return None, FALSE
    if m == 'flags' or m == 'setf' or m == 'copyfmt':
        return None, ('void',)
    if m == 'seekp' and len(vs) == 2 and num(vs[0]) is not None and num(vs[0]) <= 0:
        # relative to the end: what is written next overwrites the tail (every later write is at least as long here)
        ps = list(rget(v, 'buf')[1])
        n = -num(vs[0])
        while n and ps and ps[-1][0] == 's':
            k = min(n, len(ps[-1][1]))
            ps[-1] = Sx(ps[-1][1][:len(ps[-1][1]) - k])
            n -= k
            ps = list(merge(ps)) if not ps[-1][1] else ps
        return (rset(v, 'buf', ('vec', merge(ps))), v) if not n else None
    return None
