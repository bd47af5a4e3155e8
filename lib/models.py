"""Models of the standard library for the abstract interpreter."""
import math
from absint import *
import absint as A
import strm


def R(s, v, want_lv):
    return (s, ('val', v)) if want_lv else (s, v)


def args(ip, e, st, fr, want_lv, fn):
    out = []
    for s, vs in ip.evs([x for x in e['a'] if x['k'] != 'defarg'], st, fr):
        if vs and vs[-1][0] == 'throwv':
            out.append(R(s, vs[-1], want_lv))
            continue
        r = fn(s, vs)
        if isinstance(r, list):
            out += [R(a, b, want_lv) for a, b in r]
        else:
            out.append(R(s, r, want_lv))
    return out


def ident(ip, e, st, fr, want_lv):
    if want_lv:
        return ip.lv(e['a'][0], st, fr)
    return ip.ev(e['a'][0], st, fr)


def m_get(ip, e, st, fr, want_lv):
    ta = e.get('ta', [])
    out = []
    try:
        idx = int(str(ta[0]).rstrip('UuLl'))
    except (ValueError, IndexError):
        idx = None
    for s, l in ip.lv(e['a'][0], st, fr):
        if idx is not None and l[0] != 'val':
            cur = ip.load(s, l)
            step = ('f', ('first', 'second')[idx]) if cur[0] == 'rec' and cur[1] == 'std::pair' else (('i', I(idx)) if cur[0] == 'vec' else ('f', 'get%d' % idx))
            nl = (l[0], l[1] + (step,))
            out.append((s, nl) if want_lv else (s, ip.load(s, nl)))
        else:
            v = l[1] if l[0] == 'val' else ip.load(s, l)
            if idx is not None:
                step = ('f', ('first', 'second')[idx]) if v[0] == 'rec' and v[1] == 'std::pair' else (('i', I(idx)) if v[0] == 'vec' else ('f', 'get%d' % idx))
                out.append(R(s, ip.proj(v, step), want_lv))
            else:
                # get<T>(variant)
                out.append(R(s, v, want_lv))
    return out


def mathfn(name, pyf):
    def f(ip, e, st, fr, want_lv):
        def g(s, vs):
            v = vs[0]
            n = A.num(v)
            if v[0] == 'rec' and v[1] == 'std::complex':
                return ap(name, v)
            if n is not None:
                if n != n or n in (math.inf, -math.inf) and name in ('round', 'nearbyint', 'rint', 'trunc', 'floor', 'ceil', 'sqrt', 'fabs'):
                    return Fl(n)
                try:
                    return Fl(pyf(float(n)))
                except (ValueError, OverflowError):
                    return ap(name, v)
            return ap(name, v)
        return args(ip, e, st, fr, want_lv, g)
    return f


def m_abs(ip, e, st, fr, want_lv):
    def g(s, vs):
        n = A.num(vs[0])
        if n is not None:
            return (vs[0][0], abs(n)) if vs[0][0] in 'if' else ap('abs', vs[0])
        return ap('abs', vs[0])
    return args(ip, e, st, fr, want_lv, g)


def m_pow(ip, e, st, fr, want_lv):
    def g(s, vs):
        a, b = A.num(vs[0]), A.num(vs[1])
        if a is not None and b is not None:
            try:
                return Fl(float(a) ** float(b))
            except Exception:
                pass
        return ap('pow', *vs)
    return args(ip, e, st, fr, want_lv, g)


def m_functor(op):
    def f(ip, e, st, fr, want_lv):
        return args(ip, e, st, fr, want_lv, lambda s, vs: ip.binop(op, vs[-2], vs[-1]))
    return f


def m_minmax(op):
    def f(ip, e, st, fr, want_lv):
        def g(s, vs):
            if len(vs) == 1 and vs[0][0] == 'vec' and vs[0][1] and all(A.num(x) is not None for x in vs[0][1]):
                return (min if op == 'min' else max)(vs[0][1], key=A.num)
            if len(vs) >= 2:
                a, b = A.num(vs[0]), A.num(vs[1])
                if a is not None and b is not None:
                    return vs[0] if (a <= b) == (op == 'min') else vs[1]
            return ap(op, *vs)
        return args(ip, e, st, fr, want_lv, g)
    return f


def m_make_pair(ip, e, st, fr, want_lv):
    return args(ip, e, st, fr, want_lv, lambda s, vs: rec('std::pair', {'first': vs[0], 'second': vs[1]}))


def m_tuple(ip, e, st, fr, want_lv):
    return args(ip, e, st, fr, want_lv, lambda s, vs: ('vec', tuple(vs)))


def m_make_optional(ip, e, st, fr, want_lv):
    return args(ip, e, st, fr, want_lv, lambda s, vs: ('opt', vs[0]))


def m_make_ptr(ip, e, st, fr, want_lv):
    """std::make_unique / make_shared <T>(args): construct T"""
    T = e['ta'][0] if e.get('ta') else '?'
    bt = base_name(T)
    out = []
    a = e['a']
    hk = ip.hooks.get('make:' + bt)
    if hk is not None:
        r = hk(ip, e, st, fr, want_lv)
        if r is not None:
            return r
    res = construct_T(ip, T, a, st, fr, e)
    for s, v in res:
        if v[0] == 'throwv':
            out.append(R(s, v, want_lv))
            continue
        s = s.copy()
        loc = ip.new_root(s, v, 'heap')
        out.append(R(s, ('ptr', loc), want_lv))
    return out


def param_classes(t):
    t = strip_t(t)
    return t


NUMT = ('double', 'float', 'int', 'long', 'unsigned int', 'unsigned long', 'bool', 'short', 'unsigned short',
        'unsigned char', 'char', 'signed char', 'long long', 'unsigned long long')


def compat(pt, at, ip):
    """rough overload compatibility score of parameter type pt with argument type at"""
    p, a = strip_t(pt), strip_t(at)
    if p == a:
        return 3
    bp, ba = base_cls(p), base_cls(a)
    if bp == ba and bp.startswith('std::'):
        return 2
    if p in NUMT and (a in NUMT or a in ip.F.enums):
        return 1
    if bp in ip.F.cls_by_name and ba in ip.F.cls_by_name:
        if ip.derives(ba, bp):
            return 2
        # converting constructor
    if bp in ip.F.cls_by_name:
        for c in ip.F.cls_by_name[bp]:
            for m in c['methods']:
                if m.get('ctor') and m.get('ps') and strip_t(m['ps'][0]['t']) == a or \
                   (m.get('ctor') and m.get('ps') and strip_t(m['ps'][0]['t']) in NUMT and a in NUMT):
                    return 1
    if bp in ('std::basic_string', 'std::string') and ('char' in a):
        return 1
    if bp == 'std::optional':
        return 1
    if bp in ('std::vector', 'std::set') and a.startswith('std::initializer'):
        return 1
    if bp in ('std::unique_ptr', 'std::shared_ptr') and ba in ('std::unique_ptr', 'std::shared_ptr', 'nullptr_t'):
        return 1
    if p.endswith('*') and a.endswith('*'):
        return 1
    return 0


def pick_ctor(ip, T, a):
    best = None
    for nm in (T, base_name(T)):
        for c in ip.F.cls_by_name.get(nm, []):
            for m in c['methods']:
                if not m.get('ctor') or m.get('deleted'):
                    continue
                ps = m['ps']
                if len(a) > len(ps):
                    continue
                if any(not p.get('def') for p in ps[len(a):]):
                    continue
                sc = [compat(p['t'], x.get('t', ''), ip) for p, x in zip(ps, a)]
                if any(x == 0 for x in sc):
                    continue
                k = (sum(sc), -len(ps))
                if best is None or k > best[0]:
                    best = (k, m, c)
    return best


def construct_T(ip, T, a, st, fr, e):
    bt = base_name(T)
    if ip.opaque(T, T) or ip.opaque(bt, bt):
        out = []
        for s, vs in ip.evs(a, st, fr):
            if vs and vs[-1][0] == 'throwv':
                out.append((s, vs[-1]))
                continue
            s = s.copy()
            s.event('ctor', bt, vs, e.get('l'))
            out.append((s, ap('ctor:' + bt, *vs)))
        return out
    b = pick_ctor(ip, T, a)
    if b is not None:
        m, c = b[1], b[2]
        f = ip.F.functions.get(m['u'])
        fake = {'k': 'ctor', 'n': c['n'], 'u': m['u'], 'a': list(a), 'l': e.get('l'), 't': T}
        if m.get('sp') in ('copy', 'move') and (f is None or f.get('defaulted')):
            fake['copy'] = True
        if f is not None and len(a) < len(f['ps']):
            fake['a'] = list(a) + [{'k': 'defarg', 'e': p['dv'], 't': p['t']} for p in f['ps'][len(a):] if 'dv' in p]
        return ip.e_ctor(fake, st, fr)
    if bt in A.SEQ or bt in A.MAPS or bt.startswith('std::'):
        return ip.e_ctor({'k': 'ctor', 'n': T, 'u': '', 'a': list(a), 't': T, 'l': e.get('l')}, st, fr)
    out = []
    for s, vs in ip.evs(a, st, fr):
        if vs and vs[-1][0] == 'throwv':
            out.append((s, vs[-1]))
            continue
        cl = ip.F.cls_by_name.get(bt)
        if cl and not a:
            out += ip.default_obj(cl[0], s, fr)
            continue
        if cl and all('ctor' not in m or m.get('implicit') for m in cl[0]['methods']):
            out.append((s, ip.make_aggr(T, vs, s, fr)))
            continue
        s = s.copy()
        s.event('ctor', bt, vs, e.get('l'))
        out.append((s, ap('ctor:' + bt, *vs)))
    return out


def m_swap(ip, e, st, fr, want_lv):
    out = []
    for s, l1 in ip.lv(e['a'][0], st, fr):
        for s2, l2 in ip.lv(e['a'][1], s, fr):
            s3 = s2.copy()
            if l1[0] == 'val' or l2[0] == 'val':
                s3.event('call', 'std::swap', (l1[1] if l1[0] == 'val' else ip.load(s3, l1), l2[1] if l2[0] == 'val' else ip.load(s3, l2)), e.get('l'))
            else:
                a, b = ip.load(s3, l1), ip.load(s3, l2)
                ip.save(s3, l1, b)
                ip.save(s3, l2, a)
            out.append(R(s3, ('void',), want_lv))
    return out


def m_begin(ip, e, st, fr, want_lv):
    return seq_iter(ip, ip.lv(e['a'][0], st, fr), 'begin', want_lv)


def m_end(ip, e, st, fr, want_lv):
    return seq_iter(ip, ip.lv(e['a'][0], st, fr), 'end', want_lv)


def seq_iter(ip, locs, which, want_lv):
    out = []
    for s, l in locs:
        v = l[1] if l[0] == 'val' else ip.load(s, l)
        if v[0] == 'ptr':
            l = v[1]
            v = ip.load(s, l)
        w = which.lstrip('c')
        if v[0] == 'vec':
            el = v[1]
            lo = l if l[0] != 'val' else None
            if w in ('rbegin', 'rend'):
                el = tuple(reversed(el))
                lo = lo and (lo[0], lo[1] + (('rev', None),))
            out.append(R(s, ('it', el, 0 if w in ('begin', 'rbegin') else len(el), lo), want_lv))
        elif v[0] == 'map':
            el = tuple(rec('std::pair', {'first': a, 'second': b}) for a, b in v[1])
            lo = (l[0], l[1] + (('pairs', None),)) if l[0] != 'val' else None
            if w in ('rbegin', 'rend'):
                el = tuple(reversed(el))
                lo = lo and (lo[0], lo[1] + (('rev', None),))
            out.append(R(s, ('it', el, 0 if w in ('begin', 'rbegin') else len(el), lo), want_lv))
        else:
            out.append(R(s, ap(w, v), want_lv))
    return out


def m_quant(kind):
    def f(ip, e, st, fr, want_lv):
        out = []
        for s, vs in ip.evs(e['a'], st, fr):
            if vs[-1][0] == 'throwv':
                out.append(R(s, vs[-1], want_lv))
                continue
            a, b, p = vs[0], vs[1], vs[2]
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and p[0] == 'lam':
                cur = [(s, TRUE if kind in ('all_of', 'none_of') else FALSE)]
                states = [s]
                res = []
                for i in range(a[2], b[2]):
                    nxt = []
                    for c in states:
                        c = c.copy()
                        l = ip.new_root(c, a[1][i], 'el')
                        for c2, v in call_lam(ip, p, [l], c):
                            for c3, t in ip.branch(c2, v):
                                if kind == 'all_of' and not t:
                                    res.append((c3, FALSE))
                                elif kind == 'any_of' and t:
                                    res.append((c3, TRUE))
                                elif kind == 'none_of' and t:
                                    res.append((c3, FALSE))
                                else:
                                    nxt.append(c3)
                    states = nxt
                end = FALSE if kind == 'any_of' else TRUE
                out += [R(c, v, want_lv) for c, v in res] + [R(c, end, want_lv) for c in states]
            else:
                key = tuple(vs[:2]) + (sym(lam_key(p)),)
                out.append(R(s, ap(kind, *key), want_lv))
        return out
    return f


def lam_key(p):
    import json
    if p[0] == 'lam':
        def clean(n):
            if isinstance(n, dict):
                return {k: clean(v) for k, v in n.items() if k not in ('l', 'el', 'id', 'u')}
            if isinstance(n, list):
                return [clean(x) for x in n]
            return n
        import hashlib
        return 'lam:' + hashlib.sha1(json.dumps(clean(p[1].node.get('body')), sort_keys=True).encode()).hexdigest()[:10]
    return repr(p)


def call_lam(ip, lam, locs, st):
    node, cfr = lam[1].node, lam[1].frame
    ps, body = node['ps'], node['body']
    if node.get('insts'):
        ps, body = node['insts'][0]['ps'], node['insts'][0]['body']
    nf = Frame(None, cfr.this, cfr)
    st = st.copy()
    st = ip.bind_caps(node, st, nf, cfr)
    for p, l in zip(ps, locs):
        ip.bindvar(st, nf, p['id'], l)
    ip.depth += 1
    try:
        rs = ip.run_body({'body': body}, st, nf, False)
    finally:
        ip.depth -= 1
    return [(s, oc[1] if oc[0] == 'return' else (('throwv', oc[1]) if oc[0] == 'throw' else ('void',))) for s, oc in rs]


def m_for_each(ip, e, st, fr, want_lv):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        a, b, p = vs[0], vs[1], vs[2]
        if a[0] == 'it' and b[0] == 'it' and p[0] == 'lam':
            states = [s]
            for i in range(a[2], b[2]):
                nxt = []
                for c in states:
                    c = c.copy()
                    l = (a[3][0], a[3][1] + (('i', I(i)),)) if a[3] else ip.new_root(c, a[1][i], 'el')
                    nxt += [x for x, _ in call_lam(ip, p, [l], c)]
                states = nxt
            out += [R(c, ('void',), want_lv) for c in states]
        else:
            s = s.copy()
            if p[0] == 'lam':
                l = ip.new_root(s, ap('elem', a), 'el')
                s.event('loop', e.get('l'))
                for c, v in call_lam(ip, p, [l], s):
                    out.append(R(c, ('void',), want_lv))
            else:
                out.append(R(s, ('void',), want_lv))
    return out


def m_find(ip, e, st, fr, want_lv):
    def g(s, vs):
        a, b, x = vs[:3]
        if a[0] == 'it' and b[0] == 'it':
            res = []
            cur = s
            for i in range(a[2], b[2]):
                c = ip.binop('==', a[1][i], x)
                k = ip.known(cur, c)
                if k is True:
                    return res + [(cur, ('it', a[1], i, a[3]))]
                if k is None:
                    res.append((ip.assume(cur, c, True), ('it', a[1], i, a[3])))
                    cur = ip.assume(cur, c, False)
            return res + [(cur, b)]
        return ap('std::find', *vs)
    return args(ip, e, st, fr, want_lv, g)


def m_manip(k):
    return lambda ip, e, st, fr, want_lv: args(ip, e, st, fr, want_lv, lambda s, vs: ap('manip', Sx(k), *vs))


def m_getline(ip, e, st, fr, want_lv):
    out = []
    for s, l in ip.lv(e['a'][0], st, fr):
        for s2, d in ip.lv(e['a'][1], s, fr):
            v = l[1] if l[0] == 'val' else ip.load(s2, l)
            if not strm.is_stream(v) or l[0] == 'val' or d[0] == 'val':
                return None
            nv, line = strm.getline(v)
            s2 = s2.copy()
            ip.save(s2, l, nv)
            if line is not None:
                ip.save(s2, d, line)
            out.append(R(s2, FALSE if line is None else TRUE, want_lv))
    return out


def m_tostring(ip, e, st, fr, want_lv):
    def g(s, vs):
        n = A.num(vs[0])
        if n is not None and vs[0][0] == 'i':
            return Sx(str(n))
        return ap('to_string', vs[0])
    return args(ip, e, st, fr, want_lv, g)


def m_throw(ip, e, st, fr, want_lv):
    return args(ip, e, st, fr, want_lv, lambda s, vs: ('throwv', 'noreturn'))


def m_polar(ip, e, st, fr, want_lv):
    def g(s, vs):
        r = vs[0]
        th = vs[1] if len(vs) > 1 else Fl(0)
        return rec('std::complex', {'re': ip.binop('*', r, fold('cos', th)), 'im': ip.binop('*', r, fold('sin', th))})
    return args(ip, e, st, fr, want_lv, g)


def fold(fn, v):
    n = A.num(v)
    if n is not None:
        return Fl(getattr(math, fn)(float(n)))
    return ap(fn, v)


def cre(v):
    return A.rget(v, 're') if v[0] == 'rec' else v


def cim(v):
    return A.rget(v, 'im') if v[0] == 'rec' else Fl(0)


def is_c(v):
    return v[0] == 'rec' and v[1] == 'std::complex'


def m_exp(ip, e, st, fr, want_lv):
    def g(s, vs):
        v = vs[0]
        if is_c(v):
            r, i = cre(v), cim(v)
            m = Fl(1.0) if A.num(r) == 0 else ap('exp', r)
            return rec('std::complex', {'re': ip.binop('*', m, fold('cos', i)), 'im': ip.binop('*', m, fold('sin', i))})
        return fold('exp', v)
    return args(ip, e, st, fr, want_lv, g)


def cop(ip, op, a, b):
    if op in ('+', '-'):
        if not is_c(a) and not is_c(b):
            return ip.binop(op, a, b)
        return rec('std::complex', {'re': ip.binop(op, cre(a), cre(b)), 'im': ip.binop(op, cim(a), cim(b)) if is_c(b) else cim(a)})
    if op == '*':
        ar, ai, br, bi = cre(a), cim(a), cre(b), cim(b)
        if not is_c(a):
            return rec('std::complex', {'re': ip.binop('*', a, br), 'im': ip.binop('*', a, bi)})
        if not is_c(b):
            return rec('std::complex', {'re': ip.binop('*', ar, b), 'im': ip.binop('*', ai, b)})
        return rec('std::complex', {'re': ip.binop('-', ip.binop('*', ar, br), ip.binop('*', ai, bi)),
                                    'im': ip.binop('+', ip.binop('*', ar, bi), ip.binop('*', ai, br))})
    if op == '/' and not is_c(b):
        return rec('std::complex', {'re': ip.binop('/', cre(a), b), 'im': ip.binop('/', cim(a), b)})
    return ap('c' + op, a, b)


def m_conj(ip, e, st, fr, want_lv):
    def g(s, vs):
        if is_c(vs[0]):
            return rec('std::complex', {'re': cre(vs[0]), 'im': ip.unop('-', cim(vs[0]))})
        return ap('conj', vs[0])
    return args(ip, e, st, fr, want_lv, g)


def m_visit(ip, e, st, fr, want_lv):
    return None


def m_hasalt(ip, e, st, fr, want_lv):
    ta = (e.get('ta') or ['?'])[0]

    def g(s, vs):
        v = vs[0]
        if v[0] in ('f', 'i', 'b'):
            return ('b', A.base_cls(ta) in {'f': ('double', 'float'), 'b': ('bool',), 'i': ('int', 'unsigned int', 'long', 'unsigned long', 'std::size_t')}[v[0]])
        if v[0] == 'rec':
            return ('b', A.base_cls(ta) == A.base_cls(v[1]))
        return ap('holds:' + ta, v)
    return args(ip, e, st, fr, want_lv, g)


def m_visit(ip, e, st, fr, want_lv):
    """std::visit with one variant: the alternative's dynamic type picks the callable"""
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        if vs[-1][0] == 'throwv':
            out.append(R(s, vs[-1], want_lv))
            continue
        f, v = vs[0], vs[1] if len(vs) == 2 else None
        lams = [f] if f[0] == 'lam' else list(f[1]) if f[0] == 'vec' else [x for _, x in f[3]] if f[0] == 'rec' else []
        want = {'f': ('double', 'float'), 'b': ('bool',), 'i': ('int', 'unsigned int', 'long', 'unsigned long')}.get(v[0] if v else '', ())
        if v is not None and v[0] == 'rec':
            want = (A.base_cls(v[1]),)
        elif v is not None and v[0] == 's':
            want = ('std::basic_string', 'std::string')
        pick = []
        for x in lams:
            if x[0] != 'lam':
                continue
            n = x[1].node
            for ps in [n['ps']] + [i['ps'] for i in n.get('insts', [])]:
                if len(ps) == 1 and A.base_cls(ps[0]['t']) in want:
                    pick.append(x)
                    break
        if len(pick) != 1:
            return None
        for s2, r in call_lam(ip, pick[0], [ip.new_root(s, v, 'alt')], s):
            out.append(R(s2, r, want_lv))
    return out


def m_copyalg(ip, e, st, fr, want_lv):
    return None


def m_distance(ip, e, st, fr, want_lv):
    def g(s, vs):
        if vs[0][0] == 'it' and vs[1][0] == 'it':
            return I(vs[1][2] - vs[0][2])
        return ap('distance', *vs)
    return args(ip, e, st, fr, want_lv, g)


def m_advance_it(n):
    def f(ip, e, st, fr, want_lv):
        def g(s, vs):
            k = A.num(vs[1]) if len(vs) > 1 else 1
            if vs[0][0] == 'it' and k is not None:
                return ip.it_adv(vs[0], n * k)
            return ap('next' if n > 0 else 'prev', *vs)
        return args(ip, e, st, fr, want_lv, g)
    return f


def m_as_const(ip, e, st, fr, want_lv):
    return ident(ip, e, st, fr, want_lv)


def m_empty_fn(ip, e, st, fr, want_lv):
    return None


def it_pair(a, b):
    return a[0] == 'it' and b[0] == 'it' and a[1] == b[1]


def it_range(a, b):
    return a[1][a[2]:b[2]]


def write_range(ip, s, it, i, vals):
    """store vals over positions i.. of the container behind iterator it"""
    if it[3] is None:
        return False
    v = ip.load(s, it[3])
    if v[0] != 'vec':
        return False
    el = v[1][:i] + tuple(vals) + v[1][i + len(vals):]
    ip.save(s, it[3], ('vec', el))
    return True


def m_reverse(ip, e, st, fr, want_lv):
    def g(s, vs):
        a, b = vs[:2]
        if it_pair(a, b) and a[3] is not None:
            cur = ip.load(s, a[3])
            if cur[0] == 'vec' and len(cur[1]) == len(a[1]):
                s2 = s.copy()
                write_range(ip, s2, a, a[2], tuple(reversed(cur[1][a[2]:b[2]])))
                return [(s2, ('void',))]
        s2 = s.copy()
        s2.event('call', 'std::reverse', tuple(vs), e.get('l'))
        return [(s2, ('void',))]
    return args(ip, e, st, fr, want_lv, g)


def m_find_if(ip, e, st, fr, want_lv, neg=False):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        if vs[-1][0] == 'throwv':
            out.append(R(s, vs[-1], want_lv))
            continue
        a, b, p = vs[:3]
        if it_pair(a, b) and p[0] == 'lam':
            states = [s]
            for i in range(a[2], b[2]):
                nxt = []
                for c in states:
                    c = c.copy()
                    l = (a[3][0], a[3][1] + (('i', I(i)),)) if a[3] else ip.new_root(c, a[1][i], 'el')
                    for c2, v in call_lam(ip, p, [l], c):
                        for c3, t in ip.branch(c2, v):
                            if t != neg:
                                out.append(R(c3, ('it', a[1], i, a[3]), want_lv))
                            else:
                                nxt.append(c3)
                states = nxt
            out += [R(c, b, want_lv) for c in states]
        else:
            out.append(R(s, ap('find_if', vs[0], vs[1], sym(lam_key(p))), want_lv))
    return out


def m_count_if(ip, e, st, fr, want_lv):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        a, b, p = vs[:3]
        if it_pair(a, b) and p[0] == 'lam':
            states = [(s, 0)]
            for x in it_range(a, b):
                nxt = []
                for c, n in states:
                    c = c.copy()
                    l = ip.new_root(c, x, 'el')
                    for c2, v in call_lam(ip, p, [l], c):
                        for c3, t in ip.branch(c2, v):
                            nxt.append((c3, n + (1 if t else 0)))
                states = nxt
            out += [R(c, I(n), want_lv) for c, n in states]
        else:
            out.append(R(s, ap('count_if', vs[0], vs[1], sym(lam_key(p))), want_lv))
    return out


def m_count(ip, e, st, fr, want_lv):
    def g(s, vs):
        a, b, x = vs[:3]
        if it_pair(a, b):
            ts = [ip.known(s, ip.binop('==', y, x)) for y in it_range(a, b)]
            if None not in ts:
                return I(sum(1 for t in ts if t))
        return ap('count', *vs)
    return args(ip, e, st, fr, want_lv, g)


def m_transform(ip, e, st, fr, want_lv):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        if vs[-1][0] == 'throwv':
            out.append(R(s, vs[-1], want_lv))
            continue
        a, b, o = vs[:3]
        p = vs[-1]
        if it_pair(a, b) and p[0] == 'lam' and len(vs) == 4:
            states = [(s, ())]
            for i in range(a[2], b[2]):
                nxt = []
                for c, acc in states:
                    c = c.copy()
                    l = (a[3][0], a[3][1] + (('i', I(i)),)) if a[3] else ip.new_root(c, a[1][i], 'el')
                    for c2, v in call_lam(ip, p, [l], c):
                        nxt.append((c2, acc + (v,)))
                states = nxt
            for c, acc in states:
                c = c.copy()
                emit(ip, c, o, acc, e)
                out.append(R(c, ('void',), want_lv))
        else:
            s = s.copy()
            s.event('call', 'std::transform', tuple(vs), e.get('l'))
            out.append(R(s, ('void',), want_lv))
    return out


def emit(ip, s, o, acc, e):
    """write acc through output iterator o"""
    if o[0] == 'backins' and o[1][0] != 'val':
        v = ip.load(s, o[1])
        if v[0] == 'vec':
            ip.save(s, o[1], ('vec', v[1] + tuple(acc)))
            return
    if o[0] == 'it' and write_range(ip, s, o, o[2], acc):
        return
    s.event('call', 'std::output', (o,) + tuple(acc), e.get('l'))


def m_copy(ip, e, st, fr, want_lv):
    def g(s, vs):
        a, b, o = vs[:3]
        s2 = s.copy()
        if it_pair(a, b):
            emit(ip, s2, o, it_range(a, b), e)
        else:
            s2.event('call', 'std::copy', tuple(vs), e.get('l'))
        return [(s2, ('void',))]
    return args(ip, e, st, fr, want_lv, g)


def m_move(ip, e, st, fr, want_lv):
    return m_copy(ip, e, st, fr, want_lv) if len(e['a']) == 3 else ident(ip, e, st, fr, want_lv)


def m_copy_if(ip, e, st, fr, want_lv):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        a, b, o, p = vs[:4]
        if it_pair(a, b) and p[0] == 'lam':
            states = [(s, ())]
            for x in it_range(a, b):
                nxt = []
                for c, acc in states:
                    c = c.copy()
                    l = ip.new_root(c, x, 'el')
                    for c2, v in call_lam(ip, p, [l], c):
                        for c3, t in ip.branch(c2, v):
                            nxt.append((c3, acc + ((x,) if t else ())))
                states = nxt
            for c, acc in states:
                c = c.copy()
                emit(ip, c, o, acc, e)
                out.append(R(c, ('void',), want_lv))
        else:
            s = s.copy()
            s.event('call', 'std::copy_if', tuple(vs), e.get('l'))
            out.append(R(s, ('void',), want_lv))
    return out


def m_back_inserter(ip, e, st, fr, want_lv):
    return [R(s, ('backins', l), want_lv) for s, l in ip.lv(e['a'][0], st, fr)]


def m_accumulate(ip, e, st, fr, want_lv):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        if vs[-1][0] == 'throwv':
            out.append(R(s, vs[-1], want_lv))
            continue
        a, b, init = vs[:3]
        p = vs[3] if len(vs) > 3 else None
        if it_pair(a, b) and (p is None or p[0] == 'lam'):
            states = [(s, init)]
            for x in it_range(a, b):
                nxt = []
                for c, acc in states:
                    if p is None:
                        nxt.append((c, ip.binop('+', acc, x)))
                        continue
                    c = c.copy()
                    l1, l2 = ip.new_root(c, acc, 'acc'), ip.new_root(c, x, 'el')
                    nxt += call_lam(ip, p, [l1, l2], c)
                states = nxt
            out += [R(c, v, want_lv) for c, v in states]
        else:
            out.append(R(s, ap('accumulate', *[v if v[0] != 'lam' else sym(lam_key(v)) for v in vs]), want_lv))
    return out


def m_iota(ip, e, st, fr, want_lv):
    def g(s, vs):
        a, b, x = vs[:3]
        s2 = s.copy()
        if it_pair(a, b) and A.num(x) is not None:
            write_range(ip, s2, a, a[2], [I(A.num(x) + i) for i in range(b[2] - a[2])])
        else:
            s2.event('call', 'std::iota', tuple(vs), e.get('l'))
        return [(s2, ('void',))]
    return args(ip, e, st, fr, want_lv, g)


def m_fill(ip, e, st, fr, want_lv):
    def g(s, vs):
        a, b, x = vs[:3]
        s2 = s.copy()
        if it_pair(a, b):
            write_range(ip, s2, a, a[2], [x] * (b[2] - a[2]))
        else:
            s2.event('call', 'std::fill', tuple(vs), e.get('l'))
        return [(s2, ('void',))]
    return args(ip, e, st, fr, want_lv, g)


def m_sort(ip, e, st, fr, want_lv):
    def g(s, vs):
        a, b = vs[:2]
        s2 = s.copy()
        if it_pair(a, b) and a[3] is not None and len(vs) == 2:
            cur = ip.load(s2, a[3])
            if cur[0] == 'vec':
                sub = cur[1][a[2]:b[2]]
                ks = [sort_key(x) for x in sub]
                if None not in ks:
                    write_range(ip, s2, a, a[2], [x for _, x in sorted(zip(ks, sub), key=lambda t: t[0])])
                    return [(s2, ('void',))]
        if it_pair(a, b) and a[3] is not None and len(vs) == 3 and vs[2][0] == 'lam' and b[2] - a[2] <= 6:
            cur = ip.load(s2, a[3])
            if cur[0] == 'vec':
                out = []
                for c, sub in sort_lam(ip, s2, vs[2], list(cur[1][a[2]:b[2]])):
                    c = c.copy()
                    write_range(ip, c, a, a[2], sub)
                    out.append((c, ('void',)))
                return out
        s2.event('call', 'std::sort', tuple(v if v[0] != 'lam' else sym(lam_key(v)) for v in vs), e.get('l'))
        if a[0] == 'it' and a[3] is not None and len(a[1]) > 1:
            ip.save(s2, a[3], ap('sorted', ip.load(s2, a[3])))
        return [(s2, ('void',))]
    return args(ip, e, st, fr, want_lv, g)


def ask(ip, s, lam, xs):
    """(state, bool) outcomes of calling a predicate on values"""
    s = s.copy()
    ls = [ip.new_root(s, x, 'el') for x in xs]
    for c, v in call_lam(ip, lam, ls, s):
        if v[0] == 'throwv':
            raise A.TooComplex("throwing predicate")
        yield from ip.branch(c, v)


def sort_lam(ip, s, lam, xs):
    """insertion sort with the program's comparator; forks on undecided comparisons"""
    states = [(s, [])]
    for x in xs:
        nxt = []
        for c, done in states:
            todo = [(c, len(done))]
            while todo:
                c1, i = todo.pop()
                if i == 0:
                    nxt.append((c1, [x] + done))
                    continue
                for c2, less in ask(ip, c1, lam, [x, done[i - 1]]):
                    if less:
                        todo.append((c2, i - 1))
                    else:
                        nxt.append((c2, done[:i] + [x] + done[i:]))
        states = nxt
    return states


def m_remove(lam):
    def f(ip, e, st, fr, want_lv):
        out = []
        for s, vs in ip.evs(e['a'], st, fr):
            a, b, p = vs[:3]
            if not (it_pair(a, b) and a[3] is not None and (not lam or p[0] == 'lam')):
                out.append(R(s, ap('call:std::remove', *vs), want_lv))
                continue
            states = [(s, [], [])]
            for x in it_range(a, b):
                nxt = []
                for c, keep, drop in states:
                    if lam:
                        for c2, t in ask(ip, c, p, [x]):
                            nxt.append((c2, keep, drop + [x]) if t else (c2, keep + [x], drop))
                    else:
                        for c2, t in ip.branch(c, ip.binop('==', x, p)):
                            nxt.append((c2, keep, drop + [x]) if t else (c2, keep + [x], drop))
                states = nxt
            for c, keep, drop in states:
                c = c.copy()
                write_range(ip, c, a, a[2], keep + drop)
                cur = ip.load(c, a[3])
                out.append(R(c, ('it', cur[1], a[2] + len(keep), a[3]), want_lv))
        return out
    return f


def m_bound(upper):
    def f(ip, e, st, fr, want_lv):
        out = []
        for s, vs in ip.evs(e['a'], st, fr):
            if vs[-1][0] == 'throwv':
                out.append(R(s, vs[-1], want_lv))
                continue
            a, b, x = vs[:3]
            lam = vs[3] if len(vs) > 3 else None
            if not it_pair(a, b) or (lam is not None and lam[0] != 'lam'):
                out.append(R(s, ap('bound', *[v if v[0] != 'lam' else sym(lam_key(v)) for v in vs]), want_lv))
                continue
            states = [s]
            for i in range(a[2], b[2]):
                nxt = []
                for c in states:
                    if lam is None:
                        rs = ip.branch(c, ip.binop('<', x, a[1][i]) if upper else ip.binop('<', a[1][i], x))
                    else:
                        rs = ask(ip, c, lam, [x, a[1][i]] if upper else [a[1][i], x])
                    for c2, t in rs:
                        if t != upper:
                            nxt.append(c2)
                        else:
                            out.append(R(c2, ('it', a[1], i, a[3]), want_lv))
                states = nxt
            out += [R(c, ('it', a[1], b[2], a[3]), want_lv) for c in states]
        return out
    return f


def sort_key(v):
    """a Python ordering key for ground values, None if unordered/not ground"""
    n = A.num(v)
    if n is not None:
        return n
    if v[0] == 's':
        return v[1]
    if v[0] == 'vec':
        ks = [sort_key(x) for x in v[1]]
        return None if None in ks else tuple(ks)
    if v[0] == 'rec' and v[2] is None and v[3]:
        if v[1] == 'std::pair':
            ks = [sort_key(A.rget(v, 'first')), sort_key(A.rget(v, 'second'))]
            return None if None in ks else tuple(ks)
        if v[1] == 'qc::Control':
            ks = [sort_key(A.rget(v, 'qubit')), sort_key(A.rget(v, 'type'))]
            return None if None in ks else tuple(ks)
    return None


def ordered(c, el, key=lambda x: x):
    """keep std::set / std::map element tuples in their iteration order"""
    if 'unordered' in c or len(el) < 2:
        return el
    ks = [sort_key(key(x)) for x in el]
    if None in ks or len({type(k) if not isinstance(k, (int, float)) else int for k in ks}) > 1:
        return el
    return tuple(x for _, x in sorted(zip(ks, el), key=lambda t: t[0]))


def m_equal(ip, e, st, fr, want_lv):
    out = []
    for s, vs in ip.evs(e['a'], st, fr):
        a, b, o = vs[:3]
        p = vs[-1] if vs[-1][0] == 'lam' else None
        o2 = vs[3] if len(vs) > 3 and vs[3][0] == 'it' else None
        if it_pair(a, b) and o[0] == 'it' and (len(vs) == 3 or p is not None or o2 is not None):
            if o2 is not None and o2[2] - o[2] != b[2] - a[2]:
                out.append(R(s, FALSE, want_lv))
                continue
            states = [s]
            for i in range(b[2] - a[2]):
                nxt = []
                for c in states:
                    c = c.copy()
                    x, y = a[1][a[2] + i], ip.deref_it(('it', o[1], o[2] + i, o[3]))
                    if p is None:
                        rs = [(c, ip.binop('==', x, y))]
                    else:
                        rs = call_lam(ip, p, [ip.new_root(c, x, 'x'), ip.new_root(c, y, 'y')], c)
                    for c2, v in rs:
                        for c3, t in ip.branch(c2, v):
                            if t:
                                nxt.append(c3)
                            else:
                                out.append(R(c3, FALSE, want_lv))
                states = nxt
            out += [R(c, TRUE, want_lv) for c in states]
        else:
            out.append(R(s, ap('equal', *[v if v[0] != 'lam' else sym(lam_key(v)) for v in vs]), want_lv))
    return out


def m_extremum(kind):
    def f(ip, e, st, fr, want_lv):
        def g(s, vs):
            a, b = vs[:2]
            if it_pair(a, b) and len(vs) == 2:
                ks = [sort_key(x) for x in it_range(a, b)]
                if ks and None not in ks:
                    k = max(ks) if kind == 'max' else min(ks)
                    return ('it', a[1], a[2] + ks.index(k), a[3])
                if not ks:
                    return b
            if it_pair(a, b) and len(vs) == 3 and vs[2][0] == 'lam' and b[2] - a[2] <= 24:
                xs = list(it_range(a, b))
                if not xs:
                    return b
                states = [(s, 0)]
                for i in range(1, len(xs)):
                    nxt = []
                    for c, best in states:
                        for c2, yes in ask(ip, c, vs[2], [xs[best], xs[i]] if kind == 'max' else [xs[i], xs[best]]):
                            nxt.append((c2, i if yes else best))
                    states = nxt
                return [(c, ('it', a[1], a[2] + i, a[3])) for c, i in states]
            return ap(kind + '_element', *[v if v[0] != 'lam' else sym(lam_key(v)) for v in vs])
        return args(ip, e, st, fr, want_lv, g)
    return f


def m_advance(ip, e, st, fr, want_lv):
    out = []
    for s, l in ip.lv(e['a'][0], st, fr):
        for s2, n in ip.ev(e['a'][1], s, fr):
            s3 = s2.copy()
            v = ip.load(s3, l) if l[0] != 'val' else l[1]
            k = A.num(n)
            if l[0] != 'val':
                ip.save(s3, l, ip.it_adv(v, k) if v[0] == 'it' and k is not None else ap('next', v, n))
            out.append(R(s3, ('void',), want_lv))
    return out


def m_fma(ip, e, st, fr, want_lv):
    return args(ip, e, st, fr, want_lv, lambda s, vs: ip.binop('+', ip.binop('*', vs[0], vs[1]), vs[2]))


def m_signbit(ip, e, st, fr, want_lv):
    return args(ip, e, st, fr, want_lv, lambda s, vs: ip.binop('<', vs[0], Fl(0.0)))


MODELS = {
    'std::lower_bound': m_bound(False), 'std::upper_bound': m_bound(True), 'std::stable_sort': m_sort,
    'std::remove_if': m_remove(True), 'std::remove': m_remove(False),
    'std::reverse': m_reverse, 'std::find_if': m_find_if,
    'std::find_if_not': lambda ip, e, st, fr, w: m_find_if(ip, e, st, fr, w, True), 'std::count_if': m_count_if,
    'std::count': m_count, 'std::transform': m_transform, 'std::copy': m_copy, 'std::copy_if': m_copy_if,
    'std::back_inserter': m_back_inserter, 'std::accumulate': m_accumulate, 'std::iota': m_iota, 'std::fill': m_fill,
    'std::sort': m_sort, 'std::equal': m_equal, 'std::max_element': m_extremum('max'),
    'std::min_element': m_extremum('min'), 'std::advance': m_advance, 'std::make_move_iterator': ident,
    'std::fma': m_fma, 'std::signbit': m_signbit,
    'std::move': m_move, 'std::forward': ident, 'std::as_const': ident, 'std::ref': ident, 'std::cref': ident,
    'std::launder': ident,
    'std::get': m_get, 'std::make_pair': m_make_pair, 'std::make_tuple': m_tuple, 'std::tie': m_tuple,
    'std::make_optional': m_make_optional, 'std::make_unique': m_make_ptr, 'std::make_shared': m_make_ptr,
    'std::swap': m_swap, 'std::begin': m_begin, 'std::cbegin': m_begin, 'std::end': m_end, 'std::cend': m_end,
    'std::any_of': m_quant('any_of'), 'std::all_of': m_quant('all_of'), 'std::none_of': m_quant('none_of'),
    'std::for_each': m_for_each, 'std::find': m_find,
    'std::to_string': m_tostring,
    'std::abs': m_abs, 'std::fabs': m_abs, 'abs': m_abs, 'fabs': m_abs, 'std::norm': None,
    'std::pow': m_pow, 'pow': m_pow, 'std::min': m_minmax('min'), 'std::max': m_minmax('max'),
    **{'std::%s::operator()' % k: m_functor(o) for k, o in (('less', '<'), ('greater', '>'), ('less_equal', '<='), ('greater_equal', '>='), ('equal_to', '=='), ('not_equal_to', '!='),
                                                           ('plus', '+'), ('minus', '-'), ('multiplies', '*'), ('divides', '/'))},
    'std::polar': m_polar, 'std::exp': m_exp, 'exp': m_exp, 'std::conj': m_conj,
    'std::holds_alternative': m_hasalt, 'std::visit': m_visit, 'std::distance': m_distance, 'std::next': m_advance_it(1), 'std::prev': m_advance_it(-1),
}
for _n in ('sqrt', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'log', 'log2', 'floor', 'ceil', 'round'):
    MODELS['std::' + _n] = MODELS[_n] = mathfn(_n, getattr(math, _n, None) or (lambda x: float(round(x))))
for _n, _f in (('trunc', lambda x: float(math.trunc(x))), ('nearbyint', lambda x: float(round(x))), ('rint', lambda x: float(round(x))),
               ('round', lambda x: math.copysign(math.floor(abs(x) + .5), x))):
    MODELS['std::' + _n] = MODELS[_n] = mathfn(_n, _f)


def mathpred(name, pyf):
    def f(ip, e, st, fr, want_lv):
        def g(s, vs):
            n = A.num(vs[0])
            return ('b', bool(pyf(float(n)))) if n is not None else ap(name, vs[0])
        return args(ip, e, st, fr, want_lv, g)
    return f


for _n, _f in (('isnan', math.isnan), ('isfinite', math.isfinite), ('isinf', math.isinf)):
    MODELS['std::' + _n] = MODELS[_n] = mathpred(_n, _f)


def mathfn2(name, pyf):
    def f(ip, e, st, fr, want_lv):
        def g(s, vs):
            a, b = A.num(vs[0]), A.num(vs[1]) if len(vs) > 1 else None
            if a is not None and b is not None:
                try:
                    return Fl(pyf(float(a), float(b)))
                except (ValueError, OverflowError):
                    pass
            return ap(name, *vs)
        return args(ip, e, st, fr, want_lv, g)
    return f


for _n, _f in (('fmod', math.fmod), ('remainder', math.remainder), ('hypot', math.hypot), ('atan2', math.atan2), ('copysign', math.copysign)):
    MODELS['std::' + _n] = MODELS[_n] = mathfn2(_n, _f)
MODELS.update({'std::' + k: m_manip(k) for k in ('setprecision', 'setw', 'setfill')})
MODELS['std::getline'] = m_getline
MODELS = {k: v for k, v in MODELS.items() if v}


# ---------------------------------------------------------------- methods
def METHOD_MODELS(ip, c, m, e, st, fr, want_lv):
    if m == 'operator bool' and '_Bit_reference' in c:
        return [R(s, l[1] if l[0] == 'val' else ip.load(s, l), want_lv) for s, l in ip.objloc(e, st, fr)]
    if m in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
        return seq_iter(ip, ip.objloc(e, st, fr), m, want_lv)
    out = []
    a = [x for x in e['a'] if x['k'] != 'defarg']
    for s, l in ip.objloc(e, st, fr):
        v = l[1] if l[0] == 'val' else ip.load(s, l)
        if v[0] == 'throwv':
            out.append(R(s, v, want_lv))
            continue
        for s2, vs in ip.evs(a, s, fr):
            if vs and vs[-1][0] == 'throwv':
                out.append(R(s2, vs[-1], want_lv))
                continue
            r = method1(ip, c, m, v, l, vs, s2, e, want_lv, fr)
            if r is None:
                # opaque library method
                s3 = s2.copy()
                allv = (v,) + vs
                n = c + '::' + m
                s3.event('call', n, allv, e.get('l'))
                if l[0] != 'val' and not e.get('cm'):
                    ip.save(s3, l, ap('after:' + n, *allv))
                out.append(R(s3, ap('call:' + n, *allv), want_lv))
            else:
                out += r
    return out


def method1(ip, c, m, v, l, vs, s, e, want_lv, fr):
    if l[0] != 'val' and vs and v[0] in ('vec', 'map'):
        v = ip.load(s, l)       # the arguments may have changed it
    def val(x, st=None):
        return [R(st or s, x, want_lv)]

    def locof(step):
        if l[0] == 'val':
            return val(ip.proj(v, step))
        nl = (l[0], l[1] + (step,))
        return [(s, nl)] if want_lv else [(s, ip.load(s, nl))]

    def mut(nv, r=('void',)):
        s2 = s.copy()
        if l[0] == 'val':
            s2.event('mutate', m, (v,) + vs, e.get('l'))
        else:
            ip.save(s2, l, nv)
        return [R(s2, r, want_lv)]
    if strm.is_stream(v):
        r = strm.method(ip, m, v, vs)
        if r is not None:
            if r[0] is None:
                if r[1] is v:
                    return [(s, l) if want_lv else (s, v)]
                return val(r[1])
            s2 = s.copy()
            if l[0] != 'val':
                ip.save(s2, l, r[0])
            return [(s2, l) if want_lv and r[1] is v else R(s2, r[0] if r[1] is v else r[1], want_lv)]
    if v[0] == 'b' and m in ('operator bool',):
        return val(v)
    seq = c in A.SEQ or c == 'std::__cxx11::list'
    if c in ('std::stack', 'std::queue'):
        m = {'push': 'push_back', 'emplace': 'emplace_back', 'top': 'back', 'pop': 'pop_back' if c == 'std::stack' else 'pop_front'}.get(m, m)
    mp = c in A.MAPS
    if c in ('std::unique_ptr', 'std::shared_ptr'):
        if m == 'get':
            return val(v)
        if m == 'release':
            return mut(NULL, v)
        if m == 'reset':
            return mut(vs[0] if vs else NULL)
        if m == 'operator bool':
            t = ip.truth(v)
            return val(('b', t) if t is not None else ap('!', ap('==', v, NULL)))
    if c == 'std::reference_wrapper' and m in ('get', 'operator type'):
        if v[0] == 'ptr':
            return [(s, v[1])] if want_lv else [(s, ip.load(s, v[1]))]
        return val(v)
    if c == 'std::optional':
        if m in ('has_value', 'operator bool'):
            if v[0] in ('opt', 'nullopt'):
                return val(('b', v[0] == 'opt'))
            return val(ap('has_value', v))
        if m == 'value' and v[0] == 'opt' and l[0] != 'val' and want_lv:
            return [(s, (l[0], l[1] + (('o', None),)))]
        if m == 'value':
            return val(v[1] if v[0] == 'opt' else (('throwv', 'std::bad_optional_access') if v[0] == 'nullopt' else ap('*', v)))
        if m == 'value_or':
            return val(v[1] if v[0] == 'opt' else (vs[0] if v[0] == 'nullopt' else ap('value_or', v, vs[0])))
        if m == 'reset':
            return mut(('nullopt',))
        if m == 'emplace':
            return mut(('opt', vs[0] if len(vs) == 1 else ap('emplace', *vs)))
    if c == 'std::complex':
        if m == 'real' and not vs:
            return val(A.rget(v, 're') if v[0] == 'rec' else ('fld', v, 're'))
        if m == 'imag' and not vs:
            return val(A.rget(v, 'im') if v[0] == 'rec' else ('fld', v, 'im'))
    if c in ('std::basic_string', 'std::basic_string_view', 'std::string'):
        if m in ('size', 'length'):
            return val(I(len(v[1])) if v[0] == 's' else ap('size', v))
        if m == 'empty':
            return val(('b', not v[1]) if v[0] == 's' else ap('==', ap('size', v), I(0)))
        if m == 'c_str' or m == 'data':
            return val(v)
        if m == 'at' and v[0] == 's' and vs[0][0] == 'i':
            if not 0 <= vs[0][1] < len(v[1]):
                return val(('throwv', 'std::out_of_range'))
            return locof(('i', vs[0]))
        if m == 'back' and v[0] == 's' and v[1]:
            return val(I(ord(v[1][-1])))
        if m == 'front' and v[0] == 's' and v[1]:
            return val(I(ord(v[1][0])))
        if m == 'substr' and v[0] == 's' and all(x[0] == 'i' for x in vs):
            a = vs[0][1] if vs else 0
            b = a + vs[1][1] if len(vs) > 1 else None
            return val(Sx(v[1][a:b]))
        if m == 'compare' and v[0] == 's' and vs and vs[-1][0] == 's' and all(x[0] == 'i' for x in vs[:-1]) and len(vs) in (1, 3):
            x, y = v[1] if len(vs) == 1 else v[1][vs[0][1]:vs[0][1] + vs[1][1]], vs[-1][1]
            return val(('throwv', 'std::out_of_range') if len(vs) == 3 and vs[0][1] > len(v[1]) else I((x > y) - (x < y)))
        if m == 'find' and v[0] == 's' and vs and vs[0][0] == 's':
            i = v[1].find(vs[0][1])
            return val(I(i if i >= 0 else (1 << 64) - 1))
        if m == 'append' and v[0] == 's' and vs and vs[0][0] == 's':
            return mut(Sx(v[1] + vs[0][1]), Sx(v[1] + vs[0][1]))
        if m == 'pop_back' and v[0] == 's':
            return mut(Sx(v[1][:-1]))
        if m == 'starts_with' and v[0] == 's' and vs[0][0] == 's':
            return val(('b', v[1].startswith(vs[0][1])))
        return None
    if seq or mp:
        if m == 'size':
            return val(I(len(v[1])) if v[0] in ('vec', 'map') else ap('size', v))
        if m == 'empty':
            return val(('b', len(v[1]) == 0) if v[0] in ('vec', 'map') else ap('==', ap('size', v), I(0)))
        if m in ('reserve', 'shrink_to_fit'):
            return val(('void',))
        if m == 'clear':
            return mut(('map', ()) if mp else ('vec', ()))
        if m == 'data':
            return val(v)
    if mp and v[0] == 'map':
        if m in ('find', 'count', 'contains', 'at'):
            k = vs[0]
            res = []
            cur = s
            el = tuple(rec('std::pair', {'first': a, 'second': b}) for a, b in v[1])
            ml = (l[0], l[1] + (('pairs', None),)) if l[0] != 'val' else None
            for i, (a, b) in enumerate(v[1]):
                cnd = ip.binop('==', a, k)
                kn = ip.known(cur, cnd)
                if kn is False:
                    continue
                if m == 'at' and want_lv and l[0] != 'val' and kn is True:
                    return res + [(cur, (l[0], l[1] + (('i', a),)))]
                hit = ('it', el, i, ml) if m == 'find' else (I(1) if m == 'count' else TRUE if m == 'contains' else b)
                if kn is True:
                    res.append(R(cur, hit, want_lv))
                    return res
                res.append(R(ip.assume(cur, cnd, True), hit, want_lv))
                cur = ip.assume(cur, cnd, False)
            miss = ('it', el, len(el), ml) if m == 'find' else (I(0) if m == 'count' else FALSE if m == 'contains' else ('throwv', 'std::out_of_range'))
            res.append(R(cur, miss, want_lv))
            return res
        if m in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
            if len(vs) == 2:
                k, x = vs
            elif len(vs) == 1 and vs[0][0] == 'rec':
                k, x = A.rget(vs[0], 'first'), A.rget(vs[0], 'second')
            elif m == 'try_emplace' and len(vs) > 2 and tmpl_arg(e, 1):
                k = vs[0]
                hit = [i for i, (a, b) in enumerate(v[1]) if a == k]
                if hit:
                    return val(rec('std::pair', {'first': map_it(list(v[1]), hit[0], l), 'second': FALSE}))
                ex = [y for y in e['a'] if y['k'] != 'defarg'][1:]
                res = []
                for s2, x in construct_T(ip, tmpl_arg(e, 1), ex, s, fr, e):
                    if x[0] == 'throwv':
                        res.append(R(s2, x, want_lv))
                        continue
                    s3 = s2.copy()
                    items = ordered(c, tuple(v[1]) + ((k, x),), lambda t: t[0])
                    if l[0] != 'val':
                        ip.save(s3, l, ('map', items))
                    res.append(R(s3, rec('std::pair', {'first': map_it(items, [a for a, _ in items].index(k), l), 'second': TRUE}), want_lv))
                return res
            else:
                return None
            items = list(v[1])
            for i, (a, b) in enumerate(items):
                if a == k:
                    if m == 'insert_or_assign':
                        items[i] = (a, x)
                    return mut(('map', tuple(items)), rec('std::pair', {'first': map_it(items, i, l), 'second': FALSE}))
            items.append((k, x))
            items = ordered(c, tuple(items), lambda t: t[0])
            return mut(('map', items), rec('std::pair', {'first': map_it(items, [a for a, _ in items].index(k), l), 'second': TRUE}))
        if m == 'erase' and len(vs) == 1:
            if vs[0][0] == 'it':
                items = [x for i, x in enumerate(v[1]) if i != vs[0][2]]
                return mut(('map', tuple(items)), map_it(items, vs[0][2], l))
            if ground(vs[0]) and all(ground(k) for k, _ in v[1]):
                ne = tuple(x for x in v[1] if x[0] != vs[0])
                return mut(('map', ne), I(len(v[1]) - len(ne)))
    if mp and m == 'at':
        return val(ap('idx', v, vs[0]))
    if seq:
        isset = 'set' in c
        if m == 'at' and not isset:
            if v[0] == 'vec' and A.num(vs[0]) is not None and not 0 <= A.num(vs[0]) < len(v[1]):
                return val(('throwv', 'std::out_of_range'))
            return locof(('i', vs[0]))
        if m == 'front':
            if v[0] == 'vec' and v[1]:
                return locof(('i', I(0)))
            return val(ap('front', v)) if v[0] != 'vec' else val(ap('oob', v))
        if m == 'back':
            if v[0] == 'vec' and v[1]:
                return locof(('i', I(len(v[1]) - 1)))
            return val(ap('back', v)) if v[0] != 'vec' else val(ap('oob', v))
        if v[0] == 'vec':
            el = v[1]
            if m in ('push_back', 'emplace_back') and not isset:
                if m == 'emplace_back' and (len(vs) != 1 or needs_ctor(ip, c, e)):
                    T = elem_type(e)
                    if T:
                        res = []
                        for s2, x in construct_T(ip, T, [y for y in e['a'] if y['k'] != 'defarg'], s, fr, e):
                            if x[0] == 'throwv':
                                res.append(R(s2, x, want_lv))
                                continue
                            s3 = s2.copy()
                            if l[0] != 'val':
                                ip.save(s3, l, ('vec', el + (x,)))
                            res.append(R(s3, x, want_lv))
                        return res
                    return None
                x = vs[0]
                if x[0] not in ('opt', 'nullopt', 'throwv') and base_cls(elem_type(e) or '') == 'std::optional' and base_cls(e['a'][0].get('t', '')) != 'std::optional':
                    x = ('nullopt',) if 'nullopt' in e['a'][0].get('t', '') else ('opt', x)
                return mut(('vec', el + (x,)), x)
            if m == 'pop_back' and el:
                return mut(('vec', el[:-1]))
            if isset and m == 'insert' and len(vs) == 2 and it_pair(vs[0], vs[1]):
                new = el
                for x in vs[0][1][vs[0][2]:vs[1][2]]:
                    new = ordered(c, new + (() if x in new else (x,)))
                return mut(('vec', new))
            if m == 'pop_front' and el:
                return mut(('vec', el[1:]))
            if m in ('push_front',) and not isset:
                return mut(('vec', (vs[0],) + el), vs[0])
            if isset and m in ('insert', 'emplace'):
                x = vs[0] if len(vs) == 1 else None
                if x is None or m == 'emplace' and needs_ctor(ip, c, e):
                    T = elem_type(e)
                    if not T:
                        return None
                    res = []
                    for s2, x in construct_T(ip, T, e['a'], s, fr, e):
                        s3 = s2.copy()
                        if x[0] != 'throwv' and l[0] != 'val':
                            ip.save(s3, l, ('vec', ordered(c, el + (() if x in el else (x,)))))
                        res.append(R(s3, rec('std::pair', {'first': ap('iter', x), 'second': ('b', x not in el)}) if x[0] != 'throwv' else x, want_lv))
                    return res
                if len(vs) == 1:
                    new = ordered(c, el + (() if x in el else (x,)))
                    return mut(('vec', new), rec('std::pair', {'first': ('it', new, new.index(x), l if l[0] != 'val' else None), 'second': ('b', x not in el)}))
            if isset and m == 'merge' and vs[0][0] == 'vec' and 'multi' not in c:
                new, rest = el, []
                for x in vs[0][1]:
                    if x in new:
                        rest.append(x)
                    else:
                        new = ordered(c, new + (x,))
                res = []
                for s2, ol in ip.lv(e['a'][0], s, fr):
                    s2 = s2.copy()
                    if l[0] != 'val':
                        ip.save(s2, l, ('vec', new))
                    if ol[0] != 'val':
                        ip.save(s2, ol, ('vec', tuple(rest)))
                    res.append(R(s2, ('void',), want_lv))
                return res
            if isset and m in ('find', 'count', 'contains'):
                k = vs[0]
                res = []
                cur = s
                for i, a in enumerate(el):
                    cnd = ip.binop('==', set_key(a, k), k)
                    kn = ip.known(cur, cnd)
                    if kn is False:
                        continue
                    hit = ('it', el, i, l if l[0] != 'val' else None) if m == 'find' else (I(1) if m == 'count' else TRUE)
                    if kn is True:
                        res.append(R(cur, hit, want_lv))
                        return res
                    res.append(R(ip.assume(cur, cnd, True), hit, want_lv))
                    cur = ip.assume(cur, cnd, False)
                miss = ('it', el, len(el), l if l[0] != 'val' else None) if m == 'find' else (I(0) if m == 'count' else FALSE)
                res.append(R(cur, miss, want_lv))
                return res
            if not isset and m == 'insert' and len(vs) == 2 and vs[0][0] == 'it':
                i = vs[0][2]
                return mut(('vec', el[:i] + (vs[1],) + el[i:]), ('it', el[:i] + (vs[1],) + el[i:], i, l if l[0] != 'val' else None))
            if not isset and m == 'insert' and len(vs) == 3 and vs[0][0] == 'it' and vs[1][0] == 'it' and vs[2][0] == 'it':
                i = vs[0][2]
                ne = el[:i] + vs[1][1][vs[1][2]:vs[2][2]] + el[i:]
                return mut(('vec', ne), ('it', ne, i, None))
            if m == 'erase' and len(vs) == 1:
                if vs[0][0] == 'it':
                    i = vs[0][2]
                    ne = el[:i] + el[i + 1:]
                    return mut(('vec', ne), ('it', ne, i, l if l[0] != 'val' else None))
                eq = [ip.known(s, ip.binop('==', set_key(x, vs[0]), vs[0])) for x in el] if isset else [None]
                if None not in eq:
                    ne = tuple(x for x, same in zip(el, eq) if not same)
                    return mut(('vec', ne), I(len(el) - len(ne)))
            if m == 'erase' and len(vs) == 2 and vs[0][0] == 'it' and vs[1][0] == 'it':
                ne = el[:vs[0][2]] + el[vs[1][2]:]
                return mut(('vec', ne), ('it', ne, vs[0][2], l if l[0] != 'val' else None))
            if m == 'resize' and A.num(vs[0]) is not None and A.num(vs[0]) <= 256:
                n = A.num(vs[0])
                x = vs[1] if len(vs) > 1 else (ip.zero_val(elem_type(e)) if elem_type(e) else I(0))
                return mut(('vec', (el + (x,) * n)[:n]))
            if m in ('assign',) and len(vs) == 2 and A.num(vs[0]) is not None and A.num(vs[0]) <= 256 and vs[0][0] == 'i':
                return mut(('vec', (vs[1],) * A.num(vs[0])))
            if m == 'fill':
                return mut(('vec', (vs[0],) * len(el)))
        else:
            if m in ('push_back', 'emplace_back', 'insert', 'emplace'):
                s2 = s.copy()
                s2.event('call', c + '::' + m, (v,) + vs, e.get('l'))
                if l[0] != 'val':
                    ip.save(s2, l, ap('push', v, *vs))
                return [R(s2, ap('pushed', v, *vs), want_lv)]
    return None


def map_it(items, i, l):
    el = tuple(rec('std::pair', {'first': a, 'second': b}) for a, b in items)
    return ('it', el, i, (l[0], l[1] + (('pairs', None),)) if l[0] != 'val' else None)


def set_key(a, k):
    """what a set element is looked up by (sets of controls are searchable by qubit)"""
    if a[0] == 'rec' and a[1] == 'qc::Control' and k[0] != 'rec':
        return A.rget(a, 'qubit')
    return a


def elem_type(e):
    t = strip_t(e['obj'].get('t', '')).rstrip('*').strip() if e.get('obj') else ''
    t = strip_t(t)
    i = t.find('<')
    if i < 0:
        return None
    d = 0
    out = ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            break
        out += ch
    return out.strip()


def tmpl_arg(e, n):
    """n-th template argument of a method call's object type"""
    t = strip_t(strip_t(e['obj'].get('t', '')).rstrip('*').strip()) if e.get('obj') else ''
    i = t.find('<')
    if i < 0:
        return None
    d, parts = 0, ['']
    for ch in t[i + 1:]:
        d += ch in '<('
        if ch in '>)':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            parts.append('')
        else:
            parts[-1] += ch
    return parts[n].strip() if n < len(parts) else None


def needs_ctor(ip, c, e):
    T = elem_type(e)
    a = [x for x in e['a'] if x['k'] != 'defarg']
    if T is None or len(a) != 1:
        return len(a) != 1
    at = strip_t(a[0].get('t', ''))
    if at == strip_t(T):
        return False
    bt = base_name(T)
    return bt in ip.F.cls_by_name and not (base_name(at) in ip.F.cls_by_name and ip.derives(base_name(at), bt)) or bt in ('std::pair',)


# ---------------------------------------------------------------- operators
def OP_MODEL(ip, e, bn, st, fr, want_lv):
    op = e['op']
    a = e['a']
    f = ip.F.functions.get(e.get('u'))
    if f is not None and 'body' in f and not f.get('defaulted'):
        return None
    if ip.opaque(bn, base_cls(e['cls']) if e.get('cls') else None) and f is not None and 'body' in f:
        return None
    t0 = base_cls(a[0].get('t', ''))
    if op == '<<' and ('stream' in t0 or 'ostream' in a[0].get('t', '')):
        out = []
        for s, l in ip.lv(a[0], st, fr):
            for s2, v in ip.ev(a[1], s, fr):
                s2 = s2.copy()
                if v[0] == 'throwv':
                    out.append(R(s2, v, want_lv))
                    continue
                s2.event('out', v, e.get('l'))
                cur = l[1] if l[0] == 'val' else ip.load(s2, l)
                if strm.is_stream(cur):
                    nv = strm.put(cur, v, a[1].get('t', ''))
                    if nv is None:
                        nv = ap('stream?', v)
                    if l[0] == 'val':
                        out.append(R(s2, nv, want_lv))
                        continue
                    ip.save(s2, l, nv)
                out.append((s2, l) if want_lv else (s2, l[1] if l[0] == 'val' else ip.load(s2, l)))
        return out
    if op == '=' and len(a) == 2:
        out = []
        for s, v in ip.ev(a[1], st, fr):
            if v[0] == 'throwv':
                out.append(R(s, v, want_lv))
                continue
            t1 = base_cls(a[0].get('t', ''))
            if v[0] == 'ptr' and t1 not in A.SMART and t1 != 'std::variant' and not strip_t(a[0].get('t', '')).endswith('*'):
                v = ip.load(s, v[1])
            if t1 == 'std::optional' and v[0] not in ('opt', 'nullopt') and base_cls(a[1].get('t', '')) not in ('std::optional',):
                v = ('nullopt',) if 'nullopt' in a[1].get('t', '') else ('opt', v)
            for s2, l in ip.lv(a[0], s, fr):
                s2 = s2.copy()
                if l[0] == 'val':
                    if l[1][0] == 'ptr':
                        ip.save(s2, l[1][1], v)
                    elif l[1][0] == 'vec' and v[0] == 'vec':
                        s2.event('tie', l[1], v)
                    else:
                        s2.event('store', l[1], v)
                    out.append(R(s2, v, want_lv))
                else:
                    ip.save(s2, l, v)
                    out.append((s2, l) if want_lv else (s2, v))
        return out
    if op in ('->', '*') and len(a) == 1:
        out = []
        for s, v in ip.ev(a[0], st, fr):
            if v[0] == 'opt':
                for s2, l in ip.lv(a[0], s, fr) if ip.pure(a[0]) else [(s, ('val', v))]:
                    if l[0] == 'val':
                        out.append(R(s2, v[1], want_lv))
                    elif op == '->':
                        out.append(R(s2, v[1] if v[1][0] == 'ptr' else ('ptr', (l[0], l[1] + (('o', None),))), want_lv))
                    else:
                        out.append((s2, (l[0], l[1] + (('o', None),))) if want_lv else (s2, v[1]))
                continue
            if op == '->':
                if v[0] == 'it' and v[3] is not None:
                    v = ('ptr', (v[3][0], v[3][1] + (('i', I(v[2])),)))
                    x = ip.load(s, v[1])
                    if x[0] == 'ptr' and base_cls(e.get('t', '').rstrip('*')) not in A.SMART:
                        v = x
                out.append(R(s, v, want_lv))
            else:
                if v[0] == 'ptr':
                    out.append((s, v[1]) if want_lv else (s, ip.load(s, v[1])))
                elif v[0] == 'it' and v[3] is not None:
                    l = (v[3][0], v[3][1] + (('i', I(v[2])),))
                    out.append((s, l) if want_lv else (s, ip.load(s, l)))
                elif v[0] == 'it':
                    out.append(R(s, ip.deref_it(v), want_lv))
                else:
                    out.append(R(s, v if v[0] == 'throwv' else ap('*', v), want_lv))
        return out
    if op == '[]':
        out = []
        for s, i in ip.ev(a[1], st, fr):
            for s2, l in ip.lv(a[0], s, fr):
                if l[0] == 'val':
                    v = l[1]
                    if v[0] == 'ptr':
                        l = v[1]
                    else:
                        out.append(R(s2, ip.proj(v, ('i', i)), want_lv))
                        continue
                if base_cls(a[0].get('t', '')) in A.MAPS:
                    cur = ip.load(s2, l)
                    if cur[0] == 'map' and not any(k == i for k, _ in cur[1]):
                        s2 = s2.copy()
                        mt = map_val_type(a[0].get('t', ''))
                        dv = ip.default_val(mt) if mt else I(0)
                        if dv == ('sym', 'uninit'):
                            dv = I(0)
                        ip.save(s2, l, ('map', cur[1] + ((i, dv),)))
                nl = (l[0], l[1] + (('i', i),))
                out.append((s2, nl) if want_lv else (s2, ip.load(s2, nl)))
        return out
    if op in ('==', '!=', '<', '>', '<=', '>='):
        def g(s, vs):
            return ip.binop(op, vs[0], vs[1])
        return args(ip, e, st, fr, want_lv, g)
    if op in ('++', '--'):
        out = []
        for s, l in ip.lv(a[0], st, fr):
            s = s.copy()
            d = 1 if op == '++' else -1
            if l[0] == 'val':
                v = l[1]
                out.append(R(s, v if v[0] == 'it' and len(a) == 2 else ip.it_adv(v, d) if v[0] == 'it' else ap(op, v), want_lv))
                continue
            old = ip.load(s, l)
            new = ip.it_adv(old, d) if old[0] == 'it' else ap('adv', old, I(d))
            ip.save(s, l, new)
            post = len(a) == 2
            if want_lv and not post:
                out.append((s, l))
            else:
                out.append(R(s, old if post else new, want_lv))
        return out
    if op in ('+', '-', '*', '/') and (len(a) == 2):
        def g(s, vs):
            x, y = vs
            if is_c(x) or is_c(y):
                return cop(ip, op, x, y)
            return ip.binop(op, x, y, e.get('t', '') if 's' in (x[0], y[0]) else '')
        return args(ip, e, st, fr, want_lv, g)
    if op == '-' and len(a) == 1:
        def g(s, vs):
            if is_c(vs[0]):
                return rec('std::complex', {'re': ip.unop('-', cre(vs[0])), 'im': ip.unop('-', cim(vs[0]))})
            return ip.unop('-', vs[0])
        return args(ip, e, st, fr, want_lv, g)
    if op in ('+=', '-=', '*=', '/='):
        out = []
        for s, v in ip.ev(a[1], st, fr):
            for s2, l in ip.lv(a[0], s, fr):
                s2 = s2.copy()
                old = l[1] if l[0] == 'val' else ip.load(s2, l)
                nv = cop(ip, op[0], old, v) if is_c(old) or is_c(v) else ip.binop(op[0], old, v, 'basic_string' if old[0] == 's' else '')
                if l[0] != 'val':
                    ip.save(s2, l, nv)
                    out.append((s2, l) if want_lv else (s2, nv))
                else:
                    out.append(R(s2, nv, want_lv))
        return out
    return None


def map_val_type(t):
    t = strip_t(t)
    i = t.find('<')
    d = 0
    parts = ['']
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            parts.append('')
            continue
        parts[-1] += ch
    return parts[1].strip() if len(parts) > 1 else None
