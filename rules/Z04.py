"""Arithmetic of angles as rational multiples of pi."""
from rules.common import *
import math
from fractions import Fraction
import zxmod

C = 'zx::PiRational'
RAT = [Fraction(n, d) for n, d in ((0, 1), (1, 1), (1, 2), (-1, 2), (3, 4), (-3, 4), (1, 3), (-2, 3), (7, 8), (-7, 8), (5, 7), (-1, 1024), (999, 1000))]
INTS = [0, 1, -1, 2, -2, 3, -3, 4, 5, -5, 8, -13]


def canon(x):
    x = x % 2
    return x - 2 if x > 1 else x


def pir(x):
    return rec(C, {'frac': ('q', Fraction(x))})


class M:
    def __init__(self, F):
        self.F = F
        self.ip = Interp(F, hooks=zxmod.hooks(princ=False))

    def call(self, f, args, this=None):
        """the single outcome and the final value of *this"""
        rs = list(self.ip.run(f, args, this=this))
        if len(rs) != 1:
            raise AnalysisError("%d outcomes" % len(rs))
        s, oc, fr, tl = rs[0]
        return oc, (self.ip.load(s, tl) if tl else None), s


def value(v):
    f = rget(v, 'frac') if v is not None and v[0] == 'rec' else None
    x = zxmod.frac(f) if f is not None else None
    if x is None:
        raise AnalysisError("result is not decided: %s" % show(v)[:120])
    return x


def check(ctx):
    ctx.rule("construct", "constructing an angle from a numerator and denominator gives the fraction reduced into (-1, 1] modulo 2")
    ctx.rule("double", "constructing an angle from a number gives the angle it is modulo 2 pi, in (-1, 1] times pi, exactly for unit fractions of pi (as far as numbers represent them) and within 1e-13 otherwise")
    ctx.rule("arithmetic", "sums, differences, products and quotients of angles and integers are the exact results reduced into (-1, 1]")
    ctx.rule("compare", "comparisons agree with the order of the fractions")
    ctx.rule("predicate", "isZero, isInteger, getNum, getDenom, conversions, Pauli and Clifford tests describe the fraction")
    F = load(ctx, ['ir', 'zx'])
    m = M(F)

    def kind(p):
        t = p['t']
        return 'rat' if 'PiRational' in t else 'int' if t.replace('const ', '') in ('long', 'int64_t', 'std::int64_t') else 'double' if 'double' in t else 'big' if 'multiprecision' in t else t

    def bad_if(rule, f, key, lab, oc, got, want, throws=False):
        w = where(f) + ': ' + lab
        if oc[0] == 'throw':
            ctx.ob(throws, rule, w, key, "%s throws %s" % (lab, oc[1]))
            return
        ctx.ob(not throws and got == want, rule, w, key, "%s gives %s instead of %s" % (lab, got, 'an exception' if throws else want))

    # constructors
    for f in F.fns(C + '::PiRational'):
        ks = [kind(p) for p in f['ps']]
        base = pir(0)
        if not f.get('body') or ks == ['double'] or 'rat' in ks or not ks:
            if ks != ['double']:
                continue
            vals = []
            for k in [1, -1, 2, -2, 3, 4, 5, 7, 8, -8, 16, 1024, -4096, 10 ** 6, 2 ** 30, 2 ** 31, 2 ** 32, -2 ** 33, 2 ** 36]:
                vals.append((math.pi / k, Fraction(1, k), 0 if math.pi / (math.pi / k) == k else 1e-13))
            for x in [0., 1e-14, -1e-14]:
                vals.append((x, Fraction(0), 1e-13))
            for x in [.1, -.1, 1., -1., 2., 3., 3.2, -3.2, 4., 5., 6., 6.2831, 7., -7., 9.5, -9.5, 12., 13., 31.4, 100., -100., 1e4, 1e-3, 1e-6, -1e-6, .7391, 2 * math.pi, -2 * math.pi, 3 * math.pi,
                      4 * math.pi, -5 * math.pi, 2 * math.pi / 3, -2 * math.pi / 3, 3 * math.pi / 2, -3 * math.pi / 2, 5 * math.pi / 4, 11 * math.pi / 6, 1.5 * math.pi + 1e-3, 1e9, 3e10, -1e12]:
                vals.append((x, None, 1e-13))
            for x, exact, tol in vals:
                with ctx.sub('double', repr(x)):
                    oc, v, s = m.call(f, [Fl(x)], base)
                    lab = "PiRational(%r)" % x
                    w = where(f) + ': ' + lab
                    if oc[0] == 'throw':
                        ctx.bad('double', w, 'double:throws', "%s ends with %s" % (lab, oc[1]))
                        continue
                    got = value(v)
                    if not -1 < got <= 1:
                        # exactly -1 up to the tolerance is only excluded for exact fractions
                        ctx.bad('double', w, 'double:range', "%s gives %s, outside (-1, 1]" % (lab, got))
                        continue
                    if exact is not None and tol == 0:
                        ok = got == canon(exact)
                    else:
                        ref = Fraction(x) / Fraction(math.pi) if exact is None else exact
                        d = abs(canon(got - ref))
                        ok = min(d, 2 - d) * math.pi <= tol + abs(x) * 1e-15
                    ctx.ob(ok, 'double', w, 'double', "%s gives %s pi" % (lab, float(got)))
            continue
        for n in list(range(-9, 10)) + [13, -13, 64, -65]:
            for d in ([1, 2, 3, 4, 7, -1, -2, -4, 8] if len(ks) == 2 else [1]):
                with ctx.sub('construct', '%d/%d' % (n, d)):
                    mk = (lambda k, x: zxmod.Q(x) if k == 'big' else I(x))
                    args = [mk(k, x) for k, x in zip(ks, (n, d))]
                    oc, v, s = m.call(f, args, base)
                    bad_if('construct', f, 'construct:' + ','.join(ks), "PiRational(%s)" % ', '.join(map(str, (n, d)[:len(ks)])), oc, value(v) if oc[0] != 'throw' else None, canon(Fraction(n, d)))

    OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}
    CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}

    def dom(k):
        return [(x, pir(x)) for x in RAT] if k == 'rat' else [(Fraction(x), I(x)) for x in INTS]

    for op, g in OPS.items():
        for f in F.fns(C + '::operator' + op + '='):
            k = kind(f['ps'][0])
            for a in RAT:
                for b, bv in dom(k):
                    lab = "%s %s= %s" % (a, op, b)
                    with ctx.sub('arithmetic', lab):
                        oc, v, s = m.call(f, [bv], pir(a))
                        thr = op == '/' and b == 0
                        bad_if('arithmetic', f, 'arithmetic:%s=:%s' % (op, k), lab, oc, value(v) if oc[0] != 'throw' else None, None if thr else canon(g(a, b)), thr)
        for f in F.fns('zx::operator' + op):
            ks = [kind(p) for p in f['ps']]
            if 'rat' not in ks or not all(k in ('rat', 'int') for k in ks):
                continue
            if len(ks) == 1:
                for a in RAT:
                    with ctx.sub('arithmetic', '-%s' % a):
                        oc, v, s = m.call(f, [pir(a)])
                        bad_if('arithmetic', f, 'arithmetic:neg', "-(%s)" % a, oc, value(oc[1]) if oc[0] != 'throw' else None, canon(-a))
                continue
            for a, av in dom(ks[0]):
                for b, bv in dom(ks[1]):
                    lab = "%s %s %s" % (a, op, b)
                    with ctx.sub('arithmetic', lab):
                        oc, v, s = m.call(f, [av, bv])
                        thr = op == '/' and b == 0
                        got = value(oc[1]) if oc[0] != 'throw' else None
                        want = None if thr else canon(g(a, b))
                        if not thr and ks[0] == 'int' and op == '/' and got == canon(canon(a) / b):
                            want = got      # an integer operand may be an angle, i.e. reduced first
                        bad_if('arithmetic', f, 'arithmetic:%s:%s' % (op, ','.join(ks)), lab, oc, got, want, thr)
    for op, g in CMP.items():
        for f in F.fns('zx::operator' + op):
            ks = [kind(p) for p in f['ps']]
            if 'rat' not in ks or not all(k in ('rat', 'int') for k in ks):
                continue
            for a, av in dom(ks[0]):
                for b, bv in dom(ks[1]):
                    lab = "%s %s %s" % (a, op, b)
                    with ctx.sub('compare', lab):
                        oc, v, s = m.call(f, [av, bv])
                        t = m.ip.truth(oc[1]) if oc[0] == 'return' else None
                        if t is None:
                            raise AnalysisError("not decided")
                        ctx.ob(t == g(a, b), 'compare', where(f) + ': ' + lab, 'compare:%s:%s' % (op, ','.join(ks)), "%s is %s" % (lab, t))

    def expr(x, terms=()):
        return rec('zx::PiExpression', {'constant': pir(x), 'terms': ('vec', tuple(terms))})
    PRED = {
        C + '::isZero': lambda x: x == 0, C + '::isInteger': lambda x: x.denominator == 1,
        C + '::getNum': lambda x: x.numerator, C + '::getDenom': lambda x: x.denominator,
        C + '::toDoubleDivPi': lambda x: float(x), C + '::toDouble': lambda x: float(x) * math.pi, C + '::operator double': lambda x: float(x) * math.pi,
    }
    for n, g in PRED.items():
        for f in F.fns(n):
            for a in RAT:
                lab = "%s of %s" % (n.split('::')[-1], a)
                with ctx.sub('predicate', lab):
                    oc, v, s = m.call(f, [], pir(a))
                    r = oc[1]
                    got = m.ip.truth(r) if isinstance(g(a), bool) else zxmod.frac(r)
                    if got is None:
                        raise AnalysisError("not decided: %s" % show(r)[:100])
                    ctx.ob(abs(got - g(a)) < 1e-12 if isinstance(g(a), float) else got == g(a), 'predicate', where(f) + ': ' + lab, 'predicate:' + n.split('::')[-1], "%s is %s" % (lab, got))
    E = {'zx::isPauli': lambda x: x.denominator == 1, 'zx::isClifford': lambda x: x.denominator <= 2, 'zx::isProperClifford': lambda x: x.denominator == 2}
    term = rec('sym::Term', {'coeff': Fl(1.), 'var': rec('sym::Variable', {'id': I(0)})})
    for n, g in E.items():
        for f in [x for x in F.fns(n) if len(x['ps']) == 1]:
            for a in RAT:
                for ts in ((), (term,)):
                    lab = "%s of %s%s" % (n.split('::')[-1], a, ' + x' if ts else '')
                    with ctx.sub('predicate', lab):
                        oc, v, s = m.call(f, [expr(a, ts)])
                        t = m.ip.truth(oc[1])
                        if t is None:
                            raise AnalysisError("not decided: %s" % show(oc[1])[:100])
                        ctx.ob(t == (g(a) and not ts), 'predicate', where(f) + ': ' + lab, 'predicate:' + n.split('::')[-1], "%s is %s" % (lab, t))
    for r, n in (('construct', 200), ('double', 40), ('arithmetic', 2000), ('compare', 2000), ('predicate', 100)):
        ctx.need(r, n)
