"""Symbolic expression arithmetic."""
from rules.common import *
import itertools, random
import sem

NV = 3
XS = [1.37, -0.61, 2.43]          # values of the variables


def var(i): return rec('sym::Variable', {'id': I(i)})
def term(i, c): return rec('sym::Term', {'coeff': c, 'var': var(i)})
def num_(c): return rec('vp::Num', {'v': c})


def expr(vs, tag, cls='sym::Expression<double, vp::Num>'):
    ts = tuple(term(i, sym('%s%d' % (tag, i))) for i in vs)
    return rec(cls, {'terms': ('vec', ts), 'constant': num_(sym(tag + 'k')) if 'Num' in cls else sym(tag + 'k')})


def poly(v, env):
    """(variable -> coefficient, constant) denoted by an expression record"""
    if v[0] != 'rec':
        raise AnalysisError("result is not an expression: %s" % show(v)[:200])
    ts = rget(v, 'terms')
    if ts is None or ts[0] != 'vec':
        raise AnalysisError("terms not decided: %s" % show(ts)[:200])
    d, order = {}, []
    for t in ts[1]:
        i, c = tpoly(t, env)
        d[i] = d.get(i, 0) + c
        order.append(i)
    k = rget(v, 'constant')
    if k is None:
        k = Fl(0.)
    return d, scalar(k, env), order


def tpoly(t, env):
    x = rget(t, 'var')
    i = num(rget(x, 'id')) if x is not None and x[0] == 'rec' else None
    if i is None:
        raise AnalysisError("variable of a term not decided: %s" % show(t)[:200])
    return i, scalar(rget(t, 'coeff'), env)


def scalar(v, env):
    while v[0] == 'rec' and len(v[3]) == 1:
        v = v[3][0][1]
    return sem.val(v, env)


def eq(a, b):
    ks = set(a[0]) | set(b[0])
    return abs(a[1] - b[1]) < 1e-7 and all(abs(a[0].get(k, 0) - b[0].get(k, 0)) < 1e-7 for k in ks)


def padd(a, b, s=1):
    return ({k: a[0].get(k, 0) + s * b[0].get(k, 0) for k in set(a[0]) | set(b[0])}, a[1] + s * b[1])


def pscale(a, s): return ({k: v * s for k, v in a[0].items()}, a[1] * s)


# operator wrapper -> (argument kinds, meaning on denotations)
# e: expression, t: term, u: constant-type scalar, d: coefficient-type scalar, i: integer
OPS = {
    'e_add': ('ee', lambda a, b: padd(a, b)), 'e_sub': ('ee', lambda a, b: padd(a, b, -1)),
    'e_addt': ('et', lambda a, b: padd(a, b)), 'e_tadd': ('te', lambda a, b: padd(a, b)),
    'e_subt': ('et', lambda a, b: padd(a, b, -1)), 'e_tsub': ('te', lambda a, b: padd(a, b, -1)),
    'e_addu': ('eu', lambda a, b: padd(a, b)), 'e_uadd': ('ue', lambda a, b: padd(a, b)),
    'e_subu': ('eu', lambda a, b: padd(a, b, -1)), 'e_usub': ('ue', lambda a, b: padd(a, b, -1)),
    'e_dadd': ('de', lambda a, b: padd(a, b)),
    'e_mul': ('ed', lambda a, b: pscale(a, b[1])), 'e_lmul': ('de', lambda a, b: pscale(b, a[1])),
    'e_mulu': ('eu', lambda a, b: pscale(a, b[1])), 'e_lmulu': ('ue', lambda a, b: pscale(b, a[1])),
    'e_div': ('ed', lambda a, b: pscale(a, 1 / b[1])), 'e_divu': ('eu', lambda a, b: pscale(a, 1 / b[1])),
    'e_divi': ('ei', lambda a, b: pscale(a, 1 / b[1])), 'e_neg': ('e', lambda a: pscale(a, -1)),
    'd_add': ('DD', lambda a, b: padd(a, b)), 'd_sub': ('DD', lambda a, b: padd(a, b, -1)),
    'd_mul': ('Dd', lambda a, b: pscale(a, b[1])), 'd_div': ('Dd', lambda a, b: pscale(a, 1 / b[1])),
    'd_addt': ('Dt', lambda a, b: padd(a, b)), 'd_tadd': ('tD', lambda a, b: padd(a, b)),
    'd_subt': ('Dt', lambda a, b: padd(a, b, -1)), 'd_tsub': ('tD', lambda a, b: padd(a, b, -1)), 'd_neg': ('D', lambda a: pscale(a, -1)),
    't_mul': ('td', lambda a, b: pscale(a, b[1])), 't_lmul': ('dt', lambda a, b: pscale(b, a[1])),
    't_div': ('td', lambda a, b: pscale(a, 1 / b[1])), 't_neg': ('t', lambda a: pscale(a, -1)),
    't_ldiv': ('dt', lambda a, b: None),
}


def subsets(full):
    for r in range(NV + 1):
        for c in itertools.combinations(range(NV), r):
            yield c


def envs(args):
    """numeric points: generic ones and ones where coefficients/constants cancel or vanish"""
    rnd = random.Random(7)
    syms = sorted({x for a in args for x in symsof(a)})
    out = []
    for mode in range(6):
        env = {}
        for x in syms:
            n = x[1]
            env[x] = rnd.choice((-1, 1)) * rnd.uniform(0.3, 3)
            if mode in (1, 2) and n[0] == 'b' and ('sym', 'a' + n[1:]) in env:
                env[x] = env[('sym', 'a' + n[1:])] * (-1 if mode == 1 else 1)
            if mode == 3 and n in ('ak', 'bk'):
                env[x] = 0.0
            if mode == 4 and n == 'bk':
                env[x] = 0.0
            if mode == 5 and n == 'ak':
                env[x] = 0.0
        out.append(env)
    return out


def symsof(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'sym':
            yield v
        else:
            for x in v:
                yield from symsof(x)


def check(ctx):
    ctx.rule("op", "the expression an operator returns denotes the sum/difference/multiple of its operands' denotations, for every "
             "combination of variable sets over three variables and for cancelling coefficients")
    ctx.rule("normal", "results list each variable at most once, in variable order, without cancelled (zero) terms")
    ctx.rule("eq", "== holds exactly when both sides have the same variables, coefficients and constant; != is its negation")
    ctx.rule("eval", "evaluate returns constant + sum of coefficient * value and throws when a variable has no value")
    ctx.rule("build", "building an expression from terms adds up the terms")
    F = load(ctx, ['ir'])
    ip = Interp(F)
    for name, (kinds, mean) in OPS.items():
        with ctx.sub("op", name):
            one_op(ctx, F, ip, name, kinds, mean)
    for name in ('e_make2', 'e_make3'):
        with ctx.sub("build", name):
            make(ctx, F, ip, name)
    with ctx.sub("eq", "=="):
        equality(ctx, F, ip)
    with ctx.sub("eval", "evaluate"):
        evaluate(ctx, F, ip)
    ctx.need("op", 250)
    ctx.need("normal", 200)
    ctx.need("eq", 60)
    ctx.need("eval", 20)
    ctx.need("build", 20)


def callee(F, f):
    """source position of the repository's operator a wrapper calls"""
    out = []

    def walk(n):
        if isinstance(n, dict):
            if n.get('k') in ('call', 'opcall', 'mcall') and n.get('u') in F.functions:
                out.append(F.functions[n['u']])
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(f.get('body'))
    for g in out:
        if not g['file'].startswith('aux/'):
            return where(g)
    return "include/mqt-core/ir/operations/Expression.hpp (" + f['n'] + ")"


def operand(k, tag, vs):
    if k == 'e':
        return expr(vs, tag)
    if k == 'D':
        return expr(vs, tag, 'sym::Expression<double, double>')
    if k == 't':
        return term(vs, sym('%s%d' % (tag, vs)))
    if k == 'u':
        return num_(sym(tag + 's'))
    if k == 'd':
        return sym(tag + 's')
    return I(4)


def den(k, v, env):
    if k in 'eD':
        return poly(v, env)
    if k == 't':
        i, c = tpoly(v, env)
        return {i: c}, 0.
    return {}, scalar(v, env)


def choices(k):
    return list(subsets(NV)) if k in 'eD' else (list(range(NV)) if k == 't' else [None])


def one_op(ctx, F, ip, name, kinds, mean):
    f = F.fn('vp::' + name)
    w0 = callee(F, f)
    for vs in itertools.product(*[choices(k) for k in kinds]):
        args = [operand(k, 'ab'[i], v) for i, (k, v) in enumerate(zip(kinds, vs))]
        rs = ip.run(f, args)
        w = "%s operands over %s" % (w0, vs)
        good, norm, msg = True, True, ''
        for env in envs(args):
            feas = 0
            for s, oc, _, _ in rs:
                if not sem.holds(s.pc, env):
                    continue
                feas += 1
                if oc[0] == 'throw':
                    good, msg = False, "throws at %s" % env
                    continue
                want = mean(*[den(k, a, env) for k, a in zip(kinds, args)])
                if want is None:
                    good, msg = False, "a scalar divided by a term is not a term, but a term is returned"
                    continue
                if name.startswith('t_'):
                    i, c = tpoly(oc[1], env)
                    got, order = ({i: c}, 0.), [i]
                else:
                    d, k, order = poly(oc[1], env)
                    got = (d, k)
                    if order != sorted(set(order)) or any(abs(x) < 1e-9 for x in d.values()):
                        norm = False
                if not eq(got, want):
                    good, msg = False, "at %s the result is %s, expected %s" % ({k[1]: round(v, 3) for k, v in env.items()}, got, want)
            if not feas:
                raise AnalysisError("%s: no feasible path" % w)
        ctx.ob(good, "op", w, "op:" + name, "%s: %s" % (name, msg))
        if not name.startswith('t_'):
            ctx.ob(norm, "normal", w, "normal:" + name, "%s leaves terms unsorted, duplicated or zero" % name)
    if 'div' in name and name != 't_ldiv' and name[0] in 'eD':
        for z in (0.0,):
            b = {'u': num_(Fl(z)), 'd': Fl(z), 'i': I(0)}[kinds[1]]
            for s, oc, _, _ in ip.run(f, [operand(kinds[0], 'a', (0, 1)), b]):
                ctx.ob(oc[0] == 'throw', "op", w0 + " by zero", "divzero:" + name, "division by zero does not throw")


def make(ctx, F, ip, name):
    f = F.fn('vp::' + name)
    n = int(name[-1])
    w0 = "include/mqt-core/ir/operations/Expression.hpp (sym::Expression(Term, ...))"
    for vs in itertools.product(range(NV), repeat=n):
        args = [term(v, sym('abc'[i] + str(v))) for i, v in enumerate(vs)]
        rs = ip.run(f, args)
        good, msg = True, ''
        es = envs(args)
        for e in list(es):
            # all equal-variable terms cancel
            e2 = dict(e)
            for i in range(1, n):
                if vs[i] == vs[0]:
                    e2[sym('abc'[i] + str(vs[i]))] = -e2[sym('abc'[0] + str(vs[0]))]
            es.append(e2)
        for env in es:
            feas = 0
            for s, oc, _, _ in rs:
                if not sem.holds(s.pc, env):
                    continue
                feas += 1
                d, k, order = poly(oc[1], env)
                want = {}, 0.
                for a in args:
                    i, c = tpoly(a, env)
                    want = padd(want, ({i: c}, 0.))
                if not eq((d, k), want) or order != sorted(set(order)):
                    good, msg = False, "at %s: %s (order %s), expected %s" % (env, d, order, want)
            if not feas:
                raise AnalysisError("no feasible path")
        ctx.ob(good, "build", w0 + " variables %s" % (vs,), "build:%d" % n, msg)


def equality(ctx, F, ip):
    for fn in ('e_eq', 'e_ne', 'd_eq'):
        f = F.fn('vp::' + fn)
        w0 = callee(F, f)
        for va, vb in itertools.product(subsets(NV), subsets(NV)):
            args = [operand('D' if fn[0] == 'd' else 'e', 'a', va), operand('D' if fn[0] == 'd' else 'e', 'b', vb)]
            base = [x for x in envs(args)]
            e0 = dict(base[0])
            cases = [e0]
            same = dict(e0)            # identical coefficients position by position and equal constants
            for x, y in zip(va, vb):
                same[sym('b%d' % y)] = same[sym('a%d' % x)]
            same[sym('bk')] = same[sym('ak')]
            cases.append(same)
            c2 = dict(same)
            c2[sym('bk')] += 0.5
            cases.append(c2)
            if vb:
                c3 = dict(same)
                c3[sym('b%d' % vb[-1])] += 0.5
                cases.append(c3)
            rs = ip.run(f, args)
            good, msg = True, ''
            for env in cases:
                a, b = poly(args[0], env), poly(args[1], env)
                want = eq(a, b) and set(a[0]) == set(b[0])
                if fn == 'e_ne':
                    want = not want
                feas = 0
                for s, oc, _, _ in rs:
                    if not sem.holds(s.pc, env):
                        continue
                    feas += 1
                    if bool(sem.val(oc[1], env)) != want:
                        good, msg = False, "%s and %s compare %s" % (a[:2], b[:2], "equal" if (not want) == (fn != 'e_ne') else "different")
                if not feas:
                    raise AnalysisError("no feasible path")
            ctx.ob(good, "eq", "%s over %s, %s" % (w0, va, vb), "eq:" + fn, msg)


def evaluate(ctx, F, ip):
    f = F.fn('vp::e_eval')
    for vs in subsets(NV):
        a = expr(vs, 'a')
        for given in subsets(NV):
            m = ('map', tuple((var(i), Fl(XS[i])) for i in given))
            rs = ip.run(f, [a, m])
            good, msg = True, ''
            for env in envs([a]):
                p = poly(a, env)
                feas = 0
                for s, oc, _, _ in rs:
                    if not sem.holds(s.pc, env):
                        continue
                    feas += 1
                    if set(vs) <= set(given):
                        if oc[0] != 'return' or abs(sem.val(oc[1], env) - (p[1] + sum(c * XS[i] for i, c in p[0].items()))) > 1e-7:
                            good, msg = False, "value over %s is %s" % (vs, show(oc[1])[:200])
                    elif oc[0] != 'throw':
                        good, msg = False, "no exception although a variable of %s has no value in %s" % (vs, given)
                if not feas:
                    raise AnalysisError("no feasible path")
            ctx.ob(good, "eval", "Expression::evaluate over %s with values for %s" % (vs, given), "eval", msg)
