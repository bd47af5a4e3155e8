"""Canonicalisation, naming and instantiation of parameterised gates."""
from rules.common import *
import itertools, math
import sem, opsem
from ops import World

pi = math.pi
# one representative per region the canonicalisation can distinguish: every special angle, its negative, integers and
# fractions of pi, values just off a special angle, and generic values
GRID = [0., pi / 4, -pi / 4, pi / 2, -pi / 2, pi, -pi, 0.7390851, -2.1972245, 1., pi / 3, 3 * pi / 2]
FINE = GRID + [2 * pi, -3., -pi / 8, pi / 2 + 1e-3, -pi + 1e-3, 1e-3, 1e-14, pi - 1e-14, -3 * pi / 4, 5.]


def check(ctx):
    ctx.rule("canon", "constructing a gate keeps its unitary: type and parameters stored for U, U2 and P at any angles denote the requested matrix")
    ctx.rule("symbolic", "the same for symbolic operations with any mixture of numeric and symbolic parameters, for every assignment of the variables")
    ctx.rule("fields", "constructing a gate stores exactly the given targets and controls, and the number of parameters its type takes")
    ctx.rule("name", "an operation's name is the printed name of its type after construction, inversion, instantiation and retyping")
    ctx.rule("instantiate", "instantiating a symbolic operation (in place or as a copy, once or repeatedly) yields the gate at the assigned values; a missing variable throws")
    F = load(ctx, ['ir'])
    W = World(F)
    ip = Interp(F, max_iter=50)
    grid = FINE if ctx.tier == 'thorough' else GRID
    for n in ('P', 'U2', 'U'):
        ctx.guard("canon", n, numeric, ctx, F, W, ip, n, grid)
        ctx.guard("symbolic", n, symbolic, ctx, F, W, ip, n, grid)
    ctx.guard("fields", "constructors", constructors, ctx, F, W, ip)
    ctx.guard("name", "names", names, ctx, F, W, ip)
    ctx.guard("instantiate", "instantiate", instantiate, ctx, F, W, ip)
    for r, n in (('canon', 1500), ('symbolic', 300), ('fields', 40), ('name', 40), ('instantiate', 150)):
        ctx.need(r, n)


def ctor(F, cls, kinds):
    out = []
    for f in F.fns(cls + '::' + cls.split('::')[-1]):
        if 'body' not in f or not f.get('ctor'):
            continue
        k = []
        for p in f['ps']:
            t = p['t']
            k.append('C' if 'Control>' in t or 'Controls' in t else 'c' if 'Control' in t else 'Q' if 'vector<unsigned int' in t else 't' if 'OpType' in t else
                     'p' if 'vector' in t else 'q')
        if ''.join(k) == kinds:
            out.append(f)
    if len(out) != 1:
        raise AnalysisError("%d constructors of %s take (%s)" % (len(out), cls, kinds))
    return out[0]


def build(F, W, ip, f, args):
    cl = F.cls_by_name[f['cls']][0]
    st = W.state()
    base = ip.default_obj(cl, st, Frame(f))[0][1]
    key = ('O', 'new')
    st.store[key] = base
    rs = ip.run(f, args, this=('LOCARG', (key, ())), st=st)
    if len(rs) != 1:
        raise AnalysisError("%s is not decided (%d paths)" % (where(f), len(rs)))
    s, oc, _, _ = rs[0]
    return (None, oc) if oc[0] == 'throw' else (s.store[key], None)


def nparams(v):
    return len(rget(v, 'parameter')[1])


def printed(F, W, ip, t, memo={}):
    if t[2] not in memo:
        f = [g for g in F.fns('qc::toString') if 'body' in g and 'OpType' in g['ps'][0]['t']][0]
        r = ip.run(f, [t])
        if len(r) != 1 or r[0][1][0] != 'return' or r[0][1][1][0] != 's':
            raise AnalysisError("name of %s not decided" % t[2])
        memo[t[2]] = r[0][1][1]
    return memo[t[2]]


def numeric(ctx, F, W, ip, n, grid):
    f = ctor(F, 'qc::StandardOperation', 'Qtp')
    m = sem.REF[n][1]
    for ps in itertools.product(grid, repeat=m):
        w = "%s %s%s" % (where(f), n, tuple(round(p, 6) for p in ps))
        with ctx.sub("canon", w):
            v, th = build(F, W, ip, f, [('vec', (I(1),)), W.T[n], ('vec', tuple(Fl(p) for p in ps))])
            if v is None:
                ctx.bad("canon", w, "canon:throws:" + n, "constructing the gate throws")
                continue
            got = opsem.unitary(v, {}, 2)
            want = sem.embed(sem.ref(n, ps), [1], 2)
            ctx.ob(sem.close(got, want, 1e-8), "canon", w, "canon:" + n, "%s%s becomes %s%s, a different matrix" % (
                n, tuple(round(p, 4) for p in ps), opsem.tname(v), tuple(round(num(p), 4) for p in rget(v, 'parameter')[1])))
            ty = opsem.tname(v)
            ctx.ob(nparams(v) == sem.REF[ty][1], "fields", w, "count:" + n, "%s is stored with %d parameters" % (ty, nparams(v)))
            ctx.ob(rget(v, 'name') == printed(F, W, ip, rget(v, 'type')), "name", w, "name:ctor", "%s is named %s" % (ty, show(rget(v, 'name'))))


def expr(W, i):
    t = rec('sym::Term', {'coeff': Fl(1.5 + i), 'var': W.var('xyz'[i])})
    return rec('sym::Expression', {'terms': ('vec', (t,)), 'constant': Fl(.25 * i - .3)})


VALUES = ({'x': .37, 'y': -1.2, 'z': 2.9}, {'x': pi / 2, 'y': 0., 'z': pi})


def value(i, a):
    return (1.5 + i) * a['xyz'[i]] + .25 * i - .3


def symenv(W, a):
    return {W.var(n): x for n, x in a.items()}


def sym_ok(v, W, n, ps, mask):
    for a in VALUES:
        full = [value(i, a) if b else p for i, (b, p) in enumerate(zip(mask, ps))]
        if not sem.close(opsem.unitary(v, symenv(W, a), 2), sem.embed(sem.ref(n, full), [1], 2), 1e-8):
            return False
    return True


def alternative(F, x):
    return x


def symbolic(ctx, F, W, ip, n, grid):
    f = ctor(F, 'qc::SymbolicOperation', 'Qtp')
    m = sem.REF[n][1]
    for mask in itertools.product([0, 1], repeat=m):
        free = [i for i in range(m) if not mask[i]]
        for vals in itertools.product(grid, repeat=len(free)):
            ps = [0.] * m
            for i, x in zip(free, vals):
                ps[i] = x
            if not any(mask) and len(set(ps)) == m and m > 1:
                continue        # numeric only: sampled, the numeric constructor is decided above
            arg = ('vec', tuple(expr(W, i) if b else Fl(p) for i, (b, p) in enumerate(zip(mask, ps))))
            w = "%s %s(%s)" % (where(f), n, ', '.join('expression' if b else '%.4f' % p for b, p in zip(mask, ps)))
            with ctx.sub("symbolic", w):
                v, th = build(F, W, ip, f, [('vec', (I(1),)), W.T[n], arg])
                if v is None:
                    ctx.bad("symbolic", w, "symbolic:throws:" + n, "constructing the gate throws")
                    continue
                ty = opsem.tname(v)
                k = sem.REF[ty][1]
                ok = nparams(v) == k
                ctx.ob(ok, "fields", w, "count:symbolic", "%s is stored with %d parameters" % (ty, nparams(v)))
                again(ctx, F, W, ip, v, w)
                if ok:
                    ctx.ob(sym_ok(v, W, n, ps, mask), "symbolic", w, "symbolic:" + n, "the constructed %s denotes another matrix" % ty)
                ctx.ob(rget(v, 'name') == printed(F, W, ip, rget(v, 'type')), "name", w, "name:ctor", "%s is named %s" % (ty, show(rget(v, 'name'))))


def again(ctx, F, W, ip, v, w):
    """a constructed operation can be instantiated, and instantiated again"""
    fi = F.fn('qc::SymbolicOperation::instantiate')
    for rnd in ('once', 'twice'):
        rs = ip.run(fi, [assignment(W, VALUES[0])], this=v)
        if len(rs) != 1:
            raise AnalysisError("instantiation of the constructed operation not decided")
        s, oc, _, th = rs[0]
        ctx.ob(oc[0] != 'throw', "instantiate", w, "instantiate:throws:" + rnd, "instantiating the constructed operation %s throws" % rnd)
        if oc[0] == 'throw':
            return
        v = ip.load(s, th)


def constructors(ctx, F, W, ip):
    """every constructor of both classes stores what it is given"""
    cp, cn = opsem.ctrl(F, 4, True), opsem.ctrl(F, 2, False)
    for cls in ('qc::StandardOperation', 'qc::SymbolicOperation'):
        symb = cls.endswith('SymbolicOperation')
        for kinds in ('qtp', 'Qtp', 'cqtp', 'cQtp', 'Cqtp', 'CQtp', 'Cqqtp'):
            f = ctor(F, cls, kinds)
            two = 'Q' in kinds or 'qq' in kinds
            for ty in ('RXX', 'XXplusYY') if two else ('RX', 'U'):
                m = sem.REF[ty][1]
                ts = [3, 1] if two else [3]
                raw = [.7, -1.3, 2.9][:m]
                args, q = [], iter(ts)
                for k in kinds:
                    args.append({'C': ('vec', (cn, cp)), 'c': cn, 'Q': ('vec', tuple(I(t) for t in ts)), 't': W.T[ty]}.get(k) or
                                (('vec', tuple(expr(W, i) if symb and i == 0 else Fl(p) for i, p in enumerate(raw))) if k == 'p' else I(next(q))))
                w = "%s(%s) for %s" % (where(f), kinds, ty)
                with ctx.sub("fields", w):
                    v, th = build(F, W, ip, f, args)
                    if v is None:
                        ctx.bad("fields", w, "fields:throws", "construction throws")
                        continue
                    cs = opsem.controls(rget(v, 'controls'))
                    want = [(2, False), (4, True)] if 'C' in kinds else [(2, False)] if 'c' in kinds else []
                    ctx.ob(opsem.qubits(rget(v, 'targets')) == ts, "fields", w, "fields:targets", "targets %s instead of %s" % (show(rget(v, 'targets')), ts))
                    ctx.ob(sorted(cs) == want, "fields", w, "fields:controls", "controls %s instead of %s" % (cs, want))
                    sp = rget(v, 'symbolicParameter')
                    got = [None if symb and i == 0 else num(p) for i, p in enumerate(rget(v, 'parameter')[1])]
                    ctx.ob(opsem.tname(v) == ty and got == [None if symb and i == 0 else p for i, p in enumerate(raw)], "fields", w, "fields:parameters",
                           "%s with parameters %s" % (opsem.tname(v), got))
                    if symb:
                        ctx.ob(sp == ('vec', tuple(('opt', expr(W, 0)) if i == 0 else ('nullopt',) for i in range(m))), "fields", w, "fields:symbolic",
                               "symbolic parameters %s" % show(sp)[:100])
                    ctx.ob(rget(v, 'name') == printed(F, W, ip, W.T[ty]), "name", w, "name:ctor", "%s is named %s" % (ty, show(rget(v, 'name'))))


def names(ctx, F, W, ip):
    for cls in ('qc::StandardOperation', 'qc::SymbolicOperation'):
        f = F.fn(cls + '::invert')
        for n, (k, m, _) in sem.REF.items():
            if cls.endswith('SymbolicOperation') and not m:
                continue
            op = W.std(n, list(range(k)), (), [.3 + i for i in range(m)], cls)
            op = rset(op, 'name', printed(F, W, ip, W.T[n]))
            if cls.endswith('SymbolicOperation'):
                op = rset(op, 'symbolicParameter', ('vec', (('opt', expr(W, 0)),) + (('nullopt',),) * (m - 1)))
            w = "%s of %s" % (where(f), n)
            with ctx.sub("name", w):
                for s, oc, _, th in ip.run(f, [], this=op):
                    if oc[0] == 'throw':
                        continue       # whether a gate can be inverted is decided by I01
                    v = ip.load(s, th)
                    t = rget(v, 'type')
                    if t[0] != 'e':
                        raise AnalysisError("type not decided")
                    ctx.ob(rget(v, 'name') == printed(F, W, ip, t), "name", w, "name:invert", "the inverse of %s has type %s but is named %s" % (n, t[2], show(rget(v, 'name'))))
    f = F.fn('na::AodOperation::invert')
    for n in ('AodActivate', 'AodDeactivate', 'AodMove'):
        op = rset(W.aod(n, [0, 1], [('X', 0., 1.)]), 'name', printed(F, W, ip, W.T[n]))
        w = "%s of %s" % (where(f), n)
        with ctx.sub("name", w):
            for s, oc, _, th in ip.run(f, [], this=op):
                v = ip.load(s, th)
                t = rget(v, 'type')
                ctx.ob(oc[0] != 'throw' and rget(v, 'name') == printed(F, W, ip, t), "name", w, "name:invert", "the inverse of %s has type %s but is named %s" % (n, show(t), show(rget(v, 'name'))))
    f = F.fn('qc::ClassicControlledOperation::invert')
    sh = F.fn('qc::shortName')
    short = lambda t: ip.run(sh, [t])[0][1][1][1]
    for n in ('S', 'X', 'V', 'iSWAP'):
        op = W.cc(W.std(n, list(range(sem.REF[n][0]))), bit=0)
        op = rset(op, 'name', Sx('c_' + short(W.T[n])))
        w = "%s of a classically controlled %s" % (where(f), n)
        with ctx.sub("name", w):
            for s, oc, _, th in ip.run(f, [], this=op, st=W.state()):
                if oc[0] == 'throw':
                    raise AnalysisError("inverting throws")
                v = ip.load(s, th)
                t = rget(W.get(rget(v, 'op'), s), 'type')
                ctx.ob(rget(v, 'name') == Sx('c_' + short(t)), "name", w, "name:invert", "the controlled gate is %s but the operation is named %s" % (show(t), show(rget(v, 'name'))))
    f = F.fn('qc::Operation::setGate')
    for n in ('H', 'RX', 'SWAP', 'Measure'):
        op = W.std('X', [0])
        w = "%s to %s" % (where(f), n)
        with ctx.sub("name", w):
            for s, oc, _, th in ip.run(f, [W.T[n]], this=op):
                v = ip.load(s, th)
                ctx.ob(rget(v, 'type') == W.T[n] and rget(v, 'name') == printed(F, W, ip, W.T[n]), "name", w, "name:setGate", "retyped to %s named %s" % (show(rget(v, 'type')), show(rget(v, 'name'))))


def assignment(W, a):
    return ('map', tuple((W.var(n), Fl(x)) for n, x in sorted(a.items())))


def instantiate(ctx, F, W, ip):
    fi, fc = F.fn('qc::SymbolicOperation::instantiate'), F.fn('qc::SymbolicOperation::getInstantiatedOperation')
    for n, (k, m, _) in sem.REF.items():
        if not m:
            continue
        ts = list(range(k))
        nq = max(k, 1) + 1
        for mask in itertools.product([0, 1], repeat=m):
            ps = [.8 + i for i in range(m)]
            # assigned so that expression i takes a special or a generic value
            for goal in itertools.product([0., pi / 2, -pi / 2, pi, .61], repeat=sum(mask)) if m > 1 else [(0.,), (pi / 2,), (-pi / 4,), (pi,), (.61,)]:
                g = iter(goal)
                full = [next(g) if b else p for b, p in zip(mask, ps)]
                a = {'xyz'[i]: (full[i] - (.25 * i - .3)) / (1.5 + i) for i in range(m) if mask[i]}
                op = W.std(n, ts, [(nq - 1, False)], [0. if b else p for b, p in zip(mask, ps)], 'qc::SymbolicOperation', symbolicParameter=(
                    'vec', tuple(('opt', expr(W, i)) if b else ('nullopt',) for i, b in enumerate(mask))))
                want = sem.embed(sem.ref(n, full), ts, nq, [(nq - 1, False)])
                op = rset(op, 'name', printed(F, W, ip, W.T[n]))
                w = "%s: %s%s symbolic %s" % (where(fi), n, tuple(round(x, 3) for x in full), mask)
                with ctx.sub("instantiate", w):
                    cur = op
                    for rnd in ('once', 'twice'):
                        rs = ip.run(fi, [assignment(W, a)], this=cur)
                        if len(rs) != 1:
                            raise AnalysisError("not decided (%d paths)" % len(rs))
                        s, oc, _, th = rs[0]
                        if oc[0] == 'throw':
                            ctx.bad("instantiate", w, "instantiate:throws:" + rnd, "instantiating %s throws %s" % (rnd, show(oc[1])[:60]))
                            break
                        cur = ip.load(s, th)
                        ty = opsem.tname(cur)
                        good = nparams(cur) == sem.REF[ty][1] and not any(x[0] == 'opt' for x in rget(cur, 'symbolicParameter')[1]) and \
                            sem.close(opsem.unitary(cur, {}, nq), want, 1e-8)
                        ctx.ob(good, "instantiate", w, "instantiate:" + rnd, "instantiating %s yields %s with parameters %s / %s" % (
                            rnd, ty, show(rget(cur, 'parameter')), show(rget(cur, 'symbolicParameter'))[:80]))
                        ctx.ob(rget(cur, 'name') == printed(F, W, ip, rget(cur, 'type')), "name", w, "name:instantiate", "instantiated to %s but named %s" % (ty, show(rget(cur, 'name'))))
                w = "%s: %s%s symbolic %s" % (where(fc), n, tuple(round(x, 3) for x in full), mask)
                with ctx.sub("instantiate", w):
                    rs = ip.run(fc, [assignment(W, a)], this=op)
                    if len(rs) != 1 or rs[0][1][0] != 'return':
                        raise AnalysisError("not decided: %s" % [r[1][0] for r in rs])
                    s, oc, _, th = rs[0]
                    v = oc[1]
                    v = ip.load(s, v[1]) if v[0] in ('ptr', 'loc') else v
                    ctx.ob(sem.close(opsem.unitary(v, {}, nq), want, 1e-8) and nparams(v) == sem.REF[opsem.tname(v)][1], "instantiate", w, "instantiate:copy",
                           "the instantiated copy is %s with parameters %s" % (opsem.tname(v), show(rget(v, 'parameter'))))
                if any(mask):
                    i = mask.index(1)
                    b = {x: y for x, y in a.items() if x != 'xyz'[i]}
                    for f in (fi, fc):
                        w = "%s: %s without a value for one variable" % (where(f), n)
                        with ctx.sub("instantiate", w):
                            rs = ip.run(f, [assignment(W, b)], this=op)
                            ctx.ob(all(r[1][0] == 'throw' for r in rs), "instantiate", w, "instantiate:missing", "a missing variable is not reported")
