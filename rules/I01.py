"""Inversion of operations and circuits."""
from rules.common import *
import itertools
import sem, opsem

REVERSIBLE_META = ('Barrier',)
DOC_THROW = ('None', 'Compound', 'Measure', 'Reset', 'ClassicControlled', 'ATrue', 'AFalse', 'MultiATrue',
             'MultiAFalse', 'Move', 'AodActivate', 'AodDeactivate', 'AodMove', 'OpTypeEnd')


def check(ctx):
    ctx.rule("gate", "for every gate type the state StandardOperation::invert leaves behind denotes the adjoint of "
             "the original (term comparison over symbolic parameters), controls untouched; other types throw")
    ctx.rule("symbolic", "the same for SymbolicOperation::invert with every mixture of symbolic and numeric parameters")
    ctx.rule("container", "inverting a compound operation / circuit inverts every element exactly once and reverses their order; "
             "a circuit also swaps initial layout and output permutation and negates its global phase")
    ctx.rule("dd", "the inverse decision diagram of an operation is built from the adjoint matrix / reversed product")
    F = load(ctx, ['ir', 'dd'])
    T = optypes(F)
    ip = Interp(F)
    ctx.guard("gate", "gates", gates, ctx, F, T, ip)
    ctx.guard("symbolic", "symbolic", symbolic, ctx, F, T, ip)
    ctx.guard("container", "containers", containers, ctx, F, T)
    ctx.guard("dd", "ddinv", ddinv, ctx, F, T)
    ctx.need("gate", 40)
    ctx.need("symbolic", 30)
    ctx.need("container", 8)
    ctx.need("dd", 40)


def cmp_adj(before, after, envs, n, pc=()):
    for env in envs:
        if not sem.holds(pc, env):
            continue
        u, w = opsem.unitary(before, env, n), opsem.unitary(after, env, n)
        if not sem.close(w, sem.dag(u)):
            return False
    return True


def gates(ctx, F, T, ip):
    f = F.fn('qc::StandardOperation::invert')
    P = [sym('p%d' % i) for i in range(3)]
    envs = [dict(zip(P, pt)) for pt in sem.POINTS]
    for name in T:
        k, m, _ = sem.REF.get(name, (2, 0, None))
        op = opsem.stdop(F, T, name, P[:m], range(1, 1 + k), [opsem.ctrl(F, 0, True), opsem.ctrl(F, 3, False)])
        w = where(f) + " type " + name
        with ctx.sub("gate", w):
            rs = ip.run(f, [], this=op)
            for s, oc, fr, th in rs:
                if name in sem.REF or name == 'Barrier':
                    if oc[0] == 'throw':
                        ctx.bad("gate", w, "gate:" + name, "inverting %s throws %s" % (name, oc[1]))
                        continue
                    after = ip.load(s, th)
                    try:
                        good = cmp_adj(op, after, envs, 4, s.pc) if name != 'Barrier' else \
                            rget(after, 'type') == T['Barrier'] and rget(after, 'targets') == rget(op, 'targets')
                    except sem.Undefined as e:
                        raise AnalysisError("%s: %s" % (w, e))
                    ctx.ob(good, "gate", w, "gate:" + name,
                           "inverting %s leaves %s with parameters %s targets %s, which is not its adjoint" %
                           (name, show(rget(after, 'type')), show(rget(after, 'parameter')), show(rget(after, 'targets'))))
                    ctx.ob(rget(after, 'controls') == rget(op, 'controls'), "gate", w, "controls:" + name,
                           "inverting %s changes its controls" % name)
                elif name in DOC_THROW:
                    ctx.ob(oc[0] == 'throw', "gate", w, "gate:" + name, "inverting %s silently succeeds" % name)
                else:
                    ctx.bad("gate", w, "unknown:" + name, "gate type %s has no reference semantics" % name)


def symbolic(ctx, F, T, ip):
    f = F.fn('qc::SymbolicOperation::invert')
    P = [sym('p%d' % i) for i in range(3)]

    def expr(i):
        t = rec('sym::Term', {'coeff': sym('c%d' % i), 'var': sym('x%d' % i)})
        return rec('sym::Expression', {'terms': ('vec', (t,)), 'constant': sym('k%d' % i)})
    envs = []
    for pt in sem.POINTS:
        env = dict(zip(P, pt))
        for i in range(3):
            env[sym('c%d' % i)], env[sym('x%d' % i)], env[sym('k%d' % i)] = 0.3 + i + pt[0], pt[1] - i, pt[2] * (i + 1)
        envs.append(env)
    for name, (k, m, _) in sem.REF.items():
        if name not in T or m == 0:
            continue
        for mask in itertools.product([0, 1], repeat=m):
            op = opsem.stdop(F, T, name, P[:m], range(k), (), cls='qc::SymbolicOperation',
                             symbolicParameter=('vec', tuple(('opt', expr(i)) if b else ('nullopt',) for i, b in enumerate(mask))))
            w = "%s type %s symbolic=%s" % (where(f), name, mask)
            with ctx.sub("symbolic", w):
                for s, oc, fr, th in ip.run(f, [], this=op):
                    if oc[0] == 'throw':
                        ctx.bad("symbolic", w, "symbolic:" + name, "inverting symbolic %s throws %s" % (name, oc[1]))
                        continue
                    after = ip.load(s, th)
                    try:
                        good = cmp_adj(op, after, envs, max(k, 1), s.pc)
                    except sem.Undefined as e:
                        raise AnalysisError("%s: %s" % (w, e))
                    ctx.ob(good, "symbolic", w, "symbolic:" + name, "inverting symbolic %s (mask %s) gives %s / %s" %
                           (name, mask, show(rget(after, 'parameter')), show(rget(after, 'symbolicParameter'))[:300]))


def containers(ctx, F, T):
    def hook(ip, e, st, fr, wl):
        out = []
        for s, l in ip.objloc(e, st, fr):
            v = l[1] if l[0] == 'val' else ip.load(s, l)
            s = s.copy()
            s.event('inv', v)
            out.append(ip.ret(s, ('void',), wl))
        return out
    ip = Interp(F, hooks={'qc::Operation::invert': hook})
    kids = tuple(sym('op%d' % i) for i in range(3))
    for cls in ('qc::CompoundOperation', 'qc::QuantumComputation'):
        f = F.fn(cls + '::invert')
        for n in range(4):
            rs = ip.run(f, [], this=('rec', cls, sym('this'), (('globalPhase', Fl(0.0)), ('ops', ('vec', kids[:n])))))
            w = "%s with %d operations" % (where(f), n)
            swapped = 0
            for s, oc, fr, th in rs:
                v = ip.load(s, th)
                inv = [x[1] for x in s.ev if x[0] == 'inv']
                ctx.ob(sorted(map(repr, inv)) == sorted(repr(ap('*', k)) for k in kids[:n]), "container", w,
                       "each:" + cls, "each element must be inverted exactly once; inverted: %s" % [show(i) for i in inv])
                ctx.ob(rget(v, 'ops') == ('vec', tuple(reversed(kids[:n]))), "container", w, "order:" + cls,
                       "order after inversion is %s" % show(rget(v, 'ops'))[:200])
                if cls.endswith('QuantumComputation'):
                    if rget(v, 'initialLayout') == ('fld', sym('this'), 'outputPermutation') and \
                            rget(v, 'outputPermutation') == ('fld', sym('this'), 'initialLayout'):
                        swapped += 1
                    else:
                        ctx.ob(rget(v, 'initialLayout') == ('fld', sym('this'), 'initialLayout') and
                               rget(v, 'outputPermutation') == ('fld', sym('this'), 'outputPermutation') and bool(s.pc),
                               "container", w, "layout", "initial layout and output permutation are neither swapped nor kept")
            if cls.endswith('QuantumComputation'):
                ctx.ob(swapped > 0, "container", w, "layout-swap", "no path swaps initial layout and output permutation")
    f = F.fn('qc::QuantumComputation::invert')
    for x in (0.0, 0.77, 3.5, 6.1):
        for s, oc, fr, th in ip.run(f, [], this=('rec', 'qc::QuantumComputation', sym('this'), (('globalPhase', Fl(x)), ('ops', ('vec', ()))))):
            gp = num(rget(ip.load(s, th), 'globalPhase'))
            if gp is None:
                raise AnalysisError("global phase after inversion not decided")
            ctx.ob(abs(sem.phase(gp) - sem.phase(-x)) < 1e-9, "container", where(f), "globalPhase",
                   "global phase %s becomes %s on inversion, not its negation" % (x, gp))
    f = F.fn('qc::ClassicControlledOperation::invert')
    for s, oc, fr, th in ip.run(f, []):
        inv = [x for x in s.ev if x[0] == 'inv']
        ctx.ob(len(inv) == 1, "container", where(f), "cc", "the guarded operation is inverted %d times" % len(inv))


def ddinv(ctx, F, T):
    """dd::getDD(..., inverse=true)"""
    P = [sym('p%d' % i) for i in range(3)]
    envs = [dict(zip(P, pt)) for pt in sem.POINTS]

    def mk(two):
        def h(ip, e, st, fr, wl):
            out = []
            for s, vs in ip.evs(e['a'], st, fr):
                s = s.copy()
                out.append(ip.ret(s, vs[-1] if vs[-1][0] == 'throwv' else ap('gate2' if two else 'gate1', *vs), wl))
            return out
        return h
    import ddsem
    ip = Interp(F, hooks={'dd::Package::makeGateDD': mk(False), 'dd::Package::makeTwoQubitGateDD': mk(True),
                          'dd::ComplexNumbers::lookup': ddsem.h_lookup})
    fs = [f for f in F.fns('dd::getDD')]
    if not fs:
        raise AnalysisError("anchor vanished: dd::getDD")
    f = fs[0]
    for name in T:
        if name not in sem.REF:
            continue
        k, m, _ = sem.REF[name]
        ctl = [opsem.ctrl(F, 0, True), opsem.ctrl(F, 3, False)]
        op = opsem.stdop(F, T, name, P[:m], range(1, 1 + k), ctl if name != 'GPhase' else [])
        for inverse in (False, True):
            w = "%s type %s inverse=%s" % (where(f), name, inverse)
            with ctx.sub("dd", w):
                rs = ip.run(f, [op, sym('dd'), ('map', ()) if False else rec('qc::Permutation', {'permutation': ('map', ())}), ('b', inverse)])
                for s, oc, fr, th in rs:
                    if oc[0] != 'return':
                        ctx.bad("dd", w, "dd:%s" % name, "no decision diagram for %s: %s" % (name, oc))
                        continue
                    r = oc[1]
                    good = True
                    try:
                        for env in envs:
                            if not sem.holds(s.pc, env):
                                continue
                            u = opsem.unitary(op, env, 4)
                            if inverse:
                                u = sem.dag(u)
                            if not sem.close(term_unitary(r, env, 4), u):
                                good = False
                    except sem.Undefined as e:
                        raise AnalysisError("%s: %s" % (w, e))
                    ctx.ob(good, "dd", w, "dd:%s:%s" % (name, inverse), "the diagram built for %s (inverse=%s) is %s" %
                           (name, inverse, show(r)[:300]))
    # compound: product order
    def rec_hook(ip, e, st, fr, wl):
        if not ip.stack or ip.stack.count(f['u']) < 1:
            return None
        out = []
        for s, vs in ip.evs(e['a'], st, fr):
            inv = vs[3] if e['n'].endswith('getDD') and len(vs) > 3 else ('b', e['n'].endswith('getInverseDD'))
            out.append(ip.ret(s, ap('DD', vs[0], inv), wl))
        return out

    def mul(ip, e, st, fr, wl):
        return [ip.ret(s, ap('mul', vs[0], vs[1]), wl) for s, vs in ip.evs(e['a'], st, fr)]
    ip2 = Interp(F, hooks={'dd::getDD': rec_hook, 'dd::getInverseDD': rec_hook, 'dd::Package::multiply': mul})
    kids = tuple(sym('k%d' % i) for i in range(3))
    for inverse in (False, True):
        op = ('rec', 'qc::CompoundOperation', None, (('controls', ('vec', ())), ('name', ('s', '')), ('ops', ('vec', kids)), ('parameter', ('vec', ())), ('targets', ('vec', ())), ('type', T['Compound'])))
        w = "%s compound inverse=%s" % (where(f), inverse)
        with ctx.sub("dd", w):
            for s, oc, fr, th in ip2.run(f, [op, sym('dd'), rec('qc::Permutation', {'permutation': ('map', ())}), ('b', inverse)]):
                if oc[0] != 'return':
                    ctx.bad("dd", w, "ddcompound", "compound operation: %s" % (oc,))
                    continue
                fl = flatten(oc[1])
                want = [ap('DD', ap('*', k), ('b', inverse)) for k in (kids if inverse else reversed(kids))]
                ctx.ob(fl == want, "dd", w, "ddcompound:%s" % inverse,
                       "product of a compound operation is %s (%s)" % ([show(x) for x in fl], show(oc[1])[:400]))


def flatten(t):
    if t[0] == 'ap' and t[1] == 'mul':
        return flatten(t[2]) + flatten(t[3])
    if t[0] == 'ap' and t[1] == 'DD':
        return [t]
    return []


def term_unitary(r, env, n):
    if r[0] == 'ap' and r[1] in ('gate1', 'gate2'):
        two = r[1] == 'gate2'
        a = r[2:]
        m = sem.matrix_of(a[0], env)
        nt = 2 if two else 1
        ts = [num(x) for x in a[-nt:]]
        cs = opsem.controls(a[1]) if len(a) > 1 + nt else []
        return sem.embed(m, ts, n, cs)
    if r[0] == 'rec':
        import ddsem
        return sem.scale(ddsem.weight(rget(r, 'w'), env), sem.eye(1 << n))
    raise sem.Undefined("diagram term %s" % show(r)[:200])
