"""Gate decision diagrams: structure denotes the controlled gate; range checks."""
from rules.common import *
import itertools
import sem, opsem, ddsem


def check(ctx):
    ctx.rule("embed", "for every placement of targets and positive/negative controls on up to n lines the term "
             "makeGateDD/makeTwoQubitGateDD builds from free node constructors (matrix entries symbolic) denotes the "
             "controlled embedding of the matrix")
    ctx.rule("range", "a target or control at or beyond the package's qubit count is rejected by an exception before "
             "any node is created")
    ctx.rule("dispatch", "getDD hands controls and targets of an operation, mapped through the permutation, to the gate constructor")
    F = load(ctx, ['ir', 'dd'])
    nmax = 5 if ctx.tier == 'thorough' else 4
    ip = Interp(F, hooks=ddsem.HOOKS)
    for nt, name in ((1, 'dd::Package::makeGateDD'), (2, 'dd::Package::makeTwoQubitGateDD')):
        cands = [f for f in F.fns(name) if 'body' in f and any('set<' in p['t'] or 'Controls' in p['t'] for p in f['ps'])]
        if not cands:
            raise AnalysisError("anchor vanished: " + name)
        f = cands[0]
        n = nmax
        for pname, pat in patterns(nt).items():
            mat, env, M = symmatrix(pat, nt)
            nn = n if pname == 'generic' else max(nt + 1, n - 1)
            for ts in itertools.permutations(range(nn), nt):
                rest = [q for q in range(nn) if q not in ts]
                for cs in itertools.product((None, True, False), repeat=len(rest)):
                    ctl = [(q, p) for q, p in zip(rest, cs) if p is not None]
                    w = "%s targets=%s controls=%s matrix=%s" % (where(f), ts, ctl, pname)
                    with ctx.sub("embed", w):
                        this = ('rec', 'dd::Package', sym('this'), (('nqubits', I(nn)),))
                        rs = ip.run(f, [mat, ('vec', tuple(opsem.ctrl(F, q, p) for q, p in ctl))] + [I(t) for t in ts], this=this)
                        want = sem.embed(M, list(ts), nn, ctl)
                        feas = 0
                        for s, oc, _, _ in rs:
                            try:
                                if not sem.holds(s.pc, env):
                                    continue
                                feas += 1
                                if oc[0] != 'return':
                                    ctx.bad("embed", w, "embed:%d:%s:%s" % (nt, kind(ts, ctl), pname), "valid gate rejected: %s" % (oc,))
                                    continue
                                got = ddsem.dmatrix(oc[1], nn, env)
                                good = sem.close(got, want)
                            except sem.Undefined as e:
                                if 'level' in str(e) and 'not decided' not in str(e):
                                    good = False
                                else:
                                    raise AnalysisError("%s: %s" % (w, e))
                            ctx.ob(good, "embed", w, "embed:%d:%s:%s" % (nt, kind(ts, ctl), pname),
                                   "diagram for targets %s controls %s (zero pattern %s) does not denote the controlled gate" % (ts, ctl, pname))
                        if not feas:
                            raise AnalysisError("%s: no feasible path" % w)
        mat = symmatrix(patterns(nt)['generic'], nt)[0]
        # range
        for n in (0, 1, 2, 3):
            bad = []
            for q in (n, n + 1, 1 << 20):
                if nt == 1:
                    bad.append(([q], []))
                    if n > 0:
                        bad.append(([0], [q]))
                else:
                    if n > 0:
                        bad += [([q, 0], []), ([0, q], [])]
                    else:
                        bad.append(([q, q + 1], []))
                    if n > 1:
                        bad.append(([0, 1], [q]))
            for ts, cs in bad:
                for pos in (True, False):
                    if not cs and not pos:
                        continue
                    this = ('rec', 'dd::Package', sym('this'), (('nqubits', I(n)),))
                    with ctx.sub("range", "%s targets=%s" % (where(f), ts)):
                        rs = ip.run(f, [mat, ('vec', tuple(opsem.ctrl(F, q, pos) for q in cs))] + [I(t) for t in ts], this=this)
                        w = "%s nqubits=%d targets=%s controls=%s" % (where(f), n, ts, cs)
                        ctx.ob(all(oc[0] == 'throw' for _, oc, _, _ in rs), "range", w,
                               "range:%d:%s:n%d" % (nt, 'control' if cs else 'target', min(n, 1)),
                               "package of %d qubits accepts targets %s controls %s" % (n, ts, cs))
    dispatch(ctx, F)
    ctx.need("embed", 150)
    ctx.need("range", 20)
    ctx.need("dispatch", 20)


def patterns(nt):
    """zero patterns of a gate matrix: 1 marks a generic symbolic entry"""
    if nt == 1:
        return {'generic': [[1, 1], [1, 1]], 'diag': [[1, 0], [0, 1]], 'anti': [[0, 1], [1, 0]],
                'proj0': [[1, 0], [0, 0]], 'proj1': [[0, 0], [0, 1]]}
    g = {'generic': [[1] * 4 for _ in range(4)]}
    for name in ('SWAP', 'DCX', 'Peres', 'Peresdg', 'ECR', 'RXX', 'RZZ', 'RZX', 'XXminusYY', 'XXplusYY'):
        m = sem.ref(name, sem.POINTS[0])
        g[name] = [[1 if abs(x) > 1e-9 else 0 for x in r] for r in m]
    return g


def symmatrix(pat, nt):
    dim = 1 << nt
    env, M, rows = {}, [[0] * dim for _ in range(dim)], []
    for i in range(dim):
        row = []
        for j in range(dim):
            if not pat[i][j]:
                row.append(rec('std::complex', {'re': Fl(0.), 'im': Fl(0.)}))
                continue
            x = sym('m%d_%d' % (i, j))
            z = complex(0.31 + 0.77 * i - 0.41 * j, -0.2 + 0.13 * i * j + 0.57 * j)
            M[i][j] = env[x] = z
            env[('fld', x, 're')], env[('fld', x, 'im')] = z.real, z.imag
            row.append(x)
        rows.append(row)
    if nt == 1:
        return ('vec', tuple(x for r in rows for x in r)), env, M
    return ('vec', tuple(('vec', tuple(r)) for r in rows)), env, M


def kind(ts, ctl):
    return "c%d" % len(ctl)


def dispatch(ctx, F):
    T = optypes(F)

    def mk(tag):
        def h(ip, e, st, fr, wl):
            return [ip.ret(s.copy(), vs[-1] if vs and vs[-1][0] == 'throwv' else ap(tag, *vs), wl) for s, vs in ip.evs(e['a'], st, fr)]
        return h
    ip = Interp(F, hooks={'dd::Package::makeGateDD': mk('gate1'), 'dd::Package::makeTwoQubitGateDD': mk('gate2')})
    f = F.fn('dd::getDD')
    perm = {0: 2, 1: 3, 2: 0, 3: 1}
    P = [sym('p%d' % i) for i in range(3)]
    env = dict(zip(P, sem.POINTS[0]))
    for name, (k, m, _) in sem.REF.items():
        if k == 0 or name not in T:
            continue
        for ctl in ([], [(0, True)], [(3, False)], [(0, False), (3, True)]):
            ts = [1, 2][:k]
            op = opsem.stdop(F, T, name, P[:m], ts, [opsem.ctrl(F, q, p) for q, p in ctl])
            for mp in ({}, perm):
                pv = rec('qc::Permutation', {'permutation': ('map', tuple((I(a), I(b)) for a, b in mp.items()))})
                w = "%s %s controls=%s permuted=%s" % (where(f), name, ctl, bool(mp))
                with ctx.sub("dispatch", w):
                    for s, oc, _, _ in ip.run(f, [op, sym('dd'), pv, ('b', False)]):
                        if oc[0] != 'return' or oc[1][0] != 'ap' or oc[1][1] not in ('gate1', 'gate2'):
                            ctx.bad("dispatch", w, "dispatch:" + name, "%s is not turned into a gate diagram: %s" % (name, show(oc[1])[:200] if oc[0] == 'return' else oc))
                            continue
                        a = oc[1][2:]
                        try:
                            g = sem.embed(sem.matrix_of(a[0], env), [num(x) for x in a[-k:]], 4, opsem.controls(a[1]) if len(a) > 1 + k else [])
                        except (sem.Undefined, TypeError) as e:
                            raise AnalysisError("%s: %s" % (w, e))
                        want = sem.embed(sem.ref(name, sem.POINTS[0]), [mp.get(t, t) for t in ts], 4, [(mp.get(q, q), p) for q, p in ctl])
                        ctx.ob(sem.close(g, want), "dispatch", w, "dispatch:%s:%s" % (name, bool(mp)),
                               "%s with controls %s (permutation %s) becomes a different gate" % (name, ctl, mp))
