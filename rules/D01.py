"""Gate matrices of the DD package."""
from rules.common import *
import sem


def check(ctx):
    ctx.rule("matrix", "the value opTo{Single,Two}QubitGateMatrix returns for a gate type, as a term over the "
             "symbolic parameters, equals the textbook matrix of the gate (hence unitary)")
    ctx.rule("total", "every gate type classified as single-/two-qubit has a matrix, and nothing else does")
    F = load(ctx, ['ir', 'dd'])
    T = optypes(F)
    ip = Interp(F)
    ps = tuple(sym('p%d' % i) for i in range(4))
    pred = {1: F.fn('qc::isSingleQubitGate'), 2: F.fn('qc::isTwoQubitGate')}
    for nt, fn in ((1, 'dd::opToSingleQubitGateMatrix'), (2, 'dd::opToTwoQubitGateMatrix')):
        f = F.fn(fn)
        for name, v in T.items():
            w = where(f) + " for " + name
            with ctx.sub("matrix", w):
                rs = ip.run(f, [v, ('vec', ps)])
                rets = returns(rs)
                cls = [o for _, o in returns(ip.run(pred[nt], [v]))]
                if len(cls) != 1 or cls[0][0] != 'b':
                    raise AnalysisError("classification of %s not decided" % name)
                ctx.ob(bool(rets) == cls[0][1], "total", w, "total:%s:%d" % (name, nt),
                       "%s %s although is%sQubitGate is %s" % (name, "has a matrix" if rets else "has no matrix",
                                                              {1: 'Single', 2: 'Two'}[nt], cls[0][1]))
                if not rets:
                    continue
                if name not in sem.REF:
                    ctx.bad("matrix", w, "noref:" + name, "no reference definition for gate type " + name)
                    continue
                good = True
                for pt in sem.POINTS:
                    env = dict(zip(ps, pt))
                    want = sem.ref(name, pt)
                    feas = 0
                    for s, oc, _, _ in rs:
                        try:
                            if not sem.holds(s.pc, env):
                                continue
                            feas += 1
                            if oc[0] != 'return':
                                good, msg = False, "building the matrix of %s at parameters %s throws" % (name, pt[:sem.REF[name][1]])
                                continue
                            r = oc[1]
                            got = sem.matrix_of(r, env)
                        except (sem.Undefined, OverflowError) as e:
                            raise AnalysisError("matrix of %s not evaluable: %s" % (name, e))
                        if not sem.close(got, want):
                            good = False
                            msg = "matrix of %s at parameters %s is %s, expected %s" % (name, pt[:sem.REF[name][1]], got, want)
                    if not feas:
                        raise AnalysisError("no path of the matrix of %s is feasible at %s" % (name, pt))
                ctx.ob(good, "matrix", w, "matrix:" + name, "" if good else msg)
    ctx.need("matrix", 25)
    ctx.count("gate types", len(T))
