import facts
from facts import AnalysisError
from absint import *
from report import where


def load(ctx, groups):
    F = facts.load(groups)
    ctx.facts = {"groups": groups, "translation_units": len(F.tus), "functions": len(F.functions),
                 "classes": len(F.classes)}
    return F


def optypes(F):
    return {c['n']: ('e', 'qc::OpType', c['n'], c['v']) for c in F.enum('qc::OpType')['c']}


def returns(rs):
    return [(s, oc[1]) for s, oc, _, _ in rs if oc[0] == 'return']


_JOBS = None


def _job(i):
    import sys
    sys.setrecursionlimit(20000)
    ctx, jobs = _JOBS
    n, u = len(ctx.obs), len(ctx.und)
    before = dict(ctx.counts)
    jobs[i](ctx)
    out = (ctx.obs[n:], [(r, w, str(x)) for r, w, x in ctx.und[u:]], {k: v - before.get(k, 0) for k, v in ctx.counts.items()})
    del ctx.obs[n:], ctx.und[u:]
    ctx.counts.clear()
    ctx.counts.update(before)
    return out


def parallel(ctx, jobs, procs=None):
    """run independent parts of a check in forked processes; their results are merged in order"""
    global _JOBS
    import multiprocessing, os
    jobs = list(jobs)
    _JOBS = (ctx, jobs)
    procs = min(procs or os.cpu_count() or 4, 8, len(jobs))
    if procs <= 1:
        for j in jobs:
            j(ctx)
        return
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        for obs, und, counts in pool.imap(_job, range(len(jobs)), chunksize=1):
            ctx.obs += obs
            ctx.und += und
            for k, v in counts.items():
                ctx.counts[k] = ctx.counts.get(k, 0) + v
    _JOBS = None


def chunks(xs, k):
    xs = list(xs)
    return [xs[i:i + k] for i in range(0, len(xs), k)]
