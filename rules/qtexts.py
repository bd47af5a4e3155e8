"""Programs given to Importer::imports, and how its result is judged (shared by Q01, Q02 and Q03)."""
from rules.common import *
import qrun

V3 = 'OPENQASM 3.0; include "stdgates.inc"; '
V2 = 'OPENQASM 2.0; '


def of_mode(mode, k):
    """does the importer's behaviour k fit? ok: accepted and right; may: right or refused with the documented exception; bad: rejected; any: outside the language, only exceptions that are not documented count"""
    return k in {'ok': ('same',), 'may': ('same', 'refused', 'rejected'), 'bad': ('rejected',), 'any': ('same', 'refused', 'rejected', 'accepted')}[mode]


def program(ctx, Im, rule, mode, text, parts=None):
    """text is the whole program, or parts a list of statements after text that are only separated to report one of them"""
    whole = text + ' '.join(parts or ())
    f = Im.f
    with ctx.sub(rule, whole):
        ctx.counts['programs'] = ctx.counts.get('programs', 0) + 1
        k, m = qrun.judge(whole, Im.run(whole))
        if of_mode(mode, k):
            for p in parts or [text]:
                ctx.ok(rule, where(f) + ": " + (p if parts else text))
            return
        if parts and len(parts) > 1:
            n = 0
            for p in parts:
                k2, m2 = qrun.judge(text + p, Im.run(text + p))
                if not of_mode(mode, k2):
                    n += 1
                    report(ctx, f, rule, mode, k2, m2, text + p, p)
            if n:
                return
        report(ctx, f, rule, mode, k, m, whole, ' '.join(parts) if parts else text)


def report(ctx, f, rule, mode, k, m, text, part):
    import re
    key = re.sub(r'\s+', ' ', part)[:160]
    what = {'refused': "rejects", 'accepted': "accepts the invalid", 'rejected': "rejects", 'same': "accepts"}.get(k, "mistreats")
    ctx.bad(rule, where(f) + ": " + text, "import:" + key, "Importer::imports %s program `%s`%s" % (what, text, ': ' + m if m else ''))


def run(ctx, jobs):
    """jobs: (rule, mode, text, parts)"""
    F = load(ctx, ['ir', 'qasm3'])
    Im = qrun.Import(F)
    jobs = list(jobs)
    parallel(ctx, [lambda c, ch=ch: [program(c, Im, *j) for j in ch] for ch in chunks(jobs, 4)])
    return F
