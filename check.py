#!/usr/bin/env python3
"""check.py <ID> [quick|thorough] - decide one property by static analysis of
/repo's current sources.  exit 0 = holds, 1 = VIOLATION, 2 = the analysis could
not be carried out (vanished anchor, extractor failure)."""
import importlib, json, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "lib")]
sys.setrecursionlimit(20000)
from facts import AnalysisError  # noqa: E402
import report  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ctx = report.Ctx(pid, tier)
    mod = importlib.import_module("rules." + pid)

    def late(*_):
        raise AnalysisError("time budget exhausted")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("VP_BUDGET", "800" if tier == "quick" else "7000")))
    try:
        try:
            mod.check(ctx)
        except (AnalysisError, RecursionError) as e:
            if os.environ.get("VP_TRACE"):
                traceback.print_exc()
            if not ctx.obs or not ctx.floors:
                raise AnalysisError(str(e))
            ctx.undecided("analysis", "remaining subjects", e)
        ctx.finish_floors()
    except AnalysisError as e:
        # violations already established by the analysis stand on their own
        if not ctx.new_violations():
            print("ANALYSIS-ERROR property=%s %s" % (pid, e))
            if os.environ.get("VP_TRACE"):
                traceback.print_exc()
            return 2
        ctx.note("analysis stopped early: %s" % e)
    return ctx.report(time.time() - t0)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
