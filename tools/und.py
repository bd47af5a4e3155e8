"""summary of a check's undecided subjects and violations"""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
import importlib, report, collections
ctx = report.Ctx(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
importlib.import_module("rules." + sys.argv[1]).check(ctx)
c = collections.Counter((r, str(m)[-160:]) for r, w, m in ctx.und)
for k, n in c.most_common(25): print("UND", n, k)
for r, w, m in ctx.und[:5]: print("   ", r, w, str(m)[:300])
c = collections.Counter((o[0], o[3], o[4]) for o in ctx.obs if not o[2])
for k, n in c.most_common(25): print("BAD", n, k)
import itertools
for k, g in itertools.groupby(sorted([o for o in ctx.obs if not o[2]], key=lambda o: (o[0], o[3])), key=lambda o: (o[0], o[3])):
    for o in list(g)[:3]: print("   ", k, o[1])
print(collections.Counter((o[0], o[2]) for o in ctx.obs))
