"""Obligations, known findings, evidence and replay files."""
import contextlib, json, os
from facts import VERIF, REPO, AnalysisError

KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []          # (rule, where, ok, key, msg)
        self.counts = {}
        self.samples = []
        self.rules = {}
        self.notes = []
        self.floors = []
        self.und = []          # (rule, where, why): subjects the analysis could not decide
        self.assumptions = []
        self.facts = None

    # -- recording -------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def note(self, t):
        self.notes.append(t)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, rule, where, what=""):
        self.obs.append((rule, where, True, None, what))

    def bad(self, rule, where, key, msg):
        """key: stable identity of the violation (no line numbers)."""
        self.obs.append((rule, where, False, key, msg))

    def ob(self, cond, rule, where, key, msg, what=""):
        if cond:
            self.ok(rule, where, what)
        else:
            self.bad(rule, where, key, msg)
        return cond

    def need(self, rule, n):
        """at least n obligations of that rule must have been analysed; else the
        analysis has lost its subject and gives no verdict"""
        self.floors.append((rule, n))

    def undecided(self, rule, where, why):
        self.und.append((rule, where, str(why)))

    def guard(self, rule, where, f, *a, **kw):
        """run one subject's analysis; when the code left the fragment the analysis decides, the subject is reported
        as undecided (and not counted as held) instead of ending the whole check"""
        try:
            return f(*a, **kw)
        except (AnalysisError, RecursionError) as e:
            self.undecided(rule, where, e)
            return None

    @contextlib.contextmanager
    def sub(self, rule, where):
        try:
            yield
        except (AnalysisError, RecursionError) as e:
            self.undecided(rule, where, e)

    def finish_floors(self):
        und = {r for r, _, _ in self.und}
        for rule, n in self.floors:
            have = sum(1 for o in self.obs if o[0] == rule)
            # undecided subjects may lower the count; a rule that lost most of its subjects gives no verdict
            if have < (n / 3 if und else n):
                raise AnalysisError("rule %s found only %d subjects (need %d)" % (rule, have, n))

    # -- outcome -----------------------------------------------------------
    def known(self):
        try:
            with open(KNOWN) as f:
                return [k for k in json.load(f) if k["property"] == self.pid and k.get("status") == "known"]
        except FileNotFoundError:
            return []

    def violations(self):
        seen, out = set(), []
        for o in self.obs:
            if not o[2] and (o[0], o[3]) not in seen:
                seen.add((o[0], o[3]))
                out.append(o)
        return out

    def new_violations(self):
        ks = {(k["rule"], k["key"]) for k in self.known()}
        return [v for v in self.violations() if (v[0], v[3]) not in ks]

    def report(self, wall):
        vs = self.violations()
        known = {(k["rule"], k["key"]): k for k in self.known()}
        new = [v for v in vs if (v[0], v[3]) not in known]
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        for v in vs:
            if (v[0], v[3]) in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[(v[0], v[3])]["what"]))
        byrule = {}
        for r, w, okk, k, m in self.obs:
            d = byrule.setdefault(r, {"rule": self.rules.get(r, r), "obligations": 0, "discharged": 0})
            d["obligations"] += 1
            d["discharged"] += 1 if okk else 0
        samples, per = [], {}
        for r, w, okk, k, m in self.obs:
            per[r] = per.get(r, 0) + 1
            if per[r] <= 4 or not okk:
                samples.append("%s @ %s: %s%s" % (r, w, "" if okk else "VIOLATED ", m))
        cov = {"explanation": "Static analysis of /repo's current sources (clang-resolved AST). " +
               "; ".join("%s: %s" % (k, v) for k, v in self.rules.items()),
               "obligations": len(self.obs), "discharged": sum(1 for o in self.obs if o[2]),
               "rules": byrule, "analysed": self.counts, "samples": samples[:80]}
        if self.und:
            cov["undecided"] = ["%s @ %s: %s" % u for u in self.und]
        if self.notes:
            cov["notes"] = self.notes
        if self.facts is not None:
            cov["fact_base"] = self.facts
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "wall_s": round(wall, 2),
              "assumptions": self.assumptions or ["clang's parse and type resolution of the sources",
                                                  "the library models in lib/models.py"],
              "violations": len(new)}
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            rp = os.path.join(evd, self.pid + ".replay.txt")
            with open(rp, "w") as f:
                f.write("re-run: cd /verif && python3 check.py %s\n" % self.pid)
                for r, w, okk, k, m in new:
                    f.write("[%s] %s\n   key: %s\n   %s\n" % (r, w, k, m))
            for r, w, okk, k, m in new[:20]:
                print("  %s @ %s: %s" % (r, w, m))
            for u in self.und[:40]:
                print("UNDECIDED property=%s %s @ %s: %s" % ((self.pid,) + tuple(str(x)[:300] for x in u)))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        for u in self.und[:40]:
            print("UNDECIDED property=%s %s @ %s: %s" % ((self.pid,) + tuple(str(x)[:300] for x in u)))
        print("OK property=%s obligations=%d undecided=%d rules=%d wall=%.1fs" % (self.pid, len(self.obs), len(self.und), len(byrule), wall))
        return 0


def where(node, f=None):
    if isinstance(node, dict):
        p = node.get('file') or (f or {}).get('file', '?')
        return "%s:%s (%s)" % (p.replace(REPO + "/", ""), node.get('l', '?'), node.get('n', (f or {}).get('n', '')))
    return str(node)
