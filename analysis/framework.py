"""Check driver: obligations, violations, known findings, evidence."""
import importlib
import json
import os
import sys
import time
import traceback

import facts
from facts import AnalysisError, VERIF
import model as model_mod

KNOWN = os.path.join(VERIF, "known_findings.json")
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obligations = []      # (rule, construct, ok, message, where)
        self.notes = []
        self.analysed = set()
        self.paths = 0
        self.samples = []
        self._models = {}

    # -- program
    def model(self, *groups):
        groups = tuple(sorted(groups or ("core",)))
        if groups not in self._models:
            self._models[groups] = model_mod.Model(list(groups))
        return self._models[groups]

    # -- obligations
    def ob(self, rule, construct, ok, msg="", where=""):
        """Records an obligation: `rule` at `construct` (stable name); not ok is a
        violation unless known."""
        self.obligations.append((rule, construct, bool(ok), msg, where))
        return ok

    def need(self, cond, what):
        if not cond:
            raise AnalysisError("anchor vanished: " + what)
        return cond

    def saw(self, *names):
        for n in names:
            self.analysed.add(n if isinstance(n, str) else n.name)

    def interp_done(self, interp, results):
        self.analysed |= interp.analysed
        self.paths += len(results)
        return results


def load_known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN))["findings"]


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ck = Check(pid, tier)
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(ck)
        if not ck.obligations:
            raise AnalysisError("no instance of the property's rules was found")
    except AnalysisError as e:
        if any(not o[2] for o in ck.obligations):
            ck.notes.append("analysis ended early: %s" % e)
        else:
            print("ANALYSIS-ERROR property=%s %s" % (pid, e))
            return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 2
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "known") == "known"]
    viol, seen_known = [], []
    merged = {}
    for rule, construct, ok, msg, where in ck.obligations:
        if ok:
            continue
        key = rule + " @ " + construct
        k = next((k for k in known if k["key"] == key), None)
        if k:
            if k not in seen_known:
                seen_known.append(k)
        else:
            merged.setdefault(key, (rule, construct, msg, where))
    viol = list(merged.values())
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    n = len(ck.obligations)
    d = sum(1 for o in ck.obligations if o[2])
    rules = {}
    for rule, construct, ok, msg, where in ck.obligations:
        r = rules.setdefault(rule, {"instances": 0, "held": 0})
        r["instances"] += 1
        r["held"] += ok
    print("property %s (%s): %d obligations under %d rules, %d hold, %d known findings, %d violations; %d functions analysed, %d paths, %.1f s"
          % (pid, tier, n, len(rules), d, len(seen_known), len(viol), len(ck.analysed), ck.paths, time.time() - t0))
    replay = os.path.join(EVID, pid + ".violations.json")
    if os.path.exists(replay):
        os.unlink(replay)
    cov = {
        "explanation": getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()),
        "obligations": n, "discharged": d, "rules": rules,
        "functions_analysed": sorted(ck.analysed)[:400],
        "functions_analysed_count": len(ck.analysed),
        "paths": ck.paths,
        "samples": [{"rule": r, "construct": c, "holds": ok, "where": w} for r, c, ok, m_, w in ck.obligations[:12]],
        "notes": ck.notes,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    if viol:
        with open(replay, "w") as f:
            json.dump([{"rule": r, "construct": c, "message": m_, "where": w} for r, c, m_, w in viol], f, indent=1)
        for r, c, m_, w in viol:
            print("  %s: %s: [%s] %s" % (w, c, r, m_))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.exit(main(sys.argv[1:]))
