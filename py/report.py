"""Obligations, violations and evidence."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.obs = []
        self.viol = []
        self.notes = []
        self.assume = []
        self.t0 = time.time()
        self.counts = {}
        self.rule = ""

    def ob(self, ok, what, where="", key=None, detail=None):
        """One obligation: ok says whether it holds."""
        self.obs.append((bool(ok), what, where))
        if not ok:
            self.viol.append({"key": key or what, "what": what, "where": where, "detail": detail})
        return ok

    def bad(self, what, where="", key=None, detail=None):
        return self.ob(False, what, where, key, detail)

    def good(self, what, where=""):
        return self.ob(True, what, where)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def assumption(self, s):
        if s not in self.assume:
            self.assume.append(s)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh).get("findings", [])


def finish(rep, level, explanation):
    """Writes evidence and replay files, prints the verdict, returns the exit code."""
    kf = [k for k in known_findings() if k["property"] == rep.pid and k.get("status") != "fixed"]
    unlisted = []
    for v in rep.viol:
        m = next((k for k in kf if k["key"] == v["key"]), None)
        if m:
            print("KNOWN-FINDING: property=%s %s" % (rep.pid, m.get("what", v["what"])))
        else:
            unlisted.append(v)
    cov = {"explanation": explanation, "rule": rep.rule, "obligations": len(rep.obs),
           "discharged": sum(1 for o in rep.obs if o[0]), "exhaustive": True,
           "samples": [{"ok": o[0], "obligation": o[1], "where": o[2]} for o in rep.obs[:12]]}
    for k, v in rep.counts.items():
        cov["n_" + k] = v
    ev = {"property": rep.pid, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": rep.assume, "wall_s": round(time.time() - rep.t0, 2), "violations": len(unlisted)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if unlisted:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", rep.pid + ".json")
        with open(path, "w") as fh:
            json.dump({"property": rep.pid, "title": rep.title, "violations": unlisted}, fh, indent=1, default=str)
        for v in unlisted[:20]:
            print("  %s: %s" % (v["where"] or "?", v["what"]))
            if v.get("detail"):
                print("      %s" % str(v["detail"])[:600])
        print("VIOLATION property=%s replay=%s" % (rep.pid, path))
        return 1
    print("OK property=%s obligations=%d discharged=%d" % (rep.pid, len(rep.obs), cov["discharged"]))
    return 0
