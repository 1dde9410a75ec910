"""Obligations, verdicts, known findings and evidence."""
import json
import os
import time

from .ir import VERIF, REPO

KNOWN = os.path.join(VERIF, "known_findings.json")


class Check(object):
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.notes = []
        self.functions = set()
        self.sites = 0
        self.t0 = time.time()
        self.rules = []

    # ok: True discharged, False violated, None not decidable in this form
    def ob(self, rule, where, ok, detail="", construct=None):
        self.obs.append({"rule": rule, "where": where, "ok": ok, "detail": detail,
                         "construct": construct or where})
        return ok

    def fn(self, f):
        self.functions.add(f.q)
        return f

    def absint(self, a):
        self.functions.add(a.fn.q)
        self.sites += len(a.events)
        return a

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def part(self, f, *args):
        """run one part of a rule; what it cannot handle is undecided"""
        from .ir import AnalysisBroken, BuildBroken
        try:
            return f(self, *args)
        except BuildBroken:
            raise
        except AnalysisBroken as e:
            self.ob("part " + f.__name__, f.__name__, None, str(e))
        except Exception as e:
            if os.environ.get("EL_DEBUG"):
                raise
            self.ob("part " + f.__name__, f.__name__, None, "%s: %s" % (type(e).__name__, e))

    def note(self, text):
        self.notes.append(text)

    def finish(self, assumptions=()):
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = json.load(f).get("findings", [])
        bad, listed = [], []
        for o in self.obs:
            if o["ok"] is False:
                key = o["rule"] + "|" + o["construct"]
                k = [x for x in known if x.get("status") == "open" and x["property"] == self.pid and x["key"] == key]
                (listed if k else bad).append((o, key))
        dis = sum(1 for o in self.obs if o["ok"] is True)
        und = [o for o in self.obs if o["ok"] is None]
        byrule = {}
        for o in self.obs:
            r = byrule.setdefault(o["rule"], {"instances": 0, "discharged": 0, "violated": 0, "undecided": 0})
            r["instances"] += 1
            r["discharged" if o["ok"] is True else "violated" if o["ok"] is False else "undecided"] += 1
        cov = {
            "explanation": "Static analysis of the current sources: each obligation is decided from the normalised "
                           "intermediate representation of the listed functions by the named rule; nothing is executed. "
                           "Undecided obligations are reported here and never raise an alarm.",
            "functions_analysed": sorted(self.functions),
            "functions": len(self.functions),
            "sites_visited": self.sites,
            "obligations": len(self.obs),
            "discharged": dis,
            "undecided": len(und),
            "rules": byrule,
            "rule": "; ".join(self.rules),
            "samples": [{k: str(o[k])[:300] for k in ("rule", "where", "ok", "detail")} for o in self.obs[:12]],
            "undecided_list": [{k: str(o[k])[:300] for k in ("rule", "where", "detail")} for o in und[:40]],
            "known_findings": [k for _, k in listed],
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o, k in listed:
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (self.pid, o["rule"], o["where"], o["detail"]))
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d functions, %d sites, %.1fs)" % (
            self.pid, len(self.obs), dis, len(und), len(bad), len(self.functions), self.sites, time.time() - self.t0))
        if bad:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            for n, (o, k) in enumerate(bad):
                p = os.path.join(rd, "%s-%d.json" % (self.pid, n + 1))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "rule": o["rule"], "key": k, "where": o["where"], "detail": o["detail"],
                               "repo": REPO, "rerun": "python3 -m elcheck %s" % self.pid}, f, indent=1)
                print("  %s at %s: %s" % (o["rule"], o["where"], o["detail"]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        if not self.obs:
            print("no obligations were found: anchors vanished")
            return 2
        return 0
