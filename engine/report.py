"""Obligation bookkeeping, evidence, known findings and the verdict line shared by every check."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnalysisBroken(Exception):
    pass


class Report:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rules = {}
        self.bads = []
        self.broken = []
        self.extra = {}
        self.assumptions = []

    def rule(self, rid, text):
        self.rules.setdefault(rid, {"rule": text, "instances": 0, "discharged": 0, "samples": []})

    def ok(self, rid, where, text=""):
        r = self.rules[rid]
        r["instances"] += 1
        r["discharged"] += 1
        if len(r["samples"]) < 4:
            r["samples"].append("%s %s" % (where, text))

    def bad(self, rid, key, where, text):
        r = self.rules[rid]
        r["instances"] += 1
        if not any(b["key"] == key and b["rule"] == rid for b in self.bads):
            self.bads.append({"rule": rid, "key": key, "where": where, "text": text})

    def check(self, cond, rid, key, where, text, good=""):
        if cond:
            self.ok(rid, where, good or text)
        else:
            self.bad(rid, key, where, text)
        return cond

    def need(self, rid, n, what=""):
        """the rule must have matched at least n instances, or the analysis is broken"""
        if self.rules[rid]["instances"] < n:
            self.broken.append("rule %s matched %d instance(s), expected at least %d %s" % (rid, self.rules[rid]["instances"], n, what))

    def anchor(self, cond, what):
        if not cond:
            raise AnalysisBroken("anchor not found: " + what)
        return cond

    def finish(self, level="other", explanation="", functions=0, units=0):
        known = {}
        p = VERIF + "/known_findings.json"
        if os.path.exists(p):
            for k in json.load(open(p)).get("findings", []):
                if k.get("status") == "known":
                    known.setdefault((k["property"], k["rule"], k["key"]), k)
        viol, kf = [], []
        for b in self.bads:
            k = known.get((self.prop, b["rule"], b["key"]))
            (kf if k else viol).append(b)
        inst = sum(r["instances"] for r in self.rules.values())
        disc = sum(r["discharged"] for r in self.rules.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "explanation": explanation,
                "obligations": inst, "discharged": disc,
                "checker_cmd": "python3 /verif/check.py %s" % self.prop,
                "trusted_base": ["clang 18 front end (resolved IR of the current sources)", "odcir dumper and engine/*.py rules",
                                 "the rule tables in engine/checks/%s.py" % self.prop],
                "units_analysed": units, "functions_analysed": functions,
                "rules": self.rules,
                "known_findings": ["%s: %s" % (b["where"], b["text"]) for b in kf],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        ev["coverage"].update(self.extra)
        evd = os.environ.get("ODC_VERIF_EVIDENCE", VERIF + "/evidence")
        os.makedirs(evd, exist_ok=True)
        json.dump(ev, open(evd + "/%s.json" % self.prop, "w"), indent=1)
        print("%s: %d obligations over %d rules, %d discharged, %d functions in %d units" %
              (self.prop, inst, len(self.rules), disc, functions, units))
        for b in kf:
            print("KNOWN-FINDING: property=%s %s %s (%s)" % (self.prop, b["where"], b["text"], b["key"]))
        if viol:
            rp = evd + "/%s.violations.txt" % self.prop
            with open(rp, "w") as f:
                for b in viol:
                    f.write("%s [%s] %s\n    key: %s\n    rule: %s\n" % (b["where"], b["rule"], b["text"], b["key"], self.rules[b["rule"]]["rule"]))
            for b in viol:
                print("  %s [%s] %s {%s}" % (b["where"], b["rule"], b["text"], b["key"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.broken:
            for b in self.broken:
                print("ANALYSIS-BROKEN: " + b)
            return 3
        return 0
