"""Violations, known findings, evidence files."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Violation:
    def __init__(self, prop, rule, where, msg, trace=(), key=None):
        self.prop = prop
        self.rule = rule
        self.where = where
        self.msg = msg
        self.trace = list(trace)
        # identifies the construct independently of line numbers
        self.key = key or msg

    def ident(self):
        return (self.rule, self.where, self.msg)


class Stop(Exception):
    pass


class Result:
    def __init__(self):
        self.violations = []
        self._seen = set()
        self.cov = {}
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.failed = {}
        self.stop_on = None     # end the analysis at the first violation of this property
        self.rules = []
        self.assumptions = []

    def violate(self, prop, rule, where, msg, trace=(), key=None):
        self.failed[prop] = self.failed.get(prop, 0) + 1
        v = Violation(prop, rule, where, msg, trace, key)
        if v.ident() in self._seen:
            return
        self._seen.add(v.ident())
        self.violations.append(v)
        if prop == self.stop_on and not any(
                k.get("property") == prop and k.get("rule") == rule and k.get("key") == v.key
                for k in known()):
            raise Stop()

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def floor(self, what, got, least):
        """an analysis that matched too little has lost its anchor"""
        from ir import AnalysisError
        self.cov[what] = got
        if got < least:
            raise AnalysisError("%s: only %d instances found, expected at least %d" % (what, got, least))


def known():
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l.startswith("finding: "):
                    d = dict(x.split("=", 1) for x in l[9:].split(" | ")[0].split())
                    d["text"] = l[9:].split(" | ", 1)[1] if " | " in l else ""
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def finish(prop, tier, level, res, t0, technique, explanation):
    viols = [v for v in res.violations if v.prop == prop]
    kn = [k for k in known() if k.get("property") == prop]
    new = []
    for v in viols:
        hit = None
        for k in kn:
            if k.get("rule") == v.rule and k.get("key") == v.key:
                hit = k
        if hit is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit["text"] or v.msg))
        else:
            new.append(v)
    evdir = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "obligations": res.obligations,
            "discharged": res.obligations - sum(res.failed.values()),
            "explanation": explanation,
            "rule": "; ".join(res.rules),
            "analysed": res.cov,
            "samples": res.samples[:20],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "assumptions": res.assumptions,
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not new:
        print("%s: held: %s" % (prop, ", ".join("%s=%s" % kv for kv in sorted(res.cov.items()))))
        return 0
    rp = os.path.join(evdir, prop + ".replay.txt")
    with open(rp, "w") as f:
        for v in new:
            f.write("rule: %s\nwhere: %s\nkey: %s\nwhat: %s\n" % (v.rule, v.where, v.key, v.msg))
            for t in v.trace:
                f.write("    %s\n" % t)
            f.write("\n")
    for v in new:
        print("%s: %s: [%s] %s" % (prop, v.where, v.rule, v.msg))
        for t in v.trace[-40:]:
            print("    %s" % t)
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1
