"""Results of a check: obligations, violations, known findings, evidence."""
from __future__ import annotations
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def loc_str(loc):
    if not loc:
        return "-"
    return "%s:%s (%s)" % (loc[0], loc[1], loc[2].split(":")[-1] if len(loc) > 2 else "")


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []   # (key, text)
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.seen = set()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def undecide(self, what):
        self.obligations += 1
        if what not in self.undecided:
            self.undecided.append(what)

    def violation(self, key, text, loc=None):
        """key: identifies the rule and the construct, not the line."""
        self.obligations += 1
        if key in self.seen:
            return
        self.seen.add(key)
        self.violations.append((key, text, loc_str(loc) if loc else ""))

    def check(self, cond, key, text, loc=None, sample=None):
        if cond is None:
            self.undecide(key)
        elif cond:
            self.ok(sample)
        else:
            self.violation(key, text, loc)
        return cond


def known_findings():
    """{property: [(key, text)]} of the recorded, unrepaired defects."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"KNOWN-FINDING: property=(\S+) \[(.*?)\] (.*)", line.strip())
            if m:
                out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def finish(rep):
    """Print the verdict and write the evidence. -> exit code"""
    known = known_findings().get(rep.prop, [])
    kd = dict(known)
    new = [v for v in rep.violations if v[0] not in kd]
    for key, text in known:
        if any(v[0] == key for v in rep.violations):
            print("KNOWN-FINDING: property=%s %s" % (rep.prop, text))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join("evidence", rep.prop + ".violation.txt")
    rp = os.path.join(VERIF, replay)
    if new:
        with open(rp, "w", encoding="utf-8") as f:
            for key, text, loc in new:
                f.write("%s\n  at %s\n  %s\n\n" % (key, loc or "(see text)", text))
        for key, text, loc in new[:20]:
            print("  %s: %s %s" % (key, text[:400], loc))
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
    elif os.path.exists(rp):
        os.remove(rp)
    cov = {
        "explanation": "Static analysis of the source: " + "; ".join(rep.rules),
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "undecided": rep.undecided[:40],
        "known_findings": [k for k, t in known if any(v[0] == k for v in rep.violations)],
        "analysed": rep.counts,
        "samples": rep.samples,
    }
    data = {
        "property": rep.prop, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
        "assumptions": rep.assumptions or ["the abstract interpreter models the Python constructs it meets (see DESIGN.md)"],
        "wall_s": round(time.time() - rep.t0, 3), "violations": len(new),
    }
    with open(os.path.join(ev, rep.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d violations (%d known), %.1fs"
          % (rep.prop, rep.obligations, rep.discharged, len(rep.undecided), len(new), len(rep.violations) - len(new), time.time() - rep.t0))
    return 1 if new else 0
