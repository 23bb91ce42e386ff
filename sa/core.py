"""Shared check plumbing: reports, known findings, evidence."""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []       # (key, message)
        self.analysed = {}         # counters
        self.functions = set()
        self.rules = []
        self.obligations = 0
        self.notes = []

    def fail(self, key, msg):
        if not any(k == key for k, _ in self.violations):
            self.violations.append((key, msg))

    def ob(self, n=1):
        self.obligations += n

    def check(self, cond, key, msg):
        """one obligation"""
        self.obligations += 1
        if not cond:
            self.fail(key, msg)
        return cond

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def floor(self, name, n, what=None):
        """fail closed when fewer instances than confirmed by hand were matched"""
        got = self.analysed.get(name, 0)
        self.check(got >= n, "floor:" + name,
                   "only %d instance(s) of %s found, at least %d expected: the rule no longer sees the code it "
                   "was written for%s" % (got, name, n, (" (" + what + ")") if what else ""))

    def fn(self, f):
        self.functions.add("%s (%s:%s)" % (f.d, f.file, f.line))

    def rule(self, text):
        self.rules.append(text)


def load_known():
    """lines: known: property=<id> key=<key> <description>   |   fixed: property=<id> <commit> <what>"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: "):
                parts = ln[len("known: "):].split(" ", 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out.setdefault(pid, {})[key] = parts[2] if len(parts) > 2 else ""
    return out


def finish(rep, tier, t0, meta):
    known = load_known().get(rep.pid, {})
    bad = []
    for key, msg in rep.violations:
        if key in known:
            print("KNOWN-FINDING: property=%s key=%s %s" % (rep.pid, key, known[key]))
        else:
            bad.append((key, msg))
    ev = {
        "property": rep.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": meta["explanation"],
            "technique": "static analysis",
            "analysed": rep.analysed,
            "functions": sorted(rep.functions),
            "rules": rep.rules,
            "obligations": rep.obligations,
            "discharged": rep.obligations - len(rep.violations),
            "known_findings_matched": [k for k, _ in rep.violations if k in known],
            "violations": [{"key": k, "message": m} for k, m in bad],
            "notes": rep.notes,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w"), indent=1)
    if bad:
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, rep.pid + ".txt")
        with open(path, "w") as f:
            f.write("property %s: %d violation(s)\nre-run: python3 /verif/check.py %s --tier %s\n\n" % (rep.pid, len(bad), rep.pid, tier))
            for k, m in bad:
                f.write("[%s]\n%s\n\n" % (k, m))
        for k, m in bad[:20]:
            print("  [%s] %s" % (k, m))
        print("VIOLATION property=%s replay=%s" % (rep.pid, path))
        return 1
    print("ok property=%s obligations=%d functions=%d %.1fs" % (rep.pid, rep.obligations, len(rep.functions), time.time() - t0))
    return 0
