"""Check driver: runs one rule, writes evidence, prints verdict lines."""
import json, os, sys, time, traceback
from . import extract

HERE = extract.HERE


class Res:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []        # (id-string, text)
        self.cov = {}
        self.samples = []
        self.oblig = 0
        self.done = 0
        self.assume = []
        self.errors = []

    def ob(self, sample=None):
        """one obligation examined"""
        self.oblig += 1
        if sample and len(self.samples) < 8:
            self.samples.append(sample)

    def bad(self, ident, text):
        if ident not in [v[0] for v in self.viol]:
            self.viol.append((ident, text))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def floor(self, what, n, least):
        """the number of rule instances must not collapse: a rule matching nothing would pass vacuously"""
        self.cov["instances " + what] = n
        if n < least:
            self.errors.append("analysis broken: %s: %d instances, expected at least %d" % (what, n, least))


def load_known():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                rest = l[len("known: property="):]
                pid, _, rest = rest.partition(" ")
                ident, _, text = rest.partition(" :: ")
                out.setdefault(pid, {})[ident.strip()] = text.strip()
    return out


def main(pid, rule, trusted, note):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    res = Res(pid)
    try:
        rule(res, tier)
    except extract.AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    from .db import db
    d = db()
    known = load_known().get(pid, {})
    viol = [v for v in res.viol if v[0] not in known]
    kn = [v for v in res.viol if v[0] in known]
    cov = {"obligations": res.oblig, "discharged": res.oblig - len(res.viol), "checker_cmd": "python3 run.py %s" % pid,
           "trusted_base": trusted, "translation units parsed": d.meta["units"], "function bodies": len(d.fns),
           "explanation": note}
    cov.update(res.cov)
    if res.samples:
        cov["samples"] = res.samples
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": res.assume,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i, t in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, i))
    if viol:
        rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for i, t in viol:
                f.write(i + "\n    " + t.replace("\n", "\n    ") + "\n")
        for i, t in viol:
            print("  %s: %s" % (i, t))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if res.errors:
        for e in res.errors:
            print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    print("OK property=%s obligations=%d %.1fs" % (pid, res.oblig, time.time() - t0))
    return 0
