"""Check context: collects obligations, violations and undecided points, writes the evidence and the report."""
import hashlib, json, os, sys, time
from build import VERIF

KNOWN = os.path.join(VERIF, "known-findings.json")


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.violations = []      # (key, message, detail)
        self.undecided = {}
        self.cover = {}
        self.functions = set()
        self.samples = []
        self.assumptions = []
        self.level = "other"
        self.rule = ""
        self.trusted = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ob(self, n=1, ok=True):
        self.obligations += n
        if ok:
            self.discharged += n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, key, msg, detail=None):
        if all(v[0] != key for v in self.violations):
            self.violations.append((key, msg, detail))

    def undec(self, msg, n=1):
        self.undecided[msg] = self.undecided.get(msg, 0) + n

    def merge_machine(self, m, what=""):
        """account for what an interpreter run covered"""
        c = self.cover
        c["mir_steps"] = c.get("mir_steps", 0) + m.nsteps
        c["paths"] = c.get("paths", 0) + m.npaths
        for i in m.covered:
            f = m.P.fns[i]
            if f.crate in ("unicode_normalization", "tinyvec"):
                self.functions.add(f.deff)
        for k, v in m.undecided.items():
            self.undec((what + ": " if what else "") + k, v)

    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN)).get("known", []):
                if e["property"] == self.prop:
                    known[e["key"]] = e
        new = []
        for key, msg, detail in self.violations:
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key].get("what", msg)))
            else:
                new.append((key, msg, detail))
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": self.level, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        cov = dict(self.cover)
        cov["obligations"] = self.obligations
        cov["discharged"] = self.discharged
        cov["rule"] = self.rule
        cov["functions_analysed"] = sorted(self.functions)
        cov["undecided"] = self.undecided
        cov["samples"] = self.samples or ["(none)"]
        cov["checker_cmd"] = "python3 /verif/check.py %s %s" % (self.prop, self.tier)
        cov["trusted_base"] = self.trusted
        cov.setdefault("explanation", self.rule)
        if self.level == "proof" and self.undecided:
            cov["exhaustive"] = False
        ev["coverage"] = cov
        ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d obligations, %d discharged, %d functions, %d undecided, %.1fs" % (
            self.prop, self.tier, self.obligations, self.discharged, len(self.functions),
            sum(self.undecided.values()), time.time() - self.t0))
        for k, v in list(self.undecided.items())[:8]:
            print("  undecided: %s (%d)" % (k, v))
        if not new:
            return 0
        rep = os.path.join(VERIF, "work", "reports")
        os.makedirs(rep, exist_ok=True)
        p = os.path.join(rep, "%s-%s.json" % (self.prop, hashlib.sha1(new[0][0].encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            json.dump([{"key": k, "message": m, "detail": d} for k, m, d in new], f, indent=1, default=str)
        for k, m, d in new[:10]:
            print("  violation: [%s] %s" % (k, m))
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1
