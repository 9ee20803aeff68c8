"""Verdicts, known findings, evidence and exit codes shared by all checks."""
import json, os, sys, time
from . import facts
from .facts import AnalysisError

VERIF = facts.VERIF


class Check:
    """A check collects obligations (instances of its rule) and findings, then ends the process:
    0 = every obligation discharged, 1 = VIOLATION printed, 2 = the analysis could not be carried out."""
    def __init__(self, pid, rule):
        self.pid, self.rule, self.t0 = pid, rule, time.time()
        self.obl, self.find, self.cov, self.assume, self.samples, self.floors = {}, {}, {}, [], [], []

    def ok(self, key, text=""):
        """an instance of the rule that was analysed and satisfied"""
        self.obl.setdefault(key, text)

    def bad(self, key, text):
        """an instance of the rule that is violated; key must not depend on line numbers"""
        self.obl.setdefault(key, text)
        self.find.setdefault(key, text)

    def floor(self, what, have, need):
        """the rule must have had at least this many instances (confirmed by hand): else the analysis is broken"""
        self.floors.append((what, have, need))

    def cover(self, **kw):
        self.cov.update(kw)

    def assume_(self, *t):
        self.assume += t

    def finish(self):
        known = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                l = l.rstrip("\n")
                if l.startswith("finding: property=%s " % self.pid):
                    k, _, d = l[len("finding: property=%s " % self.pid):].partition(" :: ")
                    known[k.strip()] = d.strip()
        broken = [f for f in self.floors if f[1] < f[2]]
        new = {k: v for k, v in self.find.items() if k not in known}
        old = {k: v for k, v in self.find.items() if k in known}
        keys = sorted(self.obl)
        cov = dict(explanation=self.rule, obligations=len(self.obl), discharged=len(self.obl) - len(self.find),
                   samples=[(k + (": " + self.obl[k] if self.obl[k] else ""))[:400] for k in keys[:: max(1, len(keys) // 25)]][:30],
                   known_findings=sorted(old), floors=[dict(what=a, measured=b, minimum=c) for a, b, c in self.floors],
                   checker_cmd="python3 check.py " + self.pid, tree=facts.tree_hash(), exhaustive=True)
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=os.environ.get("VERIF_TIER", "quick"), seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=cov, assumptions=self.assume, wall_s=round(time.time() - self.t0, 3), violations=len(new))
        if ev["tier"] not in ("quick", "thorough"):
            ev["tier"] = "quick"
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %d rule instances analysed, %d violated (%d known)" % (self.pid, len(self.obl), len(self.find), len(old)))
        for k, v in self.cov.items():
            if isinstance(v, (int, str)):
                print("  %s: %s" % (k, v))
        for a, b, c in self.floors:
            print("  %s: %d (expected at least %d)" % (a, b, c))
        for k, v in sorted(old.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, k, v))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                f.write("property %s\nrule: %s\nreproduce: cd /verif && python3 check.py %s\n\n" % (self.pid, self.rule, self.pid))
                for k, v in sorted(new.items()):
                    f.write("%s\n    %s\n" % (k, v))
            for k, v in sorted(new.items()):
                print("  violated: %s\n      %s" % (k, v))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            sys.exit(1)
        if broken:
            print("ANALYSIS BROKEN: too few rule instances: %s" % broken, file=sys.stderr)
            sys.exit(2)
        sys.exit(0)


def main(pid, fn):
    try:
        fn()
    except AnalysisError as e:
        print("ANALYSIS ERROR in %s: %s" % (pid, e), file=sys.stderr)
        sys.exit(2)
