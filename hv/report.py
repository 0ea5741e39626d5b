"""Verdicts, evidence and known findings."""
import json, os, sys, time
from . import facts

VERIF = facts.VERIF


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = []          # (key, where, message)
        self.obl = 0
        self.done = 0
        self.und = []           # undecided obligations (never a violation)
        self.counts = {}
        self.rules = []
        self.samples = []
        self.assume = []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, what=None):
        self.obl += 1; self.done += 1
        if what and len(self.samples) < 40:
            self.samples.append(what)

    def bad(self, key, where, msg):
        """A violated obligation. `key` identifies the site independently of line numbers."""
        self.obl += 1
        if not any(v[0] == key and v[2] == msg for v in self.viol):
            self.viol.append((key, where, msg))

    def undecided(self, what, why):
        self.obl += 1
        self.und.append({"what": what, "why": why})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, least):
        if self.counts.get(name, 0) < least:
            self.undecided("coverage", f"only {self.counts.get(name, 0)} {name}, expected at least {least}")

    def selftest(self, driver, analyse, extra=()):
        """Functions named bad* of the driver must be flagged, good* must not."""
        from . import prog
        p = prog.Program([facts.extract(os.path.join(VERIF, "drivers", driver), extra)])
        got = {r[0].name for r in analyse(p) if r[0].name.startswith(("bad", "good"))}
        want = {f.name for f in p.all if f.name.startswith("bad")}
        if got != want or not want:
            raise facts.AnalysisBroken(f"{self.pid}: self test of the rule: flagged {sorted(got)}, expected {sorted(want)}")
        self.count("self-test examples", len([f for f in p.all if f.name.startswith(("bad", "good"))]))

    def finish(self, explanation):
        known = load_known()
        out = []
        for key, where, msg in self.viol:
            k = known.get((self.pid, key))
            if k:
                print(f"KNOWN-FINDING: property={self.pid} {where}: {k}")
            else:
                out.append({"key": key, "where": where, "message": msg})
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        rp = os.path.join(ev, f"{self.pid}.violations.json")
        if out:
            json.dump({"property": self.pid, "violations": out}, open(rp, "w"), indent=1)
        elif os.path.exists(rp):
            os.unlink(rp)
        data = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": explanation,
                "rules": self.rules, "obligations": self.obl, "discharged": self.done,
                "undecided": self.und[:60], "undecided_count": len(self.und),
                "counts": self.counts, "samples": self.samples,
                "known_findings_seen": len(self.viol) - len(out),
            },
            "assumptions": self.assume,
            "wall_s": round(time.time() - self.t0, 3), "violations": len(out),
        }
        json.dump(data, open(os.path.join(ev, f"{self.pid}.json"), "w"), indent=1)
        print(f"{self.pid} [{self.tier}]: {self.obl} obligations, {self.done} discharged, {len(self.und)} undecided, "
              f"{len(self.viol) - len(out)} known, {len(out)} violations; {self.counts}")
        for v in out:
            print(f"  {v['where']}: {v['message']}   [{v['key']}]")
        if out:
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    k = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            k[(d["property"], d["key"])] = d["what"]
    return k
