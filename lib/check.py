"""Verdicts, known findings and evidence of one check."""
import json, os, sys, time, traceback
import xgoenv as X

FINDINGS = os.path.join(X.VERIF, "known_findings.txt")


def known_findings(prop):
    """known: property=<id> key=<key> <what fails>"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line.startswith("known: property=%s " % prop):
                continue
            rest = line[len("known: property=%s " % prop):]
            key, _, what = rest.partition(" ")
            out[key[len("key="):]] = what
    return out


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = known_findings(prop)
        self.hit = set()
        self.samples = []

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def violation(self, what, replay, key=None):
        """what: one line; replay: JSON-able, enough to reproduce; key: identity
        of the failing input, looked up among the known findings"""
        if key is not None and key in self.known:
            if key not in self.hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
                self.hit.add(key)
            return
        self.log("deviation:", what, "(key %s)" % key)
        self.violations.append({"what": what, "key": key, "replay": replay})

    def finish(self):
        d = os.path.join(X.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        self.cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": "thorough" if X.THOROUGH else "quick", "seed": X.SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.known:
            self.cov["known_findings_seen"] = sorted(self.hit)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        if not self.violations:
            self.log("held:", {k: v for k, v in self.cov.items() if not isinstance(v, (list, dict))})
            return 0
        path = os.path.join(d, "replay-%s.json" % self.prop)
        json.dump({"property": self.prop, "seed": X.SEED, "tier": X.TIER, "violations": self.violations[:20]},
                  open(path, "w"), indent=1)
        for v in self.violations[:5]:
            print("  " + v["what"][:600])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def main(checks):
    """checks: id -> function(Check); level in function attribute"""
    prop = sys.argv[1]
    fn, level = checks[prop]
    c = Check(prop, level)
    X.scratch()
    try:
        fn(c)
        rc = c.finish()
    except X.BuildViolation as e:
        c.violation("build: " + str(e)[-1500:], {"build": str(e)})
        rc = c.finish()
    except X.CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
