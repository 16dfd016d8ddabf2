"""Shared by the Python-driven checks: seeds, evidence, known findings, replay files."""
import json, os, sys, time, subprocess, random
VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s key=" % pid):
                key, _, what = l.split("key=", 1)[1].partition(" ")
                out[key] = what
    return out

class Report:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.counts = {}
        self.violations = 0
        self.known = known_findings(pid)
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n
    def violation(self, what, replay):
        """replay: JSON-able object that reproduces the failure by --replay"""
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-s%d-%d.json" % (self.pid, SEED, self.violations))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "case": replay}, f, indent=1, default=str)
        print("# %s" % what)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        self.violations += 1
    def finding(self, key, what):
        """A pinned input that fails: listed or a violation."""
        if key in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]))
            return True
        return False
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
               "samples": self.samples[:8], "breakdown": self.counts}
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "exploration",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": self.violations}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("# %s: %d cases, %d distinct non-trivial, %.1f s, %d violations" % (self.pid, self.evals, len(self.nontrivial), time.time() - self.t0, self.violations))
        sys.exit(1 if self.violations else 0)

def build_harness(binname):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--release", "--manifest-path",
                        os.path.join(VERIF, "harness/Cargo.toml"), "--bin", binname], env=env, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        print("check error: the harness does not build against /repo")
        sys.exit(2)
    return os.path.join(VERIF, "harness/target/release", binname)
