#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
PY = {"C17": "c17.py", "C27": "c27.py"}
TECH = {
 "C01": "property-based testing: random formula text printed from a reference term, compared at points with an interval-free error-bound evaluator",
 "C02": "fuzzing: structured, mutated and raw text through the parser with panic/hang/abort detection and accept/reject relations",
 "C03": "property-based testing: print/parse round trip compared at random points",
 "C04": "property-based testing: independent reader of LaTeX/Unicode output, compared at random points",
 "C05": "property-based testing: operator programs against a reference term",
 "C06": "property-based testing: equivalence/order/hash laws on constructed equal and unequal pairs",
 "C07": "property-based testing: staged substitution against a reference evaluator",
 "C08": "property-based testing: symbolic derivatives against forward-mode AD with error bounds on a reference term",
 "C09": "property-based testing: metamorphic relations among derivative APIs and AD reference",
 "C10": "property-based testing: value preservation of domain-safe simplification at random real points",
 "C11": "property-based testing: value preservation of default simplification at positive points",
 "C12": "property-based testing: termination, size, closure and history-independence of simplification",
 "C13": "differential property-based testing: compiled against symbolic evaluation and reference",
 "C14": "differential property-based testing: batch, SIMD and parallel against scalar evaluation",
 "C15": "differential property-based testing: evaluate_parallel against single evaluations",
 "C16": "property-based testing with malformed requests against a model of the valid shapes",
 "C17": "property-based testing: random arguments against mpmath at 40 digits",
 "C18": "metamorphic property-based testing: functional equations at random orders and arguments",
 "C19": "property-based testing: dual programs against independent AD and symbolic derivative",
 "C20": "property-based testing: user functions against inlined bodies",
 "C21": "stateful model-based property testing of the symbol registry",
 "C22": "stateful model-based property testing of several contexts",
 "C23": "randomised concurrent workloads against sequential results",
 "C24": "property-based testing: options and limits against independent counting and metamorphic relations",
 "C25": "property-based testing: quadratic form computed from AD reference",
 "C26": "property-based testing: view/rebuild/substitute/map against reference term",
 "C27": "property-based testing of the Python package against mathematics and reference values",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PY:
        ok = os.path.exists(f"{V}/py/{PY[i]}")
        cmd = f"python3-vt py/{PY[i]}"
    else:
        ok = os.path.exists(f"{V}/harness/src/bin/{i.lower()}.rs")
        cmd = f"./run.sh {i.lower()}"
    if not ok:
        na.append({"property": i, "reason": "check not built yet (property-based testing applies)"})
        continue
    checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": TECH[i], "level": "exploration",
                   "level_note": "Held on every generated case of the run; the counts are in the evidence file. Trusts the reference oracle described in DESIGN.md and, for floating point, its error bounds."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public API of the library only. Known findings and repairs are listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
