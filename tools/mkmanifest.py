#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties with harnesses are claimed."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + "/harness/*.go"):
    have |= set(re.findall(r"^func Q_(C\d+)_", open(f).read(), re.M))
NOTE = {
 "C16": "All histories of calls up to the stated length, the scratch pools modelled adversarially (any earlier item, or a fresh one). ",
 "C17": "All interleavings at synchronisation operations within the stated preemption bound, with happens-before race detection on every access. ",
}
GEN = ("Bounded symbolic execution of the real code: every path of each harness is explored and every assertion is decided by the "
       "solver (or by sound term rewriting) for all values within the bounds stated in the harness's comment (lengths, catalogue of types, options). "
       "Trusted: the engine's SSA semantics (validated by native replay of sampled paths on every run), its models of runtime and "
       "assembly functions, the uninterpreted-function treatment of float digits, z3/cvc5. Outside the bounds nothing is claimed.")
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "technique": "symbolic execution of the Go SSA of the real code with SMT solving (z3, cvc5)",
          "level": "model_checking", "level_note": NOTE.get(i, "") + GEN})
    else:
        m["not_applicable"].append({"property": i, "reason": "no harness yet"})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
