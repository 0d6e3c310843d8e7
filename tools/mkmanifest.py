#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check yet: its specification module and driver are not written"})
        continue
    mods = ", ".join(m["module"] for m in c.get("models", []))
    gens = sorted({g["module"] for x in c["parts"] for g in x["gens"]})
    trs = sorted({x["trace"][0] for x in c["parts"]})
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification: TLC model checking of %s; TLC-generated behaviours (%s) replayed on the real code; recorded traces validated by TLC against %s" % (mods or "the operators", ", ".join(gens), ", ".join(trs)),
        "level": "model_checking",
        "level_note": c.get("note", "The design model is explored exhaustively for its bounds; the code is bound to it by sampled behaviours (conformance of every recorded step), so the code side is exploration, not proof. Trusts TLC, the harness driver's observation (quantised numbers, fingerprints) and LAPACK."),
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: hifir is header-only C++ with inspectable internals, the drivers in harness/ include /repo's headers (and compile libhifir/src) directly. Every check compiles its driver from /repo's working tree."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
