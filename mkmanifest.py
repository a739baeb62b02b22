#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
from bounds import GROUPS
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("symbolic execution (zsym, /verif/engine) of the LLVM IR rustc emits for {what}, all inputs symbolic, "
        "assertions and path feasibility decided by Z3; counterexamples replayed natively")
RT = "/repo/crates/zserio and the bit reader/writer crates it uses"
GC = "the Rust code /repo's generator produces for the schema corpus, together with the runtime"
NOTE = "every value within the bounds printed in the evidence (see DESIGN.md, table of bounds); nothing is claimed beyond them"
checks = []
for p in sorted(GROUPS):
    what = " and of ".join({"rt": RT, "gc": GC}[g] for g in GROUPS[p])
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --thorough",
                   "technique": TECH.format(what=what), "level": "model_checking", "level_note": NOTE})
NA = {
    "C29": "the schema compiler (ANTLR parser, visitor, resolver) works on unbounded texts, hash maps and reference-counted graphs; "
           "no symbolic schema text of useful size is within reach of the engine, and enumerating concrete schemas is not this technique",
    "C30": "the quantifier ranges over hash seeds, file enumeration orders and schema sets of the schema compiler; the code (parser, HashMap iteration, "
           "file system) cannot be encoded for a solver within reach",
}
props = [json.loads(x)["id"] for x in open(f"{HERE}/properties.jsonl")]
for p in props:
    if p not in GROUPS and p not in NA:
        NA[p] = "checks over generated code are being built"
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
     "notes": "No hooks in /repo: harnesses use the public API only. Known and fixed defects: known-findings.txt."}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
