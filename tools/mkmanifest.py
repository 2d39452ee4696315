#!/usr/bin/env python3-vt
"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "C23": "floating-point round trip of arbitrary decimal factors: toS truncates the double quotient, so the statement is false for many factors by design of the C formula (e.g. factor 0.1, raw 3), and deciding for which factors it holds is a floating-point theorem outside what this family's back ends decide; recorded as out of scope in DESIGN.md",
 "C24": "whole-program robustness for arbitrary bytes rests on libstdc++'s std::regex, whose recursive matcher overflows the stack on very long lines; no contract on the project's own functions can state or discharge it",
}
PROOF = json.load(open(os.path.join(HERE, "tools", "levels.json"))) if os.path.exists(os.path.join(HERE, "tools", "levels.json")) else {}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    d = PROOF.get(i, {})
    checks.append({"property": i, "quick_cmd": "python3-vt run.py %s quick" % i, "thorough_cmd": "python3-vt run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": d.get("technique", "bounded runs of the real generator against an independent oracle (stand-in; contracts not yet discharged)"),
        "level": d.get("level", "exploration"), "level_note": d.get("note", "bounded: generated DBC inputs through the real tool; trusts the oracle in vlib/")})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q vlib cppvc run.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: contracts and invariants live in /verif/cppvc/specs and are applied to clang's AST of /repo's current sources on every run."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
