#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
P=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl")) if l.strip()]
NOTE={
 "C01":"",
 "C05":" Interference-by-rely argument per atomic step; no bound on threads or retries.",
 "C06":" Orders are checked on every releasing and destroying step; the happens-before conclusion from them is the C++ memory model's release sequence rule, argued in DESIGN.md.",
 "C08":" One known finding (expired weak_ptr to a virtual base).",
 "C17":" Linearization point: the one critical section; other threads replace the stored pointer at will between sections.",
 "C20":" libstdc++'s own pointers are executed, not specified; C++17 branch of the storage only.",
}
common="Every obligation of the contracts serving this property is generated from /repo's current headers (clang LLVM IR) and discharged for all inputs by xvc (evaluation or z3; thorough: cvc5 confirms). Trusts clang's front end, the VC generator and the models listed in the evidence."
m=dict(version=1,setup_cmd="python3-vt xvc/selftest.py",checks=[],not_applicable=[],
 notes="Contracts: spec/*.cpp. Verifier: xvc/. Driver: run.py. Known findings and repairs: known_findings.txt. No hooks in /repo.")
for p in P:
    i=p["id"]
    m["checks"].append(dict(property=i,quick_cmd="python3-vt run.py %s quick"%i,thorough_cmd="python3-vt run.py %s thorough"%i,evidence_file="evidence/%s.json"%i,
      technique="contract-based deductive verification (C++ contracts on the real headers, VCs from clang LLVM IR, z3/cvc5)",level="proof",level_note=common+NOTE.get(i,"")))
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
