#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and the git history of /repo."""
import json, subprocess
TECH = "contract-based deductive verification of the Go code in /repo (VC generation from its go/ssa form, discharged by z3/cvc5), with execution of the same contracts on generated inputs to find failing inputs"
NOTE_PROOF = "Obligations are generated from the current source and discharged for all inputs, all lengths and all depths under the listed assumptions (closed world of interface types, no aliasing of the contract's own fresh results, int arithmetic of lengths unbounded). "
CHECKS = json.load(open('/verif/tools/levels.json'))
NA = {
 "C22": "The type-string parser is a generated ANTLR recogniser driven by serialized automata and reflection-style visitors from a dependency; no contract on /repo's own functions within the verifier's reach expresses print/parse agreement (it would need a verified grammar interpreter), and a bounded check alone would be another technique.",
 "C23": "A statement about interleavings of goroutines; the verifier is sequential (no ownership or lock invariants for sync.Once and shared maps), so contracts on /repo's functions cannot express it.",
}
props = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"bash /verif/check.sh {p} quick", "thorough_cmd": f"bash /verif/check.sh {p} thorough",
          "technique": c.get("technique", TECH), "level": c["level"], "level_note": (NOTE_PROOF if c["level"] == "proof" else "") + c["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "not yet under contract")})
hooks = {"guard": "verif", "enable": "none: contracts are laid over the tree with overlays; /repo carries no hooks", "source_commits": []}
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na}, open('/verif/MANIFEST.json', 'w'), indent=1)
