#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when it has a harness."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = check.VERIF
MC = ("stateless model checking of the real code: exhaustive enumeration of thread interleavings up to a "
      "preemption bound under a controlled scheduler, with happens-before pruning and race/lifetime monitors")
SQ = ("explicit enumeration of all operation sequences / programs / inputs up to a depth, executed on the real "
      "code and compared step by step with an executable reference model")
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    fl = [f for _, f in check.targets_of(p["id"])]
    if not fl:
        na.append({"property": p["id"], "reason": "no check has been built for it (model checking would apply)"})
        continue
    tech = "; ".join(([MC] if "mc" in fl else []) + ([SQ] if "seq" in fl else []))
    note = "Holds on every execution within the bounds reported in the evidence file (" + ", ".join(
        (["all interleavings up to a preemption bound of the listed scenarios, sequential consistency"] if "mc" in fl else []) +
        (["all operation sequences/programs of the listed families up to the stated depth"] if "seq" in fl else [])) + \
        "). Trusts the explorer (mcrt/), the reference models in the harnesses and, for library-level " \
        "checks, the stand-ins for sup-dto/sup-xml/sup-log (conformance: the repository's unit tests pass with them)."
    checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": tech,
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library sources are compiled unmodified, with compiler instrumentation, against the runtime in mcrt/."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
