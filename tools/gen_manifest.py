"""Writes MANIFEST.json (one check per property)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
MODULE = {"P01": "TraceValues (Quote, Calendar)", "P20": "TraceValues (Calendar)",
          "P30": "TraceReg (Registry)", "P19": "TraceFrames (Frames, Calendar)"}
for n in list(range(21, 30)):
    MODULE["P%02d" % n] = "TraceFrames (Frames, Calendar)"
for n in list(range(2, 19)) + [31, 32, 33]:
    MODULE["P%02d" % n] = "TraceSystem (System, Frames, Calendar)"
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "./check %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
        "technique": "TLA+ specification checked with TLC; conformance by trace validation and "
                     "replay of behaviours in %s" % MODULE[i],
        "level": "model_checking",
        "level_note": "Bounded models of the specification are checked exhaustively with TLC; the code "
                      "under test is bound to the specification by executing generated histories and "
                      "having TLC validate every recorded step (bounded, seeded sampling plus "
                      "exhaustive small behaviours exported from the models). Trusts TLC, the "
                      "recorder in harness/ and python's zoneinfo tables.",
    })
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "TLA+ checked with TLC. No hooks in /repo: only public API is observed. "
              "Known findings and repairs: known_findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
