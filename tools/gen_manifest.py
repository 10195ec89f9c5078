#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
TECH = "stateless model checking of the real code: every schedule / environment answer / operation sequence within the bounds"
NOTE = ("Exhaustive within the scenarios and deviation bounds recorded in the evidence file; small numbers of threads and operations per "
        "scenario; sequentially consistent interleavings, then again with stale reads, plus happens-before race, use-after-free, double-close, leak, deadlock and livelock detection. "
        "Trusts the virtual kernel / thread model in mc/ and gcc's instrumentation.")
checks = []
for i in ids:
    if i in PROPS:
        sp = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": sp.get("technique", TECH), "level": "model_checking",
                       "level_note": (sp.get("note", "") + " " + NOTE).strip()})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "Not claimed yet: no harness decides it so far.")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --build-runtime", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the library sources are compiled as they are with -fsanitize=thread instrumentation against our own runtime (mc/)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
