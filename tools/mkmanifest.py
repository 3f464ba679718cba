#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from tools/jobs.py and the reasons below.
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from jobs import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C24": "The JSON serializer cannot be compiled here: its parser microjson is a git submodule (src/protobuf/3rdparty/microjson) that is empty in this checkout, so neither the project's build nor a check has the code that decides the property.",
}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = [{"property": i, "quick_cmd": f"python3 tools/run.py {i} quick", "thorough_cmd": f"python3 tools/run.py {i} thorough", "evidence_file": f"evidence/{i}.json",
  "technique": "symbolic execution of /repo's LLVM bitcode with Z3 (bounded), counterexamples replayed natively" if i not in ("C20", "C25", "C27") else "symbolic execution of /repo's LLVM bitcode over all schedules (bounded threads and preemptions) with a happens-before race detector, Z3",
  "level": "model_checking", "level_note": "Within the bounds (" + PROPS[i]["bounds"] + ") every path of the encoded code is decided by the solver. Trusts the Qt model in /verif/model (compared with real Qt), clang 18, symx and Z3. " + PROPS[i].get("outside", "")} for i in ids if i in PROPS]
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. No hooks in /repo; its commits by this work are fix: commits only (known-findings.json)."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
