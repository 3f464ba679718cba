#!/usr/bin/env python3
"""Runs harness/h_model.cpp concretely under symx (Qt model) and natively (real Qt) and compares the printed values."""
import sys, os, re, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
bad = 0
for h in sys.argv[1:] or ("h_model", "h_model2", "h_api"):
    if not os.path.exists(f"{build.V}/harness/{h}.cpp"): continue
    e = build.build([f"bc:{h}", f"native:{h}"])
    if e: print(e); sys.exit(1)
    for entry in re.findall(r"HARNESS\((\w+)\)", open(f"{build.V}/harness/{h}.cpp").read()):
        a = subprocess.run([f"{build.B}/symx", f"{build.B}/{h}.bc", entry, "-v", "--max-inst=1000000000"], capture_output=True)
        b = subprocess.run([f"{build.B}/replay_{h}", entry], capture_output=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", TZ="UTC"))
        ea = [l for l in (a.stdout + a.stderr).decode("latin1").split("\n") if l.startswith("symx:")]; eb = [l for l in b.stdout.decode("latin1").split("\n") if l.startswith("symx:")]
        dif = [(i, x, y) for i, (x, y) in enumerate(zip(ea + ["-"] * 9999, eb)) if x != y]
        print(entry, "model", len(ea), "native", len(eb), "differences", len(dif), "" if b.returncode == 0 else f"native exit {b.returncode}"); bad += len(dif) + (len(ea) < len(eb))
        for d in dif[:8]: print("   ", d, "| prev:", eb[d[0]-1])
        if len(ea) != len(eb): print("   ", a.stderr.decode("latin1")[-600:], b.stderr.decode("latin1")[-600:])
sys.exit(bad != 0)
