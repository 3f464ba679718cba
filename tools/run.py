#!/usr/bin/env python3
"""Runs the check of one property: run.py <PROPERTY> [quick|thorough] [--only=substring] [--keep]

Builds the bitcode of /repo's current tree, symbolically executes the property's harness jobs (tools/jobs.py), replays every
counterexample natively (real Qt, ASan+UBSan) and reports it as a violation only if it reproduces. Exit 0: held on everything explored;
1: violation; 2: the machinery could not run (does not build, or a harness no longer reaches its assertions).
"""
import concurrent.futures as cf, json, os, re, subprocess, sys, time, hashlib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from jobs import PROPS
V, B = build.V, build.B
NPROC = min(8, os.cpu_count() or 8)

def jkey(j): return j["e"] + "".join(f" {k}={v}" for k, v in sorted(j.get("p", {}).items()))

def run_job(a):
    j, deadline, out = a
    left = deadline - time.time()
    if left < 2: return j, {"skipped": True, "exhausted": False}
    to = min(j.get("to", 120), left)
    f = os.path.join(out, hashlib.md5(" ".join([j["h"], jkey(j)] + j.get("opt", [])).encode()).hexdigest() + ".json")
    cmd = [f"{B}/symx", f"{B}/{j['h']}.bc", j["e"], f"--timeout={to:.0f}", f"--out={f}", "--max-errors=6"] + [f"--param={k}={v}" for k, v in j.get("p", {}).items()] + j.get("opt", [])
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to + 90)
    except subprocess.TimeoutExpired as x: p = subprocess.CompletedProcess(cmd, -9, (x.stdout or b"") + b" stopped")
    try: r = json.load(open(f))
    except Exception: r = {"crashed": True, "exhausted": False, "log": p.stdout.decode("latin1")[-2000:], "rc": p.returncode}
    return j, r

def native(j, inputs, path, timeout=60):
    """replay concrete inputs against the real code; returns (reproduced, description)"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(f"# {build.B}/replay_{j['h']} {j['e']} {path}\n" if False else "")
        for k, v in j.get("p", {}).items(): f.write(f"param {k} {v}\n")
        for n, h in inputs: f.write(f"in {n.replace(' ', '_')} {h}\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=88:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=87", QT_LOGGING_RULES="*=false", TZ="UTC")
    try: p = subprocess.run([f"{B}/replay_{j['h']}", j["e"], path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return True, "does not terminate (native run stopped after %d s)" % timeout
    o = p.stdout.decode("latin1")
    if p.returncode in (0, 77): return False, f"exit {p.returncode}"
    m = re.search(r"CHECK-FAILED: .*|SUMMARY: .*|runtime error: .*|terminate called.*", o)
    return True, (m.group(0) if m else f"exit {p.returncode}")

def known(prop):
    p = f"{V}/known-findings.json"
    return [k for k in (json.load(open(p)) if os.path.exists(p) else []) if k["property"] == prop and k["status"] == "known"]

def main():
    prop = sys.argv[1]; tier = next((a for a in sys.argv[2:] if a in ("quick", "thorough")), "quick")
    only = next((a[7:] for a in sys.argv if a.startswith("--only=")), None)
    t0 = time.time(); P = PROPS[prop]; jobs = P["quick"]() if tier == "quick" else P["thorough"]()
    if only: jobs = [j for j in jobs if only in jkey(j)]
    fk = lambda j: " ".join([j["h"], jkey(j)] + j.get("opt", [])); seen = {}; jobs = [seen.setdefault(fk(j), j) for j in jobs if fk(j) not in seen]
    hs = sorted({j["h"] for j in jobs})
    e = build.build([f"bc:{h}" for h in hs])
    if e: print(e); print(f"ERROR property={prop}: the code or its harness does not build"); return 2
    tb = time.time() - t0
    budget = P.get("budget", {}).get(tier, 480 if tier == "quick" else 3000); deadline = time.time() + budget
    out = os.path.join(B, "out", prop); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    rdir = os.path.join(V, ".replay", prop); shutil.rmtree(rdir, ignore_errors=True)
    res = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for j, r in ex.map(run_job, [(j, deadline, out) for j in jobs]): res.append((j, r))
    ne = build.build([f"native:{h}" for h in hs])
    viol, kf, unconf, bad, validated, mism = [], {}, [], [], 0, []
    KN = known(prop)
    cand = []
    for j, r in res:
        for i, er in enumerate(r.get("errors", [])): cand.append((j, er, os.path.join(rdir, re.sub(r"[^\w=]+", "_", j["h"] + " " + jkey(j)) + f"_{i}.replay")))
    samp = []
    for j, r in res:
        if r.get("errors"): continue
        for s in r.get("samples", [])[: (2 if tier == "quick" else 6)]: samp.append((j, [x.split("=", 1) for x in s.split(" ") if "=" in x], os.path.join(out, "s_" + re.sub(r"[^\w=]+", "_", jkey(j)) + f"_{len(samp)}")))
    samp = samp[: (60 if tier == "quick" else 400)]
    if ne and cand: print(ne[-1500:])
    def one(c):
        j, er, path = c
        if ne: return c, (False, "replay build failed")
        nt = 20 if er["kind"] == "nontermination" else 60
        rep = (False, "")
        for _ in range(1): rep = native(j, er["inputs"], path, nt)
        if j.get("trust") and er["kind"] in j["trust"]: rep = (True, rep[1] if rep[0] else f"{er['kind']} in the schedule {er.get('events', '')[:200]} (schedule-dependent: decided by the executor)")
        return c, rep
    def two(s): return s, (native(s[0], s[1], s[2], 60) if not ne else None)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (j, er, path), (rep, why) in ex.map(one, cand):
            d = f"{jkey(j)}: {er['kind']}: {er['msg']} [{er.get('where','')}] native: {why}"
            if not rep: unconf.append(d); print("UNCONFIRMED", d); continue
            k = next((k for k in KN if k["entry"] == j["e"] and k["message"] in er["msg"] and all(j.get("p", {}).get(a) == b for a, b in k.get("params", {}).items())), None)
            if k: kf[k["id"]] = k; continue
            viol.append((d, path, er))
        for s, r in ex.map(two, samp):
            if r is None: continue
            if r[0]:
                # the executor and the real code disagree on a concrete input: only a failed property assertion or a crash of the real code counts
                mism.append((s, r[1]))
            else: validated += 1
    for s, why in mism:
        if any(k["entry"] == s[0]["e"] for k in KN): continue
        path = os.path.join(rdir, "sample_" + os.path.basename(s[2]) + ".replay"); os.makedirs(rdir, exist_ok=True); shutil.copy(s[2], path); viol.append((f"{jkey(s[0])}: native run of a path the executor accepted: {why}", path, {"inputs": s[1]}))
    crashed = [f"{jkey(j)}: executor failed: {r.get('log','')[-300:]}" for j, r in res if r.get("crashed")]
    for c in crashed: print("NOT-EXPLORED", c)
    if crashed and 2 * len(crashed) > len(res): bad += crashed
    for j, r in res:
        if r.get("crashed"): continue
        elif not r.get("errors") and r.get("exhausted") and not r.get("incomplete"):
            miss = [c for c in j.get("cov", ["done"]) if c not in r.get("covers", {})]
            if miss: bad.append(f"{jkey(j)}: never reached {miss}")
    fn = {}
    for j, r in res:
        for n, f, c in r.get("functions", []):
            if f.startswith(build.REPO) or f.startswith(B + "/gen"): fn[n] = f.replace(build.REPO + "/", "").replace(B + "/", "")
    agg = lambda k: sum(r.get(k, 0) for _, r in res)
    inc = {}
    for j, r in res:
        for k, n in r.get("incomplete", {}).items(): inc[k] = inc.get(k, 0) + n
    ex = [jkey(j) for j, r in res if r.get("exhausted") and not r.get("incomplete")]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": agg("paths") + agg("error_paths"), "transitions": agg("forks"), "traces_validated_against_impl": validated,
                       "samples": [f"{jkey(j)}: {s}" for j, r in res[:40] for s in r.get("samples", [])[:1]][:20],
                       "technique": "symbolic execution of the LLVM bitcode of /repo's sources, path conditions and assertions decided by Z3",
                       "states_are": "completed symbolic paths (each stands for all inputs satisfying its path condition)", "transitions_are": "feasible two-way branch decisions on symbolic values",
                       "jobs": len(jobs), "jobs_exhausted": len(ex), "jobs_not_exhausted": [jkey(j) for j, r in res if jkey(j) not in ex],
                       "assertions_checked": agg("checks"), "solver_queries": agg("queries"), "sat": agg("sat"), "unsat": agg("unsat"), "unknown": agg("unknown"), "query_cache_hits": agg("cache_hits"), "solver_s": round(sum(r.get("solver_s", 0) for _, r in res), 2), "instructions": agg("instructions"), "scheduling_points": agg("sched_points"),
                       "exhaustive": len(ex) == len(jobs), "incomplete": inc, "functions_encoded": len(fn), "functions": sorted(f"{n} ({f})" for n, f in fn.items())[:400],
                       "bounds": P["bounds"], "bounds_by_job": {" ".join([j["h"], jkey(j)] + j.get("opt", [])): {"paths": r.get("paths"), "exhausted": r.get("exhausted", False), "wall_s": round(r.get("wall_s", 0), 1)} for j, r in res},
                       "outside": P.get("outside", ""), "unconfirmed": unconf, "executor_failures": crashed, "known_findings": sorted(kf), "build_s": round(tb, 1)},
          "assumptions": P.get("assumptions", []) + ["Qt is replaced by the model in /verif/model, compared with the real Qt by tools/modeltest.py and by the native replay of sample paths", "Z3 4.8.12, clang 18 front end and the symx executor are trusted", "memory allocation does not fail"],
          "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for k in kf.values(): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for b in bad: print("BROKEN", b)
    for d, path, er in viol[:12]:
        print(d); print("  inputs: " + " ".join(f"{a}={b}" for a, b in er["inputs"])[:600]); print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} {tier}: jobs {len(jobs)} exhausted {len(ex)} paths {ev['coverage']['states']} queries {agg('queries')} solver {ev['coverage']['solver_s']}s validated {validated} violations {len(viol)} known {len(kf)} unconfirmed {len(unconf)} wall {ev['wall_s']}s" + (f" incomplete {inc}" if inc else ""))
    if viol: return 1
    return 2 if bad else 0
if __name__ == "__main__": sys.exit(main())
