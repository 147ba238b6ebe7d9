"""Runs the registered harnesses of one property, confirms counterexamples on the real code, writes the evidence file."""
import os, sys, json, time, subprocess, shutil, threading, hashlib, re
from concurrent.futures import ThreadPoolExecutor, as_completed
import build, registry, props
V = build.V

def run_engine(exe, bc, run, tier, out, tmax, seed):
    cmd = [exe, bc, "--entry", "harness", "--out", out, "--max-time", "%.0f" % tmax, "--max-errors", "3", "--samples", str(run.samples), "--mem", str(run.mem), "--max-steps", str(run.max_steps)]
    if run.random: cmd += ["--random", str(seed)]
    if run.ideal_hash: cmd += ["--ideal-hash"]
    if run.real_hash: cmd += ["--real-hash"]
    for k, v in run.params.items(): cmd += ["-P", "%s=%d" % (k, v)]
    if os.path.exists(out): os.unlink(out)
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmax + 120)
        rc, txt = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, txt = -1, "engine exceeded its time limit"
    if not os.path.exists(out): return {"engine_error": "rc=%s %s" % (rc, txt[-800:]), "wall_s": time.time() - t}
    try: return json.load(open(out))
    except ValueError as e: return {"engine_error": "bad engine output: %s" % e, "wall_s": time.time() - t}

def replay_text(rec):
    l = ["I %s %s" % (n, h) for n, h in rec["inputs"]] + ["H %s %d" % (h, v) for h, v in rec.get("hash", [])]
    return "\n".join(l) + "\n"

FILLS = [None, 0x00, 0xff, 0x41]
def native_run(exe, run, path, fill=None, timeout=60):
    env = dict(os.environ)
    for k, v in run.params.items(): env["SYMX_PARAM_" + k] = str(v)
    env["SYMX_REPLAY"] = path
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=1:detect_stack_use_after_return=1" + ("" if fill is None else ":max_malloc_fill_size=65536:malloc_fill_byte=%d" % fill)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=76"
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""

def confirm(exe, run, path, kind):
    """Does the recorded input break the real code? Returns (bool, text)."""
    last = ""
    for f in FILLS:
        rc, out, err = native_run(exe, run, path, f, 20 if kind == "nontermination" else 60)
        last = "rc=%s %s" % (rc, err.strip()[:1500])
        if rc in (78, 79): return False, last
        if rc == "timeout": return True, "does not terminate"
        if rc != 0: return True, last
    return False, last

def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def match_known(kf, pid, run, err):
    for k in kf:
        if k.get("status") == "fixed" or k["property"] != pid: continue
        if k["harness"] == run.h and k["kind"] == err["kind"] and k["msg"] == err["msg"] and (not k.get("func") or k["func"] == err["func"]) and all(run.params.get(a) == b for a, b in k.get("params", {}).items()): return k
    return None

def check(pid, tier, only=None, keep_going=False):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    prop = registry.PROPS[pid]
    runs = [r for r in prop.runs if r.tier == "q" or tier == "thorough"]
    if only: runs = [r for r in runs if only in r.label()]
    exe, hash_o = build.engine(); d = build.prepare()
    work = os.path.join(build.BUILD, "run-%s-%d" % (pid, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rdir = os.path.join(build.BUILD, "replay", pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    srcs = {}
    for r in runs: srcs.setdefault((r.h, tuple(r.defs)), None)
    def bc_of(k):
        try: return k, build.harness_bc(d, os.path.join(V, "harness", k[0] + ".c"), k[1]), None
        except build.BuildError as e: return k, None, str(e)
    native = {}; nerr = []
    with ThreadPoolExecutor(build.JOBS) as ex:
        for k, p, e in ex.map(bc_of, list(srcs)):
            if e: print("BUILD-ERROR", k, e); return 2
            srcs[k] = p
    budget = prop.budget if tier == "quick" else prop.budget_thorough
    deadline = time.time() + budget
    results = [None] * len(runs)
    def go(i):
        r = runs[i]; left = deadline - time.time(); tm = r.t if tier == "quick" else r.tt
        return i, run_engine(exe, srcs[(r.h, tuple(r.defs))], r, tier, os.path.join(work, "o%d.json" % i), max(8, min(tm, left)), seed + i)
    order = sorted(range(len(runs)), key=lambda i: -runs[i].cost)
    with ThreadPoolExecutor(build.JOBS) as ex:
        nat = ex.submit(lambda: None)
        for f in as_completed([ex.submit(go, i) for i in order]):
            i, res = f.result(); results[i] = res
    # native binaries (ASan+UBSan, real talloc/json-c) for confirmation and path validation
    def nx(k):
        try: return k, build.native_exe(d, os.path.join(V, "harness", k[0] + ".c"), hash_o, k[1]), None
        except build.BuildError as e: return k, None, str(e)
    build.native_lib(d)
    with ThreadPoolExecutor(build.JOBS) as ex:
        for k, p, e in ex.map(nx, list(srcs)):
            if e: print("BUILD-ERROR (native)", k, e); return 2
            native[k] = p
    kf = known(); violations = []; kfound = []; unconfirmed = []; problems = []; validated = 0; diverged = []; jobs = []; samples = []
    tot = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, byte_domain=0, cache_hits=0, asserts_checked=0, assert_queries=0, memory_checks=0, unexplored=0); solver = 0.0; funcs = set(); rinfo = []; nrep = 0
    for i, (r, res) in enumerate(zip(runs, results)):
        if "engine_error" in res: problems.append("%s: %s" % (r.label(), res["engine_error"])); continue
        for k in tot: tot[k] += res.get(k, 0)
        solver += res["solver_s"]; funcs.update(res["functions"])
        miss = [l for l in r.reach if l not in res["reached"]]
        rinfo.append({"run": r.label(), "complete": res["complete"], "paths": res["paths"], "unexplored": res["unexplored"], "queries": res["queries"], "solver_s": res["solver_s"], "wall_s": res["wall_s"], "asserts": res["asserts_checked"], "reached": sorted(res["reached"])[:40], "incomplete": res["incomplete"], "missed_labels": miss})
        if miss: problems.append("%s: labels never reached: %s" % (r.label(), miss))
        nx_ = native[(r.h, tuple(r.defs))]
        for e in res["errors"]:
            nrep += 1; path = os.path.join(rdir, "%s-%d.txt" % (r.h, nrep))
            with open(path, "w") as f: f.write(replay_text(e))
            jobs.append(("err", r, e, path, nx_))
        for j, s in enumerate(res["samples"][:r.samples]):
            path = os.path.join(work, "s%d-%d.txt" % (i, j))
            with open(path, "w") as f: f.write(replay_text(s))
            jobs.append(("sample", r, s, path, nx_))
        if res["samples"]: samples.append({"run": r.label(), "inputs": res["samples"][-1]["inputs"][:12], "obs": res["samples"][-1]["obs"][:4]})
    def dojob(j):
        kind, r, e, path, x = j
        if kind == "err": return j, confirm(x, r, path, e["kind"])
        rc, out, err = native_run(x, r, path)
        got = [tuple((l.split(" ") + [""])[1:3]) for l in out.splitlines() if l.startswith("OBS ")]
        want = [tuple(o) for o in e["obs"]]
        ok = rc == 0 and "SYMX-DONE" in out and got == want
        return j, (ok, "rc=%s %s want=%s got=%s" % (rc, err.strip()[-600:], want[:3], got[:3]))
    with ThreadPoolExecutor(build.JOBS) as ex:
        for j, (ok, txt) in ex.map(dojob, jobs):
            kind, r, e, path, x = j
            if kind == "sample":
                if ok: validated += 1
                else: diverged.append("%s: %s" % (r.label(), txt[:900]))
                continue
            desc = "%s: %s in %s at %s [%s]" % (e["kind"], e["msg"], e["func"], e["loc"], r.label())
            k = match_known(kf, pid, r, e)
            if k: kfound.append((k, desc, ok)); continue
            if ok: violations.append((desc, path, txt))
            else: unconfirmed.append({"what": desc, "inputs": e["inputs"][:20], "native": txt[:300], "stack": e["stack"][:6]})
    seen = set()
    for k, desc, ok in kfound:
        if k["id"] in seen: continue
        seen.add(k["id"]); print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["what"], k["id"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.level, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
          "coverage": {"states": tot["paths"] + tot["unexplored"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": samples[:8],
            "explanation": "Each harness runs the library's own code (LLVM bitcode compiled from /repo's current sources) symbolically; z3 decides every branch, assertion and memory access over all values of the symbolic inputs within the stated bounds. states = symbolic paths, transitions = solver-decided forks; traces_validated_against_impl = recorded paths replayed on an ASan/UBSan build of the same sources with equal observations.",
            "bounds": prop.bounds, "functions_encoded": len(funcs), "functions": sorted(funcs), "runs": rinfo, "queries_discharged": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"], "query_cache_hits": tot["cache_hits"], "queries_decided_on_one_byte_domain": tot["byte_domain"], "solver_s": round(solver, 2), "instructions": tot["instructions"], "assertions_evaluated": tot["asserts_checked"], "assertions_sent_to_solver": tot["assert_queries"], "memory_accesses_checked": tot["memory_checks"],
            "exhaustive": all(x["complete"] for x in rinfo) and not problems, "runs_cut_by_limit": [x["run"] for x in rinfo if not x["complete"]], "unconfirmed_counterexamples": unconfirmed[:10], "replays_diverged": diverged[:10], "known_findings_seen": sorted(seen), "problems": problems[:20]},
          "assumptions": registry.COMMON_ASSUMPTIONS + prop.assumptions}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(V, "evidence", pid + ".json"))
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d runs (%d complete), %d paths, %d queries (%d unsat) + %d one-byte decisions, solver %.1fs, %d asserts, %d/%d replays agree, wall %.1fs" % (pid, tier, len(runs), sum(x["complete"] for x in rinfo), tot["paths"], tot["queries"], tot["unsat"], tot["byte_domain"], solver, tot["asserts_checked"], validated, validated + len(diverged), time.time() - t0))
    if os.environ.get("HBS_VERBOSE"):
        for x in rinfo: print("  ", x["run"], "complete" if x["complete"] else "CUT %s" % x["incomplete"], "paths=%d q=%d solver=%.1f wall=%.1f" % (x["paths"], x["queries"], x["solver_s"], x["wall_s"]))
    for p in problems: print("PROBLEM", p)
    for p in diverged[:5]: print("DIVERGED", p)
    for u in unconfirmed[:8]: print("UNCONFIRMED", json.dumps(u)[:1200])
    shown = set()
    for desc, path, txt in violations:
        key = desc.split(" [")[0]
        if key in shown: continue
        shown.add(key)
        print("  counterexample:", desc); print("   ", re.sub(r"\s+", " ", txt)[:400]); print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations: return 1
    if any("engine_error" in (x or {}) for x in results) or (prop.strict and problems): return 2
    return 0
