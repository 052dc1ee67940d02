"""Run the scenarios of one property through the symbolic engine, replay what it finds, write the evidence."""
import concurrent.futures as cf
import json, os, subprocess, sys, threading, time
import build, replay
from plan import PLAN, SCEN

V = build.V
KNOWN = os.path.join(V, "KNOWN_FINDINGS.txt")
BUDGET = {"quick": 700, "thorough": 5400}
TRUST = [
    "rustc 1.92.0 and LLVM's optimiser up to the analysed IR (opt-level 2, no debug assertions, target x86-64)",
    "the symbolic interpreter in /verif/engine and z3 4.8.12",
    "stand-ins for seize (a retired object is freed exactly when no guard that could have seen it is active), "
    "parking_lot and portable-atomic in /verif/stubs; the allocator never fails and never reuses an address",
    "sequentially consistent memory except in the h_wm_* and half of the h_rw_wide scenarios, which follow the acquire/release "
    "orderings of the IR (no load buffering)",
]


def known():
    """property, scenario, kind, id  ->  text"""
    out = {}
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("KNOWN ") :
                _, prop, scen, kind, vid, text = l.split(None, 5)
                out[(prop, scen, kind, vid)] = text
    except OSError:
        pass
    return out


procs = set()


def one(job, tier):
    name, part, opts, secs = job
    out = os.path.join(build.B, "runs", f"{name}.{part}.{os.getpid()}.json")
    cmd = [build.ENG, "run", build.LL, name, "--part", str(part), "--out", out, "--secs", str(secs)] + opts
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    procs.add(p)
    try:
        text, _ = p.communicate(timeout=secs + 120)
        o = json.load(open(out))
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        o = {"scenario": name, "status": "incomplete", "reason": "engine timed out", "violations": []}
    except (OSError, ValueError):
        o = {"scenario": name, "status": "error", "reason": "engine gave no result: " + text[-500:], "violations": []}
    procs.discard(p)
    if os.path.exists(out):
        os.remove(out)
    o["part"] = part
    o["elapsed"] = time.time() - t
    return o


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    os.makedirs(os.path.join(build.B, "runs"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    spec = PLAN[prop]
    with build.Lock():
        build.engine()
        build.harness()
        build.replayer()
    t_build = time.time() - t0
    jobs, need = [], {}
    for s in spec["quick"] + (spec.get("thorough", []) if tier == "thorough" else []):
        d = SCEN[s]
        o = list(d.get("opts", []))
        if tier == "thorough":
            o += d.get("thorough_opts", [])
        need[s] = set(d.get("covers", [1]))
        for p in range(d.get("parts", 1)):
            jobs.append((s, p, o, BUDGET[tier]))
    jobs.sort(key=lambda j: -SCEN[j[0]].get("cost", 1))
    res = []
    stop = threading.Event()

    kn = known()

    def go(j):
        if stop.is_set():
            return None
        o = one(j, tier)
        if stop.is_set() and o["status"] in ("error", "incomplete"):
            return None
        s = o["scenario"]
        for i, v in enumerate(o.get("violations", [])):
            v["path"] = os.path.join(V, "replays", f"{prop}-{s}-{o['part']}-{i}.txt")
            replay.write(v["path"], prop, s, v)
            v["ok"], v["text"] = replay.run(v["path"])
            v["known"] = kn.get((prop, s, v["kind"], str(v["id"])))
            if v["ok"] and not v["known"] and tier == "quick":
                stop.set()
                for p in list(procs):
                    p.kill()
        return o

    with cf.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        for o in ex.map(go, jobs):
            if o is not None:
                res.append(o)
    viol, known_hit, problems = [], [], []
    nrep = 0
    for o in res:
        s = o["scenario"]
        if o["status"] in ("error", "incomplete"):
            problems.append(f"{s}/{o['part']}: {o['status']}: {o['reason']}")
        for v in o.get("violations", []):
            nrep += 1
            if not v["ok"]:
                problems.append(f"{s}: engine reports {v['kind']} {v['id']} at {v['at']} but the replay says: {v['text']}")
            elif v["known"]:
                known_hit.append(v["known"])
            else:
                viol.append((v["path"], s, v, v["text"]))
    skipped = len(jobs) - len(res)
    # sampled paths, run natively on the compiled code: the same checks must be reached and hold
    traces, bad = 0, 0
    samp = []
    for o in res:
        for i, t in enumerate(o.get("samples", [])[-2:]):
            path = os.path.join(build.B, "runs", f"s{os.getpid()}.txt")
            replay.write(path, prop, o["scenario"], {"kind": "sample", "id": 0, "detail": "", "at": "", "trace": [], **t})
            rc, text = replay.raw(path)
            want = f"VS-OK {t['asserts']}"
            if (t["panics"] and "VS-EXPECTED-PANIC" in text) or (not t["panics"] and text == want):
                traces += 1
            elif not viol:
                bad += 1
                problems.append(f"{o['scenario']}: sampled path runs differently natively: {text} instead of {want}")
            if len(samp) < 12:
                samp.append({"scenario": o["scenario"],
                             "inputs": {n: v[:20] for n, v in t["inputs"]}, "schedule": t["schedule"][:40]})
    cov = {}
    for o in res:
        if o["status"] == "ok":
            cov.setdefault(o["scenario"], set()).update(int(k) for k in o["covers"])
    if not viol and not skipped:
        for s, c in need.items():
            miss = c - cov.get(s, set())
            if miss:
                problems.append(f"{s}: situations {sorted(miss)} never reached, the check would be vacuous")
    tot = lambda k: sum(o.get(k, 0) for o in res)
    funcs = sorted({f for o in res for f in o.get("functions", []) if "masstree" in f or f.startswith("<")})
    coverage = {
        "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": traces + nrep,
        "samples": samp or ["none"],
        "scenarios": [{k: o.get(k) for k in ("scenario", "part", "status", "reason", "paths", "infeasible", "forks", "steps",
                       "asserts", "asserts_by_solver", "memory_checks", "time_variables", "time_splits", "merged",
                       "merge_points", "writer_log", "conflict_words", "switches", "queries", "sat", "unsat",
                       "unknown", "solver_s", "max_query_s", "wall_s", "covers")} for o in res],
        "bounds": {s: SCEN[s]["bound"] for s in need},
        "functions_encoded": funcs, "functions_encoded_count": len(funcs),
        "queries_discharged": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
        "queries_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 3),
        "assertions_checked": tot("asserts"), "memory_accesses_checked": tot("memory_checks"),
        "harness_jobs": len(jobs), "jobs_not_run": skipped, "build_s": round(t_build, 1),
        "explanation": "states are symbolic paths (each stands for every input value / schedule that satisfies its "
                       "path condition), transitions are IR instructions executed symbolically; traces are sampled "
                       "paths and counterexamples re-run natively on the compiled code.",
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
               "assumptions": TRUST + spec.get("assume", []), "wall_s": round(time.time() - t0, 2),
               "violations": len(viol)}, open(ev, "w"), indent=1)
    for k in sorted(set(known_hit)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    for p in problems:
        print("PROBLEM " + p)
    for path, s, v, text in viol:
        print(f"  {s}: {v['kind']} {v['id']} at {v['at']} {v['detail'][:200]} | replay: {text}")
    if viol:
        print(f"VIOLATION property={prop} replay={os.path.relpath(viol[0][0], V)}")
        return 1
    if problems:
        print(f"INCONCLUSIVE property={prop}")
        return 3
    print(f"OK property={prop} tier={tier}: {len(res)} runs, {tot('paths')} paths, {tot('queries')} queries, "
          f"{tot('asserts')} assertions, {tot('memory_checks')} memory checks, {time.time()-t0:.1f} s")
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    tier = "thorough" if "--thorough" in a else "quick"
    try:
        sys.exit(main(a[0], tier))
    except build.BuildError as e:
        print("PROBLEM " + str(e))
        sys.exit(4)
