"""Check one property:  python3-vt vc/run.py PROP [--tier quick|thorough]

1. export the bodies of /repo's current sources reached from the contract file (clang AST);
2. execute every scenario of the property symbolically, generating obligations;
3. discharge every obligation (normaliser, case splits, induction, z3, cvc5);
4. run the same scenarios on the real compiled code (bounded cross-check); when an obligation is
   not discharged, search longer there for a failing input.
Exit 0: held on everything explored; exit 1: violation."""
import sys, os, json, time, subprocess, multiprocessing, pickle, shutil, traceback, signal, re

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
from vc.config import *

T0 = time.time()
NCPU = min(8, os.cpu_count() or 4)
LIBS = "-lnlopt -lboost_serialization -lboost_filesystem -lboost_system -lboost_thread -lboost_unit_test_framework -lpthread".split()
LIBS = "-lnlopt -lboost_filesystem -lboost_system -lboost_thread -lpthread".split()
BASEFLAGS = ["-std=c++14", "-I%s/src" % REPO, "-I/usr/include/eigen3", "-I%s/contracts" % ROOT, "-DUSE_NLOPT", "-w"]


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def flags(f):
    fl = list(BASEFLAGS)
    src = open("%s/contracts/%s.cpp" % (ROOT, f)).read()
    m = re.search(r"^// FLAGS:(.*)$", src, re.M)
    return fl + (m.group(1).split() if m else [])


def libs(f):
    src = open("%s/contracts/%s.cpp" % (ROOT, f)).read()
    m = re.search(r"^// LIBS:(.*)$", src, re.M)
    return LIBS + (m.group(1).split() if m else [])


# ------------------------------------------------------------------ harness
def start_harness(f, work):
    exe = "%s/%s" % (work, f)
    cmd = ["g++", "-O1", "-DVERIF_RT", "-D_GLIBCXX_ASSERTIONS"] + flags(f) + \
        ["%s/contracts/%s.cpp" % (ROOT, f), "%s/rt/verif_rt.cpp" % ROOT, "-o", exe] + libs(f)
    e = open(exe + ".err", "w")
    return exe, subprocess.Popen(cmd, stdout=e, stderr=e), cmd


def run_harness(exe, sc, seed, first, count, secs, cwd):
    os.makedirs(cwd, exist_ok=True)
    try:
        p = subprocess.run([exe, sc, str(seed), str(first), str(count), str(secs)], capture_output=True, text=True, timeout=secs + 90, cwd=cwd)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired:
        return {"status": "hang", "text": "", "rc": None}
    r = {"rc": rc, "text": out, "status": "ok" if rc == 0 else "fail" if rc in (1, 3) else "error"}
    if rc not in (0, 1, 2, 3):
        r["status"] = "fail"
        r["text"] += "\nharness ended with status %s" % rc
    m = re.search(r"^ok runs (\d+) skipped (\d+) distinct (\d+) checks (\d+)", out, re.M)
    if m:
        r.update(runs=int(m.group(1)), skipped=int(m.group(2)), distinct=int(m.group(3)), checks=int(m.group(4)))
    m = re.search(r"^(?:fail|crash) (\d+)", out, re.M)
    if m:
        r["case"] = int(m.group(1))
    r["failed"] = re.findall(r"^failed (.*)$", out, re.M)
    r["inputs"] = re.findall(r"^input (.*)$", out, re.M)
    if r["status"] == "fail" and not r["failed"]:
        r["failed"] = re.findall(r"^crash .*$", out, re.M) or ["harness status %s" % rc]
    return r


# ------------------------------------------------------------------ verification worker
def verify_scenario(prog, name, tier, nchild, outq, deadline):
    """runs in a forked child; results are written to the queue file"""
    from vc.scenario import run_scenario
    from vc.prove import Prover
    from vc.exec import Unsupported
    import vc.terms as tm
    import z3
    res = {"scenario": name, "obls": [], "error": None}
    t0 = time.time()
    try:
        import vc.lemmas as lemmas
        hooks = lemmas.HOOKS
    except ImportError:
        hooks = []
    try:
        pr = Prover(4000 if tier == "quick" else 15000)
        pr.lemmas = list(hooks)
        pr.obl_budget = 90 if tier == "quick" else 240
        pr.global_deadline = deadline
        ex = run_scenario(prog, name, pr)
    except Unsupported as x:
        res["error"] = "outside the verifier's reach: %s" % x
        outq.put(res)
        return
    except RecursionError as x:
        res["error"] = "outside the verifier's reach: recursion limit"
        outq.put(res)
        return
    except Exception as x:
        res["error"] = "verifier error: %s" % "".join(traceback.format_exception(x))[-1500:]
        outq.put(res)
        return
    res["exec_s"] = time.time() - t0
    res["used"] = sorted(set(ex.used.values()))
    res["trusted"] = sorted(ex.trusted)
    res["abstract"] = sorted(ex.abstract)
    res["loops"] = [str(l)[:200] for l in ex.loops]
    res["assumed"] = [tm.show(a)[:300] for a in ex.assumed]
    res["notes"] = sorted(tm.ASSUMED)
    # distinct obligations
    seen = {}
    todo = []
    for o in ex.obls:
        k = (frozenset(h.id for h in o.hyps), o.goal.id, o.kind == "post" and o.label)
        if k in seen:
            continue
        seen[k] = 1
        todo.append(o)
    res["raw"] = len(ex.obls)
    pipes = []
    n = max(1, min(nchild, len(todo)))
    for c in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            try:
                for i in range(c, len(todo), n):
                    o = todo[i]
                    d = {"i": i, "kind": o.kind, "label": o.label, "loc": str(o.loc)}
                    st = pr.solver_time
                    t1 = time.time()
                    try:
                        if time.time() > deadline:
                            d.update(ok=False, how="", note="time limit of the check")
                        else:
                            rr = pr.prove(o.hyps, o.goal)
                            d.update(ok=rr.ok, how=rr.how, note=rr.note)
                    except Unsupported as x:
                        d.update(ok=False, how="", note="unsupported: %s" % x)
                    except Exception as x:
                        d.update(ok=False, how="", note="prover error: %s" % "".join(traceback.format_exception(x))[-800:])
                    d["secs"] = time.time() - t1
                    if o.kind == "post" and d["ok"] and not o.callback:
                        # vacuity: the path reaching the contract must be satisfiable
                        from vc.prove import flat, simple
                        hs = [h for h in flat(o.hyps) if simple(h)]
                        z, _ = pr.check(hs, tm.FALSE, 2000)
                        if z == z3.unsat:
                            d.update(ok=False, how="", note="vacuous: the contract point is unreachable")
                        d["reach"] = str(z)
                    d["solver"] = pr.solver_time - st
                    if not d["ok"]:
                        d["goal"] = tm.show(o.goal)[:3000]
                        d["hyps"] = [tm.show(h)[:200] for h in o.hyps][:40]
                    out.append(d)
            finally:
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(out, fh)
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        try:
            res["obls"] += pickle.loads(data)
        except Exception:
            res["obls"].append({"i": -1, "kind": "safety", "label": "prover process ended abnormally", "loc": "", "ok": False, "how": "", "note": "", "secs": 0, "solver": 0})
    outq.put(res)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = "%s/build/run-%s-%d" % (ROOT, prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    try:
        return check(prop, tier, only, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, only, seed, work):
    from vc.prog import Program
    limit = 700 if tier == "quick" else 840
    deadline = T0 + (520 if tier == "quick" else 640)
    files = FILES[prop]
    # a compiled harness per contract file, in the background
    exes = {f: start_harness(f, work) for f in files}
    exports = {}
    for f in files:
        cmd = ["%s/build/export" % ROOT, "%s/contracts/%s.cpp" % (ROOT, f), "-o", "%s/%s.json" % (work, f),
               "--root=%s/src" % REPO, "--root=%s/contracts" % ROOT, "--"] + flags(f)
        exports[f] = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open("%s/%s.exp" % (work, f), "w"))
    results = []
    broken = []
    scen = []
    rtonly = []
    for f in files:
        if exports[f].wait() != 0 or not os.path.exists("%s/%s.json" % (work, f)):
            broken.append("export of contracts/%s.cpp failed: %s" % (f, open("%s/%s.exp" % (work, f)).read()[-1500:]))
            continue
        prog = Program("%s/%s.json" % (work, f))
        names = sorted(set(fn["ref"]["name"].split("::")[-1] for fn in prog.fns.values()
                           if re.match(r"^verif::%s_\w+$" % prop, fn["ref"]["name"])))
        for n in names:
            if only and not re.search(only, n):
                continue
            (rtonly if n.endswith("_rt") else scen).append((f, prog, n))
    log("exported; %d scenarios, %d run-time only" % (len(scen), len(rtonly)))
    q = multiprocessing.get_context("fork").SimpleQueue()
    running = {}
    pending = list(scen)
    par = min(NCPU, max(1, len(scen)))
    nchild = max(2, (NCPU + par - 1) // par)
    procs = {}
    resmap = {}
    import threading
    got = []

    def reader():
        for _ in range(len(scen)):
            got.append(q.get())
    th = threading.Thread(target=reader, daemon=True)
    ctx = multiprocessing.get_context("fork")
    th_started = False
    started = []
    while pending or any(p.is_alive() for _, p in started):
        while pending and sum(1 for _, p in started if p.is_alive()) < par:
            f, prog, n = pending.pop(0)
            p = ctx.Process(target=verify_scenario, args=(prog, n, tier, nchild, q, deadline))
            p.start()
            started.append((n, p))
        if not th_started:
            th.start()
            th_started = True
        time.sleep(0.05)
        if time.time() > deadline + 90:
            for _, p in started:
                if p.is_alive():
                    subprocess.run(["pkill", "-KILL", "-P", str(p.pid)])
                    p.kill()
            break
    t1 = time.time()
    while len(got) < len(scen) and time.time() < t1 + 3:
        time.sleep(0.05)
    results = list(got)
    have = set(r["scenario"] for r in results)
    for f, prog, n in scen:
        if n not in have:
            results.append({"scenario": n, "obls": [], "error": "outside the verifier's reach: time limit"})
    file_of = {n: f for f, _, n in scen + rtonly}
    # ---- known findings
    known = []
    kf = ROOT + "/known_findings.json"
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "known"]

    def is_known(sc, label):
        return any(k["scenario"] == sc and label.startswith(k["label"]) for k in known)
    failed = {}
    unsupported = {}
    nob = ndis = 0
    hows = {}
    solver = 0.0
    samples = []
    for r in sorted(results, key=lambda r: r["scenario"]):
        n = r["scenario"]
        if r["error"]:
            unsupported[n] = r["error"]
            log(n, "NOT VERIFIED:", r["error"][:600])
            continue
        posts = [o for o in r["obls"] if o["kind"] == "post"]
        if not posts:
            unsupported[n] = "no contract point reached"
        bad = [o for o in r["obls"] if not o["ok"]]
        nob += len(r["obls"])
        ndis += len(r["obls"]) - len(bad)
        for o in r["obls"]:
            solver += o.get("solver", 0)
            if o["ok"]:
                for h in o["how"].split("+"):
                    hows[h] = hows.get(h, 0) + 1
        for o in posts[:2]:
            samples.append("%s: %s -- %s" % (n, o["label"], "proved by " + o["how"] if o["ok"] else "NOT PROVED"))
        if bad:
            failed[n] = bad
        log("%s: %d obligations, %d not discharged (exec %.1fs, slowest %.1fs)" % (n, len(r["obls"]), len(bad), r["exec_s"], max([o["secs"] for o in r["obls"]] or [0])))
        for o in bad[:6]:
            log("   not discharged: [%s] %s (%s)\n            %s" % (o["kind"], o["label"], o["loc"], o["note"][:700]))
    # ---- real code
    hx = {}
    for f in files:
        exe, p, cmd = exes[f]
        rc = p.wait()
        if rc == 0:
            hx[f] = exe
        else:
            broken.append("harness of contracts/%s.cpp does not compile: %s" % (f, open(exe + ".err").read()[-1500:]))
    allsc = [n for _, _, n in scen + rtonly]
    runs = {}

    def batch(jobs):
        """jobs: (scenario, first, count, secs) in parallel"""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(NCPU) as tp:
            fs = [(j, tp.submit(run_harness, hx[file_of[j[0]]], j[0], seed, j[1], j[2], j[3], "%s/h%d" % (work, i))) for i, j in enumerate(jobs) if file_of[j[0]] in hx]
            return [(j, f.result()) for j, f in fs]
    secs = 4 if tier == "quick" else 25
    bounded_runs = 0
    distinct = 0
    violations = []
    failing = {}
    for j, r in batch([(n, 0, 10**7 if tier != "quick" else 20000, secs if n not in unsupported else secs * 3) for n in allsc]):
        runs[j[0]] = r
        if r["status"] in ("fail", "hang"):
            failing[j[0]] = r
        elif r["status"] == "ok":
            bounded_runs += r.get("runs", 0)
            distinct += r.get("distinct", 0)
        else:
            broken.append("harness run of %s: %s" % (j[0], r["text"][-300:]))
    log("real code: %d runs, %d distinct, failing: %s" % (bounded_runs, distinct, sorted(failing)))
    # search for failing inputs where an obligation is open or the scenario is outside reach
    suspects = [n for n in allsc if (n in failed or n in unsupported or n in rtonly) and n not in failing]
    suspects = [n for n in suspects if n not in failed or any(not is_known(n, o["label"]) for o in failed[n])]
    if suspects:
        budget = 40 if tier == "quick" else 90
        k = max(1, NCPU // len(suspects))
        for j, r in batch([(n, 10**6 * (c + 1), 10**6, budget if n in failed else 12) for n in suspects for c in range(k)]):
            if r["status"] in ("fail", "hang") and j[0] not in failing:
                failing[j[0]] = r
            elif r["status"] == "ok":
                bounded_runs += r.get("runs", 0)
                distinct += r.get("distinct", 0)
        log("searched for failing inputs in %s: found %s" % (suspects, sorted(failing)))
    os.makedirs(ROOT + "/replay", exist_ok=True)
    code = 0
    out_lines = []
    nviol = 0
    for n in allsc:
        labels = [o["label"] for o in failed.get(n, [])]
        if n in failing:
            r = failing[n]
            unk = [x for x in r["failed"] if not is_known(n, x)]
            if r["status"] == "fail" and not unk:
                out_lines.append("KNOWN-FINDING: property=%s %s %s" % (prop, n, r["failed"][0]))
                unl = [o for o in failed.get(n, []) if not is_known(n, o["label"])]
                if not unl:
                    continue
                r = None
            else:
                path = replay(prop, n, file_of[n], failed.get(n, []), r, seed)
                out_lines.append("VIOLATION property=%s replay=%s" % (prop, path))
                log("violation in %s: %s" % (n, (unk or ["hang"])[0][:300]))
                nviol += 1
                code = 1
                continue
        if n in failed:
            unl = [o for o in failed[n] if not is_known(n, o["label"])]
            for o in failed[n]:
                if is_known(n, o["label"]):
                    out_lines.append("KNOWN-FINDING: property=%s %s %s" % (prop, n, o["label"]))
            if unl:
                path = replay(prop, n, file_of[n], unl, None, seed)
                out_lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
                nviol += 1
                code = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if scen else "exploration",
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "python3-vt vc/run.py %s --tier %s" % (prop, tier),
            "trusted_base": TRUSTED,
            "trusted_contracts": sorted(set(x for r in results for x in r.get("trusted", []))),
            "functions_under_contract": sorted(set(x for r in results for x in r.get("used", []) if not x.startswith("verif::"))),
            "abstract_functions": sorted(set(x for r in results for x in r.get("abstract", []))),
            "scenarios": [n for _, _, n in scen],
            "loops_closed": sum(len(r.get("loops", [])) for r in results),
            "discharged_by": hows,
            "solver_s": round(solver, 2),
            "bounded_not_proved": {n: unsupported[n] for n in unsupported} or {},
            "bounded_scenarios": [n for _, _, n in rtonly],
            "evaluations": bounded_runs, "distinct_nontrivial": distinct,
            "rule": "bounded cross-check of the same scenarios on the compiled code: random inputs (sizes up to 9); a run is counted as distinct by its full input vector, skipped runs excluded",
            "samples": samples[:12] + ["input of one run of %s: %s" % (n, "; ".join(runs[n].get("inputs", [])[:6])) for n in sorted(runs)[:2]],
        },
        "assumptions": ASSUMPTIONS + sorted(set("precondition in scenario: " + a for r in results for a in r.get("assumed", [])))[:40],
        "wall_s": round(time.time() - T0, 1),
        "violations": nviol,
    }
    if broken:
        ev["coverage"]["explanation"] = "; ".join(broken)[:3000]
    with open("%s/evidence/%s.json" % (ROOT, prop), "w") as fh:
        json.dump(ev, fh, indent=1)
    for b in broken:
        log("PROBLEM:", b)
    for l in out_lines:
        print(l)
    log("%d obligations, %d discharged, %d scenarios outside reach, exit %d" % (nob, ndis, len(unsupported), code))
    if code == 0 and broken and (not results or not hx):
        return 2
    return code


def replay(prop, n, f, obls, r, seed):
    k = 0
    while os.path.exists("%s/replay/%s-%s-%d.json" % (ROOT, prop, n, k)):
        k += 1
    path = "%s/replay/%s-%s-%d.json" % (ROOT, prop, n, k)
    d = {"property": prop, "scenario": n, "contract_file": "contracts/%s.cpp" % f,
         "failed_obligations": [{k: o.get(k) for k in ("kind", "label", "loc", "note", "goal", "hyps")} for o in obls]}
    if r is not None:
        d["failing_input"] = {"case": r.get("case"), "seed": seed, "inputs": r.get("inputs"), "failed": r.get("failed"), "status": r["status"]}
        d["replay_cmd"] = "bash %s/rt/replay.sh %s %s %d %s" % (ROOT, f, n, seed, r.get("case", 0))
    with open(path, "w") as fh:
        json.dump(d, fh, indent=1)
    return path


if __name__ == "__main__":
    sys.exit(main())
