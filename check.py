#!/opt/venv/bin/python
"""Decide one property.

    check.py Cxx            quick tier (VERIF_TIER=quick)
    check.py --thorough Cxx thorough tier
    check.py --replay FILE  run a recorded counterexample on the real code
"""
import os
import sys
import json
import time
import glob
import signal
import shutil
import hashlib
import tempfile
import subprocess
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
ROOT = os.environ.get("HICKLE_ROOT", "/repo")
if not os.path.isfile(os.path.join(ROOT, "hickle", "__init__.py")):
    print("no hickle package in %s" % ROOT)
    sys.exit(2)


def modules(prop):
    """scenario modules of a property"""
    return ["scenarios." + os.path.basename(f)[:-3] for f in sorted(glob.glob(os.path.join(HERE, "scenarios", "%s_*.py" % prop.lower())))]


def start_server(scratch, mods):
    sock = os.path.join(scratch, "sock")
    runs = os.path.join(scratch, "runs")
    os.mkdir(runs)
    env = dict(os.environ, HOME=scratch, PYTHONPATH=HERE)
    p = subprocess.Popen([sys.executable, "-m", "sx.replay", sock, runs] + mods, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=HERE, env=env, start_new_session=True, text=True)
    return p, sock


def wait_ready(p):
    line = p.stdout.readline()
    if line.strip() != "ready":
        err = p.stderr.read()
        return err[-3000:] or "replay server did not start"
    return None


def worker(conn, sock, todo):
    from sx import symctx, replay, harness
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    client = replay.Client(sock)
    while True:
        job = conn.recv()
        if job is None:
            break
        key, params, deadline, max_paths, max_replays = job
        try:
            r = symctx.explore(key, params, deadline, max_paths, lambda a: client(key, params, a), max_replays)
        except BaseException as e:
            import traceback
            r = {"scenario": key, "params": params, "error": traceback.format_exc()[-3000:], "violations": [], "mismatches": []}
        conn.send(r)


def known_findings(prop):
    out = []
    fn = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                out.append(d)
    return out


def matches(finding, v):
    """a listed finding covers a violation of the same scenario, parameters and failure"""
    return finding.get("scenario") == v["scenario"] and all(v["params"].get(k) == x for k, x in finding.get("params", {}).items()) \
        and finding.get("message", "\0") in v["message"]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay_file(args[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
        args.remove("--thorough")
    only = None
    if "--only" in args:
        i = args.index("--only")
        only = args[i + 1]
        del args[i:i + 2]
    verbose = "-v" in args
    args = [a for a in args if a != "-v"]
    prop = args[0]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "300" if tier == "quick" else "3000"))
    deadline = t0 + budget
    mods = modules(prop)
    if not mods:
        print("no scenarios for", prop)
        return 2
    scratch = tempfile.mkdtemp(prefix="vx")
    server = None
    procs = []
    try:
        server, sock = start_server(scratch, mods)
        prep_error = None
        try:
            from sx import symctx, harness
            symctx.prepare(ROOT)
        except Exception:
            import traceback
            prep_error = traceback.format_exc()
            from sx import harness
        for m in mods:
            __import__(m)
        err = wait_ready(server)
        jobs = []
        for s in harness.SCENARIOS.values():
            if s.prop != prop or (only and only not in s.key):
                continue
            for params in (s.thorough if tier == "thorough" and s.thorough is not None else s.quick):
                jobs.append((s.key, params))
        if err or prep_error:
            # the package cannot even be imported: every property of it is gone
            v = {"scenario": "import", "params": {}, "message": (err or prep_error)[-1500:], "assignment": {}, "how": "import of the package fails"}
            if err:
                return report(prop, tier, t0, [], [v], scratch, [], "import fails")
            print("INTERNAL: symbolic import failed\n" + prep_error)
            return report(prop, tier, t0, [], [], scratch, [], "symbolic import failed: " + prep_error[-500:])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        max_paths = 20000 if tier == "quick" else 400000
        max_replays = 60 if tier == "quick" else 400
        queue = [(k, p, deadline, max_paths, max_replays) for k, p in jobs]
        n = min(int(os.environ.get("VERIF_JOBS", "8")), len(queue)) or 1
        ctxm = mp.get_context("fork")
        idle = []
        for _ in range(n):
            a, b = ctxm.Pipe()
            p = ctxm.Process(target=worker, args=(b, sock, None), daemon=True)
            p.start()
            b.close()
            procs.append((p, a))
        results = []
        busy = {}
        for p, a in procs:
            if queue:
                a.send(queue.pop(0))
                busy[a] = p
        from multiprocessing.connection import wait
        stop = False
        hard = deadline + 60
        while busy:
            for a in wait(list(busy), timeout=5):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"scenario": "?", "params": {}, "error": "worker died", "violations": [], "mismatches": []}
                    results.append(r)
                    del busy[a]
                    continue
                results.append(r)
                if verbose:
                    summary(r)
                if r["violations"]:
                    stop = True
                if queue and (not stop or os.environ.get("VERIF_ALL") == "1") and time.time() < deadline:
                    a.send(queue.pop(0))
                else:
                    del busy[a]
            if stop and os.environ.get("VERIF_ALL") != "1":
                break
            if time.time() > hard:
                break
        left = [q[:2] for q in queue] + (["unfinished"] * len(busy))
        viol = []
        for r in results:
            for v in r["violations"]:
                viol.append(dict(v, scenario=r["scenario"], params=r["params"]))
        return report(prop, tier, t0, results, viol, scratch, left, None)
    finally:
        for p, a in procs:
            p.kill()
        if server is not None:
            try:
                os.killpg(server.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            server.wait()
        subprocess.run(["pkill", "-KILL", "-f", scratch], check=False) if False else None
        shutil.rmtree(scratch, ignore_errors=True)


def summary(r):
    if "error" in r:
        print("ERROR", r["scenario"], r["params"], r["error"])
        return
    print("%-40s %-40s paths=%d dec=%d q=%d st=%.1f disch=%d replay=%d wall=%.1f exh=%s %s%s%s" % (
        r["scenario"], json.dumps(r["params"]), r["paths"], r["decisions"], r["queries"], r["solver_time"], r["discharged"], r["replayed"],
        r["wall"], r["exhausted"], "SKIP " + r["skip"] if r["skip"] else "", r["incomplete"] or "", " ABORTS %s" % r["aborts"] if r["aborts"] else ""))
    for v in r["violations"]:
        print("    VIOL", v["message"], "|", v.get("model_message"), "|", v["how"], show(v["assignment"]))
    for v in r["mismatches"][:3]:
        print("    MISMATCH", v["message"], "|", v["real"], show(v["assignment"]))


def show(a):
    from sx.harness import show
    return show(a)


def report(prop, tier, t0, results, viol, scratch, left, note):
    from sx.harness import show
    found = known_findings(prop)
    new, old = [], []
    for v in viol:
        f = next((f for f in found if matches(f, v)), None)
        (old if f else new).append((v, f))
    for f in found:
        hit = any(g is f for _, g in old)
        print("KNOWN-FINDING: property=%s %s%s" % (prop, f["what"], "" if hit else " (not reached in this run)"))
    ok = [r for r in results if "error" not in r]
    agg = lambda k: sum(r[k] for r in ok)
    incomplete = {}
    for r in ok:
        for k, n in r["incomplete"].items():
            incomplete[k] = incomplete.get(k, 0) + n
    executed = sorted({f for r in ok for f in r["executed"]})
    mism = [dict(m, scenario=r["scenario"], params=r["params"]) for r in ok for m in r["mismatches"]]
    errors = [r["error"][-400:] for r in results if "error" in r]
    exhausted = all(r["exhausted"] or r["skip"] for r in ok) and not left and not errors
    vacuous = sorted({r["scenario"] for r in ok if not r["skip"] and r["checks"] == 0 and not r["violations"]})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": max(agg("paths"), 0), "transitions": agg("decisions"),
            "traces_validated_against_impl": agg("replayed"),
            "samples": [{"scenario": r["scenario"], "params": r["params"], "input": show(a)} for r in ok for a in r["samples"][:1]][:12],
            "method": "symbolic execution of the instrumented source of /repo, path conditions and checks decided by z3",
            "scenario_instances": len(results), "exhausted_within_bounds": exhausted,
            "queries": agg("queries"), "solver_time_s": round(agg("solver_time"), 2), "checks_discharged_by_solver": agg("discharged"),
            "solver_unknown": agg("unknowns"), "not_explored": incomplete, "instances_left": len(left),
            "skipped": sorted({r["scenario"] + ": " + r["skip"] for r in ok if r["skip"]}),
            "vacuous": vacuous, "functions_encoded": executed,
            "model_mismatches": [{"scenario": m["scenario"], "params": m["params"], "message": m["message"][:200], "input": show(m["assignment"])} for m in mism[:10]],
            "bounds": {r["scenario"]: [] for r in ok},
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ["h5py/HDF5, numpy and pickle behave as modelled in sx/fakeh5.py and sx/models.py; one witness per explored path (up to the replay limit) is run on the real libraries",
                        "bounds on sizes are the scenario parameters; symbolic ints satisfy |n| < 2**200"],
        "violations": len(new),
    }
    ev["coverage"]["exhaustive"] = bool(exhausted and not incomplete)
    ev["coverage"]["violations"] = [{"message": v["message"][:500], "scenario": v["scenario"], "params": v["params"], "input": show(v["assignment"])} for v, _ in new]
    for r in ok:
        if r["params"] not in ev["coverage"]["bounds"][r["scenario"]]:
            ev["coverage"]["bounds"][r["scenario"]].append(r["params"])
    for k, v in ev["coverage"]["bounds"].items():
        if len(v) > 8:
            ev["coverage"]["bounds"][k] = v[:8] + ["... %d in total" % len(v)]
    if errors:
        ev["coverage"]["errors"] = errors[:5]
    if note:
        ev["coverage"]["note"] = note
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d instances, %d paths, %d queries (%.1f s solver), %d checks discharged, %d replays on real code, exhausted=%s, %.1f s" % (
        prop, tier, len(results), agg("paths"), agg("queries"), agg("solver_time"), agg("discharged"), agg("replayed"), exhausted, time.time() - t0))
    for k, n in sorted(incomplete.items()):
        print("  not explored: %s (%d)" % (k, n))
    for m in mism[:3]:
        print("  unconfirmed: %s %s %s" % (m["scenario"], m["params"], m["message"][:200]))
    for e in errors[:3]:
        print("  error:", e)
    if vacuous:
        print("  vacuous:", vacuous)
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for v, _ in new[:5]:
            h = hashlib.sha1(json.dumps([v["scenario"], v["params"], v["assignment"]], sort_keys=True).encode()).hexdigest()[:10]
            fn = os.path.join("replays", "%s-%s.json" % (prop, h))
            with open(os.path.join(HERE, fn), "w") as f:
                json.dump({"property": prop, "scenario": v["scenario"], "params": v["params"], "assignment": v["assignment"],
                           "input": show(v["assignment"]), "message": v["message"], "how": v["how"]}, f, indent=1)
            print("  %s %s: %s; input %s" % (v["scenario"], json.dumps(v["params"]), v["message"], show(v["assignment"])))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    return 0


def replay_file(fn):
    d = json.load(open(fn))
    mods = modules(d["property"])
    scratch = tempfile.mkdtemp(prefix="vx")
    server, sock = start_server(scratch, mods)
    try:
        err = wait_ready(server)
        if err:
            print(err)
            return 1
        from sx import replay
        r = replay.Client(sock)(d["scenario"], d["params"], d["assignment"])
        print(json.dumps(r, indent=1))
        return 1 if r["status"] in ("fail", "exc") else 0
    finally:
        os.killpg(server.pid, signal.SIGKILL)
        server.wait()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
