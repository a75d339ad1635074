"""Decides one property:  python3-vt check.py PROPERTY

1. Contracts (contracts/): every obligation is generated from the functions in /repo as they are now
   and handed to the solvers.
2. Run-time contracts (rt/): the same statements are evaluated on the real code, on a fixed bank, on
   random inputs, and on the inputs the verifier derived from path conditions and failed obligations.
Exit 0: held.  Exit 1: a VIOLATION line was printed.  Anything else: the check itself failed.
"""
import json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TRUSTED = [
    "pyvc: parser front end, symbolic execution, loop rule and translation to SMT (validated by the run-time comparison of every path model, not verified)",
    "trusted contracts of the numpy 1.23, math, csv, json and built-in operations the functions call (pyvc/npmodel.py, pyvc/models.py)",
    "z3, cvc5 and the polynomial normal form",
]
ASSUME = [
    "floating-point numbers are treated as real numbers and decimal literals as exact; rounding is only covered by the run-time contracts",
    "no NaN or infinity among the inputs",
    "array inputs are one-dimensional",
    "machine integers do not overflow",
]


def worker(args, conn):
    from pyvc.spec import run_task
    try:
        conn.send(run_task(args))
    except Exception as e:
        conn.send(dict(task=args[1], error="%s: %s" % (type(e).__name__, e)))
    conn.close()


def run_tasks(jobs, ncpu, budget, end):
    """Each task in its own process, killed when it overruns or when the check has to end."""
    todo, live, done = list(jobs), [], []
    while todo or live:
        while todo and len(live) < ncpu:
            j = todo.pop(0)
            left = end - time.time()
            if left < 5:
                done.append(dict(task=j[1], module=j[0], undecided=[dict(obligation=j[1], reason="time limit of the check")]))
                continue
            j = j[:5] + (min(j[5], left),)
            r, w = mp.Pipe(False)
            p = mp.Process(target=worker, args=(j, w))
            p.start()
            w.close()
            live.append((p, r, j, time.time()))
        nxt = []
        for p, r, j, t0 in live:
            res = None
            if r.poll(0.02):
                try:
                    res = r.recv()
                except EOFError:
                    res = dict(task=j[1], error="worker died")
                p.join(5)
            elif not p.is_alive():
                res = dict(task=j[1], error="worker died (exit %s)" % p.exitcode)
            elif time.time() - t0 > budget + 20 or time.time() > end + 20:
                p.kill()
                p.join()
                res = dict(task=j[1], undecided=[dict(obligation=j[1], reason="time limit of %d s" % budget)])
            if res is None:
                nxt.append((p, r, j, t0))
            else:
                res["module"] = j[0]
                done.append(res)
        live = nxt
        if live:
            time.sleep(0.02)
    return done


def rt_start(prop, seed, nrand, secs, extra=None, nobank=False, hints=False):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    if nobank:
        env["RT_NOBANK"] = "1"
    if hints:
        env["RT_HINTS"] = "1"
    cmd = [PY, os.path.join(HERE, "rt", "run.py"), prop, str(seed), str(nrand), str(secs)]
    if extra:
        cmd.append(extra)
    return subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd="/tmp")


def rt_finish(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise SystemExit("run-time contracts did not finish in time")
    try:
        return json.loads(out)
    except ValueError:
        sys.stderr.write(err[-3000:])
        raise SystemExit("run-time contracts could not be evaluated")


def known_findings():
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as fh:
        for line in fh:
            m = re.match(r"finding: property=(\S+) clause=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from contracts import CHECKS
    spec = CHECKS[prop]
    budget = (spec.get("budget", 200) if tier == "quick" else 600)
    ncpu = max(1, min(8, os.cpu_count() or 1))
    nrand, rsecs = (1500, 25) if tier == "quick" else (6000, 200)
    rt_a = rt_start(prop, seed, nrand, rsecs)
    jobs = [(m, n, tier, seed, REPO, budget) for m, n in spec["tasks"]]
    res = run_tasks(jobs, ncpu, budget, t0 + (420 if tier == "quick" else 600))
    A = rt_finish(rt_a, 600)
    cases = []
    for r in sorted(res, key=lambda r: r["task"]):
        for c in r.get("cases", []):
            if c not in cases:
                cases.append(c)
    Bres = None
    if cases:
        d = tempfile.mkdtemp(prefix="vc_chk_")
        try:
            f = os.path.join(d, "cases.json")
            with open(f, "w") as fh:
                json.dump(cases, fh)
            Bres = rt_finish(rt_start(prop, seed, 0, 60, f, nobank=True), 200)
        finally:
            shutil.rmtree(d)
    for r in res:
        if not (r.get("obls") or r.get("undecided") or r.get("error")):
            r["undecided"] = [dict(obligation=r["task"], reason="no obligation was generated")]
    # more inputs where the proof has gaps, also around the constants of the code
    gaps = any(r.get("undecided") or r.get("error") or any(o["status"] != "discharged" for o in r.get("obls", [])) for r in res)
    if gaps and not A["fails"] and not (Bres and Bres["fails"]):
        for more in [rt_start(prop, seed + 7919 + h, 20000, 28, nobank=True, hints=h) for h in (False, True)]:
            Cres = rt_finish(more, 200)
            A["fails"] += Cres["fails"]
            A["known"].update({k: v for k, v in Cres["known"].items() if k not in A["known"]})
            A["counts"]["random"] += Cres["counts"]["random"]
            A["distinct"] += Cres["distinct"]
            A["wall"] += Cres["wall"]
    fails = (Bres["fails"] if Bres else []) + A["fails"]
    known = dict(A["known"])
    if Bres:
        known.update(Bres["known"])

    # ---- obligations
    bounded = [r for r in res if r.get("bounds")]
    full = [r for r in res if not r.get("bounds")]
    obls = [o for r in full for o in r.get("obls", [])]
    bobls = [o for r in bounded for o in r.get("obls", [])]
    undec = [u for r in res for u in r.get("undecided", [])]
    for r in res:
        if r.get("error"):
            undec.append(dict(obligation=r["task"], reason="verifier error: " + r["error"]))
            sys.stderr.write("%s: %s\n%s\n" % (r["task"], r["error"], r.get("trace", "")))
    openo = [o for o in obls + bobls if o["status"] != "discharged"]
    refuted = [o for o in openo if o["status"] == "refuted"]
    funcs = sorted({f for r in res for f in r.get("functions", [])})
    by, bysec = {}, {}
    for o in obls + bobls:
        if o["status"] == "discharged":
            by[o["backend"]] = by.get(o["backend"], 0) + 1
            bysec[o["backend"]] = round(bysec.get(o["backend"], 0) + o["secs"], 3)
    uses = {}
    for r in res:
        for k, v in r.get("contract_uses", {}).items():
            uses[k] = uses.get(k, 0) + v

    violations = []
    listed = known_findings()
    for k, v in sorted(known.items()):
        if (prop, k) in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, v["text"]))
        else:
            fails.append(dict(clause=k, text=v["text"], case=v["case"], source="unlisted finding"))
    if fails:
        f = fails[0]
        path = replay_path(prop, f)
        write_replay(path, dict(property=prop, clause=f["clause"], text=f["text"], case=f["case"], found_by=f.get("source"),
                                failed_obligations=[dict(name=o["name"], status=o["status"], goal=o.get("goal", "")[:600]) for o in openo[:20]],
                                run="PYTHONPATH=/repo %s rt/run.py --replay <this file>" % PY))
        violations.append(dict(clause=f["clause"], text=f["text"], replay=path))
        print("violated: %s: %s" % (f["clause"], f["text"]))
        for o in openo[:5]:
            print("failed obligation: %s" % o["name"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif refuted:
        o = refuted[0]
        path = replay_path(prop, o)
        write_replay(path, dict(property=prop, failed_obligation=o["name"], verifier="the negated obligation has a model in exact arithmetic", goal=o.get("goal"),
                                case=o.get("case"), sizes=o.get("counterexample_sizes"), all_failed=[x["name"] for x in openo[:30]]))
        violations.append(dict(clause=o["name"], text="refuted by the verifier; the run-time contract does not show it", replay=path))
        print("failed obligation: %s" % o["name"])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))

    cov = dict(
        obligations=len(obls), discharged=sum(o["status"] == "discharged" for o in obls),
        checker_cmd="python3-vt check.py %s" % prop, trusted_base=TRUSTED + spec.get("trusted", []),
        functions_under_contract=funcs, discharged_by=by, discharge_seconds_by=bysec,
        solver_s=round(sum(r.get("solver_s", 0) for r in res), 2), solver_calls=sum(r.get("solver_calls", 0) for r in res),
        paths=sum(r.get("paths", 0) for r in res), paths_reached_by_a_model=sum(r.get("reached", 0) for r in res),
        paths_infeasible=sum(r.get("excluded", 0) for r in res),
        contracts_used_at_calls=uses, open=[dict(name=o["name"], status=o["status"]) for o in openo[:40]], undecided=undec[:40],
        bounded_obligations=len(bobls), bounded_discharged=sum(o["status"] == "discharged" for o in bobls), bounds=sorted({b for r in bounded for b in r["bounds"]}),
        runtime=dict(bank=A["counts"]["bank"], random=A["counts"]["random"], model_inputs=Bres["counts"]["model"] if Bres else 0, distinct=A["distinct"], failures=len(fails),
                     wall_s=round(A["wall"] + (Bres["wall"] if Bres else 0), 2)),
        evaluations=A["counts"]["bank"] + A["counts"]["random"] + (Bres["counts"]["model"] if Bres else 0),
        samples=(Bres["samples"] if Bres else [])[:2] + A["samples"][:2],
        tasks=[dict(task=r["task"], wall_s=r.get("wall"), obligations=len(r.get("obls", [])), paths=r.get("paths", 0)) for r in sorted(res, key=lambda r: r["task"])],
    )
    if spec["level"] != "proof":
        cov["explanation"] = spec["note"]
    if spec["level"] == "exploration":
        cov["distinct_nontrivial"] = A["distinct"]
        cov["rule"] = "each case is a complete call of the functions under contract; distinct by its arguments"
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=ASSUME + spec.get("assume", []), violations=len(violations), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    # a run on another tree than /repo (development) leaves the evidence alone
    with open(os.path.join(HERE, "evidence", prop + ".json") if REPO == "/repo" else os.devnull, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    if A["counts"]["bank"] + A["counts"]["random"] == 0:
        raise SystemExit("nothing was evaluated")
    print("%s: %d/%d obligations discharged, %d/%d bounded, %d undecided, %d run-time evaluations, %.1f s" % (
        prop, cov["discharged"], cov["obligations"], cov["bounded_discharged"], cov["bounded_obligations"], len(undec), cov["evaluations"], ev["wall_s"]))
    return 1 if violations else 0


def replay_path(prop, x):
    import hashlib
    h = hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:10]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    return os.path.join(HERE, "replays", "%s-%s.json" % (prop, h))


def write_replay(path, d):
    with open(path, "w") as fh:
        json.dump(d, fh, indent=1, default=str)
        fh.write("\n")


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the same order of sets on every run, so that the solvers see the same formulas
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    r = None
    try:
        r = main()
    except SystemExit as e:
        sys.stderr.write("check failed: %s\n" % e)
        r = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(r)
