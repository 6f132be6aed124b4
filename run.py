"""Runner:  run.py ID --tier quick|thorough     run one check
            run.py --replay FILE                run a recorded counterexample on the real code
            run.py --list
Exit codes: 0 held on everything explored, 1 violation, 2 no answer.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
EVID = os.path.join(HERE, "evidence")


def load_check(cid):
    return importlib.import_module("checks." + cid.lower())


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[8:].partition("|")
                d = dict(x.split("=", 1) for x in head.split())
                d["text"] = text.strip()
                d["label"] = d.get("label", "").replace("_", " ")
                out.append(d)
    return out


# --------------------------------------------------------------------------
_seen = set()


def _monitor():
    """record which functions of the encoded modules are executed"""
    from symx import loader as L
    mon = sys.monitoring
    names = {}
    for m in L.M().__dict__.values():
        f = getattr(m, "__file__", None) or ""
        if f:
            names[f] = True

    def start(code, off):
        fn = code.co_filename
        if "/irrep" in fn and "symx" not in fn and L.in_symbolic():
            _seen.add("%s:%s" % (os.path.basename(fn), code.co_qualname))
            return mon.DISABLE
        return None if "/irrep" in fn else mon.DISABLE
    try:
        mon.use_tool_id(3, "symx")
    except ValueError:
        return
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def _task(cid, task, seed, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        from symx import harness as H
        mod = load_check(cid)
        _monitor()
        body = getattr(mod, task.get("body", "body"))
        opts = dict(task.get("opts", {}))
        r = H.explore(body, task["params"], seed=seed, before=[(getattr(mod, b), p, s) for b, p, s in task.get("before", ())], **opts)
        r["functions"] = sorted(_seen)
    except BaseException as e:
        r = dict(crash="%s: %s" % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc()[-2500:],
                 paths=0, violations=[], inconclusive=["runner: %s: %s" % (type(e).__name__, str(e)[:300])])
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(paths=0, violations=[], inconclusive=["runner: result not transferable: %s" % e]))
    conn.close()


def _search(cid, task, seed, conn):
    """last resort for a task the encoding could not decide: look for a counterexample on the real code"""
    try:
        import random
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        from symx import harness as H
        mod = load_check(cid)
        body = getattr(mod, task.get("body", "body"))
        t0, hit, n = time.time(), None, 0
        while time.time() - t0 < 25 and n < 60 and hit is None:
            rng = random.Random(7919 * seed + n)
            picks = H.RandomPicks(rng)
            status, failed, C = H.run_concrete(body, task["params"], {}, picks, rng)
            n += 1
            if failed and status != "discard":
                # reproduce from the recorded inputs alone
                s2, f2, C2 = H.run_concrete(body, task["params"], C.used, dict(picks.done), random.Random(7))
                if f2 and s2 != "discard":
                    hit = dict(label=f2[0][0], symbolic_label="(not decided by the encoding)", info=f2[0][1], values=C2.used,
                               picks=dict(picks.done), params=task["params"], how="concrete search after the encoding gave no verdict")
        conn.send(hit)
    except BaseException:
        conn.send(None)
    conn.close()


def search_undecided(cid, tasks, res, seed, procs, limit=90.0):
    """tasks without a verdict: {task name: violation} found by running the harness on the real code"""
    t0 = time.time()
    pend = list(tasks)
    live, out = {}, {}
    while (pend or live) and not out and time.time() - t0 < limit:
        while pend and len(live) < procs:
            t = pend.pop(0)
            a, b = mp.Pipe(False)
            q = mp.Process(target=_search, args=(cid, t, seed, b))
            q.start()
            b.close()
            live[t["name"]] = (q, a, time.time())
        ready = mp.connection.wait([v[1] for v in live.values()], timeout=0.5)
        for n, (q, a, ts) in list(live.items()):
            if a in ready:
                try:
                    h = a.recv()
                except EOFError:
                    h = None
                if h:
                    out[n] = h
            elif time.time() - ts < 40:
                continue
            live.pop(n)
            if q.is_alive():
                q.kill()
            q.join()
    for q, a, ts in live.values():
        q.kill()
        q.join()
    return out


def run_tasks(cid, tasks, seed, procs, stop_early=True, total=800.0):
    t0 = time.time()
    pend = list(tasks)
    live = {}
    results = {}
    stop = False
    while pend or live:
        while pend and len(live) < procs and not stop:
            t = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_task, args=(cid, t, seed, b))
            p.start()
            b.close()
            live[t["name"]] = (p, a, time.time(), t)
        if stop:
            for t in pend:
                results[t["name"]] = dict(skipped=True, paths=0, violations=[], inconclusive=[])
            pend = []
            if not live:
                break
        done = []
        ready = mp.connection.wait([v[1] for v in live.values()], timeout=0.5)
        for n, (p, a, ts, t) in live.items():
            cap = t.get("opts", {}).get("budget", 120.0) * 1.3 + 60
            r = None
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(paths=0, violations=[], inconclusive=["worker ended without a result (memory?)"])
                p.join(5)
            elif time.time() - ts > cap or time.time() - t0 > total:
                r = dict(paths=0, violations=[], inconclusive=["task stopped after %.0f s" % (time.time() - ts)])
            if r is not None:
                if p.is_alive():
                    p.kill()
                    p.join()
                r["task_wall"] = time.time() - ts
                results[n] = r
                done.append(n)
        for n in done:
            live.pop(n)
            if stop_early and any(not v.get("known") for v in mark_known(cid, n, results[n]["violations"])):
                stop = True
                for p, a, ts, t in live.values():
                    p.kill()
                    p.join()
                    results[t["name"]] = dict(skipped=True, paths=0, violations=[], inconclusive=[])
                live = {}
                break
    return results


def mark_known(cid, task, viols):
    kf = known_findings()
    for v in viols:
        for k in kf:
            if k["property"] == cid and k.get("task") == task and k["label"] == v["label"]:
                v["known"] = k["text"]
    return viols


def first_uses(mod, tasks):
    """what every task runs in its process before the run that is decided: the same body with other values, and the previous task"""
    kinds = getattr(mod, "BEFORE", ("self", "previous"))
    for i, t in enumerate(tasks):
        if "before" in t:
            continue
        t["before"] = b = []
        if "self" in kinds:
            b.append((t.get("body", "body"), t["params"], 100 + i))
        p = tasks[i - 1]
        if "previous" in kinds and p is not t:
            b.append((p.get("body", "body"), p["params"], 200 + i))


def run_check(cid, tier, seed, procs, only=None, verbose=False):
    from symx import loader as L
    t0 = time.time()
    mod = load_check(cid)
    L.M()
    L.real_modules()
    tasks = mod.tasks(tier)
    first_uses(mod, tasks)
    tasks = [t for t in tasks if only is None or only in t["name"]]
    res = run_tasks(cid, tasks, seed, procs)
    lost = [t for t in tasks if not res[t["name"]].get("skipped") and res[t["name"]]["inconclusive"] and not res[t["name"]]["violations"]]
    if lost and not any(not v.get("known") for n, r in res.items() for v in mark_known(cid, n, r["violations"])):
        for n, h in search_undecided(cid, lost, res, seed, procs).items():
            res[n]["violations"].append(h)
    viol, known, inc, undecided = [], [], [], []
    agg = dict(paths=0, aborted=0, checks=0, trivial=0, queries=0, unsat=0, branch_queries=0, solver_time=0.0,
               witness_ok=0, feasible=0, unknown_branches=0)
    funcs = set()
    labels = {}
    per = []
    for t in tasks:
        r = res[t["name"]]
        if verbose:
            print("  t %-28s before %s paths %-4d checks %-5d trivial %-5d q %-4d bq %-4d solver %.1fs wall %.1fs  inc %s viol %s wit %s/%s" %
                  (t["name"], r.get("before"), r.get("paths", 0), r.get("checks", 0), r.get("trivial", 0), r.get("queries", 0),
                   r.get("branch_queries", 0), r.get("solver_time", 0), r.get("wall", 0),
                   r["inconclusive"], [v["label"] for v in r["violations"]], r.get("witness_ok"), r.get("witness_bad")))
            if r.get("tb"):
                print(r["tb"])
            if r.get("exc_tb"):
                print(r["exc_tb"])
        for k in agg:
            agg[k] += r.get(k, 0)
        funcs |= set(r.get("functions", []))
        for l, n in r.get("labels", {}).items():
            labels[l] = labels.get(l, 0) + n
        for v in mark_known(cid, t["name"], r["violations"]):
            v["task"] = t["name"]
            v["body"] = t.get("body", "body")
            v["before"] = t.get("before", ())
            (known if v.get("known") else viol).append(v)
        for i in r["inconclusive"]:
            inc.append("%s: %s" % (t["name"], i))
        for w in r.get("witness_bad", []):
            inc.append("%s: the encoding and the real code disagree on a path witness: %s" % (t["name"], str(w)[:300]))
        if not r.get("skipped") and not r["violations"] and r.get("unsat", 0) == 0:
            undecided.append(t["name"])
        per.append(dict(task=t["name"], paths=r.get("paths", 0), checks=r.get("checks", 0), queries=r.get("queries", 0),
                        unsat=r.get("unsat", 0), solver_s=round(r.get("solver_time", 0), 3), wall_s=round(r.get("wall", 0), 2)))
    # ---- report
    for v in known:
        print("KNOWN-FINDING: property=%s %s" % (cid, v["known"]))
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    vrec = []
    for v in viol:
        body = dict(property=cid, task=v["task"], body=v["body"], before=v["before"], params=v["params"], values=v["values"], picks=v["picks"],
                    label=v["label"], info=v["info"], found=v["how"])
        s = json.dumps(body, indent=1, default=str)
        path = os.path.join(EVID, "replays", "%s-%s.json" % (cid, hashlib.sha1(s.encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            fh.write(s)
        print("VIOLATION property=%s replay=%s" % (cid, path))
        print("  task %s: %s -- %s" % (v["task"], v["label"], v["info"]))
        vrec.append(dict(summary="%s: %s (%s)" % (v["task"], v["label"], str(v["info"])[:300]), replay=path))
    for i in inc[:20]:
        print("INCONCLUSIVE %s %s" % (cid, i[:600]))
    wall = time.time() - t0
    skipped = sum(1 for t in tasks if res[t["name"]].get("skipped"))
    expl = ("Symbolic execution of the current source of /repo (all paths within the bounds) with z3 deciding the negated "
            "property on every path. Functions encoded: %s. Bounds: %s Paths %d (%d infeasible), assertions %d (%d closed by "
            "normalisation before the solver), property queries %d (unsat %d), branch-feasibility queries %d (%d unknown, "
            "both sides kept), solver time %.1f s, path witnesses replayed on the real code %d. %s"
            % (", ".join(sorted(funcs)), mod.BOUNDS, agg["paths"], agg["aborted"], agg["checks"], agg["trivial"],
               agg["queries"], agg["unsat"], agg["branch_queries"], agg["unknown_branches"], agg["solver_time"],
               agg["witness_ok"], ("NOT decided: " + "; ".join(x[:200] for x in inc[:10])) if inc else "Nothing left undecided."))
    ev = dict(property=cid, tier=tier, seed=seed, level="other",
              coverage=dict(explanation=expl, functions_encoded=sorted(funcs), bounds=mod.BOUNDS, tasks=per, labels=labels,
                            paths=agg["paths"], queries=agg["queries"], unsat=agg["unsat"],
                            branch_queries=agg["branch_queries"], solver_time_s=round(agg["solver_time"], 3),
                            assertions=agg["checks"], closed_by_normalisation=agg["trivial"],
                            witnesses_replayed=agg["witness_ok"], undecided=inc[:50], tasks_skipped=skipped),
              wall_s=round(wall, 2), assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              violations=vrec)
    try:
        fill_schema(ev)
    finally:
        with open(os.path.join(EVID, cid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print("%s %s: %d tasks, %d paths, %d assertions (%d by normal form), %d property queries, %d branch queries, "
          "solver %.1f s, wall %.1f s, violations %d, undecided %d"
          % (cid, tier, len(tasks), agg["paths"], agg["checks"], agg["trivial"], agg["queries"], agg["branch_queries"],
             agg["solver_time"], wall, len(viol), len(inc)))
    if viol:
        return 1
    if undecided:
        print("NO-ANSWER %s: nothing decided for %s" % (cid, ", ".join(undecided[:10])))
        return 2
    return 0


def fill_schema(ev):
    pass


def replay(path):
    from symx import harness as H
    from symx import loader as L
    import random
    d = json.load(open(path))
    mod = load_check(d["property"])
    for b, p, s in d.get("before", ()):
        H.first_use_concrete(getattr(mod, b), p, s)
    status, failed, C = H.run_concrete(getattr(mod, d["body"]), d["params"], d["values"], d["picks"], random.Random(7))
    for f in failed:
        print("FAILED %s: %s" % f)
    if failed:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("replay of %s: property holds on this input (%s)" % (path, status))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    try:
        rc = run_check(a.id.upper(), a.tier, a.seed, a.procs, a.only, a.v)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
