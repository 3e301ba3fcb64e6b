"""Entry point: python -m harness.run <property> [--tier T] [--replay FILE]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")  # hypothesis only; /opt/venv wins
sys.path.insert(0, "/repo")

from harness import core  # noqa: E402

VERIF = core.VERIF
SHRINK_SECONDS = 40
CASE_LIMIT = 240
SHARD_LIMIT = {"quick": 780, "thorough": 3 * 3600}


def shard_worker(prop, ti, shard, nshards, nex, seed, limit, conn, shrink=True):
    """Run one shard of one target and send a report through conn."""
    rep = {"target": ti, "shard": shard, "evals": 0, "nontrivial": [], "labels": {}, "samples": [],
           "violation": None, "error": None, "known": {}}
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        sys.stdout = open(os.devnull, "w")

        t0 = time.time()
        current = [None, 0.0]
        late = []

        def on_alarm(*_):
            now = time.time()
            if current[0] is not None and now - current[1] > CASE_LIMIT:
                # one case alone hangs (they take well under a minute): report it unshrunk, every shrink attempt may hang too
                rep["violation"] = {"case": current[0], "message": f"the call does not return within {CASE_LIMIT} s"}
                conn.send(rep)
                os._exit(0)
            if now - t0 > limit:
                late.append(1)
                raise core.HarnessError("shard time limit: inconclusive")

        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)
        import hypothesis
        import hypothesis.internal.conjecture.engine as eng
        from hypothesis import HealthCheck, Phase, given, settings

        eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        mod = importlib.import_module(f"harness.checks.{prop.lower()}")
        target = mod.TARGETS[ti]
        known = core.load_known()
        fails = []
        seen = set()

        def body(case):
            if late:
                raise core.HarnessError("shard time limit: inconclusive")
            rep["evals"] += 1
            case = json.loads(json.dumps(case))
            current[:] = case, time.time()
            try:
                r = core.guarded_run(target, case)
            except core.Known as k:
                if (prop, k.key) in known:
                    rep["known"][k.key] = str(k)
                    return
                fails.append((case, f"{k} (key {k.key}, not listed)"))
                raise core.Violation(str(k)) from None
            except core.Violation as v:
                fails.append((case, str(v)))
                raise
            current[0] = None
            for lab in r.labels:
                rep["labels"][lab] = rep["labels"].get(lab, 0) + 1
            if r.nontrivial:
                cid = core.case_id(case)
                if cid not in seen:
                    seen.add(cid)
                    rep["nontrivial"].append(cid)
                    if len(rep["samples"]) < 2 and len(seen) % 3 == 1:
                        rep["samples"].append(case)

        test = given(target.strategy)(body)
        test = settings(
            max_examples=nex, database=None, deadline=None, print_blob=False,
            suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink) if shrink else (Phase.generate,),
            report_multiple_bugs=False,
        )(test)
        s = (seed * 1000003 + ti * 7919 + shard * 104729 + 17) & 0x7FFFFFFF
        test = hypothesis.seed(s)(test)
        try:
            test()
        except BaseException as e:
            if fails:  # found before any time limit: the body refuses to run after it
                rep["violation"] = {"case": fails[-1][0], "message": fails[-1][1]}
            elif isinstance(e, core.HarnessError):
                rep["error"] = str(e)
            else:
                rep["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        signal.setitimer(signal.ITIMER_REAL, 0)
    except BaseException as e:
        rep["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    try:
        conn.send(rep)
        conn.close()
    finally:
        os._exit(0)


def run_shards(prop, mod, tier, seed, jobs, shrink=True):
    ctx = mp.get_context("fork")
    tasks = []
    for ti, t in enumerate(mod.TARGETS):
        total = t.quick if tier == "quick" else t.thorough
        nsh = min(t.shards if tier == "quick" else t.tshards, max(1, total))
        for k in range(nsh):
            n = total // nsh + (1 if k < total % nsh else 0)
            if n:
                tasks.append((ti, k, nsh, n))
    # longest-first is unknown; interleave shards of the targets
    tasks.sort(key=lambda x: (x[1], x[0]))
    running, reports = [], []
    stop = False
    while (tasks and not stop) or running:
        while tasks and not stop and len(running) < jobs:
            ti, k, nsh, n = tasks.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=shard_worker, args=(prop, ti, k, nsh, n, seed, SHARD_LIMIT[tier], w, shrink))
            p.start()
            w.close()
            running.append((p, r, ti, k))
        ready = mp.connection.wait([r for _, r, _, _ in running], timeout=5)
        for item in list(running):
            p, r, ti, k = item
            if r in ready:
                try:
                    rep = r.recv()
                except EOFError:
                    rep = {"target": ti, "shard": k, "evals": 0, "nontrivial": [], "labels": {}, "samples": [],
                           "violation": None, "known": {}, "error": f"worker died ({mod.TARGETS[ti].name} shard {k})"}
                p.join()
                running.remove(item)
                reports.append(rep)
                if rep["violation"]:
                    stop = True
        if stop:
            # give already running shards no more time than needed: they are independent searches
            for p, r, ti, k in running:
                p.kill()
                p.join()
            running = []
    return reports


def write_evidence(prop, mod, tier, seed, reports, t0, nviol):
    nontriv = {}
    labels, per = {}, {}
    samples = []
    for rep in reports:
        name = mod.TARGETS[rep["target"]].name
        d = per.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0})
        d["evaluations"] += rep["evals"]
        nontriv.setdefault(name, set()).update(rep["nontrivial"])
        for k, v in rep["labels"].items():
            labels[f"{name}:{k}"] = labels.get(f"{name}:{k}", 0) + v
        for s in rep["samples"]:
            if sum(1 for x in samples if x["target"] == name) < 2:
                samples.append({"target": name, "case": s})
    for name, s in nontriv.items():
        per[name]["distinct_nontrivial"] = len(s)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in reports),
            "distinct_nontrivial": sum(len(s) for s in nontriv.values()),
            "rule": mod.RULE,
            "samples": samples[:12],
            "per_target": per,
            "classes": dict(sorted(labels.items())),
            "shards": len(reports),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--target", help="only targets whose name contains this (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply example counts (development)")
    ap.add_argument("--no-shrink", action="store_true", help="report the first failing case as generated (development)")
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        import pxmcmc

        assert os.path.realpath(pxmcmc.__path__[0]) == "/repo/pxmcmc", pxmcmc.__path__
        devnull = open(os.devnull, "w")
        so, sys.stdout = sys.stdout, devnull
        try:
            mod = importlib.import_module(f"harness.checks.{prop.lower()}")
        finally:
            sys.stdout = so
    except Exception:
        traceback.print_exc()
        return 3
    if a.replay:
        rec = json.load(open(a.replay))
        target = next(t for t in mod.TARGETS if t.name == rec["target"])
        so, sys.stdout = sys.stdout, open(os.devnull, "w")
        try:
            core.guarded_run(target, rec["case"])
        except core.Violation as v:
            sys.stdout = so
            print(f"replayed: {v}")
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        finally:
            sys.stdout = so
        print("replay: the property holds on this case")
        return 0
    if a.target:
        mod.TARGETS = [t for t in mod.TARGETS if a.target in t.name]
    for t in mod.TARGETS:
        t.quick = max(1, int(t.quick * a.scale))
        t.thorough = max(1, int(t.thorough * a.scale))
    sys.stdout.flush()
    reports = run_shards(prop, mod, tier, seed, a.jobs, not a.no_shrink)
    viol = [r for r in reports if r["violation"]]
    errs = [r for r in reports if r["error"]]
    known = {}
    for r in reports:
        known.update(r["known"])
    for k, v in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {v}")
    write_evidence(prop, mod, tier, seed, reports, t0, len(viol))
    ev = sum(r["evals"] for r in reports)
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for r in viol[:1]:
            name = mod.TARGETS[r["target"]].name
            path = os.path.join(VERIF, "replays", f"{prop}-{name}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "target": name, "case": r["violation"]["case"],
                           "message": r["violation"]["message"],
                           "replay_cmd": f"./check {prop} --replay {path}"}, f, indent=1)
            print(f"{prop}/{name}: {r['violation']['message']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        for r in errs[:3]:
            print(f"HARNESS ERROR {prop}/{mod.TARGETS[r['target']].name}: {r['error']}", file=sys.stderr)
        return 3
    print(f"{prop}: held on {ev} cases in {time.time()-t0:.1f}s ({tier}, seed {seed})")
    return 0


if __name__ == "__main__":
    import multiprocessing.connection  # noqa: F401

    sys.exit(main())
