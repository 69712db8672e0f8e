"""Check runner.

  run.py C01 [--tier quick|thorough] [--seed N]   run a check
  run.py --replay FILE                            replay one recorded violation
  run.py --determinism C01 [N]                    run N seeds twice, compare event logs
(internal) run.py --shard ...
"""
import argparse
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
NSHARDS = 16
GUARD_S = 40          # wall guard of one scenario; a hit is re-judged by a step budget
STEP_BUDGET = 250_000_000      # ten times what the biggest scenario needs
now = time.perf_counter


def get_prop(pid):
    return importlib.import_module("props." + pid).CHECK


def scenario(prop, seed, i, tier):
    rng = random.Random(f"{seed}/{prop.id}/{i}")
    s = prop.gen(rng, i, tier)
    return json.loads(json.dumps(s))


def plan(prop, tier):
    sp = len(prop.specials(tier))
    return list(range(-sp, prop.runs[tier]))


def get_scn(prop, seed, i, tier):
    if i < 0:
        return json.loads(json.dumps(prop.specials(tier)[-i - 1]))
    return scenario(prop, seed, i, tier)


class Guard(BaseException):
    pass


def execute(prop, scn, st, budget=None):
    """-> (violation or None, digest). Harness faults raise."""
    import core
    import env as envmod
    import steps

    def on_alarm(*_):
        raise Guard

    old = None
    if budget is None:
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, GUARD_S)
    try:
        if budget is None:
            d = prop.run(scn, st)
        else:
            with steps.limit(budget):
                d = prop.run(scn, st)
        return None, d
    except core.Violation as v:
        return v, None
    except envmod.SimHang as h:
        return core.Violation(f"{prop.id}/no-progress", str(h)), None
    finally:
        if old is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def judged(prop, scn, st):
    try:
        return execute(prop, scn, st)
    except Guard:
        # too slow by the wall clock: decide again by counting executed lines
        v, d = execute(prop, scn, st, budget=STEP_BUDGET)
        return v, d


def setup_process():
    import loader
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.unraisablehook = lambda *_: None   # finalisers of what a fault left half made
    loader.install()
    loader.fresh()


def bound_memory(prop):
    resource.setrlimit(resource.RLIMIT_AS, (prop.address_space,) * 2)


def shard_main(a):
    setup_process()
    import core
    prop = get_prop(a.prop)
    bound_memory(prop)
    st = core.Stats()
    out = {"shard": a.shard, "viol": None, "error": None, "done": 0, "cut": False, "samples": [], "mismatch": 0,
           "rechecked": 0, "known": []}
    t0 = now()
    mine = [i for n, i in enumerate(plan(prop, a.tier)) if n % NSHARDS == a.shard]
    for k, i in enumerate(mine):
        if now() - t0 > a.limit:
            out["cut"] = True
            break
        scn = get_scn(prop, a.seed, i, a.tier)
        try:
            v, d = judged(prop, scn, st)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            out["error"] = f"scenario {i}: " + "".join(traceback.format_exception(e))[-3000:]
            out["error_scn"] = scn
            break
        st.runs += 1
        out["done"] += 1
        if v is None and k < 3:
            out["rechecked"] += 1
            v2, d2 = judged(prop, scn, core.Stats())
            if v2 is None and d2 != d:
                out["mismatch"] += 1
        if v is None and len(out["samples"]) < 1 and i >= 0:
            out["samples"].append(prop.sample(scn))
        if v is not None:
            kf = known_match(prop.id, v, scn)
            if kf is not None:
                out["known"].append(kf)
                continue
            out["viol"] = {"index": i, "class": v.cls, "detail": v.detail, "scenario": scn}
            break
    out["stats"] = st.dump()
    out["wall"] = now() - t0
    with open(a.out, "w") as f:
        json.dump(out, f)


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def known_match(pid, v, scn):
    """A listed finding is identified by its exact scenario and exact result."""
    import core
    for e in known_findings():
        if e["property"] == pid and e["class"] == v.cls and e["detail"] == v.detail \
                and e["scenario"] == core.digest(json.dumps(scn, sort_keys=True)):
            return e["what"]
    return None


def minimise_main(a):
    """Reads a violation, writes the replay file (in a process of its own)."""
    setup_process()
    import core
    prop = get_prop(a.prop)
    bound_memory(prop)
    with open(a.minimise) as f:
        viol = json.load(f)
    scn = viol["scenario"]
    v0, _ = judged(prop, scn, core.Stats())
    rec = {"property": prop.id, "seed": a.seed, "index": viol["index"], "hashseed": os.environ.get("PYTHONHASHSEED"),
           "class": viol["class"], "detail": viol["detail"], "scenario": scn, "minimised": False, "original_size": size(scn)}
    if v0 is not None:
        t0 = now()

        def test(s):
            if now() - t0 > a.limit:
                return False
            try:
                v, _ = judged(prop, s, core.Stats())
            except Exception:
                return False
            return v is not None and v.cls == v0.cls

        if hasattr(prop, "explicit"):
            s2 = prop.explicit(scn)
            if s2 is not None and test(s2):
                scn = s2
        small = core.shrink(scn, prop, test, 1500)
        v1, _ = judged(prop, small, core.Stats())
        if v1 is not None:
            rec.update(scenario=small, detail=v1.detail, minimised=True, size=size(small))
            rec["class"] = v1.cls
    rec["original"] = viol["scenario"] if rec["minimised"] else None
    with open(a.out, "w") as f:
        json.dump(rec, f, indent=1)


def size(scn):
    return len(json.dumps(scn))


def replay(path, quiet=False):
    with open(path) as f:
        rec = json.load(f)
    hs = rec.get("hashseed") or "0"
    if os.environ.get("PYTHONHASHSEED") != hs:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        os.execve(PY, [PY, "-B", "-s", os.path.abspath(__file__), "--replay", path], env)
    setup_process()
    import core
    prop = get_prop(rec["property"])
    bound_memory(prop)
    v, _ = judged(prop, rec["scenario"], core.Stats())
    if v is None:
        print("no violation")
        return 0
    same = v.cls == rec["class"] and v.detail == rec["detail"]
    print(f"violation {v.cls}: {v.detail}")
    print("same as recorded" if same else f"DIFFERS from the recorded {rec['class']}: {rec['detail']}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def child_env(shard, seed):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e["PYTHONHASHSEED"] = str((int(seed) * 7919 + shard * 104729 + 1) % 4294967295)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def check_main(pid, tier, seed):
    t0 = now()
    prop = get_prop(pid)
    out_dir = os.path.join(VERIF, "out", pid)
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    limit = 240 if tier == "quick" else int(os.environ.get("VGSIM_THOROUGH_S", "3000"))
    jobs = max(1, min(8, os.cpu_count() or 1))
    print(f"check {pid} tier={tier} seed={seed} scenarios={len(plan(prop, tier))} shards={NSHARDS} workers={jobs}", flush=True)
    todo = list(range(NSHARDS))
    running, results = {}, {}
    stop_after = None
    hard = limit + 4 * GUARD_S + 120
    while todo or running:
        while todo and len(running) < jobs:
            s = todo.pop(0)
            if stop_after is not None and s > stop_after:
                continue
            o = os.path.join(out_dir, f"shard{s}.json")
            if os.path.exists(o):
                os.unlink(o)
            # shards run in two waves on 8 cores; each gets its share of the time
            lim = limit * jobs / NSHARDS if jobs < NSHARDS else limit
            p = subprocess.Popen([PY, "-B", "-s", os.path.abspath(__file__), "--shard", str(s), "--prop", pid, "--tier", tier,
                                  "--seed", str(seed), "--out", o, "--limit", str(lim)],
                                 env=child_env(s, seed), stdin=subprocess.DEVNULL, start_new_session=True)
            running[s] = (p, o, now())
        for s, (p, o, ts) in list(running.items()):
            rc = p.poll()
            if rc is None:
                if now() - ts > hard:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    results[s] = {"shard": s, "error": "wall limit", "viol": None}
                    del running[s]
                elif stop_after is not None and s > stop_after:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    del running[s]
                continue
            del running[s]
            try:
                with open(o) as f:
                    results[s] = json.load(f)
            except (OSError, ValueError):
                results[s] = {"shard": s, "error": f"shard exited {rc} without a result", "viol": None}
            if results[s].get("viol"):
                stop_after = s if stop_after is None else min(s, stop_after)
        time.sleep(0.01)
    errs = [r for r in results.values() if r.get("error")]
    viols = sorted((r["shard"], r["viol"]) for r in results.values() if r.get("viol")) if True else []
    rc = 0
    rep = None
    if viols:
        shard, v = min(((r["shard"], r["viol"]) for r in results.values() if r.get("viol")), key=lambda x: x[0])
        raw = os.path.join(out_dir, "violation.json")
        rep = os.path.join(out_dir, "replay.json")
        with open(raw, "w") as f:
            json.dump(v, f)
        if os.path.exists(rep):
            os.unlink(rep)
        print(f"violation in scenario {v['index']}: {v['class']}: {v['detail']}", flush=True)
        env = child_env(shard, seed)
        mlimit = 60 if tier == "quick" else 300
        try:
            subprocess.run([PY, "-B", "-s", os.path.abspath(__file__), "--minimise", raw, "--prop", pid, "--tier", tier, "--seed",
                            str(seed), "--out", rep, "--limit", str(mlimit)], env=env, timeout=mlimit + 3 * GUARD_S + 60)
        except subprocess.TimeoutExpired:
            print("minimisation took too long")
        if not os.path.exists(rep):
            with open(rep, "w") as f:
                json.dump({"property": pid, "seed": seed, "index": v["index"], "hashseed": env["PYTHONHASHSEED"],
                           "class": v["class"], "detail": v["detail"], "scenario": v["scenario"], "minimised": False}, f)
        rec = json.load(open(rep))
        rr = subprocess.run([PY, "-B", "-s", os.path.abspath(__file__), "--replay", rep], env=env, capture_output=True, text=True,
                            timeout=600)
        ok = rr.returncode == 1 and "same as recorded" in rr.stdout
        if not ok and rec.get("original"):
            # fall back to the schedule as it was found
            rec.update(scenario=rec["original"], detail=v["detail"], minimised=False)
            rec["class"] = v["class"]
            json.dump(rec, open(rep, "w"), indent=1)
            rr = subprocess.run([PY, "-B", "-s", os.path.abspath(__file__), "--replay", rep], env=env, capture_output=True,
                                text=True, timeout=600)
            ok = rr.returncode == 1 and "same as recorded" in rr.stdout
        print(f"minimised={rec.get('minimised')} size {rec.get('original_size')} -> {rec.get('size')} replay "
              f"{'reproduces it exactly in a fresh process' if ok else 'DOES NOT reproduce exactly: ' + rr.stdout[-300:]}")
        print(f"  {rec['class']}: {rec['detail']}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(rep, VERIF)}", flush=True)
        rc = 1
    elif errs:
        for e in errs[:2]:
            print(f"harness error in shard {e['shard']}: {e['error']}", file=sys.stderr)
        rc = 2
    known = sorted({k for r in results.values() for k in r.get("known", [])})
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    write_evidence(prop, tier, seed, results, viols, known, now() - t0)
    print(f"check {pid}: exit {rc} after {now() - t0:.1f} s", flush=True)
    return rc


def write_evidence(prop, tier, seed, results, viols, known, wall):
    import core
    st = core.Stats.merge([r["stats"] for r in results.values() if r.get("stats")])
    samples = [s for r in results.values() for s in r.get("samples", [])][:3]
    planned = len(plan(prop, tier))
    cov = {
        "evaluations": st.processes,
        "distinct_nontrivial": len(st.keys),
        "rule": prop.rule,
        "samples": samples or ["(none)"],
        "simulated_runs": st.runs,
        "planned_runs": planned,
        "cut_by_wall_limit": any(r.get("cut") for r in results.values()),
        "simulated_processes": st.processes,
        "runs_per_hour": round(st.runs / wall * 3600) if wall else 0,
        "seeds_per_hour": round(st.runs / wall * 3600) if wall else 0,
        "simulated_seconds": round(st.sim_seconds, 3),
        "raw_io_operations": st.io_ops,
        "task_switches": st.switches,
        "faults_injected": dict(sorted(st.faults.items())),
        "probes": dict(sorted(st.probes.items())),
        "replays_in_process": sum(r.get("rechecked", 0) for r in results.values()),
        "replay_mismatches": sum(r.get("mismatch", 0) for r in results.values()),
        "hash_seeds": len(results),
        "real_code": prop.real,
        "stubs": prop.stubs,
        "known_findings_seen": known,
        "exhaustive": False,
    }
    ev = {
        "property": prop.id, "tier": tier, "seed": int(seed), "level": prop.level, "coverage": cov,
        "assumptions": getattr(prop, "assumptions", []), "wall_s": round(wall, 3), "violations": len(viols),
    }
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def determinism_main(pid, n, seed, tier="quick"):
    """Every scenario twice per process, in several processes with different hash seeds."""
    code = ("import sys,json;sys.path.insert(0,%r);import run;run.setup_process();import core;"
            "p=run.get_prop(%r);a,b=int(sys.argv[1]),int(sys.argv[2]);out=[]\n"
            "for i in range(a,b):\n"
            "  s=run.get_scn(p,%r,i,%r);r=[]\n"
            "  for k in range(2):\n"
            "    v,d=run.judged(p,s,core.Stats());r.append(str(v) if v else d)\n"
            "  out.append([i]+r)\n"
            "print(json.dumps(out))") % (HERE, pid, seed, tier)
    res = {}
    step = max(1, n // 12)
    for hs in ("0", "1", "4242"):
        procs = []
        for a in range(0, n, step if hs != "1" else step * 3):
            b = min(n, a + (step if hs != "1" else step * 3))
            e = child_env(0, seed)
            e["PYTHONHASHSEED"] = hs
            procs.append(subprocess.Popen([PY, "-B", "-s", "-c", code, str(a), str(b)], stdout=subprocess.PIPE, env=e, text=True))
        for p in procs:
            o, _ = p.communicate()
            for i, x, y in json.loads(o):
                res.setdefault(i, set()).update((x, y))
    bad = [i for i, s in res.items() if len(s) != 1]
    print(f"{pid}: {len(res)} scenarios x 2 x 3 hash seeds, {len(bad)} differ {bad[:10]}")
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop_pos", nargs="?")
    ap.add_argument("n", nargs="?", type=int, default=100)
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--limit", type=float, default=600)
    ap.add_argument("--minimise")
    ap.add_argument("--replay")
    ap.add_argument("--determinism")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.shard is not None:
        return shard_main(a)
    if a.minimise:
        return minimise_main(a)
    if a.determinism:
        return determinism_main(a.determinism, int(a.prop_pos or 100), a.seed)
    return check_main(a.prop_pos, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
