"""Extractions running side by side do not disturb each other."""
import copy
import random
import sys

import core
import job as J
import loader
import sched
import vgmfile
import world
from env import ROOT, Env
from model import Model
from props import common as c


class C08(core.Prop):
    id = "C08"
    runs = {"quick": 2800, "thorough": 20000}
    rule = ("one case = 2-4 extractions under one schedule: threads of one process switched at I/O operations, source lines or "
            "bytecodes, processes on one disk switched at I/O operations (some failing or killed), or readers advanced in turn; non-trivial if control changed hands while two were "
            "under way; distinct by the schedule (sequence of switches)")
    stubs = core.Prop.stubs + ["thread scheduling", "threading.Lock/RLock"]

    def gen(self, rng, i, tier):
        n = rng.choice((2, 2, 2, 3, 4))
        nl = rng.choice((1, 2, n, n))
        logs = [world.random_log(rng, limit=rng.choice((8, 15, 40, 80, 120)), gz=rng.random() < 0.25) for _ in range(nl)]
        scn = {"logs": logs, **c.random_machine(rng), "entropy": rng.getrandbits(20)}
        kind = rng.choice(("threads", "threads", "threads", "processes", "readers", "readers"))
        if rng.random() < 0.4:
            scn["share"] = True
        scn["kind"] = kind
        scn["seed"] = rng.getrandbits(30)
        tasks = []
        novel = kind == "threads" and rng.random() < 0.35
        light = rng.random() < 0.4 and not novel
        for k in range(n):
            lg = k % nl if rng.random() < 0.8 else rng.randrange(nl)
            if kind == "readers":
                tasks.append({"log": lg})
                continue
            if kind != "processes" and (light or rng.random() < (0.1 if novel else 0.3)):
                # reading only: short, so that the schedule is spent on the parser
                tasks.append({"mode": "api", "log": lg})
                continue
            modes = ("main", "api", "api") if kind == "threads" else ("cli", "main", "api")
            j = c.random_job(rng, logs[lg]["ops"], modes=modes, stdout=0, p_song=0.8 if novel else 0.35, max_rows=40)
            j["log"] = lg
            if kind == "threads" and j["tpn"] is None:
                j["tpn"] = 1470  # guessing takes millions of steps
            if rng.random() < 0.15:
                # this one is allowed to fail, the others are not
                what = rng.choice((("in", "read", rng.randint(0, 5)), ("json", "open", 0), ("json", "write", rng.randint(0, 2)),
                                   ("json", "close", 0), ("song", "write", rng.randint(0, 8)), ("csv", "write", 0)))
                j["bad"] = {"label": what[0], "op": what[1], "n": what[2],
                            "kind": "crash" if kind == "processes" and rng.random() < 0.6 else "eio"}
            if rng.random() < 0.3:
                j["rel"] = rng.choice(("in", "out", "both", "both"))
            tasks.append(j)
        scn["tasks"] = tasks
        if any(t.get("rel") for t in tasks):
            scn["cwd"] = rng.choice((ROOT, ROOT + "/d"))
        scn["grain"] = rng.choice(("io", "line", "line", "line", "op")) if kind != "processes" else "io"
        scn["p"] = rng.choice((0.5, 0.1, 0.02, 0.005)) if scn["grain"] != "op" else rng.choice((0.1, 0.01, 0.002))
        if scn["grain"] == "io":
            scn["p"] = rng.choice((0.9, 0.4, 0.1))
        scn["burst"] = rng.choice((0, 0, 20))
        # favourite places: a race window of one line is hit far more often when few places switch, and the
        # other task then runs on for a while
        scn["spots"] = rng.choice((0, 10, 30, 30, 100)) if scn["grain"] != "io" and not novel else 0
        if novel:
            # what is done once (tables filled at their first use): switch at first visits, then run on for long
            scn.update(grain=rng.choice(("line", "line", "op")), burst=0, p=0.0001,
                       novel=[rng.choice((1, 3, 10, 30)), rng.choice((0.3, 0.1, 0.03, 0.01))])
        elif scn["spots"]:
            scn["burst"] = 0
            scn["p"] = rng.choice((0.05, 0.02, 0.005))
        return scn

    def machine_for(self, scn, names=None):
        files, roles, jobs = {}, {"<stdout>": "stdout"}, []
        for n, t in enumerate(scn["tasks"]):
            paths = {k: f"{ROOT}/{n}.{k}" for k in ("in", "json", "song", "csv")}
            inp = n
            if scn.get("share"):
                # all that read the same log read the same file
                inp = min(k for k, x in enumerate(scn["tasks"]) if x["log"] == t["log"])
                paths["in"] = f"{ROOT}/{inp}.in"
            for k, p in paths.items():
                roles[p] = f"{k}{inp if k == 'in' else n}"
            files[paths["in"]] = vgmfile.build(scn["logs"][t["log"]])
            jj = {"mode": t.get("mode"), "in": paths["in"], "tpn": t.get("tpn")}
            for k in ("json", "song", "csv"):
                if t.get(k):
                    jj[k] = paths[k]
            jobs.append(jj)
        return files, roles, jobs

    def faults(self, scn):
        return [dict(t["bad"], label=t["bad"]["label"] + str(n), **({"task": n} if t["bad"]["kind"] == "crash" else {}))
                for n, t in enumerate(scn["tasks"]) if t.get("bad") and not (scn.get("share") and t["bad"]["label"] == "in")]

    def run(self, scn, st):
        if scn["kind"] == "readers":
            return self.run_readers(scn, st)
        files, roles, jobs = self.machine_for(scn)
        env = Env(files=files, roles=roles, faults=self.faults(scn), cwd=scn.get("cwd"), **c.machine(scn))
        sc = self.sched(scn)
        outs = [None] * len(jobs)
        notes = {}
        self.go(scn, env, sc, jobs, outs, notes)
        scn_switches = sc.switches
        st.env(env)
        st.switches += len(sc.switches)
        st.probe(scn["kind"] + "-" + scn["grain"])
        if sc.switches:
            st.key(scn["kind"][0], sc.switches)
        hit = {f["label"] for f in self.faults(scn)}
        for n, t in enumerate(scn["tasks"]):
            m = Model(scn["logs"][t["log"]]["ops"])
            st.song(m.time)
            if t.get("bad") and t["bad"]["label"] + str(n) in hit and outs[n].status in ("fail", "crash"):
                st.probe("task-" + outs[n].status)
                continue
            if outs[n].status != "ok":
                raise core.Violation("C08/fails", f"extraction {n} of {len(jobs)} in parallel ends with {outs[n].name}: "
                                                  f"{outs[n].exc}")
            d = J.judge_outputs(jobs[n], env.files(), "", m)
            if d is None and n in notes:
                d = J.diff_notes(notes[n], m)
            if d:
                raise core.Violation("C08/differs", f"extraction {n} of {len(jobs)} in parallel: {d}")
        return core.digest(env.digest(), scn_switches)

    def go(self, scn, env, sc, jobs, outs, notes):
        procs = {}

        def task(n):
            def go():
                job = c.relative(jobs[n], scn["tasks"][n].get("rel"), env.cwd0)
                outs[n] = J.attempt(env, job, lambda: self.work(job, n, notes))
            return go
        with env.active():
            with sched.locks(sc):
                if scn["kind"] == "processes":
                    # each its own copy of every module of the code; they share the disk only
                    for n in range(len(jobs)):
                        loader.fresh()
                        procs[n] = loader.take()
                    env.own_pids = True
                    own = (sys.stdout, sys.stdin, sys.stderr, sys.argv, env.cwd)
                    state = {n: own for n in range(len(jobs))}

                    def enter(n):
                        loader.put(procs[n])
                        sys.stdout, sys.stdin, sys.stderr, sys.argv, env.cwd = state[n]

                    def leave(n):
                        procs[n] = loader.take()
                        state[n] = (sys.stdout, sys.stdin, sys.stderr, sys.argv, env.cwd)
                        sys.stdout, sys.stdin, sys.stderr, sys.argv, env.cwd = own
                    sc.on_enter, sc.on_leave = enter, leave
                else:
                    loader.fresh(cold=scn["grain"] == "op")
                sched.CURRENT[0] = sc
                env.sched = sc
                sc.log = env.log
                try:
                    sc.run([task(n) for n in range(len(jobs))])
                finally:
                    env.sched = None

    @staticmethod
    def work(job, n, notes):
        s = J.call(job)
        if s is not None:
            notes[n] = J.state_notes(s)

    def sched(self, scn):
        if scn.get("switches") is not None:
            return sched.Sched(plan=scn["switches"], grain=scn["grain"])
        return sched.Sched(rng=random.Random(scn["seed"]), p=scn["p"], grain=scn["grain"], burst=scn.get("burst", 0),
                           spots=scn.get("spots", 0), salt=scn["seed"], novel=scn.get("novel"))

    # -- several readers advanced in turn
    def turns(self, scn):
        if scn.get("turns") is not None:
            return scn["turns"]
        rng = random.Random(scn["seed"])
        left = {n: len(scn["logs"][t["log"]]["ops"]) + 6 for n, t in enumerate(scn["tasks"])}
        stick = rng.choice((0, 0.5, 0.9))
        out, last = [], None
        while left:
            n = last if last in left and rng.random() < stick else rng.choice(sorted(left))
            last = n
            out.append(n)
            left[n] -= 1
            if not left[n]:
                del left[n]
        return out

    def run_readers(self, scn, st):
        files, roles, jobs = self.machine_for(scn)
        alone = []
        dig = []
        for n, jj in enumerate(jobs):
            alone.append(self.alone(scn, files, roles, jj))
        env = Env(files=files, roles=roles, **c.machine(scn))
        turns = self.turns(scn)
        N = len(jobs)
        res = [None] * N
        with env.active():
            loader.fresh()
            import main
            import tools
            import vgm.core
            gens = []

            def work(n):
                with tools.smart_open(jobs[n]["in"], "rb") as f:
                    v = vgm.core.reader(f)
                    box = {"facts0": J.facts(v)}
                    yield
                    from vgm.command import EOSCommand, WaitCommand
                    from vgm.ym2151.config import YM2151Command
                    from vgm.ym2151.state import State
                    st_ = State()
                    cmds = []
                    direct = hasattr(st_, "apply") and hasattr(st_, "beat")
                    for cmd in v:
                        if not direct:
                            cmds.append(cmd)
                        elif isinstance(cmd, YM2151Command):
                            st_.apply(cmd)
                        elif isinstance(cmd, WaitCommand):
                            st_.beat(cmd.samples)
                        elif isinstance(cmd, EOSCommand):
                            break
                        yield
                    yield
                    box["facts1"] = J.facts(v)
                    if not direct:
                        st_ = main.process_vgm_file(cmds)
                    box["notes"] = J.state_notes(st_)
                    box["conf"] = J.configs_json(st_)
                    res[n] = box
            gens = [work(n) for n in range(N)]
            started = set()
            over = 0
            prev = None
            for n in turns:
                if n >= N:
                    continue
                if prev is not None and n != prev and len(started) > 1:
                    over += 1
                prev = n
                started.add(n)
                try:
                    next(gens[n])
                except StopIteration:
                    pass
                except Exception as e:
                    res[n] = e
            for n, g in enumerate(gens):
                if res[n] is None:
                    try:
                        for _ in g:
                            pass
                    except Exception as e:
                        res[n] = e
        st.env(env)
        st.switches += over
        st.probe("readers")
        if over:
            st.key("r", turns)
        for n, t in enumerate(scn["tasks"]):
            m = Model(scn["logs"][t["log"]]["ops"])
            st.song(m.time)
            r = res[n]
            if not isinstance(r, dict):
                raise core.Violation("C08/fails", f"reader {n} of {N} fails when interleaved: {type(r).__name__}: {r}")
            for k in ("facts0", "facts1"):
                if r[k] != alone[n]:
                    raise core.Violation("C08/facts", f"reader {n} of {N}: version, size, clocks, support {r[k]} interleaved, "
                                                      f"{alone[n]} alone")
            d = J.diff_notes(r["notes"], m)
            if d is None and r["conf"] != m.json():
                d = "instruments differ"
            if d:
                raise core.Violation("C08/differs", f"reader {n} of {N}: {d}")
        return core.digest(env.digest(), turns)

    def alone(self, scn, files, roles, jj):
        env = Env(files={jj["in"]: files[jj["in"]]}, roles=roles, **c.machine(scn))
        with env.active():
            loader.fresh()
            import tools
            import vgm.core
            with tools.smart_open(jj["in"], "rb") as f:
                return J.facts(vgm.core.reader(f))

    # -- minimising
    def explicit(self, scn):
        s = copy.deepcopy(scn)
        if scn["kind"] == "readers":
            s["turns"] = self.turns(scn)
            return s
        files, roles, jobs = self.machine_for(scn)
        env = Env(files=files, roles=roles, faults=self.faults(scn), cwd=scn.get("cwd"), **c.machine(scn))
        sc = self.sched(scn)
        try:
            self.go(scn, env, sc, jobs, [None] * len(jobs), {})
        except BaseException:
            return None
        s["switches"] = sc.switches
        return s

    def lists(self, scn):
        out = [["turns"]] if scn["kind"] == "readers" else [["switches"]]
        return [p for p in out if scn.get(p[0]) is not None] + [["logs", n, "ops"] for n in range(len(scn["logs"]))]

    def simpler(self, scn):
        if len(scn["tasks"]) > 2:
            for k in range(len(scn["tasks"])):
                s = copy.deepcopy(scn)
                del s["tasks"][k]
                if s.get("switches") is not None:
                    fix = lambda x: x - (x > k)
                    s["switches"] = [[fix(a), b, fix(d)] for a, b, d in s["switches"] if a != k and d != k]
                if s.get("turns") is not None:
                    s["turns"] = [t - (t > k) for t in s["turns"] if t != k]
                yield s
        yield from core.simpler_keys(scn, [], {"delivery": None, "bufsize": 8192})
        for n in range(len(scn["logs"])):
            yield from core.simpler_keys(scn, ["logs", n], {"gz": None, "tail": None, "end": True, "hdr": {"version": 151}})
        for n, j in enumerate(scn["tasks"]):
            for k in ("song", "csv", "json"):
                if j.get(k) and sum(bool(j.get(x)) for x in ("song", "csv", "json")) > 1:
                    s = copy.deepcopy(scn)
                    del s["tasks"][n][k]
                    yield s
        for n in range(len(scn["logs"])):
            yield from core.simpler_ops(scn, ["logs", n, "ops"])


CHECK = C08()
