"""Writing an output changes nothing else."""
import contextlib
import copy
import random

import core
import job as J
import loader
import model
import sched
import steps as linesteps
import vgmfile
import world
from env import ROOT, Env
from model import Model
from props import common as c

KINDS = ("json", "song", "csv")


class C24(core.Prop):
    id = "C24"
    runs = {"quick": 3000, "thorough": 40000}
    rule = ("one case = 1-3 states in one process, read in pieces, with outputs written from them in between (some of which "
            "fail or are cancelled, some by several threads at once under a seeded schedule); non-trivial if something is done with a state after an output was written from it; "
            "distinct by the sequence of steps and their endings")

    def gen(self, rng, i, tier):
        logs = [world.random_log(rng, limit=rng.choice((4, 12, 30, 80)), gz=rng.random() < 0.15)
                for _ in range(rng.choice((1, 1, 2, 3)))]
        N = len(logs)
        if N > 1 and rng.random() < 0.4:
            logs[1] = copy.deepcopy(logs[0])
        tpns = [c.pick_tpn(rng, max((x["ops"] for x in logs), key=c.span), 120) for _ in range(2)]
        steps = []
        # how the reading of each log is cut
        cuts = [rng.choice((0, 0, 1, 1, 2, 4)) for _ in range(N)]
        for s in range(N):
            n = len(logs[s]["ops"])
            steps += [["feed", s, rng.randint(0, max(1, n // 2))] for _ in range(cuts[s])]
            steps += [["feed", s, None]] if rng.random() < 0.8 else []
        steps.sort(key=lambda _: rng.random())
        # a state is complete only at its last feed: keep "rest" steps behind the pieces of their log
        steps.sort(key=lambda x: x[2] is None if rng.random() < 0.7 else rng.random() < 0.5)
        out = []
        for k in range(len(steps) + 1):
            for _ in range(rng.choice((0, 1, 1, 2, 4))):
                s = rng.randrange(N)
                x = rng.random()
                if x > 0.93:
                    # several threads write at once, mostly from one state
                    grain = rng.choice(("line", "line", "io"))
                    out.append(["together", s, [[s if rng.random() < 0.8 else rng.randrange(N), rng.choice(KINDS), rng.choice(tpns)]
                                                for _ in range(rng.choice((2, 2, 3)))],
                                {"grain": grain, "p": rng.choice((0.5, 0.1) if grain == "io" else (0.3, 0.05, 0.005)),
                                 "burst": rng.choice((0, 0, 20)), "spots": rng.choice((0, 10, 30)) if grain == "line" else 0,
                                 "seed": rng.getrandbits(30)}])
                elif x < 0.06:
                    out.append(["guess", s])
                elif x < 0.16:
                    out.append(["look", s])
                else:
                    step = ["write", s, rng.choice(KINDS), rng.choice(tpns), rng.randrange(3)]
                    if rng.random() < 0.2:
                        step.append({"op": rng.choice(("open", "write", "write", "close")), "n": rng.choice((0, 0, 1, 3)),
                                     "kind": rng.choice(("eio", "enospc", "cancel", "nomem"))})
                    elif rng.random() < 0.1:
                        # an allocation fails some way into it
                        step.append({"at": int(10 ** rng.uniform(0, 4))})
                    out.append(step)
            if k < len(steps):
                out.append(steps[k])
        return {"logs": logs, "steps": out, **c.random_machine(rng)}

    def run(self, scn, st):
        files = {f"{ROOT}/{s}.in": vgmfile.build(lg) for s, lg in enumerate(scn["logs"])}
        roles = {p: "in" for p in files}
        roles["<stdout>"] = "stdout"
        env = Env(files=files, roles=roles, **c.machine(scn))
        self.ends = []
        self.plans = {}
        with env.active(), sched.locks(None):
            loader.fresh()
            with contextlib.ExitStack() as stack:
                self.play(scn, st, env, stack)
        st.env(env)
        for lg in scn["logs"]:
            st.song(c.span(lg["ops"]))
        if any(e[0] == "write" for e in self.ends[:-1]):
            st.key(self.ends)
        return core.digest(env.digest(), self.ends)

    def play(self, scn, st, env, stack):
        import extractors
        import main
        import vgm.core
        from tools import smart_open
        from vgm.command import WaitCommand
        from vgm.ym2151.config import YM2151Command
        from vgm.ym2151.state import State
        logs = scn["logs"]
        N = len(logs)
        states, iters, mdl, at = [None] * N, [None] * N, [Model() for _ in logs], [0] * N
        direct = hasattr(State(), "apply") and hasattr(State(), "beat")
        made = {}       # path -> (kind, expected content), of what was last written there

        def feed(s, k):
            ops = logs[s]["ops"]
            if iters[s] is None:
                iters[s] = iter(vgm.core.reader(stack.enter_context(smart_open(f"{ROOT}/{s}.in", "rb"))))
                if direct:
                    states[s] = State()
            k = len(ops) - at[s] if k is None or not direct else min(k, len(ops) - at[s])
            if not direct:
                if states[s] is None:
                    states[s] = main.process_vgm_file(iters[s])
            else:
                for _ in range(k):
                    cmd = next(iters[s], None)
                    if isinstance(cmd, YM2151Command):
                        states[s].apply(cmd)
                    elif isinstance(cmd, WaitCommand):
                        states[s].beat(cmd.samples)
            for op in ops[at[s]:at[s] + k]:
                mdl[s].step(op)
            at[s] += k

        def judge(where):
            """The states and the outputs written so far."""
            for s in range(N):
                if states[s] is None:
                    continue
                d = J.diff_notes(J.state_notes(states[s]), mdl[s])
                if d is None and J.configs_json(states[s]) != mdl[s].json():
                    d = "instruments differ"
                if d:
                    raise core.Violation("C24/state", f"{where}, log {s} after {at[s]} of {len(logs[s]['ops'])} commands: {d}")
            now = env.files()
            for path, (job, m) in made.items():
                d = J.judge_outputs(job, now, "", m)
                if d:
                    raise core.Violation("C24/output", f"{where}: {d}")

        steps = list(scn["steps"])
        for s in range(N):
            # in the end, everything once more
            steps += [["feed", s, None], ["write", s, "csv", 1000, 3], ["write", s, "json", 1000, 3], ["write", s, "song", 1000, 3]]
        done = []
        for n, step in enumerate(steps):
            kind, s = step[0], step[1]
            if s >= N:
                continue
            where = f"step {n + 1} ({kind} of log {s}), earlier: {done[-6:]}"
            if kind == "feed" or states[s] is None:
                try:
                    feed(s, step[2] if kind == "feed" else 0)
                except Exception as e:
                    raise core.Violation("C24/feed", f"{where}: {type(e).__name__}: {e}")
                if kind == "feed":
                    done.append("feed")
                    self.ends.append(["feed", s, at[s]])
                    continue
            if kind == "together":
                if any(w[0] >= N or states[w[0]] is None for w in step[2]):
                    continue
                self.together(step, env, states, mdl, made, st, n, where)
                done.append("together")
                self.ends.append(["together", sorted(map(str, step[2])), at[s]])
                judge(where)
                continue
            if kind == "look":
                states[s].ticks()
                for ch in range(8):
                    states[s].channel_config(ch)
                done.append("look")
                judge(where)
                continue
            if kind == "guess":
                st.probe("guess")
                want = model.guess(mdl[s].onsets)
                got = states[s].ticks_per_note()
                if got != want:
                    raise core.Violation("C24/guess", f"{where}: row length {got} instead of {want}")
                done.append("guess")
                continue
            what, tpn, slot = step[2:5]
            fault = step[5] if len(step) > 5 else None
            tpn = max(tpn, mdl[s].time // 3000 + 1)
            path = f"{ROOT}/{slot}.{what}"
            env.roles[path] = f"out{n}"
            alloc = None
            if fault and "at" in fault:
                alloc = linesteps.interrupt(fault["at"], exc=MemoryError())
                fault = None
            if fault:
                env.faults[(f"out{n}", fault["op"], fault["n"])] = dict(fault, label=f"out{n}")
            key = f"{fault['op']}-{fault['kind']}" if fault else None
            fired = env.faults_fired.get(key, 0)

            def write():
                if what == "json":
                    extractors.extract_instruments(path, states[s])
                elif what == "song":
                    extractors.extract_tracks_to_xrns(states[s], path, tpn)
                else:
                    extractors.extract_tracks(states[s], path, tpn)
            with alloc or contextlib.nullcontext():
                out = J.attempt(env, {}, write)
            if alloc and alloc.fired:
                st.faults["no-memory-line"] = st.faults.get("no-memory-line", 0) + 1
            st.probe(f"{what}-{out.status}")
            self.ends.append(["write", s, what, out.status, at[s], slot])
            made.pop(path, None)
            if out.status == "ok":
                made[path] = ({what: path, "tpn": tpn}, copy.deepcopy(mdl[s]))
            elif env.faults_fired.get(key, 0) == fired and not (alloc and alloc.fired):
                raise core.Violation("C24/fails", f"{where}: {what} ends with {out.name}: {out.exc}")
            done.append(f"{what}{'' if out.status == 'ok' else '!'}")
            judge(where)

    def together(self, step, env, states, mdl, made, st, n, where):
        import extractors
        how = step[3]
        writes = [(s, what, max(tpn, mdl[s].time // 400 + 1), f"{ROOT}/together{k}.{what}")
                  for k, (s, what, tpn) in enumerate(step[2])]
        outs = [None] * len(writes)
        fns = {"json": lambda s, p, tpn: extractors.extract_instruments(p, s),
               "song": lambda s, p, tpn: extractors.extract_tracks_to_xrns(s, p, tpn),
               "csv": lambda s, p, tpn: extractors.extract_tracks(s, p, tpn)}

        def task(k):
            s, what, tpn, path = writes[k]

            def go():
                outs[k] = J.attempt(env, None, lambda: fns[what](states[s], path, tpn))
            return go
        for k, w in enumerate(writes):
            env.roles[w[3]] = f"out{n}-{k}"
            made.pop(w[3], None)
        if "plan" in how:
            sc = sched.Sched(plan=how["plan"], grain=how["grain"])
        else:
            sc = sched.Sched(rng=random.Random(how["seed"]), p=how["p"], grain=how["grain"], burst=how["burst"],
                             spots=how["spots"], salt=how["seed"])
        sched.CURRENT[0] = sc
        env.sched = sc
        sc.log = env.log
        try:
            sc.run([task(k) for k in range(len(writes))])
        finally:
            env.sched = None
            sched.CURRENT[0] = None
            self.plans[n] = sc.switches
        st.switches += len(sc.switches)
        st.probe("together")
        for out, (s, what, tpn, path) in zip(outs, writes):
            if out is None or out.status != "ok":
                raise core.Violation("C24/fails", f"{where}: {what} beside others ends with {out and out.name}: {out and out.exc}")
            made[path] = ({what: path, "tpn": tpn}, copy.deepcopy(mdl[s]))

    def explicit(self, scn):
        """The schedules as lists of switches, where the run drew them from a seed."""
        if all(x[0] != "together" or "plan" in x[3] for x in scn["steps"]):
            return None
        try:
            self.run(scn, core.Stats())
        except core.Violation:
            pass
        s = copy.deepcopy(scn)
        for n, step in enumerate(s["steps"]):
            if step[0] == "together" and "plan" not in step[3]:
                step[3] = {"grain": step[3]["grain"], "plan": self.plans.get(n, [])}
        return s

    def lists(self, scn):
        return ([["steps"]] + [["logs", n, "ops"] for n in range(len(scn["logs"]))]
                + [["steps", n, 3, "plan"] for n, x in enumerate(scn["steps"]) if x[0] == "together" and "plan" in x[3]])

    def simpler(self, scn):
        yield from core.simpler_keys(scn, [], {"delivery": None, "bufsize": 8192})
        for n, step in enumerate(scn["steps"]):
            if step[0] == "together":
                for k in range(len(step[2])):
                    if len(step[2]) > 1:
                        yield core.with_path(scn, ["steps", n, 2], step[2][:k] + step[2][k + 1:])
            if len(step) > 5:
                s = copy.deepcopy(scn)
                del s["steps"][n][5]
                yield s
        for n in range(len(scn["logs"])):
            yield from core.simpler_keys(scn, ["logs", n], {"gz": None, "tail": None, "end": True, "hdr": {"version": 151}})
        for n in range(len(scn["logs"])):
            yield from core.simpler_ops(scn, ["logs", n, "ops"])


CHECK = C24()
