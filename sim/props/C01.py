"""Success means every requested output is complete and right."""
import random

import core
import job as J
import steps
import vgmfile
import world
from props import common as c


class C01(c.FaultProp):
    id = "C01"
    runs = {"quick": 8500, "thorough": 30000}
    rule = ("one case = one whole extraction with faults placed on I/O operations a dry run performed, or an allocation that fails at a source line; non-trivial if a "
            "fault fired or the delivery was partial; distinct by (outputs, mode, faulted operation, kind, outcome)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((20, 60, 150, 300)))
        job = c.random_job(rng, log["ops"], p_song=0.55, stdout=0.15)
        scn = {"log": log, "job": job, "old": c.random_old(rng, job), **c.random_machine(rng)}
        outs = [x for x in ("json", "song", "csv") if job.get(x)]
        if job.get("json") == "-":
            outs = [("stdout" if x == "json" else x) for x in outs]
        x = rng.random()
        if x < 0.1:
            scn["picks"] = []
        elif x < 0.25:
            scn["picks"] = []
            scn["disk_free"] = rng.choice((0, 1, 10, 100, 500, 1000, 2000, 4000, rng.randint(0, 9000)))
        elif x < 0.85:
            scn["picks"] = [c.random_pick(rng, on=outs)]
            if rng.random() < 0.3:
                scn["picks"][0]["ops"] = [rng.choice(("close", "open", "write"))]
        elif x < 0.88:
            scn["picks"] = [c.random_pick(rng, "nomem", on=outs + ["in"])]
        elif x < 0.93:
            scn["picks"] = [c.random_pick(rng, on=["in"])]
        else:
            scn["picks"] = [c.random_pick(rng) for _ in range(2)]
        if x < 0.03:
            scn["alloc"] = rng.getrandbits(30)
        return scn

    def specials(self, tier):
        # outputs of hundreds of kilobytes: complete, and with the device failing or filling up late
        out = []
        for faults, free in (([], None), ([], 200000), ([{"label": "json", "op": "close", "n": 0, "kind": "eio"}], None),
                             ([{"label": "json", "op": "write", "n": 20, "kind": "eio"}], None),
                             ([{"label": "csv", "op": "write", "n": 3, "kind": "enospc"}], None)):
            out.append({"log": {"ops": world.giant("instruments", tier), "hdr": {"version": 151}, "end": True}, "old": {},
                        "job": {"in": J.IN, "json": J.JSON, "song": J.SONG, "csv": J.CSV, "tpn": 735, "mode": "api"},
                        "faults": faults, "disk_free": free})
        return out

    def run(self, scn, st):
        data = vgmfile.build(scn["log"])
        files = dict(c.old_files(scn), **{J.IN: data})
        if scn.get("alloc") is not None or scn.get("points"):
            return self.run_alloc(scn, st, files)
        faults = self.resolve(scn)
        env, out = J.session(files, scn["job"], faults=faults, disk_free=scn.get("disk_free"), **c.machine(scn))
        st.env(env)
        st.probe("outcome-" + out.status)
        m = c.mdl(scn["log"])
        st.song(m.time)
        if env.faults_fired:
            st.key(sorted(k for k in scn["job"] if k in ("json", "song", "csv")), scn["job"]["mode"],
                   [(f["label"], f["op"], f["kind"]) for f in faults], sorted(env.faults_fired), out.status)
        if out.status == "ok":
            if any(not k.startswith(("read-", "write-eintr", "write-short")) for k in env.faults_fired):
                st.probe("success-despite-error")
            d = J.judge_outputs(scn["job"], env.files(), env.stdout_node.data.decode("utf-8", "replace"), m)
            if d:
                raise core.Violation("C01/false-success", f"success reported, but {d} ({c.describe(faults)})")
        return env.digest()

    def points(self, scn, files):
        """Allocations to fail: [source line, which of all lines executed]."""
        if scn.get("points"):
            return scn["points"]
        rng = random.Random(scn["alloc"])
        seen = steps.interrupt(exc=MemoryError(), places=True)
        J.session(files, scn["job"], around=seen, **c.machine(scn))
        lines = sorted(seen.seen)
        return [[k, rng.choice(seen.seen[k])] for k in rng.sample(lines, min(len(lines), 12))]

    def run_alloc(self, scn, st, files):
        m = c.mdl(scn["log"])
        dig = []
        for key, at in self.points(scn, files):
            around = steps.interrupt(at, exc=MemoryError())
            env, out = J.session(files, scn["job"], around=around, **c.machine(scn))
            st.env(env)
            st.probe("allocation-failed-" + out.status)
            if around.fired:
                st.faults["no-memory-line"] = st.faults.get("no-memory-line", 0) + 1
                st.key("no memory", key, scn["job"]["mode"], out.status)
            dig.append((env.digest(), out.status))
            if out.status == "ok":
                d = J.judge_outputs(scn["job"], env.files(), env.stdout_node.data.decode("utf-8", "replace"), m)
                if d:
                    raise core.Violation("C01/false-success", f"success reported, but {d} (an allocation failed at {key}, source line "
                                                              f"number {at} of the run)")
        return core.digest(dig)

    def explicit(self, scn):
        if scn.get("alloc") is None:
            return super().explicit(scn)
        return {**{k: v for k, v in scn.items() if k != "alloc"},
                "points": self.points(scn, dict(c.old_files(scn), **{J.IN: vgmfile.build(scn["log"])}))}

    def lists(self, scn):
        return [*super().lists(scn), *([["points"]] if scn.get("points") else [])]


CHECK = C01()
