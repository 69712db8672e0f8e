"""A killed or failed run never leaves a file that passes for finished."""
import copy
import random

import core
import job as J
import model
import steps
import vgmfile
import world
from props import common as c


class C02(core.Prop):
    id = "C02"
    level = "fault_enumeration"
    runs = {"quick": 1120, "thorough": 6000}
    rule = ("one case = one run stopped (killed, power cut, cancelled, I/O error) at one raw I/O operation; for each scenario "
            "every operation of the dry run on an output is a stopping point (up to a cap); distinct by (operation, output, "
            "way of stopping, share of the write done, what the path then held)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((15, 40, 100)), foreign=False)
        # at least one instrument, so that an empty result is a wrong one
        log["ops"] += [["w", 8, 0x78], ["t", 0x61, 100], ["w", 8, 0]]
        job = c.random_job(rng, log["ops"], p_json=0.8, p_song=0.6, stdout=0, max_rows=130)
        job.pop("csv", None)
        if not job.get("json") and not job.get("song"):
            job["json"] = J.JSON
        return {"log": log, "job": job, "old": c.random_old(rng, job, 0.7), "plan": rng.getrandbits(30),
                "cap": 24 if tier == "quick" else 60, **c.random_machine(rng)}

    def dry(self, scn, files):
        count = steps.interrupt()
        env, _ = J.session(files, scn["job"], around=count, **c.machine(scn))
        return env, count.n

    def points(self, scn, trace, lines):
        if scn.get("points") is not None:
            return scn["points"]
        rng = random.Random(scn["plan"])
        outs = [t for t in trace if t[0] in ("json", "song", "other") or t[1] in ("rename", "remove", "fsync")]
        ins = [t for t in trace if t[0] == "in"]
        pts = []
        for t in outs:
            for how in ("kill", "power", "power") if t[1] != "close" else ("kill", "power"):
                pts.append(self.point(rng, t, how))
            pts.append(self.point(rng, t, "error" if rng.random() < 0.6 or t[1] == "close" else
                                  "cancel" if rng.random() < 0.7 else "nomem"))
        for t in rng.sample(ins, min(3, len(ins))):
            pts.append(self.point(rng, t, rng.choice(("kill", "error"))))
        for _ in range(4):
            # Ctrl-C just before some line of the code, mostly late, where outputs are being written
            u = rng.random()
            pts.append({"how": "cancel-line", "at": max(1, lines - int(lines * u * u))})
        pts.append({"how": "power-after", "power": self.power(rng)})
        if len(pts) > scn["cap"]:
            keep = set(rng.sample(range(len(pts)), scn["cap"]))
            pts = [p for n, p in enumerate(pts) if n in keep]
        return pts

    def point(self, rng, t, how):
        p = {"how": how, "label": t[0], "op": t[1], "n": t[2]}
        if t[1] == "write":
            p["part"] = rng.choice((0, 0.1, 0.5, 0.5, 0.99, 1.0))
        if how == "power":
            p["power"] = self.power(rng)
        if how == "error":
            ks = c.KINDS.get(t[1], ("eio",))
            p["kind"] = rng.choice(ks)
            p["sticky"] = rng.random() < 0.4
        return p

    def power(self, rng):
        out = {}
        for path in (J.JSON, J.SONG):
            x = rng.random()
            if x < 0.2:
                out[path] = ["old"]
            elif x < 0.5:
                out[path] = ["prefix", round(rng.random(), 3)]
            elif x < 0.8:
                out[path] = ["holes", rng.choice((64, 512, 4096)), [rng.getrandbits(8) for _ in range(rng.randint(1, 6))]]
        return out

    def run(self, scn, st):
        data = vgmfile.build(scn["log"])
        old = c.old_files(scn)
        files = dict(old, **{J.IN: data})
        m = c.mdl(scn["log"])
        song = m.song(J.row_length(scn["job"], m)) if scn["job"].get("song") else None
        dry, lines = self.dry(scn, files) if scn.get("points") is None else J.session(files, scn["job"], **c.machine(scn))
        st.env(dry)
        st.song(m.time)
        dig = [dry.digest()]
        for p in self.points(scn, dry.trace, lines):
            faults = []
            if p["how"] not in ("power-after", "cancel-line"):
                kind = {"kill": "crash", "power": "crash", "cancel": "cancel", "nomem": "nomem"}.get(p["how"]) or p["kind"]
                f = {"label": p["label"], "op": p["op"], "n": p["n"], "kind": kind}
                if p.get("part"):
                    f["part"] = p["part"]
                if p.get("sticky"):
                    f["sticky"] = True
                faults = [f]
            if p["how"] == "cancel-line":
                env, out = J.session(files, scn["job"], around=steps.interrupt(p["at"]), **c.machine(scn))
                st.faults["cancel-line"] = st.faults.get("cancel-line", 0) + 1
                p = dict(p, op="line", n=p["at"], label="the code")
            else:
                env, out = J.session(files, scn["job"], faults=faults, **c.machine(scn))
            st.env(env)
            dig.append((env.digest(), out.status))
            power = p.get("power")
            if p["how"].startswith("power"):
                st.faults["power-loss"] = st.faults.get("power-loss", 0) + 1
            after = env.durable_files(power)
            for path, read, diff, want in ((scn["job"].get("json"), model.read_json, model.diff_json, m.json()),
                                           (scn["job"].get("song"), model.read_song,
                                            model.diff_song, song)):
                if not path:
                    continue
                state, d = self.judge(path, after, old, read, diff, want)
                st.probe("left-" + state)
                st.key(p.get("op"), p.get("label"), p["how"], p.get("kind"), p.get("part"), path, state,
                       p.get("n", 0) if p.get("op") == "write" else 0)
                if d:
                    raise core.Violation("C02/passes-for-finished",
                                         f"{path} can be read after '{p['how']}' at {p.get('op')} {p.get('n')} of "
                                         f"{p.get('label')} (run ended: {out.status}), but {d}")
        return core.digest(dig)

    def judge(self, path, after, old, read, diff, want):
        if path not in after:
            return ("absent", None) if path not in old else ("removed", None)
        if after[path] == old.get(path):
            return "old", None
        try:
            got = read(after[path])
        except model.Unreadable:
            return "unfinished", None
        d = diff(got, want)
        return ("right", None) if d is None else ("wrong", d)

    def explicit(self, scn):
        s = copy.deepcopy(scn)
        dry, lines = self.dry(scn, dict(c.old_files(scn), **{J.IN: vgmfile.build(scn["log"])}))
        s["points"] = self.points(scn, dry.trace, lines)
        return s

    def lists(self, scn):
        return [["points"], ["log", "ops"]]

    def simpler(self, scn):
        yield from core.Prop.simpler(self, scn)
        for k in ("song", "json"):
            if scn["job"].get("song") and scn["job"].get("json"):
                s = copy.deepcopy(scn)
                del s["job"][k]
                yield s


CHECK = C02()
