"""Every file is closed again, whatever happens."""
import copy
import random

import core
import job as J
import vgmfile
import world
from props import common as c


class C17(core.Prop):
    id = "C17"
    level = "fault_enumeration"
    runs = {"quick": 1580, "thorough": 10000}
    rule = ("one case = one run with an error or a cancellation at one raw I/O operation; for each scenario every operation of "
            "the dry run is such a point (up to a cap), after a run without faults; distinct by (operation, file, kind, mode, "
            "source, ending)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((5, 30, 80)))
        if rng.random() < 0.15 and log.get("gz"):
            log["spoil"] = round(rng.random(), 3)
        job = c.random_job(rng, log["ops"], p_song=0.5, stdout=0.15, max_rows=70)
        src = rng.choice(("file", "file", "file", "pipe"))
        return {"log": log, "job": job, "src": src, "plan": rng.getrandbits(30), "cap": 30 if tier == "quick" else 90,
                "bad_header": rng.random() < 0.08, **c.random_machine(rng)}

    def points(self, scn, trace):
        if scn.get("points") is not None:
            return scn["points"]
        rng = random.Random(scn["plan"])
        pts = []
        reads = 0
        for label, op, n, size in trace:
            if op == "read":
                reads += 1
                if reads > 12 and rng.random() < 0.9:
                    continue
            pts.append({"label": label, "op": op, "n": n, "kind": rng.choice(c.KINDS.get(op, ("eio",))),
                        "sticky": rng.random() < 0.4})
            if op == "write" and rng.random() < 0.5:
                pts[-1]["part"] = 0.5
            if op != "close":
                pts.append({"label": label, "op": op, "n": n, "kind": "cancel" if rng.random() < 0.8 else "nomem"})
        if len(pts) > scn["cap"]:
            keep = set(rng.sample(range(len(pts)), scn["cap"]))
            pts = [p for k, p in enumerate(pts) if k in keep]
        return [None] + pts

    def setup(self, scn):
        data = bytearray(vgmfile.build({k: v for k, v in scn["log"].items() if k != "spoil"}))
        if scn["log"].get("spoil") is not None and len(data) > 20:
            data[10 + int(scn["log"]["spoil"] * (len(data) - 10))] ^= 0x41
        if scn.get("bad_header"):
            data[:4] = b"Vg!!"
        data = bytes(data)
        job = dict(scn["job"])
        kw = dict(c.machine(scn))
        files = {J.IN: data}
        if scn["src"] == "pipe":
            job["in"], files = "-", {}
            kw.update(stdin=data, stdin_seekable=False)
        return files, job, kw

    def run(self, scn, st):
        files, job, kw = self.setup(scn)
        trace = []
        if scn.get("points") is None:
            dry, out = J.session(files, job, **kw)
            trace = dry.trace
        dig = []
        for p in self.points(scn, trace):
            env, out = J.session(files, job, faults=[p] if p else [], **kw)
            st.env(env)
            dig.append((env.digest(), out.status))
            st.probe("ended-" + out.status)
            st.key(p and (p["label"], p["op"], p["kind"], min(p["n"], 9)), job["mode"], scn["src"], out.status)
            what = f"{p['kind']} at {p['op']} {p['n']} of {p['label']}" if p else "no fault"
            if out.open:
                raise core.Violation("C17/left-open", f"{what}: the run ended ({out.name}) with {out.open} still open")
            if out.std_closed:
                raise core.Violation("C17/std-closed", f"{what}: the run ended ({out.name}) with {out.std_closed} closed")
        return core.digest(dig)

    def explicit(self, scn):
        s = copy.deepcopy(scn)
        files, job, kw = self.setup(scn)
        dry, _ = J.session(files, job, **kw)
        s["points"] = self.points(scn, dry.trace)
        return s

    def lists(self, scn):
        return [["points"], ["log", "ops"]]

    def simpler(self, scn):
        yield from core.Prop.simpler(self, scn)
        yield from core.simpler_keys(scn, [], {"src": "file", "bad_header": False})
        for k in ("song", "csv", "json"):
            j = scn["job"]
            if j.get(k) and sum(bool(j.get(x)) for x in ("song", "csv", "json")) > 1:
                s = copy.deepcopy(scn)
                del s["job"][k]
                yield s


CHECK = C17()
