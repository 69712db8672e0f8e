"""A log cut short yields only events that were really logged."""
import json
import random

import core
import job as J
import vgmfile
import world
from env import Env
from model import Model
from props import common as c


class C05(core.Prop):
    id = "C05"
    level = "fault_enumeration"
    runs = {"quick": 1530, "thorough": 4000}
    rule = ("one case = one log cut at one byte (the recorder died there), every byte of the log in turn up to a cap; "
            "non-trivial if the cut is inside a command; distinct by (command cut, bytes of it left, ending, events kept)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((6, 20, 60, 120)), gz=False, tail=False,
                               foreign=rng.random() < 0.6)
        log["ops"] = world.cap(log["ops"], 200)
        return {"log": log, "cap": 260 if tier == "quick" else 2000, "plan": rng.getrandbits(30),
                "full": rng.random() < 0.25, **c.random_machine(rng, write=False)}

    def cuts(self, scn, n):
        if scn.get("cuts") is not None:
            return scn["cuts"]
        if n <= scn["cap"]:
            return list(range(n))
        rng = random.Random(scn["plan"])
        # the header and the end always, the rest sampled
        pick = set(rng.sample(range(n), scn["cap"] - 40))
        return sorted(pick | set(range(0, 0x41, 4)) | set(range(n - 20, n)))

    def run(self, scn, st):
        log = scn["log"]
        b, offs = vgmfile.body(log["ops"], log.get("end", True))
        head = vgmfile.header(log.get("hdr", {}), len(b))
        data = head + b
        model_at = {}
        m = Model()
        dig = []
        cuts = self.cuts(scn, len(data))
        k = 0
        import loader
        for cut in cuts:
            while k < len(offs) and len(head) + offs[k] <= cut:
                m.step(log["ops"][k])
                k += 1
            inside = None
            if cut > len(head) and k < len(offs):
                start = len(head) + (offs[k - 1] if k else 0)
                if cut > start:
                    inside = (log["ops"][k][0], data[start], cut - start)
            env = Env(files={J.IN: data[:cut]}, roles=J.ROLES, **c.machine(scn))
            box = {}
            job = {"mode": "main", "in": J.IN, "json": J.JSON, "tpn": 1000}
            with env.active():
                if scn["full"]:
                    out = J.attempt(env, job)
                else:
                    out = J.attempt(env, {}, lambda: box.__setitem__("st", J.api_extract({"in": J.IN})))
                    if out.status == "ok":
                        box["notes"] = J.state_notes(box["st"])
                        box["conf"] = J.configs_json(box["st"])
            st.env(env)
            st.probe(f"cut-{'inside' if inside else 'header' if cut < len(head) else 'between'}-{out.status}")
            if inside:
                st.faults["recorder-crash-in-command"] = st.faults.get("recorder-crash-in-command", 0) + 1
                st.key(inside, out.status, sum(map(len, m.notes)) if out.status == "ok" else None)
            dig.append((cut, out.status))
            if out.status != "ok":
                continue
            where = f"log of {len(data)} bytes cut at {cut}" + (
                f" ({inside[2]} byte(s) of command {inside[1]:02x} left)" if inside else "")
            if scn["full"]:
                d = J.judge_outputs(job, env.files(), "", m)
            else:
                d = J.diff_notes(box["notes"], m)
                if d is None and box["conf"] != m.json():
                    d = "instruments differ"
            if d:
                raise core.Violation("C05/invented", f"{where}: {d}")
        return core.digest(dig)

    def explicit(self, scn):
        s = json.loads(json.dumps(scn))
        b, _ = vgmfile.body(scn["log"]["ops"], scn["log"].get("end", True))
        s["cuts"] = self.cuts(scn, len(vgmfile.header(scn["log"].get("hdr", {}), len(b))) + len(b))
        return s

    def lists(self, scn):
        return [["cuts"], ["log", "ops"]] if scn.get("cuts") is not None and len(scn["cuts"]) > 3 else [["log", "ops"]]

    def simpler(self, scn):
        if scn.get("cuts") is not None:
            # let the cuts follow the shrinking log
            yield {**{k: v for k, v in scn.items() if k != "cuts"}, "cap": 2000}
        yield from core.Prop.simpler(self, scn)


CHECK = C05()
