"""An interrupted run stops at once and says so."""
import copy
import random

import core
import job as J
import steps
import vgmfile
import world
from props import common as c

OUTS = ("json", "song", "csv")
LINES_AFTER = 2000
READS_AFTER = 4


class C25(core.Prop):
    id = "C25"
    level = "fault_enumeration"
    runs = {"quick": 1100, "thorough": 8000}
    rule = ("one case = one run interrupted (Ctrl-C, or a signal handler's SystemExit, once or twice) at one raw I/O operation or "
            "just before one source line, lines drawn by their place in the code so that rare ones get their share; distinct by "
            "(place, occurrence class, kind, mode, source)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((3, 20, 60)), gz=rng.random() < 0.3)
        job = c.random_job(rng, log["ops"], p_song=0.5, stdout=0.1, max_rows=70)
        if job["mode"] != "api" and rng.random() < 0.12 and c.span(log["ops"]) < 70000:
            job["tpn"] = None
        return {"log": log, "job": job, "src": rng.choice(("file", "file", "pipe")), "old": c.random_old(rng, job, 0.3),
                "plan": rng.getrandbits(30), "cap": 22 if tier == "quick" else 70, **c.random_machine(rng)}

    def setup(self, scn):
        data = vgmfile.build(scn["log"])
        job, kw, files = dict(scn["job"]), dict(c.machine(scn)), dict(c.old_files(scn), **{J.IN: data})
        if scn["src"] == "pipe":
            job["in"] = "-"
            del files[J.IN]
            kw.update(stdin=data, stdin_seekable=False)
        return files, job, kw

    def points(self, scn, files, job, kw):
        if scn.get("points") is not None:
            return scn["points"], None
        rng = random.Random(scn["plan"])
        places = steps.interrupt(places=True)
        dry, out = J.session(files, job, around=places, **kw)
        if out.status != "ok":
            raise core.Violation("C25/fails", f"without an interruption the run ends with {out.name}: {out.exc}")
        pts = []
        ops = [t for t in dry.trace if t[1] != "close"]
        for t in rng.sample(ops, min(len(ops), scn["cap"] // 3)):
            pts.append({"label": t[0], "op": t[1], "n": t[2], "kind": "cancel"})
        lines = sorted(places.seen)
        for key in rng.sample(lines, min(len(lines), scn["cap"] - len(pts))):
            first, last, some = places.seen[key]
            pts.append({"at": rng.choice((first, last, some)), "line": key})
            if rng.random() < 0.2:
                pts[-1]["exc"] = "SystemExit"
            if rng.random() < 0.2:
                pts[-1]["again"] = rng.choice((1, 2, 3, 5, 10, 30))
        return pts, dry

    def run(self, scn, st):
        files, job, kw = self.setup(scn)
        pts, dry = self.points(scn, files, job, kw)
        dig = [dry and dry.digest()]
        for p in pts:
            if "at" in p:
                around = steps.interrupt(p["at"], exc=SystemExit(143) if p.get("exc") else None, again=p.get("again"))
                env, out = J.session(files, job, around=around, **kw)
                st.faults["interrupt-line"] = st.faults.get("interrupt-line", 0) + 1
                if not around.fired:
                    continue  # the line came no more (a replayed point on other code)
                where = f"{'a signal handler exit' if p.get('exc') else 'Ctrl-C'} before {p['line']} (source line number {p['at']} of the run)"
                after = around.n - around.fired
                mark = around.mark
            else:
                env, out = J.session(files, job, faults=[p], **kw)
                where = f"Ctrl-C at {p['op']} {p['n']} of {p['label']}"
                after = 0
                at = [k for k, t in enumerate(env.trace) if t[:3] == (p["label"], p["op"], p["n"])]
                mark = at[0] + 1 if at else len(env.trace)
                if not at:
                    continue
            st.env(env)
            dig.append((env.digest(), out.status))
            st.probe("ended-" + out.status)
            st.key(p.get("line") or (p["label"], p["op"], min(p["n"], 9)), p.get("exc"), bool(p.get("again")), job["mode"], scn["src"])
            if out.status == "ok":
                raise core.Violation("C25/ignored", f"{where}: the run went on and reported success")
            late = [t[0] for t in env.trace[mark:] if t[1] == "open" and t[0] in OUTS]
            if late:
                raise core.Violation("C25/goes-on", f"{where}: {late} opened after that")
            reads = [t for t in env.trace[mark:] if t[1] == "read" and t[0] in ("in", "stdin")]
            if len(reads) > READS_AFTER:
                raise core.Violation("C25/goes-on", f"{where}: {len(reads)} more reads of the input after that")
            if after > LINES_AFTER:
                raise core.Violation("C25/goes-on", f"{where}: {after} more source lines executed after that")
        return core.digest(dig)

    def explicit(self, scn):
        s = copy.deepcopy(scn)
        s["points"] = self.points(scn, *self.setup(scn))[0]
        return s

    def lists(self, scn):
        return [["points"], ["log", "ops"]]

    def simpler(self, scn):
        yield from core.Prop.simpler(self, scn)
        yield from core.simpler_keys(scn, [], {"src": "file"})
        for n, p in enumerate(scn.get("points") or []):
            yield from core.simpler_keys(scn, ["points", n], {"again": None, "exc": None})
        for k in ("song", "csv", "json"):
            j = scn["job"]
            if j.get(k) and sum(bool(j.get(x)) for x in ("song", "csv", "json")) > 1:
                s = copy.deepcopy(scn)
                del s["job"][k]
                yield s


CHECK = C25()
