"""A run touches nothing but the outputs it was asked for."""
import copy
import random

import core
import job as J
import vgmfile
import world
from env import ROOT
from props import common as c

NAMES = ("out.json.tmp", "out.xrns.tmp", "out.csv.tmp", "out.json~", "out.xrns.bak", "out.json.new", "out.json.part", "out.xrns.part",
         ".out.json.swp", "out.json.lock", "tmp", "Song.xml", "out", "in", "in.json", "in.xrns", "in.csv", "in.vgm.json", "in.vgm.tmp",
         "in.vgm.bak", "instruments.json", "song.xrns", "tracks.csv", "out.json", "out.xrns", "out.csv", "-", "core", "log.txt",
         "sub/out.json", "sub/in.vgm", "sub/out.xrns")


NOWHERE = ROOT + "/nowhere"


class C22(core.Prop):
    id = "C22"
    level = "fault_enumeration"
    runs = {"quick": 1810, "thorough": 10000}
    rule = ("one case = one run with an error, a cancellation, a failed allocation or a kill at one raw I/O operation, in a directory "
            "with other files; for each scenario every operation of the dry run is such a point (up to a cap), after a run without "
            "faults; distinct by (operation, file, kind, mode, source, outputs asked for, ending)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((5, 30, 80)))
        job = c.random_job(rng, log["ops"], p_json=0.6, p_song=0.5, stdout=0.15, max_rows=70)
        if job.get("song") and job["mode"] != "api" and rng.random() < 0.08:
            job["tpn"] = None  # to be guessed
        near = rng.sample(NAMES, rng.choice((0, 3, 8, 20)))
        scn = {"log": log, "job": job, "src": rng.choice(("file", "file", "file", "pipe")), "plan": rng.getrandbits(30),
               "cap": 24 if tier == "quick" else 80, "near": sorted(near), "old": c.random_old(rng, job, 0.5),
               "cwd": rng.random() < 0.5, "rel": rng.random() < 0.5, "bad_header": rng.random() < 0.08, **c.random_machine(rng)}
        scn["entropy"] = rng.getrandbits(20)
        if rng.random() < 0.08:
            # asked for in a folder that is not there
            scn["nowhere"] = [k for k in ("json", "song", "csv") if scn["job"].get(k, "-") != "-" and rng.random() < 0.6]
        return scn

    def points(self, scn, trace):
        if scn.get("points") is not None:
            return scn["points"]
        rng = random.Random(scn["plan"])
        pts = []
        reads = 0
        for label, op, n, size in trace:
            if op == "read":
                reads += 1
                if reads > 8 and rng.random() < 0.9:
                    continue
            p = {"label": label, "op": op, "n": n, "kind": rng.choice(c.KINDS.get(op, ("eio",))), "sticky": rng.random() < 0.3}
            if op == "write" and rng.random() < 0.5:
                p["part"] = 0.5
            pts.append(p)
            pts.append({"label": label, "op": op, "n": n, "kind": "crash"})
            if op != "close":
                pts.append({"label": label, "op": op, "n": n, "kind": "cancel" if rng.random() < 0.7 else "nomem"})
        if len(pts) > scn["cap"]:
            keep = set(rng.sample(range(len(pts)), scn["cap"]))
            pts = [p for k, p in enumerate(pts) if k in keep]
        return [None] + pts

    def setup(self, scn):
        data = bytearray(vgmfile.build(scn["log"]))
        if scn.get("bad_header"):
            data[:4] = b"Vg!!"
        data = bytes(data)
        job = dict(scn["job"])
        kw = dict(c.machine(scn))
        for k in scn.get("nowhere", ()):
            job[k] = job[k].replace(ROOT, NOWHERE)
            kw["missing"] = [NOWHERE]
        asked = {job.get(k) for k in ("json", "song", "csv")} - {None, "-"}
        files = {f"{ROOT}/{n}": b"not yours: " + n.encode() for n in scn["near"]}
        files.update(c.old_files(scn))
        files[J.IN] = data
        if scn["cwd"]:
            kw["cwd"] = ROOT
            if scn["rel"]:
                for k in ("in", "json", "song", "csv"):
                    if job.get(k, "-") != "-":
                        job[k] = job[k][len(ROOT) + 1:]
        if scn["src"] == "pipe":
            job["in"] = "-"
            kw.update(stdin=data, stdin_seekable=False)
        return files, job, asked, kw

    def run(self, scn, st):
        files, job, asked, kw = self.setup(scn)
        trace = []
        if scn.get("points") is None:
            trace = J.session(files, job, **kw)[0].trace
        dig = []
        for p in self.points(scn, trace):
            env, out = J.session(files, job, faults=[p] if p else [], **kw)
            st.env(env)
            dig.append((env.digest(), out.status))
            st.probe("ended-" + out.status)
            st.key(p and (p["label"], p["op"], p["kind"], min(p["n"], 9)), job["mode"], scn["src"], sorted(asked), out.status)
            after = env.files()
            what = f"{p['kind']} at {p['op']} {p['n']} of {p['label']}" if p else "no fault"
            what = f"{what}: after the run ({out.name})"
            for path, data in files.items():
                if path in asked:
                    continue
                if path not in after:
                    raise core.Violation("C22/removed", f"{what} {path} is gone")
                if after[path] != data:
                    raise core.Violation("C22/changed", f"{what} {path} is changed, which is not one of its outputs {sorted(asked)}")
            other = [x for x in env.handled() if x not in asked]
            if other:
                raise core.Violation("C22/handled", f"{what} permissions or times of {other[0]} are not what they were, which is "
                                                    f"not one of its outputs {sorted(asked)}")
            if out.status == "crash" or (p and p["op"] == "remove"):
                continue  # nobody was there to tidy up, or it was not possible
            extra = sorted(set(after) - set(files) - asked)
            if extra:
                raise core.Violation("C22/left-behind", f"{what} there is {extra[0]}, which is not one of its outputs "
                                                        f"{sorted(asked)}")
            dirs = [d for d in sorted(env.dirs - {ROOT}) if not any(a in after and a.startswith(d + "/") for a in asked)]
            if dirs:
                raise core.Violation("C22/left-behind", f"{what} there is a new folder {dirs[0]} without an output in it")
        return core.digest(dig)


    def explicit(self, scn):
        s = copy.deepcopy(scn)
        files, job, asked, kw = self.setup(scn)
        s["points"] = self.points(scn, J.session(files, job, **kw)[0].trace)
        return s

    def lists(self, scn):
        return [["points"], ["near"], ["log", "ops"]]

    def simpler(self, scn):
        yield from core.Prop.simpler(self, scn)
        yield from core.simpler_keys(scn, [], {"src": "file", "bad_header": False, "nowhere": [], "cwd": False, "rel": False})
        for k in ("song", "csv", "json"):
            j = scn["job"]
            if j.get(k) and sum(bool(j.get(x)) for x in ("song", "csv", "json")) > 1:
                s = copy.deepcopy(scn)
                del s["job"][k]
                yield s


CHECK = C22()
