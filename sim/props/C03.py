"""Running again after any failure gives the same result as a clean run."""
import copy
import io
import zipfile

import core
import job as J
import model
import vgmfile
import world
from env import HarnessError
from props import common as c


def layout(path, data):
    """What of a file's shape must not depend on what was there before."""
    if path == J.SONG:
        try:
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                return [(i.filename, i.header_offset) for i in z.infolist()] + [len(z.comment)], len(data)
        except Exception as e:
            return type(e).__name__, len(data)
    return data


class C03(core.Prop):
    id = "C03"
    runs = {"quick": 5000, "thorough": 30000}
    rule = ("one case = a history of 1-4 runs over one disk, each stopped by a fault, a kill, a power cut or nothing, "
            "then a run without faults; non-trivial if an earlier run left something at an output path; distinct by (how the "
            "earlier runs ended, what the paths then held, outputs and mode of the last run)")

    def gen(self, rng, i, tier):
        logs = [world.random_log(rng, limit=rng.choice((10, 30, 80, 160))) for _ in range(rng.choice((1, 2, 2, 3)))]
        hist = []
        for _ in range(rng.choice((1, 1, 2, 2, 3, 4))):
            k = rng.randrange(len(logs))
            h = {"log": k, "job": c.random_job(rng, logs[k]["ops"], stdout=0.05, max_rows=200), "picks": [],
                 "entropy": rng.choice((0, 0, rng.getrandbits(16)))}
            x = rng.random()
            if x < 0.75:
                kind = rng.choice(("crash", "crash", "cancel", "error"))
                h["picks"] = [c.random_pick(rng, kind, on=rng.choice((["json"], ["song"], ["json", "song", "csv", "other"],
                                                                      ["in"])))]
            if x < 0.3:
                h["power"] = {p: rng.choice((["old"], ["prefix", round(rng.random(), 2)], ["holes", 512, [rng.randrange(8)]]))
                              for p in (J.JSON, J.SONG, J.CSV) if rng.random() < 0.6}
            hist.append(h)
        k = rng.randrange(len(logs))
        last = {"log": k, "job": c.random_job(rng, logs[k]["ops"], stdout=0.0, p_song=0.7, max_rows=300),
                "entropy": hist[-1]["entropy"]}
        if rng.random() < 0.5:
            last["job"]["mode"] = hist[-1]["job"]["mode"]
            if last["job"]["mode"] == "api":
                last["job"]["tpn"] = last["job"]["tpn"] or 2000
            else:
                last["job"].pop("csv", None)
                if not last["job"].get("json") and not last["job"].get("song"):
                    last["job"]["json"] = J.JSON
        for h in hist:
            h["gap"] = rng.choice((0, 1, 3600, 86400, -7200))
            h["mtime"] = rng.choice(("old", "old", "new"))
        last["mtime"] = rng.choice(("old", "old", "new"))
        if rng.random() < 0.2:
            # another finished result, of the same size
            last["twin"] = {p: rng.getrandbits(16) for p in (J.JSON, J.SONG, J.CSV) if rng.random() < 0.7}
        return {"logs": logs, "hist": hist, "last": last, "same_process": rng.random() < 0.3,
                "old": {p: {"kind": rng.choice(("junk", "empty")), "seed": rng.getrandbits(16)}
                        for p in (J.JSON, J.SONG) if rng.random() < 0.15}, **c.random_machine(rng)}

    def run(self, scn, st):
        disk = c.old_files(scn)
        dig = []
        t = 1_600_000_000.0
        times, modes = {p: t - 7200 for p in disk}, {}
        for h in scn["hist"]:
            disk[J.IN] = vgmfile.build(scn["logs"][h["log"]])
            times[J.IN] = t - 1 if h.get("mtime") == "new" else 1.5e9 + h["log"]
            kw = dict(c.machine(scn), entropy=h.get("entropy", 0), mtimes=times, modes=modes, clock={"start": t})
            faults = h.get("faults")
            if faults is None:
                faults = []
                if h.get("picks"):
                    dry, _ = J.session(disk, h["job"], **kw)
                    faults = c.place(h["picks"], dry.trace)
            env, out = J.session(disk, h["job"], faults=faults, **kw)
            st.env(env)
            st.probe("earlier-" + out.status)
            dig.append((env.digest(), out.status))
            disk = env.durable_files(h.get("power"))
            times, modes = env.mtimes(), env.modes()
            modes.pop(J.IN, None)
            t = env.clock.t + h.get("gap", 0)
            if h.get("power"):
                st.faults["power-loss"] = st.faults.get("power-loss", 0) + 1
        last = scn["last"]
        log = scn["logs"][last["log"]]
        disk[J.IN] = vgmfile.build(log)
        for p, seed in (last.get("twin") or {}).items():
            if p in last["job"].values():
                disk[p] = c.twin_bytes(c.clean_outputs(log, last["job"]).get(p, b""), seed)
                times[p] = t - 60
                st.probe("same-size-result-left")
        left = sorted((p, len(d)) for p, d in disk.items() if p != J.IN)
        times[J.IN] = t - 1 if last.get("mtime") == "new" else 1.5e9 + last["log"]
        kw = dict(c.machine(scn), entropy=last.get("entropy", 0), mtimes=times, modes=modes, clock={"start": t})
        env, out = J.session(disk, last["job"], fresh=not scn.get("same_process"), **kw)
        st.env(env)
        m = c.mdl(log)
        st.song(m.time)
        if left:
            st.key([o for _, o in dig], [(p, n.bit_length()) for p, n in left], last["job"]["mode"],
                   sorted(k for k in ("json", "song", "csv") if last["job"].get(k)))
        if out.status != "ok":
            raise core.Violation("C03/clean-run-fails", f"a run without faults ends with {out.name} after earlier runs "
                                                        f"ended {[o for _, o in dig]}")
        d = J.judge_outputs(last["job"], env.files(), env.stdout_node.data.decode("utf-8", "replace"), m)
        if d:
            raise core.Violation("C03/stale", f"after earlier runs ended {[o for _, o in dig]}: {d}")
        ref, out2 = J.session({J.IN: disk[J.IN]}, last["job"], **kw)
        if out2.status == "ok":
            for k in ("json", "song", "csv"):
                p = last["job"].get(k)
                if p and p != "-":
                    a, b = env.files().get(p, b""), ref.files().get(p, b"")
                    if layout(p, a) != layout(p, b):
                        raise core.Violation("C03/stale", f"{p} differs from that of the same run on an empty disk "
                                                          f"({len(a)} and {len(b)} bytes)")
        dig.append(env.digest())
        return core.digest(dig)

    def lists(self, scn):
        return [["hist"]] + [["logs", n, "ops"] for n in range(len(scn["logs"]))]

    def simpler(self, scn):
        yield from core.simpler_keys(scn, [], {"delivery": None, "bufsize": 8192, "old": None})
        for n in range(len(scn["logs"])):
            yield from core.simpler_keys(scn, ["logs", n], {"gz": None, "tail": None, "end": True, "hdr": {"version": 151}})
            yield from core.simpler_ops(scn, ["logs", n, "ops"])
        yield from core.simpler_keys(scn, ["last"], {"twin": None})
        for n, h in enumerate(scn["hist"]):
            yield from core.simpler_keys(scn, ["hist", n], {"power": None, "picks": []})
        for k in ("song", "csv", "json"):
            j = scn["last"]["job"]
            if j.get(k) and sum(bool(j.get(x)) for x in ("song", "csv", "json")) > 1:
                s = copy.deepcopy(scn)
                del s["last"]["job"][k]
                yield s


CHECK = C03()
