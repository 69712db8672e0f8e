"""Nothing after the end marker counts."""
import core
import job as J
import vgmfile
import world
from model import Model
from props import common as c


class C14(core.Prop):
    id = "C14"
    runs = {"quick": 34000, "thorough": 150000}
    rule = ("one case = one log followed by metadata, padding, garbage, an incomplete command or another whole log; distinct "
            "by (kind and first bytes of the tail, container, source, events in the log)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((0, 5, 30, 100)), gz=rng.random() < 0.3, tail=False)
        log["end"] = True
        x = rng.random()
        if x < 0.7:
            t = world.random_tail(rng)
        elif x < 0.85:
            t = vgmfile.build({"ops": world.random_ops(rng, limit=40)})
        elif x < 0.95:
            t = vgmfile.body(world.random_ops(rng, limit=30))[0]
        else:
            t = world.random_tail(rng) * rng.choice((20, 400))
        if rng.random() < 0.1:
            t += world.random_tail(rng)
        log["tail"] = t.hex()
        return {"log": log, "mode": rng.choice(("cli", "main", "api")), "src": rng.choice(("file", "file", "file", "pipe")),
                "song": rng.random() < 0.2, **c.random_machine(rng)}

    def run(self, scn, st):
        log = scn["log"]
        m = Model(log["ops"])
        st.song(m.time)
        data = vgmfile.build(log)
        job = {"mode": scn["mode"], "in": J.IN, "json": J.JSON, "tpn": max(400, m.time // 300 + 1)}
        if scn["song"]:
            job["song"] = J.SONG
        kw = dict(c.machine(scn))
        files = {J.IN: data}
        if scn["src"] == "pipe":
            job["in"], files = "-", {}
            kw.update(stdin=data, stdin_seekable=False)
        st.key(log["tail"][:16], bool(log.get("gz")), scn["src"], scn["mode"], sum(map(len, m.notes)))
        st.probe("tail-" + ("gd3" if log["tail"].startswith("47643320") else "log" if log["tail"].startswith("56676d20")
                            else "other"))
        if scn["mode"] == "api":
            import loader
            from env import Env
            env = Env(files=files, roles=J.ROLES, **kw)
            box = {}

            def go():
                box["st"] = J.api_extract(job)
                box["notes"] = J.state_notes(box["st"])
            with env.active():
                loader.fresh()
                out = J.attempt(env, {}, go)
        else:
            env, out = J.session(files, job, **kw)
        st.env(env)
        if out.status != "ok":
            raise core.Violation("C14/fails", f"extraction ends with {out.name}: {out.exc}, with {len(log['tail']) // 2} "
                                              f"byte(s) after the end marker: {log['tail'][:40]}")
        d = J.judge_outputs(job, env.files(), "", m)
        if d is None and scn["mode"] == "api":
            d = J.diff_notes(box["notes"], m)
        if d:
            raise core.Violation("C14/counts", f"with {log['tail'][:40]}... after the end marker: {d}")
        return env.digest()

    def simpler(self, scn):
        t = scn["log"].get("tail", "")
        n = len(t) // 2
        for k in (n // 2, n - 1):
            if 0 < k < n:
                yield core.with_path(scn, ["log", "tail"], t[:2 * k])
                yield core.with_path(scn, ["log", "tail"], t[2 * (n - k):])
        yield from core.simpler_keys(scn, [], {"delivery": None, "bufsize": 8192, "src": "file", "mode": "main", "song": False})
        yield from core.simpler_keys(scn, ["log"], {"gz": None, "hdr": {"version": 151}})
        yield from core.simpler_ops(scn, ["log", "ops"])


CHECK = C14()
