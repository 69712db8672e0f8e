"""How the bytes arrive makes no difference."""
import copy

import core
import job as J
import vgmfile
import world
from props import common as c


class C06(core.Prop):
    id = "C06"
    runs = {"quick": 9500, "thorough": 30000}
    rule = ("one case = one log delivered in one way (plain, gzip layout; file, stdin file, stdin pipe; piece sizes; interrupted "
            "reads; buffer sizes); non-trivial unless it is a plain file in whole pieces; distinct by (container layout, "
            "source, short-read and EINTR rates, buffer size, mode)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((10, 40, 120, 300, 900)), gz=False, big=rng.random() < 0.2)
        job = c.random_job(rng, log["ops"], p_song=0.25, stdout=0.1, max_rows=100)
        ways = []
        for _ in range(rng.choice((2, 3, 4))):
            w = {"gz": world.random_gz(rng) if rng.random() < 0.6 else None,
                 "src": rng.choice(("file", "file", "pipe", "stdin-file")),
                 "mode": rng.choice(("cli", "main", "api")), "delivery": world.random_delivery(rng),
                 "bufsize": world.random_bufsize(rng)}
            if w["delivery"] and sum(o[2] for o in log["ops"] if o[0] == "blk") > 20000:
                w["delivery"]["max"] = rng.choice((300, 5000))
            if rng.random() < 0.3:
                w["name"] = rng.choice(c.NAMES["in"])
            ways.append(w)
        return {"log": log, "job": job, "ways": ways, "facts": rng.random() < 0.3}

    def specials(self, tier):
        out = []
        for k in ("commands", "instruments"):
            ways = [{"gz": gz, "src": src, "mode": mode, "delivery": {"seed": 7, "short": short, "eintr": 0.05, "max": most},
                     "bufsize": 8192}
                    for gz, src, mode, short, most in (
                        (None, "pipe", "cli", 0.5, 5000), ({"level": 6, "cuts": [0.3, 0.31]}, "file", "cli", 0.5, 500),
                        ({"level": 0, "flush": 400}, "stdin-file", "main", 0.2, 3000), ({"level": 9}, "pipe", "api", 0, 1))]
            out.append({"log": {"ops": world.giant(k, tier), "hdr": {"version": 151, "fill": "true"}, "end": True,
                                "tail": "47643320" + "00" * 300},
                        "job": {"in": J.IN, "json": J.JSON, "tpn": 20000, "mode": "cli"}, "ways": ways, "facts": True})
        return out

    def run(self, scn, st):
        m = c.mdl(scn["log"])
        dig = []
        facts = None
        for w in scn["ways"]:
            data = vgmfile.build({**scn["log"], "gz": w["gz"]})
            job = dict(scn["job"], mode=w["mode"])
            if w.get("name"):
                job["as"] = {**job.get("as", {}), "in": w["name"]}
            if w["mode"] != "api":
                job.pop("csv", None)
                if not job.get("json") and not job.get("song"):
                    job["json"] = J.JSON
            elif job.get("tpn") is None:
                job["tpn"] = J.row_length(job, m)
            kw = {"delivery": w.get("delivery"), "bufsize": w.get("bufsize")}
            files = {J.IN: data}
            if w["src"] != "file":
                job["in"] = "-"
                files = {}
                kw.update(stdin=data, stdin_seekable=w["src"] == "stdin-file")
            env, out = J.session(files, job, **kw)
            st.env(env)
            st.song(m.time)
            d = w.get("delivery") or {}
            if w["gz"] or w["src"] != "file" or d:
                g = w["gz"] or {}
                st.key(sorted((k, len(v) if isinstance(v, (list, str)) else bool(v) if k in ("mtime", "pad") else v)
                              for k, v in g.items()), w["src"], d.get("short"), d.get("eintr"), w.get("bufsize"), w["mode"])
            way = f"{'gzip' if w['gz'] else 'plain'} from {w['src']}, short reads {d.get('short', 0)}, EINTR {d.get('eintr', 0)}"
            if out.status != "ok":
                raise core.Violation("C06/fails", f"{way}: extraction ends with {out.name} ({out.exc})")
            bad = J.judge_outputs(job, env.files(), env.stdout_node.data.decode("utf-8", "replace"), m)
            if bad:
                raise core.Violation("C06/differs", f"{way}: {bad}")
            dig.append(env.digest())
            if scn.get("facts"):
                if facts is None:
                    _, facts = J.facts_alone({J.IN: vgmfile.build({**scn["log"], "gz": None})}, J.IN)
                try:
                    env, got = J.facts_alone(files, job["in"], **kw)
                except Exception as e:
                    raise core.Violation("C06/facts", f"{way}: reading the log ends with {type(e).__name__}: {e}")
                st.env(env)
                if got != facts:
                    raise core.Violation("C06/facts", f"{way}: version, size, clocks, support {got} instead of {facts}")
        return core.digest(dig)

    def lists(self, scn):
        return [["ways"], ["log", "ops"]]

    def simpler(self, scn):
        yield from core.simpler_keys(scn, ["log"], {"tail": None, "end": True, "hdr": {"version": 151}})
        for n in range(len(scn["ways"])):
            yield from core.simpler_keys(scn, ["ways", n], {"gz": None, "src": "file", "delivery": None, "bufsize": 8192,
                                                            "mode": "main", "name": None})
            if scn["ways"][n].get("gz"):
                yield from core.simpler_keys(scn, ["ways", n, "gz"], {"cuts": None, "flush": None, "name": None, "comment": None,
                                                                      "extra": None, "mtime": None, "pad": None,
                                                                      "strategy": 0, "level": 6})
        if scn["job"].get("song"):
            s = copy.deepcopy(scn)
            del s["job"]["song"]
            s["job"].setdefault("json", J.JSON)
            yield s
        yield from core.simpler_ops(scn, ["log", "ops"])


CHECK = C06()
