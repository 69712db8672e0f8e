"""Results depend only on the log and the arguments."""
import contextlib
import copy

import core
import job as J
import loader
import model
import steps
import vgmfile
import world
from env import ROOT, Env
from props import common as c

ZONES = ("UTC", "Pacific/Kiritimati", "America/New_York", "Asia/Kathmandu", "Etc/GMT+12", "XYZ-14:30", "Europe/Dublin")
# 1900, 1969-12-31 23:59:59, 1970, 1979-12-31, 1980-01-01, 2000, leap day, DST night, 2038, 2107-12-31, 2108, 9999
STARTS = (-2208988800, -1, 0, 315532799, 315532800, 951782399, 951825600, 1603580399, 2147483647, 4354819199, 4354819200,
          6e9, 253402300000)


def twin(rng, log):
    """Another log of the same length in which other values were written."""
    def other(op):
        if op[0] == "x":
            return ["x", op[1], [other(o) for o in op[2]]]
        if op[0] != "w" or op[1] in (0x08, 0x14) or rng.random() < 0.3:
            return op
        return ["w", op[1], op[2] ^ (rng.choice((0x10, 0x20, 0x30)) if op[1] & 0xF8 == 0x28 else rng.getrandbits(8))]
    return dict(copy.deepcopy(log), ops=[other(o) for o in log["ops"]])


class C07(core.Prop):
    id = "C07"
    runs = {"quick": 8500, "thorough": 30000}
    rule = ("one case = 1-4 extractions one after another in one simulated process with its own clock, time zone, entropy and "
            "hash seed; non-trivial if it has an earlier extraction or an odd clock; distinct by (clock start and jumps, zone, "
            "modes and endings of the jobs, outputs)")

    def gen(self, rng, i, tier):
        logs = [world.random_log(rng, limit=rng.choice((5, 20, 60, 150)), gz=rng.random() < 0.2)
                for _ in range(rng.choice((1, 2, 2, 3)))]
        jobs = []
        for _ in range(rng.choice((1, 2, 2, 3, 4))):
            k = rng.randrange(len(logs))
            j = c.random_job(rng, logs[k]["ops"], stdout=0.05, p_song=0.6, max_rows=150)
            j["log"] = k
            if rng.random() < 0.2:
                j["bad"] = rng.choice(("missing", "magic", "short", "json-dir", "cut", "op", "cut", "op", "alloc", "alloc", "alloc"))
                if j["bad"] == "alloc":
                    # an allocation fails some way into it
                    j["only"] = rng.choice((None, "extractors", "extractors", "xrns", "state"))
                    j["at"] = int(10 ** rng.uniform(0, 3 if j["only"] else 4.5))
                j["fault"] = {"label": rng.choice(("in", "in", "json", "song")), "op": rng.choice(("open", "read", "write", "write")),
                              "n": rng.choice((0, 0, 1, 2, 5)), "kind": rng.choice(("cancel", "cancel", "eio", "nomem"))}
                if j["fault"]["label"] == "in":
                    j["fault"]["op"] = rng.choice(("read", "read", "open"))
            elif rng.random() < 0.2 and j["mode"] != "api":
                j["no_tpn"] = True
            jobs.append(j)
        jobs[-1].pop("bad", None)
        x = rng.random()
        clock = {"start": rng.choice(STARTS) if x < 0.5 else rng.uniform(-2e9, 8e9) if x < 0.8 else 1.7e9,
                 "step": rng.choice((0.0001, 0.001, 1, 3600))}
        clock["jumps"] = [[rng.randint(0, 6), rng.choice((-1, 1) + (86400, -86400, 3.2e9, -3.2e9, 1e6))]
                          for _ in range(rng.choice((0, 0, 1, 2)))]
        for j in jobs:
            if rng.random() < 0.25:
                j["rel"] = rng.choice(("in", "out", "both"))
        more = {}
        if len(jobs) > 1 and rng.random() < 0.4:
            # the logs come and go at one path, some of them with a twin of the same size
            more = {"one": rng.choice(("write", "keep", "move"))}
            if rng.random() < 0.5:
                more["oneout"] = True
            if len(logs) > 1 and rng.random() < 0.6:
                logs[1] = twin(rng, logs[0])
        return {"logs": logs, "jobs": jobs, **more, "clock": clock, "cwd": rng.choice((ROOT, ROOT + "/d")), "tz": rng.choice(ZONES), "entropy": rng.getrandbits(30),
                **c.random_machine(rng, p_host=0.4)}

    def run(self, scn, st):
        roles = {"<stdout>": "stdout"}
        jobs, ready = [], []
        faults = []
        for n, j in enumerate(scn["jobs"]):
            data = vgmfile.build(scn["logs"][j["log"]])
            paths = {k: f"{ROOT}/{0 if scn.get('one') and (k == 'in' or scn.get('oneout')) else n}.{k}"
                     for k in ("in", "json", "song", "csv")}
            names = {}
            jj = {"mode": j["mode"], "in": paths["in"], "tpn": None if j.get("no_tpn") else j["tpn"]}
            for k in ("json", "song", "csv"):
                if j.get(k):
                    jj[k] = "-" if j[k] == "-" else paths[k]
            if j.get("as"):
                jj["as"] = j["as"]
            for k, p in paths.items():
                names[p] = k + (str(n) if j.get("bad") else "")
            if j.get("bad") == "cut":
                data = data[: len(data) * 2 // 3]
            elif j.get("bad") == "op":
                faults.append(dict(j["fault"], label=j["fault"]["label"] + str(n)))
            if j.get("bad") == "magic":
                data = b"Vgx " + data[4:]
            elif j.get("bad") == "short":
                data = data[:30]
            elif j.get("bad") == "json-dir" and jj.get("json") not in (None, "-"):
                jj["json"] = ROOT
            jobs.append(jj)
            ready.append((names, paths["in"], data if j.get("bad") != "missing" else None))
        env = Env(files={} if scn.get("one") else {p: d for _, p, d in ready}, roles=roles, faults=faults, cwd=scn.get("cwd"), **c.machine(scn))
        ends = []
        guessed = []
        with env.active():
            loader.fresh()
            for n, (j, jj) in enumerate(zip(scn["jobs"], jobs)):
                mark = len(env.stdout_node.data)
                try:
                    env.stdout.flush()
                except (OSError, ValueError):
                    pass
                mark = len(env.stdout_node.data)
                env.roles.update(ready[n][0])
                if scn.get("one"):
                    env.place(ready[n][1], ready[n][2], scn["one"])
                    st.probe("log-replaced-" + scn["one"])
                with steps.interrupt(j["at"], exc=MemoryError(), only=j.get("only")) if j.get("bad") == "alloc" else contextlib.nullcontext() as mem:
                    out = J.attempt(env, c.relative(jj, j.get("rel"), env.cwd0))
                if mem and mem.fired:
                    st.faults["no-memory-line"] = st.faults.get("no-memory-line", 0) + 1
                ends.append(out.status)
                m = c.mdl(scn["logs"][j["log"]])
                st.song(m.time)
                where = f"extraction {n + 1} of {len(jobs)} ({j['mode']})"
                if j.get("bad"):
                    if env.dead:
                        break  # it took the process with it
                    continue
                if out.status != "ok":
                    raise core.Violation("C07/fails", f"{where} ends with {out.name}: {out.exc}; earlier: {ends[:-1]}, clock "
                                                      f"{scn.get('clock')}, zone {scn.get('tz')}")
                check = dict(jj)
                if jj["tpn"] is None:
                    check.pop("song", None)
                text = bytes(env.stdout_node.data[mark:]).decode("utf-8", "replace")
                d = J.judge_outputs(check, env.files(), text, m)
                if d is None and jj["tpn"] is None and jj.get("song"):
                    guessed.append((where, jj, ready[n], env.files().get(jj["song"], b"")))
                if d:
                    raise core.Violation("C07/differs", f"{where}, earlier: {ends[:-1]}: {d}")
        st.env(env)
        for where, jj, (names, path, data), song in guessed:
            # the row length was guessed: the same log in a process of its own, under an ordinary clock
            alone = Env(files={path: data}, roles=dict(roles, **names))
            with alone.active():
                loader.fresh()
                out = J.attempt(alone, dict(jj, json=None))
            st.env(alone)
            st.probe("guessed-row-length-compared")
            try:
                a, b = (model.read_song(x) for x in (song, alone.files().get(jj["song"], b"")))
            except model.Unreadable as e:
                raise core.Violation("C07/song", f"{where}: {e}")
            d = model.diff_song(a, b, tempo=True)
            if d:
                raise core.Violation("C07/differs", f"{where}, earlier: {ends[:-1]}, row length guessed; compared with the same "
                                                    f"extraction alone: song: {d}")
        clk = scn.get("clock") or {}
        if len(jobs) > 1 or clk.get("start") != 1.7e9 or clk.get("jumps"):
            st.key(int(clk.get("start", 0) // 86400 // 365), clk.get("jumps"), scn.get("tz"), [j["mode"] for j in jobs], ends,
                   [sorted(set(j) & {"json", "song", "csv"}) for j in jobs])
        return env.digest()

    def lists(self, scn):
        return [["jobs"]] + [["logs", n, "ops"] for n in range(len(scn["logs"]))]

    def simpler(self, scn):
        yield from core.simpler_keys(scn, [], {"one": None, "oneout": None, "delivery": None, "bufsize": 8192, "clock": None, "tz": None, "entropy": 0,
                                               "cwd": ROOT})
        yield from core.simpler_keys(scn, ["clock"], {"jumps": [], "step": 0.001, "start": 1.6e9})
        for n in range(len(scn["logs"])):
            yield from core.simpler_keys(scn, ["logs", n], {"gz": None, "tail": None, "end": True, "hdr": {"version": 151}})
        for n, j in enumerate(scn["jobs"]):
            yield from core.simpler_keys(scn, ["jobs", n], {"rel": None, "as": None})
            for k in ("song", "csv", "json"):
                if j.get(k) and sum(bool(j.get(x)) for x in ("song", "csv", "json")) > 1:
                    s = copy.deepcopy(scn)
                    del s["jobs"][n][k]
                    yield s
        for n in range(len(scn["logs"])):
            yield from core.simpler_ops(scn, ["logs", n, "ops"])


CHECK = C07()
