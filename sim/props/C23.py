"""The log facts are those of its header, and the commands start where it says."""
import core
import job as J
import loader
import vgmfile
import world
from env import Env
from model import Model
from props import common as c

VERSIONS = (100, 101, 110, 150, 151, 160, 161, 170, 171, 172, 180, 200, 209, 999, 1000, 1009, 1234, 12345678, 99999999)
CLOCKS = (0, 1, 2, 255, 256, 65535, 65536, 3579545, 4000000, 0x40000000 + 3579545, 0x7FFFFFFF, 0x80000000, 0xC0000000, 0xFFFFFFFF)


def header_facts(h, size):
    v = h["version"]
    opll = h["ym2413"]
    opm = h["ym2151"] if v >= 110 else opll
    return [v, size, opm, opll, opm > 0, opll > 0, False]


class C23(core.Prop):
    id = "C23"
    runs = {"quick": 39000, "thorough": 200000}
    rule = ("one case = one header (version, size, clocks, start of the commands, what else stands in it) delivered in one way; "
            "non-trivial if the header differs from the plainest or comes in pieces; distinct by (fields, container, source, "
            "piece sizes, when the facts were asked)")

    def gen(self, rng, i, tier):
        ops = world.random_ops(rng, limit=rng.choice((0, 3, 10, 60)), foreign=rng.random() < 0.5)
        x = rng.random()
        v = rng.choice(VERSIONS) if x < 0.85 else rng.choice((rng.randint(110, 199), rng.randint(0, 99999999)))
        h = {"version": v, "ym2151": rng.choice(CLOCKS + (rng.getrandbits(32),)), "ym2413": rng.choice(CLOCKS + (rng.getrandbits(32),)),
             "junk": rng.choice((0, rng.getrandbits(20), rng.getrandbits(20)))}
        if rng.random() < 0.3:
            h.update(fill="true", junk=0)
        y = rng.random()
        if y < 0.3:
            h["eof"] = rng.choice((None, 1, -1, 3, 1000, 1 << 16, 1 << 24, (1 << 32) - 5000 - 3 * len(ops) * 100))
        elif y < 0.36:
            h["eof_field"] = rng.choice((0xFFFFFFFF, 0xFFFFFFFC, 0xFFFFFFFB, 0x80000000, 0x7FFFFFFF, 0x7FFFFFFC, 0xFFFFFF, 1, rng.getrandbits(32)))
        if v >= 150:
            h["start"] = rng.choice((0x40, 0x38, 0x3C, 0x80, 0xC0, 0x100, 0x40 + rng.randint(0, 300), 0x1000, 0x10040))
        log = {"ops": ops, "hdr": h, "end": rng.random() < 0.9}
        if rng.random() < 0.3:
            log["gz"] = world.random_gz(rng)
        if rng.random() < 0.3:
            log.update(end=True, tail=world.random_tail(rng).hex())
        return {"log": log, "src": rng.choice(("file", "file", "pipe", "stdin-file")),
                "ask": rng.choice(("before", "after", "both", "middle", "main")), **c.random_machine(rng, write=False)}

    def specials(self, tier):
        out = []
        for v in (100, 101, 110, 149, 150, 151, 161, 171, 200, 1000):
            for a, b in ((0, 0), (0, 3579545), (3579545, 0), (4000000, 3579545)):
                out.append({"log": {"ops": world.ON + [["t", 0x61, 5]] + world.OFF, "end": True,
                                    "hdr": {"version": v, "ym2151": a, "ym2413": b, "start": 0x40 if v < 150 else 0x80,
                                            "junk": v}}, "src": "file", "ask": "both" if v & 1 else "main"})
        for k, f in enumerate((0xFFFFFFFF, 0xFFFFFFFC, 0xFFFFFFFB, 0x80000000, 0x7FFFFFFF, 0x7FFFFFFC, 1)):
            out.append({"log": {"ops": world.ON, "end": True, "hdr": {"version": 150, "ym2151": 3579545, "ym2413": 0, "start": 0x40,
                                                                      "junk": k, "eof_field": f}}, "src": "file", "ask": "both"})
        return out

    def run(self, scn, st):
        log = scn["log"]
        data = vgmfile.build(log)
        plain = vgmfile.build({**log, "gz": None})
        h = log["hdr"]
        size = int.from_bytes(plain[4:8], "little") + 4
        want = header_facts(h, size)
        m = Model(log["ops"])
        kw = dict(c.machine(scn))
        files, path = {J.IN: data}, J.IN
        if scn["src"] != "file":
            files, path = {}, "-"
            kw.update(stdin=data, stdin_seekable=scn["src"] == "stdin-file")
        env = Env(files=files, roles=J.ROLES, **kw)
        got, box = [], {}
        ask = scn["ask"]

        def go():
            import main
            import tools
            import vgm.core
            if ask == "main":
                return main.main(path, J.JSON, None, 1000)
            with tools.smart_open(path, "rb") as f:
                v = vgm.core.reader(f)
                if ask in ("before", "both"):
                    got.append(("before the commands", J.facts(v)))

                def commands():
                    for n, cmd in enumerate(v):
                        if ask == "middle" and n == len(log["ops"]) // 2:
                            got.append(("between the commands", J.facts(v)))
                        yield cmd
                s = main.process_vgm_file(commands() if ask == "middle" else v)
                if ask in ("after", "both"):
                    got.append(("after the commands", J.facts(v)))
                box["notes"] = J.state_notes(s)
        with env.active():
            loader.fresh()
            out = J.attempt(env, {}, go)
        st.env(env)
        d = scn.get("delivery") or {}
        st.key(sorted((k, v if k != "junk" else bool(v)) for k, v in h.items()), bool(log.get("gz")), scn["src"], d.get("short"),
               d.get("max"), ask)
        st.probe("version-before-110" if h["version"] < 110 else "version-before-150" if h["version"] < 150 else "version-150+")
        where = f"version {h['version']}, ym2151 {h['ym2151']}, ym2413 {h['ym2413']}, commands at {h.get('start', 0x40):#x}"
        if out.status != "ok":
            raise core.Violation("C23/fails", f"{where}: reading the log ends with {out.name}: {out.exc}")
        for when, g in got:
            if g != want:
                raise core.Violation("C23/facts", f"{where}: version, size, clocks, support {g} instead of {want}, {when}")
        bad = J.diff_notes(box["notes"], m) if ask != "main" else J.judge_outputs({"json": J.JSON}, env.files(), "", m)
        if bad:
            raise core.Violation("C23/start", f"{where}: {bad}")
        return env.digest()

    def simpler(self, scn):
        yield from core.simpler_keys(scn, ["log", "hdr"], {"junk": 0, "fill": None, "eof": None, "eof_field": None, "start": 0x40, "ym2151": 1, "ym2413": 0})
        yield from core.simpler_keys(scn, [], {"src": "file", "ask": "before", "delivery": None, "bufsize": 8192})
        yield from core.simpler_keys(scn, ["log"], {"gz": None, "tail": None, "end": True})


CHECK = C23()
