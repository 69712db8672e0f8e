"""What a run says of the row length is true."""
import re

import core
import job as J
import model
import vgmfile
from model import Model
from props import C20
from props import common as c

LINE = re.compile(r"^ *(\d+): *(-?\d+(?:\.\d+)?) ?%$")
USED = re.compile(r"^Ticks per Note: *(\d+)$")


class C26(core.Prop):
    id = "C26"
    runs = {"quick": 2000, "thorough": 25000}
    rule = ("one case = one run whose printed row length and estimates are compared with the reference self-match; sequencers and "
            "clock faults as in C20, standard output taken in pieces or interrupted, shared with the instrument document or not; "
            "distinct by (key-on times in the window, outputs, row length given or not)")

    def gen(self, rng, i, tier):
        scn = C20.CHECK.gen(rng, i, tier)
        x = rng.random()
        if x < 0.3:
            scn["json"] = "-"
        elif x < 0.5:
            scn["json"] = J.JSON
        if rng.random() < 0.3:
            scn["song"] = J.SONG
        if rng.random() < 0.25:
            scn["tpn"] = rng.choice((c.pick_tpn(rng, scn["log"]["ops"], 600), rng.randint(400, 20000),
                                     int(2 ** rng.uniform(10, 21))))
            if rng.random() < 0.7:
                scn["song"] = J.SONG
        return scn

    def run(self, scn, st):
        log = scn["log"]
        m = Model(log["ops"])
        st.song(m.time)
        job = {"mode": scn["mode"], "in": J.IN, **{k: scn[k] for k in ("json", "song", "tpn") if scn.get(k)}}
        env, out = J.session({J.IN: vgmfile.build(log)}, job, **c.machine(scn))
        st.env(env)
        for k, v in scn["clock_faults"].items():
            st.faults["clock-" + k] = st.faults.get("clock-" + k, 0) + v
        inside = sorted(t for t in m.onsets if t < C20.WINDOW)
        st.key(inside, job.get("json"), job.get("song"), job.get("tpn"))
        what = f"{len(inside)} key-on times in the window"
        if out.status != "ok":
            raise core.Violation("C26/fails", f"{what}: extraction ends with {out.name}: {out.exc}")
        # on whichever of its two channels
        lines = (bytes(env.stdout_node.data).decode("utf-8", "replace") + "\n" + env.stderr.getvalue()).splitlines()
        used = [int(x.group(1)) for x in map(USED.match, lines) if x]
        got = [(int(x.group(1)), float(x.group(2))) for x in map(LINE.match, lines) if x]
        if job.get("tpn"):
            want, length = [], job["tpn"]
        else:
            want = model.estimates(m.onsets)
            length = want[0][0]
        if used != [length]:
            raise core.Violation("C26/row-length", f"{what}: the run reports row length {used} and has to use {length}")
        if [g[0] for g in got] != [w[0] for w in want]:
            raise core.Violation("C26/estimates", f"{what}: reported row lengths {[g[0] for g in got]} instead of {[w[0] for w in want]}")
        for (n, a), (_, b) in zip(got, want):
            if abs(a - b) > 0.0051:
                raise core.Violation("C26/share", f"{what}: row length {n} is said to match by {a}% instead of {b:.2f}%")
        if job.get("song"):
            try:
                song = model.read_song(env.files().get(J.SONG, b""))
            except model.Unreadable as e:
                raise core.Violation("C26/unreadable", str(e))
            if set(song["cells"]) != set(m.song(length)["cells"]):
                raise core.Violation("C26/not-used", f"{what}: the song is not laid out with the reported row length {length}")
        return env.digest()

    def lists(self, scn):
        return [["log", "ops"]]

    def simpler(self, scn):
        yield from C20.CHECK.simpler(scn)
        yield from core.simpler_keys(scn, [], {"json": None, "song": None, "tpn": None})


CHECK = C26()
