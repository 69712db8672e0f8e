"""The song's tempo follows the sequencer's clock."""
import core
import job as J
import model
import vgmfile
import world
from model import Model
from props import common as c


def steady(rng, p, start, rows):
    """A sequencer with a steady clock: on every row at least one voice is keyed on."""
    vs = sorted(rng.sample(range(8), rng.choice((1, 2, 3, 8))))
    ops = []
    for ch in vs:
        ops += [["w", 0x20 + ch, 0xC0 | rng.getrandbits(6)], ["w", 0x28 + ch, rng.getrandbits(7)]]
    ops += world.encode_wait(rng, start)
    for r in range(rows):
        on = [rng.choice(vs)] + [v for v in vs if rng.random() < 0.3]
        rng.shuffle(on)
        for v in on:
            if rng.random() < 0.5:
                ops.append(["w", 8, v])
            if rng.random() < 0.5:
                ops.append(["w", 0x28 + v, rng.getrandbits(7)])
            ops.append(["w", 8, 0x78 | v])
        # key-offs and other writes anywhere in the row do not make a clock
        left = p
        while left and rng.random() < 0.4:
            d = rng.randint(0, left)
            ops += world.encode_wait(rng, d)
            left -= d
            ops.append(["w", 8, rng.choice(vs)] if rng.random() < 0.6 else ["w", 0x60 + rng.randrange(32), rng.getrandbits(8)])
        ops += world.encode_wait(rng, left)
    return ops


class C16(core.Prop):
    id = "C16"
    runs = {"quick": 12500, "thorough": 80000}
    rule = ("one case = one song extracted with a given row length, or without one from a log whose sequencer kept a steady "
            "clock; distinct by (row length, given or not, start of the clock, rows, tempo)")

    def gen(self, rng, i, tier):
        if rng.random() < 0.35:
            p = rng.choice((1000, 1001, 7999, 7998, 735 * 2, 882 * 2, 735 * 8, 4410, 5250, rng.randint(1000, 7999)))
            start = rng.choice((0, 0, 1, p, 10000, rng.randint(0, 20000)))
            start = min(start, 31999 - p)
            rows = rng.choice((2, 3, 5, 40, 70))
            ops = steady(rng, p, start, rows)
            return {"log": {"ops": ops, "end": True, "hdr": world.random_header(rng)}, "clock_p": p, "start": start,
                    "mode": rng.choice(("cli", "main")), **c.random_machine(rng)}
        tpn = rng.choice((1, 2, 3, 7, 60, 100, 441, 735, 882, 1000, 1500, 5250, 5513, 11025, 44100, 100000, 661500, 661501,
                          rng.randint(1, 300), rng.randint(1000, 8000), rng.randint(1, 2000000),
                          661500 // rng.randint(1, 400), 661500 // rng.randint(1, 400) + 1))
        ops = world.cap(world.random_ops(rng, limit=40, foreign=False, timing=world.Timing(rng, "dense")), 40)
        if c.span(ops) // tpn > 700:
            ops = [o for o in ops if o[0] != "t" or o[2] < 20]
        return {"log": {"ops": ops, "end": True, "hdr": world.random_header(rng)}, "tpn": tpn,
                "mode": rng.choice(("cli", "main", "api")), **c.random_machine(rng)}

    def run(self, scn, st):
        log = scn["log"]
        m = Model(log["ops"])
        st.song(m.time)
        tpn = scn.get("tpn") or scn["clock_p"]
        job = {"mode": scn["mode"], "in": J.IN, "song": J.SONG, "tpn": scn.get("tpn")}
        env, out = J.session({J.IN: vgmfile.build(log)}, job, **c.machine(scn))
        st.env(env)
        st.key(tpn, "given" if scn.get("tpn") else "steady", scn.get("start"), m.time // tpn)
        st.probe("tempo-given" if scn.get("tpn") else "tempo-from-steady-clock")
        how = f"row length {tpn} given" if scn.get("tpn") else f"steady clock of {tpn} samples from {scn['start']}"
        if out.status != "ok":
            raise core.Violation("C16/fails", f"{how}: extraction ends with {out.name}: {out.exc}")
        try:
            got = model.read_song(env.files().get(J.SONG, b""))
        except model.Unreadable as e:
            raise core.Violation("C16/unreadable", str(e))
        want = m.song(tpn)
        if got["bpm"] != want["bpm"] or got["lpb"] != want["lpb"]:
            raise core.Violation("C16/tempo", f"{how}: {got['bpm']} beats per minute, {got['lpb']} rows per beat instead of "
                                              f"{want['bpm']}, {want['lpb']}")
        if not scn.get("tpn") and set(got["cells"]) != set(want["cells"]):
            raise core.Violation("C16/row-length", f"{how}: events sit on other rows")
        return env.digest()

    def lists(self, scn):
        return [["log", "ops"]] if scn.get("tpn") else []

    def simpler(self, scn):
        yield from core.simpler_keys(scn, [], {"mode": "main", "delivery": None, "bufsize": 8192})
        yield from core.simpler_keys(scn, ["log"], {"hdr": {"version": 151}})
        if scn.get("tpn"):
            yield from core.simpler_ops(scn, ["log", "ops"])
        else:
            plain = [["t", 0x61, scn["start"]]] + [["w", 8, 0x78], ["t", 0x61, scn["clock_p"]]] * 2
            yield core.with_path(scn, ["log", "ops"], plain)
            yield core.with_path(scn, ["log", "ops"], plain + [["w", 8, 0x78], ["t", 0x61, scn["clock_p"]]] * 3)


CHECK = C16()
