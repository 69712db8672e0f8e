"""Every key event is recorded exactly once, in order, at its exact time."""
import core
import job as J
import world
from env import ROOT
from model import Model
from props import common as c


class C12(core.Prop):
    id = "C12"
    runs = {"quick": 30500, "thorough": 250000}
    rule = ("one case = one recorded history read in pieces; the notes of every voice against the log's key events and delay "
            "sums, some of them after every command; non-trivial if it has key events; distinct by the sequence of "
            "(voice, on/off, delay command)")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((20, 60, 150, 400)), gz=rng.random() < 0.1, foreign=rng.random() < 0.3)
        scn = {"log": log, "steps": rng.random() < 0.3, **c.random_machine(rng)}
        if rng.random() < 0.02:
            log["ops"] = world.long_rest(rng, log["ops"], 1 << 32 if tier == "thorough" and rng.random() < 0.02 else None)
            scn["steps"] = False
        elif rng.random() < 0.02:
            # thousands of delays, or of key events, in one go
            k = rng.randint(0, len(log["ops"]))
            n = rng.choice((1500, 4000))
            unit = rng.choice(([["t", 0x61, 1]], [["t", 0x70, 1]], [["t", 0x80, 0]], [["t", 0x61, 0]], [["t", 0x62, 735]],
                               [["w", 8, 0x7A]], [["w", 8, 0x79], ["w", 8, 1]], [["w", 8, 0x7B], ["t", 0x7F, 16]]))
            log["ops"][k:k] = (unit * n)[:n]
            scn["steps"] = False
        elif rng.random() < 0.2:
            # extreme delays
            for k in range(len(log["ops"])):
                o = log["ops"][k]
                if o[0] == "t" and o[1] == 0x61 and rng.random() < 0.3:
                    log["ops"][k] = ["t", 0x61, rng.choice((0, 1, 255, 256, 32767, 32768, 65535))]
                elif o[0] == "t" and rng.random() < 0.2:
                    n = rng.randint(0, 15)
                    log["ops"][k] = rng.choice((["t", 0x70 + n, n + 1], ["t", 0x80 + n, n], ["t", 0x62, 735],
                                                ["t", 0x63, 882]))
        return scn

    def specials(self, tier):
        return [{"log": {"ops": world.giant(k, tier), "hdr": {"version": 151}, "end": True}, "steps": False} for k in ('clock', 'events', 'commands')]

    def run(self, scn, st):
        ops = scn["log"]["ops"]
        dig = []
        if scn.get("steps"):
            def hook(k, op, m, state):
                if op[0] == "w" and (op[1] == 8 or k % 7 == 0):
                    self.judge(J.state_notes(state), m, f"after command {k}")
            try:
                env = c.run_stepwise(scn, hook, st)
                dig.append(env.digest())
            except core.Violation as v:
                if v.cls != "ended":
                    raise
                raise core.Violation("C12/ended", v.detail)
        box = c.full(scn, st)
        dig.append(box["env"].digest())
        m = Model(ops)
        st.song(m.time)
        if m.time >= 1 << 24:
            st.probe("clock-past-24-bits")
        if box["out"].status != "ok":
            raise core.Violation("C12/fails", f"extraction ends with {box['out'].name}: {box['out'].exc}")
        if any(m.notes):
            st.key([(o[2] & 0x7F,) if o[0] == "w" else (o[1], o[2]) for o in ops
                    if o[0] == "t" or o[0] == "w" and o[1] == 8])
        if ops and ops[0][0] != "t" and any(n["sample"] == 0 for v in m.notes for n in v):
            st.probe("event-at-zero")
        self.judge(box["notes"], m, "at the end")
        return core.digest(dig)

    def judge(self, notes, m, when):
        for ch in range(8):
            got = [(n[0], "on" if n[1] >= 0 else "off") for n in notes[ch]]
            want = [(n["sample"], "on" if n["config"] >= 0 else "off") for n in m.notes[ch]]
            if got != want:
                for k, (a, b) in enumerate(zip(got, want)):
                    if a != b:
                        raise core.Violation("C12/event", f"{when}: voice {ch} event {k} is {a} instead of {b}")
                if len(got) < len(want):
                    raise core.Violation("C12/lost", f"{when}: voice {ch} has {len(got)} events instead of {len(want)}; first "
                                                     f"lost {want[len(got)]}")
                raise core.Violation("C12/extra", f"{when}: voice {ch} has {len(got)} events instead of {len(want)}; first "
                                                  f"extra {got[len(want)]}")


CHECK = C12()
