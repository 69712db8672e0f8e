"""A note's instrument is the chip state at its key-on, and stays so."""
import core
import job as J
import world
from model import Model, diff_value
from props import common as c


class C10(core.Prop):
    id = "C10"
    runs = {"quick": 27000, "thorough": 250000}
    rule = ("one case = one recorded history (voice, chip-wide and other actors interleaved), read in pieces and judged "
            "against the register-file model at every key-on and again at the end; non-trivial if a register of a playing voice "
            "or a chip-wide register is written after a key-on; distinct by the recorded register sequence")

    def gen(self, rng, i, tier):
        if i < 256:
            return {"log": {"ops": world.register_sweep(rng, i), "hdr": world.random_header(rng), "end": True}, "steps": False,
                    **c.random_machine(rng)}
        log = world.random_log(rng, limit=rng.choice((20, 60, 120, 250)), gz=rng.random() < 0.1,
                               timing=world.Timing(rng, rng.choice(("grid", "dense", "frame"))),
                               foreign=rng.random() < 0.2)
        return {"log": log, "steps": rng.random() < 0.3, **c.random_machine(rng)}

    def specials(self, tier):
        return [{"log": {"ops": world.giant(k, tier), "hdr": {"version": 151}, "end": True}, "steps": False} for k in ('instruments', 'clock')]

    def run(self, scn, st):
        ops = scn["log"]["ops"]
        dig = []
        on = False
        late = False
        for o in ops:
            if o[0] == "w":
                if o[1] == 8 and o[2] & 0x78:
                    on = True
                elif on and o[1] != 8:
                    late = True
        if late:
            st.key([(o[1], o[2]) for o in ops if o[0] == "w"])
        if scn.get("steps"):
            snap = {"bank": [], "notes": [[] for _ in range(8)], "k": -1}

            def hook(k, op, m, state):
                if op[0] == "w" and op[1] == 8:
                    bank = J.configs_json(state)
                    notes = J.state_notes(state)
                    for i, (a, b) in enumerate(zip(snap["bank"], bank)):
                        if a != b:
                            raise core.Violation("C10/changed-later", f"instrument {i} changed between commands {snap['k']} and "
                                                                      f"{k}: {diff_value(b, a)}")
                    for ch in range(8):
                        for i, (a, b) in enumerate(zip(snap["notes"][ch], notes[ch])):
                            if a != b:
                                raise core.Violation("C10/changed-later", f"voice {ch} event {i} changed between commands "
                                                                          f"{snap['k']} and {k}: {b} instead of {a}")
                    snap.update(bank=bank, notes=notes, k=k)
                    self.judge(notes, bank, m, f"after command {k}")
            try:
                env = c.run_stepwise(scn, hook, st)
                dig.append(env.digest())
            except core.Violation as v:
                if v.cls != "ended":
                    raise
        box = c.full(scn, st)
        dig.append(box["env"].digest())
        m = Model(ops)
        st.song(m.time)
        if box["out"].status != "ok":
            raise core.Violation("C10/fails", f"extraction ends with {box['out'].name}: {box['out'].exc}")
        self.judge(box["notes"], box["bank"], m, "at the end", st)
        return core.digest(dig)

    def judge(self, notes, bank, m, when, st=None):
        by_id = c.bank_by_id(bank)
        for ch in range(8):
            got = [n for n in notes[ch] if n[1] >= 0]
            want = [n for n in m.note_tuples(ch) if n[1] >= 0]
            if len(got) != len(want):
                if st:
                    st.probe("events-missing-or-extra")   # that is C12's to judge
                continue
            for k, (a, b) in enumerate(zip(got, want)):
                if a[2:] != b[2:]:
                    raise core.Violation("C10/pitch", f"{when}: voice {ch} key-on {k} at {b[0]}: octave, note, key fraction, "
                                                      f"right, left {a[2:]} instead of {b[2:]}")
                s = by_id.get(a[1])
                if s != m.bank[b[1]]:
                    raise core.Violation("C10/settings", f"{when}: voice {ch} key-on {k} at {b[0]}: "
                                                         f"{diff_value(s, m.bank[b[1]])}")


CHECK = C10()
