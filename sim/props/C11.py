"""The instrument bank has no duplicates and no gaps."""
import json

import core
import job as J
import world
from model import Model, diff_value
from props import common as c


class C11(core.Prop):
    id = "C11"
    runs = {"quick": 20000, "thorough": 250000}
    rule = ("one case = one recorded history whose actors move between few patches (often one bit apart) and come back to "
            "earlier ones; non-trivial if an instrument is reused or two differ in one field; distinct by the sequence of "
            "instruments played")

    def gen(self, rng, i, tier):
        log = world.random_log(rng, limit=rng.choice((60, 150, 300, 500)), gz=rng.random() < 0.1,
                               timing=world.Timing(rng, rng.choice(("grid", "dense", "frame"))), foreign=False)
        if rng.random() < 0.02:
            log["ops"] = world.many_instruments(rng, rng.choice((9, 17, 30, 33, 64, 65, 100, 129, 200, 257, 300)))
            return {"log": log, "steps": False, **c.random_machine(rng)}
        return {"log": log, "steps": rng.random() < 0.2, **c.random_machine(rng)}

    def specials(self, tier):
        return [{"log": {"ops": world.giant(k, tier), "hdr": {"version": 151}, "end": True}, "steps": False} for k in ('instruments', 'events')]

    def run(self, scn, st):
        ops = scn["log"]["ops"]
        dig = []
        if scn.get("steps"):
            def hook(k, op, m, state):
                if op[0] == "w" and op[1] == 8:
                    self.judge(J.state_notes(state), J.configs_json(state), m, f"after command {k}", st)
            try:
                env = c.run_stepwise(scn, hook, st)
                dig.append(env.digest())
            except core.Violation as v:
                if v.cls != "ended":
                    raise
        box = c.full(scn, st)
        dig.append(box["env"].digest())
        m = Model(ops)
        st.song(m.time)
        if box["out"].status != "ok":
            raise core.Violation("C11/fails", f"extraction ends with {box['out'].name}: {box['out'].exc}")
        played = [n["config"] for n in sorted((n for v in m.notes for n in v if n["config"] >= 0), key=lambda n: n["sample"])]
        if len(m.bank) > 64:
            st.probe("more-than-64-instruments")
        if len(played) > len(set(played)) or self.near(m.bank):
            st.key(played, len(m.bank))
        self.judge(box["notes"], box["bank"], m, "at the end", st)
        return core.digest(dig)

    def near(self, bank):
        return len(bank) > 1

    def judge(self, notes, bank, m, when, st):
        ids = [b.get("id") for b in bank]
        if ids != list(range(len(bank))):
            raise core.Violation("C11/numbering", f"{when}: instruments are numbered {ids[:40]}")
        seen = {}
        for i, b in enumerate(bank):
            k = json.dumps(c.strip_id(b), sort_keys=True)
            if k in seen:
                raise core.Violation("C11/duplicate", f"{when}: instruments {seen[k]} and {i} have the same settings")
            seen[k] = i
        used = set()
        order = []
        for ch in range(8):
            for n in notes[ch]:
                if n[1] >= 0:
                    used.add(n[1])
                    order.append((n[0], n[1]))
        for i in range(len(bank)):
            if i not in used:
                raise core.Violation("C11/unused", f"{when}: no note uses instrument {i}")
        bad = sorted(u for u in used if u >= len(bank))
        if bad:
            raise core.Violation("C11/no-such", f"{when}: notes refer to instruments {bad} of {len(bank)}")
        first = {}
        for t, i in order:
            first[i] = min(t, first.get(i, t))
        for i in range(1, len(bank)):
            if first[i] < first[i - 1]:
                raise core.Violation("C11/order", f"{when}: instrument {i} is first played at {first[i]}, {i - 1} at "
                                                  f"{first[i - 1]}")
        for ch in range(8):
            got = [n for n in notes[ch] if n[1] >= 0]
            want = [n for n in m.notes[ch] if n["config"] >= 0]
            if len(got) != len(want):
                st.probe("events-missing-or-extra")
                return
        for ch in range(8):
            got = [n for n in notes[ch] if n[1] >= 0]
            want = [n for n in m.notes[ch] if n["config"] >= 0]
            for k, (a, b) in enumerate(zip(got, want)):
                s, w = c.strip_id(bank[a[1]]), m.bank[b["config"]]
                if s != w:
                    raise core.Violation("C11/wrong-reference", f"{when}: voice {ch} key-on {k} refers to instrument {a[1]}: "
                                                                f"{diff_value(s, w)}")
                if a[1] != b["config"]:
                    raise core.Violation("C11/order", f"{when}: voice {ch} key-on {k} refers to instrument {a[1]} instead of "
                                                      f"{b['config']} (order of first use)")


CHECK = C11()
