"""Voices do not leak into each other, however their writes interleave."""
import copy
import random

import core
import world
from model import Model
from props import common as c

FIRST = ("a-chip", "noise")


class C09(core.Prop):
    id = "C09"
    runs = {"quick": 15000, "thorough": 200000}
    rule = ("one case = the same voice programs recorded under two or three schedules, some with voices silenced or added; "
            "non-trivial if two voices wrote between the same two delays in a different order; distinct by the recorded "
            "sequences of (voice, register) writes")

    def gen(self, rng, i, tier):
        tm = world.Timing(rng, rng.choice(("grid", "frame", "dense", "grid", "mixed")))
        vs = sorted(rng.sample(range(8), rng.choice((2, 2, 3, 4, 8))))
        if 7 not in vs and rng.random() < 0.4:
            vs[-1] = 7
        progs = world.programs(rng, voices=vs, events=rng.choice((1, 2, 3, 4)), timing=tm, foreign=False, misc=False)
        if rng.random() < 0.4:
            # the same program on two voices: leaks hide less, sharing shows
            a, b = vs[0], vs[1]
            progs[f"v{b}"] = transpose(progs[f"v{a}"], a, b)
        views = [{"seed": rng.getrandbits(30), "bias": rng.choice((None, 0.5, 0.9, 0.98)), "drop": []}
                 for _ in range(rng.choice((2, 2, 3)))]
        for v in views[1:]:
            if rng.random() < 0.5 and len(vs) > 1:
                v["drop"] = [f"v{x}" for x in rng.sample(vs, rng.randint(1, len(vs) - 1))]
        if rng.random() < 0.3:
            views[-1]["bias"] = "serial"
        return {"progs": progs, "views": views, "hdr": world.random_header(rng), **c.random_machine(rng, write=False)}

    def ops(self, scn, v):
        if v.get("ops") is not None:
            return v["ops"]
        rng = random.Random(v["seed"])
        progs = {a: p for a, p in scn["progs"].items() if a not in v["drop"]}
        bias = v["bias"]
        if bias == "serial":
            bias = 1.0
        return world.interleave(progs, rng, first=FIRST, bias=bias)

    def run(self, scn, st):
        seen = []
        dig = []
        for v in scn["views"]:
            ops = self.ops(scn, v)
            sub = {"log": {"ops": ops, "hdr": scn.get("hdr", {})}, "delivery": scn.get("delivery"),
                   "bufsize": scn.get("bufsize")}
            box = c.full(sub, st)
            dig.append(box["env"].digest())
            m = Model(ops)
            st.song(m.time)
            if box["out"].status != "ok":
                raise core.Violation("C09/fails", f"extraction ends with {box['out'].name}: {box['out'].exc}")
            bank = c.bank_by_id(box["bank"])
            seen.append((v, ops, [self.history(box["notes"][ch], bank) for ch in range(8)], m))
        st.key([[(o[1], o[2] & 7 if o[1] == 8 else 0) for o in ops if o[0] == "w"] for _, ops, _, _ in seen])
        for v, ops, hist, m in seen:
            for ch in range(8):
                if f"v{ch}" in v["drop"] or f"v{ch}" not in scn["progs"]:
                    continue
                want = self.alone(scn, ch)
                if hist[ch] != want:
                    d = self.diff(hist[ch], want)
                    raise core.Violation("C09/leak", f"voice {ch} among {sorted(set(scn['progs']) - set(v['drop']))}: {d} "
                                                     f"(its own writes alone give the latter)")
        a = seen[0]
        for v, ops, hist, m in seen[1:]:
            for ch in range(8):
                if f"v{ch}" in v["drop"] + a[0]["drop"] or f"v{ch}" not in scn["progs"]:
                    continue
                if hist[ch] != a[2][ch]:
                    raise core.Violation("C09/schedule", f"voice {ch} differs between two schedules: "
                                                         f"{self.diff(hist[ch], a[2][ch])}")
        return core.digest(dig)

    def alone(self, scn, ch):
        """The voice with the chip-wide writes only, by the model."""
        progs = {a: p for a, p in scn["progs"].items() if a in (f"v{ch}",) + FIRST}
        ops = world.interleave(progs, random.Random(1), first=FIRST, p_zero=0)
        m = Model(ops)
        return self.history(m.note_tuples(ch), {i: s for i, s in enumerate(m.bank)})

    def history(self, notes, bank):
        out = []
        for n in notes:
            on = n[1] >= 0
            if on or out:
                out.append((n[0], on, n[2:], bank.get(n[1], "no such instrument") if on else None))
        return out

    def diff(self, a, b):
        from model import diff_value
        if len(a) != len(b):
            return f"{len(a)} events instead of {len(b)}"
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                if x[3] != y[3] and x[:3] == y[:3]:
                    return f"event {k} at {x[0]}: {diff_value(x[3], y[3])}"
                return f"event {k}: {x[:3]} instead of {y[:3]}"

    def explicit(self, scn):
        return None

    def lists(self, scn):
        return [["views"]] + [["progs", a] for a in sorted(scn["progs"])]

    def simpler(self, scn):
        for a in sorted(scn["progs"]):
            s = copy.deepcopy(scn)
            del s["progs"][a]
            yield s
        yield from core.simpler_keys(scn, [], {"delivery": None, "bufsize": 8192, "hdr": {"version": 151}})
        for n in range(len(scn["views"])):
            yield from core.simpler_keys(scn, ["views", n], {"bias": "serial", "drop": [], "seed": 1})
        for a in sorted(scn["progs"]):
            p = scn["progs"][a]
            if len(p) <= 30:
                for k, it in enumerate(p):
                    if it[0] == "s" and it[1] not in (0, 1):
                        yield core.with_path(scn, ["progs", a, k], ["s", 1])
                    if it[0] == "w" and it[1] != 8 and it[2]:
                        yield core.with_path(scn, ["progs", a, k], ["w", it[1], 0])


def transpose(prog, a, b):
    out = []
    for it in prog:
        if it[0] == "w":
            r, v = it[1], it[2]
            if r == 8:
                v = (v & ~7) | b
            elif r == 0x0F:
                continue
            elif r >= 0x20:
                r = (r & ~7) | b
            out.append(["w", r, v])
        else:
            out.append(list(it))
    return out


CHECK = C09()
