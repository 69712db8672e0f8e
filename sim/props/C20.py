"""The guessed row length is the best self-match, however the clock behaved."""
import core
import job as J
import model
import vgmfile
import world
from model import Model
from props import common as c

WINDOW = 32000
KINDS = ("jitter", "drift", "stall", "missed-row", "tempo-change", "swing", "accent", "late-start", "early-stop")


def sequencer(rng, faults):
    """Key-on times of one sequencer whose clock has the given faults."""
    p = rng.choice((1000, 1001, 7999, 735 * 2, 882 * 2, 735 * 6, 4410, rng.randint(1000, 7999), rng.randint(1000, 2500),
                    rng.randint(200, 999), rng.randint(8000, 12000)))
    if "accent" in faults and rng.random() < 0.7:
        p = rng.randint(200, 700)
    every, late = rng.randint(4, 32), rng.choice((1, 7, 40))
    t = rng.choice((0, 0, 1, rng.randint(0, 3000)))
    if "late-start" in faults:
        t = rng.randint(8000, 31999)
    end = rng.randint(4000, 30000) if "early-stop" in faults else rng.choice((31999, 32000, 33000, 45000))
    jit = rng.choice((1, 1, 3, 20, 735)) if "jitter" in faults else 0
    drift = rng.choice((-7, -1, 1, 2, 20)) if "drift" in faults else 0
    swing = rng.choice((1, 50, 735)) if "swing" in faults else 0
    out, k = [], 0
    while t <= end and k < 160:
        x = t + (rng.randint(-jit, jit) if jit and rng.random() < 0.5 else 0) + (swing if k % 2 else 0)
        if "accent" in faults and k % every == every - 1:
            x += late
        if not ("missed-row" in faults and rng.random() < 0.25):
            out.append(max(0, x))
        if "stall" in faults and rng.random() < 0.15:
            t += rng.choice((1, 100, p // 2, 735))
        if "tempo-change" in faults and rng.random() < 0.1:
            p = rng.choice((p + 1, p - 1, p * 2, max(2, p // 2), rng.randint(1000, 7999)))
        t += max(1, p)
        p = max(2, p + drift)
        k += 1
    return out


class C20(core.Prop):
    id = "C20"
    runs = {"quick": 2000, "thorough": 50000}
    rule = ("one case = one song extracted without a given row length, from sequencers with faulty clocks; two far events are "
            "placed so that any other row length puts one of them on another row; distinct by (key-on times in the window)")

    def gen(self, rng, i, tier):
        n = rng.choice((1, 1, 1, 2, 2, 3, 8))
        injected = {}
        onsets = []  # (time, voice)
        free = list(range(8))
        rng.shuffle(free)
        if i % 40 == 7:
            n = 0
        for v in free[:n]:
            faults = [k for k in KINDS if rng.random() < 0.2]
            for k in faults:
                injected[k] = injected.get(k, 0) + 1
            onsets += [(t, v) for t in sequencer(rng, faults)]
        if rng.random() < 0.2:  # no sequencer at all
            onsets += [(rng.choice((0, 1, 31999, 32000, rng.randrange(40000))), rng.choice(free))
                       for _ in range(rng.choice((1, 2, 3, 12)))]
        if i % 60 == 11:  # more key-on times than usual, a steady clock among the later ones only
            p, half = rng.randint(1000, 3000), rng.randint(9000, 18000)
            times = set(rng.sample(range(half), rng.randint(300, 800))) | set(range(half, WINDOW, p))
            onsets = [(t, rng.choice(free)) for t in sorted(times | set(rng.sample(range(half, WINDOW), 30)))]
        elif rng.random() < 0.1:  # two equally good shifts
            a, b = rng.randint(1000, 7999), rng.randint(1000, 7999)
            onsets = [(x, free[0]) for x in (0, a, b, a + b) if x < WINDOW]
        if rng.random() < 0.1:  # the last key-on of the window, or the first one after it, would decide
            for _ in range(20):
                edge = WINDOW - rng.choice((0, 0, 1))
                p, q = sorted(rng.sample(range(1000, 8000), 2))
                x = rng.randint(0, 8000)
                times = [x, x + p, edge - 2 * q, edge - q, edge]
                if model.guess(times, edge) != model.guess(times, edge + 1):
                    onsets = [(t, rng.choice(free)) for t in times]
                    break
        events = [(t, 0x78 | v) for t, v in onsets]
        events += [(t + rng.randint(0, 900), v) for t, v in onsets if rng.random() < 0.3]
        g = model.guess({t for t, _ in onsets})
        at = (max([40000] + [t for t, _ in events]) // g + rng.choice((1, 5, 40))) * g
        # exactly on the row's first and last sample, by key-offs or key-ons (beyond the window)
        events += [(at, rng.choice((0, 0x78)) | free[0]), (at + g - 1, rng.choice((0, 0x78)) | free[1])]
        order = {}
        events.sort(key=lambda e: (e[0], order.setdefault(e, rng.random())))
        ops, now = [], 0
        for t, v in events:
            ops += world.encode_wait(rng, t - now)
            now = t
            if rng.random() < 0.3:
                ops.append(["w", 0x28 + (v & 7), rng.getrandbits(7)])
            ops.append(["w", 8, v])
        return {"log": {"ops": ops, "end": True, "hdr": world.random_header(rng)}, "mode": rng.choice(("cli", "main")),
                "clock_faults": injected, **c.random_machine(rng)}

    def run(self, scn, st):
        log = scn["log"]
        m = Model(log["ops"])
        st.song(m.time)
        tpn = model.guess(m.onsets)
        job = {"mode": scn["mode"], "in": J.IN, "song": J.SONG}
        env, out = J.session({J.IN: vgmfile.build(log)}, job, **c.machine(scn))
        st.env(env)
        for k, v in scn["clock_faults"].items():
            st.faults["clock-" + k] = st.faults.get("clock-" + k, 0) + v
        inside = sorted(t for t in m.onsets if t < WINDOW)
        st.key(inside)
        st.probe("key-ons-in-window", len(inside))
        what = f"{len(inside)} key-on times in the window"
        if out.status != "ok":
            raise core.Violation("C20/fails", f"{what}: extraction ends with {out.name}: {out.exc}")
        try:
            got = model.read_song(env.files().get(J.SONG, b""))
        except model.Unreadable as e:
            raise core.Violation("C20/unreadable", str(e))
        want = m.song(tpn)
        if not isinstance(got["bpm"], int) or abs(got["bpm"] - want["bpm"]) > 1:
            raise core.Violation("C20/tempo", f"{what}: tempo {got['bpm']} instead of {want['bpm']} (row length {tpn})")
        if set(got["cells"]) != set(want["cells"]):
            odd = sorted(set(got["cells"]) ^ set(want["cells"]), key=repr)[0]
            raise core.Violation("C20/row-length", f"{what}: events do not sit on rows of {tpn} samples "
                                                   f"(pattern {odd[0]} track {odd[1]} row {odd[2]})")
        return env.digest()

    def lists(self, scn):
        return [["log", "ops"]]

    def simpler(self, scn):
        yield from core.simpler_keys(scn, [], {"mode": "main", "delivery": None, "bufsize": 8192, "clock_faults": {}})
        yield from core.simpler_keys(scn, ["log"], {"hdr": {"version": 151}})
        yield from core.simpler_ops(scn, ["log", "ops"])


CHECK = C20()
