"""The song grid shows each voice's last event of every row, and nothing else."""
import core
import job as J
import model
import vgmfile
import world
from model import Model
from props import common as c


def grid_ops(rng, tpn, n):
    """Voices that act on, just before and just after row and pattern boundaries."""
    progs = {}
    vs = sorted(rng.sample(range(8), rng.choice((1, 2, 4, 8))))
    pool = world.patch_pool(rng, rng.choice((1, 3, 6)))
    for ch in vs:
        now = 0
        p = []
        for (b, s) in world.PKEYS:
            if rng.random() < 0.3:
                p.append(["w", b + 8 * s + ch, rng.choice(pool)[(b, s)]])
        p.append(["w", 0x20 + ch, world.rl_bits(rng) | rng.getrandbits(6)])
        for _ in range(n):
            row = now // tpn
            x = rng.random()
            if x < 0.35:
                row += rng.choice((0, 1, 1, 2, 3))
            elif x < 0.55:
                row = (row // 64 + rng.choice((0, 0, 1, 1, 2))) * 64 + rng.choice((-1, 0, 1, 63))
            else:
                row += rng.choice((0, 0, 1, 5))
            t = row * tpn + rng.choice((0, 0, 0, -1, 1, tpn - 1, rng.randrange(tpn)))
            if t > now:
                p.append(["s", t - now])
                now = t
            y = rng.random()
            if y < 0.3:
                p.append(["w", 8, ch])
            else:
                if rng.random() < 0.7:
                    p.append(["w", 0x28 + ch, rng.getrandbits(8)])
                if rng.random() < 0.4:
                    p.append(["w", 0x20 + ch, world.rl_bits(rng) | rng.getrandbits(6)])
                if rng.random() < 0.2:
                    k = rng.choice(world.PKEYS[1:])
                    p.append(["w", k[0] + 8 * k[1] + ch, rng.choice(pool)[k]])
                p.append(["w", 8, ch | rng.choice((0x78, 0x78, 0x08, 0x40, 0x18))])
                if rng.random() < 0.1:
                    p.append(["w", 8, ch])
            if rng.random() < 0.1:
                p.append(["w", 0x28 + ch, rng.getrandbits(8)])
                p.append(["w", 0x20 + ch, world.rl_bits(rng) | rng.getrandbits(6)])
        progs[f"v{ch}"] = p
    return world.interleave(progs, rng, bias=rng.choice((None, 0.5, 0.95)))


def many_instruments(rng, n):
    ops = [["w", 0x20, 0xC7]]
    for k in range(n):
        ops += [["w", 0x60, k & 0x7F], ["w", 0x80, k >> 7], ["w", 0x28, rng.getrandbits(7)], ["w", 8, 0x78],
                ["t", 0x61, rng.choice((0, 200, 400, 401))]]
    return ops


class C15(core.Prop):
    id = "C15"
    runs = {"quick": 9500, "thorough": 70000}
    rule = ("one case = one schedule of voices acting on and around row and pattern boundaries, extracted to a song; "
            "non-trivial if a row holds two events of a voice or an event sits within one sample of a boundary; distinct by the "
            "cells of the song")

    def gen(self, rng, i, tier):
        tpn = rng.choice((1, 2, 3, 100, 441, 735, 882, 1000, 4410, 5513, rng.randint(1, 9000)))
        x = rng.random()
        if i in (0, 1, 2, 3):
            tpn = 441
            ops = world.pitch_sweep(rng, i, tpn)
        elif x < 0.75:
            ops = grid_ops(rng, tpn, rng.choice((2, 5, 10, 20)))
        elif x < 0.98:
            ops = world.random_ops(rng, limit=rng.choice((30, 100, 300)), foreign=False)
            tpn = c.pick_tpn(rng, ops, 700)
        else:
            ops = many_instruments(rng, rng.choice((255, 256, 257, 300)))
            tpn = 400
        top = 1500
        if rng.random() < 0.02:
            # a very long song: hundreds of patterns
            ops = world.long_rest(rng, ops, rng.choice((70000, 300000, 1 << 20, 1 << 24)))
            top = 40000
        if c.span(ops) // tpn > top:
            tpn = c.span(ops) // top + 1
        log = {"ops": ops, "hdr": world.random_header(rng), "end": True}
        return {"log": log, "mode": rng.choice(("cli", "main", "api")), "tpn": tpn, "json": rng.random() < 0.4,
                **c.random_machine(rng)}

    def specials(self, tier):
        def sc(ops, tpn, mode):
            return {"log": {"ops": ops, "hdr": {"version": 151}, "end": True}, "mode": mode, "tpn": tpn, "json": True}
        # songs of hundreds and thousands of patterns, with something in every row or in few
        on, off, tick = world.ON, world.OFF, [["t", 0x70, 1]]
        out = [sc(on + world.rest(64 * n - 1) + off + tick + on + world.rest(63) + off + tick + on, 1, mode)
               for n, mode in ((255, "cli"), (256, "api"), (512, "main"), (999, "api"), (1000, "cli"), (1024, "main"),
                               (4096, "api"))]
        out.append(sc([["x", 300 * 32, on + tick + off + tick]], 1, "cli"))
        out.append(sc(world.giant("instruments"), 735, "cli"))
        out.append(sc(world.giant("clock"), 2 ** 21 - 1, "api"))
        return out

    def run(self, scn, st):
        log = scn["log"]
        m = Model(log["ops"])
        st.song(m.time)
        job = {"mode": scn["mode"], "in": J.IN, "song": J.SONG, "tpn": scn["tpn"]}
        if scn["json"]:
            job["json"] = J.JSON
        env, out = J.session({J.IN: vgmfile.build(log)}, job, **c.machine(scn))
        st.env(env)
        want = m.song(scn["tpn"])
        ev = sum(map(len, m.notes))
        near = any(n["sample"] % scn["tpn"] in (0, 1, scn["tpn"] - 1) for v in m.notes for n in v)
        if ev > len(want["cells"]) or near:
            st.key(sorted(want["cells"].items(), key=repr))
        st.probe("events-hidden-by-later-in-row", ev - len(want["cells"]))
        st.probe("patterns", want["patterns"])
        if out.status != "ok":
            raise core.Violation("C15/fails", f"extraction ends with {out.name}: {out.exc}")
        try:
            got = model.read_song(env.files().get(J.SONG, b""))
        except model.Unreadable as e:
            raise core.Violation("C15/unreadable", str(e))
        d = model.diff_song(got, want)
        if d:
            raise core.Violation("C15/grid", d)
        if scn["json"]:
            try:
                n = len(model.read_json(env.files()[J.JSON]))
            except (model.Unreadable, KeyError):
                n = None
            if n != got["instruments"]:
                raise core.Violation("C15/instruments", f"{got['instruments']} instruments in the song, {n} in the bank")
        return env.digest()

    def simpler(self, scn):
        yield from core.simpler_keys(scn, [], {"mode": "main", "json": False, "tpn": 100})
        yield from core.Prop.simpler(self, scn)


CHECK = C15()
