"""The track table lists every row once and every voice's last event in it."""
import core
import job as J
import model
import vgmfile
import world
from model import Model
from props import common as c
from props.C15 import grid_ops


class C18(core.Prop):
    id = "C18"
    runs = {"quick": 40500, "thorough": 200000}
    rule = ("one case = one schedule of voices acting on and around row boundaries, extracted to a track table; non-trivial "
            "if a row holds two events of a voice, is empty, or is the last; distinct by the table")

    def gen(self, rng, i, tier):
        tpn = rng.choice((1, 2, 3, 100, 441, 735, 882, 4410, rng.randint(1, 9000)))
        x = rng.random()
        if i in (0, 1, 2, 3):
            tpn = 441
            ops = world.pitch_sweep(rng, i, tpn)
        elif x < 0.03:
            ops = [["t", 0x61, 5]] if rng.random() < 0.5 else [["w", 8, 3]]
        elif x < 0.7:
            ops = grid_ops(rng, tpn, rng.choice((1, 2, 5, 12)))
        else:
            ops = world.random_ops(rng, limit=rng.choice((20, 100, 250)), foreign=False)
            tpn = c.pick_tpn(rng, ops, 1500)
        top = 3000
        if rng.random() < 0.01:
            ops = world.long_rest(rng, ops, rng.choice((70000, 300000, 1 << 20, 1 << 24)))
            top = 70000
        if c.span(ops) // tpn > top:
            tpn = c.span(ops) // top + 1
        return {"log": {"ops": ops, "hdr": world.random_header(rng), "end": True}, "tpn": tpn, **c.random_machine(rng)}

    def specials(self, tier):
        on, off, tick = world.ON, world.OFF, [["t", 0x70, 1]]
        out = [(on + world.rest(n - 1) + off + tick + on + world.rest(63) + off + tick + on, 1)
               for n in (9999, 10000, 32768, 65536, 100000, 131072)]
        out += [(world.giant("instruments"), 735), (world.giant("clock"), 2 ** 17 - 1), (world.giant("events"), 3)]
        return [{"log": {"ops": ops, "hdr": {"version": 151}, "end": True}, "tpn": tpn} for ops, tpn in out]

    def run(self, scn, st):
        m = Model(scn["log"]["ops"])
        st.song(m.time)
        job = {"mode": "api", "in": J.IN, "csv": J.CSV, "tpn": scn["tpn"]}
        env, out = J.session({J.IN: vgmfile.build(scn["log"])}, job, **c.machine(scn))
        st.env(env)
        want = m.table(scn["tpn"])
        st.key(want)
        st.probe("rows", len(want))
        if out.status != "ok":
            raise core.Violation("C18/fails", f"the table ends with {out.name}: {out.exc}")
        try:
            got = model.read_table(env.files().get(J.CSV, b""))
        except model.Unreadable as e:
            raise core.Violation("C18/unreadable", str(e))
        d = model.diff_table(got, want)
        if d:
            raise core.Violation("C18/table", d)
        return env.digest()

    def simpler(self, scn):
        yield from core.simpler_keys(scn, [], {"tpn": 100})
        yield from core.Prop.simpler(self, scn)


CHECK = C18()
