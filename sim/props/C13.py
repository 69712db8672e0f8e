"""Traffic for other chips and data blocks never disturbs the YM2151 result."""
import core
import job as J
import vgmfile
import world
from model import Model
from props import common as c


def insert(rng, ops, n, big):
    """Foreign commands at arbitrary points, between any two commands of the log."""
    out = list(ops)
    for _ in range(n):
        k = rng.randint(0, len(out))
        x = rng.random()
        if x < 0.75:
            new = [world.foreign_op(rng, big=big and rng.random() < 0.2)]
        elif x < 0.9:
            new = [["w", rng.choice(world.MISC_REGS), rng.getrandbits(8)]]
        else:
            w = rng.randint(0, 15)
            new = [["t", 0x80 + w, w]]
        if rng.random() < 0.15:
            new = new * rng.randint(2, 6)
        out[k:k] = new
    return out


class C13(core.Prop):
    id = "C13"
    runs = {"quick": 21000, "thorough": 200000}
    rule = ("one case = one log with commands for other chips, stream control, data blocks and settings-free registers put in at "
            "drawn points; non-trivial if such a command stands between the log's own; distinct by the sequence of command "
            "ids and block sizes")

    def gen(self, rng, i, tier):
        base = world.random_ops(rng, limit=rng.choice((10, 40, 100)), foreign=False, misc=False)
        big = rng.random() < 0.06
        ops = insert(rng, base, rng.choice((1, 3, 10, 40, 120)), big)
        if rng.random() < 0.015:
            # nothing but other chips for a long while
            k = rng.randint(0, len(ops))
            run = [world.foreign_op(rng) for _ in range(rng.choice((3, 40, 1200)))]
            n = rng.choice((1200, 3000))
            ops[k:k] = (run * (n // len(run) + 1))[:n]
        log = {"ops": ops, "hdr": world.random_header(rng), "end": rng.random() < 0.9}
        if rng.random() < 0.15:
            log["gz"] = world.random_gz(rng)
        scn = {"log": log, "via": rng.choice(("api", "api", "main")), **c.random_machine(rng)}
        if sum(o[2] for o in ops if o[0] == "blk") > 20000 and scn["delivery"]:
            scn["delivery"]["max"] = rng.choice((500, 5000))
        return scn

    def specials(self, tier):
        note = [["w", 0x28, 0x4A], ["w", 0x08, 0x78], ["t", 0x61, 100], ["w", 0x08, 0x00]]

        note2 = [["w", 0x28, 0x5C], ["w", 0x60, 0x11], ["w", 0x08, 0x78], ["t", 0x61, 7], ["w", 0x08, 0x00]]

        def sc(op):
            return {"log": {"ops": note + [op] + note2, "hdr": {"version": 161}, "end": True}, "via": "api"}
        # 0x68 with a size: the known finding; then every command id once, with hostile operands; block sizes around powers of two
        out = [sc(["f", "6866" + "01" + "000000" + "000000" + "030000"])]
        for i, n in sorted(world.OPERANDS.items()):
            for fill in ("54", "66", "ff"):
                out.append(sc(["f", "%02x" % i + fill * n]))
        for i in world.NO_OPERANDS:
            out.append(sc(["f", "%02x" % i]))
        for n in (0, 1, 255, 256, 257, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 24) + 1) + (
                () if tier == "quick" else ((1 << 26) + 3,)):
            for b31 in (False, True):
                if n < 1 << 20 or b31 or tier != "quick":
                    out.append(sc(["blk", 0x80, n, b31, 1]))
        for t in (0x00, 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0x84, 0xC0, 0xE0, 0xFF):
            out.append(sc(["blk", t, 5, False, 2]))
        return out

    def run(self, scn, st):
        log = scn["log"]
        m = Model(log["ops"])
        st.song(m.time)
        if any(o[0] in ("f", "blk") for o in log["ops"]):
            st.key([(o[0], o[1][:2] if o[0] == "f" else o[2]) for o in log["ops"] if o[0] in ("f", "blk")], len(log["ops"]))
        for o in log["ops"]:
            if o[0] == "f":
                st.probe("foreign-command")
            elif o[0] == "blk":
                st.probe("data-block" + ("-second-chip" if o[3] else "") + ("-64k+" if o[2] >= 65536 else ""))
        if scn["via"] == "main":
            job = {"mode": "main", "in": J.IN, "json": J.JSON, "song": J.SONG, "tpn": max(700, m.time // 60 + 1)}
            env, out = J.session({J.IN: vgmfile.build(log)}, job, **c.machine(scn))
            st.env(env)
            d = J.judge_outputs(job, env.files(), "", m) if out.status == "ok" else None
        else:
            box = c.full(scn, st)
            env, out = box["env"], box["out"]
            d = None
            if out.status == "ok":
                d = J.diff_notes(box["notes"], m)
                if d is None:
                    import model
                    d = model.diff_json(box["bank"], m.json())
        if out.status != "ok":
            raise core.Violation("C13/fails", f"extraction ends with {out.name}: {out.exc}")
        if d:
            raise core.Violation("C13/disturbed", d)
        return env.digest()


CHECK = C13()
