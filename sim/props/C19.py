"""Every extraction ends."""
import random
import resource
import struct

import core
import job as J
import steps
import vgmfile
import world
from env import SimHang
from props import common as c


def garbage(rng):
    n = rng.choice((0, 1, 3, 4, 0x34, 0x40, 100, 500, 3000))
    k = rng.choice(("bytes", "ids", "writes", "blocks", "same", "zeros", "waits"))
    if k == "bytes":
        return rng.randbytes(n)
    if k == "ids":
        return bytes(rng.choice((0x54, 0x61, 0x66, 0x67, 0x68, 0x70, 0x80, 0x92, 0x93, 0xE0, 8, 0x78)) for _ in range(n))
    if k == "writes":
        return b"".join(bytes((0x54, rng.getrandbits(8), rng.getrandbits(8))) for _ in range(n // 3))
    if k == "blocks":
        out = b""
        for _ in range(rng.randint(1, 5)):
            size = rng.choice((0, 5, 1000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x10000, rng.getrandbits(32)))
            out += bytes((0x67, 0x66, rng.getrandbits(8))) + struct.pack("<I", size) + rng.randbytes(rng.randint(0, 60))
        return out
    if k == "same":
        return bytes((rng.getrandbits(8),)) * n
    if k == "waits":
        return bytes((0x61, 0xFF, 0xFF)) * rng.randint(1, 30) + bytes((0x54, 8, 0x78))
    return bytes(n)


MEMORY = 1 << 30


def peak(reset=False):
    """The most memory this process has touched, since the last reset where the kernel lets us reset it."""
    if reset:
        try:
            with open("/proc/self/clear_refs", "w") as f:
                f.write("5")
        except OSError:
            pass
    try:
        with open("/proc/self/status") as f:
            for line in f:
                if line.startswith("VmHWM:"):
                    return int(line.split()[1]) * 1024
    except OSError:
        pass
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024


class C19(core.Prop):
    id = "C19"
    # what one worker may reserve: reading a block of 2 GB that is not there reserves that much and touches none of it
    address_space = 3500 << 20
    runs = {"quick": 18500, "thorough": 120000}
    rule = ("one case = one extraction of arbitrary or damaged bytes, with reads in pieces, interrupted or failing, under a "
            "budget of executed source lines and raw operations, and of memory touched; distinct by (kind of input, container, header, source, "
            "ending, share of the budget used)")

    def gen(self, rng, i, tier):
        kind = rng.choice(("garbage", "garbage", "mutated", "mutated", "random-file", "header", "cut-gz"))
        scn = {"kind": kind, "mode": rng.choice(("cli", "main")), "src": rng.choice(("file", "file", "pipe")),
               "song": rng.random() < 0.15, "tpn": rng.choice((500, 882, 5000, None)), **c.random_machine(rng)}
        h = world.random_header(rng)
        if kind == "garbage":
            body = garbage(rng)
            data = vgmfile.header(h, len(body)) + body
        elif kind == "random-file":
            data = garbage(rng)
            if rng.random() < 0.5:
                data = b"\x1f\x8b" + data
        elif kind == "header":
            b = bytearray(vgmfile.build({"ops": world.random_ops(rng, limit=20), "hdr": h}))
            for _ in range(rng.choice((1, 2, 4))):
                b[4 + rng.randrange(min(0x3C, len(b) - 4))] = rng.choice((0, 1, 0xFF, 0x80, 0x99, rng.getrandbits(8)))
            data = bytes(b[:rng.choice((len(b), len(b), rng.randint(4, len(b))))])
        else:
            log = world.random_log(rng, limit=rng.choice((10, 60)), gz=kind == "cut-gz")
            b = bytearray(vgmfile.build(log))
            for _ in range(rng.choice((1, 1, 3, 10))):
                b[rng.randrange(len(b))] = rng.getrandbits(8)
            if rng.random() < 0.4:
                b = b[:rng.randint(0, len(b))]
            data = bytes(b)
        if rng.random() < 0.2 and kind != "cut-gz":
            data = vgmfile.gzip_bytes(data, world.random_gz(rng))
            if rng.random() < 0.3:
                data = data[:rng.randint(0, len(data))]
        scn["data"] = data.hex()
        if rng.random() < 0.25:
            scn["faults"] = [{"label": rng.choice(("in", "in", "stdin")), "op": "read", "n": rng.choice((0, 1, 2, 5, 20)),
                              "kind": "eio", "sticky": rng.random() < 0.5}]
        return scn

    def run(self, scn, st):
        data = bytes.fromhex(scn["data"])
        job = {"mode": scn["mode"], "in": J.IN, "json": J.JSON, "tpn": scn["tpn"]}
        if scn["song"]:
            job["song"] = J.SONG
            job["tpn"] = scn["tpn"] or 5000
        kw = dict(c.machine(scn))
        files = {J.IN: data}
        if scn["src"] == "pipe":
            job["in"], files = "-", {}
            kw.update(stdin=data, stdin_seekable=False)
        try:
            plain = len(data)
            if data[:2] == b"\x1f\x8b":
                import zlib
                try:
                    d = zlib.decompressobj(31)
                    plain += len(d.decompress(data, 10_000_000))
                except zlib.error:
                    plain *= 20
        finally:
            pass
        # generous: two orders of magnitude over what a linear tool needs; a loop that waits for
        # data that cannot come passes any such bound
        events = data.count(b"\x54\x08") + plain // 3 + 1
        rows = 65536 * (plain // 3 + 2) // (job["tpn"] or 1000) if scn["song"] else 0
        budget = 3_000_000 + 3_000 * plain + 300 * min(events, 2000) ** 2 + 400 * rows
        before = peak(reset=True)
        try:
            with steps.limit(budget) as cnt:
                env, out = J.session(files, job, faults=scn.get("faults") or [], **kw)
        except SimHang as h:
            raise core.Violation("C19/no-end", f"{len(data)} bytes of input ({scn['kind']}): {h}")
        used = peak() - before
        if used > MEMORY + 20_000 * plain + 5_000 * rows:
            raise core.Violation("C19/memory", f"{len(data)} bytes of input ({scn['kind']}) filled over {MEMORY >> 20} MB of memory")
        st.env(env)
        st.probe("ended-" + out.status)
        st.key(scn["kind"], data[:2] == b"\x1f\x8b", data[8:12], scn["src"], out.name, cnt.n.bit_length())
        return core.digest(env.digest(), out.status)

    def lists(self, scn):
        return [["faults"]] if scn.get("faults") else []

    def simpler(self, scn):
        yield from core.simpler_keys(scn, [], {"delivery": None, "bufsize": 8192, "src": "file", "mode": "main", "song": False,
                                               "faults": None, "tpn": 5000})
        d = scn["data"]
        n = len(d) // 2
        step = n // 2
        while step:
            for k in range(0, n, step):
                yield {**scn, "data": d[:2 * k] + d[2 * (k + step):]}
            step //= 2
            if n > 60 and step < n // 16:
                break


CHECK = C19()
