"""The recorder: turns a list of operations into the bytes of a VGM log.

Operations (JSON lists):
  ["w", reg, val]            YM2151 register write (0x54)
  ["t", id, n]               delay of n samples encoded by command id (61 62 63 7x 8x)
  ["f", "hex"]               command for another chip (already encoded, no delay)
  ["blk", type, n, b31, s]   data block of n bytes (content seeded by s)
  ["x", n, ops]              the operations n times over
"""
import random
import struct
import zlib


def block_bytes(seed, n):
    """What a data block holds: noise, or bytes that would be commands if they were read as such."""
    rng = random.Random(seed)
    if seed % 3:
        return rng.randbytes(n)
    out = bytearray(b"\x54\x08" + bytes((0x78 | rng.randrange(8),)))[:n]
    while len(out) < n:
        out += rng.choice((bytes((0x54, 0x08, rng.getrandbits(7))), bytes((0x54, rng.getrandbits(8), rng.getrandbits(8))),
                           bytes((0x61, rng.getrandbits(8), rng.getrandbits(3))), b"\x62", b"\x63",
                           bytes((0x70 | rng.getrandbits(4),)), b"\x66"))
    return bytes(out[:n])


def enc_op(op):
    k = op[0]
    if k == "w":
        return bytes((0x54, op[1], op[2]))
    if k == "t":
        i, n = op[1], op[2]
        if i == 0x61:
            return bytes((0x61, n & 0xFF, n >> 8))
        return bytes((i,))
    if k == "f":
        return bytes.fromhex(op[1])
    if k == "blk":
        n = op[2]
        data = block_bytes(op[4], min(n, 65536))
        if n > len(data):
            data = (data * (n // len(data) + 1))[:n]
        size = n | (0x80000000 if op[3] else 0)
        return bytes((0x67, 0x66, op[1])) + struct.pack("<I", size) + data
    if k == "x":
        return b"".join(map(enc_op, op[2])) * op[1]
    raise ValueError(op)


def dur(op):
    """Samples that pass in an operation."""
    return op[2] if op[0] == "t" else op[1] * sum(map(dur, op[2])) if op[0] == "x" else 0


def bcd(v):
    out = 0
    for i, d in enumerate(reversed(f"{v:08d}")):
        out |= int(d) << (4 * i)
    return out


def header(h, body_len, total=0, tail_at=0, loop=(0, 0)):
    """h: version (int, e.g. 151), start (data start, >= 0x40), ym2151, ym2413, junk seed,
    fill ("true": the lengths, tag and loop fields say what is there), eof (added to the
    end-of-file field, or None for 0)."""
    version = h.get("version", 151)
    start = h.get("start", 0x40) if version >= 150 else 0x40
    rng = random.Random(h.get("junk", 0))
    b = bytearray(rng.randbytes(start)) if h.get("junk") else bytearray(start)
    b[0:4] = b"Vgm "
    b[4:8] = struct.pack("<I", start + body_len - 4)
    b[8:12] = struct.pack("<I", bcd(version))
    if h.get("fill") == "true":
        b[0x14:0x18] = struct.pack("<I", start + tail_at - 0x14 if tail_at else 0)
        b[0x18:0x24] = struct.pack("<III", total & 0xFFFFFFFF, start + loop[0] - 0x1C if loop[0] else 0, loop[1] & 0xFFFFFFFF)
        b[0x24:0x28] = struct.pack("<I", 60)
    if h.get("eof", 0) != 0:
        b[4:8] = struct.pack("<I", 0 if h["eof"] is None else (start + body_len - 4 + h["eof"]) & 0xFFFFFFFF)
    if h.get("eof_field") is not None:
        b[4:8] = struct.pack("<I", h["eof_field"])
    b[0x10:0x14] = struct.pack("<I", h.get("ym2413", 0))
    if start >= 0x34:
        b[0x30:0x34] = struct.pack("<I", h.get("ym2151", 3579545))
    if version >= 150:
        b[0x34:0x38] = struct.pack("<I", start - 0x34)
    return bytes(b)


def body(ops, end=True, tail=b""):
    """Returns (bytes, offsets): offsets[i] is the end of op i relative to the body."""
    out = bytearray()
    offs = []
    for op in ops:
        out += enc_op(op)
        offs.append(len(out))
    if end:
        out += b"\x66"
    out += tail
    return bytes(out), offs


def build(log):
    """log: {ops, hdr, end, tail(hex), gz}. Returns the bytes of the file."""
    tail = bytes.fromhex(log.get("tail", ""))
    ops = log["ops"]
    b, offs = body(ops, log.get("end", True), tail)
    h = log.get("hdr", {})
    more = {}
    if h.get("fill") == "true":
        k = len(ops) // 2
        waits = [dur(o) for o in ops]
        more = {"total": sum(waits), "tail_at": len(b) - len(tail) if tail else 0,
                "loop": (offs[k - 1], sum(waits[k:])) if k else (0, 0)}
    data = header(h, len(b), **more) + b
    if log.get("gz"):
        data = gzip_bytes(data, log["gz"])
    return data


def gzip_bytes(data, g):
    """g: level, cuts (member boundaries: a fraction of the data, or an int offset), flush, strategy, name, extra, comment, mtime, pad."""
    cuts = sorted(min(c, len(data)) if isinstance(c, int) else int(len(data) * c) for c in g.get("cuts", []))
    pts = [0] + cuts + [len(data)]
    out = b""
    for a, b in zip(pts, pts[1:]):
        part = data[a:b]
        flags = 0
        head = b""
        if g.get("extra"):
            flags |= 4
            x = bytes.fromhex(g["extra"])
            head += struct.pack("<H", len(x)) + x
        if g.get("name"):
            flags |= 8
            head += g["name"].encode("latin-1") + b"\0"
        if g.get("comment"):
            flags |= 16
            head += g["comment"].encode("latin-1") + b"\0"
        flags |= (2 if g.get("hcrc") else 0) | (1 if g.get("text") else 0)
        head = b"\x1f\x8b\x08" + bytes((flags,)) + struct.pack("<IBB", g.get("mtime", 0), g.get("xfl", 0), g.get("os", 3)) + head
        if g.get("hcrc"):
            head += struct.pack("<H", zlib.crc32(head) & 0xFFFF)
        out += head
        c = zlib.compressobj(g.get("level", 9), zlib.DEFLATED, -15, 8, g.get("strategy", 0))
        step = g.get("flush", 0)
        if step:
            step = max(step, len(part) // 3000)
            out += b"".join(c.compress(part[i:i + step]) + c.flush(zlib.Z_SYNC_FLUSH) for i in range(0, len(part), step))
        else:
            out += c.compress(part)
        out += c.flush() + struct.pack("<II", zlib.crc32(part), len(part) & 0xFFFFFFFF)
    return out + b"\0" * g.get("pad", 0)
