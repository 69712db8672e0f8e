"""The simulated sound driver: actors stepped by a seeded scheduler on a virtual
44.1 kHz clock; what they write to the chip is recorded as log operations."""
import heapq

import vgmfile

OP_BASES = (0x40, 0x60, 0x80, 0xA0, 0xC0, 0xE0)
# register base -> bit fields (hi, lo) that matter
FIELDS = {
    0x20: [(5, 3), (2, 0)], 0x38: [(6, 4), (1, 0)],
    0x40: [(6, 4), (3, 0)], 0x60: [(6, 0)], 0x80: [(7, 6), (4, 0)],
    0xA0: [(7, 7), (4, 0)], 0xC0: [(7, 6), (4, 0)], 0xE0: [(7, 4), (3, 0)],
}
JUNK = {0x20: 0, 0x38: 0x8C, 0x40: 0x80, 0x60: 0x80, 0x80: 0x20, 0xA0: 0x60, 0xC0: 0x20, 0xE0: 0}
MISC_REGS = [r for r in range(0x20) if r not in (0x08, 0x0F, 0x18, 0x19, 0x1B)]


# -- patches ------------------------------------------------------------------

def patch_keys():
    return [(0x20, 0), (0x38, 0)] + [(b, s) for b in OP_BASES for s in range(4)]


PKEYS = patch_keys()


def random_patch(rng):
    style = rng.random()
    if style < 0.5:
        return {k: rng.getrandbits(8) for k in PKEYS}
    if style < 0.7:
        return {k: 0 for k in PKEYS}
    if style < 0.8:
        return {k: 0xFF for k in PKEYS}
    return {k: rng.choice((0, 1, 0x80, 0x40, 0x10, 0x0F, 0xFF, rng.getrandbits(8))) for k in PKEYS}


def tweak_field(rng, patch):
    """A patch that differs in exactly one field, often in one bit of it."""
    p = dict(patch)
    k = rng.choice(PKEYS)
    hi, lo = rng.choice(FIELDS[k[0]])
    bit = rng.choice((hi, lo, rng.randint(lo, hi)))
    p[k] ^= 1 << bit
    if rng.random() < 0.2 and hi > lo:
        p[k] ^= 1 << rng.randint(lo, hi)
    return p


# an operator's fields in the order of the instrument file: register, high bit, low bit
OP_FIELDS = [(0x60, 6, 0), (0x80, 4, 0), (0xA0, 4, 0), (0xE0, 7, 4), (0xC0, 4, 0), (0xE0, 3, 0), (0x80, 7, 6), (0x40, 3, 0),
             (0x40, 6, 4), (0xC0, 7, 6), (0xA0, 7, 7)]


def put_field(p, s, f, v):
    b, hi, lo = f
    mask = (1 << hi + 1) - (1 << lo)
    p[(b, s)] = p[(b, s)] & ~mask & 0xFF | v << lo & mask


def get_field(p, s, f):
    b, hi, lo = f
    return (p[(b, s)] & (1 << hi + 1) - 1) >> lo


def lookalikes(rng, patch):
    """Two patches that are easily taken for each other: values exchanged between fields or operators, sums or
    digits that are the same on the whole."""
    a, b = dict(patch), dict(patch)
    s, x = rng.randrange(4), rng.random()
    if x < 0.25:
        # two operators exchanged
        t = rng.choice([t for t in range(4) if t != s])
        for base in OP_BASES:
            b[(base, s)], b[(base, t)] = a[(base, t)], a[(base, s)]
        return [a, b]
    if x < 0.5:
        # two values exchanged, between operators or fields
        f, g, t = rng.choice(OP_FIELDS), rng.choice(OP_FIELDS), rng.randrange(4)
        g = f if s != t and rng.random() < 0.5 else g
        top = min(1 << f[1] - f[2] + 1, 1 << g[1] - g[2] + 1)
        v, w = rng.randrange(top), rng.randrange(top)
        for p, (m, n) in ((a, (v, w)), (b, (w, v))):
            put_field(p, s, f, m)
            put_field(p, t, g, n)
        return [a, b]
    if x < 0.7:
        # one up, another one down
        f, g, t = rng.choice(OP_FIELDS), rng.choice(OP_FIELDS), rng.randrange(4)
        v, w = get_field(a, s, f), get_field(a, t, g)
        if v + 1 < 1 << f[1] - f[2] + 1 and w and (s, f) != (t, g):
            put_field(b, s, f, v + 1)
            put_field(b, t, g, w - 1)
        return [a, b]
    # the same digits, divided differently
    k = rng.randrange(5)
    f, g = OP_FIELDS[k], OP_FIELDS[k + 1]
    for p, (m, n) in zip((a, b), rng.choice((((1, 11), (11, 1)), ((1, 12), (11, 2)), ((1, 10), (11, 0)), ((1, 15), (11, 5)),
                                             ((0, 10), (1, 0))))):
        put_field(p, s, f, m)
        put_field(p, s, g, n)
    return [a, b]


def patch_pool(rng, n):
    pool = [random_patch(rng)]
    while len(pool) < n:
        if n > 2 and rng.random() < 0.2:
            pool += lookalikes(rng, rng.choice(pool))
        elif rng.random() < 0.7:
            pool.append(tweak_field(rng, rng.choice(pool)))
        else:
            pool.append(random_patch(rng))
    return pool


def rl_bits(rng):
    return rng.choice((0xC0, 0xC0, 0x80, 0x40, 0x00))


# -- timing ---------------------------------------------------------------------

class Timing:
    """How long voices hold and rest, in samples."""

    def __init__(self, rng, style=None):
        self.rng = rng
        self.style = style or rng.choice(("grid", "grid", "dense", "sparse", "mixed", "frame"))
        self.p = rng.choice((735, 882, 100, 60, rng.randint(1, 2500)))

    def __call__(self):
        r, s = self.rng, self.style
        if s == "mixed":
            s = r.choice(("grid", "dense", "sparse", "frame"))
        if s == "grid":
            n = r.choice((0, 1, 1, 2, 3, 4)) * self.p
            if r.random() < 0.2:
                n = max(0, n + r.choice((-1, 1)))
            return n
        if s == "dense":
            return r.choice((0, 0, 1, 2, 3, 15, 16, 17))
        if s == "frame":
            return r.choice((735, 882, 735, 882, 1617, 1470, 0))
        return r.choice((0, 1000, 5000, 44100, 65535, 65536, 70000, r.randint(1, 140000)))


# -- actors ----------------------------------------------------------------------

def voice_program(rng, ch, pool, n, timing, opts):
    """List of ["w", reg, val] and ["s", samples]."""
    out = []
    cur = {}
    rl = rl_bits(rng)

    def w(r, v):
        out.append(["w", r, v & 0xFF])

    def put(patch, full):
        keys = list(PKEYS)
        if opts.get("sparse"):
            keys = rng.sample(keys, rng.randint(0, opts["sparse"]))
            full = False
        elif rng.random() < 0.5:
            rng.shuffle(keys)
        for (b, s) in keys:
            v = patch[(b, s)]
            if b == 0x20:
                v = (v & 0x3F) | rl
            elif rng.random() < opts["junk"]:
                v ^= JUNK[b] & rng.getrandbits(8)
            if full or cur.get((b, s)) != v:
                w(b + 8 * s + ch, v)
                cur[(b, s)] = v

    if opts["early_off"] and rng.random() < 0.5:
        w(0x08, ch)
    if rng.random() < opts["init"]:
        put(rng.choice(pool), rng.random() < 0.5)
    for _ in range(n):
        x = rng.random()
        if x < opts["patch"]:
            put(rng.choice(pool), rng.random() < 0.2)
        if rng.random() < 0.2:
            # one operator register of the voice, as drivers do for volume slides
            k = rng.choice(PKEYS)
            v = rng.choice(pool)[k]
            if k[0] == 0x20:
                v = (v & 0x3F) | rl
            w(k[0] + 8 * k[1] + ch, v)
            cur[k] = v
        if rng.random() < 0.3:
            rl = rl_bits(rng)
            w(0x20 + ch, (cur.get((0x20, 0), 0) & 0x3F) | rl)
            cur[(0x20, 0)] = (cur.get((0x20, 0), 0) & 0x3F) | rl
        if rng.random() < 0.8:
            w(0x28 + ch, rng.getrandbits(8))
        if rng.random() < 0.3:
            w(0x30 + ch, rng.getrandbits(8))
        if ch == 7 and rng.random() < opts["noise"]:
            w(0x0F, rng.choice((0x80, 0x9F, 0x1F, 0, 0x81, 0x01, rng.getrandbits(8))))
        mask = 0x78 if rng.random() < opts["fullmask"] else rng.randint(1, 15) << 3
        top = 0x80 if rng.random() < 0.1 else 0
        if rng.random() < 0.15:
            w(0x08, ch)          # cut the previous note first
        w(0x08, top | mask | ch)
        if rng.random() < 0.1:
            w(0x08, top | mask | ch)  # retrigger at the same time
        if rng.random() < 0.15:
            # slide while the key is held: must not change the recorded instrument
            k = rng.choice(PKEYS[1:])
            w(k[0] + 8 * k[1] + ch, rng.getrandbits(8))
            cur.pop(k, None)
        out.append(["s", timing()])
        if rng.random() < 0.85:
            w(0x08, ch)
        if rng.random() < 0.1:
            w(0x08, ch)          # key off twice
        if rng.random() < 0.7:
            out.append(["s", timing()])
    return out


def chip_program(rng, n, timing):
    out = []
    vals = [0, 0xFF, 0x80, 0x7F, 1, rng.getrandbits(8)]
    for _ in range(n):
        for _ in range(rng.randint(1, 3)):
            r = rng.choice((0x18, 0x19, 0x19, 0x1B))
            out.append(["w", r, rng.choice(vals + [rng.getrandbits(8)])])
        out.append(["s", timing()])
    return out


def misc_program(rng, n, timing):
    out = []
    for _ in range(n):
        out.append(["w", rng.choice(MISC_REGS), rng.getrandbits(8)])
        out.append(["s", timing()])
    return out


# operand bytes per command id (VGM format); 0x67 and timed commands are separate
OPERANDS = {}
for _i in range(0x30, 0x40):
    OPERANDS[_i] = 1
for _i in range(0x40, 0x4F):
    OPERANDS[_i] = 2
OPERANDS[0x4F] = OPERANDS[0x50] = 1
for _i in list(range(0x51, 0x54)) + list(range(0x55, 0x60)):
    OPERANDS[_i] = 2
for _i in range(0xA0, 0xC0):
    OPERANDS[_i] = 2
for _i in range(0xC0, 0xE0):
    OPERANDS[_i] = 3
for _i in range(0xE0, 0x100):
    OPERANDS[_i] = 4
OPERANDS.update({0x90: 4, 0x91: 4, 0x92: 5, 0x93: 10, 0x94: 1, 0x95: 4})
NO_OPERANDS = list(range(0x00, 0x30)) + [0x60, 0x64, 0x65] + list(range(0x69, 0x70)) + list(range(0x96, 0xA0))


def foreign_op(rng, big=False):
    x = rng.random()
    if x < 0.2:
        n = rng.choice((0, 1, 2, 3, 7, 16, 255, 256, 257, rng.randint(0, 600)))
        if big:
            n = rng.choice((65535, 65536, 65537, 70000, 131072, 200001))
        return ["blk", rng.getrandbits(8), n, rng.random() < 0.3, rng.getrandbits(30)]
    if x < 0.24:
        # PCM RAM write of size field 0 (see the known finding for other sizes)
        return ["f", bytes([0x68, 0x66, rng.getrandbits(8)] + [rng.getrandbits(8) for _ in range(6)] + [0, 0, 0]).hex()]
    if x < 0.28:
        return ["f", bytes([rng.choice(NO_OPERANDS)]).hex()]
    i = rng.choice(list(OPERANDS))
    tricky = (0x54, 0x66, 0x61, 0x08, 0x67, 0x78, 0x00, 0xFF, 0x62, 0x70)
    b = [i] + [rng.choice(tricky) if rng.random() < 0.6 else rng.getrandbits(8) for _ in range(OPERANDS[i])]
    return ["f", bytes(b).hex()]


# -- recording -------------------------------------------------------------------

def encode_wait(rng, n, style="mix"):
    out = []
    while n > 0:
        x = rng.random()
        if style == "plain" or x < 0.55 or n > 140000:
            m = min(n, 65535)
            if style != "plain" and rng.random() < 0.3:
                m = rng.randint(1, m)
            out.append(["t", 0x61, m])
        elif x < 0.65 and n >= 735:
            m = 735
            out.append(["t", 0x62, m])
        elif x < 0.75 and n >= 882:
            m = 882
            out.append(["t", 0x63, m])
        elif x < 0.9:
            m = rng.randint(1, min(16, n))
            out.append(["t", 0x6F + m, m])
        else:
            m = rng.randint(0, min(15, n))
            out.append(["t", 0x80 + m, m])
        n -= m
    return out


def interleave(programs, rng, first=(), wait_style="mix", p_zero=0.02, bias=None):
    """Runs the programs on one virtual clock. At equal times the seeded scheduler picks
    who writes next, one write at a time; actors in `first` go before all others."""
    heap = []
    for a in sorted(programs):
        if programs[a]:
            heapq.heappush(heap, (0, a))
    pos = {a: 0 for a in programs}
    now = 0
    ops = []
    nsched = 0
    while heap:
        t = heap[0][0]
        if t > now:
            ops += encode_wait(rng, t - now, wait_style)
            now = t
        ready = []
        while heap and heap[0][0] == t:
            ready.append(heapq.heappop(heap)[1])
        ready.sort()
        last = None
        while ready:
            pri = [a for a in ready if a in first]
            pick = pri or ready
            if last in pick and bias is not None and rng.random() < bias:
                a = last
            else:
                a = pick[rng.randrange(len(pick))]
            last = a
            nsched += 1
            prog = programs[a]
            if pos[a] >= len(prog):
                ready.remove(a)
                continue
            item = prog[pos[a]]
            pos[a] += 1
            if item[0] == "s":
                ready.remove(a)
                heapq.heappush(heap, (t + item[1], a))
            else:
                ops.append(list(item))
                if p_zero and rng.random() < p_zero:
                    ops.append(["t", 0x61, 0] if rng.random() < 0.5 else ["t", 0x80, 0])
    return ops


DEFAULTS = dict(junk=0.3, early_off=True, init=0.9, patch=0.6, noise=0.4, fullmask=0.6)


def programs(rng, voices=None, events=None, timing=None, foreign=None, big=False, chip=True, misc=True, opts=None, limit=None):
    o = dict(DEFAULTS)
    if opts is None:
        # swarm: every run gets its own mix
        o["junk"] = rng.choice((0, 0.3, 1.0))
        o["patch"] = rng.choice((0.1, 0.5, 0.9))
        o["init"] = rng.choice((0, 1, 1, 1))
        o["fullmask"] = rng.choice((0.2, 0.8, 1.0))
        o["early_off"] = rng.random() < 0.6
        # a full patch takes 26 writes: short logs would hold nothing but those
        o["sparse"] = rng.choice((0, 0, 0, 2) if limit is None or limit > 100 else (0, 1, 2, 4))
    else:
        o.update(opts)
    tm = timing or Timing(rng)
    if voices is None:
        voices = sorted(rng.sample(range(8), rng.choice((1, 2, 3, 4, 8))))
        if rng.random() < 0.3 and 7 not in voices:
            voices.append(7)
    pool = patch_pool(rng, rng.choice((1, 2, 3, 5, 8)))
    progs = {}
    for ch in voices:
        n = events if events is not None else rng.choice((1, 2, 3, 4, 6))
        p = voice_program(rng, ch, pool, n, tm, o)
        if rng.random() < 0.5:
            p.insert(0, ["s", tm()])
        progs[f"v{ch}"] = p
    if chip and rng.random() < 0.7:
        progs["a-chip"] = chip_program(rng, rng.randint(1, 4), tm)
    if misc and rng.random() < 0.3:
        progs["misc"] = misc_program(rng, rng.randint(1, 6), tm)
    if 7 not in voices and rng.random() < 0.3:
        progs["noise"] = [["w", 0x0F, rng.getrandbits(8)]] + [["s", tm()], ["w", 0x0F, rng.getrandbits(8)]]
    if foreign is None:
        foreign = rng.random() < 0.4
    if foreign:
        p = []
        for _ in range(rng.randint(1, 10)):
            for _ in range(rng.randint(1, 3)):
                p.append(foreign_op(rng, big=big and rng.random() < 0.3))
            p.append(["s", tm()])
        progs["x-other"] = p
    return progs


def cap(ops, n):
    return ops[:n]


def random_ops(rng, limit=400, **kw):
    progs = programs(rng, limit=limit, **kw)
    return cap(interleave(progs, rng, bias=rng.choice((None, 0.5, 0.9))), limit)


def random_header(rng):
    v = rng.choice((100, 101, 110, 150, 151, 160, 161, 170, 171, 172))
    h = {"version": v, "ym2151": rng.choice((3579545, 4000000, 0, 1, 0xC0000000)),
         "ym2413": rng.choice((0, 3579545, 7)), "junk": rng.choice((0, 0, rng.getrandbits(20)))}
    x = rng.random()
    if x < 0.6:
        h["fill"] = "true"
        h["junk"] = 0
    if rng.random() < 0.15:
        h["eof"] = rng.choice((None, -1, -20, 1, 100000))
    if v >= 150:
        h["start"] = rng.choice((0x40, 0x40, 0x80, 0x100, 0xC0, 0x40 + rng.randint(0, 300)))
    return h


EARLY = (0, 1, 2, 3, 4, 5, 8, 0x14, 0x1C, 0x34, 0x38, 0x40, 0x41, 0x100)


def random_gz(rng, single=False):
    g = {"level": rng.choice((0, 1, 6, 9)), "strategy": rng.choice((0, 0, 0, 2, 4))}
    if not single and rng.random() < 0.3:
        g["cuts"] = [round(rng.random(), 3) if rng.random() < 0.7 else rng.choice(EARLY) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3:
        g["flush"] = rng.choice((1, 7, 50, 300))
    if rng.random() < 0.4:
        g["name"] = rng.choice(("a.vgm", "x" * 300))
    if rng.random() < 0.15:
        g["comment"] = "c"
    if rng.random() < 0.15:
        g["extra"] = "414204000102"
    if rng.random() < 0.3:
        g["mtime"] = rng.getrandbits(32)
    if rng.random() < 0.15:
        g["pad"] = rng.choice((1, 8, 600))
    if rng.random() < 0.15:
        g["hcrc"] = True
    if rng.random() < 0.15:
        g.update(text=rng.random() < 0.5, xfl=rng.choice((0, 2, 4)), os=rng.choice((0, 3, 11, 255)))
    return g


GD3_WORDS = ["Song", "Title", "Dragon", "合告合喈", "喈", "T\u0878", "tag", "Smith", "English", "g", "h", "ghost", "1991/02/03",
             "X68000", "Konami", "a", "aaaa", "\u0854\u7808", "f", "Td", "log"]


def gd3(rng):
    import struct
    s = "\0".join("".join(rng.choice(GD3_WORDS) + rng.choice(("", " ")) for _ in range(rng.randint(0, 3)))
                  for _ in range(11)) + "\0"
    b = s.encode("utf-16-le")
    return b"Gd3 " + struct.pack("<II", 0x100, len(b)) + b


def random_tail(rng):
    x = rng.random()
    if x < 0.5:
        return gd3(rng)
    if x < 0.6:
        return rng.randbytes(rng.randint(1, 200))
    if x < 0.7:
        return bytes((0x54, 0x08, 0x78 | rng.randint(0, 7))) * rng.randint(1, 5)
    if x < 0.8:
        return bytes((rng.choice((0x67, 0x68, 0x54, 0x61, 0x92)),))
    if x < 0.9:
        return b"\0" * rng.randint(1, 64)
    return bytes((0x61, 0xFF, 0xFF, 0x54, 0x28, 0x11, 0x54, 0x08, 0x79, 0x66))


def long_rest(rng, ops, over=None):
    """The song rests long enough for its clock to pass a round number of bits."""
    over = over or rng.choice((1 << 20, 1 << 23, 1 << 24, 1 << 24, 1 << 24, 44100 * 600))
    k = rng.randint(0, len(ops))
    n = over - sum(map(vgmfile.dur, ops[:k])) - rng.choice((0, 0, 1, 65536))
    rest = []
    while n > 0:
        m = min(n, 65535)
        rest.append(["t", 0x61, m])
        n -= m
    return ops[:k] + rest + ops[k:]


ON, OFF = [["w", 0x28, 0x4A], ["w", 0x08, 0x78]], [["w", 0x08, 0x00]]


def rest(n):
    return [["x", n // 60000, [["t", 0x61, 60000]]], ["t", 0x61, n % 60000]]


def giant(kind, tier="quick"):
    """A log on a scale that the drawn ones do not reach."""
    x = 4 if tier == "thorough" else 1
    other = [["w", 0x2B, 0x31], ["w", 0x08, 0x13], ["t", 0x70, 1], ["w", 0x08, 0x03]]
    if kind == "clock":
        # the song's clock passes 2^31 and 2^32 samples
        return ON + rest(2 ** 31 - 1) + OFF + ON + [["t", 0x70, 1]] + other + OFF + ON + rest(2 ** 31 - 3) + OFF + \
            [["t", 0x70, 1]] + ON + [["t", 0x70, 1]] + OFF + [["t", 0x62, 735]] + ON + other + [["x", 70, [["t", 0x61, 65535]]]] + OFF
    if kind == "events":
        # more than 65536 events of one voice, and a few of another one
        return other + [["x", 33000 * x, ON + [["t", 0x70, 1]] + OFF]] + other + ON
    if kind == "commands":
        # more than 100000 commands
        return ON + [["x", 35000 * x, [["t", 0x70, 1], ["w", 0x01, 2], ["t", 0x80, 0]]]] + OFF + other
    if kind == "instruments":
        ops = []
        for k in list(range(540 * x)) + [0, 255, 256, 511, 512, 513, 540 * x - 1, 1]:
            ops += [["w", 0x60, k & 0x7F], ["w", 0x88, k >> 7 & 31], ["w", 0x80, k >> 12], ["w", 8, 0x78], ["t", 0x62, 735]]
        return ops + OFF + other
    raise ValueError(kind)


def many_instruments(rng, n, extra=20, drop_offs=0.3):
    """A driver that goes through n instruments with few writes each, and comes back to earlier ones."""
    ch = [c for c in range(8) if rng.random() < 0.5] or [0]
    ops = []
    order = list(range(n))
    if rng.random() < 0.3:
        rng.shuffle(order)
    seq = list(order)
    for _ in range(extra):
        back = rng.choice(order)
        seq.insert(rng.randint(seq.index(back) + 1, len(seq)), back)
    seq += [order[0], order[-1], order[n // 2]]
    cur = {}
    step = rng.choice((1, 60, 735))
    for k in seq:
        c = rng.choice(ch)
        for r, v in ((0x60, k & 0x7F), (0x88, k >> 7)):
            if cur.get((c, r)) != v:
                ops.append(["w", r + c, v])
                cur[(c, r)] = v
        ops.append(["w", 8, 0x78 | c])
        ops.append(["t", 0x61, step])
        if rng.random() > drop_offs:
            ops.append(["w", 8, c])
    return ops


def register_sweep(rng, reg):
    """A driver at its bench: every value of one register, each heard on the voice concerned."""
    ch = 7 if reg == 0x0F else reg & 7 if reg >= 0x20 else rng.randrange(8)
    other = (ch + rng.randint(1, 7)) % 8
    patch = random_patch(rng)
    ops = [["w", b + 8 * s + c, patch[(b, s)]] for c in (ch, other) for b, s in PKEYS]
    ops += [["w", r, rng.getrandbits(8)] for r in (0x0F, 0x18, 0x19, 0x1B, 0x28 + ch, 0x30 + ch)]
    order = list(range(256))
    rng.shuffle(order)
    for v in order:
        if reg == 8:
            ops.append(["w", 8, v])
        else:
            ops.append(["w", reg, v])
            ops.append(["w", 8, rng.choice((0x78, 0x78, 0x78, 0x08)) | ch])
            if rng.random() < 0.1:
                ops.append(["w", 8, 0x78 | other])
        if rng.random() < 0.5:
            ops.append(["t", 0x61, 100])
    return ops


def pitch_sweep(rng, turn, tpn):
    """Every key code, each with one of the stereo settings, row after row over the voices."""
    order = list(range(256))
    rng.shuffle(order)
    ops = []
    for k, v in enumerate(order):
        ch = rng.randrange(8)
        ops += [["w", 0x28 + ch, v], ["w", 0x20 + ch, ((v + turn) & 3) << 6 | rng.getrandbits(1)],
                ["w", 0x30 + ch, ((k + 64 * turn) & 63) << 2 | rng.getrandbits(2)], ["w", 8, 0x78 | ch]]
        ops.append(["t", 0x61, tpn])
        if rng.random() < 0.2:
            ops.append(["w", 8, ch])
    return ops


def random_log(rng, limit=400, gz=None, tail=None, **kw):
    log = {"ops": random_ops(rng, limit=limit, **kw), "hdr": random_header(rng), "end": True}
    if gz is None:
        gz = rng.random() < 0.3
    if gz:
        log["gz"] = random_gz(rng, single=gz == "single")
    if tail is None:
        tail = rng.random() < 0.3
    if tail:
        log["tail"] = random_tail(rng).hex()
    elif rng.random() < 0.1:
        log["end"] = False
    return log


def random_delivery(rng, write=True):
    if rng.random() < 0.25:
        return None
    d = {"seed": rng.getrandbits(30), "short": rng.choice((0, 0.2, 0.6, 1.0)), "eintr": rng.choice((0, 0, 0.1, 0.4)),
         "max": rng.choice((1, 3, 16, 200))}
    if write:
        d["wshort"] = rng.choice((0, 0.2, 0.6))
    return d


def random_bufsize(rng):
    return rng.choice((16, 64, 256, 1024, 4096, 8192))
