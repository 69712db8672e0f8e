"""Reference model: what a log means, written down independently of /repo.

The chip is 256 raw register bytes; nothing is decoded until a key-on, when the
sound settings are read out of the raw bytes (YM2151 register map).  Works on the
recorder's operations, not on bytes, so it shares no framing with the reader.
"""
import io
import json
import xml.etree.ElementTree as ET
import zipfile

WAVES = ("SAW", "SQUARE", "TRIANGLE", "NOISE")
OPNAMES = ("MOD1", "CAR1", "MOD2", "CAR2")
NAMES_X = ("C#", "D-", "D#", "D#", "E-", "F-", "F#", "F#", "G-", "G#", "A-", "A#", "A#", "B-", "C-", "C#")
NAMES_C = ("C#", "D ", "D#", "D?", "E ", "F ", "F#", "F?", "G ", "G#", "A ", "A?", "A#", "B ", "C ", "C?")


def bits(v, hi, lo):
    return (v >> lo) & ((1 << (hi - lo + 1)) - 1)


class Chip:
    def __init__(self):
        self.reg = bytearray(256)
        self.pmd = 0
        self.amd = 0

    def write(self, r, v):
        if r == 0x19:
            if v & 0x80:
                self.pmd = v & 0x7F
            else:
                self.amd = v
        self.reg[r] = v

    def operator(self, ch, slot):
        g = lambda base: self.reg[base + 8 * slot + ch]
        return {
            "dt1": bits(g(0x40), 6, 4), "mul": bits(g(0x40), 3, 0),
            "tl": bits(g(0x60), 6, 0),
            "ks": bits(g(0x80), 7, 6), "ar": bits(g(0x80), 4, 0),
            "ase": bool(bits(g(0xA0), 7, 7)), "d1r": bits(g(0xA0), 4, 0),
            "dt2": bits(g(0xC0), 7, 6), "d2r": bits(g(0xC0), 4, 0),
            "d1l": bits(g(0xE0), 7, 4), "rr": bits(g(0xE0), 3, 0),
        }

    def sound(self, ch, mask):
        r = self.reg
        noise = r[0x0F] if ch == 7 else 0
        return {
            "base": {"waveform": WAVES[r[0x1B] & 3], "lfo": r[0x18], "amp_md": self.amd, "phs_md": self.pmd},
            "operators": "|".join(n for i, n in enumerate(OPNAMES) if mask >> i & 1),
            "channel": {
                "feedback": bits(r[0x20 + ch], 5, 3), "connection": bits(r[0x20 + ch], 2, 0),
                "pms": bits(r[0x38 + ch], 6, 4), "ams": bits(r[0x38 + ch], 1, 0),
                "noise": bool(noise & 0x80), "noise_freq": noise & 0x1F,
                "m1": self.operator(ch, 0), "m2": self.operator(ch, 1),
                "c1": self.operator(ch, 2), "c2": self.operator(ch, 3),
            },
        }

    def pitch(self, ch):
        r = self.reg
        return {
            "octave": bits(r[0x28 + ch], 6, 4), "note": bits(r[0x28 + ch], 3, 0),
            "key_fraction": bits(r[0x30 + ch], 7, 2),
            "right": bool(r[0x20 + ch] & 0x80), "left": bool(r[0x20 + ch] & 0x40),
        }


class Model:
    def __init__(self, ops=()):
        self.chip = Chip()
        self.time = 0
        self.bank = []
        self._index = {}
        self.notes = [[] for _ in range(8)]
        self.started = False
        self.onsets = set()
        for op in ops:
            self.step(op)

    def step(self, op):
        if op[0] == "t":
            self.time += op[2]
        elif op[0] == "w":
            r, v = op[1], op[2]
            if r == 0x08:
                self.key(v)
            else:
                self.chip.write(r, v)
        elif op[0] == "x":
            if all(o[0] == "t" for o in op[2]):
                self.time += op[1] * sum(o[2] for o in op[2])
            else:
                for _ in range(op[1]):
                    for o in op[2]:
                        self.step(o)

    def key(self, v):
        ch, mask = v & 7, (v >> 3) & 15
        cfg = -1
        if mask:
            self.started = True
            self.onsets.add(self.time)
            s = self.chip.sound(ch, mask)
            k = json.dumps(s, sort_keys=True)
            cfg = self._index.setdefault(k, len(self.bank))
            if cfg == len(self.bank):
                self.bank.append(s)
        if self.started:
            n = self.chip.pitch(ch)
            n["sample"] = self.time
            n["config"] = cfg
            self.notes[ch].append(n)

    # -- expected outputs
    def json(self):
        return [dict(s, id=i) for i, s in enumerate(self.bank)]

    def note_tuples(self, ch):
        return [note_tuple(n) for n in self.notes[ch]]

    def last_in_row(self, tpn):
        rows = {}
        for ch in range(8):
            for n in self.notes[ch]:
                rows[(n["sample"] // tpn, ch)] = n
        return rows

    def song(self, tpn):
        cells = {}
        top = -1
        for (row, ch), n in self.last_in_row(tpn).items():
            top = max(top, row // 64)
            if n["config"] < 0:
                note, ins = "Off", None
            else:
                note = NAMES_X[n["note"]] + str(n["octave"] + (1 if n["note"] == 14 else 0))
                ins = "%02X" % n["config"]
            pan = None if n["right"] and n["left"] else "00" if n["right"] else "F0"
            cells[(row // 64, ch, row % 64)] = (note, ins, pan)
        return {
            "cells": cells, "patterns": top + 1, "sequence": list(range(top + 1)),
            "instruments": len(self.bank), "bpm": bpm(tpn), "lpb": 4, "tracks": 8,
        }

    def table(self, tpn):
        rows = self.last_in_row(tpn)
        if not rows:
            return []
        out = []
        for row in range(max(r for r, _ in rows) + 1):
            cells = []
            for ch in range(8):
                n = rows.get((row, ch))
                cells.append("" if n is None else csv_note(n))
            out.append([str(row % 64), str(row // 64), str(row)] + cells)
        return out


def bpm(tpn):
    """Whole beats per minute when a beat is 4 rows of tpn samples at 44100 Hz."""
    return (44100 * 60) // (4 * tpn)


def misses(onsets, window=32000):
    """(key-on times in the window, {row length: how often the song does not match itself at that distance})."""
    t = sorted(x for x in onsets if x < window)
    ts, last = set(t), t[-1] if t else 0
    return t, {shift: sum(1 for x in t if x - shift not in ts) + sum(1 for x in t if x + shift <= last and x + shift not in ts)
               for shift in range(1000, 8000)}


def guess(onsets, window=32000):
    """Row length that a song without a given one gets."""
    t, lone = misses(onsets, window)
    return min(lone, key=lambda s: (lone[s], s))


def estimates(onsets):
    """The ten best row lengths and the share (%) by which the song matches itself."""
    t, lone = misses(onsets)
    return [(s, 100 * (1 - lone[s] / abs(2 * len(t) - 1))) for s in sorted(lone, key=lambda s: (lone[s], s))[:10]]


def note_tuple(n):
    on = n["config"] >= 0
    return (n["sample"], n["config"], n["octave"], n["note"], n["key_fraction"], n["right"], n["left"]) if on else \
        (n["sample"], -1, n["octave"], n["note"], n["key_fraction"], n["right"], n["left"])


def csv_note(n):
    if n["config"] < 0:
        return "Key Off"
    kf = "-%02.0f" % (n["key_fraction"] * 1.6) if n["key_fraction"] > 1 else ""
    pan = "" if n["right"] and n["left"] else "Pan R" if n["right"] else "Pan L"
    return "%s-%d%s [%d] %s" % (NAMES_C[n["note"]], n["octave"], kf, n["config"], pan)


# -- reading outputs back ---------------------------------------------------

class Unreadable(Exception):
    pass


def read_json(data):
    try:
        v = json.loads(data.decode("utf-8"))
    except ValueError as e:
        raise Unreadable(str(e))
    return v


def read_song(data):
    """Parses an .xrns. Unreadable if it is not an archive with an intact Song.xml."""
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            xml = z.read("Song.xml")
        root = ET.fromstring(xml)
    except Exception as e:  # any refusal to read is a refusal
        raise Unreadable(f"{type(e).__name__}: {e}")
    if root.tag != "RenoiseSong":
        raise Unreadable("not a RenoiseSong")

    def txt(e, path):
        x = e.find(path)
        return None if x is None else x.text

    def num(e, path):
        t = txt(e, path)
        try:
            return int(t)
        except (TypeError, ValueError):
            return t

    cells, stray = {}, []
    pats = root.findall("PatternPool/Patterns/Pattern")
    tracks = len(root.findall("Tracks/SequencerTrack"))
    for p, pat in enumerate(pats):
        tr = pat.findall("Tracks/PatternTrack")
        if len(tr) != 8:
            stray.append(f"pattern {p} has {len(tr)} tracks")
        n = num(pat, "NumberOfLines")
        if n not in (None, 64):
            stray.append(f"pattern {p} has {n} lines")
        for c, t in enumerate(tr):
            for line in t.findall("Lines/Line"):
                idx = line.get("index")
                idx = int(idx) if idx is not None and idx.lstrip("-").isdigit() else idx
                key = (p, c, idx)
                cols = line.findall("NoteColumns/NoteColumn")
                if key in cells:
                    stray.append(f"two lines at {key}")
                if len(cols) != 1:
                    stray.append(f"{len(cols)} note columns at {key}")
                    if not cols:
                        continue
                col = cols[0]
                cells[key] = (txt(col, "Note"), txt(col, "Instrument"), txt(col, "Panning"))
                extra = [x.tag for x in col if x.tag not in ("Note", "Instrument", "Panning")]
                if extra:
                    stray.append(f"{extra} at {key}")
        for other in ("PatternMasterTrack", "PatternSendTrack", "PatternGroupTrack"):
            for t in pat.findall("Tracks/" + other):
                if t.findall(".//Line"):
                    stray.append(f"lines in {other} of pattern {p}")
    seq = [num(e, "Pattern") for e in root.findall("PatternSequence/SequenceEntries/SequenceEntry")]
    return {
        "cells": cells, "patterns": len(pats), "sequence": seq, "tracks": tracks,
        "instruments": len(root.findall("Instruments/Instrument")),
        "bpm": num(root, "GlobalSongData/BeatsPerMin"), "lpb": num(root, "GlobalSongData/LinesPerBeat"),
        "stray": stray,
    }


def read_table(data):
    """CSV -> rows [[row in pattern, pattern, row, ch1..ch8]] (the Samples and Fraction columns are informal)."""
    try:
        lines = data.decode("utf-8").split("\n")
    except ValueError as e:
        raise Unreadable(str(e))
    if lines[-1] != "":
        raise Unreadable("last line not ended")
    lines = lines[:-1]
    if not lines:
        raise Unreadable("no header")
    head = lines[0].split(",")
    want = ["Samples", "Row", "Pattern", "Total Row", "Fraction"] + [f"Channel {i}" for i in range(1, 9)]
    if head != want:
        raise Unreadable(f"header {head}")
    out = []
    for ln in lines[1:]:
        c = ln.split(",")
        if len(c) != 13:
            raise Unreadable(f"{len(c)} columns: {ln}")
        out.append(c[1:4] + c[5:])
    return out


def diff_json(got, want):
    if got == want:
        return None
    if not isinstance(got, list):
        return f"instrument file is {type(got).__name__}"
    if len(got) != len(want):
        return f"{len(got)} instruments instead of {len(want)}"
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return f"instrument {i}: " + diff_value(a, b)
    return "differs"


def diff_value(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k, "(none)") != b.get(k, "(none)"):
                return diff_value(a.get(k, "(none)"), b.get(k, "(none)"), f"{path}/{k}")
    return f"{path or 'value'} is {a!r} instead of {b!r}"


def diff_song(got, want, tempo=False):
    """tempo=False leaves the exact tempo to C16 and only wants it near."""
    if got["stray"]:
        return got["stray"][0]
    if not tempo and (not isinstance(got["bpm"], int) or abs(got["bpm"] - want["bpm"]) > 1):
        return f"tempo {got['bpm']} instead of {want['bpm']}"
    for k in ("tracks", "instruments", "patterns", "sequence") + (("bpm", "lpb") if tempo else ()):
        if got[k] != want[k]:
            return f"{k}: {str(got[k])[:80]} instead of {str(want[k])[:80]}"
    a, b = got["cells"], want["cells"]
    if a != b:
        for k in sorted(set(a) | set(b), key=repr):
            if a.get(k) != b.get(k):
                return f"pattern {k[0]} track {k[1]} row {k[2]}: {a.get(k)} instead of {b.get(k)}"
    return None


def diff_table(got, want):
    if len(got) != len(want):
        return f"{len(got)} lines instead of {len(want)}"
    for a, b in zip(got, want):
        if a != b:
            return f"line {a} instead of {b}"
    return None
