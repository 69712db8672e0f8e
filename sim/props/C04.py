"""A bad or unreadable input fails the run and leaves outputs untouched."""
import copy
import random

import core
import job as J
import vgmfile
import world
from env import SimCrash
from props import common as c


def damage(data, d):
    b = bytearray(data)
    k = d["kind"]
    n = max(1, len(b))
    if k == "cut":
        return bytes(b[:int(d["u"] * n)])
    if k == "cutend":
        return bytes(b[:max(0, n - d["n"])])
    if k == "flip":
        for u, bit in d["at"]:
            b[int(u * n) % n] ^= 1 << bit
        return bytes(b)
    if k == "flipend":
        b[n - 1 - d["n"] % min(n, 8)] ^= 1 << d["bit"]
        return bytes(b)
    if k == "hole":
        a = int(d["u"] * n)
        e = min(n, a + d["n"])
        b[a:e] = bytes(e - a)
        return bytes(b)
    if k == "swap":
        a = int(d["u"] * n)
        e = min(n - d["n"], a + d["n"])
        if e > a:
            b[a:a + d["n"]], b[e:e + d["n"]] = b[e:e + d["n"]], b[a:a + d["n"]]
        return bytes(b)
    if k == "drop":
        a = int(d["u"] * n)
        del b[a:a + d["n"]]
        return bytes(b)
    raise ValueError(k)


class C04(c.FaultProp):
    id = "C04"
    runs = {"quick": 25500, "thorough": 80000}
    rule = ("one case = one run on an input that is missing, cannot be opened, fails at one of its reads, is no VGM file, or "
            "is damaged gzip data; distinct by (kind of badness, place in 64ths of the data, outputs wanted, ending)")

    def gen(self, rng, i, tier):
        how = rng.choice(("gz", "gz", "gz", "gz", "read", "read", "open", "missing", "magic"))
        log = world.random_log(rng, limit=rng.choice((5, 20, 60, 150)), gz="single" if how == "gz" else None)
        if how == "gz":
            log["gz"].pop("pad", None)
        job = c.random_job(rng, log["ops"], modes=("cli", "main"), p_song=0.3, stdout=0, max_rows=100)
        scn = {"log": log, "job": job, "how": how, "old": c.random_old(rng, job, 0.6), **c.random_machine(rng)}
        if how == "gz":
            k = rng.choice(("cut", "cut", "cutend", "flip", "flip", "flip", "flipend", "hole", "swap", "drop"))
            d = {"kind": k, "u": round(rng.random(), 5)}
            if k == "cutend":
                d["n"] = rng.randint(1, 12)
            elif k == "flipend":
                d["n"], d["bit"] = rng.randrange(8), rng.randrange(8)
            elif k == "flip":
                d["at"] = [[round(rng.random(), 5), rng.randrange(8)] for _ in range(rng.choice((1, 1, 1, 2, 5)))]
            else:
                d["n"] = rng.choice((1, 2, 8, 64))
            scn["damage"] = d
        elif how == "magic":
            scn["magic"] = rng.choice(("flip0", "flip1", "flip2", "flip3", "lower", "empty", "short", "shift", "zip", "text",
                                       "gzflip", "gzempty", "gzshift"))
        elif how == "read":
            scn["picks"] = [{"u": round(rng.random(), 4), "kind": "error", "k": 0, "on": ["in"], "ops": ["read"],
                             "sticky": rng.random() < 0.5}]
        elif how == "open":
            scn["picks"] = [{"u": 0, "kind": "error", "k": rng.randint(0, 4), "on": ["in"], "ops": ["open"]}]
        return scn

    def input(self, scn):
        data = vgmfile.build(scn["log"])
        how = scn["how"]
        if how == "missing":
            return None
        if how == "gz":
            return damage(data, scn["damage"])
        if how == "magic":
            k = scn["magic"]
            plain = vgmfile.build({**scn["log"], "gz": None})
            b = bytearray(plain)
            if k.startswith("flip"):
                b[int(k[4])] ^= 0x20
            elif k == "lower":
                b[:4] = b"vgm "
            elif k == "empty":
                b = b""
            elif k == "short":
                b = b[:3]
            elif k == "shift":
                b = b"\0" + b
            elif k == "zip":
                b = b"PK\x03\x04" + bytes(b[4:])
            elif k == "text":
                b = b"Vgm\n" + bytes(b[4:])
            elif k == "gzflip":
                b[1] ^= 1
                return vgmfile.gzip_bytes(bytes(b), {})
            elif k == "gzempty":
                return vgmfile.gzip_bytes(b"", {})
            elif k == "gzshift":
                return vgmfile.gzip_bytes(b" " + bytes(b), {})
            return bytes(b)
        return data

    def run(self, scn, st):
        good = vgmfile.build(scn["log"])
        data = self.input(scn)
        old = c.old_files(scn)
        files = dict(old)
        if data is not None:
            files[J.IN] = data
        faults = self.resolve(scn) if scn["how"] in ("read", "open") else []
        env, out = J.session(files, scn["job"], faults=faults, **c.machine(scn))
        st.env(env)
        m = c.mdl(scn["log"])
        st.probe(f"{scn['how']}-{out.status}")
        what = scn["how"]
        if what == "gz":
            what += " " + scn["damage"]["kind"]
            st.faults["input-" + scn["damage"]["kind"]] = st.faults.get("input-" + scn["damage"]["kind"], 0) + 1
        place = scn.get("magic") or (int(scn["damage"]["u"] * 64) if "damage" in scn else [f["n"] for f in faults])
        st.key(what, place, sorted(scn["job"].items(), key=str)[:3], out.status)
        if scn["how"] in ("read", "open") and not any(k.startswith(("read-eio", "open-")) for k in env.faults_fired):
            return env.digest()
        after = env.files()
        if data is not None and after.get(J.IN) != data:
            raise core.Violation("C04/input-modified", f"the input file was changed ({what})")
        if out.status == "ok":
            if scn["how"] != "gz":
                raise core.Violation("C04/bad-input-accepted", f"success reported for {what} {scn.get('magic', '')} "
                                                               f"{c.describe(faults)}")
            if data != good:
                d = J.judge_outputs(scn["job"], after, "", m)
                if d:
                    raise core.Violation("C04/bad-input-accepted", f"success reported for damaged gzip data, but {d}")
                st.probe("harmless-damage")
            return env.digest()
        if data == good and scn["how"] == "gz":
            return env.digest()
        before = {p: d for p, d in files.items()}
        if after != before:
            bad = sorted(p for p in set(after) | set(before) if after.get(p) != before.get(p))
            raise core.Violation("C04/output-touched", f"the run failed ({out.name}) on {what}, yet it changed {bad}")
        return env.digest()

    def lists(self, scn):
        out = [["log", "ops"], ["faults"]]
        if scn.get("damage", {}).get("at"):
            out.append(["damage", "at"])
        return out

    def explicit(self, scn):
        if scn["how"] not in ("read", "open"):
            return None
        return super().explicit(scn)


CHECK = C04()
