"""Pieces shared by the checks."""
import copy
import os

import core
import job as J
import vgmfile
import world
from env import ROOT, Env
from model import Model

DEFAULT_TPNS = (60, 100, 441, 735, 800, 882, 1000, 1470, 2000, 2205, 4410, 5000)


def pick_tpn(rng, ops, max_rows=1500):
    """A row length that keeps the song at a size worth rendering."""
    t = sum(map(vgmfile.dur, ops))
    cands = [p for p in DEFAULT_TPNS + (rng.randint(50, 8000),) if t // p <= max_rows]
    if cands and rng.random() < 0.9:
        return rng.choice(cands)
    return max(rng.randint(3000, 9000), t // max_rows + 1)


def span(ops):
    return sum(map(vgmfile.dur, ops))


def old_content(rng, kind):
    """Something that lay at an output path before."""
    return {"kind": kind, "seed": rng.getrandbits(30)}


_old_cache = {}


def old_bytes(path, spec):
    """Earlier content: junk, empty, or a finished result of another log."""
    import random
    rng = random.Random(spec["seed"])
    k = spec["kind"]
    if k == "empty":
        return b""
    if k == "junk":
        return rng.randbytes(rng.choice((1, 100, 5000, 70000)))
    return finished(path, spec["seed"] % 3)


def finished(path, n):
    """The finished output of one of three fixed other logs, made by the code under test once."""
    key = n
    if key not in _old_cache:
        import random
        rng = random.Random(f"old{n}")
        ops = world.random_ops(rng, limit=60 * (n + 1), timing=world.Timing(rng, "frame"), foreign=False)
        ops += [["w", 8, 0x78], ["t", 0x61, 50], ["w", 8, 0]]
        env, out = J.session({J.IN: vgmfile.build({"ops": ops})},
                             dict(mode="api", **{"in": J.IN}, json=J.JSON, song=J.SONG, csv=J.CSV, tpn=2000))
        _old_cache[key] = env.files() if out.status == "ok" else {}
    return _old_cache[key].get(path, b"[]")


def twin_bytes(data, seed):
    """A finished output of the same size that says something else."""
    import io
    import random
    import re
    import zipfile
    rng = random.Random(seed)

    def alter(text, pattern, chars):
        at = [m.end() - 1 for m in re.finditer(pattern, text)]
        for i in rng.sample(at, min(len(at), rng.choice((1, 1, 4)))):
            text = text[:i] + rng.choice([x for x in chars if x != text[i]]) + text[i + 1:]
        return text
    if data[:2] == b"PK":
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            info = z.infolist()[0]
            xml = z.read(info).decode()
        xml = alter(xml, "<Note>[A-G]" if rng.random() < 0.7 else "<BeatsPerMin>[0-9]", "CDEFGA" if "<Note>" in xml else "123456")
        out = io.BytesIO()
        with zipfile.ZipFile(out, "w", info.compress_type) as z:
            z.writestr(zipfile.ZipInfo(info.filename, info.date_time), xml.encode())
        return out.getvalue()
    text = data.decode("latin-1")
    if text.lstrip()[:1] == "[":
        return alter(text, r'"(?!id)\w+": \d', "123456789").encode("latin-1")
    return alter(text, r"\[\d", "123456789").encode("latin-1")


_clean = {}


def clean_outputs(log, job):
    """What the job leaves on an empty disk."""
    key = core.digest(log, job)
    if key not in _clean:
        if len(_clean) > 8:
            _clean.clear()
        _clean[key] = J.session({J.IN: vgmfile.build(log)}, dict(job, **{"in": J.IN}))[0].files()
    return _clean[key]


def random_old(rng, job, p=0.6):
    out = {}
    for path in (job.get("json"), job.get("song"), job.get("csv")):
        if path and path != "-" and rng.random() < p:
            out[path] = {"kind": rng.choice(("finished", "finished", "junk", "empty", "twin")), "seed": rng.getrandbits(16)}
    return out


def old_files(scn):
    return {p: twin_bytes(clean_outputs(scn["log"], scn["job"]).get(p, b""), s["seed"]) if s["kind"] == "twin" else old_bytes(p, s)
            for p, s in (scn.get("old") or {}).items()}


def random_job(rng, ops, modes=("cli", "main", "api"), p_json=0.9, p_song=0.6, stdout=0.1, max_rows=600):
    mode = rng.choice(modes)
    j = {"mode": mode, "in": J.IN, "tpn": pick_tpn(rng, ops, max_rows)}
    if rng.random() < p_json:
        j["json"] = "-" if rng.random() < stdout else J.JSON
    if rng.random() < p_song:
        j["song"] = J.SONG
    if mode == "api" and rng.random() < 0.6:
        j["csv"] = J.CSV
    if not (j.get("json") or j.get("song") or j.get("csv")):
        j["json"] = J.JSON
    if rng.random() < 0.25:
        j["as"] = {k: rng.choice(NAMES[k]) for k in sorted(NAMES) if rng.random() < 0.6}
    if mode == "cli":
        j["argv"] = rng.choice((0, rng.getrandbits(8)))
    if mode != "api" and rng.random() < (0.04 if j.get("song") else 0.01) and span(ops) < 1000 * max_rows:
        j["tpn"] = None  # to be guessed
    return j


NAMES = {"in": ("log.vgz", "LOG.VGM", "dump", "a.gz", "log.json", "my log.vgm", "100%.vgm", "song.vgm.gz", "音源.vgm"),
         "json": ("bank", "BANK.JSON", "a b.json", "100%.json", "{0}.json", "set.tar.gz", "b" * 200, "bank.xrns.json", ".bank", "音色.json"),
         "song": ("s", "SONG.XRNS", "my song.xrns.zip", "{}.xrns", "%d.xrns", "tune.zip", "t" * 200 + ".xrns", ".s.xrns", "曲.xrns"),
         "csv": ("rows", "ROWS.CSV", "rows.txt", "a,b.csv", "表.csv")}


def relative(job, how, cwd):
    """The same job with its paths as seen from the working directory."""
    if not how or not cwd:
        return job
    keys = (["in"] if how in ("in", "both") else []) + (["json", "song", "csv"] if how in ("out", "both") else [])
    return dict(job, **{k: os.path.relpath(job[k], cwd) for k in keys if job.get(k) and job[k].startswith(ROOT + "/")})


def machine(scn):
    """Env keywords of a scenario."""
    return {"delivery": scn.get("delivery"), "bufsize": scn.get("bufsize"), "clock": scn.get("clock"),
            "tz": scn.get("tz"), "entropy": scn.get("entropy", 0), **scn.get("host", {})}


VARS = {"HOME": ("/root", ROOT, ROOT + "/none", ""), "TMPDIR": ("/tmp", ROOT, "/none"), "LANG": ("C", "ja_JP.SJIS", "de_DE.UTF-8"),
        "LC_ALL": ("C", "POSIX", "tr_TR.UTF-8"), "COLUMNS": ("1", "20", "x"), "LINES": ("1", "5", "x"), "SOURCE_DATE_EPOCH": ("0", "1", "9999999999"),
        "PYTHONIOENCODING": ("ascii",), "NO_COLOR": ("1",), "DEBUG": ("1", "0"), "VERBOSE": ("1",), "USER": ("", "nobody"),
        "XDG_CACHE_HOME": (ROOT + "/cache",), "PWD": ("/", "/gone")}


def random_host(rng):
    """What the surroundings set: locale encoding, environment variables, python -O."""
    h = {"encoding": rng.choice(("utf-8", "ascii", "latin-1", "cp1252", "cp932"))}
    if rng.random() < 0.3:
        h["read_only"] = True
    if rng.random() < 0.3:
        h["cpus"] = rng.choice((1, 2, 64))
    if rng.random() < 0.3:
        h["tty"] = rng.choice(([80, 24], [20, 5], [0, 0]))
    if rng.random() < 0.3:
        h["user"] = rng.choice(([0, "root", "localhost"], [1000, "me", "box.example.org"], [65534, "nobody", "(none)"]))
    if rng.random() < 0.3:
        h["age"] = rng.choice((0, -86400, 1, 3.2e8, 1e9))
    if rng.random() < 0.5:
        h["optimize"] = rng.choice((1, 1, 2))
    if rng.random() < 0.5:
        h["vars"] = {k: rng.choice(VARS[k]) for k in rng.sample(sorted(VARS), rng.randint(1, 4))}
    return h


def random_machine(rng, write=True, p_host=0.1):
    m = {"delivery": world.random_delivery(rng, write), "bufsize": world.random_bufsize(rng)}
    if rng.random() < p_host:
        m["host"] = random_host(rng)
    return m


def place(picks, trace):
    """Turn picks {u, kind, ...} into faults on operations the dry run performed."""
    out = []
    for p in picks:
        cand = [t for t in trace if eligible(p, t)]
        if not cand:
            continue
        label, op, n, size = cand[int(p["u"] * len(cand)) % len(cand)]
        f = {"label": label, "op": op, "n": n, "kind": kind_for(p, op)}
        if op == "write" and p.get("part"):
            f["part"] = p["part"]
        if p.get("sticky"):
            f["sticky"] = True
        out.append(f)
    return out


def eligible(p, t):
    label, op, n, size = t
    if p.get("on") and label not in p["on"]:
        return False
    if p.get("ops") and op not in p["ops"]:
        return False
    if p["kind"] in ("cancel", "nomem") and op == "close":
        return False
    return True


KINDS = {"open": ("eacces", "emfile", "enospc", "erofs", "eio"), "read": ("eio",),
         "write": ("enospc", "eio", "edquot", "epipe"), "close": ("eio", "enospc", "edquot"), "fsync": ("eio", "enospc"),
         "rename": ("eio", "enospc"), "remove": ("eio",)}


def kind_for(p, op):
    if p["kind"] != "error":
        return p["kind"]
    ks = KINDS[op]
    return ks[p.get("k", 0) % len(ks)]


def random_pick(rng, kind="error", **kw):
    p = {"u": round(rng.random(), 4), "kind": kind, "k": rng.randint(0, 9)}
    if rng.random() < 0.6:
        p["part"] = rng.choice((0.01, 0.3, 0.5, 0.9, 1.0))
    if kind == "error" and rng.random() < 0.4:
        p["sticky"] = True
    p.update(kw)
    return p


def describe(faults):
    return ", ".join(f"{f['kind']} at {f['op']} {f['n']} of {f['label']}" for f in faults) or "no fault"


def mdl(log):
    return Model(log["ops"])


def read_state(log_or_bytes, scn, path=J.IN, fresh=True, faults=()):
    """Reader + State inside an Env; -> (env, outcome, state)."""
    import loader
    data = log_or_bytes if isinstance(log_or_bytes, bytes) else vgmfile.build(log_or_bytes)
    env = Env(files={path: data}, roles=J.ROLES, faults=faults, **machine(scn))
    box = {}

    def go():
        box["st"] = J.api_extract({"in": path})
    with env.active():
        if fresh:
            loader.fresh()
        out = J.attempt(env, {}, go)
    return env, out, box.get("st")


class FaultProp(core.Prop):
    """Checks whose faults are placed on the operations of a dry run."""

    def lists(self, scn):
        return [["log", "ops"], ["faults"], ["picks"]]

    def explicit(self, scn):
        if not scn.get("picks"):
            return None
        s = copy.deepcopy(scn)
        s["faults"] = self.resolve(scn)
        s["picks"] = []
        return s

    def resolve(self, scn):
        if scn.get("faults") is not None:
            return scn["faults"]
        data = vgmfile.build(scn["log"])
        env, _ = J.session(dict(old_files(scn), **{J.IN: data}), scn["job"], **machine(scn))
        return place(scn.get("picks", []), env.trace)

    def simpler(self, scn):
        yield from core.Prop.simpler(self, scn)
        for k in ("song", "csv", "json"):
            if scn["job"].get(k) and sum(bool(scn["job"].get(x)) for x in ("song", "csv", "json")) > 1:
                s = copy.deepcopy(scn)
                del s["job"][k]
                yield s


# -- stepwise runs ------------------------------------------------------------------

def stepwise(env, path, ops, hook):
    """Reads commands one by one from the simulated stream into a State, as the tool
    does, and calls hook(k, op, model, state) after each. Returns the State, or None
    if the code under test has no such steps."""
    import vgm.core
    from tools import smart_open
    from vgm.command import WaitCommand
    from vgm.ym2151.config import YM2151Command
    from vgm.ym2151.state import State
    st = State()
    if not (hasattr(st, "apply") and hasattr(st, "beat")):
        return None
    m = Model()
    with smart_open(path, "rb") as f:
        it = iter(vgm.core.reader(f))
        for k, op in enumerate(ops):
            try:
                cmd = next(it)
                if isinstance(cmd, YM2151Command):
                    st.apply(cmd)
                elif isinstance(cmd, WaitCommand):
                    st.beat(cmd.samples)
            except StopIteration:
                raise core.Violation("ended", f"the reader ended before command {k} of {len(ops)}")
            except Exception as e:
                # either broken, then the whole extraction will show it, or not to be stepped from outside
                raise core.Violation("unsteppable", f"command {k} of {len(ops)}: {type(e).__name__}: {e}")
            m.step(op)
            hook(k, op, m, st)
    return st


def run_stepwise(scn, hook, st):
    import loader
    log = scn["log"]
    env = Env(files={J.IN: vgmfile.build(log)}, roles=J.ROLES, **machine(scn))
    try:
        with env.active():
            loader.fresh()
            stepwise(env, J.IN, log["ops"], hook)
    except core.Violation as v:
        if v.cls != "unsteppable":
            raise
        st.probe("unsteppable")
    st.env(env)
    return env


def full(scn, st, csv=False, song=False):
    """A whole extraction by the API with all that an observer can see of it:
    notes per voice, and the instrument file read back."""
    import loader
    import model
    log = scn["log"]
    env = Env(files={J.IN: vgmfile.build(log)}, roles=J.ROLES, **machine(scn))
    box = {}
    job = {"in": J.IN, "json": J.JSON}

    def go():
        box["st"] = J.api_extract(job)
        box["notes"] = J.state_notes(box["st"])
    with env.active():
        loader.fresh()
        out = J.attempt(env, {}, go)
    st.env(env)
    box["env"], box["out"] = env, out
    if out.status == "ok":
        try:
            box["bank"] = model.read_json(env.files().get(J.JSON, b""))
        except model.Unreadable as e:
            raise core.Violation("unreadable", f"instrument file: {e}")
    return box


def strip_id(inst):
    return {k: v for k, v in inst.items() if k != "id"} if isinstance(inst, dict) else inst


def bank_by_id(bank):
    out = {}
    for i, b in enumerate(bank):
        out[b.get("id", i) if isinstance(b, dict) else i] = strip_id(b)
    return out
