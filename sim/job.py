"""Runs extractions of the code under test inside an Env and judges their outputs."""
import contextlib
import os
import sys

import loader
import model
from env import ROOT, Env, SimCrash, SimHang

IN, JSON, SONG, CSV = (ROOT + "/in.vgm", ROOT + "/out.json", ROOT + "/out.xrns", ROOT + "/out.csv")
ROLES = {IN: "in", JSON: "json", SONG: "song", CSV: "csv", "<stdout>": "stdout"}


class Outcome:
    def __init__(self, status, exc=None):
        self.status = status  # ok | fail | cancel | crash
        self.exc = exc
        self.open = None

    @property
    def name(self):
        return f"{self.status}" + (f":{type(self.exc).__name__}" if self.exc is not None else "")


def run_script(argv):
    """python src/main.py ... in this process."""
    path = loader.SRC + "/main.py"
    ns = {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__}
    sys.argv = ["main.py"] + argv
    exec(loader.code_for(path), ns)


def api_extract(job):
    import extractors
    import main
    import vgm.core
    from tools import smart_open
    with smart_open(job["in"], "rb") as f:
        st = main.process_vgm_file(vgm.core.reader(f))
    if job.get("json"):
        extractors.extract_instruments(job["json"], st)
    if job.get("song"):
        extractors.extract_tracks_to_xrns(st, job["song"], job["tpn"])
    if job.get("csv"):
        extractors.extract_tracks(st, job["csv"], job["tpn"])
    return st


OPTIONS = {"json": ("-i", "--instrument"), "song": ("-t", "--track"), "tpn": ("-tn", "--ticks-per-note")}


def argv_of(job):
    """The command line; job["argv"] picks among its equal spellings."""
    style = job.get("argv", 0)
    groups = [[job["in"]]]
    for n, k in enumerate(("json", "song", "tpn")):
        if job.get(k) is None or job[k] == "":
            continue
        v = str(job[k])
        s = style >> (2 * n) & 3
        short, long = OPTIONS[k]
        groups.append([short, v] if s < 2 else [long, v] if s == 2 else [f"{long}={v}"])
    if style >> 6 & 1:
        groups = groups[1:] + groups[:1]
    if style >> 7 & 1:
        groups.insert(0, groups.pop(len(groups) // 2))
    return [x for g in groups for x in g]


def row_length(job, mdl):
    """The one given, or the one to be guessed."""
    return job.get("tpn") or model.guess(mdl.onsets)


def call(job):
    mode = job.get("mode", "cli")
    if mode == "cli":
        run_script(argv_of(job))
    elif mode == "main":
        import main
        main.main(job["in"], job.get("json"), job.get("song"), job.get("tpn"))
    else:
        return api_extract(job)


def facts(v):
    """What a reader says of its log."""
    out = []
    for f in (lambda: v.version, lambda: v.size(), lambda: v.clock("ym2151"), lambda: v.clock("ym2413"),
              lambda: v.supports("ym2151"), lambda: v.supports("ym2413"), lambda: v.supports("ym2612")):
        try:
            out.append(f())
        except Exception as e:
            out.append(type(e).__name__)
    return out


def facts_alone(files, path, **kw):
    """The log facts, in a process of its own: before and after the log is read."""
    env = Env(files=files, roles=ROLES, **kw)
    with env.active():
        loader.fresh()
        import tools
        import vgm.core
        with tools.smart_open(path, "rb") as f:
            v = vgm.core.reader(f)
            before = facts(v)
            for cmd in v:
                if type(cmd).__name__ == "EOSCommand":
                    break
            return env, [before, facts(v)]


def named(env, job):
    """The job with its files under the names job["as"] gives them."""
    out = dict(job)
    for k, name in (job.get("as") or {}).items():
        p = job.get(k)
        if p and p != "-" and (name.isascii() or env.encoding == "utf-8"):
            out[k] = os.path.join(os.path.dirname(p), name)
            base = env.cwd or ""
            env.alias[os.path.normpath(os.path.join(base, out[k]))] = os.path.normpath(os.path.join(base, p))
    return out


def attempt(env, job, fn=None):
    """One extraction, called in an active Env. Never lets an outcome escape."""
    exc = None
    if job is not None:
        job = named(env, job)
    try:
        if fn is None:
            call(job)
        else:
            fn()
        status = "ok"
    except SystemExit as e:
        exc = e
        status = "ok" if e.code in (None, 0) else "fail"
    except KeyboardInterrupt as e:
        exc, status = e, "cancel"
    except SimCrash as e:
        exc, status = e, "crash"
    except SimHang:
        raise
    except Exception as e:
        exc, status = e, "fail"
    if fn is None and job.get("mode", "cli") == "cli" and env.task() is None:
        try:
            env.run_at_exit()
        except SimCrash:
            pass
    if env.exit_code is not None:
        status = "fail" if env.exit_code else "ok"
    elif env.dead:
        status = "crash"  # whatever the code did with the exception, the process is gone
    out = Outcome(status, exc)
    out.open = env.open_handles() if not env.dead else []
    out.std_closed = [n for n, s, r in (("stdout", env.stdout, env.stdout_raw), ("stdin", env.stdin, env.stdin_raw))
                      if s.closed or r.closed] if not env.dead else []
    if status == "ok" and env.exit_code is None and not env.flush_stdout():
        out.status = "crash" if env.dead else "fail"
    env.log("outcome", out.status)
    return out


def session(files, job, fresh=True, around=None, **kw):
    """A simulated process: fresh modules, its own Env, one job (within the context manager
    `around`). Returns (env, outcome)."""
    env = Env(files=files, roles=ROLES, **kw)
    with env.active():
        if fresh:
            loader.fresh()
        with around or contextlib.nullcontext():
            out = attempt(env, job)
        if not env.dead:
            try:
                env.run_at_exit()
            except SimCrash:
                pass
    return env, out


def stdout_json(text, want):
    """The instrument document somewhere in what was printed?"""
    import json
    dec = json.JSONDecoder()
    best = "no instrument document on standard output"
    for i, ch in enumerate(text):
        if ch == "[" and (i == 0 or text[i - 1] == "\n"):
            try:
                v, _ = dec.raw_decode(text, i)
            except ValueError:
                continue
            d = model.diff_json(v, want)
            if d is None:
                return None
            best = d
    return best


def judge_outputs(job, files, stdout, mdl, tempo=False):
    """None if every requested output is complete and right, else what is wrong."""
    tpn = row_length(job, mdl) if job.get("song") or job.get("csv") else None
    j = job.get("json")
    if j == "-":
        d = stdout_json(stdout, mdl.json())
        if d:
            return "stdout: " + d
    elif j:
        if j not in files:
            return "instrument file missing"
        try:
            d = model.diff_json(model.read_json(files[j]), mdl.json())
        except model.Unreadable as e:
            return f"instrument file unreadable: {e}"
        if d:
            return "instruments: " + d
    if job.get("song"):
        if job["song"] not in files:
            return "song file missing"
        try:
            got = model.read_song(files[job["song"]])
        except model.Unreadable as e:
            return f"song unreadable: {e}"
        d = model.diff_song(got, mdl.song(tpn), tempo)
        if d:
            return "song: " + d
    if job.get("csv"):
        if job["csv"] not in files:
            return "table missing"
        try:
            d = model.diff_table(model.read_table(files[job["csv"]]), mdl.table(tpn))
        except model.Unreadable as e:
            return f"table unreadable: {e}"
        if d:
            return "table: " + d
    return None


def state_notes(st):
    out = []
    for ch in range(8):
        out.append([(n.sample, n.config_id, n.octave, n.note, n.key_fraction, bool(n.right), bool(n.left))
                    for n in st.key_presses(ch)])
    return out


def diff_notes(got, mdl, voices=range(8)):
    for ch in voices:
        want = mdl.note_tuples(ch)
        g = got[ch]
        if g != want:
            for i, (a, b) in enumerate(zip(g, want)):
                if a != b:
                    return f"voice {ch} event {i}: {a} instead of {b} (time, instrument, octave, note, kf, right, left)"
            return f"voice {ch}: {len(g)} events instead of {len(want)}"
    return None


def configs_json(st):
    """The instrument bank as the tool would write it, read back."""
    import json
    from vgm.ym2151 import config
    return json.loads(json.dumps(st.configs, cls=config.ConfigEncoder))
