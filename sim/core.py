"""Results, statistics and minimisation shared by all checks."""
import copy
import hashlib
import itertools
import json


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class Stats:
    """Measured over the runs of one check; never feeds back into the runs."""

    def __init__(self):
        self.runs = 0            # scenarios
        self.processes = 0       # simulated processes (extractions) executed
        self.sim_seconds = 0.0   # song time + simulated wall time
        self.faults = {}
        self.probes = {}
        self.keys = set()        # distinct non-trivial cases by the check's rule
        self.io_ops = 0
        self.switches = 0

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def env(self, env):
        self.processes += 1
        self.sim_seconds += env.clock.elapsed
        self.io_ops += env.nops
        for k, v in env.faults_fired.items():
            self.faults[k] = self.faults.get(k, 0) + v
        if env.clock.jumped:
            self.faults["clock-jump"] = self.faults.get("clock-jump", 0) + env.clock.jumped

    def song(self, samples):
        self.sim_seconds += samples / 44100

    def key(self, *parts):
        self.keys.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def dump(self):
        return {"runs": self.runs, "processes": self.processes, "sim_seconds": self.sim_seconds, "faults": self.faults,
                "probes": self.probes, "keys": sorted(self.keys), "io_ops": self.io_ops, "switches": self.switches}

    @staticmethod
    def merge(dumps):
        s = Stats()
        for d in dumps:
            s.runs += d["runs"]
            s.processes += d["processes"]
            s.sim_seconds += d["sim_seconds"]
            s.io_ops += d["io_ops"]
            s.switches += d["switches"]
            s.keys.update(d["keys"])
            for a in ("faults", "probes"):
                for k, v in d[a].items():
                    getattr(s, a)[k] = getattr(s, a).get(k, 0) + v
        return s


def get_path(scn, path):
    x = scn
    for p in path:
        x = x[p]
    return x


def with_path(scn, path, val):
    s = copy.deepcopy(scn)
    x = s
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = val
    return s


def ddmin_list(scn, path, test, budget):
    """Shrink the list at path while test(scn) holds."""
    items = get_path(scn, path)
    n = 2
    if items and budget[0] > 0:
        cand = with_path(scn, path, [])
        budget[0] -= 1
        if test(cand):
            return cand
    while len(items) >= 2 and budget[0] > 0:
        size = max(1, len(items) // n)
        hit = False
        i = 0
        while i < len(items) and budget[0] > 0:
            rest = items[:i] + items[i + size:]
            cand = with_path(scn, path, rest)
            budget[0] -= 1
            if test(cand):
                scn, items, hit = cand, rest, True
                n = max(n - 1, 2)
            else:
                i += size
        if not hit:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return scn


def shrink(scn, prop, test, budget):
    """Greedy: simplifications, then list shrinking, until nothing helps."""
    b = [budget]
    changed = True
    while changed and b[0] > 0:
        changed = False
        for path in prop.lists(scn):
            try:
                before = len(get_path(scn, path))
            except (KeyError, IndexError, TypeError):
                continue
            scn = ddmin_list(scn, path, test, b)
            try:
                if len(get_path(scn, path)) < before:
                    changed = True
            except (KeyError, IndexError, TypeError):
                pass
        for cand in itertools.chain(simpler_keys(scn, [], {"host": None}), simpler_host(scn), simpler_keys(scn, ["job"], {"as": None}), prop.simpler(scn)):
            if b[0] <= 0:
                break
            if cand == scn:
                continue
            b[0] -= 1
            if test(cand):
                scn = cand
                changed = True
                break
    return scn


def simpler_ops(scn, path):
    """Smaller arguments for single operations of a log."""
    try:
        ops = get_path(scn, path)
    except (KeyError, IndexError, TypeError):
        return
    if len(ops) > 40:
        return
    for i, op in enumerate(ops):
        if op[0] == "w" and op[2] not in (0, 0x78 | op[2] & 7) and op[1] != 8:
            yield with_path(scn, path, ops[:i] + [["w", op[1], 0]] + ops[i + 1:])
        if op[0] == "w" and op[1] == 8 and op[2] & ~7 not in (0, 0x78):
            yield with_path(scn, path, ops[:i] + [["w", 8, 0x78 | op[2] & 7]] + ops[i + 1:])
        if op[0] == "t" and op[1] != 0x61:
            yield with_path(scn, path, ops[:i] + [["t", 0x61, op[2]]] + ops[i + 1:])
        if op[0] == "t" and op[1] == 0x61 and op[2] > 1:
            for v in (1, op[2] // 2, op[2] - 1):
                yield with_path(scn, path, ops[:i] + [["t", 0x61, v]] + ops[i + 1:])
        if op[0] == "x" and op[1] > 1:
            for v in (1, op[1] // 2, op[1] - op[1] // 10, op[1] - 1):
                yield with_path(scn, path, ops[:i] + [["x", v, op[2]]] + ops[i + 1:])
        if op[0] == "blk" and op[2] > 0:
            for v in (0, op[2] // 2, op[2] - 1):
                yield with_path(scn, path, ops[:i] + [["blk", op[1], v, op[3], op[4]]] + ops[i + 1:])


def simpler_keys(scn, path, options):
    """options: {key: simple value or None to delete}."""
    try:
        d = get_path(scn, path) if path else scn
    except (KeyError, IndexError, TypeError):
        return
    for k, v in options.items():
        if k in d and d[k] != v:
            s = copy.deepcopy(scn)
            x = get_path(s, path) if path else s
            if v is None:
                del x[k]
            else:
                x[k] = v
            yield s


def simpler_host(scn):
    if isinstance(scn.get("host"), dict):
        yield from simpler_keys(scn, ["host"], {"vars": None, "optimize": None, "encoding": None})


class Prop:
    """A property's check. Subclasses give gen() and run()."""
    id = None
    runs = {"quick": 200, "thorough": 4000}
    level = "exploration"
    address_space = 12 << 30
    rule = ""
    real = ["all of /repo/src", "io.Buffered*/TextIOWrapper", "gzip", "zipfile", "json", "xsdata"]
    stubs = ["raw files/pipes/standard streams", "os file calls", "clock", "entropy", "time zone"]

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, scn, st):
        """Raises Violation; returns a digest of the event log."""
        raise NotImplementedError

    def lists(self, scn):
        return [["log", "ops"], ["faults"]]

    def simpler(self, scn):
        yield from simpler_keys(scn, [], {"delivery": None, "bufsize": 8192, "clock": None, "tz": None, "old": None,
                                          "disk_free": None})
        yield from simpler_keys(scn, ["log"], {"gz": None, "tail": None, "end": True, "hdr": {"version": 151}})
        yield from simpler_ops(scn, ["log", "ops"])

    def specials(self, tier):
        """Fixed scenarios run first (index -1, -2, ...)."""
        return []

    def sample(self, scn):
        s = json.dumps(scn)
        return scn if len(s) < 1500 else {"abridged": s[:1200] + "..."}


def digest(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=12).hexdigest()
