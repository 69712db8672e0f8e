"""Step budgets: executed source lines of the code under test (sys.monitoring)."""
import ast
import contextlib
import random
import sys
import zipfile

import env
import loader
from env import SimHang

TOOL = 3


class Counter:
    def __init__(self, budget):
        self.n = 0
        self.budget = budget


@contextlib.contextmanager
def limit(budget):
    mon = sys.monitoring
    c = Counter(budget)
    src = loader.SRC

    def on_line(code, line):
        if not code.co_filename.startswith(src):
            return mon.DISABLE
        c.n += 1
        if c.n > c.budget:
            raise SimHang(f"more than {budget} source lines executed")

    mon.use_tool_id(TOOL, "vgsim")
    try:
        mon.restart_events()
        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.set_events(TOOL, mon.events.LINE)
        yield c
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


_cleanup = {}


def cleanup_lines(path):
    """Source lines on which no memory is asked for, or on which code cleans up and must not fail itself."""
    if path not in _cleanup:
        out = set()
        for n in ast.walk(ast.parse(loader._text.get(path, b""))):
            if isinstance(n, ast.Try):
                out.add(n.lineno)
                for x in n.finalbody:
                    out.update(range(x.lineno, x.end_lineno + 1))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__del__", "close", "release"):
                out.update(range(n.lineno, n.end_lineno + 1))
            elif isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal, ast.Break, ast.Continue)):
                out.add(n.lineno)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("release", "close", "__exit__"):
                out.update(range(n.lineno, n.end_lineno + 1))
        _cleanup[path] = out
    return _cleanup[path]


class interrupt:
    """Counts source lines of the code under test and of zipfile; Ctrl-C (or `exc`) arrives just
    before line number `at` of them, and once more `again` lines later. What a destructor raises
    goes nowhere in Python, so an interruption due inside one (or
    in a generator that is being thrown away) comes after it.
    A MemoryError as `exc` stands for an allocation of this line that fails.
    With `only`, lines of other files do not count.
    With `places`, notes the first, the last and some other number of every source line."""

    def __init__(self, at=None, exc=None, again=None, places=False, only=None):
        self.at = at
        self.exc = exc or KeyboardInterrupt()
        self.again = again
        self.places = places
        self.only = only
        self.seen = {}
        self.n = 0
        self.fired = 0
        self.mark = 0    # I/O operations done when it arrived

    def __enter__(self):
        mine = (loader.SRC, zipfile.__file__)
        skip = loader.SRC + "/xrns/xml/"
        mon = sys.monitoring
        rng = random.Random(1)
        alloc = isinstance(self.exc, MemoryError)

        def on_line(code, line):
            f = code.co_filename
            if not f.startswith(mine) or f.startswith(skip):
                return mon.DISABLE
            if self.only and self.only not in f:
                return mon.DISABLE
            if alloc and (not f.startswith(loader.SRC) or line in cleanup_lines(f)):
                return mon.DISABLE
            self.n += 1
            if self.places:
                key = f"{f[len(loader.SRC) + 1:] if f.startswith(loader.SRC) else 'zipfile'}:{line}"
                s = self.seen.setdefault(key, [self.n, self.n, self.n, 0])
                s[1] = self.n
                s[3] += 1
                if rng.random() * s[3] < 1:
                    s[2] = self.n
            if self.n == self.at:
                if self.dying():
                    self.at += 1
                    return
                if self.fired:
                    self.arrive(self.exc.with_traceback(None))
                    return
                self.fired = self.n
                if env.current is not None:
                    self.mark = len(env.current.trace)
                if self.again:
                    self.at += self.again
                self.arrive(self.exc)

        mon.use_tool_id(TOOL + 1, "vgsim")
        mon.restart_events()
        mon.register_callback(TOOL + 1, mon.events.LINE, on_line)
        mon.set_events(TOOL + 1, mon.events.LINE)
        return self

    def arrive(self, exc):
        if env.current is None or isinstance(exc, MemoryError):
            raise exc
        env.current.interrupt(exc)

    def dying(self):
        if isinstance(sys.exception(), GeneratorExit):
            return True
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_name == "__del__":
                return True
            f = f.f_back
        return False

    def __exit__(self, *a):
        self.seen = {k: v[:3] for k, v in self.seen.items()}
        mon = sys.monitoring
        mon.set_events(TOOL + 1, 0)
        mon.register_callback(TOOL + 1, mon.events.LINE, None)
        mon.free_tool_id(TOOL + 1)
