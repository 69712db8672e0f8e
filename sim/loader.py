"""Imports the code under test from /repo/src, freshly for every simulated process."""
import importlib.abc
import importlib.util
import marshal
import os
import sys

REPO = os.environ.get("VGSIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
KEEP = "xrns.xml"  # 22k lines of generated data classes: loaded once per worker

_text, _code = {}, {}
COLD = [False]
OPTIMIZE = 0


def code_for(path):
    if path not in _text:
        with open(path, "rb") as f:
            _text[path] = f.read()
    key = path, OPTIMIZE
    if key not in _code:
        _code[key] = compile(_text[path], path, "exec", dont_inherit=True, optimize=OPTIMIZE)
    return _code[key]


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = code_for(self.path)
        if COLD[0]:
            # code objects without the interpreter's adaptive state of earlier runs,
            # so that bytecode counts repeat exactly
            code = marshal.loads(marshal.dumps(code))
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        base = os.path.join(SRC, *name.split("."))
        if base + ".py" in _files:
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py"))
        init = os.path.join(base, "__init__.py")
        if init in _files:
            return importlib.util.spec_from_file_location(
                name, init, loader=Loader(init), submodule_search_locations=[base])
        if os.path.isdir(base) and base in _dirs:
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


_files, _dirs = set(), set()


def install():
    for d, ds, fs in os.walk(SRC):
        if "__pycache__" in d:
            continue
        got = [os.path.join(d, f) for f in fs if f.endswith(".py")]
        _files.update(got)
        if got and d != SRC:
            _dirs.add(d)
    if not _files:
        raise SystemExit(f"no sources under {SRC}")
    sys.meta_path.insert(0, Finder())
    import xrns.xml.song.renoise_song65  # noqa: F401  (kept)
    for f in sorted(_files):
        if f"{os.sep}xrns{os.sep}xml{os.sep}" not in f:
            code_for(f)


def _ours(m):
    f = getattr(m, "__file__", None)
    return bool(f) and f.startswith(SRC + os.sep)


def fresh(cold=False):
    """Forget every module of the code under test (a new process), and load again."""
    COLD[0] = cold
    for name, m in list(sys.modules.items()):
        if _ours(m) and not (name == KEEP or name.startswith(KEEP + ".")):
            del sys.modules[name]
    import xrns
    if KEEP in sys.modules:
        xrns.xml = sys.modules[KEEP]
    import main
    return main


def take():
    """The modules of the code under test in this process, taken out of sys.modules."""
    out = {}
    for name, m in list(sys.modules.items()):
        if _ours(m) and not (name == KEEP or name.startswith(KEEP + ".")):
            out[name] = sys.modules.pop(name)
    return out


def put(mods):
    take()
    sys.modules.update(mods)
