"""The simulated machine: disk, pipes, standard streams, clock, entropy, death.

Everything the extractor can see of the outside world goes through one `Env`.
`Env.active()` installs the seams (builtins.open, io.open, the os file calls,
sys.std*, time, datetime, random/os.urandom) for the duration of a run.
Paths under ROOT live on the simulated disk. Other paths are read through to the real
one, but whatever the code would write there stays in the simulation (an overlay).
"""
import atexit
import builtins
import contextlib
import datetime as _dt
import errno
import fcntl
import gc
import hashlib
import io
import locale
import logging
import mmap
import os
import platform
import random
import shutil
import signal
import socket
import stat as _stat
import sys
import tempfile
import time
import weakref

import loader

ROOT = "/simdisk"
this = sys.modules[__name__]
current = None  # the Env that is active
FD0 = 10_000_000

_real = {
    "open": io.open,
    "perf_counter": time.perf_counter,
    "urandom": os.urandom,
    "getcwd": os.getcwd,
    "isdir": os.path.isdir,
    "mmap": mmap.mmap,
    "flock": fcntl.flock,
    "fcntl": fcntl.fcntl,
}
STD = {"/dev/stdin": 0, "/dev/fd/0": 0, "/proc/self/fd/0": 0, "/dev/stdout": 1, "/dev/fd/1": 1, "/proc/self/fd/1": 1}


class SimCrash(BaseException):
    """The simulated process (or machine) died here."""


class SimHang(BaseException):
    """The step budget is used up."""


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


ERRNO = {
    "eio": errno.EIO,
    "enospc": errno.ENOSPC,
    "edquot": errno.EDQUOT,
    "epipe": errno.EPIPE,
    "eacces": errno.EACCES,
    "emfile": errno.EMFILE,
    "enoent": errno.ENOENT,
    "erofs": errno.EROFS,
}


def oserror(kind, path=None):
    n = ERRNO[kind]
    return OSError(n, os.strerror(n), path)


class Node:
    __slots__ = ("data", "durable", "mtime", "ino", "mode")

    def __init__(self, data=b"", durable=None, mtime=0.0, ino=0):
        self.data = bytearray(data)
        self.durable = durable  # content known to be on the platter, None = no file
        self.mtime = mtime
        self.ino = ino
        self.mode = 0o644


class SimRaw(io.RawIOBase):
    """One open file description of the simulated machine."""

    def __init__(self, env, path, node, label, read, write, append=False, seekable=True, fd=None):
        self._env = env
        self._path = path
        self._node = node
        self._label = label
        self._r = read
        self._w = write
        self._a = append
        self._seek = seekable
        self._pos = 0
        self._fd = fd
        self._task = env.task()
        self.name = path
        self.mode = ("rb+" if write else "rb") if read else "wb"
        env.handles[id(self)] = self

    # -- plain properties
    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return self._seek

    def isatty(self):
        return bool(self._env.tty) and self._label in ("stdin", "stdout") and not (self._label == "stdin" and self._env.stdin_data)

    def fileno(self):
        if self._fd is None:
            self._fd = self._env.new_fd(self)
        return self._fd

    # -- I/O
    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._r:
            raise io.UnsupportedOperation("read")
        env = self._env
        if self._task in env.dead_tasks:
            raise SimCrash
        limit = env.io_op(self._label, "read", len(b), self._path)
        avail = len(self._node.data) - self._pos
        n = max(0, min(len(b), avail))
        if limit is not None and n > 0:
            n = min(n, max(1, limit))
        b[:n] = self._node.data[self._pos:self._pos + n]
        self._pos += n
        if n == 0:
            env.eof_reads += 1
            if env.eof_reads > env.max_eof_reads:
                raise SimHang(f"{env.eof_reads} reads at end of data")
        env.log("r", self._label, n)
        return n

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._w:
            raise io.UnsupportedOperation("write")
        env = self._env
        if self._task in env.dead_tasks:
            raise SimCrash
        mv = memoryview(b).cast("B")
        limit = env.io_op(self._label, "write", len(mv), self._path, raw=self, buf=mv)
        n = len(mv)
        if limit is not None and n > 0:
            n = min(n, max(1, limit))
        n = self._store(mv[:n])
        env.log("w", self._label, n)
        return n

    def _store(self, mv):
        env, node = self._env, self._node
        pos = len(node.data) if self._a else self._pos
        n = len(mv)
        if env.disk_free is not None and self._label != "stdout":
            grow = pos + n - len(node.data)
            if grow > env.disk_free:
                n -= grow - env.disk_free
                if n <= 0:
                    env.fired("disk-full")
                    raise oserror("enospc", self._path)
                env.fired("disk-full-partial")
                grow = pos + n - len(node.data)
            env.disk_free -= max(0, grow)
        if pos > len(node.data):
            node.data.extend(b"\0" * (pos - len(node.data)))
        node.data[pos:pos + n] = mv[:n]
        node.mtime = env.clock.t
        self._pos = pos + n
        env.written += n
        return n

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._seek:
            raise OSError(errno.ESPIPE, os.strerror(errno.ESPIPE))
        if self._env.dead:
            raise SimCrash
        if whence == 0:
            p = off
        elif whence == 1:
            p = self._pos + off
        else:
            p = len(self._node.data) + off
        if p < 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        self._pos = p
        return p

    def tell(self):
        if not self._seek:
            raise OSError(errno.ESPIPE, os.strerror(errno.ESPIPE))
        return self._pos

    def truncate(self, size=None):
        if self._env.dead or self._task in self._env.dead_tasks:
            raise SimCrash
        if size is None:
            size = self._pos
        d = self._node.data
        self._node.mtime = self._env.clock.t
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        return size

    def _dealloc_warn(self, source):
        self._gc_close = True

    def close(self):
        if self.closed:
            return
        env = self._env
        leaked = getattr(self, "_gc_close", False) or getattr(self, "_finalizing", False)
        if leaked and not env.dead and env.entered:
            env.leaks.append(self._label)
        try:
            if not env.dead and env.entered and self._task not in env.dead_tasks:
                env.io_op(self._label, "close", 0, self._path)
                env.log("c", self._label, 0)
        finally:
            env.handles.pop(id(self), None)
            if self._fd is not None:
                env.fds.pop(self._fd, None)
            io.RawIOBase.close(self)


class Borrowed(io.RawIOBase):
    """A description opened again with closefd=False: closing it leaves the other open."""

    def __init__(self, raw):
        self.raw = raw
        self.name = raw.name
        self.mode = raw.mode
        for k in ("readable", "writable", "seekable", "isatty", "fileno", "readinto", "write", "seek", "tell", "truncate"):
            setattr(self, k, getattr(raw, k))


class DirEntry:
    def __init__(self, folder, name):
        self.name = name
        self.path = os.path.join(folder, name)

    def __fspath__(self):
        return self.path

    def stat(self, follow_symlinks=True):
        return os.stat(self.path)

    def is_dir(self, follow_symlinks=True):
        return os.path.isdir(self.path)

    def is_file(self, follow_symlinks=True):
        return os.path.isfile(self.path)

    def is_symlink(self):
        return False

    is_junction = is_symlink

    def inode(self):
        return os.stat(self.path).st_ino


class Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Clock:
    """Wall clock. Jumps are [n, seconds]: applied before the n-th reading."""

    def __init__(self, start=1_600_000_000.0, jumps=(), step=0.001):
        self.t = float(start)
        self.mono = 1000.0
        self.jumps = {int(n): s for n, s in jumps}
        self.n = 0
        self.step = step
        self.jumped = 0
        self.elapsed = 0.0

    def read(self):
        if self.n in self.jumps:
            self.t += self.jumps[self.n]
            self.jumped += 1
        self.n += 1
        self.advance(self.step)
        return self.t

    def advance(self, s):
        self.t += s
        self.mono += s
        self.elapsed += s


class Env:
    def __init__(self, files=None, roles=None, faults=(), delivery=None, clock=None,
                 entropy=0, tz=None, bufsize=None, disk_free=None, stdin=None,
                 stdin_seekable=True, max_ops=None, mtimes=None, cwd=None, encoding="utf-8", vars=None, optimize=0,
                 modes=None, read_only=False, missing=(), cpus=8, tty=None, user=None, age=3600):
        self.cpus = cpus
        self.tty = tty            # [columns, lines] if the standard streams are a terminal
        self.user = user          # [uid, name, host name] if not ours
        self.encoding = encoding  # of the locale
        self.vars = vars or {}    # environment variables
        self.optimize = optimize  # python -O, -OO
        c = clock or {}
        self.clock = Clock(c.get("start", 1_600_000_000.0), c.get("jumps", ()), c.get("step", 0.001))
        self.nodes = {}
        self.ino = 1
        self.cwd = self.cwd0 = cwd
        for p, d in (files or {}).items():
            if d is not None:
                self.nodes[p] = Node(d, bytes(d), (mtimes or {}).get(p, self.clock.t - age), self.new_ino())
        self.dirs = {ROOT}
        self.missing = set(missing)     # folders that are not there
        self.alias = {}          # other names under which the code knows files
        self.roles = dict(roles or {})
        self.faults = {}
        for f in faults:
            self.faults[(f["label"], f["op"], f["n"])] = f
        self.sticky = {}
        d = delivery or {}
        self.p_short = d.get("short", 0.0)
        self.p_eintr = d.get("eintr", 0.0)
        self.p_wshort = d.get("wshort", 0.0)
        self.max_chunk = d.get("max", 64)
        self.rng_io = random.Random(d.get("seed", 0))
        self.counts = {}
        self.trace = []          # (label, op, n, size) of every raw operation
        self.hash = hashlib.blake2b(digest_size=12)
        self.nlog = 0
        self.faults_fired = {}
        self.handles = {}
        self.leaks = []
        self.fds = {}
        self.next_fd = FD0
        self.powered_off = False
        self.dead_tasks = set()
        self.entered = False
        self.entropy = entropy
        self.tz = tz
        self.bufsize = bufsize or io.DEFAULT_BUFFER_SIZE
        self.disk_free = disk_free
        self.eof_reads = 0
        self.max_eof_reads = 400
        # every byte of input may arrive on its own; a generous multiple of that is a hang
        self.max_ops = max_ops or 200_000 + 20 * (len(stdin or b"") + sum(len(d) for d in (files or {}).values() if d))
        self.nops = 0
        self.written = 0         # bytes; what is written may arrive byte by byte as well, and be read back
        self.sched = None
        self.own_pids = False    # are the tasks of the scheduler processes?
        self.handlers = {}       # of signals, by process and number, as far as the code has set any
        self.blocked = {}        # signals by process
        self.pending = []        # interruptions that wait until they are let through
        self.at_exit = []
        self.exit_code = None    # of os._exit
        self.stdin_data = stdin
        self.stdin_seekable = stdin_seekable
        for p, m in (modes or {}).items():
            if p in self.nodes:
                self.nodes[p].mode = m
        self.read_only = read_only      # the logs cannot be written to
        for p in self.nodes:
            self.protect(p)
        self.meta0 = {p: (n.mode, n.mtime) for p, n in self.nodes.items()}
        self.stdout_node = Node()
        self.stdout = None
        self.stdin = None

    # -- bookkeeping
    def task(self):
        return self.sched.here() if self.sched is not None else None

    @property
    def dead(self):
        """Is the process that asks dead?"""
        return self.powered_off or bool(self.dead_tasks) and self.task() in self.dead_tasks

    def log(self, *a):
        self.nlog += 1
        self.hash.update(repr(a).encode())

    def fired(self, kind):
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + 1

    def label(self, path):
        return self.roles.get(path, "other")

    def io_op(self, label, op, size, path, raw=None, buf=None):
        """One raw operation happens: faults, delays and switches are decided here.
        Returns None (do it fully) or a limit on the number of bytes."""
        if self.dead:
            raise SimCrash
        n = self.counts.get((label, op), 0)
        self.counts[(label, op)] = n + 1
        self.nops += 1
        if self.nops > self.max_ops + min(20 * self.written, 3_000_000):
            raise SimHang(f"{self.nops} I/O operations")
        self.trace.append((label, op, n, size))
        self.clock.advance(0.0001)
        self.log(label, op, n, size)
        if self.sched is not None and label != "stdout":
            self.sched.point("io")
        f = self.faults.get((label, op, n))
        if f is None:
            k = self.sticky.get((label, op))
            if k is not None:
                self.fired(f"{op}-{k}-again")
                raise oserror(k, path)
        else:
            k = self.hard_fault(f, label, op, path, raw, buf)
            if k is not None:
                return k
        if op == "read":
            # EINTR before any byte moved: the raw device retries, as CPython's FileIO
            # does; a signal that raises is the separate fault kind "cancel".
            while self.p_eintr and self.rng_io.random() < self.p_eintr:
                self.fired("read-eintr")
                self.clock.advance(0.001)
            if self.p_short and self.rng_io.random() < self.p_short:
                self.fired("read-short")
                return self.rng_io.randint(1, self.max_chunk)
        elif op == "write":
            # EINTR before any byte moved: the raw device retries, as CPython's FileIO
            # does; a signal that raises is the separate fault kind "cancel".
            while self.p_eintr and self.rng_io.random() < self.p_eintr:
                self.fired("write-eintr")
                self.clock.advance(0.001)
            if self.p_wshort and size > 1 and self.rng_io.random() < self.p_wshort:
                self.fired("write-short")
                return self.rng_io.randint(1, min(size - 1, self.max_chunk))
        return None

    def hard_fault(self, f, label, op, path, raw, buf):
        kind = f["kind"]
        part = f.get("part")
        if buf is not None and part:
            k = min(len(buf), int(len(buf) * part))
            if kind == "crash":
                # death in the middle of a write: some of it got through
                if k:
                    try:
                        raw._store(buf[:k])
                    except OSError:
                        pass
            elif 0 < k < len(buf):
                # write(2) reports what it could do; the error comes with the next call
                self.faults[(label, op, self.counts[(label, op)])] = {x: v for x, v in f.items() if x != "part"}
                self.fired("write-short")
                return k
        self.fired(f"{op}-{kind}" + ("-sticky" if f.get("sticky") else ""))
        self.log("fault", label, op, kind)
        if kind == "crash":
            if f.get("task") is not None:
                self.dead_tasks.add(f["task"])  # one process of several
            else:
                self.powered_off = True
            raise SimCrash
        if kind == "cancel":
            self.interrupt(KeyboardInterrupt())
            return None
        if kind == "nomem":
            raise MemoryError
        if f.get("sticky"):
            self.sticky[(label, op)] = kind
        if kind == "epipe" and self.handlers.get((self.process(), signal.SIGPIPE)) == signal.SIG_DFL:
            self.powered_off = True  # python ignores SIGPIPE, unless told not to
            raise SimCrash
        raise oserror(kind, path)

    def process(self):
        return self.task() if self.own_pids else None

    def interrupt(self, exc):
        """A signal arrives: Ctrl-C (KeyboardInterrupt), or a request to end that a handler
        of the program around this code answers with `exc`. The code may have set its own handler."""
        num = signal.SIGINT if isinstance(exc, KeyboardInterrupt) else signal.SIGTERM
        me = self.process()
        if num in self.blocked.get(me, ()):
            self.fired("signal-blocked")
            self.pending.append((me, num, exc))
            return
        h = self.handlers.get((me, num))
        if h is None or h is signal.default_int_handler or h == signal.SIG_DFL and num != signal.SIGINT:
            raise exc
        if h == signal.SIG_IGN:
            self.fired("signal-ignored")
        elif h == signal.SIG_DFL:
            self.powered_off = True
            raise SimCrash
        else:
            self.fired("signal-handled")
            h(num, sys._getframe(1))

    def _signal_patches(self):
        default = {signal.SIGINT: signal.default_int_handler, signal.SIGPIPE: signal.SIG_IGN}

        def getsignal(num):
            return self.handlers.get((self.process(), num), default.get(num, signal.SIG_DFL))

        def set_handler(num, h):
            if self.task() is not None and not self.own_pids:
                raise ValueError("signal only works in main thread of the main interpreter")
            old = getsignal(num)
            self.handlers[self.process(), num] = h
            return old

        def sigmask(how, nums):
            me = self.process()
            old = self.blocked.get(me, frozenset())
            nums = frozenset(nums)
            self.blocked[me] = (old | nums if how == signal.SIG_BLOCK else old - nums if how == signal.SIG_UNBLOCK else nums)
            for e in list(self.pending):
                if e[0] == me and e[1] not in self.blocked[me]:
                    self.pending.remove(e)
                    self.interrupt(e[2])
            return set(old)

        def raise_signal(num):
            if num in (signal.SIGINT, signal.SIGTERM) and getsignal(num) != signal.SIG_DFL:
                self.interrupt(KeyboardInterrupt() if num == signal.SIGINT else SystemExit(128 + num))
            elif getsignal(num) not in (signal.SIG_IGN, signal.SIG_DFL):
                getsignal(num)(num, sys._getframe(1))
            elif num and getsignal(num) == signal.SIG_DFL:
                self.powered_off = True
                raise SimCrash

        def kill(pid, num):
            if pid != os.getpid():
                raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
            raise_signal(num)

        return ({"signal": set_handler, "getsignal": getsignal, "pthread_sigmask": sigmask, "raise_signal": raise_signal,
                 "alarm": lambda n: 0, "setitimer": lambda *a: (0.0, 0.0), "set_wakeup_fd": lambda fd, **k: -1}, {"kill": kill})

    def _exit(self, code=0):
        """os._exit: no destructors, nothing flushed."""
        self.exit_code = code
        self.powered_off = True
        raise SimCrash

    def run_at_exit(self):
        """What the interpreter calls when it ends; errors are printed and change nothing."""
        while self.at_exit and not self.dead:
            f, a, k = self.at_exit.pop()
            try:
                f(*a, **k)
            except SimCrash:
                raise
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                self.stderr.write(f"{type(e).__name__}: {e}\n")

    def new_ino(self):
        self.ino += 1
        return self.ino

    def place(self, path, data, how="write"):
        """Between two processes or jobs, somebody else puts a file there (None: takes it away):
        write = in place, keep = in place with the old time of change, move = another file renamed to it."""
        if data is None:
            self.nodes.pop(path, None)
            return
        old = self.nodes.get(path)
        node = old if old is not None and how != "move" else Node(ino=self.new_ino())
        node.data[:] = data
        node.durable = bytes(data)
        if old is None or how != "keep":
            node.mtime = self.clock.t - 1
        self.nodes[path] = node
        self.protect(path)
        self.max_ops += 20 * len(data)

    def protect(self, path):
        if self.read_only and self.roles.get(path, "").rstrip("0123456789") == "in":
            self.nodes[path].mode &= ~0o222

    def mtimes(self):
        return {p: n.mtime for p, n in self.nodes.items()}

    def modes(self):
        return {p: n.mode for p, n in self.nodes.items()}

    def new_fd(self, raw):
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = raw
        return fd

    def handled(self):
        """Files that were there whose permissions or times are not what they were."""
        return sorted(p for p, m in self.meta0.items() if p in self.nodes and (self.nodes[p].mode, self.nodes[p].mtime) != m)

    # -- what survives
    def files(self):
        return {p: bytes(n.data) for p, n in self.nodes.items()}

    def durable_files(self, power=None):
        """Content after the crash. power=None: only the process died.
        power={path: ["old"] | ["prefix", frac] | ["holes", page, [i...]] | ["full"]}."""
        out = {}
        for p, n in self.nodes.items():
            cur = bytes(n.data)
            how = (power or {}).get(p, ["full"])
            if n.durable == cur:
                how = ["full"]
            if how[0] == "old":
                if n.durable is not None:
                    out[p] = n.durable
                continue
            if how[0] == "prefix":
                out[p] = cur[: int(len(cur) * how[1])]
            elif how[0] == "holes":
                page = how[1]
                b = bytearray(cur)
                npages = max(1, -(-len(b) // page))
                for i in how[2]:
                    i %= npages
                    e = min(len(b), (i + 1) * page)
                    b[i * page:e] = b"\0" * (e - i * page)
                out[p] = bytes(b)
            else:
                out[p] = cur
        return out

    # -- opening
    def is_sim(self, path, write=False):
        """The path on the simulated disk, or None if it is a real one (never for writing)."""
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = (self.cwd or _real["getcwd"]()) + "/" + path
        path = os.path.normpath(path)
        path = self.alias.get(path, path)
        if path == ROOT or path.startswith(ROOT + "/") or path in self.nodes or path in self.dirs:
            return path
        if write and not path.startswith(("/dev/", "/proc/")):
            return path
        return None

    def is_dir(self, p):
        return p in self.dirs or any(x.startswith(p + "/") for x in self.nodes) or \
            (not (p + "/").startswith(ROOT + "/") and p not in self.nodes and _real["isdir"](p))

    def need_folder(self, path):
        d = os.path.dirname(path)
        if d in self.missing and not self.is_dir(d):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)

    def real_content(self, path):
        """What a real file holds that the code is about to change in place."""
        if (path + "/").startswith(ROOT + "/"):
            return None
        try:
            with _real["open"](path, "rb") as f:
                return f.read(1 << 24)
        except OSError:
            return None

    def raw_open(self, path, read, write, create, trunc, excl, append, fd=None):
        label = self.label(path)
        self.io_op(label, "open", 0, path)
        node = self.nodes.get(path)
        if path == os.devnull:
            node = Node(ino=0)      # takes everything, holds nothing
        if node is None:
            below = self.real_content(path)
            if below is not None:
                node = self.nodes[path] = Node(below, below, self.clock.t - 3600, self.new_ino())
        if node is None:
            if not create:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            if self.is_dir(path):
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            self.need_folder(path)
            node = self.nodes[path] = Node(mtime=self.clock.t, ino=self.new_ino())
        elif excl:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        elif write and not node.mode & 0o200 or read and not node.mode & 0o400:
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)    # not run by root
        if trunc:
            del node.data[:]
            node.mtime = self.clock.t
        raw = SimRaw(self, path, node, label, read, write, append, fd=fd)
        if append:
            raw._pos = len(node.data)
        self.log("o", label, read, write, trunc)
        return raw

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        raw = None
        if isinstance(file, str) and file in STD and opener is None:
            file, closefd = STD[file], False
        if isinstance(file, int) and (file >= FD0 or file in (0, 1)):
            raw = self.raw_of(file)
            if not closefd:
                raw = Borrowed(raw)
        else:
            path = None if isinstance(file, int) else self.is_sim(file, bool(set("wxa+") & set(mode)) and opener is None)
            if path is None and opener is None and file == os.devnull:
                path = file
            if path is None and opener is None:
                return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        ms = set(mode)
        if len(mode) != len(ms) or ms - set("rwxabt+U") or len(ms & set("rwxa")) != 1 or {"b", "t"} <= ms:
            raise ValueError(f"invalid mode: {mode!r}")
        plus = "+" in ms
        read = "r" in ms or plus
        write = bool(ms & set("wxa")) or plus
        if "b" in ms and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
        if raw is None and opener is not None:
            flags = {True: os.O_RDWR}.get(plus, os.O_WRONLY if write else os.O_RDONLY)
            if "w" in ms:
                flags |= os.O_CREAT | os.O_TRUNC
            if "x" in ms:
                flags |= os.O_CREAT | os.O_EXCL
            if "a" in ms:
                flags |= os.O_CREAT | os.O_APPEND
            return self.open(opener(file, flags), mode, buffering, encoding, errors, newline)
        if raw is None:
            raw = self.raw_open(path, read, write, create=bool(ms & set("wxa")), trunc="w" in ms,
                                excl="x" in ms, append="a" in ms)
            raw.name = file
        raw.mode = mode if "b" in mode else mode + "b"
        line = buffering == 1 and "b" not in ms
        if buffering == 0:
            if "b" not in ms:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if plus:
            buf = io.BufferedRandom(raw, size)
        elif write:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in ms:
            return buf
        text = io.TextIOWrapper(buf, self.encoding if encoding in (None, "locale") else encoding, errors, newline, line)
        text.mode = mode
        return text

    def raw_of(self, fd):
        """The description behind a simulated descriptor."""
        raw = self.stdin_raw if fd == 0 else self.stdout_raw if fd == 1 else self.fds.get(fd)
        if raw is None or raw.closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return raw

    def file_io(self, file, mode="r", closefd=True, opener=None):
        return self.open(file, mode.replace("b", "") + "b", 0, closefd=closefd, opener=opener)

    # -- seams
    def _lock(self, fd, *a):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if fd < FD0 and fd not in (0, 1):
            return _real["flock"](fd, *a)
        self.raw_of(fd)      # granted: nobody else on this machine locks

    def _mmap(self, fd, length, *a, **k):
        if not isinstance(fd, int) or fd < FD0 and fd not in (0, 1):
            return _real["mmap"](fd, length, *a, **k)
        raw = self.raw_of(fd)
        if not raw.seekable():
            raise OSError(errno.ENODEV, os.strerror(errno.ENODEV))
        if k.get("access") != mmap.ACCESS_READ and k.get("access") != mmap.ACCESS_COPY and \
                k.get("prot", mmap.PROT_READ | mmap.PROT_WRITE) & mmap.PROT_WRITE:
            raise OSError(errno.EACCES, os.strerror(errno.EACCES))
        data = bytes(raw._node.data)
        n = length or len(data)
        if n > len(data) or n == 0:
            raise ValueError("cannot mmap an empty file" if n == 0 else "mmap length is greater than file size")
        self.io_op(raw._label, "read", n, raw._path)
        m = _real["mmap"](-1, n)
        m[:] = data[:n]
        return m

    def _os_patches(self):
        env = self
        r = {k: getattr(os, k) for k in (
            "open", "close", "read", "write", "fsync", "fdatasync", "fstat", "lseek", "ftruncate",
            "stat", "lstat", "access", "replace", "rename", "remove", "unlink", "mkdir", "rmdir",
            "listdir", "scandir", "pread", "pwrite", "readv", "writev", "sendfile", "copy_file_range", "isatty", "dup",
            "chmod", "utime", "truncate", "link", "symlink", "listxattr", "getpid", "urandom", "getcwd", "chdir",
            "statvfs", "fstatvfs", "readlink", "posix_fadvise", "posix_fallocate")}

        def o_open(path, flags, mode=0o777, *, dir_fd=None):
            acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
            p = env.is_sim(path, acc != os.O_RDONLY or bool(flags & os.O_CREAT))
            if p is None:
                return r["open"](path, flags, mode, dir_fd=dir_fd)
            if flags & os.O_TMPFILE == os.O_TMPFILE:
                env.io_op("other", "open", 0, p)
                return SimRaw(env, p, Node(mtime=env.clock.t, ino=env.new_ino()), "other", True, True).fileno()
            if flags & getattr(os, "O_DIRECTORY", 0) or env.is_dir(p):
                raw = SimRaw(env, p, Node(), "dir", True, False)
                return raw.fileno()
            raw = env.raw_open(p, acc != os.O_WRONLY, acc != os.O_RDONLY, bool(flags & os.O_CREAT),
                               bool(flags & os.O_TRUNC), bool(flags & os.O_EXCL), bool(flags & os.O_APPEND))
            return raw.fileno()

        def fdop(name, f):
            def g(fd, *a, **k):
                if isinstance(fd, int) and (fd >= FD0 or fd in (0, 1)):
                    return f(env.raw_of(fd), *a, **k)
                return r[name](fd, *a, **k)
            return g

        def sync(raw):
            env.io_op(raw._label, "fsync", 0, raw._path)
            raw._node.durable = bytes(raw._node.data)

        def o_stat_node(p, fd=False):
            if env.is_dir(p):
                return os.stat_result((_stat.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            n = env.nodes.get(p)
            if n is None:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            return node_stat(n)

        def node_stat(n):
            t = n.mtime
            return os.stat_result((_stat.S_IFREG | n.mode, n.ino, 1, 1, 0, 0, len(n.data), int(t), int(t), int(t), t, t, t,
                                   int(t * 1e9), int(t * 1e9), int(t * 1e9)))

        def fstat(raw):
            return node_stat(raw._node)

        def o_chmod(p, mode, **k):
            if p in env.nodes:
                env.nodes[p].mode = mode & 0o7777

        def o_utime(p, times=None, *, ns=None, **k):
            need(p)
            env.nodes[p].mtime = ns[1] / 1e9 if ns else times[1] if times else env.clock.t

        def getcwd():
            return env.cwd or r["getcwd"]()

        def chdir(path):
            p = env.is_sim(path)
            if p is None:
                env.cwd = None
                return r["chdir"](path)
            env.cwd = p

        def pathop(name, f, write=False):
            def g(path, *a, **k):
                if isinstance(path, int):
                    if path >= FD0 and name == "stat":
                        return fstat(env.fds[path])
                    if path >= FD0 and name == "statvfs":
                        return o_statvfs()
                    return r[name](path, *a, **k)
                p = env.is_sim(path, write)
                if p is None:
                    return r[name](path, *a, **k)
                if env.dead:
                    raise SimCrash
                return f(p, *a, **k)
            return g

        def need(p):
            if p not in env.nodes:
                below = env.real_content(p)
                if below is None:
                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
                env.nodes[p] = Node(below, below, env.clock.t - 3600, env.new_ino())

        def o_rename(src, dst, **k):
            s, d = env.is_sim(src, True), env.is_sim(dst, True)
            if s is None or d is None:
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV))
            env.io_op(env.label(d), "rename", 0, d)
            need(s)
            env.need_folder(d)
            node = env.nodes.pop(s)
            old = env.nodes.get(d)
            # the rename itself is treated as ordered and durable; the data is not
            # unless it was synced: a power cut may expose the old file again.
            node.durable = node.durable if node.durable is not None and node.durable == bytes(node.data) \
                else (old.durable if old is not None else None)
            env.nodes[d] = node

        def o_remove(p, **k):
            env.io_op(env.label(p), "remove", 0, p)
            need(p)
            del env.nodes[p]

        def o_trunc(p, size):
            need(p)
            d = env.nodes[p].data
            env.nodes[p].mtime = env.clock.t
            if size < len(d):
                del d[size:]
            else:
                d.extend(b"\0" * (size - len(d)))

        def o_link(src, dst, **k):
            s, d = env.is_sim(src, True), env.is_sim(dst, True)
            if s is None or d is None:
                raise OSError(errno.EPERM, os.strerror(errno.EPERM))
            need(s)
            if d in env.nodes:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), d)
            env.nodes[d] = env.nodes[s]

        def o_listdir(p):
            return sorted(os.path.basename(x) for x in set(env.nodes) | env.dirs if os.path.dirname(x) == p and x != p)

        def rd(raw, n):
            b = bytearray(n)
            k = raw.readinto(b)
            return bytes(b[:k])

        def listdir(path="."):
            p = env.is_sim(path) if not isinstance(path, int) else None
            return o_listdir(p) if p is not None else r["listdir"](path)

        def scandir(path="."):
            p = env.is_sim(path) if not isinstance(path, int) else None
            if p is None:
                return r["scandir"](path)
            if not env.is_dir(p):
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            return Scan([DirEntry(os.fspath(path), x) for x in o_listdir(p)])

        def at(raw, pos, f):
            old, raw._pos = raw._pos, pos
            try:
                return f()
            finally:
                raw._pos = old

        def enosys(*a, **k):
            raise OSError(errno.ENOSYS, os.strerror(errno.ENOSYS))

        def either(name):
            # fast paths between two descriptors: refused, as some file systems do
            def g(x, y, *a, **k):
                if max(x, y) >= FD0 or min(x, y) in (0, 1):
                    enosys()
                return r[name](x, y, *a, **k)
            return g

        def o_mkdir(p, *a, **k):
            if p in env.nodes or env.is_dir(p):
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
            env.dirs.add(p)

        def o_rmdir(p, **k):
            if any(x.startswith(p + "/") for x in env.nodes):
                raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), p)
            env.dirs.discard(p)

        def o_symlink(*a, **k):
            raise OSError(errno.EPERM, os.strerror(errno.EPERM))  # as on FAT file systems

        def o_readlink(p, **k):
            need(p)
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL), p)  # not a link

        def o_statvfs(*a, **k):
            free = (env.disk_free if env.disk_free is not None else 1 << 40) // 4096
            return os.statvfs_result((4096, 4096, 1 << 30, free, free, 1 << 20, 1 << 20, 1 << 20, 0, 255))

        def fallocate(raw, start, n):
            env.io_op(raw._label, "write", 0, raw._path)
            d = raw._node.data
            d.extend(b"\0" * max(0, start + n - len(d)))

        def winsize(fd=1):
            raw = env.fds.get(fd)
            if env.tty if raw is None else raw.isatty():
                return os.terminal_size(env.tty)
            raise OSError(errno.ENOTTY, os.strerror(errno.ENOTTY))

        ent = random.Random(("urandom", self.entropy).__repr__())
        who = {}
        if self.user:
            uid, name, host = self.user
            who = {k: lambda: uid for k in ("getuid", "geteuid", "getgid", "getegid")}
            un = os.uname()
            who.update(getlogin=lambda: name, uname=lambda: os.uname_result((un.sysname, host, *tuple(un)[2:])))
        return {
            **who,
            "get_terminal_size": winsize,
            "open": o_open,
            "close": fdop("close", lambda raw: raw.close()),
            "read": fdop("read", rd),
            "write": fdop("write", lambda raw, b: raw.write(b)),
            "fsync": fdop("fsync", sync),
            "fdatasync": fdop("fdatasync", sync),
            "fstat": fdop("fstat", fstat),
            "lseek": fdop("lseek", lambda raw, p, h: raw.seek(p, h)),
            "ftruncate": fdop("ftruncate", lambda raw, n: raw.truncate(n)),
            "stat": pathop("stat", lambda p, **k: o_stat_node(p)),
            "lstat": pathop("lstat", lambda p, **k: o_stat_node(p)),
            "access": pathop("access", lambda p, *a, **k: p in env.nodes or env.is_dir(p)),
            "replace": o_rename,
            "rename": o_rename,
            "remove": pathop("remove", o_remove, True),
            "unlink": pathop("unlink", o_remove, True),
            "mkdir": pathop("mkdir", o_mkdir, True),
            "rmdir": pathop("rmdir", o_rmdir, True),
            "listdir": listdir,
            "scandir": scandir,
            "pread": fdop("pread", lambda raw, n, pos: at(raw, pos, lambda: rd(raw, n))),
            "pwrite": fdop("pwrite", lambda raw, b, pos: at(raw, pos, lambda: raw.write(b))),
            "readv": fdop("readv", lambda raw, bufs: raw.readinto(bufs[0])),
            "writev": fdop("writev", lambda raw, bufs: raw.write(bufs[0])),
            "sendfile": either("sendfile"),
            "copy_file_range": either("copy_file_range"),
            "isatty": fdop("isatty", lambda raw: raw.isatty()),
            "dup": fdop("dup", enosys),
            "chmod": pathop("chmod", o_chmod, True),
            "fchmod": fdop("fchmod", lambda raw, mode: setattr(raw._node, "mode", mode & 0o7777)),
            "utime": pathop("utime", o_utime, True),
            "getcwd": getcwd,
            "chdir": chdir,
            "truncate": pathop("truncate", o_trunc, True),
            "link": o_link,
            "symlink": o_symlink,
            "statvfs": pathop("statvfs", o_statvfs),
            "fstatvfs": fdop("fstatvfs", o_statvfs),
            "readlink": pathop("readlink", o_readlink),
            "posix_fadvise": fdop("posix_fadvise", lambda raw, *a: None),
            "posix_fallocate": fdop("posix_fallocate", fallocate),
            "cpu_count": lambda: self.cpus,
            "sched_getaffinity": lambda pid=0: set(range(self.cpus)),
            "getloadavg": lambda: (0.0, 0.0, 0.0),
            "listxattr": pathop("listxattr", lambda p, **k: []),
            "getpid": lambda: 2 + (self.entropy * 7919) % 4_000_000 + (self.task() or 0 if self.own_pids else 0),
            "urandom": lambda n: ent.randbytes(n),
        }

    def _time_patches(self):
        c = self.clock
        rl, rg, rs, ra = time.localtime, time.gmtime, time.strftime, time.asctime

        def localtime(t=None):
            return rl(c.read() if t is None else t)

        def gmtime(t=None):
            return rg(c.read() if t is None else t)

        def sleep(s):
            c.advance(s)
            if self.sched is not None:
                self.sched.point("io")

        def mono():
            c.advance(c.step)
            return c.mono

        return {
            "time": lambda: c.read(),
            "time_ns": lambda: int(c.read() * 1e9),
            "monotonic": mono,
            "monotonic_ns": lambda: int(mono() * 1e9),
            "perf_counter": mono,
            "perf_counter_ns": lambda: int(mono() * 1e9),
            "process_time": mono,
            "clock_gettime": lambda k: c.read() if k == time.CLOCK_REALTIME else mono(),
            "clock_gettime_ns": lambda k: int((c.read() if k == time.CLOCK_REALTIME else mono()) * 1e9),
            "thread_time": mono,
            "localtime": localtime,
            "gmtime": gmtime,
            "ctime": lambda t=None: ra(localtime(t)),
            "asctime": lambda t=None: ra(localtime() if t is None else t),
            "strftime": lambda f, t=None: rs(f, localtime() if t is None else t),
            "sleep": sleep,
        }

    def _datetime_class(self):
        c = self.clock

        class datetime(_dt_real):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(c.read(), tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(c.read(), _dt.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.fromtimestamp(c.read())

        class date(_date_real):
            @classmethod
            def today(cls):
                return cls.fromtimestamp(c.read())

        return datetime, date

    @contextlib.contextmanager
    def active(self):
        saved = []

        def put(obj, name, val):
            saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)

        env_old = {k: os.environ.get(k) for k in ("TZ", *self.vars)}
        rstate = random.getstate()
        collecting = gc.isenabled()
        # the collector runs finalisers at moments that depend on what ran before
        gc.disable()
        try:
            put(builtins, "open", self.open)
            put(io, "open", self.open)
            put(io, "FileIO", self.file_io)
            put(mmap, "mmap", self._mmap)
            put(fcntl, "flock", self._lock)
            put(fcntl, "lockf", self._lock)
            put(fcntl, "fcntl", lambda fd, *a: _real["fcntl"](fd, *a) if isinstance(fd, int) and 2 <= fd < FD0 else 0)
            put(shutil, "_use_fd_functions", False)
            for k, v in self._os_patches().items():
                put(os, k, v)
            sig, osig = self._signal_patches()
            for k, v in sig.items():
                put(signal, k, v)
            for k, v in {**osig, "_exit": self._exit}.items():
                put(os, k, v)
            put(atexit, "register", lambda f, *a, **k: (self.at_exit.append((f, a, k)), f)[1])
            put(logging.root, "handlers", [])
            put(logging.root, "level", logging.WARNING)
            put(logging, "_handlers", weakref.WeakValueDictionary())
            put(logging, "_handlerList", [])
            put(weakref.finalize, "_registered_with_atexit", False)
            put(weakref.finalize, "_shutdown", False)
            put(weakref.finalize, "_registry", {})
            put(atexit, "unregister", lambda f: self.at_exit.__setitem__(
                slice(None), [x for x in self.at_exit if x[0] != f]))
            for k, v in self._time_patches().items():
                put(time, k, v)
            if hasattr(random, "_urandom"):
                put(random, "_urandom", os.urandom)
            d, dd = self._datetime_class()
            put(_dt, "datetime", d)
            put(_dt, "date", dd)
            random.seed(self.entropy)
            if self.user:
                put(socket, "gethostname", lambda: self.user[2])
                put(platform, "_uname_cache", None)
            put(tempfile, "tempdir", None)
            put(tempfile, "_name_sequence", None)
            put(tempfile, "_Random", lambda: random.Random(self.entropy))
            os.environ.update(self.vars)
            if self.tz is not None:
                os.environ["TZ"] = self.tz
                time.tzset()
            put(loader, "OPTIMIZE", self.optimize)
            put(locale, "getpreferredencoding", lambda do_setlocale=True: self.encoding)
            put(locale, "getencoding", lambda: self.encoding)
            raw = SimRaw(self, "<stdout>", self.stdout_node, "stdout", False, True, append=True, seekable=False)
            self.stdout = io.TextIOWrapper(io.BufferedWriter(raw, self.bufsize), self.encoding, newline="\n")
            self.stdout_raw = raw
            rawin = SimRaw(self, "<stdin>", Node(self.stdin_data or b""), "stdin", True, False,
                           seekable=self.stdin_seekable)
            self.stdin = io.TextIOWrapper(io.BufferedReader(rawin, self.bufsize), self.encoding)
            self.stdin_raw = rawin
            self.std = {id(raw), id(rawin)}
            put(sys, "stdout", self.stdout)
            put(sys, "__stdout__", self.stdout)
            put(sys, "stdin", self.stdin)
            put(sys, "__stdin__", self.stdin)
            self.stderr = io.StringIO()
            put(sys, "stderr", self.stderr)
            put(sys, "unraisablehook", lambda a: None)
            put(sys, "argv", ["main.py"])
            put(this, "current", self)
            self.entered = True
            yield self
        finally:
            self.entered = False
            for obj, name, val in reversed(saved):
                setattr(obj, name, val)
            random.setstate(rstate)
            for k, v in env_old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            if self.tz is not None:
                time.tzset()
            self.powered_off = True
            if collecting:
                gc.enable()

    def flush_stdout(self):
        """What interpreter exit does. Returns False if it fails (exit code 120)."""
        try:
            self.stdout.flush()
            return True
        except (OSError, ValueError, MemoryError, KeyboardInterrupt, SimCrash):
            return False

    def open_handles(self):
        return sorted(h._label for i, h in self.handles.items()
                      if i not in self.std and h._label != "dir") + ["gc:" + x for x in self.leaks]

    def digest(self):
        return self.hash.hexdigest()


_dt_real = _dt.datetime
_date_real = _dt.date
