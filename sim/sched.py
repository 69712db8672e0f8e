"""Deterministic threads.

Tasks are real threads, but exactly one runs at any moment: every other one is
parked on its own semaphore.  Control changes hands only at switch points: raw
I/O operations, sleeps, lock operations, and (through sys.settrace) lines or
bytecodes of the code under test.  Each point counts a step of its task; a plan
[task, step, next] says where control changes hands and to whom.  With an rng
the plan is drawn as the run proceeds and recorded, so that the same schedule
can be replayed, and minimised, as an explicit plan.
"""
import logging
import sys
import tempfile
import threading
import zlib

import loader
from env import HarnessError, SimHang

_Sem = threading.Semaphore
_Thread = threading.Thread
_real_lock, _real_rlock = threading.Lock, threading.RLock
STALL_S = 60


HOLDERS = {"<frozen importlib._bootstrap>", tempfile.__file__, logging.__file__}


def pinned():
    """Is the calling thread inside something of the standard library that holds a lock of its own?"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename in HOLDERS:
            return True
        f = f.f_back
    return False


class Killed(BaseException):
    pass


def _prime():
    """CPython delivers bytecode events only after the first frame that ever asked for
    them and the next settrace; ask once, so that the first run is like the others."""
    def t(frame, event, arg):
        frame.f_trace_opcodes = True
        return t

    def f():
        return 1
    for _ in range(2):
        sys.settrace(t)
        f()
        sys.settrace(None)


_prime()


class Sched:
    def __init__(self, plan=None, rng=None, p=0.0, grain="line", max_steps=3_000_000, burst=0, spots=0, salt=0, novel=None):
        self.plan = {(t, s): n for t, s, n in plan} if plan is not None else None
        self.rng = rng
        self.p = p
        self.burst = burst
        self.hot = 0
        self.spots = spots       # one in `spots` places of the code is a favourite place to switch
        self.salt = salt
        self.favourite = {}
        self.novel = novel       # (n, p): switch with probability p at the first n visits of every place, by whomever
        self.seen = {}
        self.grain = grain
        self.tasks = []
        self.cur = None
        self.switches = []
        self.steps = []
        self.done = []
        self.blocked = {}
        self.ids = {}
        self.total = 0
        self.max_steps = max_steps
        self.stop = None
        self.wake_main = _Sem(0)
        self.log = None
        self.on_enter = self.on_leave = None  # called by a task that gets or gives away control

    def here(self):
        """The task of the calling thread, if any."""
        return self.ids.get(threading.get_ident())

    # -- running
    def run(self, fns):
        """Run the tasks to completion; -> None."""
        n = len(fns)
        self.sems = [_Sem(0) for _ in range(n)]
        self.steps = [0] * n
        self.done = [False] * n
        self.errors = [None] * n
        threads = [_Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        self.cur = 0
        self.sems[0].release()
        try:
            ok = self.wake_main.acquire(timeout=STALL_S)
        except BaseException:
            self.abandon("given up")
            raise
        if not ok:
            self.abandon("stalled")
            raise SimHang(f"task {self.cur} waits outside the simulator for something only a parked task can give")
        for t in threads:
            t.join(STALL_S)
        if self.stop:
            raise SimHang(self.stop)
        for e in self.errors:
            if isinstance(e, (HarnessError, SimHang)):
                raise e

    def abandon(self, why):
        self.stop = why
        for s in self.sems:
            s.release()

    def _body(self, i, f):
        self.sems[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            if self.stop:
                return
            if self.on_enter:
                self.on_enter(i)
            if self.grain != "io":
                sys.settrace(self._tracer(i))
            try:
                f()
            finally:
                sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:
            self.errors[i] = e
        finally:
            self.done[i] = True
            self._leave(i)

    def _tracer(self, i):
        src = loader.SRC
        skip = f"{src}/xrns/xml"
        opc = self.grain == "op"

        def local(frame, event, arg):
            if event == ("opcode" if opc else "line"):
                self.step(i, frame)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(src) and not fn.startswith(skip):
                if opc:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def _leave(self, i):
        left = self.runnable(i)
        if left:
            k = self.choose(i, left)
            self.cur = k
            self.sems[k].release()
        elif all(self.done):
            self.wake_main.release()
        else:
            self.stop = f"deadlock: tasks {[t for t, d in enumerate(self.done) if not d]} wait for locks"
            for s in self.sems:
                s.release()
            self.wake_main.release()

    def runnable(self, but=None):
        return [t for t in range(len(self.done)) if t != but and not self.done[t] and t not in self.blocked]

    def choose(self, i, left):
        """Who goes on when the current task cannot."""
        if self.plan is not None:
            n = self.plan.get((i, self.steps[i]))
            return n if n in left else left[0]
        k = left[self.rng.randrange(len(left))]
        self.switches.append([i, self.steps[i], k])
        return k

    # -- switch points
    def point(self, kind):
        i = self.ids.get(threading.get_ident())
        if i is not None and i == self.cur:
            self.step(i)

    def is_favourite(self, frame):
        k = (frame.f_code.co_filename, frame.f_lineno, frame.f_lasti if self.grain == "op" else 0)
        f = self.favourite.get(k)
        if f is None:
            f = zlib.crc32(f"{self.salt}{k[0][len(loader.SRC):]}:{k[1]}:{k[2]}".encode()) % self.spots == 0
            self.favourite[k] = f
        return f

    def step(self, i, frame=None):
        if self.stop:
            raise Killed
        self.steps[i] += 1
        self.total += 1
        if self.total > self.max_steps:
            self.stop = f"more than {self.max_steps} steps"
            for s in self.sems:
                s.release()
            self.wake_main.release()
            raise Killed
        if self.plan is not None:
            n = self.plan.get((i, self.steps[i]))
            if n is None or n == i or n >= len(self.done) or self.done[n] or n in self.blocked or pinned():
                return
        else:
            p = self.p
            if self.spots and frame is not None and self.is_favourite(frame):
                p = 0.6
            elif self.novel and frame is not None:
                k = (id(frame.f_code), frame.f_lasti)
                v = self.seen[k] = self.seen.get(k, 0) + 1
                if v <= self.novel[0]:
                    p = self.novel[1]
            elif self.hot > 0:
                self.hot -= 1
                p = 0.5
            if self.rng.random() >= p:
                return
            if self.burst and self.hot == 0 and self.rng.random() < 0.3:
                self.hot = self.burst
            left = self.runnable(i)
            if not left or pinned():
                return
            n = left[self.rng.randrange(len(left))]
            self.switches.append([i, self.steps[i], n])
        self.hand(i, n)

    def hand(self, i, n):
        if self.log:
            self.log("switch", i, self.steps[i], n)
        self.cur = n
        if self.on_leave:
            self.on_leave(i)
        self.sems[n].release()
        self.sems[i].acquire()
        if self.stop:
            raise Killed
        if self.on_enter:
            self.on_enter(i)

    # -- locks
    def wait_for(self, lock):
        i = self.cur
        self.steps[i] += 1
        self.blocked[i] = lock
        left = self.runnable(i)
        if not left:
            self.stop = f"deadlock: task {i} waits for a lock nobody will release"
            for s in self.sems:
                s.release()
            self.wake_main.release()
            raise Killed
        self.hand(i, self.choose(i, left))

    def released(self, lock):
        for t, k in list(self.blocked.items()):
            if k is lock:
                del self.blocked[t]


CURRENT = [None]


class SimLock:
    """threading.Lock / RLock of the simulated process."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def _me(self):
        s = CURRENT[0]
        i = s.ids.get(threading.get_ident()) if s is not None else None
        return "main" if i is None else ("task", i)

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT[0]
        me = self._me()
        if me != "main":
            s.point("lock")
        while self._n and not (self._re and self._owner == me):
            if not blocking:
                return False
            if me == "main":
                raise SimHang("lock taken and never released")
            if timeout is not None and timeout >= 0:
                return False
            s.wait_for(self)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            if CURRENT[0] is not None:
                CURRENT[0].released(self)

    def locked(self):
        return self._n > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class locks:
    """threading.Lock/RLock as the code under test sees them (the standard library keeps its own)."""

    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        def ours():
            return sys._getframe(2).f_code.co_filename.startswith(loader.SRC)

        threading.Lock = lambda: SimLock() if ours() else _real_lock()
        threading.RLock = lambda: SimLock(True) if ours() else _real_rlock()

    def __exit__(self, *a):
        threading.Lock, threading.RLock = _real_lock, _real_rlock
        CURRENT[0] = None
