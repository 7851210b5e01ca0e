"""Deterministic threads: real threads, parked and released one at a time.

A thread gives up control only at line events of code in the watched files, when it blocks on an import lock or on a
lock created through `threading` by the watched code, and when it ends. Which thread goes on is decided by the schedule,
an explicit list of `[gap, choice]`: after `gap` more line events, switch to runnable thread number `choice`.
"""
import _thread
import importlib
import os
import sys
import threading
import zlib

from . import core

_real_Lock = _thread.allocate_lock
_current = None         # the running Sched, if any


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, watched, sched, max_steps=2_000_000, sites=None):
        self.watched = tuple(watched)
        self.sched = [list(x) for x in sched]
        self.tasks = []
        self.pos = 0
        self.left = self.sched[0][0] if self.sched else None
        # Beside the gaps: switch whenever a thread reaches one of certain lines of the code. Which ones is decided by a hash.
        self.modulus, self.residues, self.budget = (sites["of"], frozenset(sites["take"]), sites["times"]) if sites else (0, (), 0)
        self.lines = {}
        self.alive = []
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.main = _real_Lock()
        self.main.acquire()
        self.by_ident = {}
        self.names = {}
        self.log = []
        self.on_step = None
        self.turn = 0
        self.failed = None

    class Task:
        def __init__(self, no, fn):
            self.no = no
            self.fn = fn
            self.gate = _real_Lock()
            self.gate.acquire()
            self.done = False
            self.waiting = None      # callable: can it go on?
            self.result = None
            self.error = None

    def add(self, fn):
        self.tasks.append(self.Task(len(self.tasks), fn))

    # ---- line events
    def is_watched(self, fn):
        ok = self.names.get(fn)
        if ok is None:
            ok = self.names[fn] = os.path.realpath(fn).startswith(self.watched)
        return ok

    def line(self, code, lineno):
        """A simulated thread reaches a line of watched code."""
        if self.budget:
            key = (id(code), lineno)
            hit = self.lines.get(key)
            if hit is None:
                self.alive.append(code)
                h = zlib.crc32(f"{os.path.basename(code.co_filename)}:{code.co_name}:{lineno}".encode())
                hit = self.lines[key] = h % self.modulus in self.residues
            if hit:
                self.budget -= 1
                self.turn += 1
                self.switch(self.turn)
        else:
            hit = False
        self.step()
        return hit and self.budget or self.left is not None     # is this line still of interest?

    def trace_global(self, frame, event, arg):      # before Python 3.12
        return self.trace_local if self.is_watched(frame.f_code.co_filename) and (self.left is not None or self.budget) else None

    def trace_local(self, frame, event, arg):
        if event == "line":
            self.line(frame.f_code, frame.f_lineno)
            if self.left is None and not self.budget:
                return None
        return self.trace_local

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.failed = "too many steps"
            raise core.Hang("a thread does not stop")
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        choice = self.sched[self.pos][1]
        self.pos += 1
        self.left = self.sched[self.pos][0] if self.pos < len(self.sched) else None
        self.switch(choice)

    def runnable(self):
        return [t for t in self.tasks if not t.done and (t.waiting is None or t.waiting())]

    def switch(self, choice):
        """Called by the running task: hand over."""
        me = self.me()
        r = self.runnable()
        nxt = r[choice % len(r)] if r else None
        if nxt is me:
            return
        if nxt is None:
            self.failed = "deadlock"
            raise Deadlock("all threads wait")
        self.switches += 1
        nxt.gate.release()
        me.gate.acquire()

    def wait(self, cond):
        """Block the running task until `cond()`."""
        me = self.me()
        while not cond():
            me.waiting = cond
            try:
                r = self.runnable()
                if not r:
                    self.failed = "deadlock"
                    raise Deadlock("all threads wait")
                self.switches += 1
                r[0].gate.release()
                me.gate.acquire()
            finally:
                me.waiting = None

    def _body(self, t):
        t.gate.acquire()
        self.by_ident[_thread.get_ident()] = t
        if monitoring is None:
            sys.settrace(self.trace_global)
        try:
            t.result = t.fn()
        except BaseException as err:
            t.error = err
        finally:
            if monitoring is None:
                sys.settrace(None)
            t.done = True
            r = self.runnable()
            if r:
                r[0].gate.release()
            else:
                self.main.release()

    def run(self):
        global _current
        _current = self
        install_import_locks()
        start_monitoring()
        try:
            for t in self.tasks:
                threading.Thread(target=self._body, args=(t,), daemon=True).start()
            self.tasks[0].gate.release()
            if not self.main.acquire(timeout=core.RUN_TIMEOUT * 0.8):
                raise core.Hang("the threads do not stop")
        finally:
            _current = None
            stop_monitoring()
        if any(not t.done for t in self.tasks):
            self.failed = self.failed or "deadlock"
        return self.tasks


# -------------------------------------------------------------------------------- line events, by `sys.monitoring`

monitoring = getattr(sys, "monitoring", None)
TOOL = 4
_watching = {}          # code objects that report their lines, by `id`; they compare by content


def _on_start(code, offset):
    s = _current
    if s is None:
        return None
    if s.is_watched(code.co_filename) and id(code) not in _watching:
        _watching[id(code)] = code
        monitoring.set_local_events(TOOL, code, monitoring.events.LINE)
    return monitoring.DISABLE


def _on_line(code, lineno):
    s = _current
    if s is None or s.me() is None:
        return None
    return None if s.line(code, lineno) else monitoring.DISABLE


def start_monitoring():
    if monitoring is None:
        return
    if monitoring.get_tool(TOOL) is None:
        monitoring.use_tool_id(TOOL, "mcsim")
        monitoring.register_callback(TOOL, monitoring.events.PY_START, _on_start)
        monitoring.register_callback(TOOL, monitoring.events.LINE, _on_line)
    monitoring.set_events(TOOL, monitoring.events.PY_START)
    monitoring.restart_events()


def stop_monitoring():
    if monitoring is not None:
        monitoring.set_events(TOOL, 0)


# -------------------------------------------------------------------------------- locks

class CoopLock:
    """A lock that parks the simulated thread instead of blocking."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            s = _current
            if s is None or s.me() is None:
                raise RuntimeError("a lock is held by a thread that is not simulated")
            s.wait(self._free)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


class patched_threading:
    """While active, locks created through `threading` are cooperative."""
    def __enter__(self):
        self.old = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = CoopLock, CoopRLock

    def __exit__(self, *exc):
        threading.Lock, threading.RLock = self.old


class CoopModuleLock:
    """Replaces `importlib._bootstrap._ModuleLock`, with the same protocol, deadlock avoidance included."""
    def __init__(self, name):
        self.name = name
        self.owner = None
        self.count = 0

    def acquire(self):
        me = _thread.get_ident()
        if self.owner is None or self.owner == me:
            self.owner = me
            self.count += 1
            return True
        s = _current
        if s is None or s.me() is None:
            raise RuntimeError(f"import lock of {self.name} held by a thread that is not simulated")
        # would waiting close a cycle?
        lock, seen = self, set()
        while lock is not None and lock.owner is not None and lock.owner not in seen:
            if lock.owner == me:
                raise importlib._bootstrap._DeadlockError(f"deadlock detected by {self.name}")
            seen.add(lock.owner)
            lock = _blocked_on.get(lock.owner)
        _blocked_on[me] = self
        try:
            s.wait(lambda: self.owner is None)
        finally:
            _blocked_on.pop(me, None)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None


_blocked_on = {}


def install_import_locks():
    importlib._bootstrap._ModuleLock = CoopModuleLock
