"""Simulated processes.

A `Proc` is one process lifetime: a real forked process running the real mcpyrate and the real CPython import
system. Every file system event inside the scratch tree, and every call-out from generated code (`_sim.point`),
stops the process and reports to the simulator, which answers what happens: go on, fail with an errno, raise an
exception, or crash. So the simulator decides every interleaving and every fault; a process runs only between an
answer and its next report, and only one process runs at a time.

Seams: `sys.addaudithook` (open, rename, remove, mkdir, rmdir, listdir, scandir), `os.stat` as seen by Python code,
the builtin `open` as seen by `mcpyrate.importer` (so that write and close are visible), `os.urandom`.
Containment: a write, rename or delete outside the scratch tree is refused, and reported.
"""
import builtins
import errno
import importlib
import io
import itertools
import os
import resource
import signal
import sys
import time
import traceback
import types

from . import core

real_stat = os.stat
real_open = builtins.open
ERRNOS = {n: getattr(errno, n) for n in ("ENOSPC", "EACCES", "EIO", "EROFS", "EMFILE", "EDQUOT", "EPERM", "ENOENT", "EINTR", "ESTALE", "ENOTEMPTY")}

EXCS = {"ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError, "KeyError": KeyError,
        "RecursionError": RecursionError, "MemoryError": MemoryError, "AssertionError": AssertionError,
        "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
        "ImportError": ImportError, "SyntaxError": SyntaxError, "OSError": OSError, "TypeError": TypeError,
        "StopIteration": StopIteration, "AttributeError": AttributeError, "RuntimeError": RuntimeError,
        "UnicodeDecodeError": lambda m: UnicodeDecodeError("utf-8", b"x", 0, 1, m), "LookupError": LookupError,
        "TimeoutError": TimeoutError, "NotImplementedError": NotImplementedError, "EOFError": EOFError, "BufferError": BufferError}


# The scan results of mcpyrate's own modules, as mcpyrate would find them in its `__pycache__` when installed. They are computed
# once by the code under test. A miss costs only time.
OVERLAY = {}


def warm_overlay():
    import importlib.util
    import shutil
    root = core.fresh_dir(core.scratch_root() + "w")
    old = sys.pycache_prefix
    try:
        sys.pycache_prefix = root
        from mcpyrate.importer import path_stats
        for name in ("quotes", "metatools", "debug", "multiphase", "activate"):
            path_stats(os.path.join(core.REPO, "mcpyrate", f"{name}.py"))
        for d, _, files in os.walk(root):
            for f in files:
                with open(os.path.join(d, f), "rb") as fp:
                    OVERLAY[os.path.join(d, f)[len(root):]] = fp.read()
    except Exception:
        OVERLAY.clear()
    finally:
        sys.pycache_prefix = old
        shutil.rmtree(root, ignore_errors=True)


def overlay(p):
    d, f = os.path.split(p)
    if os.path.basename(d) == "__pycache__":
        return OVERLAY.get(os.path.join(os.path.dirname(d), f))


def make_exc(name, msg):
    return EXCS[name](msg)


CRASH_CODE = 77


class Child:
    """Lives inside the forked process."""
    def __init__(self, rfd, wfd, scratch, entropy, clock=None):
        self.rfd, self.wfd = rfd, wfd
        self.scratch = scratch
        self.roots = (scratch + os.sep,)
        self.busy = False
        self.notes = []
        self.escapes = []
        self.filter = None       # callable(cls) -> bool: which events stop the process
        self.counter = 0
        self.clock = clock       # ns; also the modification time of the files the process writes
        self.rng = core.make_rng("entropy", entropy)
        self.loaded_names = ()

    # ---- protocol
    def ask(self, cls, path):
        """Report an event, wait for the answer. Returns the answer (a tuple)."""
        self.counter += 1
        loaded = tuple(n for n in self.loaded_names if n in sys.modules)
        core.send(self.wfd, ("ev", cls, path, loaded))
        return core.recv(self.rfd)

    def obey(self, answer, cls, path):
        do = answer[0]
        if do == "go":
            return answer
        if do == "crash":
            os._exit(CRASH_CODE)
        if do == "err":
            e = OSError(ERRNOS[answer[1]], os.strerror(ERRNOS[answer[1]]), path)
            e._injected = True
            raise e
        if do == "raise":
            e = make_exc(answer[1], answer[2])
            e._injected = True
            raise e
        return answer

    def stop(self, cls, path):
        if self.busy:
            return ("go",)
        if self.filter is not None and not self.filter(cls):
            return ("go",)
        self.busy = True
        try:
            answer = self.ask(cls, path)
        finally:
            self.busy = False
        return self.obey(answer, cls, path)

    # ---- classification
    def inside(self, path):
        return path == self.scratch or path.startswith(self.roots)

    def category(self, path):
        base = os.path.basename(path)
        if ".mcpyrate.pickle" in base:
            return "pickle"
        if ".pyc" in base:
            cache = "__pycache__" in path or path.startswith(os.path.join(self.scratch, "pc") + os.sep)
            return "pyc" if cache else "src"    # a module distributed as byte code only
        if base.endswith(".py"):
            return "src"
        return "dir" if "." not in base else "other"

    def rel(self, path):
        # the pyc writer's temporary file name contains an `id`
        p = os.path.relpath(path, self.scratch)
        if ".pyc." in p:
            p = p[:p.index(".pyc.")] + ".pyc.TMP"
        return p

    def absolute(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            try:
                p = os.fspath(p)
            except TypeError:
                return None
            if isinstance(p, bytes):
                p = os.fsdecode(p)
        return os.path.normpath(os.path.join(os.getcwd(), p))

    def audit(self, event, args):
        if self.busy:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or path is None:
                return
            p = self.absolute(path)
            if p is None:
                return
            if isinstance(mode, str):
                writing = any(c in mode for c in "wax+")
            else:
                writing = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if not self.inside(p):
                if writing and not p.startswith(("/dev/null", "/dev/tty", "/proc/self/")):
                    self.escape("open-for-write", p)
                return
            self.stop(f"{'open_w' if writing else 'open_r'}:{self.category(p)}", self.rel(p))
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "shutil.rmtree"):
            p = self.absolute(args[0])
            if p is None:
                return
            if len(args) > 1 and event in ("os.remove", "os.rmdir", "shutil.rmtree") and isinstance(args[1], int) and args[1] != -1:
                p = self.absolute(os.path.join(os.readlink(f"/proc/self/fd/{args[1]}"), os.fspath(args[0])))
            if not self.inside(p):
                self.escape(event, p)
                return
            self.stop(f"{event[3:] if event.startswith('os.') else 'rmtree'}:{self.category(p)}", self.rel(p))
        elif event in ("os.rename", "os.link", "os.symlink"):
            src, dst = self.absolute(args[0]), self.absolute(args[1])
            for p in (src, dst):
                if p is not None and not self.inside(p) and not (event == "os.symlink" and p == src):
                    self.escape(event, p)
                    return
            if event == "os.rename" and self.clock is not None and os.path.isfile(src):
                os.utime(src, ns=(self.now(), self.now()))      # byte code is written to a temporary file first
            self.stop(f"{event[3:]}:{self.category(dst)}", self.rel(dst))
        elif event in ("os.listdir", "os.scandir"):
            if isinstance(args[0], int):
                return
            p = self.absolute(args[0] if args[0] is not None else ".")
            if p is not None and self.inside(p):
                self.stop(f"list:{self.category(p)}", self.rel(p))
        elif event in ("os.system", "os.exec", "subprocess.Popen", "os.posix_spawn", "os.kill", "os.fork", "os.forkpty"):
            self.escape(event, str(args[:1]))

    def now(self):
        return self.clock + self.counter * 1000

    def stamp(self, fd):
        if self.clock is not None:
            os.utime(fd, ns=(self.now(), self.now()))

    def escape(self, event, p):
        """Refuse an effect outside the scratch tree."""
        if os.path.basename(p).endswith((".pyc", ".mcpyrate.pickle")) or "__pycache__" in p or ".pyc." in p:
            # byte code caches of mcpyrate itself or of the standard library: harmless, but keep the sandbox clean
            raise PermissionError(errno.EACCES, "refused by the simulator", p)
        self.escapes.append((event, p))
        raise PermissionError(errno.EACCES, "refused by the simulator", p)

    def install(self):
        child = self

        sys.addaudithook(self.audit)

        def sim_stat(path, *args, **kw):
            if not child.busy and not isinstance(path, int) and not kw:
                p = child.absolute(path)
                if p is not None and child.inside(p):
                    child.stop(f"stat:{child.category(p)}", child.rel(p))
            return real_stat(path, *args, **kw)
        os.stat = sim_stat

        def sim_urandom(n):
            return child.rng.randbytes(n)
        os.urandom = sim_urandom
        import random
        random.seed(self.rng.random())
        if self.clock is not None:
            time.time_ns = self.now
            time.time = lambda: self.now() * 1e-9

        # CPython names the temporary file of a byte code write after the address of a string. Forked processes share addresses, so a
        # file left behind by a crash would collide with the next process, by chance.
        base, serial = self.rng.getrandbits(60) << 20, itertools.count()
        importlib._bootstrap_external.id = lambda obj: base + next(serial)

        class SimFile(io.BufferedIOBase):
            """Makes write and close visible to the simulator."""
            def __init__(self, f, path):
                self._f = f
                self._p = path
                self._buf = []

            def writable(self):
                return True

            def write(self, data):
                ans = child.stop(f"write:{child.category(self._p)}", child.rel(self._p))
                if ans[0] == "tear":      # part of the data reaches the disk, then the process dies
                    data = b"".join(self._buf) + bytes(data)
                    os.write(self._f.fileno(), data[:int(len(data) * ans[1])])
                    child.stamp(self._f.fileno())
                    os._exit(CRASH_CODE)
                if ans[0] == "short":     # part of the data reaches the disk, then the write fails
                    data = b"".join(self._buf) + bytes(data)
                    self._buf = []
                    os.write(self._f.fileno(), data[:int(len(data) * ans[1])])
                    child.stamp(self._f.fileno())
                    raise OSError(errno.ENOSPC, "No space left on device (injected)")
                self._buf.append(bytes(data))
                return len(data)

            def close(self):
                if not self.closed:
                    try:
                        ans = child.stop(f"close:{child.category(self._p)}", child.rel(self._p))
                        data = b"".join(self._buf)
                        self._buf = []
                        if ans[0] in ("tear", "short"):
                            os.write(self._f.fileno(), data[:int(len(data) * ans[1])])
                            child.stamp(self._f.fileno())
                            if ans[0] == "tear":
                                os._exit(CRASH_CODE)
                            raise OSError(errno.ENOSPC, "No space left on device (injected)")
                        self._f.write(data)
                        self._f.flush()
                        child.stamp(self._f.fileno())
                        self._f.close()
                    finally:
                        try:
                            self._f.close()
                        except OSError:
                            pass
                        super().close()

        def sim_open(file, mode="r", *args, **kw):
            if mode == "rb" and not isinstance(file, int):
                p = child.absolute(file)
                if p is not None and not child.inside(p):
                    data = overlay(p)
                    if data is not None:
                        return io.BytesIO(data)
            f = real_open(file, mode, *args, **kw)
            if "b" in mode and "w" in mode and not isinstance(file, int):
                p = child.absolute(file)
                if p is not None and child.inside(p):
                    return SimFile(f, p)
            return f
        importlib.import_module("mcpyrate.importer").open = sim_open

        sim = types.ModuleType("_sim")

        def point(name, payload=None):
            """A call-out from generated code. The simulator may make it raise."""
            ans = child.stop(f"point:{name}", repr(payload) if payload is not None else "")
            return ans[1] if len(ans) > 1 else None

        def note(*what):
            child.notes.append(what)
        sim.point = point
        sim.note = note
        sim.__spec__ = None
        sys.modules["_sim"] = sim
        self.sim = sim


class Proc:
    """The simulator's handle of a process lifetime."""
    def __init__(self, ctx, name, fn, *args, entropy="0", fsize=None, hashseed=None, uid=None, clock=None):
        self.ctx = ctx
        self.name = name
        self.result = None
        self.crashed = False
        self.done = False
        self.pending = None     # the event the process is stopped at
        self.nevents = 0
        cr, pw = os.pipe()
        pr, cw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                core.die_with_parent()
                os.close(pw)
                os.close(pr)
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                child = Child(cr, cw, ctx.scratch, entropy, clock)
                sys.stdin = io.StringIO("")
                sys.stdout = io.StringIO()
                sys.stderr = io.StringIO()
                if uid is not None:
                    os.setgroups([])
                    os.setgid(uid)
                    os.setuid(uid)
                child.install()
                if fsize is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
                try:
                    res = fn(child, *args)
                    child.busy = True
                    msg = ("res", res, child.notes, child.escapes)
                except BaseException as err:
                    child.busy = True
                    msg = ("exc", f"{type(err).__name__}: {err}", traceback.format_exc(), child.escapes)
                core.send(cw, msg)
                code = 0
            finally:
                os._exit(code)
        os.close(cr)
        os.close(cw)
        self.rfd, self.wfd = pr, pw
        ctx.procs.append(self)
        self._receive()

    def _receive(self):
        try:
            msg = core.recv(self.rfd, core.RUN_TIMEOUT)
        except EOFError:
            self.done = True
            _, status = os.waitpid(self.pid, 0)
            self.pid = None
            code = os.waitstatus_to_exitcode(status)
            if code == CRASH_CODE:
                self.crashed = True
            else:
                raise core.HarnessError(f"simulated process {self.name} ended with status {code}")
            return
        if msg[0] == "ev":
            self.pending = msg[1:]
            self.nevents += 1
            self.ctx.steps += 1
            return
        self.pending = None
        self.done = True
        if msg[0] == "exc":
            raise core.HarnessError(f"in simulated process {self.name}: {msg[1]}\n{msg[2]}")
        _, self.result, self.notes, self.escapes = msg
        if self.escapes:
            self.ctx.violate("escape", f"{self.name}: effect outside the scratch tree: {self.escapes[:3]}")

    def answer(self, *ans):
        core.send(self.wfd, ans or ("go",))
        self.pending = None
        self._receive()

    def kill(self):
        if self.pid is not None:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
            self.pid = None
        for fd in (self.rfd, self.wfd):
            try:
                os.close(fd)
            except OSError:
                pass

    def finish(self):
        self.kill()
        if self in self.ctx.procs:
            self.ctx.procs.remove(self)


def run_alone(ctx, name, fn, *args, decide=None, **kw):
    """Run one process to its end. `decide(proc, cls, path, loaded)` returns an answer tuple, or `None` for "go on"."""
    p = Proc(ctx, name, fn, *args, **kw)
    while not p.done:
        cls, path, loaded = p.pending
        ans = decide(p, cls, path, loaded) if decide else None
        p.answer(*(ans or ("go",)))
    p.finish()
    return p
