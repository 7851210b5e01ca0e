"""Worlds whose runs take place inside one simulated process.

The simulated process is a forked child. Everything nondeterministic in it is decided by the spec: call-outs of
generated code and file system calls report to a local fault plan, entropy is seeded, threads are scheduled by `sched`.
"""
import collections
import fnmatch
import os
import sys
import traceback

from . import core, proc


class Rt:
    """The simulator, inside the simulated process."""
    def __init__(self, child, plan=()):
        self.child = child
        self.scratch = child.scratch
        self.src = os.path.join(child.scratch, "src")
        self.log = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.nontrivial = False
        self.steps = 0
        self.simtime = 0.0
        self.violation = None
        self.fired = []
        self.hook = None            # callable(name): called at each call-out, before the fault plan
        self.quiet = 0
        self.clock = 2_100_000_000
        self.set_plan(plan)

    def set_plan(self, plan):
        self.plan = [dict(f, seen=0) for f in plan]

    def event(self, text):
        self.log.append(core.SCRATCH_RE.sub("@", text))

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def violate(self, kind, message):
        if self.violation is None:
            self.violation = (kind, core.SCRATCH_RE.sub("@", message))
        raise core.Violation(kind, message)

    def check(self, cond, kind, message):
        if not cond:
            self.violate(kind, message() if callable(message) else message)

    def point(self, name, payload=None):
        """A call-out. The fault plan decides whether it fails."""
        if self.quiet:
            return
        self.steps += 1
        if self.hook is not None:
            self.hook(name)
        for f in self.plan:
            if not fnmatch.fnmatchcase(name, f["at"]):
                continue
            f["seen"] += 1
            if f["n"] != "all" and f["seen"] - 1 != f["n"]:
                continue
            self.fired.append((name, f["exc"]))
            self.nontrivial = True
            self.fault(f"{f['exc']}@{name.split('#')[0]}")
            self.event(f"fault {f['exc']} at {name}")
            if f["exc"].startswith("errno:"):
                no = proc.ERRNOS[f["exc"][6:]]
                err = OSError(no, os.strerror(no))
            else:
                err = proc.make_exc(f["exc"], f"injected at {name}")
            err._injected = len(self.fired)
            raise err

    def write(self, rel, text, mtime=None):
        p = os.path.join(self.src, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        self.clock += 1
        if mtime is None:       # never depends on the real clock
            mtime = self.clock
        os.utime(p, (mtime, mtime))
        return p


def child_entry(child, world, spec):
    rt = Rt(child, spec.get("faults", ()))
    os.makedirs(rt.src, exist_ok=True)
    sys.path.insert(0, rt.src)
    sys.path_importer_cache.clear()
    sys.dont_write_bytecode = not spec.get("write_bytecode", False)
    sys.pycache_prefix = None

    def stop(cls, path):
        if child.busy or not world.watch_fs:
            return ("go",)
        child.busy = True
        try:
            rt.point(f"fs:{cls}", path)
        finally:
            child.busy = False
        return ("go",)
    child.stop = stop
    child.sim.point = rt.point
    child.sim.rt = rt
    harness = None
    try:
        world.inproc(rt, spec)
    except core.Violation:
        pass
    except core.HarnessError:
        raise
    except BaseException as err:
        tb = err.__traceback__
        files = []
        while tb is not None:
            files.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
            tb = tb.tb_next
        inside = os.path.realpath(os.path.join(core.REPO, "mcpyrate")) + os.sep
        if any(f.startswith(inside) for f in files):
            rt.violation = rt.violation or ("unexpected-exception", core.SCRATCH_RE.sub("@", "".join(traceback.format_exception(err))[-1800:]))
        else:
            harness = traceback.format_exc()
    child.stop = lambda cls, path: ("go",)
    return {"log": rt.log, "faults": dict(rt.faults), "probes": dict(rt.probes), "nontrivial": rt.nontrivial, "steps": rt.steps,
            "simtime": rt.simtime, "violation": rt.violation, "harness": harness, "carry": getattr(rt, "carry", None)}


class InProcWorld(core.World):
    watch_fs = False
    uid = None
    real = ["mcpyrate (whole package, from /repo)", "CPython (a forked process per run)"]
    stubs = ["faults: raised at call-outs of generated code", "os.urandom: seeded", "stdin, stdout, stderr: in memory"]
    assumptions = []

    def run(self, spec, ctx):
        self.prepare(spec, ctx)
        p = proc.run_alone(ctx, self.id, child_entry, self, spec, entropy=spec.get("entropy", "0"), uid=self.uid)
        if p.crashed:
            raise core.HarnessError("the simulated process crashed by itself")
        r = p.result
        for line in r["log"]:
            ctx.event(line)
        ctx.faults.update(r["faults"])
        ctx.probes.update(r["probes"])
        ctx.steps += r["steps"]
        ctx.simtime += r["simtime"]
        ctx.nontrivial = r["nontrivial"]
        self.after(spec, ctx, r)
        if r["violation"]:
            ctx.violate(*r["violation"])
        if r["harness"]:
            raise core.HarnessError(r["harness"])

    def prepare(self, spec, ctx):
        pass

    def after(self, spec, ctx, result):
        pass

    def inproc(self, rt, spec):
        raise NotImplementedError
