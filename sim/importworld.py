"""The import world: source trees, byte code caches, an editor, process lifetimes, crashes, I/O faults."""
import copy
import fnmatch
import importlib
import os
import pickle
import shutil
import struct
import sys

from . import core, proc, srcgen
from .srcgen import Model, macro_closure, load_closure, relpath

T0 = 2_000_000_000     # the simulated epoch; later than the mtime of any real file


# -------------------------------------------------------------------------------- inside a simulated process

def describe(err):
    chain = []
    seen = set()
    todo = [err]
    injected = False
    while todo:
        e = todo.pop(0)
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        chain.append(type(e).__name__)
        injected = injected or bool(getattr(e, "_injected", False))
        todo += [e.__cause__, e.__context__]
        todo += list(getattr(e, "exceptions", ()))
    return {"exc": type(err).__name__, "msg": str(err)[-600:], "chain": chain, "injected": injected}


def child_main(child, job):
    env = job["env"]
    child.busy = True
    child.src = src = os.path.join(child.scratch, env.get("src", "src"))
    for r in env.get("roots", ()):
        os.makedirs(os.path.join(child.scratch, r), exist_ok=True)
    sys.path[0:0] = [*(os.path.normpath(os.path.join(child.scratch, r)) for r in env.get("roots", ())), "" if env.get("dot") else src]
    if env.get("dot"):
        os.chdir(src)
    sys.path_importer_cache.clear()
    sys.dont_write_bytecode = not job["write"]
    sys.pycache_prefix = os.path.join(child.scratch, "pc") if job["prefix"] else None
    if env.get("stdlib"):
        # The tree is in `site-packages`, below the standard library. That is looked up when mcpyrate is imported.
        old = sys.modules["mcpyrate.importer"]
        sys.modules["mcpyrate.activate"].deactivate()
        for n in [n for n in sys.modules if n == "mcpyrate" or n.startswith("mcpyrate.")]:
            del sys.modules[n]
        os.__file__ = os.path.join(child.scratch, env["stdlib"])
        import mcpyrate.activate  # noqa: F401
        import mcpyrate.quotes, mcpyrate.metatools, mcpyrate.multiphase  # noqa: F401, E401
        sys.modules["mcpyrate.importer"].open = old.open
    child.busy = False
    child.loaded_names = tuple(job["names"])
    watch = job["watch"]
    child.sim.epoch = job.get("epoch", 0)

    def flt(cls):
        if cls.startswith("point:op"):
            return True
        return any(fnmatch.fnmatchcase(cls, w) for w in watch)
    child.filter = flt

    def audit2(event, args):
        if event == "compile" and not child.busy:
            source, filename = args
            if source is not None and isinstance(filename, (str, bytes)):
                fn = os.fsdecode(filename)
                if child.inside(fn):
                    child.notes.append(("parse", os.path.relpath(fn, src)))
    sys.addaudithook(audit2)

    out = []
    for op in job["ops"]:
        n0 = len(child.notes)
        importlib.invalidate_caches()
        try:
            if op[0] == "import":
                m = importlib.import_module(op[1])
                res = {"ok": m.RESULT}
            elif op[0] == "reload":
                m = importlib.reload(sys.modules[op[1]])
                res = {"ok": m.RESULT, "same": m is sys.modules[op[1]]}
            elif op[0] == "stats":
                from mcpyrate.importer import path_stats
                res = {"ok": path_stats(os.path.join(src, op[1]))["mtime"]}
            elif op[0] == "value":
                res = {"ok": sys.modules[op[1]].RESULT}
            elif op[0] == "forget":
                for name in job["names"]:
                    sys.modules.pop(name, None)
                res = {"ok": None}
            elif op[0] == "point":
                child.sim.point(f"op:{op[1]}")
                res = {"ok": None}
            elif op[0] == "macropython":
                res = run_macropython(child, op[1], op[2])
            elif op[0] == "absent":
                res = {"ok": [n for n in job["names"] if n in sys.modules]}
            else:
                raise core.HarnessError(f"unknown op {op}")
        except BaseException as err:
            if isinstance(err, core.HarnessError):
                raise
            res = describe(err)
        res["notes"] = child.notes[n0:]
        out.append(res)
    return {"ops": out, "stderr": sys.stderr.getvalue()[-300:]}


def run_macropython(child, argv, how):
    import types
    from mcpyrate.repl import macropython
    launcher = types.ModuleType("__main__")
    sys.modules["__main__"] = launcher
    macropython._macropython_module = sys.modules["__macropython__"] = launcher
    old = sys.argv, list(sys.path), os.getcwd()
    sys.argv = ["macropython"] + [a.replace("@SRC@", child.src) for a in argv]
    for x in (child.src, os.path.join(child.scratch, "elsewhere")):
        if x in sys.path:
            sys.path.remove(x)
    sys.path.insert(0, os.path.join(child.scratch, "bin"))      # the directory of the `macropython` script
    for x in how.get("pythonpath", ()):
        sys.path.insert(1, os.path.join(child.scratch, x))
    child.busy = True
    os.makedirs(os.path.join(child.scratch, how["cwd"]), exist_ok=True)
    os.chdir(os.path.join(child.scratch, how["cwd"]))
    child.busy = False
    try:
        try:
            macropython.main()
        except BaseException as err:
            if isinstance(err, core.HarnessError):
                raise
            res = describe(err)
            res["code"] = getattr(err, "code", None)
            res["module"] = getattr(err, "name", None)
        else:
            res = {"ok": None}
        m = sys.modules["__main__"]
        res["main"] = "launcher" if m is launcher else m.__name__
        res["result"] = getattr(m, "RESULT", None)
        res["out"] = sys.stdout.getvalue()[-300:] if hasattr(sys.stdout, "getvalue") else ""
        return res
    finally:
        child.busy = True
        sys.argv, sys.path[:] = old[:2]
        os.chdir(old[2])
        child.busy = False


# -------------------------------------------------------------------------------- the simulator's side

class Tree:
    """The source tree on disk, its clock, and the reference model."""
    def __init__(self, ctx, mods, prefix, env=None):
        self.ctx = ctx
        self.env = env or {}
        self.mods = copy.deepcopy(mods)
        self.src = os.path.join(ctx.scratch, self.env.get("src", "src"))
        self.pc = os.path.join(ctx.scratch, "pc")
        self.prefix = prefix
        self.now = T0 * 10**9                   # ns
        self.mtime = {}
        self.history = {}                       # module -> stamps its byte code may carry
        os.makedirs(self.src)
        if prefix:
            for p, data in proc.OVERLAY.items():
                os.makedirs(self.pc + os.path.dirname(p), exist_ok=True)
                with open(self.pc + p, "wb") as f:
                    f.write(data)
        for name in sorted(self.mods):
            self.now += 10**9
            self.write(name, self.now)
        self.sync_history()

    def path(self, name):
        return os.path.join(self.src, relpath(self.mods, name))

    def cache_path(self, name, kind):
        p = self.path(name)
        d, f = os.path.split(p)
        stem = f.rsplit(".", 1)[0] + f".{sys.implementation.cache_tag}"
        d = os.path.join(self.pc, d.lstrip("/")) if self.prefix else os.path.join(d, "__pycache__")
        if kind == "dir":
            return d
        return os.path.join(d, stem + (".pyc" if kind == "pyc" else ".mcpyrate.pickle"))

    def write(self, name, mtime):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = os.path.join(self.ctx.scratch, "editor.tmp")
        data = srcgen.render(self.mods, name).encode("utf-8")
        if self.mods[name].get("sourceless"):
            code = compile(data, f"{name}.py", "exec", dont_inherit=True)
            data = importlib._bootstrap_external._code_to_timestamp_pyc(code, mtime // 10**9, len(data))
        with open(tmp, "wb") as f:
            f.write(data)
        os.utime(tmp, ns=(mtime, mtime))
        os.replace(tmp, p)
        self.mtime[name] = mtime

    def stamp(self, name):
        """The time stamp that identifies the current state of everything the expansion of `name` depends on."""
        return int(max(self.mtime[x] for x in macro_closure(self.mods, name)) * 1e-9)

    def sync_history(self):
        for name in self.mods:
            self.history.setdefault(name, set()).add(self.stamp(name))

    def tick(self, dt):
        self.now += int(max(1.0, dt) * 10**9)
        self.ctx.simtime += max(1.0, dt)

    def edit(self, op):
        name, how = op["mod"], op["how"]
        mod = self.mods[name]
        self.tick(op.get("dt", 1))
        when = self.now
        if how == "deps":
            new = copy.deepcopy(op["arg"])
            new["ver"] = mod["ver"] + 1
            self.mods[name] = new
        elif how in ("bump", "back"):
            mod["ver"] += 1
        if how == "back" or op.get("back"):
            # An older modification time, as after restoring a backup. Only when the change is detectable at all, i.e.
            # no dependent has ever been seen with the stamp it would get now.
            old = self.mtime[name]
            when = T0 * 10**9 + int(op["arg"] * 10**9) if how == "back" else old - int(op["back"] * 10**9)
            self.mtime[name] = when
            deps = [x for x in self.mods if name in macro_closure(self.mods, x)]
            if any(self.stamp(x) in self.history[x] for x in deps):
                when = self.now
            else:
                self.ctx.probe("edit-with-older-mtime")
            self.mtime[name] = old
        self.write(name, when)
        self.sync_history()
        self.ctx.event(f"edit {name} {how} v{self.mods[name]['ver']} t={when / 1e9 - T0:.3f}")

    def damage(self, op):
        name, what, kind = op["mod"], op["file"], op["kind"]
        p = self.cache_path(name, what)
        d = os.path.dirname(p)
        arg = op.get("arg", 0.5)
        existed = os.path.lexists(p)
        if kind == "rmtree":
            shutil.rmtree(self.pc, ignore_errors=True)
            for root, dirs, files in os.walk(self.src, topdown=False):
                for x in dirs:
                    if x == "__pycache__":
                        q = os.path.join(root, x)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)
        elif kind == "delete":
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            elif existed:
                os.unlink(p)
        elif kind == "dir-is-file":
            p = self.cache_path(name, "dir")
            shutil.rmtree(p, ignore_errors=True)
            if not os.path.exists(p) and os.path.isdir(os.path.dirname(p)):
                with open(p, "wb") as f:
                    f.write(b"not a directory")
        elif not os.path.isdir(d):
            self.ctx.event(f"damage {name} {what} {kind}: no cache yet")
            return
        else:
            data = b""
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    data = f.read()
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            elif os.path.lexists(p):
                os.unlink(p)
            if kind == "is-directory":
                os.mkdir(p)
            elif kind == "dangling-link":
                os.symlink(os.path.join(self.ctx.scratch, "nowhere", "x"), p)
            elif kind == "empty":
                new = b""
            elif kind == "truncate":
                new = data[:int(len(data) * arg)]
                if what == "pyc":   # a truncated header; CPython itself does not survive a truncated body
                    new = data[:int(16 * arg)]
            elif kind == "garbage":
                rng = core.make_rng("garbage", arg)
                new = rng.randbytes(rng.choice((1, 15, 40, 500)))
                if what == "pyc":
                    new = b"\0\0\0\0" + new
            elif kind == "flip" and data:       # single bytes changed, anywhere
                rng = core.make_rng("flip", arg)
                new = bytearray(data)
                for _ in range(rng.choice((1, 1, 1, 2, 8))):
                    k = rng.randrange(len(new))
                    new[k] ^= rng.choice((1, 2, 0x20, 0x80, rng.randint(1, 255)))
            elif kind == "hole" and data:       # a part of the file was never written
                rng = core.make_rng("hole", arg)
                k = rng.randrange(len(data))
                n = rng.choice((1, 4, 32, 512))
                new = data[:k] + b"\0" * len(data[k:k + n]) + data[k + n:]
            elif kind in ("flip", "hole"):
                new = b""
            elif kind == "wrong-type":
                new = pickle.dumps([None, [], {}, "x", 7, {"st_mtime_ns": None}, {"other": 1}][int(arg * 7) % 7])
            elif kind == "bad-stamp":
                new = data[:8] + struct.pack("<I", 12345) + data[12:] if len(data) > 16 else b""
            elif kind == "bad-flags":
                new = data[:4] + b"\xff\xff\xff\xff" + data[8:] if len(data) > 16 else b""
            elif kind == "tail":
                new = data + b"trailing bytes left by a longer file" if what == "pickle" else data[:16 if not data else len(data)]
            else:
                raise core.HarnessError(kind)
            if kind not in ("is-directory", "dangling-link"):
                with open(p, "wb") as f:
                    f.write(new)
        self.ctx.fault(f"damage:{what}:{kind}")
        self.ctx.event(f"damage {name} {what} {kind} {'(existing file)' if existed else ''}")

    def model(self):
        return Model(self.mods)


UNSAFE_CLASSES = ("open_r:src", "list:dir", "point:*", "stat:*", "list:*")


class FaultPlan:
    """Faults of one process: each is {"cls": glob, "n": ordinal among matching events or "all", "do": action}."""
    def __init__(self, world, tree, faults):
        self.faults = [dict(f, seen=0) for f in faults]
        self.tree = tree
        self.world = world
        self.may_fail = False
        self.fired = []
        self.edited = {}    # module -> set of versions that may have been seen
        self.structs = []   # the tree as it was before each edit that changed a module's dependencies

    def decide(self, p, cls, path, loaded):
        ans = None
        for f in self.faults:
            if not fnmatch.fnmatchcase(cls, f["cls"]) or f.get("on") and os.path.basename(f["on"]) not in path:
                continue
            f["seen"] += 1
            if f["n"] != "all" and f["seen"] - 1 != f["n"]:
                continue
            do = f["do"]
            if do.startswith(("edit:", "deps:")):
                name = do[5:]
                tree = self.tree
                live = set(loaded) | self.world.live_loaded(p)
                if not self.world.allow_f1 and self.world.finding_f1(live, name):
                    tree.ctx.probe("edit-skipped-because-of-F1")
                    continue
                if name not in self.edited:
                    self.edited[name] = {tree.mods[name]["ver"]}
                if do.startswith("deps:"):      # the new version has other macro-imports
                    if name in live and any(name in load_closure(tree.mods, x) for x in tree.mods if x != name):
                        continue
                    if any(x in self.edited for d in f["arg"]["deps"] + f["arg"].get("ddeps", []) if d["to"] in tree.mods for x in load_closure(tree.mods, d["to"])):
                        continue                # it would start to depend on something already out of date: F1
                    self.structs.append(copy.deepcopy(tree.mods))
                    tree.edit({"mod": name, "how": "deps", "dt": 1, "arg": f["arg"]})
                    tree.ctx.fault("new-dependencies-during-import")
                else:
                    tree.edit({"mod": name, "how": "bump", "dt": 1})
                self.edited[name].add(tree.mods[name]["ver"])
                tree.ctx.fault("edit-during-import")
                self.fired.append(f"{cls}@{do}")
                continue
            if do == "clean":
                tree = self.tree
                tree.damage({"mod": next(iter(tree.mods)), "file": "dir", "kind": "rmtree"})
                self.fired.append(do)
                continue
            if ans is not None:
                continue
            if do == "crash":
                ans = ("crash",)
            elif do.startswith("err:"):
                ans = ("err", do[4:])
                if any(fnmatch.fnmatchcase(cls, u) for u in UNSAFE_CLASSES):
                    self.may_fail = True
            elif do.startswith("raise:"):
                ans = ("raise", do[6:], "injected")
                self.may_fail = True
            elif do.startswith(("tear:", "short:")):
                if not cls.startswith(("write:", "close:")):
                    continue
                k, x = do.split(":")
                ans = (k, float(x))
            else:
                raise core.HarnessError(do)
            self.fired.append(f"{cls}@{do}")
            tree = self.tree
            tree.ctx.fault(f"{do.split(':')[0]}:{do.split(':')[1]}@{cls}" if do.startswith("err:") else f"{do.split(':')[0]}@{cls}")
        return ans

    def watch(self):
        return sorted({f["cls"] for f in self.faults})


class ImportWorld(core.World):
    real = ["mcpyrate (whole package, from /repo)", "CPython import system, pyc reader and writer, pickle, marshal",
            "process lifetimes (real forked processes)", "file system calls on a scratch tmpfs"]
    stubs = ["clock: `time.time` and file modification times (of sources, edits and cache files) are set by the simulator", "storage faults and crashes: injected at intercepted calls",
             "editor and cache cleaner: operations of the simulator", "os.urandom: seeded"]
    strict_cache = False        # C02
    assumptions = [
        "successive versions of a source file differ in modification time by at least one whole second (the resolution of a .pyc)",
        "a byte code body is never silently corrupted: CPython itself cannot detect that",
        "an edit of a macro module that a running process has already loaded is followed by reloading it (see known finding F1)"]

    def finding_f1(self, live, name):
        """Known finding F1: a macro provider that a running process has loaded goes out of date (`name` is edited; the provider is
        `name` or depends on it), and then the process expands another dependent of the provider."""
        mods = self.tree.mods
        for d in live:
            if d in mods and name in macro_closure(mods, d) and any(x != d and d in macro_closure(mods, x) for x in mods):
                return True
        return False

    def live_loaded(self, p):
        out = set()
        for q in self._live:
            if q is not p and q.pending:
                out |= set(q.pending[2])
        return out

    # ---- execution
    def run(self, spec, ctx):
        self._live = []
        self.allow_f1 = spec.get("allow_f1")
        tree = Tree(ctx, spec["tree"], spec["prefix"], spec.get("env"))
        self.tree = tree
        self.cached = {}            # module -> stamp its byte code carries; None: unknown
        self.clean_loads = {}       # module -> number of clean, caching loads since its text last changed
        self.ctx = ctx
        self.nproc = 0
        self.skews = spec.get("skew") or [0]
        self.setup(spec)
        for op in spec["ops"]:
            k = op["op"]
            if k == "edit":
                tree.edit(op)
                if op["how"] != "touch" or True:
                    self.clean_loads.pop(op["mod"], None)
            elif k == "damage":
                tree.damage(op)
                self.forget_cache()
            elif k == "proc":
                self.do_proc(op)
            elif k == "conc":
                self.do_conc(op)
            else:
                raise core.HarnessError(k)
        if spec.get("final", True):
            # Whatever happened, once the faults stop one process sees a fresh, correct tree, and the next one finds it cached.
            names = sorted(tree.mods)
            for i in range(3):
                ctx.event(f"final {i}")
                self.do_proc({"op": "proc", "ops": [["import", n] for n in names], "write": True, "faults": []}, final=i)

    def setup(self, spec):
        pass

    def forget_cache(self):
        for name in list(self.cached):
            self.cached[name] = None
        self.clean_loads.clear()

    def job(self, op, watch):
        self.nproc += 1
        return {"write": op.get("write", True), "prefix": self.tree.prefix, "names": sorted(self.tree.mods),
                "watch": watch, "ops": [o for o in op["ops"]], "epoch": self.nproc, "env": self.tree.env}

    def clock(self, now):
        """What a new process sees as the time, in ns. The clock it reads, and stamps its files with, may be off."""
        skew = self.skews[self.nproc % len(self.skews)]
        if skew:
            self.ctx.fault("clock-skew")
        return now + 10**8 + skew * 10**9

    def do_proc(self, op, final=None):
        ctx, tree = self.ctx, self.tree
        plan = FaultPlan(self, tree, op.get("faults", []))
        ops = []
        for o in op["ops"]:
            if o[0] == "edit_reload":
                ops += self.plan_edit_reload(o, ops)
            elif o[0] == "stats":
                ops.append(["stats", relpath(tree.mods, o[1]), o[1]])
            elif o[0] == "macropython":
                ops.append(o)
            else:
                ops.append(o)
        self._point_edits = {}
        job = self.job(dict(op, ops=ops), plan.watch())
        name = f"p{self.nproc}"
        ctx.event(f"{name} starts {ops} write={job['write']} fsize={op.get('fsize')}")
        p = proc.Proc(ctx, name, child_main, job, entropy=self.nproc, fsize=op.get("fsize"), clock=self.clock(tree.now))
        self._live = [p]
        snap = {}
        nedits = 0
        while not p.done:
            cls, path, loaded = p.pending
            ans = None
            if cls.startswith("point:op"):
                o = ops[int(cls.split(":")[2])]
                if o[2]["mod"] in loaded:     # otherwise (shrunk histories), nothing to reload
                    tree.edit(o[2])
                snap[int(cls.split(":")[2])] = copy.deepcopy(tree.mods)
                nedits += 1
            else:
                ans = plan.decide(p, cls, path, loaded)
                ctx.event(f"{name} {cls} {path} {'-> ' + ' '.join(map(str, ans)) if ans else ''}")
            p.answer(*(ans or ("go",)))
        p.finish()
        self._live = []
        if op.get("fsize") is not None:
            ctx.fault("file-size-limit")
            if op["fsize"] < 2000:
                ctx.probe("tiny-file-size-limit")
        if plan.fired or op.get("fsize") is not None:
            ctx.nontrivial = True
        dirty = bool(plan.fired) or op.get("fsize") is not None
        if p.crashed:
            ctx.event(f"{name} crashed")
            self.forget_cache()
            return
        if "clean" in plan.fired:
            self.forget_cache()
        self.judge(name, ops, p.result, plan, dirty, job, final=final)

    def plan_edit_reload(self, o, before):
        """Edit a loaded module in the middle of a session, then reload it and its dependents, dependencies first."""
        tree = self.tree
        _, mod, how = o[0], o[1], o[2]
        loaded = set()
        for b in before:
            if b[0] == "import":
                loaded |= load_closure(tree.mods, b[1])
        idx = len(before)
        out = [["point", idx, {"mod": mod, "how": how, "dt": 1}]]
        if mod not in loaded:
            return []
        todo = [x for x in sorted(tree.mods) if x in loaded and mod in load_closure(tree.mods, x)]
        # topological order
        done = []
        while todo:
            for x in todo:
                if not (load_closure(tree.mods, x) - {x}) & set(todo):
                    done.append(x)
                    todo.remove(x)
                    break
            else:
                raise core.HarnessError("cyclic macro dependencies")
        for x in done:
            out.append(["stats", relpath(tree.mods, x), x])
        for x in done:
            out.append(["reload", x])
        self.ctx.probe("edit-and-reload")
        self.ctx.nontrivial = True
        return out

    def judge(self, name, ops, result, plan, dirty, job, final=None, versions=None):
        ctx, tree = self.ctx, self.tree
        versions = dict(versions or {})
        for k, v in plan.edited.items():
            versions.setdefault(k, set()).update(v)
        loaded_in_proc = set()
        failed = False
        edits = [i for i, o in enumerate(ops) if o[0] == "point"]
        for i, (o, r) in enumerate(zip(ops, result["ops"])):
            if o[0] in ("point", "forget", "absent"):
                if o[0] == "absent" and r.get("ok"):
                    pass
                continue
            if o[0] == "macropython":
                failed = self.judge_macropython(name, o, r, versions, plan) or failed
                continue
            if "exc" in r:
                ok = plan.may_fail and r["injected"]
                ctx.event(f"{name} {o} -> {r['exc']} {'(injected)' if r['injected'] else ''}")
                if not ok:
                    ctx.violate("import-fails", f"{name}: {o} raised {r['exc']}: {r['msg']} (chain {r['chain']}); faults fired: {plan.fired}")
                failed = True
                ctx.probe("import-failed-by-fault")
                continue
            if o[0] == "stats":
                if o[2] in tree.mods and not versions and not any(j > i for j in edits):
                    want = max(tree.mtime[x] for x in macro_closure(tree.mods, o[2])) * 1e-9
                    ctx.check(abs(r["ok"] - want) < 1e-6, "wrong-stamp",
                              lambda: f"{name}: path_stats of {o[2]} says {r['ok']!r}, the latest modification among its macro-dependencies is {want!r}")
                continue
            mod = o[1]
            # in-process edits come one at a time; a result is judged by the final versions, after the last edit
            if any(j > i for j in edits):
                vs = {m: set(range(1, tree.mods[m]["ver"] + 1)) for m in tree.mods}
                if any(ops[j][2]["how"] == "deps" for j in edits):
                    continue
            elif edits and o[0] == "import" and i < edits[-1]:
                continue
            else:
                vs = versions
            why = srcgen.matches(r["ok"], tree.mods, mod, vs)
            if why is not None and any(srcgen.matches(r["ok"], mods, mod, vs) is None for mods in plan.structs):
                why = None
            ctx.check(why is None, "stale-or-wrong", lambda: f"{name}: {o}: {why}; faults fired: {plan.fired}")
            ctx.event(f"{name} {o} ok v{r['ok'][1]}")
            if o[0] == "import" and i < (edits[0] if edits else 10**9):
                new = load_closure(tree.mods, mod) - loaded_in_proc
                self.account(name, mod, new, r, dirty or failed or bool(versions), job, final, bool(edits))
                loaded_in_proc |= new
        if edits:
            self.forget_cache()

    def account(self, name, mod, new, r, dirty, job, final, edits):
        """Book-keeping of what is cached; for C02, check that nothing valid is expanded again."""
        ctx, tree = self.ctx, self.tree
        byfile = {}
        for m in tree.mods:
            p = os.path.join(os.path.basename(tree.src), relpath(tree.mods, m))
            byfile["/".join(p.split("/")[-2:])] = m
        expanded = {byfile.get(x[2] if x[0] == "expand" else x[3]) for x in r["notes"] if x[0] in ("expand", "dialect")}
        parsed = {m for m in tree.mods if ("parse", relpath(tree.mods, m)) in r["notes"]}
        for m in sorted(new):
            valid = self.cached.get(m, 0) == tree.stamp(m)
            if valid and self.strict_cache and not dirty and not edits:
                ctx.check(m not in expanded, "expanded-again",
                          f"{name}: importing {mod} expanded {m} again, although nothing it depends on has changed")
                if self.clean_loads.get(m, 0) >= 2:
                    ctx.check(m not in parsed, "parsed-again",
                              f"{name}: importing {mod} parsed {m} again, although its text has not changed")
                    ctx.probe("valid-cache-not-even-parsed")
                ctx.probe("valid-cache-used")
            if dirty:
                if not valid:
                    self.cached[m] = None
                    self.clean_loads.pop(m, None)
            elif job["write"] and not edits:
                self.cached[m] = tree.stamp(m)
                self.clean_loads[m] = self.clean_loads.get(m, 0) + 1
        if final == 1 and self.strict_cache and not edits:
            ctx.check(not (expanded & new), "no-recovery", f"{name}: after the faults stopped, the second import still expanded {sorted(x for x in expanded if x)}")

    def judge_macropython(self, name, o, r, versions, plan):
        raise core.HarnessError("not supported in this world")

    def do_conc(self, op):
        """Several processes at once; the schedule is explicit."""
        ctx, tree = self.ctx, self.tree
        procs = []
        self._live = []
        sched = list(op["sched"])
        for o in op["procs"]:
            plan = FaultPlan(self, tree, o.get("faults", []))
            watch = ["open_*:*", "write:*", "close:*", "rename:*", "mkdir:*", "stat:src", "remove:*"] if not o.get("faults") else \
                    ["open_*:*", "write:*", "close:*", "rename:*", "mkdir:*", "stat:src", "remove:*"] + plan.watch()
            job = self.job(o, watch)
            name = f"p{self.nproc}"
            ctx.event(f"{name} starts {o['ops']} write={job['write']} (concurrent)")
            p = proc.Proc(ctx, name, child_main, job, entropy=self.nproc, clock=self.clock(tree.now))
            procs.append((p, plan, o, job))
            self._live.append(p)
        versions = {}
        k = 0
        switches = 0
        last = None
        while True:
            runnable = [x for x in procs if not x[0].done]
            if not runnable:
                break
            if k < len(sched):
                c = sched[k] % len(runnable)
            else:
                c = 0
            k += 1
            p, plan, o, job = runnable[c]
            if last is not None and last is not p and not last.done:
                switches += 1
            last = p
            cls, path, loaded = p.pending
            ans = plan.decide(p, cls, path, loaded)
            for m, v in plan.edited.items():
                versions.setdefault(m, set()).update(v)
            ctx.event(f"{p.name} {cls} {path} {'-> ' + ' '.join(map(str, ans)) if ans else ''}")
            p.answer(*(ans or ("go",)))
        self._live = []
        ctx.fault("preemption", switches)
        ctx.nontrivial = True
        self.forget_cache()
        for p, plan, o, job in procs:
            p.finish()
            if p.crashed:
                ctx.event(f"{p.name} crashed")
                continue
            self.judge(p.name, o["ops"], p.result, plan, True, job, versions=versions)
        self.forget_cache()

    # ---- generation helpers
    def gen_imports(self, rng, tree, k=None):
        names = sorted(tree)
        k = k or rng.randint(1, len(names))
        leaves = [n for n in names if tree[n]["kind"] == "leaf"]
        if rng.random() < 0.6 and leaves:
            return [["import", n] for n in rng.sample(leaves, rng.randint(1, len(leaves)))]
        return [["import", n] for n in rng.sample(names, min(k, len(names)))]

    def gen_edit(self, rng, tree, back=True):
        names = sorted(tree)
        name = rng.choice(names)
        dt = rng.choice((1, 1, 1.0000001, 1.25, 2, 3.999999999, 60, 86400, 86400 * 30))
        r = rng.random()
        if r < 0.55:
            return {"op": "edit", "mod": name, "how": "bump", "dt": dt}
        if r < 0.65:
            return {"op": "edit", "mod": name, "how": "touch", "dt": dt}
        if r < 0.75 and back:
            return {"op": "edit", "mod": name, "how": "back", "dt": dt, "arg": -rng.randint(1, 100000) + rng.choice((0, 0.5))}
        new = self.gen_new_deps(rng, tree, name)
        tree[name] = new
        op = {"op": "edit", "mod": name, "how": "deps", "dt": dt, "arg": new}
        if back and rng.random() < 0.25:    # an older version comes back, with its time stamp
            op["back"] = rng.choice((0.5, 1, 1.5, 2, 5, 1000))
        return op

    def gen_new_deps(self, rng, tree, name):
        """Change what a module macro-imports, and how. Keep the graph acyclic."""
        mod = copy.deepcopy(tree[name])
        if mod["kind"] == "leaf" and not mod.get("pkg"):
            cands = [m for m in tree if tree[m]["kind"] == "macro"]
        elif mod.get("pkg") or mod.get("sourceless"):
            return mod
        else:
            order = list(tree)
            cands = [m for m in order[:order.index(name)] if tree[m]["kind"] == "macro" and not tree[m].get("pkg")]
        cands = [m for m in sorted(cands) if name not in load_closure(tree, m)]
        k = min(len(cands), rng.randint(0, 3))
        deps = [srcgen.gen_dep(rng, tree, name, to) for to in sorted(rng.sample(cands, k))]
        for d in deps:
            if mod.get("surface"):
                d.pop("paren", None)
            if mod.get("multi") and rng.random() < 0.5:
                d["phase"] = rng.randint(1, mod["multi"])
        mod["deps"] = deps
        if mod.get("ddeps") and rng.random() < 0.3 and not mod.get("surface"):
            mod["ddeps"] = []
        elif not mod.get("ddeps") and mod["kind"] == "leaf" and rng.random() < 0.4:
            ds = [d for d in sorted(tree) if tree[d]["kind"] == "dialect" and name not in load_closure(tree, d)]
            if ds:
                mod["ddeps"] = [{"to": rng.choice(ds), "rel": rng.random() < 0.5}]
        return mod

    def shrink(self, spec):
        ops = spec["ops"]
        if spec.get("skew", [0]) != [0]:
            yield {**spec, "skew": [0]}
        n = len(ops)
        size = max(1, n // 2)
        while size >= 1:
            for s in range(0, n, size):
                yield {**spec, "ops": ops[:s] + ops[s + size:]}
            size //= 2
        for i, op in enumerate(ops):
            for key in ("faults", "ops", "sched", "procs"):
                if op.get(key):
                    lst = op[key]
                    for j in range(len(lst)):
                        if key == "sched" and len(lst) > 16 and j % (len(lst) // 16):
                            continue
                        new = lst[:j] + lst[j + 1:] if key != "sched" else lst[:j]
                        if key == "procs" and not new:
                            continue
                        yield {**spec, "ops": ops[:i] + [{**op, key: new}] + ops[i + 1:]}
            if op["op"] == "conc":
                for j, q in enumerate(op["procs"]):
                    for key in ("faults", "ops"):
                        for t in range(len(q.get(key, []))):
                            nq = {**q, key: q[key][:t] + q[key][t + 1:]}
                            procs = op["procs"][:j] + [nq] + op["procs"][j + 1:]
                            yield {**spec, "ops": ops[:i] + [{**op, "procs": procs}] + ops[i + 1:]}
            if op.get("fsize") is not None:
                yield {**spec, "ops": ops[:i] + [{k: v for k, v in op.items() if k != "fsize"}] + ops[i + 1:]}
        if spec.get("env"):
            yield {**spec, "env": {}}
        # drop modules nobody needs
        tree = spec["tree"]
        used = set()
        for op in ops:
            if op.get("mod"):
                used.add(op["mod"])
            for q in op.get("procs", [op]):
                used |= {o[1] for o in q.get("ops", []) if o[0] in ("import", "reload", "stats", "value", "edit_reload")}
                used |= {f["do"][5:] for f in q.get("faults", []) if f["do"].startswith(("edit:", "deps:"))}
                used |= {d["to"] for f in q.get("faults", []) if f.get("arg") for d in f["arg"].get("deps", []) + f["arg"].get("ddeps", [])}
            if op.get("arg") and isinstance(op["arg"], dict):
                used |= {d["to"] for d in op["arg"].get("deps", []) + op["arg"].get("ddeps", [])} | set(op["arg"].get("rdeps", []))
        keep = set()
        for u in used:
            if u in tree:
                keep |= load_closure(tree, u)
        if keep and keep != set(tree):
            yield {**spec, "tree": {k: v for k, v in tree.items() if k in keep}}
        for name in tree:
            mod = tree[name]
            for flag in ("future", "decoy", "bulk", "surface", "selfname", "multi", "quote", "rdeps", "ddeps", "sourceless"):
                if mod.get(flag):
                    new = {k: v for k, v in mod.items() if k != flag}
                    if flag == "multi":
                        new["deps"] = [{k: v for k, v in d.items() if k != "phase"} for d in new["deps"]]
                        new.pop("multi_all", None)
                    yield {**spec, "tree": {**tree, name: new}}
            for i, d in enumerate(mod["deps"]):
                yield {**spec, "tree": {**tree, name: {**mod, "deps": mod["deps"][:i] + mod["deps"][i + 1:]}}}
                for flag in ("rel", "as", "paren", "indef", "phase"):
                    if d.get(flag):
                        nd = {k: v for k, v in d.items() if k != flag}
                        yield {**spec, "tree": {**tree, name: {**mod, "deps": mod["deps"][:i] + [nd] + mod["deps"][i + 1:]}}}


class C01(ImportWorld):
    id = "C01"
    quick_runs = 900
    thorough_runs = 40000
    rule = ("each run draws a source tree (macro modules, dialects, multi-phase modules, packages, relative macro-imports), then a history of "
            "edits, touches, back-dated edits, dependency changes, process lifetimes, edit+reload sessions and edits placed inside an import "
            "at an intercepted file system event; non-trivial: an edit is observed by an import after an earlier import of the same tree")

    def gen(self, rng, index):
        tree = srcgen.gen_tree(rng, bulk=False)
        spec = {"tree": copy.deepcopy(tree), "prefix": rng.random() < 0.6, "env": srcgen.gen_env(rng), "ops": []}
        spec["prefix"] = spec["prefix"] or "stdlib" in spec["env"]
        edited = False
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            if r < 0.45:
                for _ in range(rng.choice((1, 1, 2))):
                    spec["ops"].append(self.gen_edit(rng, tree))
            elif r < 0.5:
                spec["ops"].append({"op": "damage", "mod": sorted(tree)[0], "file": "dir", "kind": "rmtree"})
            p = {"op": "proc", "ops": self.gen_imports(rng, tree), "write": rng.random() < 0.9, "faults": []}
            names = sorted(tree)
            if rng.random() < 0.3:
                p["ops"].insert(rng.randint(0, len(p["ops"])), ["stats", rng.choice(names)])
            r = rng.random()
            if r < 0.25:
                for _ in range(rng.choice((1, 1, 2))):
                    p["ops"].append(["edit_reload", rng.choice(names), rng.choice(("bump", "bump", "bump", "touch"))])
            elif r < 0.6:
                for _ in range(rng.choice((1, 1, 2))):
                    p["faults"].append({"cls": rng.choice(("stat:src", "stat:src", "open_r:src", "open_r:pyc", "open_r:pickle", "open_w:pickle",
                                                           "close:pickle", "open_w:pyc", "rename:pyc", "mkdir:dir", "list:*")),
                                        "n": min(rng.randint(0, 12), rng.randint(0, 12)), "do": f"edit:{rng.choice(names)}"})
            elif r < 0.76:
                leaves = [n for n in names if tree[n]["kind"] == "leaf" and not tree[n].get("pkg")]
                if leaves:
                    name = rng.choice(leaves)
                    new = self.gen_new_deps(rng, tree, name)
                    tree[name] = new
                    p["faults"].append({"cls": rng.choice(("stat:src", "stat:src", "open_r:src", "open_w:pickle", "close:pickle", "open_w:pyc", "mkdir:dir")),
                                        "n": min(rng.randint(0, 8), rng.randint(0, 8)), "do": f"deps:{name}", "arg": new})
                    if rng.random() < 0.7:      # between two looks at the same file
                        p["faults"][-1].update(on=relpath(tree, name)[:-3], n=rng.choice((0, 1, 1, 1, 2, 3)))
                        p["ops"].insert(0, ["import", name])
                        if rng.random() < 0.7:
                            spec["ops"].append({"op": "proc", "ops": [["import", name]], "write": True, "faults": []})
                            spec["ops"].append({"op": "edit", "mod": name, "how": rng.choice(("bump", "touch")), "dt": 1})
                    spec["ops"].append(p)
                    if rng.random() < 0.7:
                        again = {"op": "proc", "ops": [["import", name]], "write": True, "faults": []}
                        spec["ops"].append(again)
                        tos = [d["to"] for d in new["deps"] + new.get("ddeps", [])]
                        if tos:
                            spec["ops"].append({"op": "edit", "mod": rng.choice(tos), "how": "bump", "dt": 1})
                        spec["ops"].append(copy.deepcopy(again))
                    continue
            spec["ops"].append(p)
        spec["skew"] = gen_skew(rng)
        return spec

    def run(self, spec, ctx):
        seen = 0
        for op in spec["ops"]:
            if op["op"] == "proc":
                seen += 1
            if op["op"] == "edit" and seen:
                ctx.nontrivial = True
        super().run(spec, ctx)


class C02(ImportWorld):
    id = "C02"
    strict_cache = True
    quick_runs = 700
    thorough_runs = 30000
    rule = ("as C01, plus I/O faults and crashes followed by fault-free process lifetimes; every macro and dialect call is recorded; non-trivial: "
            "a process found a cache that the reference model says is valid")

    def gen(self, rng, index):
        tree = srcgen.gen_tree(rng)
        spec = {"tree": copy.deepcopy(tree), "prefix": rng.random() < 0.6, "env": srcgen.gen_env(rng), "ops": []}
        spec["prefix"] = spec["prefix"] or "stdlib" in spec["env"]
        faulty = rng.random() < 0.4
        for i in range(rng.randint(2, 6)):
            r = rng.random()
            if r < 0.35 and i:
                spec["ops"].append(self.gen_edit(rng, tree, back=False))
            elif r < 0.42:
                spec["ops"].append({"op": "damage", "mod": rng.choice(sorted(tree)), "file": rng.choice(("pyc", "pickle", "dir")), "kind": rng.choice(("delete", "rmtree"))})
            p = {"op": "proc", "ops": self.gen_imports(rng, tree), "write": rng.random() < 0.85, "faults": []}
            if faulty and rng.random() < 0.5:
                p["faults"] = gen_io_faults(rng)
            if rng.random() < 0.15:
                p["ops"] += [["forget"]] + self.gen_imports(rng, tree)
            spec["ops"].append(p)
        spec["skew"] = gen_skew(rng)
        return spec

    def judge(self, name, ops, result, plan, dirty, job, **kw):
        if any(o[0] == "forget" for o in ops):
            # two passes in one process: judge each on its own
            i = [o[0] for o in ops].index("forget")
            super().judge(name, ops[:i], {"ops": result["ops"][:i]}, plan, dirty, job, **kw)
            return super().judge(name, ops[i + 1:], {"ops": result["ops"][i + 1:]}, plan, dirty, job, **kw)
        super().judge(name, ops, result, plan, dirty, job, **kw)

    def run(self, spec, ctx):
        super().run(spec, ctx)
        if ctx.probes.get("valid-cache-used"):
            ctx.nontrivial = True


def gen_skew(rng):
    """By process, how far its clock is off, in seconds."""
    if rng.random() < 0.6:
        return [0]
    return [rng.choice((0, 0, 1, -1, 3600, -3600, 10**7, -10**7)) for _ in range(rng.randint(1, 4))]


def gen_io_faults(rng, conc=False):
    out = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        r = rng.random()
        n = min(rng.randint(0, 10), rng.randint(0, 10))
        if r < 0.3:
            cls = rng.choice(("open_w:pickle", "write:pickle", "close:pickle", "open_w:pyc", "rename:pyc", "mkdir:dir", "open_r:pickle", "open_r:pyc",
                              "stat:src", "open_r:src", "list:*", "point:*"))
            if cls == "point:*":
                cls = "point:macro:*"
            out.append({"cls": cls, "n": n, "do": "crash"})
        elif r < 0.45:
            out.append({"cls": rng.choice(("write:pickle", "close:pickle")), "n": n,
                        "do": rng.choice(("tear:", "short:")) + rng.choice(("0.0", "0.1", "0.5", "0.9", "0.999"))})
        elif r < 0.85:
            cls = rng.choice(("open_w:pickle", "open_w:pickle", "write:pickle", "close:pickle", "open_w:pyc", "rename:pyc", "mkdir:dir",
                              "open_r:pickle", "open_r:pyc", "stat:src", "open_r:src"))
            err = rng.choice(("ENOSPC", "EACCES", "EIO", "EROFS", "EMFILE", "EDQUOT", "ENOENT", "EINTR", "ESTALE"))
            out.append({"cls": cls, "n": rng.choice((n, n, "all")) if cls not in ("stat:src", "open_r:src") else n, "do": f"err:{err}"})
        elif r < 0.93:
            err = rng.choice(("ENOSPC", "EACCES", "EROFS"))     # a read-only or full file system
            out += [{"cls": c, "n": "all", "do": f"err:{err}"} for c in ("open_w:*", "mkdir:*", "rename:*", "remove:*")]
        else:
            out.append({"cls": rng.choice(("open_r:pickle", "open_w:pickle", "open_r:pyc", "rename:pyc", "open_w:pyc", "stat:src")), "n": n, "do": "clean"})
    return out


class C03(ImportWorld):
    id = "C03"
    level = "fault_enumeration"
    quick_runs = 900
    thorough_runs = 40000
    rule = ("each run draws a source tree and a history of process lifetimes with injected I/O errors, short and torn writes, file size limits, crashes "
            "at intercepted events, concurrent importers under an explicit schedule, concurrent cache removal, and damaged cache files left on disk; "
            "non-trivial: at least one fault fired or one preemption happened while an import was in flight")

    def gen(self, rng, index):
        tree = srcgen.gen_tree(rng)
        spec = {"tree": copy.deepcopy(tree), "prefix": rng.random() < 0.6, "env": srcgen.gen_env(rng), "ops": []}
        spec["prefix"] = spec["prefix"] or "stdlib" in spec["env"]
        names = sorted(tree)
        for i in range(rng.randint(2, 5)):
            r = rng.random()
            if r < 0.4 and i:
                for _ in range(rng.choice((1, 2, 3))):
                    spec["ops"].append(self.gen_damage(rng, names))
            if rng.random() < 0.3 and i:
                spec["ops"].append(self.gen_edit(rng, tree, back=False))
            r = rng.random()
            if r < 0.3:
                procs = []
                for _ in range(rng.choice((2, 2, 3))):
                    q = {"ops": self.gen_imports(rng, tree), "write": True, "faults": []}
                    if rng.random() < 0.3:
                        q["faults"] = gen_io_faults(rng)
                    if rng.random() < 0.2:
                        q["faults"].append({"cls": rng.choice(("open_r:pyc", "stat:src", "open_w:pickle", "rename:pyc")), "n": rng.randint(0, 8), "do": f"edit:{rng.choice(names)}"})
                    procs.append(q)
                style = rng.choice(("random", "random", "bursty"))
                n = rng.choice((20, 60, 200))
                if style == "random":
                    sched = [rng.randint(0, 5) for _ in range(n)]
                else:
                    sched = []
                    while len(sched) < n:
                        sched += [rng.randint(0, 5)] * rng.randint(1, 15)
                spec["ops"].append({"op": "conc", "procs": procs, "sched": sched})
            else:
                p = {"op": "proc", "ops": self.gen_imports(rng, tree), "write": True, "faults": []}
                p["ops"] = p["ops"] + p["ops"]      # a failed import is retried in the same process
                if rng.random() < 0.75:
                    p["faults"] = gen_io_faults(rng)
                if rng.random() < 0.15:
                    p["fsize"] = rng.choice((0, 1, 7, 15))    # less than a pyc header: CPython does not notice a short write of the body
                spec["ops"].append(p)
        spec["skew"] = gen_skew(rng)
        return spec

    def gen_damage(self, rng, names):
        what = rng.choice(("pickle", "pickle", "pyc", "dir"))
        if what == "dir":
            kind = rng.choice(("rmtree", "dir-is-file", "delete"))
        elif what == "pickle":
            kind = rng.choice(("empty", "truncate", "truncate", "garbage", "wrong-type", "flip", "flip", "flip", "hole", "delete", "is-directory", "dangling-link", "tail"))
        else:
            kind = rng.choice(("empty", "truncate", "garbage", "bad-stamp", "bad-flags", "delete", "is-directory"))
        return {"op": "damage", "mod": rng.choice(names), "file": what, "kind": kind, "arg": round(rng.random(), 3)}

    def run(self, spec, ctx):
        super().run(spec, ctx)
        if any(k.startswith("damage") for k in ctx.faults):
            ctx.nontrivial = True
