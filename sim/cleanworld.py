"""C11: the byte code cleaner."""
import io
import os
import stat
import sys

from mcpyrate import pycachecleaner   # imported before privileges are dropped
from mcpyrate.repl import macropython

from .inproc import InProcWorld
from . import core

NAMES = ("a.py", "a.cpython-312.pyc", "b.txt", "data", "__pycache__", "__pycache__.bak", "_pycache_", "__PYCACHE__", "__pycache__x", "x.pyc", "pkg", "sub", ".hidden",
         "with space", "ünï", "__init__.py", "__pycache__.py", "-rf", "a.cpython-312.mcpyrate.pickle")
NOBODY = 65534


def snapshot(root):
    """path -> (kind, content); symbolic links are not followed."""
    out = {}
    todo = [root]
    while todo:
        d = todo.pop()
        st = os.lstat(d)
        rel = os.path.relpath(d, root)
        if stat.S_ISLNK(st.st_mode):
            out[rel] = ("link", os.readlink(d))
        elif stat.S_ISDIR(st.st_mode):
            out[rel] = ("dir", None)
            todo += [os.path.join(d, x) for x in sorted(os.listdir(d))]
        else:
            with open(d, "rb") as f:
                out[rel] = ("file", f.read())
    return out


class C11(InProcWorld):
    id = "C11"
    level = "fault_enumeration"
    watch_fs = True
    uid = NOBODY
    quick_runs = 8000
    thorough_runs = 150000
    rule = ("each run draws a directory tree (caches, nested caches, look-alike names, symbolic links into, out of and around the tree, odd names), a way to name "
            "its root, and real runs and dry runs of the cleaner through its functions and its command line, with concurrent deletions and I/O errors at "
            "intercepted file system calls; non-trivial: a cache was deleted, or a fault or race took place")
    real = ["mcpyrate.pycachecleaner, command line of macropython", "file system calls on a scratch tmpfs"]
    stubs = ["concurrent processes: deletions performed by the simulator at intercepted calls", "I/O errors: raised at intercepted calls",
             "effects outside the scratch directory are refused and recorded; the process is unprivileged"]

    # A tree is a dict: name -> None (file) | {...} (directory) | "link:TARGET"
    def gen_dir(self, rng, depth):
        out = {}
        for _ in range(rng.choice((0, 1, 2, 3, 4))):
            name = rng.choice(NAMES)
            r = rng.random()
            if name == "__pycache__":
                r += 0.25
            if r < 0.45 or depth == 0:
                out[name] = None
            elif r < 0.6:
                out[name] = "link:" + rng.choice(("@out/keep", "@out", "@root", "@root/pkg", "..", ".", "nowhere", "a.py", "@out/__pycache__", "@root/__pycache__", "sub", "pkg", "../..", "@out/f.py"))
            else:
                out[name] = self.gen_dir(rng, depth - 1)
        return out

    def gen(self, rng, index):
        spec = {"root": self.gen_dir(rng, rng.choice((2, 3, 4))), "out": {"keep": {"f.py": None, "__pycache__": {"g.pyc": None}}, "__pycache__": {"h.pyc": None}, "f.py": None}, "ops": [], "faults": []}
        if rng.random() < 0.7:
            d = spec["root"]
            for _ in range(rng.randint(1, 3)):
                d["__pycache__"] = {f"m{i}.pyc": None for i in range(rng.randint(0, 3))}
                if rng.random() < 0.4:
                    d["__pycache__"].update(self.gen_dir(rng, 2))
                sub = [x for x in d if isinstance(d[x], dict) and x != "__pycache__"]
                if not sub:
                    break
                d = d[rng.choice(sub)]
        spec["how"] = rng.choice(("abs", "abs", "rel", "slash", "dot", "link", "up"))
        mode = rng.choice(("plain", "plain", "race", "error"))
        for _ in range(rng.choice((1, 1, 2))):
            op = {"op": rng.choice(("delete", "delete", "delete", "list", "cli-delete", "cli-list")), "races": [], "faults": []}
            if mode == "race":
                for _ in range(rng.choice((1, 1, 2, 3))):
                    op["races"].append({"n": min(rng.randint(0, 25), rng.randint(0, 25)), "what": rng.choice(("victim", "victim", "parent", "cache", "random", "replace")), "pick": rng.randint(0, 99)})
            if mode == "error":
                op["faults"].append({"at": rng.choice(("fs:remove:*", "fs:rmdir:*", "fs:list:*", "fs:[!s]*")), "n": rng.choice((0, 0, 1, 2, 5)),
                                     "exc": rng.choice(("errno:EACCES", "errno:EIO", "errno:EROFS", "errno:EPERM", "errno:ENOENT", "errno:ENOENT", "KeyboardInterrupt", "errno:ENOTEMPTY"))})
            spec["ops"].append(op)
        return spec

    def shrink(self, spec):
        yield from core.shrink_ops(spec, sub=("faults", "races"))

        def trees(d):
            for x in d:
                yield {k: v for k, v in d.items() if k != x}
                if isinstance(d[x], dict):
                    for y in trees(d[x]):
                        yield {**d, x: y}
        for t in trees(spec["root"]):
            yield {**spec, "root": t}

    def prepare(self, spec, ctx):
        os.chown(ctx.scratch, NOBODY, NOBODY)

    def inproc(self, rt, spec):
        rt.quiet += 1
        root, out = os.path.join(rt.scratch, "root"), os.path.join(rt.scratch, "out")

        def build(d, tree):
            os.mkdir(d)
            for name, x in tree.items():
                p = os.path.join(d, name)
                if isinstance(x, dict):
                    build(p, x)
                elif x is None:
                    with open(p, "w") as f:
                        f.write(f"content of {os.path.relpath(p, rt.scratch)}")
                else:
                    os.symlink(x[5:].replace("@out", out).replace("@root", root), p)
        build(out, spec["out"])
        build(root, spec["root"])
        os.symlink(root, os.path.join(rt.scratch, "lnk"))
        os.chdir(rt.scratch)
        arg = {"abs": root, "rel": "root", "slash": root + "/", "dot": "./root", "link": os.path.join(rt.scratch, "lnk"), "up": os.path.join(out, "..", "root")}[spec["how"]]

        def caches(snap):
            """The cache directories, and links to directories that have the name of one, in the order of depth."""
            res = []
            for p, (kind, target) in snap.items():
                if os.path.basename(p) != "__pycache__":
                    continue
                if kind == "dir" or (kind == "link" and os.path.isdir(os.path.join(root, p))):
                    res.append(p)
            return set(res)

        def under(p, tops):
            return any(p == t or p.startswith(t + "/") for t in tops)

        for k, op in enumerate(spec["ops"]):
            before, before_out = snapshot(root), snapshot(out)
            tops = caches(before)
            removed_by_others = set()
            raced = []
            state = {"n": 0}

            def rm(p):
                if not os.path.lexists(p):
                    return
                if os.path.isdir(p) and not os.path.islink(p):
                    for x in sorted(os.listdir(p)):
                        rm(os.path.join(p, x))
                    os.rmdir(p)
                else:
                    os.unlink(p)
                removed_by_others.add(os.path.relpath(p, root))

            def stop(cls, path, rt=rt):
                """At each file system call: other processes may act first, and the call may fail."""
                if rt.child.busy:
                    return ("go",)
                rt.child.busy = True
                try:
                    n = state["n"]
                    state["n"] += 1
                    for r in op["races"]:
                        if r["n"] != n:
                            continue
                        p = os.path.join(rt.scratch, path)
                        rp = os.path.realpath(os.path.dirname(p))
                        if not (rp + "/").startswith(os.path.realpath(root) + "/"):
                            continue
                        p = os.path.join(rp, os.path.basename(p))
                        what = r["what"]
                        rel = os.path.relpath(p, root)
                        if what == "parent":
                            p = os.path.dirname(p)
                        elif what == "cache" or (what in ("victim", "parent") and not under(rel, tops)):
                            c = sorted(tops)
                            if not c:
                                continue
                            p = os.path.join(root, c[r["pick"] % len(c)])
                        elif what in ("random", "replace"):
                            c = sorted(x for x in before if under(x, tops)) if what == "random" or r["pick"] % 2 else sorted(x for x in before if x != ".")
                            if not c:
                                continue
                            p = os.path.join(root, c[r["pick"] % len(c)])
                        if os.path.realpath(p) == os.path.realpath(root):
                            continue
                        if os.path.lexists(p):
                            rm(p)
                            raced.append(os.path.relpath(p, root))
                            rt.fault(f"race:{what}@{cls}")
                            rt.event(f"another process deletes {os.path.relpath(p, root)} at {cls} {path}")
                            rt.nontrivial = True
                    rt.point(f"fs:{cls}", path)
                finally:
                    rt.child.busy = False
                return ("go",)
            rt.set_plan(op["faults"])
            nfired = len(rt.fired)
            sys.stdout = io.StringIO()
            rt.child.stop = stop
            rt.quiet -= 1
            err = None
            listed = None
            try:
                if op["op"] == "delete":
                    pycachecleaner.deletepycachedirs(arg)
                elif op["op"] == "list":
                    listed = pycachecleaner.getpycachedirs(arg)
                else:
                    sys.argv = ["macropython", "-c", arg] + (["-n"] if op["op"] == "cli-list" else [])
                    macropython.main()
                    err = RuntimeError("macropython -c did not exit")
            except SystemExit as e:
                if e.code not in (0, None) or not op["op"].startswith("cli"):
                    err = e
            except BaseException as e:
                err = e
            finally:
                rt.child.stop = lambda cls, path: ("go",)
                rt.quiet += 1
            if op["op"] == "cli-list" and err is None:
                listed = sys.stdout.getvalue().split("\n")[:-1]
            fired = rt.fired[nfired:]
            after, after_out = snapshot(root), snapshot(out)
            what = f"op {k} {op['op']}({spec['how']})"
            rt.event(f"{what} -> {type(err).__name__ if err else 'ok'} deleted {sorted(set(before) - set(after))} fired {fired}")
            if set(before) - set(after):
                rt.nontrivial = True
            rt.check(after_out == before_out, "outside-changed", lambda: f"{what}: outside the tree, {sorted(set(before_out) ^ set(after_out))} changed")
            lost = sorted(p for p in set(before) - set(after) - removed_by_others if not under(p, tops))
            rt.check(not lost, "deleted-too-much", lambda: f"{what}: deleted {lost}")
            changed = sorted(p for p in after if p not in before or (after[p] != before[p]))
            rt.check(not changed, "changed", lambda: f"{what}: changed {changed}")
            # FileNotFoundError is never an error, when other processes delete things in caches
            inj = [f for f in fired if not (f[1] == "errno:ENOENT")]
            if err is not None:
                # A directory whose listing failed is not empty; a race that replaces nothing cannot make the cleaner fail.
                listing_failed = any(f[0].startswith("fs:list") for f in fired)
                allowed = bool(inj) or (isinstance(err, OSError) and listing_failed) or (isinstance(err, OSError) and any(f[1] == "errno:ENOENT" for f in fired) and err.errno == 39)
                rt.check(allowed, "fails", lambda: f"{what}: raised {type(err).__name__}: {err}; fired {fired}; raced {raced}")
                continue
            if any(not f[1].startswith("errno:") for f in inj):
                rt.violate("error-swallowed", f"{what}: {inj} was swallowed")
            if listed is not None:
                rt.check(not (set(before) - set(after) - removed_by_others), "dry-run-deletes", lambda: f"{what}: deleted {sorted(set(before) - set(after))}")
                rt.check(all(isinstance(x, str) and x.startswith(arg) for x in listed), "wrong-list", lambda: f"{what}: {listed} does not start with {arg!r}")
                if not fired and not raced:
                    got = sorted(os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(x)), os.path.basename(x)), os.path.realpath(root)) for x in listed)
                    rt.check(got == sorted(tops), "wrong-list", lambda: f"{what}: listed {got}, expected {sorted(tops)}")
            elif not fired:
                left = sorted(p for p in after if under(p, tops))
                rt.check(not left, "caches-left", lambda: f"{what}: left {left}")
                rt.probe("caches-deleted", len(tops))
        # once the faults and races stop
        rt.set_plan(())
        before = snapshot(root)
        tops = caches(before)
        pycachecleaner.deletepycachedirs(arg)
        after = snapshot(root)
        want = {p: x for p, x in before.items() if not under(p, tops)}
        rt.check(after == want, "final", lambda: f"finally: difference {sorted(set(after) ^ set(want))}")
        rt.check(snapshot(out) == before_out, "outside-changed", "finally: outside the tree, something changed")
        for bad in (os.path.join(root, "nosuchdir"),):
            try:
                pycachecleaner.deletepycachedirs(bad)
            except OSError:
                pass
            else:
                rt.violate("no-error", "a directory that does not exist: no error")
