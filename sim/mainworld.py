"""C15: the bootstrapper runs a main program like Python, with macros."""
import copy
import os

from . import core, srcgen
from .importworld import ImportWorld, gen_io_faults, gen_skew, Tree, T0
from .srcgen import load_closure, relpath

RAISES = ("ValueError", "KeyError", "OSError", "ImportError", "SyntaxError", "import", "importfrom", "exit", "KeyboardInterrupt", "GeneratorExit", "AttributeError")
EXC_OF = {"import": "ModuleNotFoundError", "importfrom": "ImportError", "exit": "SystemExit"}
ODD = {"time.py": None, "a-b.py": None, "x.y.py": None, "both.py": "both/__init__.py", "marshal.py": None, "_frozen_importlib.py": None, "__init__.py": None, "ns1.py": "ns1/other.py"}
ODD_TEXT = '''from mcpyrate.quotes import macros, q
import _sim, ast, sys
_sim.note("odd", __name__, __package__, ast.unparse(q[1 + x]), sys.path[0])
'''


class C15(ImportWorld):
    id = "C15"
    quick_runs = 1500
    thorough_runs = 40000
    rule = ("each run draws a source tree as in C01, some of whose modules are main programs (also in packages, subpackages and namespace packages, with several phases, importing "
            "other modules or themselves, or failing), then a history of edits, damaged caches and process lifetimes that start programs through the bootstrapper as script or module, "
            "from several directories, with injected I/O errors, crashes and exceptions; non-trivial: a program ran in a process that had a fault, or after an edit or damage")
    real = ImportWorld.real + ["mcpyrate.repl.macropython.main"]
    stubs = ImportWorld.stubs + ["the launcher's own module: an empty module, `sys.argv` and `sys.path[0]` are set as for a console script"]

    # ---- generation
    def gen_main(self, rng, tree, name):
        others = [n for n in sorted(tree) if n != name and tree[n]["kind"] == "leaf" and not n.endswith(".__main__") and not (tree[n].get("main") or {}).get("imports")
                  and name not in load_closure(tree, n)]
        return {"imports": rng.sample(others, min(len(others), rng.randint(0, 2))), "self": rng.random() < 0.3 and not name.endswith(".__main__"),
                "raises": rng.choice(RAISES) if rng.random() < 0.25 else None}

    def gen(self, rng, index):
        tree = srcgen.gen_tree(rng, bulk=False)
        macs = [n for n in tree if tree[n]["kind"] == "macro" and not n.startswith("pk")]
        for pk in [n for n in tree if tree[n].get("pkg")] + (["ns"] if rng.random() < 0.25 else []):
            if rng.random() < 0.6 or pk == "ns":
                mod = {"kind": "leaf", "ver": 1, "deps": []}
                tree[f"{pk}.__main__"] = mod
                if macs and rng.random() < 0.7:
                    mod["deps"].append(srcgen.gen_dep(rng, tree, f"{pk}.__main__", rng.choice(macs)))
                mod["main"] = {}
                if pk == "ns" and rng.random() < 0.5:
                    tree["ns.prog"] = {"kind": "leaf", "ver": 1, "deps": [srcgen.gen_dep(rng, tree, "ns.prog", m) for m in macs[:1]], "main": {}}
        leaves = [n for n in sorted(tree) if tree[n]["kind"] == "leaf" and not tree[n].get("pkg") and "main" not in tree[n]]
        mains = [n for n in tree if "main" in tree[n]] + rng.sample(leaves, rng.randint(1, len(leaves)))
        for n in mains:
            tree[n]["main"] = {}
        for n in mains:
            tree[n]["main"] = self.gen_main(rng, tree, n)
        spec = {"tree": copy.deepcopy(tree), "prefix": rng.random() < 0.5, "env": {}, "ops": [], "final": False, "pypackages": rng.random() < 0.1,
                "odd": rng.choice(sorted(ODD)) if rng.random() < 0.3 else None, "decoy": rng.random() < 0.6}
        for i in range(rng.randint(1, 4)):
            if i and rng.random() < 0.4:
                spec["ops"].append(self.gen_edit(rng, tree, back=False))
                e = spec["ops"][-1]
                if e["how"] == "deps" and "main" in tree[e["mod"]]:
                    e["arg"].pop("ddeps", None)
                    e["arg"].pop("surface", None)
                    tree[e["mod"]] = e["arg"]
            if i and rng.random() < 0.3:
                spec["ops"].append({"op": "damage", "mod": rng.choice(mains if rng.random() < 0.5 else sorted(tree)), "file": rng.choice(("pickle", "pyc")),
                                    "kind": rng.choice(("empty", "garbage", "delete", "truncate")), "arg": round(rng.random(), 3)})
            p = {"op": "proc", "ops": [], "write": rng.random() < 0.85, "faults": []}
            for _ in range(rng.choice((1, 1, 1, 2))):
                p["ops"].append(self.gen_start(rng, tree, mains, spec))
            if rng.random() < 0.3:
                imp = [n for n in sorted(tree) if not n.endswith(".__main__")]
                p["ops"].insert(rng.choice((0, len(p["ops"]))), ["import", rng.choice(imp)])
            r = rng.random()
            if r < 0.25:
                p["faults"] = gen_io_faults(rng)
            elif r < 0.4:
                p["faults"] = [{"cls": rng.choice(("point:main:body", "point:macro:*", "point:phase*", "open_r:src")), "n": rng.choice((0, 0, 0, 1, 2)),
                                "do": "raise:" + rng.choice(("ValueError", "ImportError", "KeyboardInterrupt", "SystemExit"))}]
            elif r < 0.5:
                p["faults"] = [{"cls": rng.choice(("stat:src", "open_r:src", "open_r:pyc", "point:main:body")), "n": min(rng.randint(0, 8), rng.randint(0, 8)),
                                "do": f"edit:{rng.choice(sorted(tree))}"}]
            if p["faults"] and rng.random() < 0.5:
                p["ops"].append(copy.deepcopy(p["ops"][-1]))
            spec["ops"].append(p)
        for _ in range(2):      # whatever happened: afterwards, programs run
            spec["ops"].append({"op": "proc", "write": True, "faults": [], "ops": [self.gen_start(rng, tree, mains, spec, ok=True)]})
        spec["skew"] = gen_skew(rng)
        return spec

    def gen_start(self, rng, tree, mains, spec, ok=False):
        r = rng.random()
        if not ok and r < 0.12:
            kind = rng.choice(("nofile", "nomod", "nosub", "nomain", "both", "none", "notpkg"))
            if kind == "nofile":
                return ["macropython", ["nosuch.py"], {"bad": "FileNotFoundError", "cwd": "src"}]
            if kind == "nomod":
                return ["macropython", ["-m", "nosuch"], {"bad": "ModuleNotFoundError", "module": "nosuch", "cwd": "src"}]
            if kind == "both":
                return ["macropython", ["x.py", "-m", "nosuch"], {"bad": "ValueError", "cwd": "src"}]
            if kind == "none":
                return ["macropython", [], {"bad": "SystemExit", "code": 0, "cwd": "src"}]
            top = [n for n in sorted(tree) if "." not in n and not tree[n].get("pkg") and not tree[n].get("sourceless")]
            if kind == "notpkg" and top:
                to = rng.choice(top)
                return ["macropython", ["-m", f"{to}.{rng.choice(top)}"], {"bad": "ModuleNotFoundError", "cwd": "src", "loads": to}]
            pk = [n for n in sorted(tree) if tree[n].get("pkg")]
            if kind == "nosub" and pk:
                to = rng.choice(pk)
                return ["macropython", ["-m", f"{to}.nosuch"], {"bad": "ModuleNotFoundError", "module": f"{to}.nosuch", "cwd": "src", "loads": to}]
            pk = [n for n in pk if f"{n}.__main__" not in tree]
            if kind == "nomain" and pk:
                to = rng.choice(pk)
                return ["macropython", ["-m", to], {"bad": "ImportError", "cwd": "src", "loads": to}]
        if spec["odd"] and r > 0.85:
            cwd, arg = rng.choice((("src", ""), ("elsewhere", "@SRC@/"), ("elsewhere", "../src/")))
            return ["macropython", [arg + spec["odd"]], {"odd": spec["odd"], "cwd": cwd}]
        good = [n for n in mains if not (ok and tree[n]["main"].get("raises"))] or mains
        name = rng.choice(good)
        if name.endswith(".__main__"):
            how = {"mode": "package", "name": name, "cwd": "src"}
            argv = ["-m", name[:-9]]
        elif rng.random() < 0.5 and self.script_ok(tree, name):
            cwd, arg = rng.choice((("src", ""), ("src", "./"), ("elsewhere", "@SRC@/"), ("elsewhere", "../src/"), ("elsewhere", "../elsewhere/../src/")))
            how = {"mode": "script", "name": name, "cwd": cwd}
            argv = [arg + relpath(tree, name)]
            if "." in name:
                how["pythonpath"] = ["src"]
        else:
            how = {"mode": "module", "name": name, "cwd": "src"}
            argv = ["-m", name] if rng.random() < 0.8 else [f"--module={name}"]
        if how["mode"] != "script" and rng.random() < 0.3:
            how.update(cwd="elsewhere", pythonpath=["src"])
        elif "pythonpath" not in how and rng.random() < 0.4:
            # the program's directory is also further down in the path, maybe behind one that has modules of the same names
            how["pythonpath"] = ["src", "decoy"] if spec["decoy"] else ["src"]
        return ["macropython", argv, how]

    @staticmethod
    def script_ok(tree, name):
        """A script in a package: only when neither it nor the rest of the package imports relatively (the script's directory comes first in `sys.path`)."""
        if "." not in name:
            return True
        return not any(d.get("rel") for n, m in tree.items() if n.startswith(("pk", "ns"))
                       for d in m["deps"] + m.get("ddeps", []) + [{"rel": m.get("selfname") == "rel"}])

    def setup(self, spec):
        src = self.tree.src
        os.makedirs(os.path.join(self.ctx.scratch, "elsewhere"), exist_ok=True)
        if spec.get("pypackages"):
            os.makedirs(os.path.join(src, "__pypackages__"), exist_ok=True)
        if spec.get("odd"):
            for f, text in ((spec["odd"], ODD_TEXT), (ODD[spec["odd"]], "raise RuntimeError('the wrong file')\n")):
                if f:
                    p = os.path.join(src, f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as out:
                        out.write(text)
                    os.utime(p, (T0, T0))
        self.pypackages = spec.get("pypackages")
        if spec.get("decoy"):
            os.makedirs(os.path.join(self.ctx.scratch, "decoy"))
            for n in sorted(spec["tree"]):
                if "." not in n:
                    p = os.path.join(self.ctx.scratch, "decoy", f"{n}.py")
                    with open(p, "w") as out:
                        out.write("raise RuntimeError('a module from the wrong directory')\n")
                    os.utime(p, (T0, T0))

    def shrink(self, spec):
        yield from super().shrink(spec)
        tree = spec["tree"]
        for n in tree:
            m = tree[n].get("main")
            for key, v in (("imports", []), ("self", False), ("raises", None)):
                if m and m.get(key) and m[key] != v:
                    yield {**spec, "tree": {**tree, n: {**tree[n], "main": {**m, key: v}}}}

    def run(self, spec, ctx):
        # shrunk trees may lack what is started
        tree = spec["tree"]
        seen = 0
        for op in spec["ops"]:
            if op["op"] == "proc":
                seen += 1
                op["ops"] = [o for o in op["ops"] if o[0] != "macropython" or all(o[2].get(k, None) in (None, *tree) for k in ("name", "loads"))]
            elif seen:
                ctx.nontrivial = True
        super().run(spec, ctx)

    # ---- oracle
    def judge_macropython(self, name, o, r, versions, plan):
        ctx, tree = self.ctx, self.tree
        how = o[2]
        label = f"{name}: macropython {' '.join(o[1])} in {how['cwd']}"
        ran = [n for n in r["notes"] if n[0] == "ran"]
        as_main = [n for n in ran if n[2] == "__main__"]
        rest = [n for n in r["notes"] if n[0] in ("imported", "again", "finished")]
        exc = r.get("exc")
        ctx.event(f"{label} -> {exc or 'ok'} main={r['main']}")
        injected = exc is not None and r["injected"]
        if injected:
            ctx.check(plan.may_fail, "fails", f"{label}: {exc}: {r['msg']} (injected, but this fault must not surface); faults: {plan.fired}")
            ctx.probe("failed-by-fault")
            if exc not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit"):
                ctx.check(r["main"] == "launcher", "main-not-restored", f"{label}: after {exc}, the main module is {r['main']}")
            return True
        if how.get("bad"):
            ctx.check(exc == how["bad"], "wrong-error", f"{label}: {exc} instead of {how['bad']}: {r.get('msg')}")
            ctx.check(r["main"] == "launcher", "main-not-restored", f"{label}: the main module is {r['main']}")
            ctx.check(not as_main, "wrong-program", f"{label}: {as_main}")
            if "module" in how:
                ctx.check(r["module"] == how["module"], "wrong-error", f"{label}: the module not found is {r['module']}: {r['msg']}")
            if "code" in how:
                ctx.check(r["code"] == how["code"], "wrong-error", f"{label}: exit code {r['code']}")
            ctx.probe("bad-start")
            return False
        if how.get("odd"):
            odd = [n for n in r["notes"] if n[0] == "odd"]
            ctx.check(exc is None, "fails", lambda: f"{label}: {exc}: {r['msg']} {r['chain']}; faults: {plan.fired}")
            ctx.check(len(odd) == 1 and odd[0][1] == "__main__" and not odd[0][2] and odd[0][3] == "1 + x" and odd[0][4] == tree.src, "wrong-program", f"{label}: {odd}")
            ctx.check(r["main"] == "__main__", "wrong-program", f"{label}: the main module is {r['main']}")
            ctx.probe("odd-script")
            return False
        mod = tree.mods[how["name"]]
        main = mod["main"]
        raises = main.get("raises")
        want_exc = EXC_OF.get(raises, raises)
        ctx.check(exc == want_exc, "wrong-error" if exc and want_exc else "fails" if exc else "error-swallowed",
                  lambda: f"{label}: the outcome is {exc}, expected {want_exc}: {r.get('msg')} {r.get('chain')}; faults: {plan.fired}")
        if raises == "exit":
            ctx.check(r["code"] == 3, "wrong-error", f"{label}: exit code {r['code']}")
        elif raises == "import":
            ctx.check(r["module"] == "no", "wrong-error", f"{label}: the module not found is {r['module']}: {r['msg']}")
        elif raises not in (None, "importfrom"):
            ctx.check("the program fails" in r["msg"], "wrong-error", f"{label}: {r['msg']}")
        # the program ran once, as the main program
        mine = [n for n in ran if n[1] == how["name"] and n[2] in ("__main__", how["name"] if how["mode"] == "package" else "__main__")]
        again = how["mode"] == "package" and any(x for x in self.started if x == (name, how["name"]))
        self.started.add((name, how["name"]))
        if again and not mine and exc is None:
            return False        # an ordinary import, in the same process: not run again
        ctx.check(len(mine) == 1, "runs", f"{label}: the program ran {len(mine)} times; {[n[1:4] for n in ran]}; faults: {plan.fired}")
        ctx.check(len(as_main) == (how["mode"] != "package"), "runs", f"{label}: ran as the main program: {[n[1:4] for n in as_main]}")
        _, real, nm, pkg, file, path0, is_main, result, in_table, path1 = mine[0]
        src = tree.src
        if how["mode"] == "script":
            want_pkg = ("", None)
            want_path0 = os.path.dirname(tree.path(real))
            cwd0 = want_path0
        elif how["mode"] == "module":
            want_pkg = (real.rpartition(".")[0],)
            want_path0 = cwd0 = os.path.join(ctx.scratch, how["cwd"])
        else:
            want_pkg = (real.rpartition(".")[0],)
            want_path0 = cwd0 = os.path.join(ctx.scratch, how["cwd"])
        ctx.check(pkg in want_pkg, "wrong-package", f"{label}: __package__ is {pkg!r}, expected {want_pkg}")
        ctx.check(os.path.realpath(file) == os.path.realpath(tree.path(real)), "wrong-file", f"{label}: __file__ is {file}")
        ctx.check(path0 == want_path0, "wrong-path", f"{label}: sys.path[0] is {path0}, expected {want_path0}")
        if self.pypackages and cwd0 == src:
            ctx.check(path1 == os.path.join(src, "__pypackages__"), "wrong-path", f"{label}: sys.path[1] is {path1}")
        ctx.check(in_table and is_main == (how["mode"] != "package"), "wrong-main", f"{label}: the running program is not the main module")
        if result is not None:
            why = srcgen.matches(result, tree.mods, real, versions)
            ctx.check(why is None, "stale-or-wrong", lambda: f"{label}: {why}; faults: {plan.fired}")
        if exc is None:
            if how["mode"] != "package":
                why = srcgen.matches(r["result"], tree.mods, real, versions)
                ctx.check(why is None, "stale-or-wrong", lambda: f"{label}: {why}; faults: {plan.fired}")
            ctx.check(r["main"] == ("__main__" if how["mode"] != "package" else "launcher"), "wrong-main", f"{label}: afterwards, the main module is {r['main']}")
        elif exc not in ("SystemExit", "KeyboardInterrupt", "GeneratorExit"):
            ctx.check(r["main"] == "launcher", "main-not-restored", f"{label}: after {exc}, the main module is {r['main']}")
        imported = {n[1]: n[2] for n in rest if n[0] == "imported"}
        body = sum(n[0] == "finished" for n in rest)
        if raises is None:
            ctx.check(body >= 1, "runs", f"{label}: the program did not finish")
        ctx.check(set(main["imports"]) <= set(imported), "runs", f"{label}: imported {sorted(imported)}")
        for x, res in imported.items():
            why = srcgen.matches(res, tree.mods, x, versions)
            ctx.check(why is None, "stale-or-wrong", lambda: f"{label}: {x}: {why}; faults: {plan.fired}")
        for n in rest:
            if n[0] == "again":
                ctx.check(n[1] is False and n[3] == real, "wrong-main", f"{label}: importing the program by its name gave {n}")
                why = srcgen.matches(n[2], tree.mods, real, versions)
                ctx.check(why is None, "stale-or-wrong", lambda: f"{label}: imported again: {why}; faults: {plan.fired}")
        ctx.probe(f"ran-{how['mode']}")
        if plan.fired:
            ctx.nontrivial = True
        return False

    def do_proc(self, op, final=None):
        self.started = set()
        super().do_proc(op, final)
