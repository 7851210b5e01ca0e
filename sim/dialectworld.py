"""C14: dialects are applied once, in order, or fail cleanly."""
import ast
import copy
import importlib
import io
import os
import re
import sys

from . import core
from .inproc import InProcWorld

EXCS = ("ValueError", "KeyError", "RecursionError", "MemoryError", "AssertionError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "SyntaxError",
        "OSError", "TypeError", "StopIteration", "AttributeError", "RuntimeError")
ANSI = re.compile(r"\x1b\[[0-9;]*m")
DIM = re.compile(r"from (\S+) import dialects, (.*)$")
OUT = "__import__('_sim').rt.out(%r)"
MARK = "__import__('_sim').rt.mark(%r)"
OUTRE = re.compile(r"__import__\('_sim'\)\.rt\.(out|mark)\((.*)\)$")
MAC = re.compile(r"mk\[(\d+)\]")
STEPIMPORT = "from mcpyrate.debug import dialects, StepExpansion"
SRC_OPS = ("inherit", "inherit", "decl", "same", "mark", "mark", "reveal", "dropown", "droplast", "surface", "surface", "shift", "inject", "imports")
AST_OPS = ("inherit", "inherit", "decl", "same", "mark", "mark", "newtree", "rebody", "inject", "injectfront", "droplast", "injectmac", "imports")
POST_OPS = ("inherit", "inherit", "decl", "same", "mark", "mark", "newtree", "rebody", "imports")


# ---------------------------------------------------------------- rendering

def dim_line(spec, item, rel):
    _, d, classes, style = item
    mod = spec["dialects"][d]["name"]
    src = ("." + mod) if rel and spec["pkg"] else spec["pkg"] + mod
    cs = ", ".join(classes)
    return {"": f"from {src} import dialects, {cs}", "sp": f"from  {src}  import dialects,  {cs}", "trail": f"from {src} import dialects, {cs} ",
            "comment": f"from {src} import dialects, {cs}  # comment", "tab": f"from\t{src}\timport dialects, {cs}"}[style]


def render_items(spec, items, rel, indent=""):
    lines = []
    for it in items:
        k = it[0]
        if k == "dim":
            lines.append(dim_line(spec, it, rel))
        elif k == "out":
            lines.append(OUT % (it[1],))
        elif k == "mac":
            lines.append(OUT.replace("%r", f"mk[{it[1]}]"))
        elif k == "surf":
            lines.append(f"<<<{it[1]}>>>")
        elif k == "hid":
            lines.append("#! " + dim_line(spec, ["dim", *it[1:]], rel))
        elif k == "comment":
            lines.append("# a comment; " + dim_line(spec, ["dim", 0, [spec["dialects"][0]["classes"][0]["n"]], ""], rel))
        elif k == "blank":
            lines += [""] * it[1]
        elif k == "decoy":
            one = dim_line(spec, ["dim", 0, [spec["dialects"][0]["classes"][0]["n"]], ""], False)
            lines += {"string": [f"decoy = {one!r}"], "nested": ["def decoy():", f"    {one}"], "name": [one.replace("import dialects,", "import dialects_x,").split(",")[0]],
                      "multi": ["decoy = '''", f"  {one}", "'''"]}[it[1]]
        elif k == "step":
            lines.append(STEPIMPORT)
        elif k == "bad":
            src = spec["pkg"] + spec["dialects"][0]["name"]
            lines.append({"module": "from nosuch import dialects, Any"}.get(it[1], f"from {src} import dialects, {it[1]}"))
        elif k == "phase":
            lines.append(f"with phase[{it[1]}]:")
            body = ["from mm import macros, mk"] if any(x[0] == "mac" for x in it[2]) else []
            body += render_items(spec, it[2], rel) or ["pass"]
            lines += [("    " + x if x else "") for x in body]
    return [indent + x for x in lines]


def has(items, kind):
    return any(i[0] == kind or (i[0] == "phase" and has(i[2], kind)) for i in items)


def render(spec, mod, ver=None):
    """Source lines of a module."""
    items, rel = mod["items"], mod.get("rel")
    lines = []
    if mod.get("coding"):
        lines.append("# -*- coding: utf-8; -*-")
    if mod.get("doc"):
        lines.append(f'"""{mod["name"]}"""')
    if mod.get("future"):
        lines.append("from __future__ import annotations")
    if has(items, "phase"):
        lines.append("from mcpyrate.multiphase import macros, phase")
    if any(x[0] == "mac" for x in items):
        lines.append("from mm import macros, mk")
    lines.append(f"V = {ver if ver is not None else 0}")
    lines += render_items(spec, items, rel)
    if "classes" in mod:
        lines += ["import _sim as _sim_", "from mcpyrate.dialects import Dialect", MARK % f"begin:{mod['name']}",
                  "class Plain:", "    def __init__(self, expander=None):", "        pass", "def fun(*args, **kw):", "    return None", "VALUE = 42", "dialects_x = 1"]
        for c in mod["classes"]:
            n = c["n"]
            lines += [f"class {n}(Dialect):", "    def __init__(self, expander):", "        super().__init__(expander)", f"        _sim_.rt.dinit(self, {n!r})"]
            for stage, method in (("src", "transform_source"), ("ast", "transform_ast"), ("post", "postprocess_ast")):
                if c[stage] != "inherit":
                    lines += [f"    def {method}(self, content):", f"        return _sim_.rt.dstage(self, {n!r}, {stage!r}, content)"]
        lines.append(MARK % f"end:{mod['name']}")
    return lines


# ---------------------------------------------------------------- the model

class Fail(Exception):
    """The model's module fails to compile."""


class Stop(Exception):
    """The injected fault."""


def stmts_of(lines):
    """The top level of a parsed text: [[text, lineno, col, body of a phase block or None], ...]"""
    tree = ast.parse("\n".join(lines) + "\n")

    def conv(body):
        out = []
        for s in body:
            if isinstance(s, ast.With):
                n = s.items[0].context_expr.slice.value
                out.append(["with", s.lineno, s.col_offset, (n, conv(s.body))])
            else:
                out.append([ast.unparse(s), s.lineno, s.col_offset, None])
        return out
    return conv(tree.body)


class Model:
    def __init__(self, spec, texts, loaded, stop=None, strict=True):
        self.spec = spec
        self.texts = texts              # full module name -> lines
        self.loaded = loaded
        self.loading = []
        self.log = []
        self.prints = []
        self.stop = stop                # the fault comes with, or (not strict) after, this many events
        self.strict = strict
        self.classes = {c["n"]: (i, c) for i, d in enumerate(spec["dialects"]) for c in d["classes"]}

    def event(self, *what):
        if self.stop is not None and not self.strict and len(self.log) >= self.stop:
            raise Stop
        self.log.append(what)
        if self.stop is not None and self.strict and len(self.log) >= self.stop:
            raise Stop

    def full(self, name):
        return self.spec["pkg"] + name

    def import_(self, full):
        if full not in self.texts or full in self.loaded or full in self.loading:
            return
        self.loading.append(full)
        try:
            stmts = self.compile_text(self.texts[full], full)
            self.execute(stmts)
            self.loaded.add(full)
        finally:
            self.loading.remove(full)

    def execute(self, stmts):
        for s in stmts:
            m = OUTRE.match(s[0])
            if m:
                self.event(m.group(1), ast.literal_eval(m.group(2)))
            m = re.match(r"(?:from (\S+) import dialects_x|import (\S+))$", s[0])
            if m:
                self.import_(m.group(1) or m.group(2))

    # ---- one compilation
    def resolve(self, text, modname):
        """(absolute module, names) of a dialect-import."""
        m = DIM.match(text)
        src = m.group(1)
        names = [x.strip() for x in m.group(2).split("#")[0].split(",")]
        if src.startswith("."):
            src = self.spec["pkg"] + src[1:]
        return src, list(dict.fromkeys(names))

    def enter(self, text, modname):
        src, names = self.resolve(text, modname)
        if src == "nosuch":
            raise Fail("no module")
        self.import_(src)
        if src in self.loading:
            raise Fail("cycle")
        for n in names:
            if n in ("Missing", "VALUE"):
                raise Fail("no dialect")
        return src, names

    def compile_text(self, lines, modname):
        state = {"debug": False, "step": 0}
        lines = self.source(list(lines), modname, state)
        try:
            stmts = stmts_of(lines)
        except SyntaxError:
            raise Fail("not Python")
        return self.compile_stmts(stmts, modname, state)

    def source(self, lines, modname, state):
        seen = set()
        while True:
            for no, line in enumerate(lines):
                if re.match(r"from\s", line) and " import dialects, " in line.replace("\t", " ") and line.strip() not in seen:
                    break
            else:
                return lines
            seen.add(line.strip())
            src, names = self.enter(" ".join(line.split()), modname)
            for n in names:
                if n == "StepExpansion":
                    state["debug"] = True
                    state["step"] += 1
                    self.prints.append(("StepExpansion.transform_source", state["step"], "\n".join(lines)))
                    continue
                if n in ("Plain", "fun"):
                    raise Fail("not a dialect")
                i, c = self.classes[n]
                self.event("init", n)
                op = c["src"]
                if op == "inherit":
                    continue
                self.event("src", n, no + 1, 0, "\n".join(lines) + "\n")
                if op in ("none", "empty"):
                    raise Fail(f"empty:{n}.transform_source")
                new = self.source_op(op, c, lines)
                if new is None:
                    continue
                lines = new
                state["step"] += 1
                if state["debug"]:
                    self.prints.append((f"{n}.transform_source", state["step"], "\n".join(lines)))

    def source_op(self, op, c, lines):
        lines = list(lines)
        dims = [j for j, x in enumerate(lines) if re.match(r"from\s.*import dialects,", x)]
        if op == "decl":
            return None
        if op == "mark":
            lines.append(OUT % f"src {c['n']}")
        elif op == "reveal":
            for j, x in enumerate(lines):
                if x.startswith("#! from"):
                    lines[j] = x[3:]
                    break
        elif op == "dropown":
            for j in dims:
                if re.search(rf"\b{c['n']}\b", lines[j].split("import")[1]):
                    del lines[j]
                    break
        elif op == "droplast":
            if dims:
                del lines[dims[-1]]
        elif op == "surface":
            lines = [re.sub(r"<<<(\d+)>>>", lambda m: OUT % f"surf {m.group(1)}", x) for x in lines]
        elif op == "shift":
            lines.insert(0, "# shifted")
        elif op == "inject":
            if c.get("target"):
                lines.append(f"from {self.full(c['target'][0])} import dialects, {c['target'][1]}")
        elif op == "imports":
            self.import_(self.full(self.spec["oth"]["name"]))
        return lines

    def compile_stmts(self, stmts, modname, state):
        top = max([s[3][0] for s in stmts if s[3]], default=0)
        multi = any(s[0] == "from mcpyrate.multiphase import macros, phase" for s in stmts)
        if top and not multi:
            raise Fail("no multi-phase")
        for k in range(top, 0, -1):
            body = [x for s in stmts for x in (s[3][1] if s[3] and s[3][0] >= k else [s] if s[0].startswith("from __future__") else [])]
            self.execute(self.single(copy.deepcopy(body), modname, {"debug": False, "step": 0}))
        body = [x for s in stmts for x in (s[3][1] if s[3] else [s])]
        return self.single(copy.deepcopy(body), modname, state)

    def single(self, stmts, modname, state):
        ran = []
        while True:
            for s in stmts:
                if DIM.match(s[0]):
                    break
            else:
                break
            lineno, col = s[1], s[2]
            text = s[0]
            src, names = self.enter(text, modname)
            s[0] = f"import {src}"
            for n in names:
                if n == "StepExpansion":
                    if not state["debug"]:
                        state["debug"] = True
                        state["step"] += 1
                        self.prints.append(("StepExpansion.transform_ast", state["step"], None))
                    continue
                if n in ("Plain", "fun"):
                    raise Fail("not a dialect")
                i, c = self.classes[n]
                self.event("init", n)
                ran.append(c)
                op = c["ast"]
                if op == "inherit":
                    continue
                self.event("ast", n, lineno, col, [x[0] for x in stmts])
                if op in ("none", "empty"):
                    raise Fail(f"empty:{n}.transform_ast")
                if self.tree_op("ast", op, c, stmts):
                    state["step"] += 1
                    if state["debug"]:
                        self.prints.append((f"{n}.transform_ast", state["step"], None))
        for s in stmts:
            m = re.match(r"from (\S+) import macros, ", s[0])
            if m:
                s[0] = f"import {m.group(1)}"
        for s in stmts:
            for no in MAC.findall(s[0]):
                self.event("mac", int(no))
            s[0] = MAC.sub(r"('m', \1)", s[0])
        for c in ran:
            n, op = c["n"], c["post"]
            if op == "inherit":
                continue
            self.event("post", n, [x[0] for x in stmts])
            if op in ("none", "empty"):
                raise Fail(f"empty:{n}.postprocess_ast")
            if self.tree_op("post", op, c, stmts):
                state["step"] += 1
                if state["debug"]:
                    self.prints.append((f"{n}.postprocess_ast", state["step"], None))
        return stmts

    def tree_op(self, stage, op, c, stmts):
        if op == "decl":
            return False
        if op == "mark":
            stmts.append([OUT % f"{stage} {c['n']}", 1, 0, None])
        elif op in ("inject", "injectfront"):
            if c.get("target"):
                new = [f"from {self.full(c['target'][0])} import dialects, {c['target'][1]}", 1, 0, None]
                stmts.insert(len(stmts) if op == "inject" else front([x[0] for x in stmts]), new)
        elif op == "droplast":
            dims = [j for j, x in enumerate(stmts) if DIM.match(x[0])]
            if dims:
                del stmts[dims[-1]]
        elif op == "injectmac":
            stmts.insert(front([x[0] for x in stmts]), ["from mm import macros, mk", 1, 0, None])
            stmts.append([OUT.replace("%r", "mk[90]"), 1, 0, None])
        elif op == "imports":
            self.import_(self.full(self.spec["oth"]["name"]))
        return True


def front(texts):
    """Where the first statement after docstring and future-imports is."""
    j = 0
    while j < len(texts) and (texts[j].startswith("from __future__") or (j == 0 and texts[j].startswith(("'", '"')))):
        j += 1
    return j


# ---------------------------------------------------------------- the real thing

class Stages:
    """What generated dialects do, in the simulated process."""
    def __init__(self, rt, spec, classes):
        self.rt = rt
        self.spec = spec
        self.classes = classes
        self.reset()
        rt.dinit, rt.dstage, rt.out, rt.mark, rt.mk = self.dinit, self.dstage, self.out, self.mark, self.mk
        self.mod = __import__("mcpyrate.dialects", fromlist=["x"])

    def reset(self):
        self.log = []
        self.insts = []      # instances made, with the stages they ran
        self.at = None

    def point(self, name, *event):
        self.log.append(event)
        self.rt.point(name)

    def out(self, x):
        self.point(f"out#{x}", "out", x)

    def mark(self, x):
        self.point(f"mark#{x}", "mark", x)

    def mk(self, no):
        self.point("mac", "mac", no)

    def dinit(self, inst, n):
        self.insts.append((inst, n, []))
        self.point(f"init#{n}", "init", n)

    def dstage(self, inst, n, stage, content):
        rt = self.rt
        for i, (o, m, stages) in enumerate(self.insts):
            if o is inst:
                break
        else:
            rt.violate("wrong-instance", f"{n}.{stage} ran on an unknown instance")
        rt.check(m == n and (stages == [] or (stages == ["ast"] and stage == "post")) or (stage == "post" and stages == []), "wrong-instance",
                 lambda: f"{n}.{stage} ran on an instance made for {m} that already ran {stages}")
        if stage == "post" and self.classes[n][1]["ast"] != "inherit":
            rt.check(stages == ["ast"], "wrong-instance", lambda: f"{n}.{stage} ran on an instance whose `transform_ast` did not run")
        stages.append(stage)
        rt.check(isinstance(getattr(inst, "expander", None), self.mod.DialectExpander), "no-expander", lambda: f"{n}.{stage}: `self.expander` is {getattr(inst, 'expander', None)!r}")
        c = self.classes[n][1]
        op = c[stage]
        full = self.spec["pkg"]
        if stage == "src":
            self.point(f"src#{n}", "src", n, inst.lineno, inst.col_offset, content)
            if op == "none":
                return None
            if op == "empty":
                return ""
            if op == "decl":
                return NotImplemented
            if op == "same":
                return content
            if op == "imports":
                importlib.import_module(full + self.spec["oth"]["name"])
                return content
            lines = content.split("\n")
            rt.check(lines[-1] == "", "text-changed", lambda: f"{n}: the text lost its last newline")
            # the operations themselves are the simulator's
            return "\n".join(Model(self.spec, {}, set()).source_op(op, c, lines[:-1])) + "\n"
        if not isinstance(content, ast.Module):
            rt.violate("not-a-tree", f"{n}.{stage} got {type(content).__name__}")
        body = [s for s in content.body if not ast.unparse(s).startswith("__phase__ =")]
        texts = [ast.unparse(s) for s in body]
        if stage == "ast":
            self.point(f"ast#{n}", "ast", n, inst.lineno, inst.col_offset, texts)
        else:
            self.point(f"post#{n}", "post", n, texts)
        if op == "none":
            return None
        if op == "empty":
            return []
        if op == "decl":
            return NotImplemented
        tree = content
        if op == "newtree":
            return copy.deepcopy(tree)
        if op == "rebody":
            return ast.Module(body=list(tree.body), type_ignores=[])

        def parse(text):
            return ast.parse(text).body[0]
        alltexts = [ast.unparse(s) for s in tree.body]
        if op == "mark":
            tree.body.append(parse(OUT % f"{stage} {n}"))
        elif op in ("inject", "injectfront"):
            if c.get("target"):
                new = parse(f"from {full}{c['target'][0]} import dialects, {c['target'][1]}")
                tree.body.insert(len(tree.body) if op == "inject" else front(alltexts), new)
        elif op == "droplast":
            dims = [j for j, x in enumerate(alltexts) if DIM.match(x)]
            if dims:
                del tree.body[dims[-1]]
        elif op == "injectmac":
            tree.body.insert(front(alltexts), parse("from mm import macros, mk"))
            tree.body.append(parse(OUT.replace("%r", "mk[90]")))
        elif op == "imports":
            importlib.import_module(full + self.spec["oth"]["name"])
        return tree


class PointedStderr(io.StringIO):
    def __init__(self, rt):
        super().__init__()
        self.rt = rt

    def write(self, s):
        self.rt.point("stderr")
        return super().write(s)


def lost(log):
    """A log, without what has no meaning for generated text (locations)."""
    return [tuple(x if not (e[0] in ("ast",) and j in (2, 3)) else None for j, x in enumerate(e)) for e in log]


class C14(InProcWorld):
    id = "C14"
    level = "fault_enumeration"
    quick_runs = 12000
    thorough_runs = 400000
    rule = ("each run draws 1 to 3 dialect modules (some written in dialects themselves) with 1 to 3 dialects, each with a source, tree and postprocessing stage that declines, "
            "marks, rewrites, reveals, adds or removes dialect-imports, imports further dialect modules, or returns nothing; a module using them, with macros, phases, text "
            "that is not Python, and decoys; and a history of imports, reloads, run-time compilations and runs, with exceptions injected at stages, constructors, macros, module "
            "bodies and diagnostics; non-trivial: an exception fired, or at least three stages ran")

    # ---- generation
    def gen(self, rng, index):
        spec = {"pkg": rng.choice(("", "", "pk.", "pk.sub.")), "dialects": [], "ops": []}
        nd = rng.randint(1, 3)
        for i in range(nd):
            d = {"name": f"d{i}", "items": [], "classes": [], "rel": rng.random() < 0.5}
            for j in range(rng.choice((1, 1, 2, 3))):
                d["classes"].append({"n": f"D{i}{'ABC'[j]}", "src": rng.choice(SRC_OPS), "ast": rng.choice(AST_OPS), "post": rng.choice(POST_OPS)})
            spec["dialects"].append(d)
        allc = [(i, c["n"]) for i, d in enumerate(spec["dialects"]) for c in d["classes"]]
        for i, d in enumerate(spec["dialects"]):
            higher = [x for x in allc if x[0] > i]
            for c in d["classes"]:
                if higher:
                    t = rng.choice(higher)
                    c["target"] = [f"d{t[0]}", t[1]]
                if rng.random() < 0.03:
                    c[rng.choice(("src", "ast", "post"))] = rng.choice(("none", "empty"))
            if higher and rng.random() < 0.25:      # written in a dialect (which never is one that depends on this one)
                t = rng.choice(higher)
                d["items"].append(["dim", t[0], [t[1]], ""])

        def dim(low=0):
            i = rng.randrange(low, nd)
            cs = [c["n"] for c in spec["dialects"][i]["classes"]]
            rng.shuffle(cs)
            cs = cs[:rng.randint(1, len(cs))]
            if rng.random() < 0.05:
                cs.append(cs[0])
            return [i, cs, rng.choice(("", "", "", "sp", "trail", "comment", "tab"))]

        def items(n, depth=0):
            out = []
            for _ in range(n):
                r = rng.random()
                if r < 0.3:
                    out.append(["dim", *dim()])
                elif r < 0.5:
                    out.append(["out", rng.randint(0, 9)])
                elif r < 0.6:
                    out.append(["mac", rng.randint(0, 9)])
                elif r < 0.66 and depth == 0:
                    out.append(["surf", rng.randint(0, 9)])
                elif r < 0.74 and depth == 0:
                    out.append(["hid", *dim()])
                elif r < 0.8:
                    out.append(rng.choice((["comment"], ["blank", rng.randint(1, 3)])))
                elif r < 0.87 and depth == 0:
                    out.append(["decoy", rng.choice(("string", "nested", "name", "multi"))])
                elif r < 0.93:
                    out.append(["step"])
                elif r < 0.97 and depth == 0 and rng.random() < 0.5:
                    out.append(["phase", rng.choice((1, 1, 2)), items(rng.randint(1, 4), 1)])
                elif rng.random() < 0.15:
                    out.append(["bad", rng.choice(("Plain", "fun", "VALUE", "Missing", "module"))])
            return out
        spec["oth"] = {"name": "oth", "items": items(rng.randint(0, 3)), "rel": False}
        spec["oth"]["items"] = [x for x in spec["oth"]["items"] if x[0] in ("dim", "out", "mac")]
        spec["mods"] = []
        for v in range(rng.choice((1, 1, 2))):
            spec["mods"].append({"name": "um", "items": items(rng.randint(1, 9)), "rel": rng.random() < 0.4, "doc": rng.random() < 0.3, "future": rng.random() < 0.2,
                                 "coding": rng.random() < 0.2})
        points = ["src#*", "ast#*", "post#*", "init#*", "mac", "out#*", "mark#begin:*", "mark#end:*", "stderr", "*"]
        for _ in range(rng.randint(1, 6)):
            op = {"op": rng.choice(("import", "import", "import", "reload", "edit", "forget", "expand", "compile", "run", "expand-tree", "run-tree", "run-new"))}
            if op["op"] == "edit":
                op["ver"] = rng.randrange(len(spec["mods"]))
            elif op["op"] == "forget":
                op["what"] = rng.choice(("um", "um", "all", "d0", "oth"))
            elif rng.random() < 0.75:
                op["faults"] = [{"at": rng.choice(points), "n": rng.choice((0, 0, 0, 1, 1, 2, 3, 5)), "exc": rng.choice(EXCS)}]
            spec["ops"].append(op)
        return spec

    # ---- the run
    def inproc(self, rt, spec):
        import mcpyrate.compiler
        pkg = spec["pkg"]
        classes = {c["n"]: (i, c) for i, d in enumerate(spec["dialects"]) for c in d["classes"]}
        S = Stages(rt, spec, classes)
        rt.write("mm.py", "import _sim\ndef mk(tree, *, syntax, **kw):\n    import ast\n    _sim.rt.mk(tree.value)\n"
                          "    return ast.copy_location(ast.Tuple(elts=[ast.copy_location(ast.Constant(value='m'), tree), tree], ctx=ast.Load()), tree)\n")
        rel = pkg.replace(".", "/")
        for j in range(1, pkg.count(".") + 1):
            rt.write("/".join(pkg.split(".")[:j]) + "/__init__.py", "")
        texts = {}
        for m in (*spec["dialects"], spec["oth"]):
            texts[pkg + m["name"]] = render(spec, m)
            rt.write(f"{rel}{m['name']}.py", "\n".join(texts[pkg + m["name"]]) + "\n")
        um = pkg + "um"
        path = os.path.join(rt.src, f"{rel}um.py")
        mtime = 1000

        def edit(v):
            nonlocal mtime
            mtime += 10
            texts[um] = render(spec, spec["mods"][v], v)
            rt.write(f"{rel}um.py", "\n".join(texts[um]) + "\n", mtime)
        edit(0)
        ver = 0
        importlib.import_module("mm")
        if pkg:
            importlib.import_module(pkg[:-1])
        parent = sys.modules[pkg[:-1]] if pkg else None
        real_stderr = sys.stderr
        newno = 0
        helpers = [pkg + m["name"] for m in (*spec["dialects"], spec["oth"])]

        def attempt(op, target):
            S.reset()
            sys.stderr = PointedStderr(rt)
            text = "\n".join(texts[um]) + "\n"
            res = err = None
            try:
                if op in ("import",):
                    res = importlib.import_module(um)
                elif op == "reload":
                    res = importlib.reload(sys.modules[um])
                elif op == "expand":
                    res = mcpyrate.compiler.expand(text, path, self_module=target)
                elif op == "compile":
                    res = mcpyrate.compiler.compile(text.encode(), path, self_module=target)
                elif op == "run":
                    res = mcpyrate.compiler.run(text, sys.modules[target])
                elif op == "expand-tree":
                    res = mcpyrate.compiler.expand(ast.parse(text), path, self_module=target)
                elif op == "run-tree":
                    res = mcpyrate.compiler.run(ast.parse(text).body, sys.modules[target])
                elif op == "run-new":
                    res = mcpyrate.compiler.run(ast.parse(text), None)
            except core.Violation:
                raise
            except BaseException as e:
                err = e
            finally:
                printed = sys.stderr.getvalue()
                sys.stderr = real_stderr
            return res, err, printed

        def model(op, loaded, stop=None, strict=True):
            """(log, failure, prints) of a fresh attempt; changes `loaded`."""
            m = Model(spec, texts, loaded, stop, strict)
            fail = None
            m.loading.append(um if op in ("import", "reload") else "<run>")
            try:
                if op in ("import", "reload"):
                    stmts = None
                    try:
                        stmts_of(texts[um])
                    except SyntaxError:
                        if not any(re.match(r"from\s.*import dialects,", x) for x in texts[um]):
                            raise Fail("not Python")
                    stmts = m.compile_text(texts[um], um)
                    m.execute(stmts)
                    loaded.add(um)
                elif op in ("expand", "compile"):
                    m.compile_text(texts[um], um)
                elif op == "run":
                    m.execute(m.compile_text(texts[um], um))
                else:
                    stmts = m.compile_stmts(stmts_of(texts[um]), um, {"debug": False, "step": 0})
                    if op != "expand-tree":
                        m.execute(stmts)
            except Fail as e:
                fail = str(e)
            except Stop:
                fail = "stop"
            return m, fail

        loaded = set()
        for k, op in enumerate(spec["ops"]):
            kind = op["op"]
            what = f"op {k} ({kind})"
            if kind == "edit":
                ver = op["ver"]
                edit(ver)
                continue
            if kind == "forget":
                names = {"um": [um], "all": [um, *helpers]}.get(op["what"], [pkg + op["what"]])
                for n in names:
                    sys.modules.pop(n, None)
                    loaded.discard(n)
                    if parent is not None:
                        parent.__dict__.pop(n.rpartition(".")[2], None)
                continue
            if kind == "import" and um in sys.modules:
                continue
            if kind == "reload" and um not in sys.modules:
                continue
            mod = spec["mods"][ver]
            if kind.endswith(("-tree", "-new")):
                try:
                    stmts_of(texts[um])
                except SyntaxError:
                    continue
                if kind == "run-new" and (mod["rel"] or has(mod["items"], "bad")):
                    continue      # relative imports need a file name
            target = None
            if kind in ("run", "run-tree", "expand", "compile", "expand-tree"):
                newno += 1
                target = f"{pkg}dyn{newno}"
                tm = mcpyrate.compiler.create_module(target, filename=path)
            before = sys.modules.get(um)
            bv = getattr(before, "V", None)
            nfired = len(rt.fired)
            for t in ("fault", "retry"):
                start = set(loaded)
                if t == "fault":
                    rt.set_plan(op.get("faults", ()))
                else:
                    rt.quiet += 1
                    what += ", tried again"
                try:
                    res, err, printed = attempt(kind, target)
                finally:
                    rt.set_plan(())
                    if t == "retry":
                        rt.quiet -= 1
                fired = rt.fired[nfired:] if t == "fault" else []
                rt.event(f"{what}: {'failed: ' + type(err).__name__ if err else 'ok'}, {len(S.log)} events, fired {fired}")
                rt.probe(f"{kind}: {'failed' if err else 'ok'}")
                if fired:
                    strict = fired[0][0] != "stderr"
                    m, fail = model(kind, loaded, len(S.log), strict)
                    rt.check(err is not None, "error-swallowed", lambda: f"{what}: succeeded although {fired} was raised")
                else:
                    strict = True
                    m, fail = model(kind, loaded)
                if sum(e[0] in ("src", "ast", "post") for e in S.log) >= 3:
                    rt.nontrivial = True
                for e in S.log:
                    rt.probe(f"stage {e[0]}")
                got, want = S.log, m.log
                if kind == "run-new":
                    got, want = lost(got), lost(want)
                self.compare(rt, what, got, want, fail, err)
                if fired:
                    self.judge_error(rt, what, err, fired, S, m)
                elif fail is not None:
                    rt.check(err is not None, "missing-error", lambda: f"{what}: succeeded, but should fail ({fail})")
                    rt.check(isinstance(err, Exception), "wrong-error", lambda: f"{what}: failed with {err!r}")
                    rt.probe("expected failure: " + fail.split(":")[0])
                    if fail.startswith("empty:"):
                        cls, method = fail[6:].split(".")
                        rt.check(self.mentions(err, cls, method), "wrong-error", lambda: f"{what}: {cls}.{method} returned nothing, but the error is {err!r} from {err.__cause__!r}")
                else:
                    rt.check(err is None, "fails", lambda: f"{what}: failed without a reason: {err!r} from {err.__cause__!r}")
                    self.judge_prints(rt, what, printed, m.prints)
                # what is left behind
                for n in helpers:
                    if strict:
                        rt.check((n in sys.modules) == (n in loaded), "left-behind", lambda: f"{what}: {n} is {'' if n in sys.modules else 'not '}in the module table")
                    elif n in sys.modules:
                        loaded.add(n)
                    else:
                        loaded.discard(n)
                if kind in ("import", "reload"):
                    now = sys.modules.get(um)
                    if err is None:
                        rt.check(now is res and now is not None and (before is None or now is before), "wrong-module", lambda: f"{what}: module table has {now!r}, import gave {res!r}")
                        rt.check(now.V == ver, "wrong-module", lambda: f"{what}: V is {now.V}, expected {ver}")
                        rt.check(parent is None or getattr(parent, "um", None) is now, "wrong-parent", lambda: f"{what}: the parent package has {getattr(parent, 'um', None)!r}")
                        rt.check(now.__doc__ == ("um" if mod["doc"] else None) or (before is not None and not mod["doc"]), "wrong-doc", lambda: f"{what}: docstring {now.__doc__!r}")
                    else:
                        rt.check(now is before, "left-behind", lambda: f"{what}: failed, and left {now!r} in the module table (before: {before!r})")
                        rt.check(before is not None or parent is None or not hasattr(parent, "um"), "left-behind", lambda: f"{what}: failed, and left the module in its package")
                        inbody = fired and fired[0][0].startswith(("out", "mark"))
                        rt.check(before is None or before.V == bv or inbody, "left-behind", lambda: f"{what}: failed before the new body ran, but V changed from {bv} to {before.V}")
                elif target:
                    rt.check(sys.modules.get(target) is tm, "left-behind", lambda: f"{what}: the module it ran in is not in the module table any more: {sys.modules.get(target)!r}")
                if err is None and kind in ("expand", "expand-tree"):
                    rest = [s[0] for s in stmts_of(ast.unparse(res).split("\n"))]
                    rt.check(not any(DIM.match(x) or "mk[" in x.replace("'mk[", "") for x in rest), "not-expanded", lambda: f"{what}: result contains magic: {rest}")
                if not fired:
                    break

    def compare(self, rt, what, got, want, fail, err):
        if got == want:
            return
        j = 0
        while j < min(len(got), len(want)) and got[j] == want[j]:
            j += 1
        g = got[j] if j < len(got) else "(nothing)"
        w = want[j] if j < len(want) else "(nothing)"
        kind = "wrong-stage"
        if g != "(nothing)" and w != "(nothing)" and g[:2] == w[:2]:
            kind = "wrong-input"
            if g[0] in ("src", "ast") and g[2:4] != w[2:4] and g[4:] == w[4:]:
                kind = "wrong-location"
        elif g == "(nothing)":
            kind = "missing-stage"
        elif w == "(nothing)":
            kind = "extra-stage"
        rt.violate(kind, f"{what}: after {[e[:2] for e in got[:j]][-6:]}: got {str(g)[:700]}, expected {str(w)[:700]}; model says {fail}; error {err!r}"[:2500])

    def chain(self, err):
        out = []
        while err is not None and err not in out:
            out.append(err)
            err = err.__cause__
        return out

    def mentions(self, err, cls, method):
        return any(isinstance(e, ImportError) and e.__cause__ is None and cls in str(e) and method in str(e) for e in self.chain(err))

    def judge_error(self, rt, what, err, fired, S, m):
        name, exc = fired[0]
        chain = self.chain(err)
        hit = [e for e in chain if getattr(e, "_injected", None)]
        if not isinstance(err, Exception) or (hit and not isinstance(hit[0], Exception)):
            rt.check(hit and hit[0] is err, "not-unchanged", lambda: f"{what}: {exc} at {name} arrived as {err!r} from {err.__cause__!r}")
            rt.probe("passed unchanged")
            return
        rt.check(bool(hit), "wrong-cause", lambda: f"{what}: {exc} at {name} arrived as {err!r}, and its causes are {chain[1:]!r}")
        stage = name.split("#")[0]
        if stage in ("src", "ast", "post", "init"):
            cls = name.split("#")[1]
            j = chain.index(hit[0])
            rt.check(j > 0 and isinstance(chain[j - 1], ImportError) and cls in str(chain[j - 1]), "wrong-cause",
                     lambda: f"{what}: {exc} at {name} arrived as {[repr(e) for e in chain]}")
            rt.probe("stage error reported")

    def judge_prints(self, rt, what, printed, want):
        text = ANSI.sub("", printed)
        heads = [(x.start(), x.end(), x.group(1), int(x.group(2))) for x in re.finditer(r"^\*\*StepExpansion: .* after (.*) \(step (\d+)\):\n", text, re.M)]
        got = []
        for s, e, who, step in heads:
            m = re.search(r"(\w+)( object at 0x[0-9a-f]+>)?\.(transform_source|transform_ast|postprocess_ast)$", who)
            got.append((f"{m.group(1)}.{m.group(3)}" if m else who, step))
        rt.check(got == [w[:2] for w in want], "wrong-diagnostics", lambda: f"{what}: shown: {got}, expected {[w[:2] for w in want]}")
        for (s, e, who, step), w in zip(heads, want):
            if w[2] is not None:
                rt.check(text[e:].lstrip("\n").startswith(w[2].lstrip("\n")), "wrong-diagnostics", lambda: f"{what}: after {w[:2]}, expected to see the text {w[2]!r}, got {text[e:e + 400]!r}")
        if want:
            rt.probe("diagnostics shown")

    def shrink(self, spec):
        yield from core.shrink_ops(spec)
        for key in ("mods",):
            if len(spec[key]) > 1 and not any(o["op"] == "edit" for o in spec["ops"]):
                yield {**spec, key: spec[key][:1]}
        for v, mod in enumerate(spec["mods"]):
            for j in range(len(mod["items"])):
                s = copy.deepcopy(spec)
                del s["mods"][v]["items"][j]
                yield s
            for j, it in enumerate(mod["items"]):
                if it[0] == "phase":
                    for q in range(len(it[2])):
                        s = copy.deepcopy(spec)
                        del s["mods"][v]["items"][j][2][q]
                        yield s
                    s = copy.deepcopy(spec)
                    s["mods"][v]["items"][j:j + 1] = it[2]
                    yield s
                elif it[0] in ("dim", "hid"):
                    for q in range(len(it[2])):
                        if len(it[2]) > 1:
                            s = copy.deepcopy(spec)
                            del s["mods"][v]["items"][j][2][q]
                            yield s
                    if it[3]:
                        s = copy.deepcopy(spec)
                        s["mods"][v]["items"][j][3] = ""
                        yield s
            for flag in ("doc", "future", "coding", "rel"):
                if mod.get(flag):
                    s = copy.deepcopy(spec)
                    s["mods"][v][flag] = False
                    yield s
        for i, d in enumerate(spec["dialects"]):
            if d["items"]:
                s = copy.deepcopy(spec)
                s["dialects"][i]["items"] = []
                yield s
            for j, c in enumerate(d["classes"]):
                for stage in ("src", "ast", "post"):
                    if c[stage] != "inherit":
                        s = copy.deepcopy(spec)
                        s["dialects"][i]["classes"][j][stage] = "inherit"
                        yield s
        if spec["oth"]["items"]:
            s = copy.deepcopy(spec)
            s["oth"]["items"] = []
            yield s
        if spec["pkg"]:
            yield {**copy.deepcopy(spec), "pkg": ""}
