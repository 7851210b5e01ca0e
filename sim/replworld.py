"""C10: a REPL session survives failing input and keeps its macros."""
import copy
import io
import os
import re
import sys

from . import core
from .inproc import InProcWorld

ANSI = re.compile(r"\x1b\[[0-9;]*m")
VARS = ("v0", "v1", "v2")
MODS = {"mm1": ("mA", "mB"), "mm2": ("mA", "mC", "mW"), "mp.mm3": ("mD",)}
SELF = ("mR", "mS")
NAMES = VARS + ("mA", "mB", "mC", "mD", "mW", "mR", "mS", "x1", "f1", "f2", "i", "w")
PT = "__import__('_sim').point(%r)"
RUN_EXCS = ("ValueError", "KeyError", "RecursionError", "MemoryError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "ImportError", "SyntaxError", "OSError", "StopIteration")
MAC_EXCS = ("ValueError", "KeyError", "RecursionError", "MemoryError", "KeyboardInterrupt", "SystemExit", "ImportError", "SyntaxError", "OSError", "StopIteration", "AttributeError")


# ---------------------------------------------------------------- text

def expr(e):
    k = e[0]
    if k == "int":
        return str(e[1])
    if k == "var":
        return e[1]
    if k == "mac":
        return f"{e[1]}[{expr(e[2])}]"
    if k == "call":
        return f"{e[1]}()"
    if k == "tup":
        return "(" + "".join(expr(x) + ", " for x in e[1]) + ")"
    if k == "str":
        return repr(e[1])
    raise AssertionError(e)


def stmt(s):
    k = s[0]
    if k == "set":
        return f"{s[1]} = {expr(s[2])}"
    if k == "show":
        return expr(s[1])
    if k == "mimp":
        return f"from {s[1]} import macros, " + ", ".join(a if a == b else f"{a} as {b}" for a, b in s[2])
    if k == "imp":
        return f"import {s[1]}"
    if k == "del":
        return f"del {s[1]}"
    if k == "pt":
        return PT % "run"
    if k == "bad":
        return "1/0"
    if k == "reg":
        return f"macro({s[1]})"
    raise AssertionError(s)


def macro_def(name, no, quote):
    head = f"def {name}(tree, *, syntax, **kw):"
    doc = f"    'doc {name} {no}'"
    if quote:
        return [head, doc, "    " + PT % f"mac#{name}#{no}", f"    return q[('{name}', {no}, h[v0], a[tree])]"]
    return [head, doc, f"    return __import__('_sim').rt.mk('{name}', {no}, tree, syntax)"]


def lines_of(inp):
    """The lines of an input, and whether it ends in the middle."""
    k = inp["k"]
    if k == "line":
        text = "; ".join(stmt(s) for s in inp["st"])
        if inp.get("comment"):
            text += "  # " + inp["comment"]
        return [text]
    if k == "def":
        return (["@macro"] if inp["decor"] else []) + macro_def(inp["name"], inp["no"], inp["quote"]) + [""]
    if k == "fn":
        return [f"def {inp['name']}():", f"    'doc {inp['name']} {inp['no']}'", f"    return {expr(inp['e'])}", ""]
    if k == "for":
        return ["for i in range(2):", *[f"    {stmt(s)}" for s in inp["st"]], ""]
    if k == "with":
        return [f"with {inp['mac']}:", *[f"    {stmt(s)}" for s in inp["st"]], ""]
    if k == "syntax":
        return list(inp["lines"])
    if k == "multi":
        return [f"{inp['v']} = (", f"{expr(inp['e'])}", ",  # is there more?", ")"]
    if k == "text":
        return [inp["text"]]
    if k == "ask":
        return [inp["name"] + "?" * inp["n"]]
    if k == "macros?":
        return ["macros?"]
    if k == "string":
        return [f'{inp["v"]} = """what?', 'else?"""']
    if k == "abort":
        return list(inp["lines"])
    if k == "edit":
        return []
    raise AssertionError(k)


def module_text(mod, state):
    """The text of a macro module in a state {ver, how}."""
    ver, how = state["ver"], state["how"]
    if how == "syntax":
        return "def broken(:\n"
    out = [f"import _sim\n_sim.point('mod#{mod}')\nVERSION = {ver}\n"]
    if how == "raise":
        out.append("raise LookupError('module is broken')\n")
    for n in MODS[mod]:
        if how == "missing":
            continue
        if how == "value":
            out.append(f"{n} = {ver}\n")
        elif how == "closure":
            out.append(f"def _make():\n    def inner(tree, *, syntax, **kw):\n        'doc {n} {ver}'\n        return _sim.rt.mk('{n}', {ver}, tree, syntax)\n    return inner\n{n} = _make()\n")
        elif how == "alias":
            out.append(f"def orig_{n}(tree, *, syntax, **kw):\n    'doc {n} {ver}'\n    return _sim.rt.mk('{n}', {ver}, tree, syntax)\n{n} = orig_{n}\ndel orig_{n}\n")
        elif how == "object":
            out.append(f"class C_{n}:\n    'doc {n} {ver}'\n    def __call__(self, tree, *, syntax, **kw):\n        return _sim.rt.mk('{n}', {ver}, tree, syntax)\n{n} = C_{n}()\n")
        else:
            out.append(f"def {n}(tree, *, syntax, **kw):\n    'doc {n} {ver}'\n    return _sim.rt.mk('{n}', {ver}, tree, syntax)\n")
    return "".join(out)


# ---------------------------------------------------------------- the model

class Err(Exception):
    """An input fails. `name`: class of the exception."""
    def __init__(self, name, stage="run"):
        super().__init__(name)
        self.name = name
        self.stage = stage


class F:
    """A function. impl: ("mac", tag, ver) | ("quote", tag, ver) | ("fn", expanded expression)"""
    def __init__(self, name, doc, impl):
        self.name, self.doc, self.impl, self.obj = name, doc, impl, False

    def __eq__(self, other):
        return isinstance(other, F) and self.doc == other.doc

    def __repr__(self):
        return f"F({self.doc})"


class M:
    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, M) and self.name == other.name

    def __repr__(self):
        return f"M({self.name})"


class Model:
    def __init__(self):
        self.vars = {"mcpyrate": M("mcpyrate")}
        self.macros = {}
        self.files = {m: {"ver": 1, "how": "fun"} for m in MODS}
        self.memory = {}            # module -> {name: (how, ver)}
        self.shown = []
        self.log = []
        self.stop = None            # (number of events, exception name)

    def event(self, name):
        self.log.append(name)
        if self.stop and len(self.log) >= self.stop[0]:
            raise Err(self.stop[1], name.split("#")[0])

    # ---- modules
    def execute(self, mod):
        """Run the module; when it was there already, what it no longer defines stays."""
        st = self.files[mod]
        if st["how"] == "syntax":
            raise Err("SyntaxError", "import")
        self.event(f"mod#{mod}")
        if st["how"] == "raise":
            raise Err("LookupError", "import")
        attrs = dict(self.memory.get(mod, ()))
        if st["how"] != "missing":
            attrs.update({n: (st["how"], st["ver"]) for n in MODS[mod]})
        self.memory[mod] = attrs

    def load(self, mod):
        if mod == "nosuch":
            raise Err("ModuleNotFoundError", "import")
        if mod not in self.memory:
            self.execute(mod)

    def lookup(self, mod, name):
        attrs = self.memory[mod]
        if name not in attrs:
            raise Err("ImportError", "import")
        how, ver = attrs[name]
        if how == "value":
            raise Err("ImportError", "import")
        f = F({"closure": "inner", "alias": f"orig_{name}"}.get(how, name), f"doc {name} {ver}", ("mac", name, ver))
        f.obj = how == "object"     # an instance with `__call__`, without `__name__`
        return f

    def macro_import(self, s):
        _, mod, names = s
        if mod == "__self__":
            out = {}
            for a, b in names:
                f = self.vars.get(a)
                if not isinstance(f, F):
                    raise Err("ImportError", "import")
                out[b] = f
            return out
        if mod == "mcpyrate.quotes":
            return {b: F(a, f"*{a}", ("qq", a)) for a, b in names}
        self.load(mod)
        self.execute(mod)       # the console reloads it
        return {b: self.lookup(mod, a) for a, b in names}

    # ---- expansion
    def expand(self, e):
        k = e[0]
        if k == "mac":
            f = self.macros.get(e[1])
            if f is None:
                return ["sub", ["var", e[1]], self.expand(e[2])]
            if f.impl[0] == "qq":
                raise AssertionError("quotes are not used directly")
            if f.impl[0] == "fn":
                raise Err("TypeError", "expand")
            if f.impl[0] == "broken":
                self.event(f"mac#{f.impl[1]}#{f.impl[2]}")
                raise Err("NameError", "expand")
            self.event(f"mac#{f.impl[1]}#{f.impl[2]}")
            if f.impl[0] == "quote":
                if "v0" not in self.vars:
                    raise Err("NameError", "expand")
                return ["res", f.impl[1], f.impl[2], self.vars["v0"], self.expand(e[2])]
            return ["res", f.impl[1], f.impl[2], None, self.expand(e[2])]
        if k == "tup":
            return ["tup", [self.expand(x) for x in e[1]]]
        return e

    def eval(self, e):
        k = e[0]
        if k in ("int", "str"):
            return e[1]
        if k == "var":
            if e[1] not in self.vars:
                raise Err("NameError")
            return self.vars[e[1]]
        if k == "tup":
            return tuple(self.eval(x) for x in e[1])
        if k == "res":
            v = self.eval(e[4])
            return (e[1], e[2], v) if e[3] is None else (e[1], e[2], e[3], v)
        if k == "sub":
            c = self.eval(e[1])
            i = self.eval(e[2])
            try:
                return c[i]
            except (TypeError, IndexError) as err:
                raise Err(type(err).__name__)
        if k == "call":
            f = self.eval(["var", e[1]])
            if not isinstance(f, F) or f.impl[0] != "fn":
                raise Err("TypeError")
            return self.eval(f.impl[1])
        raise AssertionError(e)

    # ---- inputs
    def statements(self, stmts, loop=False):
        """Expand, then run."""
        bindings = {}
        if not loop:
            for s in stmts:
                if s[0] == "mimp":
                    bindings.update(self.macro_import(s))
        self.macros.update(bindings)
        code = []
        for s in stmts:
            if s[0] == "set":
                code.append(["set", s[1], self.expand(s[2])])
            elif s[0] == "show":
                code.append(["show", self.expand(s[1])])
            elif s[0] == "mimp":
                code.append(["imp", s[1]])
            else:
                code.append(s)
        return bindings, code

    def run(self, code):
        for s in code:
            k = s[0]
            if k == "set":
                self.vars[s[1]] = self.eval(s[2])
            elif k == "show":
                self.shown.append(self.eval(s[1]))
            elif k == "imp":
                if s[1] == "__self__":
                    self.vars["__mcpyrate_repl_self__"] = M("__mcpyrate_repl_self__")
                elif s[1].startswith("mcpyrate."):
                    self.vars["mcpyrate"] = M("mcpyrate")
                else:
                    self.load(s[1])
                    top = s[1].split(".")[0]
                    self.vars[top] = M(top)
            elif k == "del":
                if s[1] not in self.vars:
                    raise Err("NameError")
                del self.vars[s[1]]
            elif k == "pt":
                self.event("run")
            elif k == "bad":
                raise Err("ZeroDivisionError")
            elif k == "reg":
                f = self.eval(["var", s[1]])
                if not isinstance(f, F):
                    raise Err("TypeError")
                if f.obj:
                    raise Err("AttributeError")
                self.macros[f.name] = f
                self.shown.append(f)

    def input(self, inp):
        """Returns `None`, or how the input fails."""
        k = inp["k"]
        bindings = {}
        try:
            if k == "line":
                bindings, code = self.statements(inp["st"])
                self.guarded(code, bindings)
            elif k == "for":
                _, code = self.statements(inp["st"], loop=True)
                for i in range(2):
                    self.vars["i"] = i
                    self.run(code)
            elif k == "with":
                f = self.macros.get(inp["mac"])
                if f is None:
                    _, code = self.statements(inp["st"], loop=True)
                    self.eval(["var", inp["mac"]])
                    raise Err("TypeError")
                if f.impl[0] == "fn":
                    raise Err("TypeError", "expand")
                self.event(f"mac#{f.impl[1]}#{f.impl[2]}")
                if f.impl[0] != "mac" or f.impl[1] != "mW":
                    raise Err("?", "expand")     # an expression macro as block macro
                _, code = self.statements(inp["st"], loop=True)
                self.run(code)
                self.vars["w"] = ("mW", f.impl[2])
            elif k == "def":
                quoting = "q" in self.macros
                impl = ("quote" if quoting else "broken", inp["name"], inp["no"]) if inp["quote"] else ("mac", inp["name"], inp["no"])
                f = F(inp["name"], f"doc {inp['name']} {inp['no']}", impl)
                if inp["decor"]:
                    self.macros[inp["name"]] = f
                self.vars[inp["name"]] = f
            elif k == "fn":
                self.vars[inp["name"]] = F(inp["name"], f"doc {inp['name']} {inp['no']}", ("fn", self.expand(inp["e"])))
            elif k == "syntax":
                raise Err("SyntaxError", "read")
            elif k == "multi":
                e = self.expand(inp["e"])
                self.vars[inp["v"]] = (self.eval(e),)
            elif k == "string":
                self.vars[inp["v"]] = "what?\nelse?"
            elif k == "ask":
                if inp["name"] not in self.vars:
                    raise Err("NameError")
            elif k == "abort":
                raise Err("KeyboardInterrupt", "read")
        except Err as e:
            return e
        return None

    def guarded(self, code, bindings):
        """Run; the macros imported become variables, too, unless the session ends."""
        try:
            self.run(code)
        except Err as e:
            if e.name != "SystemExit":
                self.vars.update(bindings)
            raise
        self.vars.update(bindings)


# ---------------------------------------------------------------- the world

class C10(InProcWorld):
    id = "C10"
    level = "exploration"
    quick_runs = 5000
    thorough_runs = 300000
    rule = ("each run draws a console session of 5 to 30 inputs (assignments, expressions, macro-imports from several modules and from the session itself, definitions of "
            "functions and macros, blocks, queries, syntax errors, interrupted multi-line inputs) between edits that change, break and repair the macro modules, with exceptions "
            "injected in macros, macro modules and running inputs; non-trivial: an input failed, and macros were used later")
    real = InProcWorld.real + ["mcpyrate.repl.console.MacroConsole and code.InteractiveConsole, the read-eval-print loop included"]
    stubs = InProcWorld.stubs + ["the terminal: lines come from the simulator"]

    def likely(self, rng, names):
        """Mostly a name that the session probably has."""
        good = [n for n in names if n in self.known]
        return rng.choice(good if good and rng.random() < 0.85 else names)

    def gen_expr(self, rng, depth=2, call=True):
        r = rng.random()
        if depth > 0 and r < 0.5:
            return ["mac", self.likely(rng, ("mA", "mA", "mB", "mC", "mD", "mR", "mS", "x1")), self.gen_expr(rng, depth - 1, call)]
        if r < 0.62:
            return ["var", self.likely(rng, VARS + ("mA", "i"))]
        if call and r < 0.7:
            return ["call", self.likely(rng, ("f1", "f2"))]
        if depth > 0 and r < 0.76:
            return ["tup", [self.gen_expr(rng, depth - 1, call) for _ in range(rng.randint(0, 2))]]
        return ["int", rng.randint(0, 9)]

    def gen_mimp(self, rng):
        r = rng.random()
        if r < 0.1:
            return ["mimp", "nosuch", [["mA", "mA"]]]
        if r < 0.25:
            return ["mimp", "__self__", [[n, n if rng.random() < 0.7 else "x1"] for n in rng.sample(SELF + ("mA", "v1"), rng.choice((1, 1, 2)))]]
        mod = rng.choice(tuple(MODS))
        names = rng.sample(MODS[mod], rng.randint(1, len(MODS[mod])))
        if rng.random() < 0.06:
            names.append("nope")
        return ["mimp", mod, [[n, "x1" if rng.random() < 0.12 and n != "mW" else n] for n in names]]

    def gen_stmt(self, rng, block=False):
        r = rng.random()
        if r < 0.35:
            v = rng.choice(VARS) if rng.random() < 0.85 else rng.choice(("mA", "mB", "x1", "mm1"))
            e = self.gen_expr(rng)
            if v == "v0":
                e = ["int", rng.randint(10, 19)]
            return ["set", v, e]
        if r < 0.6:
            return ["show", self.gen_expr(rng)]
        if r < 0.75 and not block:
            return self.gen_mimp(rng)
        if r < 0.78:
            return ["imp", rng.choice(tuple(MODS))]
        if r < 0.82:
            return ["del", rng.choice(VARS + ("mA",))]
        if r < 0.92:
            return ["pt"]
        if r < 0.95:
            return ["bad"]
        return ["reg", rng.choice(SELF + ("f1", "mA", "v1"))] if not block else ["pt"]

    def gen(self, rng, index):
        quotes = rng.random() < 0.35
        inputs = []
        self.known = known = set()
        no = 0
        if quotes:
            inputs.append({"k": "line", "st": [["set", "v0", ["int", 10]], ["mimp", "mcpyrate.quotes", [["q", "q"], ["a", "a"], ["h", "h"]]]]})
            known.add("v0")
        if rng.random() < 0.7:
            inputs.append({"k": "line", "st": [["set", v, ["int", no]] for v in VARS]})
            inputs.append({"k": "line", "st": [["mimp", "mm1", [["mA", "mA"], ["mB", "mB"]]]]})
            known.update((*VARS, "mA", "mB"))
        for _ in range(rng.randint(5, 30)):
            no += 1
            for inp in inputs[-1:]:
                if inp["k"] in ("def", "fn"):
                    known.add(inp["name"])
                for st in inp.get("st", ()):
                    if st[0] == "set":
                        known.add(st[1])
                    elif st[0] == "mimp" and st[1] != "nosuch":
                        known.update(b for _, b in st[2])
                    elif st[0] == "del":
                        known.discard(st[1])
            r = rng.random()
            if r < 0.5:
                inp = {"k": "line", "st": [self.gen_stmt(rng) for _ in range(rng.choice((1, 1, 1, 2, 3)))]}
                if rng.random() < 0.1:
                    inp["comment"] = rng.choice(("ok?", "is it ok?", "what??", "plain"))
            elif r < 0.6:
                inp = {"k": "def", "name": rng.choice(SELF), "no": no, "decor": rng.random() < 0.5, "quote": quotes and rng.random() < 0.5}
            elif r < 0.64:
                inp = {"k": "fn", "name": rng.choice(("f1", "f2")), "no": no, "e": self.gen_expr(rng, call=False)}
            elif r < 0.68:
                inp = {"k": "for", "st": [self.gen_stmt(rng, True) for _ in range(rng.randint(1, 2))]}
            elif r < 0.72:
                inp = {"k": "with", "mac": rng.choice(("mW", "mW", "mW", "v1")), "st": [self.gen_stmt(rng, True) for _ in range(rng.randint(1, 2))]}
            elif r < 0.75:
                inp = {"k": "syntax", "lines": rng.choice((["v1 = = 2"], ["(]"], ["def :"], ["v1 ="], ["mA[1"" 2]"], ["for i in range(2):", "v1 = 3"], ["from mm1 import macros,"], ["1 = v1"],
                                                           ["return 3"], ["what now?"], ["v1 = '"], ["mA[v1 := ]"], ["break"]))}
            elif r < 0.78:
                inp = {"k": "multi", "v": rng.choice(VARS[1:]), "e": self.gen_expr(rng)}
            elif r < 0.8:
                inp = {"k": "text", "text": rng.choice(("# just a comment", "# is it?", "# what??", "   ", ""))}
            elif r < 0.84:
                inp = {"k": "ask", "name": rng.choice(("mA", "mR", "v1", "v2", "f1", "undefined")), "n": rng.choice((1, 2))}
            elif r < 0.86:
                inp = {"k": "macros?"}
            elif r < 0.88:
                inp = {"k": "string", "v": "v2"}
            elif r < 0.91:
                inp = {"k": "abort", "lines": rng.choice(([], ["def f1():"], ["@macro", "def mR(tree, **kw):"], ["v1 = ("], ["with mW:", "    v1 = 99"]))}
            else:
                inp = {"k": "edit", "mod": rng.choice(tuple(MODS)), "ver": 100 + no, "how": rng.choice(("fun", "fun", "fun", "fun", "closure", "alias", "object", "syntax", "raise", "missing", "value"))}
            if inp["k"] in ("line", "def", "fn", "for", "with", "multi") and rng.random() < 0.2:
                at = rng.choice(("mac#*", "mac#*", "run", "mod#*", "*"))
                inp["faults"] = [{"at": at, "n": rng.choice((0, 0, 0, 1, 2)), "exc": rng.choice(RUN_EXCS if at == "run" else MAC_EXCS)}]
            inputs.append(inp)
        return {"inputs": inputs, "locals": rng.choice((None, None, {}, {"v1": 5}, {"__name__": "__main__"}))}

    # ---- the run
    def inproc(self, rt, spec):
        from mcpyrate.repl.console import MacroConsole
        import ast

        rt.write("mp/__init__.py", "")
        mtime = 1000

        def put(mod, st):
            nonlocal mtime
            mtime += 10
            rt.write(mod.replace(".", "/") + ".py", module_text(mod, st), mtime)
        model = Model()
        for m in MODS:
            put(m, model.files[m])
        import mp  # noqa: F401

        def mk(name, no, tree, syntax):
            rt.real.append(f"mac#{name}#{no}")
            rt.point(f"mac#{name}#{no}")
            if syntax == "block":
                return [*tree, *ast.parse(f"w = ('{name}', {no})").body] if name == "mW" else ast.parse("3 + 'x'", mode="eval").body
            return ast.Tuple(elts=[ast.Constant(value=name), ast.Constant(value=no), tree], ctx=ast.Load())
        rt.mk = mk
        rt.real = []

        def point(name):
            if not name.startswith("mac#") or sys._getframe(1).f_code.co_name in ("mR", "mS"):
                rt.real.append(name)
            rt.point(name)
        rt.child.sim.point = point
        local = copy.deepcopy(spec["locals"])
        if local:
            model.vars.update({k: v for k, v in local.items() if k == "v1"})
        console = MacroConsole(local)
        session = console.locals
        rt.check(local is None or session is local, "not-the-namespace", "the console does not use the namespace it was given")
        real_out, real_err = sys.stdout, sys.stderr
        inputs = list(spec["inputs"])
        battery = [{"k": "line", "st": [["show", ["mac", n, ["int", 7]]]], "probe": True} for n in ("mA", "mB", "mC", "mD", "mR", "mS", "x1")]
        battery += [{"k": "line", "st": [["show", ["var", n]]], "probe": True} for n in (*VARS, "i", "w")]
        battery += [{"k": "with", "mac": "mW", "st": [["set", "v1", ["mac", "mA", ["int", 3]]]], "probe": True}, {"k": "macros?", "probe": True}]
        failed_before = False
        feed = None
        current = None
        state = {"ended": False}

        def canon(v):
            if callable(v) and not isinstance(v, type):
                return F("?", v.__doc__ if not str(getattr(v, "__module__", "")).startswith("mcpyrate") else "*" + getattr(v, "__name__", "?"), None)
            if type(v).__name__ == "module":
                return M(v.__name__)
            return v

        def judge(exit=None):
            """An input has been processed: compare with the model."""
            nonlocal failed_before
            inp, no, out, err = current
            rt.set_plan(())
            fired = rt.fired[state["nfired"]:]
            what = f"input {no} ({inp['k']}) {lines_of(inp)}"
            model.log, model.shown = [], []
            model.stop = (len(rt.real), fired[0][1]) if fired else None
            fail = model.input(inp)
            model.stop = None
            stderr = ANSI.sub("", err.getvalue())
            stdout = out.getvalue()
            rt.event(f"{what}: {'fails ' + fail.name + '@' + fail.stage if fail else 'ok'}; {len(rt.real)} events; {rt.fired[-1:] if fired else ''} {stdout[:80]!r}")
            rt.check(rt.real == model.log, "wrong-calls", lambda: f"{what}: called {rt.real}, expected {model.log}; {fail and fail.name}; error output {stderr[-500:]!r}")
            if fail is not None:
                rt.probe(f"fails: {fail.name} in {fail.stage}")
                if fail.stage != "read":
                    failed_before = True
            elif failed_before and any(x.startswith("mac#") for x in rt.real):
                rt.nontrivial = True
            # the report
            exiting = fail is not None and fail.name == "SystemExit"
            if exiting:
                rt.check(exit is not None, "no-exit", lambda: f"{what}: the session went on after SystemExit; {stderr[-500:]!r}")
            else:
                rt.check(exit is None, "session-ended", lambda: f"{what}: the session ended by {exit!r}")
                if fail is not None:
                    rt.check(stderr.strip() != "", "not-reported", lambda: f"{what}: {fail.name} in stage {fail.stage} was not reported")
                    names = (fail.name, "MacroExpansionError", "MacroApplicationError") if fail.stage in ("expand", "mac") else (fail.name, "MacroExpansionError", "MacroApplicationError", "RuntimeError") if fail.stage == "mod" else (fail.name, *(("IndentationError",) if fail.stage == "read" else ()))
                    if fail.name != "?":
                        rt.check(any(n in stderr for n in names), "not-reported", lambda: f"{what}: expected a report of {fail.name}, got {stderr[-600:]!r}")
                elif inp["k"] not in ("ask", "macros?"):
                    rt.check(stderr.strip() == "", "spurious-error", lambda: f"{what}: reported {stderr[-800:]!r}")
            if inp["k"] == "ask" and fail is None:
                v = model.vars[inp["name"]]
                if isinstance(v, F) and not v.doc.startswith("*"):
                    if inp["n"] == 1:
                        rt.check(v.doc in stderr, "wrong-doc", lambda: f"{what}: docstring of {v} not shown: {stderr[-300:]!r}")
                rt.check("Traceback" not in stderr, "spurious-error", lambda: f"{what}: {stderr[-600:]!r}")
            if inp["k"] == "macros?":
                names = re.findall(r"^    (\w+): ", stderr, re.M)
                rt.check(names == sorted(model.macros), "wrong-macros", lambda: f"{what}: lists {names}, expected {sorted(model.macros)}")
            # what it displayed
            want = []
            for v in model.shown:
                want.append(f"<function {'_make.<locals>.' if v.name == 'inner' else ''}{v.name} at 0x" if isinstance(v, F) else f"<module '{v.name}'" if isinstance(v, M) else repr(v))
            got = stdout.rstrip("\n").split("\n") if stdout else []
            want = [w for w in want if w != "None"]
            same = len(got) == len(want) and all((g.startswith(w) if w.startswith("<") else ("<" in w or "F(" in w or "M(" in w or g == w)) or "object at" in g for g, w in zip(got, want))
            rt.check(same, "wrong-display", lambda: f"{what}: displayed {got}, expected {want}")
            # the namespace
            for n in NAMES:
                have, expect = n in session, n in model.vars
                rt.check(have == expect, "wrong-namespace", lambda: f"{what}: {n} is {'' if have else 'not '}defined, the model has {model.vars.get(n)!r}")
                if have:
                    a, b = deep(canon, session[n]), model.vars[n]
                    rt.check(a == b, "wrong-namespace", lambda: f"{what}: {n} is {a!r}, expected {b!r}")
            rt.check(console.locals is session, "not-the-namespace", "the console's namespace was replaced")
            have = sorted(console.expander.bindings)
            rt.check([n for n in have if len(n) < 20] == sorted(model.macros), "wrong-macros", lambda: f"{what}: macros bound are {have}, expected {sorted(model.macros)}")
            if fail is None and inp["k"] == "line" and any(s[0] == "mimp" for s in inp["st"]):
                rt.probe("macro-imports")

        def deep(f, v):
            v = f(v)
            return tuple(deep(f, x) for x in v) if isinstance(v, tuple) else v

        def lines():
            nonlocal current
            for no, inp in enumerate(inputs + battery):
                if inp["k"] == "edit":
                    model.files[inp["mod"]] = {"ver": inp["ver"], "how": inp["how"]}
                    put(inp["mod"], model.files[inp["mod"]])
                    continue
                ls = lines_of(inp)
                rt.real = []
                state["nfired"] = len(rt.fired)
                rt.set_plan(inp.get("faults", ()))
                out, err = io.StringIO(), io.StringIO()
                current = (inp, no, out, err)
                sys.stdout, sys.stderr = out, err
                for j, l in enumerate(ls):
                    yield (l, j > 0)
                if inp["k"] == "abort":
                    yield (KeyboardInterrupt, bool(ls))
                yield ("done", False)
                current = None

        feed = lines()
        last = [None]

        def raw_input(prompt=""):
            try:
                item = next(feed)
                if item[0] == "done":
                    sys.stdout, sys.stderr = real_out, real_err
                    rt.check(prompt == sys.ps1, "wrong-prompt", lambda: f"after {lines_of(current[0])}, the console wants more input")
                    judge()
                    item = next(feed)
            except StopIteration:
                raise EOFError
            line, more = item
            want = sys.ps2 if more else sys.ps1
            if prompt != want:
                so = (ANSI.sub("", sys.stderr.getvalue()) if isinstance(sys.stderr, io.StringIO) else "")[-500:]
                rt.violate("wrong-prompt", f"in {lines_of(current[0])}, before line {line!r}: prompt {prompt!r}; {so!r}")
            if line is KeyboardInterrupt:
                raise KeyboardInterrupt
            return line
        console.raw_input = raw_input
        for _ in range(100):
            try:
                console.interact(banner="", exitmsg="")
                break
            except SystemExit as e:
                sys.stdout, sys.stderr = real_out, real_err
                if current is None:
                    raise
                item = next(feed)
                while item[0] != "done":
                    item = next(feed)
                judge(exit=e)
                console.resetbuffer()
            except core.Violation:
                raise
            except BaseException as e:
                sys.stdout, sys.stderr = real_out, real_err
                rt.violate("session-ended", f"input {lines_of(current[0]) if current else '?'}: the session ended by {e!r}")
        sys.stdout, sys.stderr = real_out, real_err
        rt.check(next(feed, None) is None, "session-ended", "the session ended before the end of the input")

    def shrink(self, spec):
        yield from core.shrink_ops(spec, key="inputs")
        for j, inp in enumerate(spec["inputs"]):
            if len(inp.get("st", ())) > 1:
                for q in range(len(inp["st"])):
                    s = copy.deepcopy(spec)
                    del s["inputs"][j]["st"][q]
                    yield s
            for q, st in enumerate(inp.get("st", ())):
                if st[0] in ("set", "show") and st[-1][0] != "int":
                    for e in ([["int", 1]] + ([st[-1][2]] if st[-1][0] == "mac" else [])):
                        s = copy.deepcopy(spec)
                        s["inputs"][j]["st"][q][-1] = e
                        yield s
                if st[0] == "mimp" and len(st[2]) > 1:
                    for z in range(len(st[2])):
                        s = copy.deepcopy(spec)
                        del s["inputs"][j]["st"][q][2][z]
                        yield s
            if inp.get("comment"):
                s = copy.deepcopy(spec)
                del s["inputs"][j]["comment"]
                yield s
        if spec["locals"] is not None:
            yield {**spec, "locals": None}
