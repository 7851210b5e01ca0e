"""C09: concurrent expansion in threads equals sequential expansion.

Each task is run alone first, in a forked copy of the simulated process; then all of them run as threads whose every switch
is decided by the schedule. What each task saw (values, generated code, messages, errors) must be the same.
"""
import _thread
import ast
import collections
import importlib
import json
import os
import re
import sys
import traceback
import warnings

from . import core, proc, sched
from .inproc import InProcWorld

HEX = re.compile(r"[0-9a-f]{32}")
ADDR = re.compile(r"0x[0-9a-f]+")

LIB = '''
import ast
from mcpyrate.quotes import macros, q, u, a, n, s, t, h
from mcpyrate import namemacro, parametricmacro, gensym, unparse
from mcpyrate.walkers import ASTTransformer
import _sim
VAL = {"v": [1]}
def helper(*xs):
    return ("h", xs)
def const(tree, **kw):
    _sim.point("const")
    return ast.Tuple(elts=[ast.Constant(value="c"), tree], ctx=ast.Load())
def twice(tree, **kw):
    _sim.point("twice")
    return q[(a[tree], a[tree])]
def hyg(tree, **kw):
    _sim.point("hyg")
    v = h_inner(tree)
    return q[h[helper](a[v], h[VAL])]
def h_inner(tree):
    _sim.point("h_inner")
    return q[(u[unparse(tree)], a[tree])]
def hmac(tree, **kw):
    _sim.point("hmac")
    return q[h[const][a[tree]]]
def rec(tree, *, expander, **kw):
    _sim.point("rec")
    return q[("rec", u[bool(expander.recursive)], a[expander.visit_recursively(tree)], u[bool(expander.recursive)])]
def once(tree, *, expander, **kw):
    _sim.point("once")
    return q[("once", u[bool(expander.recursive)], a[expander.visit_once(tree).body], u[bool(expander.recursive)])]
def now(tree, *, expander, **kw):
    _sim.point("now")
    tree = expander.visit(tree)
    _sim.point("now2")
    return q[("now", u[bool(expander.recursive)], a[tree])]
def names(tree, **kw):
    _sim.point("names")
    g = gensym("g")
    return q[[(n[g], u[g], n[g]) for n[g] in (a[tree],)]]
def lists(tree, **kw):
    _sim.point("lists")
    xs = [q[u[i]] for i in range(2)]
    return q[(s[xs], t[xs], a[tree])]
@namemacro
def nm(tree, **kw):
    _sim.point("nm")
    return q["nm"]
@parametricmacro
def par(tree, *, args, **kw):
    _sim.point("par")
    return q[(a[args[0]] if True else 0, a[tree])] if args else q[("noargs", a[tree])]
def blk(tree, *, syntax, **kw):
    _sim.point("blk")
    if syntax == "block":
        with q as quoted:
            OUT.append("in")
            with a:
                tree
            OUT.append("out")
        return quoted
    return tree
def dec(tree, *, syntax, **kw):
    _sim.point("dec")
    with q as quoted:
        with a:
            tree
        OUT.append(u[tree.name if syntax == "decorator" else "?"])
    return quoted
def bnd(tree, *, expander, **kw):
    _sim.point("bnd")
    return q[(u[sorted(x for x in expander.bindings if len(x) < 20)], u[expander.filename.rsplit("/", 1)[-1]], a[tree])]
class Shift(ASTTransformer):
    def transform(self, tree):
        _sim.point("shift")
        if type(tree) is ast.Constant and type(tree.value) is int:
            return q[u[tree.value + 100]]
        return self.generic_visit(tree)
def walk(tree, **kw):
    _sim.point("walk")
    return Shift().visit(tree)
def bad(tree, **kw):
    _sim.point("bad")
    x = q[a[tree] + u[1]]
    raise ValueError("bad macro")
def badq(tree, **kw):
    _sim.point("badq")
    return q[a[1 // 0]]
'''
MACROS = "const, twice, hyg, hmac, rec, once, now, names, lists, nm, par, blk, dec, bnd, walk, bad, badq"
EXPR = ("const", "twice", "hyg", "hmac", "rec", "once", "now", "names", "lists", "par", "bnd", "walk")

DIALECTS = '''
import ast
from mcpyrate.dialects import Dialect
from mcpyrate.astfixers import fix_locations
from mcpyrate.quotes import macros, q, u, a
import _sim
class Upper(Dialect):
    def transform_source(self, text):
        _sim.point("d.src")
        return text.replace("PLACE" + "HOLDER", repr("D1"))
class Tail(Dialect):
    def transform_ast(self, tree):
        _sim.point("d.ast")
        with q as quoted:
            OUT.append("tail")
        tree.body = tree.body + fix_locations(quoted, tree.body[-1], mode="overwrite")
        return tree
    def postprocess_ast(self, tree):
        _sim.point("d.post")
        with q as quoted:
            OUT.append(("post", u[self.lineno is not None]))
        tree.body = tree.body + fix_locations(quoted, tree.body[-1], mode="overwrite")
        return tree
'''

RT = '''
import ast
import _sim
from mcpyrate import unparse, dump
from mcpyrate.compiler import compile as mc
def D(tree):
    _sim.point("D")
    return unparse(tree) + " / " + dump(tree)
def R(tree):
    """Run quoted code."""
    _sim.point("R")
    ns = {"RES": None}
    exec(mc([ast.Assign(targets=[ast.Name(id="RES", ctx=ast.Store())], value=tree)], "<quoted>"), ns)
    return ns["RES"]
'''


class Prog:
    """Draws a program."""
    def __init__(self, rng, dialect, phases, fail, debug):
        self.rng = rng
        self.dialect, self.phases, self.fail, self.debug = dialect, phases, fail, debug
        self.meta = rng.random() < 0.6

    def expr(self, d):
        rng = self.rng
        if d <= 0 or rng.random() < 0.15:
            return rng.choice((str(rng.randint(0, 9)), "nm", "'s'", "len('abc')"))
        r = rng.random()
        if r < 0.55:
            m = rng.choice(EXPR)
            return (f"par[{rng.randint(0, 3)}][{self.expr(d - 1)}]" if m == "par" else f"{m}[{self.expr(d - 1)}]")
        if r < 0.6:
            return f"({self.expr(d - 1)}, {self.expr(d - 1)})"
        if r < 0.8:
            return f"D(q[{self.quoted(d - 1, 1)}])"
        if r < 0.9:
            return f"R({rng.choice(('q', 'q', 'expandrq', 'expandsq', 'expand1rq', 'expand1sq') if self.meta else 'q')}[{self.runnable(d - 1)}])"
        if r < 0.95:
            return f"D({rng.choice(('expandrq', 'expandsq', 'expand1rq', 'expand1sq') if self.meta else ('expandsq', 'expand1sq'))}[{self.quoted(d - 1, 1)}])"
        return f"D(expandr[q[{self.quoted(d - 1, 1)}]])" if self.meta else f"D(q[{self.quoted(d - 1, 1)}])"

    def runnable(self, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.2:
            return f"u[{rng.randint(0, 5)}]"
        if r < 0.4:
            return f"h[helper]({self.runnable(d - 1)})"
        if r < 0.6:
            return f"h[const][{self.runnable(d - 1)}]"
        if r < 0.7:
            return f"(h[VAL], {self.runnable(d - 1)})"
        return f"(a[q[{self.runnable(d - 1)}]], u[[1, {self.expr(d - 1)}]])"

    def quoted(self, d, level):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.15:
            return rng.choice(("x", "1", "nm", "u[2 + 3]", "u['z']", "n['abc']", "n['a' + str(1)]"))
        if r < 0.3:
            return f"{rng.choice(EXPR[:9])}[{self.quoted(d - 1, level)}]"
        if r < 0.5:
            return f"u[{self.expr(d - 1)}]" if level == 1 else f"u[{self.quoted(d - 1, level)}]"
        if r < 0.6:
            return f"a[q[{self.quoted(d - 1, 1)}]]"
        if r < 0.75:
            return f"q[{self.quoted(d - 1, level + 1)}]"
        if r < 0.85:
            return f"h[{rng.choice(('helper', 'const', 'VAL', '[1, 2]'))}]"
        if r < 0.92:
            return f"s[[q[{self.quoted(d - 1, 1)}], q[y]]]"
        return f"({self.quoted(d - 1, level)}, {self.quoted(d - 1, level)})"

    def failing(self):
        return self.rng.choice(("a[1]", "u[2]", "bad[3]", "badq[4]", "q[bad[u[a[1]]]]", "h[x]", "once[bad[1]]", "rec[twice[badq[1]]]", "q[a[bad[1]]]", "q[q[a[u[1 // 0]]]]", "q[u[1 // 0]]", "undefined_name", "R(q[h[bad][1]])", "D(q[n['1 +']])", "D(q[q[u[n['1 +']]]])"))

    def stmt(self, d):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            return [f"OUT.append({self.expr(d)})"]
        if r < 0.7:
            return ["with blk:"] + ["    " + x for x in self.stmt(d - 1)]
        if r < 0.76:
            return ["@dec", f"def fun{rng.randint(0, 9)}():", f"    return {self.expr(d - 1)}"]
        if r < 0.84:
            return ["with q as quoted:"] + ["    " + f"OUT.append({self.quoted(d, 1)})", f"    if n['cond']:", f"        print({self.quoted(d - 1, 1)})"] + ["OUT.append(D(quoted))"]
        if r < 0.9 and self.debug:
            return [f"with step_expansion{rng.choice(('', '[dump]'))}:"] + ["    " + x for x in self.stmt(d - 1)]
        if r < 0.94 and self.debug:
            return [f"OUT.append(step_expansion[{self.expr(d - 1)}])"]
        if r < 0.97 and self.meta:
            return [f"OUT.append(D(stepr[q[{self.quoted(d - 1, 1)}]]))"]
        return [f"OUT.append(q[u[{self.expr(d - 1)}]].value)"]

    def text(self):
        rng = self.rng
        head = ["from mcpyrate.quotes import macros, q, u, a, n, s, t, h",
                f"from tlib import macros, {MACROS}",
                "from mcpyrate.metatools import macros, expandrq, expandsq, expand1rq, expand1sq, expandr, stepr",
                "from tlib import helper, VAL, const", "from trt import D, R"]
        if self.debug:
            head.append("from mcpyrate.debug import macros, step_expansion" + (", step_phases" if self.phases and rng.random() < 0.3 else ""))
        if self.dialect:
            for x in rng.sample(("Upper", "Tail"), rng.choice((1, 1, 2))):
                head.insert(0, f"from tdia import dialects, {x}")
        body = ["OUT = []"]
        if self.phases:
            head.append("from mcpyrate.multiphase import macros, phase")
            for k in range(self.phases, 0, -1):
                body += [f"with phase[{k}]:", "    from mcpyrate.quotes import macros, q, u, a"]
                if k < self.phases:
                    body.append(f"    from __self__ import macros, own{k + 1}")
                body += [f"    def own{k}(tree, **kw):",
                         f"        return q[('own{k}', a[tree], {f'own{k + 1}[{k}]' if k < self.phases else 0})]"]
            body.append("from __self__ import macros, " + "own1")
            body.append(f"OUT.append(own1[{self.expr(2)}])")
        for _ in range(rng.randint(1, 3)):
            body += self.stmt(rng.choice((1, 2, 2, 3)))
        if self.dialect and "Upper" in "".join(head):
            body.append("OUT.append(PLACEHOLDER)")
        if self.fail:
            body.insert(rng.choice((1, len(body))) if not self.phases else len(body), f"OUT.append({self.failing()})")
        return "\n".join(head + body) + "\n"


def clean(x, seen):
    """A stable description: generated names are numbered by first appearance."""
    def name(m):
        return seen.setdefault(m.group(0), f"<uuid{len(seen)}>")
    return ADDR.sub("0x", HEX.sub(name, core.SCRATCH_RE.sub("@", x)))


def describe(x):
    if isinstance(x, (list, tuple)):
        return type(x).__name__[0] + "(" + ", ".join(map(describe, x)) + ")"
    if isinstance(x, ast.AST):
        return ast.dump(x)
    return repr(x)


def chain(err):
    out = []
    while err is not None and len(out) < 12:
        out.append(f"{type(err).__name__}: {err}")
        err = err.__cause__ or err.__context__
    return " <- ".join(out)


class Streams:
    """stdout and stderr, per thread."""
    def __init__(self):
        self.out = collections.defaultdict(list)

    def write(self, s):
        self.out[_thread.get_ident()].append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def take(self):
        return "".join(self.out.pop(_thread.get_ident(), ()))


class C09(InProcWorld):
    id = "C09"
    quick_runs = 600
    thorough_runs = 60000
    rule = ("each run draws two to four tasks, each a list of programs (random nests of macros, quotes, hygienic captures, dialects, phases, debug macros, failing macros) that are "
            "expanded, compiled, run or imported, and of imports of modules shared by the tasks, with exceptions injected into single tasks; a schedule by line and by call-out; "
            "non-trivial: threads were switched at least 5 times")
    real = InProcWorld.real + ["threading, importlib (with the locks of importlib replaced by cooperative ones)"]
    stubs = InProcWorld.stubs + ["thread switches: decided at line events of mcpyrate and of generated code, at call-outs in macros, and at import locks"]

    def gen(self, rng, index):
        shared = []
        for i in range(rng.choice((0, 0, 1, 1, 2, 3))):
            p = Prog(rng, rng.random() < 0.2, rng.choice((0, 0, 0, 1, 2)), rng.random() < 0.12, False)
            text = p.text()
            if shared and rng.random() < 0.4:
                text = f"import {shared[-1]['name']}\n" + text if not p.dialect else text + f"import {shared[-1]['name']}\n"
            name = f"sh{i}"
            if rng.random() < 0.25:
                name = f"shp{i}.mod"
            shared.append({"name": name, "text": text, "fail": p.fail})
        tasks = []
        ntasks = rng.choice((2, 2, 2, 3, 4))
        same = rng.random() < 0.25      # all tasks do the same
        for t in range(ntasks):
            ops = []
            for _ in range(rng.choice((1, 1, 2, 3))):
                if shared and rng.random() < 0.5:
                    ops.append({"op": "shared", "mod": rng.randrange(len(shared))})
                elif rng.random() < 0.07:
                    ops.append({"op": "gensym", "n": rng.randint(1, 20)})
                else:
                    dialect = rng.random() < 0.15
                    p = Prog(rng, dialect, rng.choice((0, 0, 0, 0, 1, 2)), rng.random() < 0.2, rng.random() < 0.4)
                    ops.append({"op": "prog", "text": p.text(), "how": rng.choice(("compile", "expand", "expand", "run", "import", "import", "temp")), "phases": p.phases})
            tasks.append({"ops": ops, "faults": []})
            if rng.random() < 0.2:
                tasks[-1]["faults"] = [{"n": rng.randint(0, 25), "exc": rng.choice(("ValueError", "KeyboardInterrupt", "RecursionError", "SystemExit", "MemoryError"))}]
        if same:
            for t in tasks[1:]:
                t["ops"] = [dict(o) for o in tasks[0]["ops"]]
        for t in tasks:
            if any(o["op"] == "shared" for o in t["ops"]):      # the fault would hit whichever task imports the module
                t["faults"] = []
        style = rng.random()
        if style < 0.4:
            gaps = [[int(10 ** rng.uniform(0, 3.7)), rng.randrange(4)] for _ in range(rng.choice((10, 60, 300)))]
        elif style < 0.7:
            gaps = []
            for _ in range(rng.randint(1, 6)):
                gaps.append([rng.randint(1, 12000), rng.randrange(4)])
                gaps += [[rng.choice((1, 1, 2, 3, 5, 10)), rng.randrange(4)] for _ in range(rng.randint(0, 25))]
        else:
            gaps = []
        points = [rng.randrange(-2, 4) for _ in range(rng.choice((20, 100, 500)))] if style >= 0.8 or rng.random() < 0.3 else []
        sites = None
        if style >= 0.55:
            of = rng.choice((60, 150, 400))
            sites = {"of": of, "take": [rng.randrange(of) for _ in range(rng.choice((1, 1, 2, 3)))], "times": rng.choice((20, 200, 1000))}
        return {"shared": shared, "tasks": tasks, "sched": gaps, "points": points, "sites": sites, "warm": rng.random() < 0.8,
                "write_bytecode": rng.random() < 0.3, "faults": []}

    def shrink(self, spec):
        for i, t in enumerate(spec["tasks"]):
            if len(spec["tasks"]) > 2:
                yield {**spec, "tasks": spec["tasks"][:i] + spec["tasks"][i + 1:]}
            for y in core.drop_each(t["ops"]):
                if y:
                    yield {**spec, "tasks": spec["tasks"][:i] + [{**t, "ops": y}] + spec["tasks"][i + 1:]}
            if t["faults"]:
                yield {**spec, "tasks": spec["tasks"][:i] + [{**t, "faults": []}] + spec["tasks"][i + 1:]}
        for key in ("points", "sched"):
            n = len(spec[key])
            for k in (0, n // 4, n // 2, n * 3 // 4, n - 1):
                if 0 <= k < n:
                    yield {**spec, key: spec[key][:k]}
            for j in range(max(0, n - 30), n):
                yield {**spec, key: spec[key][:j] + ([-2] if key == "points" else []) + spec[key][j + 1:]}
        if not spec["warm"]:
            yield {**spec, "warm": True}
        if spec.get("sites"):
            yield {**spec, "sites": None}
            for y in core.drop_each(spec["sites"]["take"]):
                if y:
                    yield {**spec, "sites": {**spec["sites"], "take": y}}
            n = spec["sites"]["times"]
            for k in (1, 2, n // 4, n // 2, n * 3 // 4, n - 1):
                if 0 < k < n:
                    yield {**spec, "sites": {**spec["sites"], "times": k}}
        for i, t in enumerate(spec["tasks"]):
            for j, o in enumerate(t["ops"]):
                if o["op"] == "prog":
                    lines = o["text"].split("\n")
                    for k in range(len(lines)):
                        if lines[k].startswith("OUT.append"):
                            text = "\n".join(lines[:k] + lines[k + 1:])
                            yield {**spec, "tasks": spec["tasks"][:i] + [{**t, "ops": t["ops"][:j] + [{**o, "text": text}] + t["ops"][j + 1:]}] + spec["tasks"][i + 1:]}

    # ---- inside the simulated process
    def do(self, op, label, spec):
        """Run one operation; return what it observed, as text."""
        import mcpyrate.compiler as comp
        seen = {}
        out = None
        err = None
        mod = None
        try:
            if op["op"] == "gensym":
                from mcpyrate import gensym
                names = [gensym("k") for _ in range(op["n"])]
                self.made.extend(names)
                out = names
            elif op["op"] == "shared":
                name = spec["shared"][op["mod"]]["name"]
                mod = importlib.import_module(name)
                out = mod.OUT
                bad = [] if getattr(mod, "FINISHED", False) else ["not finished"]
                if mod is not sys.modules.get(name):
                    bad.append("not the module in sys.modules")
                out = list(out) + bad
            else:
                name = f"prog_{label}"
                path = os.path.join(self.src, name + ".py")
                if op["how"] == "import":
                    mod = importlib.import_module(name)
                    out = mod.OUT
                elif op["how"] == "expand":
                    with comp.temporary_module(name, path):
                        out = ast.dump(comp.expand(op["text"], path, self_module=name))
                elif op["how"] == "compile":
                    with comp.temporary_module(name, path) as m:
                        exec(comp.compile(op["text"], path, self_module=name), m.__dict__)
                        out = m.OUT
                elif op["how"] == "run":
                    mod = comp.run(op["text"])
                    out = mod.OUT
                else:
                    with comp.temporary_module(None, path) as mod:
                        comp.run(op["text"], mod)
                        out = mod.OUT
        except BaseException as e:
            if isinstance(e, (core.Hang, sched.Deadlock, core.HarnessError)):
                raise
            err = e
        text = self.streams.take() if op["op"] != "shared" else self.streams.take() and ""
        res = {"out": clean(describe(out), seen), "err": clean(chain(err), seen), "text": clean(text, seen)}
        return res, mod

    def body(self, t, spec):
        """One task."""
        out = []
        mods = []
        for j, op in enumerate(spec["tasks"][t]["ops"]):
            res, mod = self.do(op, f"{t}_{j}", spec)
            out.append(res)
            mods.append(mod)
        return out, mods

    def inproc(self, rt, spec):
        self.rt, self.src = rt, rt.src
        self.made = []
        self.streams = Streams()
        sys.stdout = sys.stderr = self.streams
        warnings.simplefilter("ignore")
        rt.write("tlib.py", LIB)
        rt.write("tdia.py", DIALECTS)
        rt.write("trt.py", RT)
        for s in spec["shared"]:
            if "." in s["name"]:
                rt.write(s["name"].split(".")[0] + "/__init__.py", "")
            rt.write(s["name"].replace(".", "/") + ".py", s["text"] + "FINISHED = True\nimport _sim\n_sim.ran(__name__)\n")
        for t, task in enumerate(spec["tasks"]):
            for j, op in enumerate(task["ops"]):
                if op["op"] == "prog":
                    rt.write(f"prog_{t}_{j}.py", op["text"])
        importlib.invalidate_caches()
        running = [None]        # the scheduler, or the number of the only task
        counts = collections.Counter()
        ran = collections.Counter()
        points = list(spec["points"])
        rt.child.sim.ran = lambda name: ran.update([name])

        def current():
            if isinstance(running[0], sched.Sched):
                t = running[0].me()
                return None if t is None else t.no
            return running[0]

        def point(name, payload=None):
            t = current()
            if t is None:
                return
            rt.steps += 1
            counts[t] += 1
            if isinstance(running[0], sched.Sched):
                if points:
                    c = points.pop(0)
                    if c >= 0:
                        running[0].switch(c)
            for f in spec["tasks"][t]["faults"]:
                if counts[t] - 1 == f["n"]:
                    if isinstance(running[0], sched.Sched):
                        rt.fault(f["exc"])
                        rt.event(f"fault in task {t}: {f['exc']}")
                    err = proc.make_exc(f["exc"], "injected")
                    raise err
        rt.child.sim.point = point
        if spec["warm"]:
            for m in ("tlib", "tdia", "trt"):
                importlib.import_module(m)
        # each task alone
        want = []
        for t in range(len(spec["tasks"])):
            want.append(self.alone(t, spec, running))
        # CPython hands out a module that failed to import to threads that waited for it, so nothing is required of these.
        broken = set()
        for i, sh in enumerate(spec["shared"]):
            probe = {**spec, "tasks": [{"ops": [{"op": "shared", "mod": i}], "faults": []}]}
            if self.alone(0, probe, running)[0]["err"]:
                broken.add(sh["name"])
        for i, sh in enumerate(spec["shared"]):
            if any(f"import {b}\n" in sh["text"] for b in broken):
                broken.add(sh["name"])
        for t, w in enumerate(want):
            for j, res in enumerate(w):
                rt.probe("fails-alone" if res["err"] else "succeeds-alone")
        counts.clear()
        s = sched.Sched([os.path.join(core.REPO, "mcpyrate") + os.sep, rt.src], spec["sched"], sites=spec.get("sites"))
        for t in range(len(spec["tasks"])):
            s.add(lambda t=t: self.body(t, spec))
        running[0] = s
        tasks = s.run()
        running[0] = None
        rt.steps += s.steps
        rt.fault("thread-switch", s.switches)
        rt.event(f"{s.switches} switches, {s.steps} steps")
        rt.check(s.failed is None, "deadlock", lambda: f"{s.failed}")
        for t in tasks:
            if t.error is not None:
                raise t.error
        objects = {}
        for t in tasks:
            got, mods = t.result
            ops = spec["tasks"][t.no]["ops"]
            for j, res in enumerate(got):
                w = want[t.no][j]
                rt.event(f"task {t.no} op {j}: {res['out'][:60]} {res['err'][:60]} ... {res['err'][-250:]}")
                if ops[j]["op"] == "shared" and spec["shared"][ops[j]["mod"]]["name"] in broken:
                    rt.probe("broken-module")
                    continue
                for key in ("err", "out", "text"):
                    rt.check(res[key] == w[key], f"differs-{key}",
                             lambda: f"task {t.no} operation {j} ({ops[j]['op']} {ops[j].get('how', '')}): {key} is {first_difference(res[key], w[key])}")
                if ops[j]["op"] == "shared" and mods[j] is not None:
                    name = spec["shared"][ops[j]["mod"]]["name"]
                    rt.check(objects.setdefault(name, mods[j]) is mods[j], "two-modules", lambda: f"{name} was imported as two objects")
        for sh in spec["shared"]:
            if sh["name"] not in broken:
                rt.check(ran[sh["name"]] <= 1, "ran-twice", lambda: f"{sh['name']} ran {ran[sh['name']]} times")
        rt.check(len(set(self.made)) == len(self.made), "same-gensym", "two threads got the same name")
        if s.switches >= 5:
            rt.nontrivial = True
        rt.probe("switches", s.switches)

    def alone(self, t, spec, running):
        """What the task observes when it runs alone."""
        path = os.path.join(self.rt.scratch, f"alone{t}.json")
        self.rt.child.busy = True       # lets the fork through
        pid = os.fork()
        self.rt.child.busy = False
        if pid == 0:
            try:
                core.die_with_parent()
                sys.dont_write_bytecode = True
                running[0] = t
                out, _ = self.body(t, spec)
                with open(path, "w", encoding="utf-8") as f:
                    json.dump(out, f)
                os._exit(0)
            except BaseException:
                with open(path, "w", encoding="utf-8") as f:
                    json.dump(traceback.format_exc(), f)
                os._exit(1)
        _, status = os.waitpid(pid, 0)
        with open(path, encoding="utf-8") as f:
            out = json.load(f)
        if status:
            raise core.HarnessError(f"the reference run failed: {out}")
        return out


def first_difference(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    k = max(0, n - 60)
    return f"...{a[k:n + 160]!r}, but alone ...{b[k:n + 160]!r}"
