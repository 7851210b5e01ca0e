"""C16: activation can be switched on and off in any order."""
import ast
import copy
import glob
import importlib
import os
import sys

from . import core, proc
from .inproc import InProcWorld, child_entry

T0 = 2_000_000_000
PT = "__import__('_sim').point(%r)"
EXCS = ("ValueError", "KeyError", "RecursionError", "MemoryError", "KeyboardInterrupt", "SystemExit", "ImportError", "SyntaxError", "OSError", "StopIteration", "AttributeError")

# Sources without macros. Each defines RESULT, or is broken. `%d` is the version.
PLAIN = {
    "doc": b'"""doc %d"""\nRESULT = (__doc__, __name__, __spec__.name, __package__)\n',
    "future": b"'doc'\nfrom __future__ import annotations\ndef f(x: undefined + 1) -> nothing[0]: pass\nRESULT = (%d, f.__annotations__)\n",
    "latin1": b"# -*- coding: latin-1 -*-\nRESULT = (%d, 'gr\xfc\xdfe')\n",
    "bom": b"\xef\xbb\xbfRESULT = (%d, 'bom', 'gr\xc3\xbc\xc3\x9fe')\n",
    "crlf": b"if True:\r\n    RESULT = (%d,\r\n        '''a\r\nb''')\r\n",
    "noeol": b"RESULT = %d\nif True:\n\tX = 1\n\t# no newline here",
    "line": b"import sys\ndef f():\n\n    return sys._getframe().f_lineno, sys._getframe(1).f_lineno\nRESULT = (%d,\n\n  f(), f.__code__.co_firstlineno,\n  [*f.__code__.co_positions()])\n",
    "scopes": b"def outer(a, /, b=2, *args, c, **kw):\n    z = 0\n    def inner():\n        nonlocal z\n        z += a\n        return [y := x * z for x in range(3) if x], {k: v for k, v in kw.items()}, y\n    return inner\nRESULT = (%d, outer(1, c=2, d=3)(), outer.__code__.co_varnames)\n",
    "names": b"macros = 3\ndialects = [macros]\nphase = q = None\nclass macro:\n    macros = 4\n    def __getitem__(self, i): return ('item', i)\nq = macro()\nRESULT = (%d, q[1], macros, macro.macros, dialects)\n",
    "match": b"def f(v):\n    match v:\n        case {'a': 1, **rest}: return rest\n        case [1, *_, x] if x: return x\n        case int() | str() as y: return y\n        case _: return None\nRESULT = (%d, f({'a': 1, 'b': 2}), f([1, 2, 3]), f('s'), f(2.5))\n",
    "async": b"import asyncio\nasync def gen():\n    for i in range(2):\n        yield i\nasync def main():\n    async with asyncio.Lock():\n        return [x async for x in gen()]\nc = main()\ntry:\n    while True: c.send(None)\nexcept StopIteration as e:\n    RESULT = (%d, e.value)\n",
    "asserts": b"try:\n    assert __debug__ and False, 'message'\nexcept AssertionError as e:\n    RESULT = (%d, str(e), e.__traceback__.tb_lineno)\n",
    "types": b"type Alias[T] = list[T]\ndef f[T: int](x: T) -> T: return x\nclass C[T]:\n    x: int = 1\nRESULT = (%d, f(3), Alias.__name__, C.__annotations__, C.x)\n",
    "fstring": b"w = 7\nRESULT = (%d, f'{w!r:>{w}} {w=} {{}} {\"in\" + f\"{w}\"}', rb'\\d', '''a\n  b''', 1_000, 0x_ff, 1e3, 2j, ...)\n",
    "classes": b"class Meta(type):\n    def __new__(m, n, b, d, **kw): return super().__new__(m, n, b, {**d, 'kw': kw})\nclass A(metaclass=Meta, k=1):\n    'doc A'\n    def f(self):\n        'doc f'\n        return super().__repr__, __class__\nRESULT = (%d, A.kw, A.__doc__, A.f.__doc__, A().f()[1] is A, A.f.__qualname__)\n",
    "try": b"def f():\n    try:\n        raise ExceptionGroup('g', [ValueError(1), KeyError(2)])\n    except* ValueError as e:\n        x = e\n    except* KeyError:\n        pass\n    finally:\n        y = 1\n    return y\nRESULT = (%d, f())\n",
    "doctest": b"'doc'; 'not doc'\n'''neither'''\ndef f():\n    f'no {1} doc'\nRESULT = (%d, __doc__, f.__doc__)\ndel f\n",
    "star": b"from os.path import *\nfrom os import (path as p, sep as\n  s)\nimport os.path as q, sys\nRESULT = (%d, p is q, s, basename('a/b'))\n",
    "warn": b"import warnings\nwith warnings.catch_warnings(record=True) as w:\n    warnings.simplefilter('always')\n    warnings.warn('here')\nRESULT = (%d, [(x.lineno, str(x.message)) for x in w])\n",
    "lambda": b"f = lambda *a, k=1, **kw: (lambda: (yield a))\ng = lambda: (x for x in range(3))\nRESULT = (%d, list(f(1)()), list(g()), f.__code__.co_flags)\n",
    "globals": b"def f():\n    global G\n    G = 5\nf()\nRESULT = (%d, G, sorted(k for k in globals() if not k.startswith('__')))\n",
    "decor": b"def d(x):\n    return lambda f: lambda *a: (x, f(*a))\n@d(1)\n@d(2)\ndef f(x):\n    return x, %d\nRESULT = f(3)\n",
    "loops": b"r = []\nfor i in range(3):\n    if i == 1: continue\n    r.append(i)\nelse:\n    r.append('else')\nwhile True:\n    break\nr += [*range(2), *{1: 2}, {**{3: 4}}]\ndel r[0], (i)\nRESULT = (%d, r)\n",
    "wide": b"RESULT = (%d, " + b" + ".join(b"%d" % i for i in range(120)) + b", " + b"(" * 40 + b"1" + b")" * 40 + b")\n",
    "empty": b"",
    "bad-syntax": b"RESULT = %d\nif True:\n  x = = 3\n",
    "bad-indent": b"RESULT = %d\nif True:\nx = 3\n",
    "bad-return": b"RESULT = %d\n\nreturn 3\n",
    "bad-global": b"def f():\n    x = %d\n    global x\n",
    "bad-future": b"x = %d\nfrom __future__ import annotations\n",
    "bad-bytes": b"RESULT = %d\nx = '\xff\xfe'\n",
    "bad-cookie": b"# coding: no-such-codec\nRESULT = %d\n",
    "bad-null": b"RESULT = %d\nx = '\0'\n",
    "bad-raise": b"RESULT = %d\ndef f(x):\n    return x / 0\n\nf(\n  RESULT)\n",
    "bad-star": b"def f():\n    %d\n    from os import *\n",
    "bad-await": b"def f():\n    await %d\n",
    "bad-nonlocal": b"def f():\n    nonlocal x%d\n",
    "bad-assign": b"f() = %d\n",
    "bad-string": b"RESULT = %d\nx = 'abc\n",
}
GOOD = tuple(k for k in PLAIN if not k.startswith("bad"))
BAD = tuple(k for k in PLAIN if k.startswith("bad"))


def plain_source(mod):
    return PLAIN[mod["feature"]] % ((mod["ver"],) if b"%d" in PLAIN[mod["feature"]] else ())


def item_text(it):
    k = it[0]
    if k == "imp":
        return f"import {it[1]}"
    if k == "on":
        return "__import__('mcpyrate.activate').activate.activate()"
    if k == "off":
        return "__import__('mcpyrate.activate').activate.deactivate()"
    if k == "pt":
        return PT % "mod"
    raise AssertionError(it)


def source(tree, name):
    mod = tree[name]
    kind = mod["kind"]
    if kind == "plain":
        return plain_source(mod)
    head, tail = [], []
    for d in mod.get("deps", ()):
        head.append(f"from {d} import macros, m_{d}")
    for d in mod.get("ddeps", ()):
        head.append(f"from {d} import dialects, D_{d}")
    if kind == "quser":
        head.append("from mcpyrate.quotes import macros, q, h")
    if kind == "multi":
        head = ["from mcpyrate.multiphase import macros, phase", "with phase[1]:", f"    {PT % ('ph#' + name)}", f"    m_self = __import__('_sim').rt.Mac('{name}', {mod['ver']})",
                "from __self__ import macros, m_self", *head]
    out = [f"'doc {name} {mod['ver']}'", *head]
    out += [item_text(it) for it in mod["pre"]]
    uses = [f"m_{d}[{i}]" for i, d in enumerate(mod.get("deps", ()))]
    if kind == "multi":
        uses.append("m_self[0]")
    out.append(f"RESULT = ['{name}', {mod['ver']}" + "".join(", " + u for u in uses) + "]")
    out += ["def later():", "    return [" + ", ".join(uses) + "]"]
    out += [item_text(it) for it in mod["post"]]
    if kind in ("prov", "dprov"):
        out.append("macros = dialects = None")
        out.append(f"m_{name} = __import__('_sim').rt.Mac('{name}', {mod['ver']})")
    if kind == "dprov":
        out += ["from mcpyrate.dialects import Dialect", f"class D_{name}(Dialect):", "    def transform_ast(self, tree):", f"        {PT % ('dia#' + name)}",
                f"        tree.body.append(__import__('ast').parse(\"RESULT.append(('d', '{name}', {mod['ver']}))\").body[0])", "        return tree"]
    if kind == "quser":
        out += [f"VALUE = ('captured', '{name}', {mod['ver']})", "macros = None", f"def m_{name}(tree, *, syntax, **kw):", f"    {PT % ('mac#' + name)}", "    return q[h[VALUE]]"]
    return "\n".join(out).encode() + b"\n"


class Err(Exception):
    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Skip(Exception):
    """Not judged: byte code made in the other state (documented: clear the caches after switching)."""


class Model:
    def __init__(self, tree, mtime, write, carry):
        self.tree = tree
        self.mtime = mtime
        self.write = write
        self.active = True
        self.modules = {}       # name -> {"RESULT": ..., "later": ...}
        self.pyc = carry["pyc"]         # name -> {"stamp", "mode", "code"}
        self.pickles = carry["pickles"]     # modules that may have a dependency cache
        self.log = []
        self.stop = None

    def event(self, name):
        self.log.append(name)
        if self.stop and len(self.log) >= self.stop[0]:
            raise Err(self.stop[1])

    def closure(self, name, out=None):
        out = set() if out is None else out
        if name not in out:
            out.add(name)
            for d in (*self.tree[name].get("deps", ()), *self.tree[name].get("ddeps", ())):
                self.closure(d, out)
        return out

    def enabled(self, name):
        """Does it use macros or dialects?"""
        mod = self.tree[name]
        return bool(mod.get("deps") or mod.get("ddeps") or mod["kind"] in ("quser", "multi"))

    def stamp(self, name):
        if self.active:
            return max(self.mtime[x] for x in self.closure(name))
        return self.mtime[name]

    def get_code(self, name, cached=True):
        mod = self.tree[name]
        mode = self.active
        if mode:
            self.pickles |= self.closure(name)
        st = self.stamp(name)
        old = self.pyc.get(name) if cached else None
        if old and old["stamp"] == st:
            if old["mode"] != mode and self.enabled(name):
                raise Skip()
            self.compiled = False
            return old["code"]
        if mod["kind"] == "plain" and mod["feature"] in BAD and mod["feature"] != "bad-raise":
            raise Err("bad")
        code = self.expand(name) if mode else {"mode": False, "ver": mod["ver"]}
        if cached and self.write:
            self.pyc[name] = {"stamp": st, "mode": mode, "code": code}
        self.compiled = True
        return code

    def expand(self, name):
        mod = self.tree[name]
        uses, dia = [], []
        for d in mod.get("ddeps", ()):
            self.load(d)
            if "D" not in self.modules[d]:
                raise Err("ImportError")
            self.event(f"dia#{d}")
            dia.append(("d", d, self.modules[d]["ver"]))
        if mod["kind"] == "multi":
            self.event(f"ph#{name}")
        for d in mod.get("deps", ()):
            self.load(d)
        for _ in range(2):      # in RESULT, and in `later`
            part = []
            for i, d in enumerate(mod.get("deps", ())):
                self.event(f"mac#{d}")
                part.append(("captured", d, self.modules[d]["ver"]) if self.tree[d]["kind"] == "quser" else ("x", d, self.modules[d]["ver"], i))
            if mod["kind"] == "multi":
                self.event(f"mac#{name}")
                part.append(("x", name, mod["ver"], 0))
            uses.append(part)
        return {"mode": True, "ver": mod["ver"], "uses": uses, "dia": dia, "deps": [*mod.get("ddeps", ()), *mod.get("deps", ())]}

    def load(self, name):
        if name in self.modules:
            return
        code = self.get_code(name)
        self.modules[name] = ns = {}
        try:
            self.execute(name, code, ns)
        except Err:
            del self.modules[name]
            raise

    def execute(self, name, code, ns):
        mod = self.tree[name]
        ver = code["ver"]
        if mod["kind"] == "plain":
            env = {"__name__": name, "__package__": "", "__spec__": importlib.machinery.ModuleSpec(name, None)}
            ns["loaded"] = True
            try:
                exec(compile(plain_source(mod), "x", "exec", dont_inherit=True), env)
            except ZeroDivisionError:
                if "RESULT" in env:
                    ns["RESULT"] = env["RESULT"]
                raise Err("bad")
            ns["RESULT"] = env.get("RESULT", "none")
            if mod["feature"] == "globals":
                ns["RESULT"] = "?"
            return
        if code["mode"]:
            if mod["kind"] == "multi":
                self.event(f"ph#{name}")    # phase 1 is part of the finished module, too
            for d in code["deps"]:
                self.load(d)
        else:
            if mod["kind"] == "multi":
                raise Err("ImportError")     # mcpyrate.multiphase has no `macros`
            for d in (*mod.get("deps", ()), *mod.get("ddeps", ())):
                self.load(d)
                if "macros" not in self.modules[d] and d in mod.get("deps", ()) or "D" not in self.modules[d] and d in mod.get("ddeps", ()):
                    raise Err("ImportError")
            if mod["kind"] == "quser":
                raise Err("ImportError")
        self.items(mod["pre"])
        if code["mode"]:
            uses = [list(u) for u in code["uses"]]
        else:
            if any(self.tree[d]["kind"] == "quser" for d in mod.get("deps", ())):
                raise Err("TypeError")   # a function, not subscriptable
            uses = [[("p", d, self.modules[d]["ver"], i) for i, d in enumerate(mod.get("deps", ()))] for _ in range(2)]
        ns["RESULT"] = [name, ver, *uses[0]]
        ns["later"] = uses[1]
        ns["ver"] = ver
        self.items(mod["post"])
        if mod["kind"] in ("prov", "dprov", "quser"):
            ns["macros"] = True
        if mod["kind"] == "dprov":
            ns["D"] = True
        if code["mode"]:
            ns["RESULT"] += code["dia"]

    def items(self, items):
        for it in items:
            if it[0] == "imp":
                self.load(it[1])
            elif it[0] == "pt":
                self.event("mod")
            else:
                self.active = it[0] == "on"

    def op(self, op):
        k = op["op"]
        if k in ("on", "off"):
            self.active = k == "on"
        elif k == "import":
            self.load(op["mod"])
        elif k == "reload":
            if op["mod"] in self.modules:
                code = self.get_code(op["mod"])
                self.execute(op["mod"], code, self.modules[op["mod"]])
        elif k == "forget":
            self.modules.pop(op["mod"], None)
        elif k in ("runpy", "fromspec"):
            ns = {}
            self.execute(op["mod"], self.get_code(op["mod"]), ns)
            return ns.get("RESULT")
        elif k == "py_compile":
            ns = {}
            self.execute(op["mod"], self.get_code(op["mod"], cached=False), ns)
            return ns.get("RESULT")
        elif k == "later":
            ns = self.modules.get(op["mod"])
            return list(ns["later"]) if ns and "later" in ns else None
        return None


class C16(InProcWorld):
    id = "C16"
    level = "exploration"
    quick_runs = 4000
    thorough_runs = 200000
    rule = ("each run draws macro providers, dialects, quasiquoting macro modules, multi-phase modules, users of them, and modules without macros (all statement kinds, encodings, "
            "errors), some of which switch activation while they are imported, then one to three process lifetimes over the same tree, with and without byte code, of "
            "activations, deactivations, imports, reloads, other ways of loading, edits in between, and exceptions injected at call-outs; a model predicts every value, event and "
            "cache use; non-trivial: a macro-enabled module was loaded after at least two switches")
    assumptions = ["byte code of a macro-enabled module that was made in the other state is cleared before it is used (documented)",
                   "modules without macros are nested at most 120 levels deep (the expander's recursion is Python's)"]

    def gen_items(self, rng, names, n):
        out = []
        for _ in range(n):
            r = rng.random()
            if r < 0.35 and names:
                out.append(["imp", rng.choice(names)])
            elif r < 0.6:
                out.append(["off"])
            elif r < 0.8:
                out.append(["on"])
            else:
                out.append(["pt"])
        return out

    def gen(self, rng, index):
        tree = {}
        quiet = rng.random() < 0.4      # no switching inside modules

        def add(name, kind, **kw):
            names = [n for n in tree if not (tree[n]["kind"] == "plain" and tree[n]["feature"] in BAD)]
            mod = {"kind": kind, "ver": 1, "pre": self.gen_items(rng, names, rng.choice((0, 0, 0, 1, 2)) if not quiet else 0),
                   "post": self.gen_items(rng, names, rng.choice((0, 0, 0, 1, 2)) if not quiet else 0), **kw}
            tree[name] = mod
        for i in range(rng.randint(1, 4)):
            tree[f"pl{i}"] = {"kind": "plain", "ver": 1, "feature": rng.choice(GOOD) if rng.random() < 0.75 else rng.choice(BAD), "pre": [], "post": []}
        provs = []
        for i in range(rng.randint(1, 3)):
            kind = rng.choice(("prov", "prov", "dprov", "quser"))
            add(f"pr{i}", kind, deps=rng.sample(provs, 1) if provs and rng.random() < 0.3 and kind != "quser" else [], ddeps=[])
            provs.append(f"pr{i}")
        for i in range(rng.randint(1, 3)):
            kind = rng.choice(("user", "user", "user", "multi"))
            deps = rng.sample(provs, rng.randint(0 if kind == "multi" else 1, len(provs)))
            dd = [p for p in provs if tree[p]["kind"] == "dprov"]
            add(f"us{i}", kind, deps=deps, ddeps=[rng.choice(dd)] if dd and kind == "user" and rng.random() < 0.5 else [])
        spec = {"tree": copy.deepcopy(tree), "lives": []}
        names = sorted(tree)
        for i in range(rng.choice((1, 1, 2, 3))):
            life = {"write": rng.random() < 0.6, "edits": [], "ops": []}
            if i:
                life["edits"] = [rng.choice(names) for _ in range(rng.choice((0, 1, 1, 2)))]
            for _ in range(rng.randint(3, 14)):
                r = rng.random()
                if r < 0.25:
                    op = {"op": rng.choice(("on", "off"))}
                elif r < 0.6:
                    op = {"op": "import", "mod": rng.choice(names)}
                elif r < 0.68:
                    op = {"op": "reload", "mod": rng.choice(names)}
                elif r < 0.76:
                    op = {"op": "forget", "mod": rng.choice(names)}
                elif r < 0.86:
                    op = {"op": rng.choice(("runpy", "fromspec", "py_compile")), "mod": rng.choice(names)}
                elif r < 0.9:
                    op = {"op": "later", "mod": rng.choice(names)}
                elif r < 0.95:
                    op = {"op": "code", "mod": rng.choice([n for n in names if n.startswith("pl")])}
                elif r < 0.98:
                    op = {"op": "plainpath", "mod": rng.choice(names)}
                else:
                    op = {"op": "stdlib", "n": rng.randrange(10**6)}
                if op["op"] == "py_compile" and tree[op["mod"]]["kind"] == "multi":
                    op["op"] = "fromspec"   # `py_compile` does not tell the module's name, which multi-phase compilation needs
                if "mod" in op and op["op"] not in ("code", "plainpath", "forget") and rng.random() < 0.2:
                    op["faults"] = [{"at": rng.choice(("mac#*", "mod", "ph#*", "dia#*", "*")), "n": rng.choice((0, 0, 1)), "exc": rng.choice(EXCS)}]
                life["ops"].append(op)
            spec["lives"].append(life)
        return spec

    def shrink(self, spec):
        for x in core.drop_each(spec["lives"]):
            if x:
                yield {**spec, "lives": x}
        for i, life in enumerate(spec["lives"]):
            for key in ("ops", "edits"):
                for x in core.drop_each(life[key]):
                    yield {**spec, "lives": spec["lives"][:i] + [{**life, key: x}] + spec["lives"][i + 1:]}
            for j, op in enumerate(life["ops"]):
                if op.get("faults"):
                    s = copy.deepcopy(spec)
                    del s["lives"][i]["ops"][j]["faults"]
                    yield s
            if life["write"]:
                yield {**spec, "lives": spec["lives"][:i] + [{**life, "write": False}] + spec["lives"][i + 1:]}
        used = {op["mod"] for l in spec["lives"] for op in l["ops"] if "mod" in op}
        for n, mod in spec["tree"].items():
            for m in spec["tree"].values():
                if n in m.get("deps", ()) or n in m.get("ddeps", ()) or ["imp", n] in m["pre"] + m["post"]:
                    break
            else:
                if n not in used:
                    s = copy.deepcopy(spec)
                    del s["tree"][n]
                    for l in s["lives"]:
                        l["edits"] = [e for e in l["edits"] if e != n]
                    yield s
            for key in ("pre", "post", "deps", "ddeps"):
                for x in core.drop_each(mod.get(key, [])):
                    s = copy.deepcopy(spec)
                    s["tree"][n][key] = x
                    yield s

    # ---- the run
    def run(self, spec, ctx):
        tree = copy.deepcopy(spec["tree"])
        now = T0
        mtime = {}
        src = os.path.join(ctx.scratch, "src")
        os.makedirs(src, exist_ok=True)

        def put(n):
            nonlocal now
            now += 10
            ctx.simtime += 10
            p = os.path.join(src, n + ".py")
            with open(p, "wb") as f:
                f.write(source(tree, n))
            os.utime(p, (now, now))
            mtime[n] = now
        for n in tree:
            put(n)
        carry = {"pyc": {}, "pickles": set()}
        for i, life in enumerate(spec["lives"]):
            for n in life["edits"]:
                tree[n]["ver"] += 1
                put(n)
                ctx.event(f"edit {n}")
            ctx.event(f"process lifetime {i}, byte code {'on' if life['write'] else 'off'}")
            job = {"tree": tree, "mtime": mtime, "life": life, "carry": carry, "write_bytecode": life["write"]}
            p = proc.run_alone(ctx, f"{self.id}.{i}", child_entry, self, job, entropy=f"{spec.get('entropy', '0')}.{i}")
            r = p.result
            for line in r["log"]:
                ctx.event(line)
            ctx.faults.update(r["faults"])
            ctx.probes.update(r["probes"])
            ctx.steps += r["steps"]
            ctx.nontrivial = ctx.nontrivial or r["nontrivial"]
            if r["violation"]:
                ctx.violate(*r["violation"])
            if r["harness"]:
                raise core.HarnessError(r["harness"])
            carry = r["carry"]
            if carry is None:
                break

    def inproc(self, rt, job):
        import mcpyrate.activate as act
        import py_compile
        import runpy
        from importlib.machinery import SourceFileLoader
        tree = job["tree"]
        model = Model(tree, job["mtime"], job["life"]["write"], job["carry"])
        names = list(tree)
        rt.carry = None
        real = []

        class Mac:
            def __init__(self, mod, ver):
                self.mod, self.ver = mod, ver
                self.__name__ = self.__qualname__ = f"m_{mod}"

            def __call__(self, tree, *, syntax, **kw):
                point(f"mac#{self.mod}")
                return ast.Tuple(elts=[*(ast.Constant(value=v) for v in ("x", self.mod, self.ver)), tree], ctx=ast.Load())

            def __getitem__(self, i):
                return ("p", self.mod, self.ver, i)
            __iter__ = None
        rt.Mac = Mac

        def point(name):
            real.append(name)
            rt.point(name)
        rt.child.sim.point = point
        base = dict(sys.modules)
        hooks = (list(sys.meta_path), list(sys.path_hooks))
        switches = 0
        path_of = {n: os.path.join(rt.src, n + ".py") for n in names}

        def cachefiles():
            out = {}
            for p in glob.glob(os.path.join(rt.src, "__pycache__", "*")):
                out[os.path.basename(p)] = os.stat(p).st_ino
            return out

        def norm(v):
            if isinstance(v, list):
                return [norm(x) for x in v]
            return v

        def chain(e):
            out = []
            while e is not None and e not in out:
                out.append(e)
                e = e.__cause__
            return out

        for no, op in enumerate(job["life"]["ops"]):
            k = op["op"]
            label = f"op {no} {k} {op.get('mod', '')} ({'active' if model.active else 'inactive'})"
            try:
                copy.deepcopy(model).op(op)
            except Err:
                pass
            except Skip:        # the user clears the caches
                for n in [n for n in model.pyc if model.enabled(n)]:
                    del model.pyc[n]
                    os.unlink(os.path.join(rt.src, "__pycache__", f"{n}.{sys.implementation.cache_tag}.pyc"))
                rt.probe("cleared byte code of the other state")
            files0 = cachefiles()
            pyc0 = dict(model.pyc)
            real.clear()
            nfired = len(rt.fired)
            was = model.active
            switched = k in ("on", "off")
            got = exc = None
            loaded0 = {n: sys.modules[n] for n in names if n in sys.modules}
            importlib.invalidate_caches()
            rt.set_plan(op.get("faults", ()))
            try:
                if k == "on":
                    act.activate()
                elif k == "off":
                    act.deactivate()
                elif k == "import":
                    importlib.import_module(op["mod"])
                elif k == "reload":
                    if op["mod"] in sys.modules:
                        importlib.reload(sys.modules[op["mod"]])
                elif k == "forget":
                    sys.modules.pop(op["mod"], None)
                elif k == "runpy":
                    got = runpy.run_module(op["mod"]).get("RESULT")
                elif k == "fromspec":
                    s = importlib.util.spec_from_file_location(op["mod"], path_of[op["mod"]])
                    m = importlib.util.module_from_spec(s)
                    s.loader.exec_module(m)
                    got = getattr(m, "RESULT", None)
                elif k == "py_compile":
                    out = os.path.join(rt.scratch, "out.pyc")
                    py_compile.compile(path_of[op["mod"]], cfile=out, dfile=path_of[op["mod"]], doraise=True)
                    with open(out, "rb") as f:
                        code = importlib._bootstrap_external._compile_bytecode(f.read()[16:], op["mod"])
                    env = {"__name__": op["mod"], "__package__": "", "__spec__": importlib.machinery.ModuleSpec(op["mod"], None)}
                    exec(code, env)
                    got = env.get("RESULT")
                elif k == "later":
                    f = getattr(sys.modules.get(op["mod"]), "later", None)
                    got = f() if f else None
                elif k == "code":
                    self.compare_code(rt, label, SourceFileLoader(op["mod"], path_of[op["mod"]]), path_of[op["mod"]])
                elif k == "plainpath":
                    st = os.stat(path_of[op["mod"]])
                    if not model.active:
                        got2 = SourceFileLoader(op["mod"], path_of[op["mod"]]).path_stats(path_of[op["mod"]])
                        rt.check(got2 == {"mtime": st.st_mtime, "size": st.st_size}, "not-restored", lambda: f"{label}: path_stats gives {got2}, the file has {st.st_mtime}, {st.st_size}")
                elif k == "stdlib":
                    if len(STDLIB) == 0:
                        STDLIB.extend(sorted(p for p in glob.glob(os.path.join(os.path.dirname(os.__file__), "*.py")) if os.path.getsize(p) < 40000))
                    p = STDLIB[op["n"] % len(STDLIB)]
                    self.compare_code(rt, f"{label} {os.path.basename(p)}", SourceFileLoader("x", p), p)
            except (core.Violation, core.HarnessError):
                raise
            except BaseException as e:
                exc = e
            rt.set_plan(())
            if switched:
                switches += 1
            fired = rt.fired[nfired:]
            # the model
            model.log = []
            model.stop = (len(real), fired[0][1]) if fired else None
            fail = want = None
            try:
                want = model.op(op)
            except Err as e:
                fail = e.why
            except Skip:
                rt.probe("skipped: byte code of the other state")
                rt.event(f"{label}: byte code of the other state")
                return
            except ImportError as e:
                raise core.HarnessError(repr(e))
            rt.event(f"{label}: {'fails ' + fail if fail else 'ok'}, {real}, {got!r}"[:300])
            rt.check(real == model.log, "wrong-events", lambda: f"{label}: called {real}, expected {model.log}; {exc!r}")
            if fail is None:
                rt.check(exc is None, "import-fails", lambda: f"{label}: {exc!r} {[repr(e)[:300] for e in chain(exc)[1:]]}")
            else:
                rt.check(exc is not None, "import-succeeds", lambda: f"{label}: expected {fail}")
                rt.probe(f"fails: {fail} {'active' if was else 'inactive'}")
                if fired and not (k == "py_compile" or any(type(e).__name__ == fired[0][1] and getattr(e, "_injected", 0) for e in chain(exc))):
                    rt.violate("cause-lost", f"{label}: injected {fired[0]}, got {[repr(e)[:200] for e in chain(exc)]}")
                if fail == "bad" and not fired and op["mod"].startswith("pl"):
                    self.compare_error(rt, label, exc, tree[op["mod"]], path_of[op["mod"]], k)
            if want is not None and want != "?":
                want = None if want == "none" else want
                rt.check(norm(got) == norm(want), "wrong-value", lambda: f"{label}: gives {got!r}, expected {want!r}")
            # the modules
            for n in names:
                have, expect = n in sys.modules, n in model.modules
                rt.check(have == expect, "wrong-modules", lambda: f"{label}: {n} is {'' if have else 'not '}loaded")
                if have:
                    m = sys.modules[n]
                    if k != "forget":
                        rt.check(n not in loaded0 or loaded0[n] is m, "module-replaced", lambda: f"{label}: {n} is another module object")
                    ns = model.modules[n]
                    if "RESULT" in ns and ns["RESULT"] != "?":
                        w = None if ns["RESULT"] == "none" else ns["RESULT"]
                        g = getattr(m, "RESULT", None)
                        rt.check(norm(g) == norm(w), "wrong-value", lambda: f"{label}: {n} holds {g!r}, expected {w!r}")
                    rt.check(m.__file__ == path_of[n] and m.__spec__.name == n and type(m.__loader__) is SourceFileLoader, "wrong-metadata", lambda: f"{label}: {n}: {m.__spec__}")
            rt.check((list(sys.meta_path), list(sys.path_hooks)) == hooks, "hooks-changed", f"{label}: sys.meta_path or sys.path_hooks differ")
            # the caches
            files = cachefiles()
            for f in files:
                stem = f.split(".")[0]
                if f.endswith(".mcpyrate.pickle"):
                    rt.check(stem in model.pickles or f in files0, "cache-while-inactive", lambda: f"{label}: wrote {f}")
                if not model.write:
                    rt.check(files0.get(f) == files[f], "cache-written", lambda: f"{label}: wrote {f} although writing byte code is off")
                if f.endswith(".pyc") and tree[stem]["kind"] == "plain" and files0.get(f, files[f]) != files[f]:
                    rt.check(pyc0.get(stem) is not model.pyc.get(stem), "cache-not-used", lambda: f"{label}: {f} was up to date, but was written again")
            if model.write:
                for n in names:
                    if n in model.pyc and model.pyc[n] is not pyc0.get(n) and tree[n]["kind"] == "plain":
                        f = f"{n}.{sys.implementation.cache_tag}.pyc"
                        rt.check(files.get(f, None) not in (None, files0.get(f)), "cache-not-written", lambda: f"{label}: {f} was not written")
            if switches >= 2 and real:
                rt.nontrivial = True
            if fail is None and k in ("import", "reload", "runpy", "fromspec", "py_compile"):
                rt.probe(f"{tree[op['mod']]['kind']} {'active' if was else 'inactive'}")
        extra = [n for n in sys.modules if n not in base and n not in names and os.path.realpath(getattr(sys.modules[n], "__file__", None) or "").startswith(os.path.realpath(rt.src))]
        rt.check(not extra, "wrong-modules", lambda: f"left behind: {extra}")
        rt.carry = {"pyc": model.pyc, "pickles": model.pickles}

    def compare_code(self, rt, label, loader, path):
        with open(path, "rb") as f:
            data = f.read()
        import warnings
        out = []
        for fn in (lambda: compile(data, path, "exec", dont_inherit=True), lambda: loader.source_to_code(data, path)):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    r = ("code", fn())
                except BaseException as e:
                    while e.__cause__ is not None:      # `dialects` wraps syntax errors
                        e = e.__cause__
                    r = ("error", type(e).__name__, str(e), getattr(e, "lineno", None), getattr(e, "offset", None), getattr(e, "text", None))
            out.append((r, sorted((type(x.message).__name__, str(x.message), x.lineno) for x in w)))
        (a, wa), (b, wb) = out
        try:
            importlib.util.decode_source(data)
        except (SyntaxError, UnicodeDecodeError):     # reported in other words, when not imported
            a, b = a[:1], b[:1]
        rt.check(a == b, "code-differs", lambda: f"{label}: plain Python gives {a}, the loader gives {b}")
        rt.check(wa == wb, "warnings-differ", lambda: f"{label}: plain Python gives {wa}, the loader gives {wb}")

    def compare_error(self, rt, label, exc, mod, path, k):
        """A module without macros fails in the same way as in plain Python."""
        try:
            exec(compile(plain_source(mod), path, "exec", dont_inherit=True), {})
        except BaseException as e:
            want = e
        else:
            raise core.HarnessError(mod["feature"])
        if k == "py_compile":
            return
        sig = lambda e: (type(e).__name__, str(e), getattr(e, "lineno", None), getattr(e, "offset", None), getattr(e, "text", None))
        rt.check(sig(exc) == sig(want), "error-differs", lambda: f"{label}: plain Python raises {sig(want)}, got {sig(exc)}")

        def lines(tb):
            out = []
            while tb is not None:
                if tb.tb_frame.f_code.co_filename == path:
                    out.append((tb.tb_frame.f_code.co_name, tb.tb_lineno))
                tb = tb.tb_next
            return out
        rt.check(lines(exc.__traceback__) == lines(want.__traceback__), "error-differs", lambda: f"{label}: traceback {lines(exc.__traceback__)}, expected {lines(want.__traceback__)}")


STDLIB = []
