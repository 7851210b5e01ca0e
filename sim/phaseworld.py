"""C06: multi-phase compilation is transactional."""
import importlib
import io
import os
import sys

from . import core
from .inproc import InProcWorld

EXCS = ("ValueError", "ZeroDivisionError", "KeyError", "RecursionError", "MemoryError", "AssertionError", "KeyboardInterrupt", "SystemExit",
        "GeneratorExit", "ImportError", "SyntaxError", "OSError", "TypeError", "StopIteration", "AttributeError", "RuntimeError", "LookupError")


class PointedStderr(io.StringIO):
    """Diagnostics go to a stream whose writes may fail."""
    def __init__(self, rt):
        super().__init__()
        self.rt = rt

    def write(self, s):
        self.rt.point("stderr")
        return len(s)


def last(name):
    return name.rsplit(".", 1)[-1]


def parent(name):
    return name.rsplit(".", 1)[0] if "." in name else None


# where in a statement a macro is used
SHAPES = ("{x} = {m}[0]\n", "{x} = ({m}[0],)[0]\n", "if True:\n    {x} = {m}[0]\n", "def _f():\n    return {m}[0]\n{x} = _f()\n")


def render(mods, name):
    mod = mods[name]
    b = last(name)
    out = [{"": f'"""{name}"""\n', "empty": '""\n', "none": ""}[mod.get("doc", "")]]
    if mod.get("future"):
        out.append("from __future__ import annotations\n")
    out.append("from mcpyrate.multiphase import macros, phase\n")
    if mod.get("debug"):
        out.append("from mcpyrate.debug import macros, step_phases\n")
    if mod.get("dialect"):
        out.append("from dl import dialects, DL\n")
    out.append(f"import _sim\nVER = {mod['ver']}\n")

    def uses(lst, tag):
        text = []
        for u in lst:
            if u == "mx":
                src = ".mx" if mod.get("rel") else mod["mx"]
                text.append(f"from {src} import macros, fx\n" + SHAPES[mod.get("shape", 0)].format(x=f"{tag}_mx", m="fx"))
            else:
                text.append(f"from __self__ import macros, g{u}\n" + SHAPES[mod.get("shape", 0)].format(x=f"{tag}_{u}", m=f"g{u}"))
        return "".join(text), "(" + "".join(f"{tag}_{u}, " for u in lst) + ")"
    for i, blk in enumerate(mod["blocks"]):
        body = ["import _sim\n", f"_sim.point(f'{b}.b{i}.a#{{__phase__}}')\n",
                f"if '_SEEN' not in globals():\n    _SEEN = []\n_SEEN.append(({i}, __phase__))\n"]
        if blk.get("imports"):
            body.append(f"import {blk['imports']} as _other{i}\n")
        if blk.get("sib") and mod.get("rel"):
            body.append(f"from . import sib as _sib{i}\nfrom .sib import SIB\n")
        text, tup = uses(blk["uses"], f"U{i}")
        body.append(text)
        body.append(f"P{i} = __phase__\nB{i} = {mod['ver']}\n"
                    f"def g{i}(tree, **kw):\n    import ast\n    _sim.point('{b}.mac.{i}')\n"
                    f"    return ast.parse(repr(('g', {i}, P{i}, B{i}, {tup})), mode='eval').body\n")
        body.append(f"_sim.point(f'{b}.b{i}.z#{{__phase__}}')\n")
        text = "".join(body)
        out.append(f"with phase[{blk['phase']}]:\n" + "".join(f"    {x}\n" for x in text.rstrip("\n").split("\n")))
    text, tup = uses(mod["uses"], "U")
    out.append(text)
    # what the code of the higher phases does in phase 0
    lifted = "(" + "".join("(" + "".join(f"U{i}_{u}, " for u in blk["uses"]) + "), " for i, blk in enumerate(mod["blocks"])) + ")"
    tup = f"({tup}, {lifted})"
    extra = "(" + "".join(f"_other{i}.RESULT, " for i, blk in enumerate(mod["blocks"]) if blk.get("imports")) + ")"
    out.append(f"_sim.point('{b}.main#0')\n")
    out.append(f"RESULT = ({name!r}, VER, {tup}, tuple(_SEEN), __phase__, {extra})\n")
    out.append("DONE = VER\n")
    return "".join(out)


def model(mods, name):
    mod = mods[name]

    def val(u, ph):
        if u == "mx":
            return ("mx", mods["*mx"]["ver"])
        return ("g", u, ph, mod["ver"], tuple(val(x, ph + 1) for x in mod["blocks"][u]["uses"]))
    seen = tuple((i, 0) for i in range(len(mod["blocks"])))
    extra = tuple(model(mods, b["imports"]) for b in mod["blocks"] if b.get("imports"))
    lifted = tuple(tuple(val(u, 1) for u in b["uses"]) for b in mod["blocks"])
    return (name, mod["ver"], (tuple(val(u, 1) for u in mod["uses"]), lifted), seen, 0, extra)


def trace_model(mod, b, run):
    out = []
    top = max((blk["phase"] for blk in mod["blocks"]), default=0)
    for ph in range(top, -1, -1):
        if ph == 0 and not run:
            break
        for i, blk in enumerate(mod["blocks"]):
            if blk["phase"] >= ph:
                out += [f"{b}.b{i}.a#{ph}", f"{b}.b{i}.z#{ph}"]
        if ph == 0:
            out.append(f"{b}.main#0")
    return out


class C06(InProcWorld):
    id = "C06"
    level = "fault_enumeration"
    watch_fs = True
    quick_runs = 1600
    thorough_runs = 200000
    rule = ("each run draws one or two multi-phase modules (1 to 3 phases, 1 to 4 blocks in any order, self-macro-imports, external macros, dialects, nested "
            "multi-phase imports, relative imports, diagnostics on or off), and a history of import, reload, run-time compile, run, edit and forget "
            "operations with exceptions injected at call-outs; non-trivial: an exception fired inside a compilation")

    # ---- generation
    def gen_mod(self, rng, name, nblocks, mx, other=None):
        mod = {"ver": 1, "blocks": [], "mx": mx, "rel": "." in name and rng.random() < 0.5}
        for flag, p in (("future", 0.15), ("debug", 0.2), ("dialect", 0.25)):
            if rng.random() < p:
                mod[flag] = True
        mod["shape"] = rng.randrange(len(SHAPES))
        if rng.random() < 0.3:
            mod["doc"] = rng.choice(("empty", "none"))
        for i in range(nblocks):
            mod["blocks"].append({"phase": rng.choice((1, 1, 2, 2, 3)), "uses": []})
        for i, blk in enumerate(mod["blocks"]):
            higher = [j for j, o in enumerate(mod["blocks"]) if o["phase"] > blk["phase"]] + ["mx"]
            blk["uses"] = [u for u in higher if rng.random() < 0.4]
            if other and rng.random() < 0.4:
                blk["imports"] = other
            if rng.random() < 0.3:
                blk["sib"] = True
        mod["uses"] = [u for u in list(range(nblocks)) + ["mx"] if rng.random() < 0.5]
        return mod

    def gen(self, rng, index):
        name = rng.choice(("mp", "pk.mp", "pk.mp", "pk.sub.mp"))
        ispkg = rng.random() < 0.3      # the phases are in the `__init__` of a package
        mods = {"*mx": {"ver": 1}}
        pkg = parent(name)
        home = name if ispkg else pkg
        mx = f"{home}.mx" if home else "mx"
        other = None
        if rng.random() < 0.4:
            other = rng.choice(("nest", f"{home}.nest" if home else "nest"))
            mods[other] = self.gen_mod(rng, other, rng.randint(1, 2), mx)
            if parent(other) is None:
                mods[other].pop("rel")
        mods[name] = self.gen_mod(rng, name, rng.randint(1, 4), mx, other)
        if ispkg:
            mods[name]["rel"] = rng.random() < 0.6
        spec = {"name": name, "other": other, "mx": mx, "mods": mods, "ops": [], "pkg": ispkg}
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            faults = []
            if rng.random() < 0.65:
                for _ in range(rng.choice((1, 1, 1, 2))):
                    faults.append({"at": self.gen_at(rng, mods, name, other), "n": rng.choice((0, 0, 0, 0, 1, 1, 2, 3)), "exc": rng.choice(EXCS)})
                    if faults[-1]["at"].startswith("fs:"):
                        faults[-1]["exc"] = rng.choice(("errno:EIO", "errno:EACCES", "errno:ENOENT", "errno:EMFILE", "KeyboardInterrupt", "MemoryError"))
            if r < 0.4:
                op = {"op": "import"}
            elif r < 0.6:
                op = {"op": "reload"}
            elif r < 0.72:
                op = {"op": "compile"}
            elif r < 0.82 and not ispkg:
                op = {"op": "run", "name": f"{pkg}.dyn" if pkg else "dyn", "how": rng.choice(("module", "name"))}
            elif r < 0.92:
                op = {"op": "bump", "mod": rng.choice(sorted(mods))}
            else:
                op = {"op": "forget"}
            if op["op"] in ("import", "reload", "compile", "run"):
                op["faults"] = faults
            spec["ops"].append(op)
        return spec

    def gen_at(self, rng, mods, name, other):
        b = last(name)
        r = rng.random()
        if r < 0.25:
            i = rng.randrange(len(mods[name]["blocks"]))
            ph = rng.randint(0, mods[name]["blocks"][i]["phase"])
            return f"{b}.b{i}.{rng.choice('az')}#{ph}"
        if r < 0.45:
            return f"{b}.mac.*"
        if r < 0.55 and other:
            return f"{last(other)}.*"
        if r < 0.65:
            return rng.choice(("dl.ast", "dl.post", "dl.*"))
        if r < 0.75:
            return rng.choice(("mx.mac", "mx.exec"))
        if r < 0.85:
            return "fs:open_r:src"
        if r < 0.92:
            return "stderr"
        return "*"

    def shrink(self, spec):
        yield from core.shrink_ops(spec)
        for n, mod in spec["mods"].items():
            if n.startswith("*"):
                continue

            def put(new):
                return {**spec, "mods": {**spec["mods"], n: new}}
            for flag in ("future", "debug", "dialect", "rel", "doc", "shape"):
                if mod.get(flag):
                    yield put({k: v for k, v in mod.items() if k != flag})
            for x in core.drop_each(mod["uses"]):
                yield put({**mod, "uses": x})
            nb = len(mod["blocks"]) - 1
            if nb >= 1 and nb not in mod["uses"] and not any(nb in b["uses"] for b in mod["blocks"]):
                yield put({**mod, "blocks": mod["blocks"][:-1]})
            for i, b in enumerate(mod["blocks"]):
                def putb(new):
                    return put({**mod, "blocks": mod["blocks"][:i] + [new] + mod["blocks"][i + 1:]})
                for x in core.drop_each(b["uses"]):
                    yield putb({**b, "uses": x})
                for flag in ("imports", "sib"):
                    if b.get(flag):
                        yield putb({k: v for k, v in b.items() if k != flag})

    # ---- execution
    def inproc(self, rt, spec):
        name, other = spec["name"], spec["other"]
        mods = spec["mods"]
        pkg = parent(name)
        clock = [2_000_000_000]

        def put(rel, text):
            clock[0] += 1
            rt.write(rel, text, clock[0])
        for p in ("pk", "pk.sub"):
            put(p.replace(".", "/") + "/__init__.py", f"import _sim\n_sim.point('{p}.exec')\n")
            put(p.replace(".", "/") + "/sib.py", "SIB = 'sib'\n")

        def put_mx():
            put(spec["mx"].replace(".", "/") + ".py",
                f"import _sim\n_sim.point('mx.exec')\ndef fx(tree, **kw):\n    import ast\n    _sim.point('mx.mac')\n"
                f"    return ast.parse(repr(('mx', {mods['*mx']['ver']})), mode='eval').body\n")

        ispkg = spec.get("pkg")

        def rel(n):
            return n.replace(".", "/") + ("/__init__.py" if ispkg and n == name else ".py")

        def path(n):
            return os.path.join(rt.src, rel(n))

        def put_mod(n):
            put(rel(n), render(mods, n))
        if ispkg:
            put(name.replace(".", "/") + "/sib.py", "SIB = 'sib'\n")
        put_mx()
        put("dl.py", "import _sim, ast\nfrom mcpyrate.dialects import Dialect\nclass DL(Dialect):\n"
                     "    def transform_ast(self, tree):\n        _sim.point('dl.ast')\n        tree.body.append(ast.parse('DLA = 1').body[0])\n        return tree\n"
                     "    def postprocess_ast(self, tree):\n        _sim.point('dl.post')\n        tree.body.append(ast.parse('DLP = 2').body[0])\n        return tree\n")
        real = [n for n in mods if not n.startswith("*")]
        for n in real:
            put_mod(n)
        from mcpyrate import compiler
        sys.stderr = PointedStderr(rt)
        tracked = set(real) | {spec["mx"], "dl", "pk", "pk.sub", "pk.sib", "pk.sub.sib", "dyn", f"{pkg}.dyn" if pkg else "dyn", f"{name}.sib"}
        loaded_ver = {}      # what the registered modules were loaded with
        dyn = {}

        def versions():
            return {n: mods[n]["ver"] for n in mods}

        def forget():
            for n in sorted(tracked):
                sys.modules.pop(n, None)
            dyn.clear()

        def facts(m):
            return {k: getattr(m, k, None) for k in ("RESULT", "DONE", "VER", "_SEEN", "__phase__", "DLA", "DLP", "__name__", "__file__", "__package__", "__doc__")}

        def pattr(n):
            p = sys.modules.get(parent(n)) if parent(n) else None
            return getattr(p, last(n), None) if p is not None else None

        def good(n, m, what, expected):
            rt.check(getattr(m, "RESULT", None) == expected, "wrong-module",
                     lambda: f"{what}: {n} is {getattr(m, 'RESULT', None)!r}, expected {expected!r}")
            rt.check(getattr(m, "DONE", None) == expected[1] and m.__phase__ == 0, "wrong-module", lambda: f"{what}: {n} is incomplete: {facts(m)}")
            mod = mods[n if n in mods else name]
            doc = {"": n if n in mods else name, "empty": "", "none": None}[mod.get("doc", "")]
            rt.check(m.__doc__ == doc, "wrong-module", lambda: f"{what}: the docstring of {n} is {m.__doc__!r}, expected {doc!r}")
            if mod.get("dialect"):
                rt.check(getattr(m, "DLA", None) == 1 and getattr(m, "DLP", None) == 2, "wrong-module", lambda: f"{what}: dialect not applied to {n}")

        def do(op, faults, label):
            kind = op["op"]
            importlib.invalidate_caches()
            what = f"{label} {kind}"
            if kind == "reload" and name not in sys.modules:
                kind = "import"
            if kind == "compile" and ispkg and name not in sys.modules:
                kind = "import"
            if kind == "run" and pkg and "." in op["name"] and pkg not in sys.modules:
                kind = "import"
            target = name
            if kind == "run":
                target = op["name"]
                m0 = compiler.create_module(target, filename=path(name))
            before = dict(sys.modules)
            before_target = sys.modules.get(target)
            before_facts = facts(before_target) if before_target is not None else None
            before_attr = pattr(target)
            # the relative position of each block in the trace
            trace = []
            clobbered = []
            b = last(name)

            def hook(pt):
                if pt.startswith((f"{b}.b", f"{b}.main")):
                    trace.append(pt)
                if kind in ("import", "reload", "compile", "run") and pattr(target) is not before_attr:
                    clobbered.append(pt)
            rt.hook = hook
            rt.set_plan(faults)
            nfired = len(rt.fired)
            text = None
            if kind in ("compile", "run"):
                rt.quiet += 1
                text = render(mods, name)
                rt.quiet -= 1
            err = None
            try:
                if kind == "import":
                    m = importlib.import_module(name)
                elif kind == "reload":
                    m = importlib.reload(sys.modules[name])
                elif kind == "compile":
                    code = compiler.compile(text, path(name), self_module=name)
                else:
                    m = compiler.run(text, m0 if op["how"] == "module" else target)
            except core.Violation:
                raise
            except BaseException as e:
                err = e
            finally:
                rt.hook = None
                rt.set_plan(())
            fired = rt.fired[nfired:]
            pkg_missing = kind == "compile" and pkg and pkg not in before
            already = kind == "import" and before_target is not None
            rt.event(f"{what} -> {type(err).__name__ if err else 'ok'} fired {fired}")
            # -- outcome
            if err is None:
                bad = [f for f in fired if not f[0].startswith("fs:")]
                rt.check(not bad, "error-swallowed", lambda: f"{what}: succeeded although {bad} was raised")
            elif not fired:
                if pkg_missing and isinstance(err, ModuleNotFoundError):
                    rt.probe("parent-package-missing")
                else:
                    import traceback
                    rt.violate(f"fails-{type(err).__name__}", f"{what}: failed without a fault: {''.join(traceback.format_exception(err))[-1500:]}")
            # -- everything that was registered still is
            same = [n for n in before if n != target and n in sys.modules and sys.modules[n] is not before[n]]
            gone = [n for n in before if n != target and n not in sys.modules]
            rt.check(not same and not gone, "module-table", lambda: f"{what}: replaced {same}, removed {gone}")
            for n in sorted(set(sys.modules) - set(before)):
                m1 = sys.modules[n]
                spec1 = getattr(m1, "__spec__", None)
                if n == target:
                    continue
                f = getattr(m1, "__file__", None) or ""
                inside = n in tracked or rt.scratch in f
                if inside or spec1 is None:
                    rt.check(n in tracked and spec1 is not None, "module-table", lambda: f"{what}: left {n} in the module table")
                    if n == other:
                        good(n, m1, f"{what}, nested import", model(mods, n))
                        loaded_ver[n] = versions()
            rt.check(not clobbered, "parent-clobbered", lambda: f"{what}: during the compilation, the parent package had another {last(target)} at {clobbered[:3]}")
            ran = any(f[0].endswith("#0") for f in fired)
            run = kind in ("import", "reload", "run")
            if err is None:
                # -- success
                if kind == "compile":
                    rt.check(sys.modules.get(name) is before_target, "module-table",
                             lambda: f"{what}: the entry of {name} was {before_target!r}, is {sys.modules.get(name)!r}")
                    rt.check(before_target is None or facts(before_target) == before_facts, "module-table", lambda: f"{what}: changed the module of that name")
                    rt.check(pattr(name) is before_attr, "parent-clobbered", lambda: f"{what}: changed the parent package's attribute")
                    ns = {"__name__": name, "__package__": name if ispkg else pkg}
                    keep = dict(sys.modules)
                    exec(code, ns)
                    rt.check(ns["RESULT"] == expected_now(), "wrong-code", lambda: f"{what}: the code gives {ns['RESULT']!r}, expected {expected_now()!r}")
                    for n in set(sys.modules) - set(keep):
                        rt.check(sys.modules[n].__spec__ is not None, "module-table", lambda: f"{what}: left {n}")
                elif not already:
                    rt.check(sys.modules.get(target) is m, "module-table", lambda: f"{what}: returned {m!r}, registered is {sys.modules.get(target)!r}")
                    if kind == "reload":
                        rt.check(m is before_target, "module-table", lambda: f"{what}: another module object")
                    if kind == "run":
                        rt.check(m is m0, "module-table", lambda: f"{what}: another module object")
                    else:
                        rt.check(m.__spec__ is not None and m.__file__ == path(name), "module-table", lambda: f"{what}: wrong metadata {facts(m)}")
                    exp = expected_now()
                    if kind == "reload":    # `_SEEN` is kept by a reload, as in plain Python
                        exp = (*exp[:3], m.RESULT[3], *exp[4:])
                    good(name, m, what, exp)
                    if "." in target:
                        rt.check(pattr(target) is m, "parent-clobbered", lambda: f"{what}: the parent package does not have the module")
                    loaded_ver[name] = versions()
                else:
                    rt.check(m is before_target and facts(m) == before_facts, "module-table", lambda: f"{what}: a module already imported changed")
                if ispkg:
                    for n in sorted(set(sys.modules) - set(before)):
                        if parent(n) == name:
                            rt.check(getattr(sys.modules[name], last(n), None) is sys.modules[n], "submodule-unbound", lambda: f"{what}: {n} is loaded, but not an attribute of {name}")
                            rt.probe("submodule-bound")
                if not already:
                    want = trace_model(mods[name], b, True)
                    if kind == "compile":
                        want = trace_model(mods[name], b, False)
                    rt.check(trace == want, "phase-order", lambda: f"{what}: executed {trace}, expected {want}")
            else:
                # -- failure
                rt.nontrivial = True
                if kind == "import" and before_target is None:
                    rt.check(name not in sys.modules, "left-behind", lambda: f"{what}: failed ({type(err).__name__}), but left {sys.modules.get(name)!r} registered; {fired}")
                else:
                    rt.check(sys.modules.get(target) is before_target, "left-behind",
                             lambda: f"{what}: failed ({type(err).__name__}); the entry was {before_target!r}, is {sys.modules.get(target)!r}; {fired}")
                    if not ran and before_target is not None:
                        rt.check(facts(before_target) == before_facts, "left-behind", lambda: f"{what}: failed in compilation, but changed the module: {facts(before_target)}, was {before_facts}")
                rt.check(pattr(target) is before_attr, "parent-clobbered", lambda: f"{what}: failed, and changed the parent package's attribute; {fired}")
                want = trace_model(mods[name], b, run)
                rt.check(trace == want[:len(trace)], "phase-order", lambda: f"{what}: executed {trace}, expected a prefix of {want}")
                if any(not x[0].endswith("#0") for x in fired):
                    rt.probe("failed-in-compilation")
            return err

        def expected_now():
            exp = model(mods, name)
            # a module that stays loaded keeps the version it was loaded with
            return patch(exp, name)

        def patch(exp, n):
            extra = []
            mod = mods[n]
            for x in [b["imports"] for b in mod["blocks"] if b.get("imports")]:
                lv = loaded_ver.get(x)
                if lv is not None and x in sys.modules:
                    extra.append(sys.modules[x].RESULT)
                else:
                    extra.append(model(mods, x))
            mxv = getattr(sys.modules.get(spec["mx"]), "_ver", None)
            out = (*exp[:5], tuple(extra))
            if mxv is not None and mxv != mods["*mx"]["ver"]:
                out = tuple(replace_mx(x, mxv) for x in out)
            return out

        def replace_mx(x, v):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "mx":
                    return ("mx", v)
                return tuple(replace_mx(y, v) for y in x)
            return x

        for k, op in enumerate(spec["ops"]):
            if op["op"] == "bump":
                n = op["mod"]
                mods[n]["ver"] += 1
                put_mx() if n == "*mx" else put_mod(n)
                if n == "*mx" or n == other:    # the provider must be loaded afresh
                    forget()
                    loaded_ver.clear()
                rt.event(f"{k} bump {n}")
                continue
            if op["op"] == "forget":
                forget()
                loaded_ver.clear()
                rt.event(f"{k} forget")
                continue
            err = do(op, op["faults"], f"op {k}")
            if err is not None:
                do(dict(op), (), f"op {k} retried")
        # once the faults stop
        forget()
        loaded_ver.clear()
        do({"op": "import"}, (), "finally")
        do({"op": "reload"}, (), "finally")
        do({"op": "compile"}, (), "finally")
