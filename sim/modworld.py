"""C12: run-time modules are registered and removed exactly."""
import ast
import importlib
import os
import sys
import types

from . import core
from .inproc import InProcWorld

NAMES = ("ta", "tb", "ta.x", "ta.x.y", "tb.x", "pk.x", "pk.real", "pk.sub", "pk.sub.x", "no.such", "ta.no.such", "mm")
BAD_NAMES = ("a b", "ta.", ".ta", "1a", "ta..x", "ta.1x", 7, ("ta",), b"ta")
EXCS = ("ValueError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "StopIteration", "KeyError", "AttributeError", "ModuleNotFound", "RuntimeError")
LASTS = ("x", "y", "real", "sub", "such")
DOC_KINDS = ("none", "none", "plain", "plain", "multi", "fstring", "bytes", "later", "concat", "empty", "comment")


class Touchy(types.ModuleType):
    """A module whose attributes cannot always be set."""
    point = None

    def __setattr__(self, name, value):
        if name in LASTS and Touchy.point is not None:
            Touchy.point("setattr")
        super().__setattr__(name, value)

    def __delattr__(self, name):
        if name in LASTS and Touchy.point is not None:
            Touchy.point("delattr")
        super().__delattr__(name)


class C12(InProcWorld):
    id = "C12"
    level = "fault_enumeration"
    quick_runs = 20000
    thorough_runs = 250000
    rule = ("each run draws a nested history of creating modules, temporary modules, running code of all supported kinds in them (with nested operations in its middle), "
            "removals, imports and macro-imports of run-time modules, with valid, invalid, existing and orphaned names, and failures of the code, of parent packages, of "
            "the entropy source and of compilation; the module table and the parents' attributes are compared with a model after each operation; non-trivial: a context "
            "ended by an exception, or a fault fired, or operations were nested")

    def gen_ops(self, rng, depth, n):
        return [self.gen_op(rng, depth) for _ in range(n)]

    def gen_op(self, rng, depth):
        r = rng.random()
        name = rng.choice(NAMES) if rng.random() < 0.9 else None
        if r < 0.27:
            op = {"op": "create", "name": name, "file": rng.choice((None, None, "given", "some description", "")), "up": rng.random() < 0.8}
            if rng.random() < 0.12:
                op["bad"] = rng.randrange(len(BAD_NAMES) + 1)
        elif r < 0.5:
            op = {"op": "temp", "name": name, "file": rng.choice((None, "given")), "up": rng.random() < 0.8,
                  "body": self.gen_ops(rng, depth - 1, rng.choice((0, 1, 1, 2, 3))) if depth > 0 else [],
                  "exc": rng.choice(EXCS) if rng.random() < 0.35 else None, "close": rng.random() < 0.1}
            if rng.random() < 0.08:
                op["bad"] = rng.randrange(len(BAD_NAMES) + 1)
        elif r < 0.78:
            op = {"op": "run", "target": rng.choice(("none", "name", "name", "object", "object", "bad", "foreign")), "name": rng.choice(NAMES), "obj": rng.randrange(8),
                  "setdoc": rng.random() < 0.15, "kind": rng.choice(("str", "str", "bytes", "latin1", "ast", "list", "code", "bad")), "doc": rng.choice(DOC_KINDS),
                  "what": rng.choice(("plain", "plain", "plain", "syntax", "macro", "macro", "phases", "relative", "empty")),
                  "body": self.gen_ops(rng, depth - 1, rng.choice((0, 0, 1, 2))) if depth > 0 else [],
                  "exc": rng.choice(EXCS) if rng.random() < 0.25 else None, "optimize": rng.choice((-1, -1, 0, 2))}
        elif r < 0.86:
            op = {"op": rng.choice(("remove", "remove", "rmattr")), "name": rng.choice(NAMES)}
        elif r < 0.92:
            op = {"op": "import", "name": rng.choice(("pk", "pk.real", "pk.sub", "pk.sub.real"))}
        elif r < 0.95:
            op = {"op": "touchy", "name": rng.choice(("ta", "tb", "pk.sub"))}
        elif r < 0.98:
            op = {"op": "defmac", "name": rng.choice(("mm", "mm", "ta", "ta.x")), "ver": rng.randint(1, 9)}
        else:
            op = {"op": "fileuser", "name": rng.choice(("mm", "mm", "ta", "ta.x", "tb"))}
        if rng.random() < 0.12:
            op["faults"] = [{"at": rng.choice(("urandom", "urandom", "setattr", "delattr", "mac")), "n": rng.choice((0, 0, 0, 1)),
                             "exc": rng.choice(("ValueError", "AttributeError", "errno:EIO", "MemoryError"))}]
            if op["faults"][0]["at"] in ("urandom", "setattr", "mac") and rng.random() < 0.3:
                op["faults"][0]["exc"] = "KeyboardInterrupt"
        return op

    def gen(self, rng, index):
        return {"ops": self.gen_ops(rng, rng.choice((1, 2, 3)), rng.randint(2, 12)), "faults": []}

    def shrink(self, spec):
        def smaller(ops):
            for x in core.drop_each(ops):
                yield x
            for i, op in enumerate(ops):
                if op.get("body"):
                    yield ops[:i] + op["body"] + ops[i + 1:]
                    for y in smaller(op["body"]):
                        yield ops[:i] + [{**op, "body": y}] + ops[i + 1:]
                if op.get("faults"):
                    yield ops[:i] + [{k: v for k, v in op.items() if k != "faults"}] + ops[i + 1:]
                for k, v in (("exc", None), ("what", "plain"), ("kind", "str"), ("doc", "none"), ("optimize", -1), ("file", None), ("close", False)):
                    if k in op and op[k] != v:
                        yield ops[:i] + [{**op, k: v}] + ops[i + 1:]
        for x in smaller(spec["ops"]):
            yield {**spec, "ops": x}

    def inproc(self, rt, spec):
        from mcpyrate import compiler
        for p in ("pk", "pk/sub"):
            rt.write(f"{p}/__init__.py", "")
            rt.write(f"{p}/real.py", "REAL = 'real'\n")
        Touchy.point = rt.point
        orig_urandom = os.urandom

        def urandom(n):
            rt.point("urandom")
            return orig_urandom(n)
        os.urandom = urandom

        reg = {}            # what should be registered, beyond the initial modules
        attr = {}           # (id of module, name) -> module, for the names in LASTS
        objs = []           # all modules ever seen (also keeps ids unique)
        macver = {}         # id -> version of the macro it defines
        base = dict(sys.modules)
        helper = [0]
        fileusers = []

        def see(m):
            if not any(m is o for o in objs):
                objs.append(m)
            return m

        def parent(n):
            return n.rsplit(".", 1)[0] if "." in n else None

        def last(n):
            return n.rsplit(".", 1)[-1]

        def look(n):
            return reg.get(n)

        def verify(label, loose=()):
            for n in set(sys.modules) | set(reg) | set(base):
                m = sys.modules.get(n, "absent")
                if n in reg:
                    rt.check(m is reg[n], "module-table", lambda: f"{label}: the entry {n} is {m!r}, should be {reg[n]!r}")
                elif n in base:
                    rt.check(m is base[n], "module-table", lambda: f"{label}: the entry {n} is {m!r}, should be {base[n]!r}")
                elif m != "absent" and n not in loose:
                    s = getattr(m, "__spec__", None)
                    if s is not None and not (getattr(m, "__file__", None) or "").startswith(rt.src) and n.split(".")[0] not in ("ta", "tb", "pk", "mm", "no"):
                        base[n] = m         # some library module, imported as a side effect
                        continue
                    rt.violate("module-table", f"{label}: {n} is registered as {m!r}, and should not be")
            for o in objs:
                for a in LASTS:
                    want = attr.get((id(o), a), "absent")
                    if want == "unknown":
                        continue
                    got = o.__dict__.get(a, "absent")
                    rt.check(got is want or got == want == "absent", "parent-attribute",
                             lambda: f"{label}: {o.__name__}.{a} is {got!r}, should be {want!r}")

        def made(m, name, file, up, label):
            rt.check(type(m) is types.ModuleType, "wrong-module", lambda: f"{label}: got {m!r}")
            rt.check(not any(m is o for o in objs), "wrong-module", lambda: f"{label}: not a new module: {m!r}")
            if name is None:
                name = m.__name__
                rt.check(name not in reg and name not in base and name.isidentifier(), "wrong-name", lambda: f"{label}: automatic name {name!r}")
            rt.check(m.__name__ == name, "wrong-name", lambda: f"{label}: got name {m.__name__!r}")
            if file:
                rt.check(m.__file__ == file, "wrong-file", lambda: f"{label}: got file name {m.__file__!r}")
            else:
                rt.check(isinstance(m.__file__, str) and m.__file__, "wrong-file", lambda: f"{label}: got file name {m.__file__!r}")
            rt.check(m.__package__ == parent(name), "wrong-package", lambda: f"{label}: got package {m.__package__!r}")
            reg[name] = see(m)
            if up and parent(name):
                p = reg[parent(name)]
                attr[(id(p), last(name))] = m
            return m

        def create_args(op):
            """Returns (args, kwargs, should it fail)."""
            name, file = op["name"], op["file"]
            if file == "given":
                file = os.path.join(rt.src, "given.py")
            expected = None
            if op.get("bad") is not None:
                if op["bad"] < len(BAD_NAMES):
                    name = BAD_NAMES[op["bad"]]
                else:
                    file = 77
                expected = TypeError
            elif name and parent(name) and parent(name) not in reg:
                expected = ModuleNotFoundError
            return name, file, expected

        def expect_failure(err, expected, fired, label):
            if fired:
                ok = any(getattr(e, "_injected", None) for e in chain(err))
                rt.check(ok, f"wrong-error-{type(err).__name__}", lambda: f"{label}: raised {err!r} instead of the injected {fired}")
                return
            rt.check(expected is not None, f"fails-{type(err).__name__}", lambda: f"{label}: {''.join(__import__('traceback').format_exception(err))[-1500:]}")
            rt.check(isinstance(err, expected), f"wrong-error-{type(err).__name__}", lambda: f"{label}: raised {err!r}, expected {expected}")

        def chain(err):
            seen = []
            while err is not None and err not in seen:
                seen.append(err)
                err = err.__cause__
            return seen

        def make_exc(kind, label):
            if kind == "ModuleNotFound":
                e = ModuleNotFoundError("planned")
            else:
                e = getattr(__import__("builtins"), kind)("planned")
            e._planned = label
            return e

        def adopt():
            for n in ("pk", "pk.sub", "pk.real", "pk.sub.real"):
                m = sys.modules.get(n)
                if m is not None and n not in reg and (m.__file__ or "").startswith(rt.src):
                    reg[n] = see(m)
                    if parent(n) in reg:
                        attr[(id(reg[parent(n)]), last(n))] = m

        nests = {}
        rt.child.sim.nest = lambda k: nests[k]()
        rt.child.sim.mac = lambda: rt.point("mac")

        def source_for(op, label, target):
            """Source code, and what it should do: (source, docstring, error expected at compile time)."""
            k = f"n{helper[0]}"
            helper[0] += 1
            state = {"nest": False, "macro": None}

            def nest():
                # here, we are in the middle of the code
                state["nest"] = True
                if op["what"] == "relative":
                    adopt()
                verify(f"{label}, in the code", loose=state.get("loose", ()))
                if state["on_nest"] is not None:
                    state["on_nest"]()
                for j, o in enumerate(op["body"]):
                    do(o, f"{label}.{j}")
                if op["body"]:
                    rt.nontrivial = True
                    rt.probe("nested-in-run")
                if op["exc"]:
                    raise make_exc(op["exc"], label)
            nests[k] = nest
            state["on_nest"] = None
            doc = op["doc"]
            lines = []
            want = None
            if doc == "plain":
                lines.append("'doc'"); want = "doc"
            elif doc == "multi":
                lines.append('"""doc\n   of two lines"""'); want = "doc\n   of two lines"
            elif doc == "fstring":
                lines.append("f'doc{1}'")
            elif doc == "bytes":
                lines.append("b'doc'")
            elif doc == "later":
                lines += ["pass", "'doc'"]
            elif doc == "concat":
                lines.append("'do' 'c'"); want = "doc"
            elif doc == "empty":
                lines.append("''"); want = ""
            elif doc == "comment":
                lines.append("# comment"); lines.append("'doc'"); want = "doc"
            what = op["what"]
            error = None
            body = [f"COUNT = globals().get('COUNT', 0) + 1", "SEEN = (__name__, __file__, __package__)", "DOCSEEN = globals().get('__doc__')"]
            if op.get("setdoc"):
                body.append("__doc__ = 'own'")
            if what == "macro":
                lines.append("from mm import macros, mac")
                body.append("MAC = mac[1]")
                m = look("mm")
                if m is None:
                    error = ModuleNotFoundError
                elif id(m) not in macver:
                    error = ImportError
                else:
                    state["macro"] = macver[id(m)]
            elif what == "phases":
                lines.append("from mcpyrate.multiphase import macros, phase")
                lines.append("with phase[1]:\n    import ast\n    def pm(tree, **kw):\n        return ast.Constant('pm')")
                lines.append("from __self__ import macros, pm")
                body.append("PM = pm[1]")
            elif what == "relative":
                body.append("from .real import REAL")
            elif what == "empty":
                return ("" if want is None and doc == "none" else "\n".join(lines)), want, None, {**state, "empty": True}
            if what == "syntax":
                body.append("x = = 1")
                error = ImportError
            body.append(f"__import__('_sim').nest({k!r})")
            body.append("DONE = COUNT")
            return "\n".join(lines + body) + "\n", want, error, state

        def do(op, label):
            label = f"{label} {op['op']}"
            rt.set_plan(list(op.get("faults", ())))
            kind = op["op"]
            nfired = len(rt.fired)
            if kind == "create":
                name, file, expected = create_args(op)
                try:
                    m = compiler.create_module(name, file, update_parent=op["up"])
                except core.Violation:
                    raise
                except BaseException as err:
                    expect_failure(err, expected, rt.fired[nfired:], label)
                    rt.event(f"{label} {name!r}: {type(err).__name__}")
                else:
                    rt.set_plan(())
                    rt.check(not rt.fired[nfired:], "error-swallowed", f"{label}: succeeded")
                    rt.check(expected is None, "no-error", lambda: f"{label}: no error for {name!r}")
                    made(m, name, file, op["up"], label)
                    rt.event(f"{label} {name!r}: ok")
            elif kind == "temp":
                name, file, expected = create_args(op)
                state = {}
                body_error = None
                got = None
                try:
                    with compiler.temporary_module(name, file, update_parent=op["up"]) as m:
                        try:
                            fired = rt.fired[nfired:]
                            plan = rt.plan
                            rt.set_plan(())
                            rt.check(not fired, "error-swallowed", f"{label}: succeeded")
                            rt.check(expected is None, "no-error", lambda: f"{label}: no error for {name!r}")
                            made(m, name, file, op["up"], label)
                            state["name"] = m.__name__
                            state["parent"] = reg.get(parent(m.__name__)) if parent(m.__name__) else None
                            verify(f"{label}, inside")
                            for j, o in enumerate(op["body"]):
                                do(o, f"{label}.{j}")
                            rt.plan = plan
                            if op["exc"]:
                                rt.nontrivial = True
                                raise make_exc(op["exc"], label)
                        except core.Violation:
                            raise
                        except BaseException as err:
                            body_error = err
                            raise
                except core.Violation:
                    raise
                except BaseException as err:
                    got = err
                rt.set_plan(())
                fired = rt.fired[nfired:]
                if "name" not in state:
                    rt.check(got is not None, "no-error", lambda: f"{label}: no error for {name!r}")
                    expect_failure(got, expected, fired, label)
                    rt.event(f"{label} {name!r}: {type(got).__name__}")
                else:
                    if body_error is not None:
                        ok = got is body_error or (isinstance(body_error, StopIteration) and isinstance(got, RuntimeError))
                        rt.check(ok, "wrong-error", lambda: f"{label}: the body raised {body_error!r}, the context {got!r}")
                    else:
                        rt.check(got is None, "fails", lambda: f"{label}: the context raised {got!r}")
                    n = state["name"]
                    reg.pop(n, None)
                    if op["up"] and parent(n):
                        now = reg.get(parent(n))
                        if now is not state["parent"] or any(f[0] == "delattr" for f in fired):
                            for p in (now, state["parent"]):
                                if p is not None:
                                    attr[(id(p), last(n))] = "unknown"
                        else:
                            attr.pop((id(now), last(n)), None)
                    rt.event(f"{label} {name!r}: {type(got).__name__ if got is not None else 'ok'}")
            elif kind == "run":
                self.do_run(rt, op, label, reg, objs, see, source_for, expect_failure, nfired, compiler, adopt)
            elif kind == "remove":
                if op["name"] in reg:
                    del sys.modules[op["name"]], reg[op["name"]]
                rt.event(label)
            elif kind == "rmattr":
                p = reg.get(parent(op["name"]) or "")
                if p is not None and last(op["name"]) in p.__dict__:
                    del p.__dict__[last(op["name"])]
                if p is not None:
                    attr.pop((id(p), last(op["name"])), None)
            elif kind == "import":
                rt.set_plan(())
                try:
                    importlib.import_module(op["name"])
                except core.Violation:
                    raise
                except Exception as err:       # a run-time module in the place of a package
                    rt.event(f"{label}: {type(err).__name__}")
                adopt()
            elif kind == "touchy":
                n = op["name"]
                rt.set_plan(())
                if parent(n) is None or parent(n) in reg:
                    m = Touchy(n)
                    m.__file__ = "touchy"
                    sys.modules[n] = reg[n] = see(m)
            elif kind == "defmac":
                rt.set_plan(())
                n = op["name"]
                if n not in reg and (parent(n) is None or parent(n) in reg):
                    m = compiler.create_module(n)
                    made(m, n, None, True, label)
                if n in reg and isinstance(reg[n], types.ModuleType):
                    compiler.run(f"import ast\ndef mac(tree, **kw):\n    __import__('_sim').mac()\n    return ast.Constant({op['ver']})\n", n)
                    macver[id(reg[n])] = op["ver"]
            elif kind == "fileuser":
                # a source file that macro-imports from a run-time module
                rt.set_plan(())
                n = op["name"]
                user = f"fu{len(fileusers)}"
                fileusers.append(user)
                rt.write(f"{user}.py", f"from {n} import macros, mac\nMAC = mac[1]\n")
                importlib.invalidate_caches()
                want = macver.get(id(reg[n]), ImportError) if n in reg else ModuleNotFoundError
                if parent(n) and parent(n) not in reg:      # the import statement itself needs it
                    want = ImportError
                try:
                    got = importlib.import_module(user).MAC
                except core.Violation:
                    raise
                except BaseException as err:
                    expect_failure(err, want if isinstance(want, type) else None, (), label)
                    got = type(err).__name__
                else:
                    rt.check(got == want, "wrong-macro", lambda: f"{label}: MAC is {got}, expected {want}")
                    rt.probe("file-uses-run-time-module")
                rt.check(sys.modules.pop(user, None) is None or got == want, "module-table", lambda: f"{label}: {user} left behind")
                rt.event(f"{label} {n} -> {got}")
            rt.set_plan(())
            verify(label)

        for k, op in enumerate(spec["ops"]):
            do(op, str(k))
        rt.probe("modules", len(objs))

    def do_run(self, rt, op, label, reg, objs, see, source_for, expect_failure, nfired, compiler, adopt):
        target = op["target"]
        expected = None
        m = None
        if target == "none":
            arg = None
        elif target == "name":
            arg = op["name"]
            m = reg.get(arg)
            if m is None:
                expected = ModuleNotFoundError
        elif target == "object":
            if not objs:
                return
            m = arg = objs[op["obj"] % len(objs)]
        elif target == "foreign":
            m = arg = types.ModuleType("foreign_module")
            m.__file__ = "<foreign>"
            m.__package__ = None
            see(m)
        else:
            arg = (7, b"ta", ["ta"], {})[op["obj"] % 4]
            expected = TypeError
        text, doc, error, state = source_for(op, label, m)
        kind = op["kind"]
        if op["what"] == "empty" and kind not in ("ast", "list", "code"):
            kind = "str"
        src = text
        err = None
        if kind == "bytes":
            src = text.encode()
        elif kind == "latin1":
            if doc is None and op["doc"] == "none":
                src = ("# coding: latin-1\nLAT = 'é'\n" + text).encode("latin-1")
            else:
                src = ("# coding: latin-1\n" + text).encode("latin-1")
        elif kind in ("ast", "list", "code") and op["what"] != "syntax":
            if kind == "code" and op["what"] in ("macro", "phases"):
                kind = "ast"
            tree = ast.parse(text)
            if kind == "ast":
                src = tree
            elif kind == "list":
                src = tree.body
            else:
                src = compile(text, "<code>", "exec", dont_inherit=True)
        elif kind == "bad":
            src = (7, 1.5, {}, None)[op["obj"] % 4]
            error = TypeError
        expected = expected or error
        before = m.__dict__.get("COUNT", 0) if m is not None else 0
        names = set(sys.modules)
        auto = []
        if m is None and target == "none":
            def on_nest():
                for n in set(sys.modules) - names:
                    if n not in reg and n.startswith("dynamically_created_module"):
                        reg[n] = see(sys.modules[n])
                        auto.append(n)
            # the automatically created module is registered while its code runs
            class Loose:
                def __contains__(self, n):
                    return n not in names and n.startswith("dynamically_created_module")
            state["loose"] = Loose()
            state["on_nest"] = on_nest
        try:
            if op["optimize"] != -1:
                got = compiler.run(src, arg, op["optimize"])
            elif arg is None:
                got = compiler.run(src)
            else:
                got = compiler.run(src, arg)
        except core.Violation:
            raise
        except BaseException as e:
            err = e
        rt.set_plan(())
        fired = rt.fired[nfired:]
        nested_fired = bool(op["body"])
        if err is None:
            got_name = got.__name__
            if target == "none":
                if got_name not in reg:
                    rt.check(sys.modules.get(got_name) is got or op["body"], "module-table", lambda: f"{label}: the new module is not registered")
                    if sys.modules.get(got_name) is got:
                        reg[got_name] = see(got)
                m = got
            rt.check(expected is None, "no-error", lambda: f"{label}: no error, expected {expected}")
            rt.check(got is m, "wrong-module", lambda: f"{label}: returned {got!r}")
            rt.check(nested_fired or not fired, "error-swallowed", lambda: f"{label}: {fired} swallowed")
            rt.check(not (op["exc"] and "empty" not in state), "error-swallowed", lambda: f"{label}: {op['exc']} swallowed")
            if "empty" not in state:
                want = before + 1
                if not op["body"]:
                    rt.check(got.__dict__.get("COUNT") == want and got.__dict__.get("DONE") == want, "wrong-namespace",
                             lambda: f"{label}: COUNT is {got.__dict__.get('COUNT')}, expected {want}")
                    rt.check(got.SEEN == (got.__name__, got.__file__, got.__package__), "wrong-namespace", lambda: f"{label}: the code saw {got.SEEN}")
                    rt.check((got.DOCSEEN or None) == (doc if kind != "latin1" or op["doc"] != "none" else None) or not (got.DOCSEEN or doc), "wrong-docstring",
                             lambda: f"{label}: the code saw the docstring {got.DOCSEEN!r}, expected {doc!r}")
                    if op["what"] == "macro":
                        rt.check(got.MAC == state["macro"], "wrong-macro", lambda: f"{label}: MAC is {got.MAC}, expected {state['macro']}")
                    if op["what"] == "phases":
                        rt.check(got.PM == "pm" and got.__phase__ == 0, "wrong-macro", lambda: f"{label}: phases went wrong")
            if not op["body"]:
                if kind == "latin1" and op["doc"] == "none" and op["what"] != "empty":
                    doc = None
                if op.get("setdoc") and "empty" not in state:
                    doc = "own"
                rt.check(got.__doc__ == doc or (doc == "" and not got.__doc__), "wrong-docstring", lambda: f"{label}: the docstring is {got.__doc__!r}, expected {doc!r}")
            rt.event(f"{label} -> ok")
        else:
            if target == "none":
                # a failing run may leave its own new module
                new = [n for n in set(sys.modules) - names if n not in reg and n.startswith("dynamically_created_module")]
                for n in new:
                    reg[n] = see(sys.modules[n])
            mine = getattr(err, "_planned", None) is not None
            if mine or (fired and nested_fired):
                rt.nontrivial = True
                if mine and m is not None and not op["body"] and state["nest"]:
                    doc = "own" if op.get("setdoc") else doc
                    rt.check(m.__doc__ == doc or not (m.__doc__ or doc), "wrong-docstring",
                             lambda: f"{label}: the docstring after the failure is {m.__doc__!r}, expected {doc!r}")
            elif op["what"] == "relative" and expected is None and not fired:
                # depends on what was done to the package
                rt.check(isinstance(err, ImportError), f"fails-{type(err).__name__}", lambda: f"{label}: {err!r}")
            elif op["what"] == "phases" and m is not None and "." in m.__name__ and m.__name__.rsplit(".", 1)[0] not in reg and isinstance(err, ModuleNotFoundError):
                rt.probe("multi-phase-orphan")
            else:
                expect_failure(err, expected, fired, label)
            rt.event(f"{label} -> {type(err).__name__}")
        if op["what"] == "relative":
            adopt()
