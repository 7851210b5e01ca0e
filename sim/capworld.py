"""C05: hygienic captures never alias and never go stale."""
import ast
import copy
import gc
import importlib
import io
import marshal
import os
import sys

from . import core, sched
from .inproc import InProcWorld

VALS = '''
import _sim
class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)
class EqObj(Obj):
    def __eq__(self, other):
        return isinstance(other, EqObj)
    def __hash__(self):
        return 1
class Slots:
    __slots__ = ("a", "b")
class Pt(Obj):
    def __getstate__(self):
        _sim.point("getstate")
        return dict(self.__dict__)
    def __setstate__(self, d):
        _sim.point("setstate")
        self.__dict__.update(d)
class SubList(list):
    pass
def fun(x):
    return x
'''

FACTORY = '''
from mcpyrate.quotes import macros, q, h, a, u
from mcpyrate.quotes import capture_value
def one(x):
    return q[h[x]]
def two(x, y):
    return q[(h[x], h[y])]
def attr(o):
    return q[h[o.payload]]
def block(x):
    with q as quoted:
        OUT.append(h[x])
    return quoted
def nested(x):
    return q[(lambda v=h[x]: v)()]
def api(x):
    return capture_value(x, "x")
def same(xs):
    return q[(a[[q[h[x]] for x in xs]],)]
'''

MUTABLE = ("list", "dict", "set", "bytearray", "Obj", "EqObj", "Slots", "Pt", "SubList")


def canon(x, seen=None, ids=None):
    """A value's structure, as plain data, cycles and sharing included."""
    seen = {} if seen is None else seen
    t = type(x).__name__
    if t in MUTABLE or t in ("tuple", "frozenset"):
        if id(x) in seen:
            return ("ref", seen[id(x)])
        if t in MUTABLE:
            seen[id(x)] = len(seen)
            if ids is not None:
                ids.append(x)
    if t in ("list", "tuple", "SubList"):
        return (t, *[canon(y, seen, ids) for y in x])
    if t in ("set", "frozenset"):
        return (t, *sorted((canon(y, seen, ids) for y in x), key=repr))
    if t == "dict":
        return (t, *[(canon(k, seen, ids), canon(v, seen, ids)) for k, v in x.items()])
    if t in ("Obj", "EqObj", "Pt"):
        return (t, canon(x.__dict__, seen, None))
    if t == "Slots":
        return (t, canon(x.a, seen, ids), canon(x.b, seen, ids))
    if t == "bytearray":
        return (t, bytes(x))
    if t in ("function", "type"):
        return (t, x.__module__, x.__qualname__)
    return (t, repr(x))


class C05(InProcWorld):
    id = "C05"
    quick_runs = 3000
    thorough_runs = 100000
    rule = ("each run draws a history of hygienic captures (of small mutable and immutable, often equal, values, through quotes, blocks and the API, and of macros of the "
            "same name, also of reloaded modules), discards, garbage collections, compilations of several captures into one code object, copies through marshal and byte code, runs, re-runs, "
            "changes of the captured or thawed objects, and parallel runs in threads with a schedule by line; non-trivial: at least two captures were run, and one of "
            "them again or in another thread")
    real = InProcWorld.real + ["CPython's allocator and garbage collector, pickle, marshal"]
    stubs = InProcWorld.stubs + ["thread switches: decided at line events of mcpyrate"]

    def gen_val(self, rng, depth=2):
        k = rng.choice(("int", "str", "none", "list", "list", "dict", "set", "bytearray", "obj", "obj", "eq", "slots", "tuple", "fun", "cls", "float", "big", "pt", "shared", "cycle", "frozenset", "sublist", "bytes", "empty", "empty"))
        small = rng.randint(0, 2)
        if depth <= 0 and k in ("list", "dict", "obj", "tuple", "slots", "pt", "shared", "sublist"):
            k = "empty"
        if k in ("list", "tuple", "sublist"):
            return [k, [self.gen_val(rng, depth - 1) for _ in range(small)]]
        if k == "dict":
            return [k, [[f"k{i}", self.gen_val(rng, depth - 1)] for i in range(small)]]
        if k in ("obj", "slots", "pt", "shared", "eq"):
            return [k, self.gen_val(rng, depth - 1)]
        return [k, small]

    def gen(self, rng, index):
        ops = []
        ncap = ncode = 0
        pool = [self.gen_val(rng) for _ in range(rng.randint(1, 4))]   # equal values are frequent
        threads = rng.random() < 0.35
        nmac = rng.choice((0, 0, 2, 3))

        def run_op():
            return {"op": "run", "code": rng.randrange(max(1, ncode)), "hold": rng.random() < 0.6, "mutate": rng.random() < 0.3}

        def cap_op():
            how = rng.choice(("one", "one", "one", "two", "attr", "block", "nested", "api", "same"))
            n = 2 if how == "two" else rng.randint(0, 3) if how == "same" else 1
            return {"op": "cap", "how": how, "vals": [rng.choice(pool) if rng.random() < 0.6 else self.gen_val(rng) for _ in range(n)],
                    "after": rng.choice(("keep", "drop", "drop", "mutate", "same-object"))}
        for _ in range(rng.randint(4, 30)):
            r = rng.random()
            if r < 0.35 or ncap == 0:
                ops.append(cap_op())
                ncap += 1
            elif r < 0.42 and nmac:
                ops.append({"op": "mac", "seq": [rng.randrange(nmac) for _ in range(rng.randint(1, 3))], "how": rng.choice(("q", "q", "api"))})
                ncap += 1
            elif r < 0.6:
                ops.append({"op": "code", "caps": [rng.randrange(ncap) for _ in range(rng.choice((1, 1, 2, 3, 6)))], "how": rng.choice(("dyn", "ast", "text", "import")),
                            "marshal": rng.random() < 0.4, "wrap": rng.choice(("plain", "function", "loop", "class"))})
                ncode += 1
            elif r < 0.9 and ncode:
                if threads and rng.random() < 0.6:
                    tasks = []
                    for _ in range(rng.choice((2, 2, 3))):
                        tasks.append([run_op() if rng.random() < 0.8 else cap_op() for _ in range(rng.randint(1, 3))])
                    if rng.random() < 0.5:      # all start with the same code
                        for t in tasks[1:]:
                            t[0] = dict(tasks[0][0])
                    ops.append({"op": "threads", "tasks": tasks, "sched": [[rng.choice((1, 2, 3, 5, 8, 20, 60)), rng.randrange(3)] for _ in range(rng.randint(1, 40))]})
                else:
                    ops.append(run_op())
            elif r < 0.92:
                ops.append({"op": "gc"})
            elif r < 0.935:
                ops.append({"op": "flood", "n": rng.choice((20, 70, 130, 260, 520, 1100)), "val": self.gen_val(rng)})
            elif r < 0.96 and nmac:
                ops.append({"op": "remac", "mac": rng.randrange(nmac)})
            elif ncode:
                ops.append({"op": rng.choice(("dropcode", "reimport")), "code": rng.randrange(ncode)})
            if rng.random() < 0.08:
                ops[-1]["faults"] = [{"at": rng.choice(("getstate", "setstate", "*")), "n": rng.choice((0, 0, 1, 2)), "exc": rng.choice(("ValueError", "KeyboardInterrupt", "AttributeError", "MemoryError"))}]
        return {"ops": ops, "nmac": nmac, "faults": [], "write_bytecode": rng.random() < 0.6}

    def shrink(self, spec):
        ops = spec["ops"]
        for i in range(len(ops)):       # capture and code operations are numbered, so replace them by nothing
            if ops[i]["op"] in ("cap", "mac", "code"):
                yield {**spec, "ops": ops[:i] + [{"op": "skip-code" if ops[i]["op"] == "code" else "skip-cap"}] + ops[i + 1:]}
            else:
                yield {**spec, "ops": ops[:i] + ops[i + 1:]}
        while ops and ops[-1]["op"].startswith("skip"):
            ops = ops[:-1]
        yield {**spec, "ops": ops}
        for i, op in enumerate(ops):
            for key in ("faults", "caps", "tasks", "sched"):
                if op.get(key):
                    for y in core.drop_each(op[key]):
                        if y or key == "faults":
                            yield {**spec, "ops": ops[:i] + [{**op, key: y}] + ops[i + 1:]}
            for j, v in enumerate(op.get("vals", ())):
                if v != ["empty", 0]:
                    yield {**spec, "ops": ops[:i] + [{**op, "vals": op["vals"][:j] + [["empty", 0]] + op["vals"][j + 1:]}] + ops[i + 1:]}
            for key, v in (("how", "one"), ("how", "dyn"), ("wrap", "plain"), ("marshal", False), ("mutate", False)):
                if op.get(key) not in (None, v) and (key != "how" or (op["op"] == "cap") == (v == "one")) and op["op"] != "mac":
                    if op["op"] == "cap" and len(op["vals"]) != 1:
                        continue
                    yield {**spec, "ops": ops[:i] + [{**op, key: v}] + ops[i + 1:]}

    def build(self, v, vals):
        k, x = v
        b = lambda y: self.build(y, vals)  # noqa: E731
        if k == "int": return x
        if k == "big": return 10**20 + x
        if k == "float": return x + 0.5
        if k == "str": return f"s{x}"
        if k == "bytes": return b"b" * x
        if k == "none": return None
        if k == "list": return [b(y) for y in x]
        if k == "sublist": return vals.SubList(b(y) for y in x)
        if k == "tuple": return tuple(b(y) for y in x)
        if k == "dict": return {kk: b(y) for kk, y in x}
        if k == "set": return set(range(x))
        if k == "frozenset": return frozenset(range(x))
        if k == "bytearray": return bytearray(x)
        if k == "obj": return vals.Obj(a=b(x))
        if k == "eq": return vals.EqObj(a=b(x))
        if k == "pt": return vals.Pt(a=b(x))
        if k == "slots":
            o = vals.Slots()
            o.a, o.b = b(x), 1
            return o
        if k == "shared":
            inner = b(x)
            return [inner, inner, [inner]]
        if k == "cycle":
            out = [x]
            out.append(out)
            return out
        if k == "fun": return vals.fun
        if k == "cls": return vals.Obj
        if k == "empty": return ([], {}, set())[x % 3]
        raise core.HarnessError(k)

    @staticmethod
    def mutate(x, mark):
        t = type(x).__name__
        if t in ("list", "SubList"):
            x.append(mark)
        elif t == "dict":
            x[mark] = mark
        elif t == "set":
            x.add(mark)
        elif t == "bytearray":
            x.extend(mark.encode())
        elif t in ("Obj", "EqObj", "Pt"):
            x.__dict__[mark] = mark
        elif t == "Slots":
            x.b = mark
        else:
            return False
        return True

    def inproc(self, rt, spec):
        rt.write("capvals.py", VALS)
        rt.write("capfac.py", FACTORY)
        vers = [0] * spec["nmac"]

        def write_mac(i):
            rt.write(f"mm{i}.py", f"import ast\ndef mac(tree, **kw):\n    return ast.Tuple(elts=[ast.Constant(value='m{i}.{vers[i]}'), tree])\n")
        for i in range(spec["nmac"]):
            write_mac(i)
            rt.write(f"mf{i}.py", f"from mcpyrate.quotes import macros, q, h, a\nfrom mm{i} import macros, mac\ndef make(tree):\n    return q[h[mac][a[tree]]]\n")
        rt.quiet += 1
        import capvals
        import capfac
        from mcpyrate import compiler
        from mcpyrate import unparse
        from mcpyrate.quotes import capture_as_macro, capture_value
        facs = []
        for i in range(spec["nmac"]):
            facs.append((importlib.import_module(f"mf{i}").make, importlib.import_module(f"mm{i}").mac))
        rt.quiet -= 1

        rt.child.sim.outs = {}
        caps = []       # (ast pieces, sites or None)   sites: list of site numbers
        sites = []      # {"canon":, "held": object or None, "first": canon at capture}
        codes = []      # {"code":, "caps": [...], "module": name or None}
        kept = []
        nruns = [0]

        def capture(op, label):
            vals = [self.build(v, capvals) for v in op["vals"]]
            if op["after"] == "same-object" and vals:
                vals = [vals[0]] * len(vals)
            wants = [canon(v) for v in vals]
            how = op["how"]
            try:
                if how == "attr":
                    tree = capfac.attr(capvals.Obj(payload=vals[0]))
                elif how == "same":
                    tree = capfac.same(vals)
                else:
                    tree = getattr(capfac, how)(*vals)
            except core.Violation:
                raise
            except BaseException as err:
                if not hasattr(err, "_injected"):
                    raise
                rt.event(f"{label}: capture fails")
                return (None, [])
            mine = []
            for w in wants:
                sites.append({"canon": w, "held": None})
                mine.append(len(sites) - 1)
            if op["after"] == "keep":
                kept.append(vals)
            elif op["after"] == "mutate":
                for v in vals:
                    self.mutate(v, f"after{len(sites)}")
                kept.append(vals)
            del vals
            if how in ("two", "same"):
                stmts = [ast.Expr(ast.Call(ast.Attribute(ast.Name("OUT", ast.Load()), "extend", ast.Load()), [tree], []))]
            elif how == "block":
                stmts = tree
            else:
                stmts = [ast.Expr(ast.Call(ast.Attribute(ast.Name("OUT", ast.Load()), "append", ast.Load()), [tree], []))]
            return (stmts, mine)

        def execute(op, label):
            """Returns [(site, object)]"""
            if not codes:
                return []
            c = codes[op["code"] % len(codes)]
            if c is None or not c["caps"]:
                return []
            ns = {"OUT": []}
            try:
                exec(c["code"], ns)
            except core.Violation:
                raise
            except BaseException as err:
                if not hasattr(err, "_injected"):
                    raise
                rt.event(f"{label}: run fails")
                return None
            want = [s for k in c["caps"] for s in (caps[k][1] if caps[k][0] is not None else ())]
            want = want * c["times"]
            got = ns["OUT"]
            rt.check(len(got) == len(want), "lost", lambda: f"{label}: {len(got)} values from {len(want)} captures")
            return list(zip(want, got))

        def verify(pairs, op, label):
            for s, x in pairs:
                if isinstance(s, tuple):
                    rt.check(x == s, "wrong-macro", lambda: f"{label}: captured macros gave {x!r}, expected {s!r}")
                    continue
                nruns[0] += 1
                ids = []
                c = canon(x, None, ids)
                rt.check(c == sites[s]["canon"], "wrong-value", lambda: f"{label}: capture {s} gave {c!r}, expected {sites[s]['canon']!r}")
                if ids or type(x).__name__ in MUTABLE:
                    h = sites[s]["held"]
                    rt.check(h is None or h is x, "identity", lambda: f"{label}: capture {s} gave another object than before")
                    mine = {id(y) for y in ids}
                    for o, site in enumerate(sites):
                        if o != s and site["held"] is not None:
                            other = []
                            canon(site["held"], None, other)
                            rt.check(not mine & {id(y) for y in other}, "aliased", lambda: f"{label}: captures {s} and {o} share an object")
                    if op["hold"]:
                        sites[s]["held"] = x
            if op["mutate"]:
                for s, x in pairs:
                    if not isinstance(s, tuple) and self.mutate(x, f"mark{nruns[0]}"):
                        sites[s]["canon"] = canon(x)
                        for o, site in enumerate(sites):
                            if o != s and site["held"] is not None:
                                rt.check(canon(site["held"]) == site["canon"], "aliased", lambda: f"{label}: a change of capture {s} changed capture {o}")
            rt.event(f"{label}: {[s for s, _ in pairs]} ok")

        def compile_op(op, label):
            body = []
            for k in op["caps"]:
                if caps[k][0] is not None:
                    body += copy.deepcopy(caps[k][0])
            if not body:
                return {"code": None, "caps": [], "module": None, "times": 1}
            times = 1
            if op["wrap"] == "function":
                times = 2
                body = [ast.FunctionDef("f", ast.arguments([], [], None, [], [], None, []), body, [], **({"type_params": []} if sys.version_info >= (3, 12) else {})),
                        *ast.parse("f(); f()").body]
            elif op["wrap"] == "loop":
                times = 2
                body = [ast.For(ast.Name("i", ast.Store()), ast.Tuple([ast.Constant(1), ast.Constant(2)], ast.Load()), body, [])]
            elif op["wrap"] == "class":
                body = [ast.ClassDef("K", [], [], body, [], **({"type_params": []} if sys.version_info >= (3, 12) else {}))]
            module = None
            name = f"code{len(codes)}"
            if op["how"] == "dyn":
                code = compiler.compile(body, "<captures>")
            elif op["how"] == "ast":
                from mcpyrate.astfixers import fix_ctx
                tree = ast.fix_missing_locations(fix_ctx(ast.Module(body, []), copy_seen_nodes=True))
                code = compiler.compile(tree, os.path.join(rt.src, f"{name}.py"))
            elif op["how"] == "text":
                code = compiler.compile(unparse(ast.Module(body, [])), "<captures>")
            else:
                rt.write(f"{name}.py", "OUT = __import__('_sim').outs[__import__('_thread').get_ident()]\n" + unparse(ast.Module(body, [])))
                code = None
                module = name
            if module is not None:
                code = compile_import(name)
            elif op["marshal"]:
                code = marshal.loads(marshal.dumps(code))
            return {"code": code, "caps": list(op["caps"]), "module": module, "times": times}

        def compile_import(name):
            path = os.path.join(rt.src, f"{name}.py")
            src = (f"import _sim, _thread, importlib.util\n_sim.outs[_thread.get_ident()] = OUT\nspec = importlib.util.spec_from_file_location({name!r}, {path!r})\n"
                   f"m = importlib.util.module_from_spec(spec)\nspec.loader.exec_module(m)\n")
            return compile(src, "<import>", "exec")

        for no, op in enumerate(spec["ops"]):
            label = f"{no} {op['op']}"
            rt.set_plan(op.get("faults", ()))
            kind = op["op"]
            if kind == "cap":
                caps.append(capture(op, label))
                rt.event(f"{label} {op['how']} {caps[-1][1]}")
            elif kind == "skip-cap":
                caps.append((None, []))
            elif kind == "skip-code":
                codes.append(None)
            elif kind == "mac":
                tree = ast.Constant("x")
                want = "x"
                for i in reversed(op["seq"]):
                    i %= len(facs)
                    if op["how"] == "q":
                        tree = facs[i][0](tree)
                    else:
                        tree = ast.Subscript(capture_as_macro(facs[i][1]), tree, ast.Load())
                    want = (f"m{i}.{vers[i]}", want)
                caps.append(([ast.Expr(ast.Call(ast.Attribute(ast.Name("OUT", ast.Load()), "append", ast.Load()), [tree], []))], [want]))
                rt.event(f"{label} {op['seq']}")
            elif kind == "code":
                # expansion happens here: the macro must be found, whatever was captured since
                codes.append(compile_op(op, label))
                rt.event(f"{label} {op['caps']} {op['how']}")
            elif kind == "run":
                r = execute(op, label)
                if r is not None:
                    verify(r, op, label)
                del r
            elif kind == "gc":
                gc.collect()
            elif kind == "flood":       # many captures that nobody looks at again
                rt.quiet += 1
                elts = [capture_value(self.build(op["val"], capvals), "x") for _ in range(op["n"])]
                exec(compiler.compile([ast.Expr(ast.Tuple(elts=elts, ctx=ast.Load()))], "<flood>"), {})
                rt.quiet -= 1
                rt.event(f"{label} {op['n']}")
            elif kind == "remac":       # from now on, captures of this macro mean its new version
                i = op["mac"] % len(facs)
                vers[i] += 1
                write_mac(i)
                rt.quiet += 1
                try:
                    facs[i] = (None, importlib.reload(sys.modules[f"mm{i}"]).mac)
                    facs[i] = (importlib.reload(sys.modules[f"mf{i}"]).make, facs[i][1])
                finally:
                    rt.quiet -= 1
                rt.event(f"{label} m{i}.{vers[i]}")
            elif kind == "dropcode":
                i = op["code"] % len(codes) if codes else None
                if i is not None and codes[i] is not None:
                    codes[i] = None
            elif kind == "reimport":
                gc.collect()
            elif kind == "threads":
                s = sched.Sched([os.path.join(core.REPO, "mcpyrate"), rt.src], op["sched"])
                outs = []
                for t, todo in enumerate(op["tasks"]):
                    def body(t=t, todo=todo):
                        out = []
                        for o in todo:
                            out.append((o, execute(o, f"{label}.{t}") if o["op"] == "run" else capture(o, f"{label}.{t}")))
                        return out
                    s.add(body)
                tasks = s.run()
                outs = [(t.no, t.result, t.error) for t in tasks]
                rt.steps += s.steps
                rt.fault("thread-switch", s.switches)
                for t, _, err in outs:
                    if isinstance(err, core.Violation):
                        raise err
                rt.check(s.failed is None, "deadlock", lambda: f"{label}: {s.failed}")
                for t, _, err in outs:
                    if err is not None:
                        raise err
                # the first thing each thread saw must agree, and be what was captured
                runs = []
                for t, out, _ in outs:
                    for j, (o, r) in enumerate(out):
                        if o["op"] == "run" and r is not None:
                            runs.append((r, o, f"{label}.{t}.{j}"))
                for r, o, lab in runs:
                    verify(r, {"hold": True, "mutate": False}, lab)
                for t, out, _ in outs:
                    for j, (o, r) in enumerate(out):
                        if o["op"] == "cap" and r[0] is not None:
                            # run them at once
                            code = compiler.compile(copy.deepcopy(r[0]), "<captures>")
                            ns = {"OUT": []}
                            rt.quiet += 1
                            exec(code, ns)
                            rt.quiet -= 1
                            verify(list(zip(r[1], ns["OUT"])), {"hold": True, "mutate": False}, f"{label}.{t}.{j}")
                if s.switches > 1:
                    rt.nontrivial = True
                    rt.probe("threads-switched")
        # everything once more
        rt.set_plan(())
        for i, c in enumerate(codes):
            if c is not None and c["caps"]:
                for _ in range(2):
                    verify(execute({"code": i}, f"final {i}"), {"hold": True, "mutate": False}, f"final {i}")
        rt.probe("captures", len(sites))
        if nruns[0] > 2:
            rt.nontrivial = True
