"""C04: hygienic captures survive restarts from byte code."""
import ast
import copy
import fnmatch
import importlib
import os
import re
import sys

from . import core, proc
from .importworld import T0, describe

VALS = '''
import _sim, enum, functools, collections
class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)
    def meth(self):
        return "meth"
class Slots:
    __slots__ = ("a", "b")
    def __init__(self, a, b):
        self.a, self.b = a, b
class Pt(Obj):
    def __getstate__(self):
        _sim.point("pickle")
        return dict(self.__dict__)
    def __setstate__(self, d):
        _sim.point("unpickle")
        self.__dict__.update(d)
class Outer:
    class Inner(Obj):
        pass
class Red:
    def __init__(self, x, y):
        self.x, self.y = x, y
    def __reduce__(self):
        return (Red, (self.x, self.y))
class Color(enum.Enum):
    RED = 1
    BLUE = 2
NT = collections.namedtuple("NT", "a b")
class MyErr(Exception):
    pass
class SubStr(str):
    pass
def fun(x=None):
    return ("fun", x)
'''


def canon(x, seen=None):
    """A value's structure as plain data, cycles and sharing included."""
    seen = {} if seen is None else seen
    t = type(x).__name__
    if t in ("list", "dict", "set", "bytearray", "Obj", "Slots", "Pt", "Inner", "Red", "deque"):
        if id(x) in seen:
            return ("ref", seen[id(x)][0])
        seen[id(x)] = (len(seen), x)
    if t in ("list", "tuple", "deque"):
        return (t, *[canon(y, seen) for y in x])
    if t == "NT":
        return (t, canon(x.a, seen), canon(x.b, seen))
    if t in ("set", "frozenset"):
        return (t, *sorted((repr(canon(y, seen)) for y in x)))
    if t in ("dict", "OrderedDict"):
        return (t, *[(canon(k, seen), canon(v, seen)) for k, v in x.items()])
    if t in ("Obj", "Pt", "Inner"):
        return (t, canon(x.__dict__, seen))
    if t == "Slots":
        return (t, canon(x.a, seen), canon(x.b, seen))
    if t == "Red":
        return (t, canon(x.x, seen), canon(x.y, seen))
    if t == "bytearray":
        return (t, bytes(x))
    if t in ("function", "type", "EnumType", "builtin_function_or_method"):
        return (t, x.__module__, x.__qualname__)
    if t == "method":
        return (t, canon(x.__self__, seen), x.__func__.__qualname__)
    if t == "MyErr":
        return (t, canon(x.args, seen))
    if isinstance(x, ast.AST):
        return (t, ast.dump(x))
    if t == "partial":
        return (t, canon(x.func, seen), canon(x.args, seen), canon(x.keywords, seen))
    return (t, repr(x))


KINDS = ("int", "str", "text", "none", "list", "list", "dict", "dict", "set", "frozenset", "bytearray", "obj", "obj", "pt", "slots", "inner", "red", "enum", "nt", "tuple",
         "fun", "cls", "builtin", "float", "nan", "big", "complex", "shared", "cycle", "bytes", "longbytes", "ellipsis", "partial", "bound", "exc", "ast", "deque", "range", "substr",
         "empty", "path")
HOWS = ("local", "global", "attr", "item", "call", "expr", "method", "api", "block", "nested")
FORMS = ("expr", "block", "deco", "name", "param")
UNPICKLABLE = ("lambda", "module", "generator")


def gen_val(rng, depth=2):
    k = rng.choice(KINDS)
    if k in ("list", "tuple", "deque"):
        return [k, [gen_val(rng, depth - 1) for _ in range(rng.randint(0, 3))]] if depth else ["empty", 0]
    if k == "dict":
        return [k, [gen_val(rng, depth - 1) for _ in range(rng.randint(0, 3))]] if depth else ["empty", 1]
    if k in ("obj", "pt", "slots", "inner", "red", "shared", "nt", "partial", "exc"):
        return [k, gen_val(rng, depth - 1) if depth else ["epoch", 0]]
    return [k if rng.random() < 0.7 else "epoch", rng.randint(0, 3)]


BUILD = r'''
def build(v, E):
    """Makes a value from its description. Part of it depends on the process: `E`."""
    k, x = v
    b = lambda y: build(y, E)
    if k == "epoch": return f"epoch{E}"
    if k == "int": return x
    if k == "str": return f"s{x}"
    if k == "text": return ("\u00e9\u4e2d\U0001f600\ud800", "a\\'\"\n\r\t\0", "{x}", "%s \\N{DASH}")[x % 4]
    if k == "none": return None
    if k == "list": return [b(y) for y in x] + [E]
    if k == "tuple": return tuple(b(y) for y in x)
    if k == "deque": return collections.deque([b(y) for y in x])
    if k == "dict": return {f"k{i}": b(y) for i, y in enumerate(x)} | {"E": E}
    if k == "set": return {E, x}
    if k == "frozenset": return frozenset((E, x))
    if k == "bytearray": return bytearray(f"ba{E}", "ascii")
    if k == "obj": return vals.Obj(a=b(x), E=E)
    if k == "pt": return vals.Pt(a=b(x), E=E)
    if k == "inner": return vals.Outer.Inner(a=b(x))
    if k == "slots": return vals.Slots(b(x), E)
    if k == "red": return vals.Red(b(x), E)
    if k == "nt": return vals.NT(b(x), E)
    if k == "enum": return (vals.Color.RED, vals.Color.BLUE)[E % 2]
    if k == "fun": return vals.fun
    if k == "cls": return (vals.Obj, vals.Outer.Inner, int, ValueError)[x % 4]
    if k == "builtin": return (len, print, sorted, ast.dump)[x % 4]
    if k == "float": return E + 0.1
    if k == "nan": return (float("nan"), float("inf"), -0.0, 5e-324)[x % 4]
    if k == "big": return 10**30 + E
    if k == "complex": return complex(-0.0, E)
    if k == "bytes": return (b"", b"'\"\\\n\0\xff", b"frozen" * 3, b".")[x % 4]
    if k == "longbytes": return bytes(range(256)) * (x + 1)
    if k == "ellipsis": return (..., NotImplemented, True, None)[x % 4]
    if k == "shared":
        inner = [b(x)]
        return [inner, inner, (inner,)]
    if k == "cycle":
        out = [E]
        out.append({"me": out})
        return out
    if k == "partial": return functools.partial(vals.fun, b(x), E=E)
    if k == "bound": return vals.Obj(E=E).meth
    if k == "exc": return vals.MyErr(b(x), E)
    if k == "ast": return ast.parse(f"x{E} + {x}", mode="eval").body
    if k == "range": return range(E)
    if k == "substr": return vals.SubStr(f"sub{E}").lower()
    if k == "path": return pathlib.PurePosixPath(f"/a/{E}")
    if k == "empty": return ([], {}, set(), "")[x % 4]
    if k == "lambda": return lambda: None
    if k == "module": return vals
    if k == "generator": return (i for i in ())
    raise RuntimeError(k)
'''


def indent(text, n=4):
    return "".join(" " * n + line + "\n" for line in text.rstrip("\n").split("\n"))


# -------------------------------------------------------------------------------- source texts

def modname(name):
    return name


def inner_text(tree, name):
    """A module that defines macros of all kinds, to be captured by others."""
    m = tree[name]
    out = ["import ast, _sim\nfrom mcpyrate import parametricmacro, namemacro\n"]
    out.append(f"_sim.point('load:{name}')\n")
    out.append(f"TAG = {name!r}\n")
    body = '''
def tagged(*parts):
    return ast.Tuple(elts=[ast.Constant(TAG), *parts], ctx=ast.Load())
def f(tree, **kw):
    _sim.point("macro")
    return tagged(tree)
def b(tree, **kw):
    return [ast.Expr(ast.Call(ast.Attribute(ast.Name("GOT", ast.Load()), "append", ast.Load()), [ast.Constant(TAG)], []))] + tree
def d(tree, **kw):
    tree.body = [ast.Return(tagged(ast.Constant("deco")))]
    return tree
@namemacro
def n(tree, **kw):
    return tagged(ast.Constant("name"))
@parametricmacro
def p(tree, *, args, **kw):
    return tagged(ast.Constant(len(args)), tree)
'''
    if m.get("ns"):
        # the macros are in a class, and something else has their names
        head, defs = body.split("def f(", 1)
        defs = re.sub(r"^def (\w)\(", r"def \1_(", "def f(" + defs, flags=re.MULTILINE)
        body = head + "class NS:\n" + "".join(f"    {x}\n" for x in defs.rstrip("\n").split("\n"))
        body += "def decoy(tree, **kw):\n    return ast.Constant('decoy')\nf_ = b_ = d_ = n_ = p_ = decoy\nf, b, d, n, p = NS.f_, NS.b_, NS.d_, NS.n_, NS.p_\n"
    out.append(body)
    if m.get("recursive"):
        out.append('''
from mcpyrate.quotes import capture_as_macro
def r(tree, **kw):
    if tree.value <= 0:
        return tagged(ast.Constant("end"))
    return tagged(ast.Subscript(value=our_r, slice=ast.Constant(tree.value - 1), ctx=ast.Load()))
our_r = capture_as_macro(r)
''')
    return "".join(out)


WRAPS = ("expands", "expandsq", "expand1s", "expand1sq", "expandr", "expandrq", "expand1r", "expand1rq")


def quoted(wrap, expr):
    """A quote, perhaps passed through a macro that expands quotes."""
    if not wrap:
        return f"q[{expr}]"
    return f"{wrap}[{expr}]" if wrap.endswith("q") else f"{wrap}[q[{expr}]]"


LETTER = {"expr": "f", "block": "b", "deco": "d", "name": "n", "param": "p", "recursive": "r"}


def provider_text(tree, name):
    """A macro module whose macros capture values and macros."""
    m = tree[name]
    imports, defs = [], []
    for i, c in enumerate(m["caps"]):
        mname = f"c{i}_{name.rsplit('.', 1)[-1]}"
        if c["kind"] == "value":
            how = c["how"]
            desc = repr(c["val"])
            fresh = f"build({desc}, _sim.epoch)" if not c.get("global") else f"STATE{i}"
            if c.get("global"):
                defs.append(f"STATE{i} = build({desc}, _sim.epoch)\n")
            expr, pre = "x", f"x = {fresh}\n"
            if how == "global":
                expr, pre = f"STATE{i}", f"x = {f'STATE{i}'}\n"
                if not c.get("global"):
                    defs.append(f"STATE{i} = build({desc}, _sim.epoch)\n")
            elif how == "attr":
                pre = f"x = {fresh}\nholder = vals.Obj(payload=x)\n"
                expr = "holder.payload"
            elif how == "item":
                pre = f"x = {fresh}\nholder = {{'k': [x]}}\n"
                expr = "holder['k'][0]"
            elif how == "call":
                pre = f"x = build({desc}, _sim.epoch)\n"
                expr = f"build({desc}, _sim.epoch)"
            elif how == "expr":
                pre = f"y = {fresh}\nx = [y, y]\n"
                expr = "[y, y]"
            elif how == "method":
                pre = f"y = vals.Obj(q={fresh})\nx = y.meth\n"
                expr = "y.meth"
            body = [pre, "want = ast.Constant(repr(canon(x)))\n", "ep = ast.Constant(_sim.epoch)\n"]
            if how == "api":
                body.append("from mcpyrate.quotes import capture_value\nvalue = capture_value(x, 'some name')\nout = " + quoted(c.get("wrap"), "(a[want], a[value], a[ep])") + "\n")
            elif how == "block":
                body.append("with q as quoted:\n    TMP = (a[want], h[x], a[ep])\nout = quoted[0].value\n")
            elif how == "nested":
                body.append("out = " + quoted(c.get("wrap"), "(lambda: (a[want], (lambda v=h[x]: v)(), a[ep]))()") + "\n")
            else:
                body.append("out = " + quoted(c.get("wrap"), f"(a[want], h[{expr}], a[ep])") + "\n")
            # what happens afterwards to the captured object does not matter
            body.append("spoil(x)\n" if not c.get("global") and how != "global" else "")
            body.append("return out\n")
            defs.append(f"def {mname}(tree, *, expander=None, **kw):\n    _sim.point('macro')\n{indent(''.join(body))}")
        else:
            to, form = c["to"], c["form"]
            letter = LETTER[form]
            alias = c.get("alias") or f"{letter}_{i}"
            frm = to
            imports.append(f"from {frm} import macros, {letter} as {alias}\n")
            if form in ("expr", "recursive"):
                ret = f"return {quoted(c.get('wrap'), f'h[{alias}][a[tree]]')}\n"
            elif form == "name":
                ret = f"return {quoted(c.get('wrap'), f'(h[{alias}], a[tree])')}\n"
            elif form == "param":
                ret = f"return {quoted(c.get('wrap'), f'h[{alias}][1, 2][a[tree]]')}\n"
            elif form == "block":
                ret = (f"with q as quoted:\n    with h[{alias}]:\n        with a:\n            tree\n"
                       f"return quoted\n")
            else:
                ret = f"with q as quoted:\n    @h[{alias}]\n    def deco_{i}():\n        pass\n    GOT.append(deco_{i}())\nreturn quoted + tree\n"
            defs.append(f"def {mname}(tree, **kw):\n    _sim.point('macro')\n{indent(ret)}")
    for i, c in enumerate(m["chain"]):
        stmts = tree[c["to"]]["caps"][c["cap"]].get("form") in ("block", "deco")
        # captures a macro of another provider, which captures something in turn
        j = c["cap"]
        letter = f"c{j}_{c['to'].rsplit('.', 1)[-1]}"
        imports.append(f"from {c['to']} import macros, {letter} as chained{i}\n")
        defs.append(f"def ch{i}_{name.rsplit('.', 1)[-1]}(tree, **kw):\n"
                    + (f"    with q as quoted:\n        with h[chained{i}]:\n            with a:\n                tree\n    return quoted\n" if stmts else
                       f"    return q[h[chained{i}][a[tree]]]\n"))
    spoil = '''
def spoil(x):
    t = type(x).__name__
    if t == "list": x.append("spoiled")
    elif t == "dict": x["spoiled"] = 1
    elif t == "set": x.add("spoiled")
    elif t in ("Obj", "Pt", "Inner"): x.spoiled = 1
    elif t == "Slots": x.b = "spoiled"
    elif t == "bytearray": x.extend(b"spoiled")
'''
    return "".join(["from mcpyrate.quotes import macros, q, h, a\n",
                    f"from mcpyrate.metatools import macros, {', '.join(WRAPS)}\n" if any(c.get("wrap") for c in m["caps"]) else "", *imports,
                    "import ast, _sim, vals, collections, functools, pathlib\n", f"_sim.point('load:{name}')\n",
                    "canon = _sim.canon\n", BUILD, spoil, *defs])


def gen_wrap(rng):
    return rng.choice(WRAPS) if rng.random() < 0.4 else None


def use_lines(tree, k, use):
    """Source lines that use one capture, and register what came out."""
    prov, i = use["to"], use["cap"]
    base = prov.rsplit(".", 1)[-1]
    m = tree[prov]
    if use["chain"]:
        mname = f"ch{i}_{base}"
        c = m["chain"][i]
        cap = tree[c["to"]]["caps"][c["cap"]]
    else:
        mname = f"c{i}_{base}"
        cap = m["caps"][i]
    alias = use.get("alias") or mname
    imp = f"from {prov} import macros, {mname}{f' as {alias}' if alias != mname else ''}\n"
    if cap["kind"] == "value":
        where = use.get("where", "top")
        if where == "func":
            body = f"def fn{k}():\n    return {alias}[{k}]\nOUT.append(['value', {k}, fn{k}(), fn{k}()])\n"
        elif where == "loop":
            body = f"tmp{k} = []\nfor _ in range(2):\n    tmp{k}.append({alias}[{k}])\nOUT.append(['value', {k}, *tmp{k}])\n"
        elif where == "class":
            body = f"class C{k}:\n    V = {alias}[{k}]\nOUT.append(['value', {k}, C{k}.V, C{k}.V])\n"
        elif where == "default":
            body = f"def fn{k}(x={alias}[{k}]):\n    return x\nOUT.append(['value', {k}, fn{k}(), fn{k}()])\n"
        else:
            body = f"v{k} = {alias}[{k}]\nOUT.append(['value', {k}, v{k}, v{k}])\n"
        return imp, body, None
    form, tag = cap["form"], cap["to"]
    if form == "expr":
        return imp, f"OUT.append(['macro', {k}, {alias}[{k}]])\n", [tag, k]
    if form == "recursive":
        return imp, f"OUT.append(['macro', {k}, {alias}[2]])\n", [tag, [tag, [tag, "end"]]]
    if form == "name":
        return imp, f"OUT.append(['macro', {k}, {alias}[{k}]])\n", [[tag, "name"], k]
    if form == "param":
        return imp, f"OUT.append(['macro', {k}, {alias}[{k}]])\n", [tag, 2, k]
    # statements come out: use it as a statement
    return imp, f"GOT = []\nwith {alias}:\n    GOT.append({k})\nOUT.append(['macro', {k}, list(GOT)])\n", ([tag, k] if form == "block" else [[tag, "deco"], k])


def rt_lines(tree, k, use):
    """Captures in quotes that run at run time, in a user module."""
    kind = use["kind"]
    if kind == "rt-value":
        desc = repr(use["val"])
        return ("import _sim, vals\n",
                f"x{k} = _sim.build({desc}, _sim.epoch)\nwant{k} = repr(_sim.canon(x{k}))\nT{k} = q[h[x{k}]]\n_sim.spoil(x{k})\n"
                f"OUT.append(['freeze', {k}, want{k}, _sim.freeze(T{k}, want{k}, {use['keep']!r})])\n", None)
    letter = LETTER[use["form"]]
    alias = use.get("alias") or f"rtm{k}"
    imp = f"from {use['to']} import macros, {letter} as {alias}\nimport _sim\n"
    if use["form"] == "name":
        expr, want = f"(h[{alias}], {k})", [[use["to"], "name"], k]
    elif use["form"] == "param":
        expr, want = f"h[{alias}][1][{k}]", [use["to"], 1, k]
    else:
        expr, want = f"h[{alias}][{k}]", [use["to"], k]
    wrap = use.get("wrap")
    if wrap:
        imp += f"from mcpyrate.metatools import macros, {wrap}\n"
    return imp, f"OUT.append(['macro', {k}, _sim.expand_eval({quoted(wrap, expr)}, __file__)])\n", want


def user_text(tree, name):
    m = tree[name]
    head, imps, body = [f"VER = {m['ver']}\n"], [], []
    if any(u["kind"].startswith("rt") for u in m["uses"]):
        imps.append("from mcpyrate.quotes import macros, q, h, a\n")
    body.append("OUT = []\nGOT = []\n")
    if m.get("shadow"):
        # names of the macro modules' variables, captured names and libraries, with another meaning here
        body.append("x = STATE0 = STATE1 = holder = build = vals = y = lookup_value = quotes = 'shadow'\n")
        if not m.get("phases") and not any(u["kind"].startswith("rt") for u in m["uses"]):      # quotes use this name
            body.append("mcpyrate = 'shadow'\n")
    if m.get("phases"):
        # the same, with a macro defined in an earlier phase of the same module
        v = repr(m["phases"])
        head.append("from mcpyrate.multiphase import macros, phase\n")
        head.append(f'''with phase[1]:
    from mcpyrate.quotes import macros, q, h, a
    import ast, _sim
    def own(tree, **kw):
        x = _sim.build({v}, _sim.epoch)
        want = ast.Constant(repr(_sim.canon(x)))
        out = q[(a[want], h[x], a[ast.Constant(_sim.epoch)])]
        _sim.spoil(x)
        return out
''')
        imps.append("from __self__ import macros, own\n")
        body.append("OUT.append(['value', -1, own[0], None])\nOUT[-1][3] = OUT[-1][2]\n")
    for k, u in enumerate(m["uses"]):
        imp, b, _ = (rt_lines if u["kind"].startswith("rt") else use_lines)(tree, k, u)
        imps.append(imp)
        body.append(b)
    return "".join(head + imps + body + ["DONE = True\n"])


def wanted(tree, name):
    out = {}
    for k, u in enumerate(tree[name]["uses"]):
        out[k] = (rt_lines if u["kind"].startswith("rt") else use_lines)(tree, k, u)[2]
    return out


def render(tree, name):
    return {"inner": inner_text, "prov": provider_text, "user": user_text}[tree[name]["kind"]](tree, name)


def deps(tree, name):
    m = tree[name]
    out = set()
    if m["kind"] == "prov":
        out |= {c["to"] for c in m["caps"] if c["kind"] == "macro"} | {c["to"] for c in m["chain"]}
    elif m["kind"] == "user":
        out |= {u["to"] for u in m["uses"] if u.get("to")}
    return out


def closure(tree, name):
    out, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += sorted(deps(tree, n))
    return out


# -------------------------------------------------------------------------------- inside a simulated process

def plain(x):
    return [plain(y) for y in x] if isinstance(x, (tuple, list)) else x


def child_main(child, job):
    child.src = src = os.path.join(child.scratch, "src")
    sys.path.insert(0, src)
    sys.path_importer_cache.clear()
    sys.dont_write_bytecode = not job["write"]
    sys.pycache_prefix = None
    watch = job["watch"]
    child.filter = lambda cls: any(fnmatch.fnmatchcase(cls, w) for w in watch)
    child.loaded_names = tuple(job["names"])
    sim = child.sim
    sim.epoch = job["epoch"]
    sim.canon = canon
    env = {"ast": ast}
    child.busy = True
    exec("import ast, collections, functools, pathlib\n" + BUILD, env)
    child.busy = False

    def build(v, E):
        env["vals"] = importlib.import_module("vals")
        return env["build"](v, E)
    sim.build = build

    def spoil(x):
        t = type(x).__name__
        if t == "list":
            x.append("spoiled")
        elif t == "dict":
            x["spoiled"] = 1
        elif t in ("Obj", "Pt", "Inner"):
            x.spoiled = 1
    sim.spoil = spoil

    def freeze(tree, want, keep):
        """Run a captured value's code now, and perhaps store it as source text, for later processes."""
        from mcpyrate import unparse
        from mcpyrate.astfixers import fix_ctx
        text = unparse(tree)
        if keep:
            child.busy = True
            try:
                path = os.path.join(src, "frozen")
                os.makedirs(path, exist_ok=True)
                n = len([f for f in os.listdir(path) if f.endswith(".py")])
                with open(os.path.join(path, f"fz{n}.py"), "w", encoding="utf-8") as f:
                    f.write(f"WANT = {want!r}\nEPOCH = {sim.epoch}\nVALUE = {text}\nAGAIN = VALUE\n")
                os.utime(os.path.join(path, f"fz{n}.py"), (T0, T0))
            finally:
                child.busy = False
        tree = fix_ctx(ast.Expression(body=tree), copy_seen_nodes=True)
        ast.fix_missing_locations(tree)
        return eval(compile(tree, "<frozen>", "eval"), {})
    sim.freeze = freeze

    def expand_eval(tree, filename):
        from mcpyrate.expander import MacroExpander
        from mcpyrate.astfixers import fix_ctx
        from mcpyrate.core import global_postprocess
        tree = ast.Expression(body=tree)
        tree = MacroExpander({}, filename).visit(tree)
        tree = fix_ctx(global_postprocess(tree), copy_seen_nodes=True)
        ast.fix_missing_locations(tree)
        return eval(compile(tree, "<expanded>", "eval"), {})
    sim.expand_eval = expand_eval

    out = []
    for op in job["ops"]:
        importlib.invalidate_caches()
        try:
            if op[0] == "import":
                m = importlib.import_module(op[1])
                res = {"ok": report(m)}
            elif op[0] == "frozen":
                child.busy = True
                files = sorted(f for f in os.listdir(os.path.join(src, "frozen")) if f.endswith(".py")) if os.path.isdir(os.path.join(src, "frozen")) else []
                child.busy = False
                res = {"ok": []}
                for f in files:
                    m = importlib.import_module(f"frozen.{f[:-3]}")
                    res["ok"].append(["frozen", f, m.WANT, repr(canon(m.VALUE)), m.EPOCH])
            elif op[0] == "forget":
                for n in job["names"]:
                    sys.modules.pop(n, None)
                for n in [n for n in sys.modules if n.startswith("frozen.")]:
                    del sys.modules[n]
                res = {"ok": []}
            elif op[0] == "spoil":
                # the macro module goes on living
                m = sys.modules.get(op[1])
                for n in list(vars(m)) if m is not None else ():
                    if n.startswith("STATE"):
                        setattr(m, n, "something else")
                res = {"ok": []}
            else:
                raise core.HarnessError(str(op))
        except core.HarnessError:
            raise
        except BaseException as err:
            child.busy = False
            res = describe(err)
        out.append(res)
    return out


def report(m):
    out = []
    for item in m.OUT:
        if item[0] == "value":
            first, second = item[2], item[3]
            ok = isinstance(first, tuple) and len(first) == 3
            out.append(["value", item[1], first[0] if ok else repr(first), repr(canon(first[1])) if ok else "?", first[2] if ok else -1,
                        ok and isinstance(second, tuple) and (first[1] is second[1])])
        elif item[0] == "freeze":
            out.append(["freeze", item[1], item[2], repr(canon(item[3]))])
        else:
            out.append(["macro", item[1], plain(item[2])])
    return {"items": out, "ver": m.VER, "done": m.DONE}


# -------------------------------------------------------------------------------- the simulator's side

class C04(core.World):
    id = "C04"
    quick_runs = 700
    thorough_runs = 30000
    rule = ("each run draws macro modules that capture values of many kinds (depending on the process they are expanded in, and changed after the capture), captured macros of all "
            "kinds under aliases and through chains, and users with shadowed names, several phases and captures at run time, some stored as source text; then a history of process "
            "lifetimes over the same byte code, with edits, removed caches, crashes and I/O errors; each value carries an independent description of what it "
            "was when it was captured; non-trivial: a value was thawed in another process than the one that expanded it")
    real = ["mcpyrate (whole package, from /repo)", "CPython import system, pyc reader and writer, pickle, marshal", "process lifetimes (real forked processes)"]
    stubs = ["clock: `time.time` and file modification times (of sources, edits and cache files) are set by the simulator", "storage faults and crashes: injected at intercepted calls", "os.urandom: seeded"]
    assumptions = ["the classes and functions that captured values refer to stay importable in later processes"]

    # ---- generation
    def gen_tree(self, rng):
        tree = {}
        for i in range(rng.randint(1, 3)):
            tree[f"in{i}"] = {"kind": "inner", "recursive": rng.random() < 0.4, "ns": rng.random() < 0.3}
        inners = sorted(tree)
        for i in range(rng.randint(1, 3)):
            caps = [self.gen_cap(rng, tree, inners) for _ in range(rng.randint(1, 4))]
            name = f"p{i}"
            m = {"kind": "prov", "caps": caps, "chain": []}
            provs = [n for n in sorted(tree) if tree[n]["kind"] == "prov"]
            if provs and rng.random() < 0.6:
                for _ in range(rng.randint(1, 2)):
                    to = rng.choice(provs)
                    m["chain"].append({"to": to, "cap": rng.randrange(len(tree[to]["caps"]))})
            tree[name] = m
        for i in range(rng.randint(1, 3)):
            tree[f"u{i}"] = self.gen_user(rng, tree)
        return tree

    def gen_cap(self, rng, tree, inners):
        if rng.random() < 0.6:
            return {"kind": "value", "val": gen_val(rng), "how": rng.choice(HOWS), "global": rng.random() < 0.4, "wrap": gen_wrap(rng)}
        to = rng.choice(inners)
        form = rng.choice(FORMS + ("expr",) + (("recursive", "recursive") if tree[to]["recursive"] else ()))
        return {"kind": "macro", "to": to, "form": form, "alias": rng.choice((None, None, "f", "zzz")),
                "wrap": None if form == "recursive" else gen_wrap(rng)}

    def gen_user(self, rng, tree):
        provs = [n for n in sorted(tree) if tree[n]["kind"] == "prov"]
        inners = [n for n in sorted(tree) if tree[n]["kind"] == "inner"]
        uses = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.75:
                to = rng.choice(provs)
                chain = bool(tree[to]["chain"]) and rng.random() < 0.5
                n = len(tree[to]["chain"]) if chain else len(tree[to]["caps"])
                uses.append({"kind": "use", "to": to, "cap": rng.randrange(n), "chain": chain, "where": rng.choice(("top", "func", "loop", "class", "default")),
                             "alias": rng.choice((None, None, None, "f", "b", "p", "alias1"))})
            elif r < 0.88:
                uses.append({"kind": "rt-value", "val": gen_val(rng), "keep": rng.random() < 0.6})
            else:
                uses.append({"kind": "rt-macro", "to": rng.choice(inners), "form": rng.choice(("expr", "name", "param")), "alias": rng.choice((None, "f", "hh")), "wrap": gen_wrap(rng)})
        m = {"kind": "user", "uses": uses, "ver": 1, "shadow": rng.random() < 0.4}
        if rng.random() < 0.2:
            m["phases"] = gen_val(rng)
        # several macros under one name in one module: the last one wins, so keep names apart
        seen = {"q", "h", "a", "own"}
        for k, u in enumerate(uses):
            if u["kind"] == "rt-value":
                continue
            a = u.get("alias")
            if u["kind"] == "use" and a is None:
                continue
            if a is not None and a in seen:
                u["alias"] = a = f"al{k}"
            if a is None:
                a = f"rtm{k}"
            seen.add(a)
        return m

    def gen(self, rng, index):
        tree = self.gen_tree(rng)
        for n, m in tree.items():
            if m["kind"] == "prov":
                used = set()
                for i, c in enumerate(m["caps"]):
                    if c.get("alias") in used:
                        c["alias"] = None
                    used.add(c.get("alias"))
                    used.discard(None)
        ops = []
        users = [n for n in tree if tree[n]["kind"] == "user"]
        names = sorted(tree)
        for i in range(rng.randint(2, 6)):
            if i and rng.random() < 0.55:
                for _ in range(rng.choice((1, 1, 2, 3))):
                    r = rng.random()
                    if r < 0.35:
                        ops.append({"op": "edit", "mod": rng.choice(users)})
                    elif r < 0.5:
                        ops.append({"op": "touch", "mod": rng.choice(names)})
                    elif r < 0.9:
                        ops.append({"op": "rmpyc", "mod": rng.choice(names)})
                    else:
                        ops.append({"op": "rmall"})
            p = {"op": "proc", "write": rng.random() < 0.85, "ops": [], "faults": []}
            for u in rng.sample(users, rng.randint(1, len(users))):
                p["ops"].append(["import", u])
                if rng.random() < 0.15:
                    p["ops"].append(["spoil", rng.choice([n for n in tree if tree[n]["kind"] == "prov"])])
            if rng.random() < 0.35:
                p["ops"].append(["frozen"])
            if rng.random() < 0.15:
                p["ops"] += [["forget"]] + copy.deepcopy(p["ops"])
            r = rng.random()
            n = min(rng.randint(0, 12), rng.randint(0, 12))
            if r < 0.2:
                p["faults"].append({"cls": rng.choice(("open_w:pyc", "rename:pyc", "open_r:pyc", "open_r:src", "point:macro", "point:load:*", "point:pickle", "point:unpickle", "stat:src",
                                                       "close:pickle")), "n": n, "do": "crash"})
            elif r < 0.3:
                cls = rng.choice(("open_w:pyc", "rename:pyc", "open_r:pyc", "open_w:pickle", "open_r:pickle", "open_r:src"))
                p["faults"].append({"cls": cls, "n": n, "do": "err:" + rng.choice(("EIO", "ENOSPC", "EACCES", "EMFILE"))})
            elif r < 0.4:
                p["faults"].append({"cls": rng.choice(("point:macro", "point:load:*", "point:pickle", "point:unpickle", "point:unpickle")), "n": min(n, 3),
                                    "do": "raise:" + rng.choice(("ValueError", "KeyboardInterrupt", "ImportError", "AttributeError"))})
            if p["faults"] and p["faults"][0]["do"] != "crash":
                p["ops"] = p["ops"] + copy.deepcopy(p["ops"])       # tried again in the same process
            ops.append(p)
        return {"tree": tree, "ops": ops}

    def shrink(self, spec):
        ops, tree = spec["ops"], spec["tree"]
        for x in core.drop_each(ops):
            yield {**spec, "ops": x}
        for i, op in enumerate(ops):
            for key in ("ops", "faults"):
                if op.get(key):
                    for x in core.drop_each(op[key]):
                        yield {**spec, "ops": ops[:i] + [{**op, key: x}] + ops[i + 1:]}
        used = {o[1] for op in ops for o in op.get("ops", ()) if len(o) > 1} | {op["mod"] for op in ops if "mod" in op}
        keep = set()
        for n in used & set(tree):
            keep |= closure(tree, n)
        keep |= {n for n in tree if tree[n]["kind"] == "prov"} if not keep else set()
        if keep and keep != set(tree):
            yield {**spec, "tree": {n: tree[n] for n in tree if n in keep}}
        for n in tree:
            m = tree[n]
            for i, u in enumerate(m.get("uses", ())):
                if len(m["uses"]) > 1:
                    yield {**spec, "tree": {**tree, n: {**m, "uses": m["uses"][:i] + m["uses"][i + 1:]}}}
                if u.get("where", "top") != "top":
                    yield {**spec, "tree": {**tree, n: {**m, "uses": m["uses"][:i] + [{**u, "where": "top"}] + m["uses"][i + 1:]}}}
                if u.get("val") not in (None, ["epoch", 0]):
                    yield {**spec, "tree": {**tree, n: {**m, "uses": m["uses"][:i] + [{**u, "val": ["epoch", 0]}] + m["uses"][i + 1:]}}}
            for i, c in enumerate(m.get("caps", ())):
                if c.get("val") not in (None, ["epoch", 0]):
                    yield {**spec, "tree": {**tree, n: {**m, "caps": m["caps"][:i] + [{**c, "val": ["epoch", 0]}] + m["caps"][i + 1:]}}}
                if c.get("how") not in (None, "local"):
                    yield {**spec, "tree": {**tree, n: {**m, "caps": m["caps"][:i] + [{**c, "how": "local"}] + m["caps"][i + 1:]}}}
            for flag in ("shadow", "phases", "ns", "recursive"):
                if m.get(flag) and not (flag == "recursive" and any(c.get("form") == "recursive" and c["to"] == n for o in tree.values() for c in o.get("caps", ()))):
                    yield {**spec, "tree": {**tree, n: {k: v for k, v in m.items() if k != flag}}}
            if m.get("chain") and not any(u.get("chain") and u["to"] == n for o in tree.values() for u in o.get("uses", ())):
                yield {**spec, "tree": {**tree, n: {**m, "chain": []}}}
        # nothing may refer to a capture that no longer exists, so captures themselves are not dropped

    # ---- execution
    def write(self, name):
        p = os.path.join(self.src, f"{name}.py")
        tmp = os.path.join(self.ctx.scratch, "editor.tmp")
        with open(tmp, "w", encoding="utf-8") as f:
            f.write(VALS if name == "vals" else render(self.tree, name))
        os.utime(tmp, (self.now, self.now))
        os.replace(tmp, p)

    def drop_cache(self, name):
        d = os.path.join(self.src, "__pycache__")
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            if name is None or f.startswith(name + "."):
                os.unlink(os.path.join(d, f))

    def run(self, spec, ctx):
        self.ctx = ctx
        self.tree = tree = copy.deepcopy(spec["tree"])
        self.src = os.path.join(ctx.scratch, "src")
        os.makedirs(self.src)
        self.now = T0 + 1
        for n in ["vals", *tree]:
            self.write(n)
        epoch = 0
        for op in spec["ops"]:
            k = op["op"]
            if k in ("edit", "touch"):
                if op["mod"] not in tree:
                    continue
                self.now += 1
                ctx.simtime += 1
                if k == "edit" and tree[op["mod"]]["kind"] == "user":
                    tree[op["mod"]]["ver"] += 1
                self.write(op["mod"])
                ctx.event(f"{k} {op['mod']}")
            elif k == "rmpyc":
                self.drop_cache(op["mod"])
                ctx.event(f"rmpyc {op['mod']}")
            elif k == "rmall":
                self.drop_cache(None)
                ctx.event("rmall")
            else:
                epoch += 1
                self.do_proc(op, epoch)
        for i in range(2):
            epoch += 1
            users = [n for n in sorted(tree) if tree[n]["kind"] == "user"]
            self.do_proc({"ops": [["import", u] for u in users] + [["frozen"]], "write": True, "faults": []}, epoch)

    def do_proc(self, op, epoch):
        ctx, tree = self.ctx, self.tree
        faults = [dict(f, seen=0) for f in op["faults"]]
        job = {"ops": [o for o in op["ops"] if len(o) < 2 or o[1] in tree], "write": op["write"], "epoch": epoch, "names": sorted(tree),
               "watch": sorted({f["cls"] for f in faults})}
        fired = []
        may_fail = []

        def decide(p, cls, path, loaded):
            ans = None
            for f in faults:
                if not fnmatch.fnmatchcase(cls, f["cls"]):
                    continue
                f["seen"] += 1
                if f["seen"] - 1 == f["n"] and ans is None:
                    do = f["do"]
                    ans = ("crash",) if do == "crash" else ("err", do[4:]) if do.startswith("err:") else ("raise", do[6:], "injected")
                    fired.append(f"{do}@{cls}")
                    ctx.fault(f"{do}@{cls.split(':load')[0]}")
                    if do != "crash" and (cls.startswith("point") or cls == "open_r:src"):
                        may_fail.append(do)
            ctx.event(f"P{epoch} {cls} {path} {ans or ''}")
            return ans
        ctx.event(f"P{epoch} starts {job['ops']} write={op['write']}")
        p = proc.run_alone(ctx, f"P{epoch}", child_main, job, entropy=epoch, decide=decide, clock=self.now * 10**9 + 10**8)
        ctx.steps += len(job["ops"])
        ctx.simtime += 1
        if p.crashed:
            if not fired:
                raise core.HarnessError("the simulated process crashed by itself")
            ctx.nontrivial = True
            ctx.event(f"P{epoch} crashed")
            return
        for o, r in zip(job["ops"], p.result):
            label = f"P{epoch} {o}"
            if "exc" in r:
                if may_fail and r["injected"]:
                    ctx.probe("failed-by-fault")
                    ctx.event(f"{label}: {r['exc']} (injected)")
                    continue
                ctx.violate("fails", f"{label} raised {r['exc']}: {r['msg']} (chain {r['chain']}); faults: {fired}")
            if o[0] == "frozen":
                for _, f, want, got, ep in r["ok"]:
                    ctx.check(want == got, "wrong-value-from-text", lambda: f"{label}: {f}: {got}, captured was {want}")
                    if ep != epoch:
                        ctx.nontrivial = True
                        ctx.probe("thawed-from-text-later")
            if o[0] != "import":
                continue
            rep = r["ok"]
            u = o[1]
            m = tree[u]
            ctx.check(rep["ver"] == m["ver"] and rep["done"], "stale", lambda: f"{label}: version {rep['ver']}, should be {m['ver']}")
            want = wanted(tree, u)
            seen = set()
            eps = set()
            for item in rep["items"]:
                kind, k = item[0], item[1]
                seen.add(k)
                if kind == "value":
                    _, _, w, got, ep, same = item
                    ctx.check(w == got, "wrong-value", lambda: f"{label}: use {k}: {got}, captured in process {ep} was {w}")
                    ctx.check(same, "two-objects", lambda: f"{label}: use {k}: two runs of one capture see different objects")
                    eps.add(ep)
                    ctx.probe("thawed")
                elif kind == "freeze":
                    ctx.check(item[2] == item[3], "wrong-value", lambda: f"{label}: use {k}: {item[3]}, captured was {item[2]}")
                else:
                    ctx.check(item[2] == want[k], "wrong-macro", lambda: f"{label}: use {k}: the captured macro gave {item[2]}, expected {want[k]}")
                    ctx.probe("captured-macro-expanded")
            ctx.check(seen - {-1} == set(want), "lost", lambda: f"{label}: {sorted(seen)} came out of {sorted(want)}")
            ctx.check(len(eps) <= 1, "mixed-expansions", lambda: f"{label}: values of several processes {sorted(eps)}")
            if eps and max(eps) < epoch:
                ctx.nontrivial = True
                ctx.probe("thawed-in-a-later-process")
            ctx.event(f"{label} ok {sorted(eps)}")
