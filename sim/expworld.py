"""C07: a failed expansion leaves no trace. C08: a failing macro is reported properly."""
import ast
import importlib
import io
import os
import re
import sys
import traceback
import warnings

import mcpyrate
import mcpyrate.compiler
import mcpyrate.core
import mcpyrate.debug
import mcpyrate.metatools
import mcpyrate.quotes
from mcpyrate.core import MacroExpansionError, global_postprocess
from mcpyrate.expander import MacroExpander, namemacro, parametricmacro
from mcpyrate.markers import ASTMarker

from . import core, proc
from .inproc import InProcWorld

EXCS = ("ValueError", "KeyError", "SyntaxError", "TypeError", "AttributeError", "RecursionError", "MemoryError", "StopIteration", "AssertionError",
        "RuntimeError", "OSError", "ImportError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "LookupError", "ZeroDivisionError",
        "NotImplementedError", "BufferError")
HEX = re.compile(r"[0-9a-f]{32}")
ADDR = re.compile(r"0x[0-9a-f]+")
ANSI = re.compile(r"\x1b\[[0-9;]*m")
rt = None           # the simulator of this process
S = None            # the state of the current operation


class State:
    """What the macros of the simulated program share during one operation."""
    def __init__(self):
        self.stack = []         # ids of the macro invocations in progress, outermost first
        self.caught = []
        self.skip = ()
        self.catching = 0
        self.raised = []        # errors that nobody caught, each with the stack at that time


class active:
    """Marks a macro invocation as being in progress."""
    def __init__(self, ident):
        self.ident = ident

    def __enter__(self):
        S.stack.append(self.ident)

    def __exit__(self, tp, err, tb):
        S.stack.pop()
        return False


def root_of(err):
    """The error that started it."""
    while isinstance(err, MacroExpansionError) and err.__cause__ is not None:
        err = err.__cause__
    return err


def call(name):
    try:
        rt.point(name)
    except BaseException as err:
        S.raised.append((err, list(S.stack)))
        raise


def ident(args):
    return args[0].value


def wrap(name, no, tree, syntax):
    if isinstance(tree, ASTMarker) and syntax != "expr":
        tree = [tree]
    if syntax == "expr":
        return ast.Tuple(elts=[ast.Constant(value=name), ast.Constant(value=no)] + ([tree] if tree is not None else []), ctx=ast.Load())
    mark = ast.Expr(value=ast.Tuple(elts=[ast.Constant(value=name), ast.Constant(value=no)], ctx=ast.Load()))
    return [mark] + (tree if isinstance(tree, list) else [tree] if tree is not None else [])


def macro(fn):
    name = fn.__name__[2:]

    def wrapper(tree, *, args=(), syntax, **kw):
        no = ident(args)
        with active(no):
            call(f"mac.{name}.in")
            out = fn(tree, no=no, args=args, syntax=syntax, **kw)
            call(f"mac.{name}.out")
        return out
    wrapper.__name__ = wrapper.__qualname__ = fn.__name__
    globals()[fn.__name__] = wrapper
    return parametricmacro(wrapper)


@macro
def m_plain(tree, *, no, syntax, **kw):
    return wrap("plain", no, tree, syntax)


@macro
def m_inner(tree, *, no, syntax, expander, **kw):
    return wrap("inner", no, expander.visit(tree), syntax)


@macro
def m_rec(tree, *, no, syntax, expander, **kw):
    return wrap("rec", no, expander.visit_recursively(tree), syntax)


@macro
def m_once(tree, *, no, syntax, expander, **kw):
    return wrap("once", no, expander.visit_once(tree), syntax)


@macro
def m_undone(tree, *, no, syntax, expander, **kw):
    return wrap("undone", no, expander.visit_once(tree).body, syntax)


@macro
def m_chain(tree, *, no, syntax, **kw):
    """The output has another macro invocation."""
    if syntax == "expr":
        return ast.Subscript(value=ast.Subscript(value=ast.Name(id="plain", ctx=ast.Load()), slice=ast.Constant(value=no + 0.5), ctx=ast.Load()),
                             slice=tree, ctx=ast.Load())
    item = ast.Subscript(value=ast.Name(id="plain", ctx=ast.Load()), slice=ast.Constant(value=no + 0.5), ctx=ast.Load())
    return ast.With(items=[ast.withitem(context_expr=item)], body=tree if isinstance(tree, list) else [tree])


@macro
def m_mode(tree, *, no, syntax, expander, **kw):
    return wrap(f"mode {bool(expander.recursive)}", no, tree, syntax)


@macro
def m_sub(tree, *, no, syntax, expander, **kw):
    return wrap("sub", no, MacroExpander(dict(expander.bindings), expander.filename).visit(tree), syntax)


@macro
def m_gen(tree, *, no, syntax, expander, **kw):
    def produce():
        yield from wrap("gen", no, None, "block")
        with active(no):
            call("mac.gen.body")
            out = expander.visit(tree)
        yield from (out if isinstance(out, list) else [out] if out is not None else [])
    if syntax == "expr":
        return wrap("gen", no, tree, syntax)
    return produce()


@macro
def m_imp(tree, *, no, args, syntax, expander, **kw):
    """Imports another module while it expands."""
    m = importlib.import_module(args[1].value)
    return wrap(f"imp {m.__name__}", no, expander.visit(tree), syntax)


BADS = {"int": lambda: 5, "str": lambda: "x = 1", "list": lambda: [ast.Pass(), 3], "fun": lambda: len, "gen": lambda: (x for x in (1, 2)),
        "type": lambda: ast.Pass, "dict": lambda: {"a": 1}, "iter": lambda: iter([ast.Pass(), None]), "bool": lambda: False, "zero": lambda: 0}


@macro
def m_bad(tree, *, no, args, **kw):
    """Returns what no macro may return, when told so."""
    kind = args[1].value
    S.raised.append((None, list(S.stack)))
    return BADS[kind]()


@macro
def m_catch(tree, *, no, syntax, expander, **kw):
    """A macro that tries something, and does without it if it fails."""
    if no in S.skip:     # as if it had failed
        return wrap("caught", no, None, syntax)
    S.catching += 1
    depth = len(S.stack)
    try:
        tree = expander.visit(tree)
    except core.Violation:
        raise
    except BaseException as err:
        S.caught.append(no)
        S.raised.clear()
        del S.stack[depth:]
        rt.event(f"caught {type(root_of(err)).__name__} in {no}")
        return wrap("caught", no, None, syntax)
    finally:
        S.catching -= 1
    return wrap("catch", no, tree, syntax)


@macro
def m_hook(tree, *, no, syntax, expander, **kw):
    """Debugs the expansion of what is inside."""
    on = [True]
    seen = []

    def hook(subtreeid, before, after, macroname, macrofunction):
        rt.check(on[0], "debughook-leaked", f"a debug hook was called after its context had ended, for {macroname}")
        if not S.catching:
            seen.append(macroname)
        call("hook")
    catching, S.catching = S.catching, 0
    try:
        with expander.debughook(hook):
            tree = expander.visit(tree)
    finally:
        on[0] = False
        S.catching = catching
    return wrap(f"hook {seen}", no, tree, syntax)


@macro
def m_quoting(tree, *, no, syntax, expander, **kw):
    """A macro implemented with the quasiquote operators, at run time."""
    if syntax == "expr":
        return mcpyrate.quotes.splice_ast_literals(ast.Tuple(elts=[ast.Constant(value="quoting"), ast.Constant(value=no),
                                                                   mcpyrate.quotes.ast_literal(tree, "expr")], ctx=ast.Load()), "here")
    return wrap("quoting", no, tree, syntax)


def library(name, fn):
    """A macro of mcpyrate, with the invocation marked as being in progress. The last argument is our identifier."""
    def wrapper(tree, *, args, **kw):
        with active(args[-1].value):
            call(f"mac.{name}.in")
            out = fn(tree, args=args[:-1], **kw)
            call(f"mac.{name}.out")
        return out
    wrapper.__name__ = wrapper.__qualname__ = f"m_{name}"
    globals()[f"m_{name}"] = wrapper
    return parametricmacro(wrapper)


library("step", mcpyrate.debug.step_expansion)
library("expandsq", mcpyrate.metatools.expandsq)
library("expand1sq", mcpyrate.metatools.expand1sq)
library("expands", mcpyrate.metatools.expands)
library("expand1s", mcpyrate.metatools.expand1s)
library("expandr", mcpyrate.metatools.expandr)
library("expand1r", mcpyrate.metatools.expand1r)
library("expandrq", mcpyrate.metatools.expandrq)
library("expand1rq", mcpyrate.metatools.expand1rq)
library("stepr", mcpyrate.metatools.stepr)
library("first", mcpyrate.metatools.expand_first)


@namemacro
def m_nm(tree, *, syntax, expander, **kw):
    with active("nm"):
        call("mac.nm.in")
        return ast.parse("chain[900][0]", mode="eval").body


@namemacro
def m_same(tree, *, syntax, expander, **kw):
    with active("same"):
        call("mac.same.in")
        return tree


def m_nonpar(tree, **kw):
    return tree


MINE = ("plain", "inner", "rec", "once", "undone", "chain", "mode", "sub", "gen", "bad", "catch", "hook", "quoting", "imp")
LIB = ("step", "expandsq", "expand1sq", "expands", "expand1s", "expandr", "expand1r", "expandrq", "expand1rq", "stepr", "first")
QQ = ("q", "u", "n", "a", "s", "t", "h")


def all_bindings():
    out = {k: globals()[f"m_{k}"] for k in MINE + LIB + ("nm", "same", "nonpar")}
    for k in QQ:
        out[k] = getattr(mcpyrate.quotes, k)
    out["macro_bindings"] = mcpyrate.metatools.macro_bindings
    out["show_bindings"] = mcpyrate.debug.show_bindings
    return out


# -------------------------------------------------------------------------------- programs

class Text:
    """Renders a program, one macro invocation per line; knows where each invocation is."""
    def __init__(self):
        self.parts = []
        self.line = 1
        self.where = {}

    def put(self, s):
        self.parts.append(s)
        self.line += s.count("\n")

    def at(self, no, kind):
        self.where[no] = (self.line, kind)
        self.where[no + 0.5] = (self.line, "plain")

    def expr(self, e):
        k = e[0]
        if k == "num":
            self.put(str(e[1]))
        elif k == "name":
            self.put(e[1])
        elif k == "call":
            self.put("f(")
            for x in e[1]:
                self.expr(x)
                self.put(", ")
            self.put(")")
        elif k == "raw":
            self.put(e[1])
        elif k == "m":
            _, kind, no, sub, extra = e
            self.put("\n")
            self.at(no, kind)
            if kind in QQ:
                self.put(f"{kind}[")
            elif kind in LIB or kind in ("bad", "imp"):
                first = "".join(f"{x!r}, " for x in extra)
                self.put(f"{kind}[{first}{no}][" if kind in LIB else f"{kind}[{no}, {first.strip(', ')}][")
            else:
                self.put(f"{kind}[{no}][")
            self.expr(sub)
            self.put("]")
        else:
            raise core.HarnessError(k)

    def block(self, stmts, ind):
        if not stmts:
            self.put(f"{ind}pass\n")
        for s in stmts:
            self.stmt(s, ind)

    def stmt(self, s, ind):
        k = s[0]
        if k == "x":
            self.put(f"{ind}r{s[1]} = (")
            self.expr(s[2])
            self.put(")\n")
        elif k == "if":
            self.put(f"{ind}if (")
            self.expr(s[1])
            self.put("):\n")
            self.block(s[2], ind + "    ")
        elif k == "raw":
            self.put(f"{ind}{s[1]}\n")
        elif k == "with":
            _, kind, no, body, extra = s
            self.at(no, kind)
            if kind == "q":
                self.put(f"{ind}with q as quoted{no}:\n")
            elif kind == "a":
                self.put(f"{ind}with a:\n")
            elif kind == "first":
                self.put(f"{ind}with first[{', '.join(extra)}, {no}]:\n")
            elif kind in LIB:
                first = "".join(f"{x!r}, " for x in extra if not x.startswith("as "))
                asname = "".join(f" {x}" for x in extra if x.startswith("as "))
                self.put(f"{ind}with {kind}[{first}{no}]{asname}:\n")
            elif kind == "bad":
                self.put(f"{ind}with bad[{no}, {extra[0]!r}]:\n")
            else:
                self.put(f"{ind}with {kind}[{no}]:\n")
            self.block(body, ind + "    ")
        elif k == "def":
            _, kinds, name, body = s
            here = []
            kinds_of = {no: kind for kind, no, extra in kinds}
            for kind, no, extra in kinds:
                if kind == "bad":
                    self.put(f"{ind}@bad[{no}, {extra[0]!r}]\n")
                else:
                    self.put(f"{ind}@{kind}[{no}]\n")
                here.append(no)
            for no in here:
                self.at(no, kinds_of[no])
            self.put(f"{ind}def {name}():\n")
            self.block(body, ind + "    ")
        else:
            raise core.HarnessError(k)


def render(prog, prefix=""):
    t = Text()
    t.put(prefix)
    t.block(prog, "")
    return "".join(t.parts), t.where


class Gen:
    def __init__(self, rng, kinds, blocks=True, quotes=True, errors=True, start=0):
        self.rng = rng
        self.n = start
        self.budget = 14
        self.kinds = kinds
        self.quotes, self.errors, self.blocks = quotes, errors, blocks

    def no(self):
        self.n += 1
        return self.n

    def expr(self, depth, quoted=0):
        rng = self.rng
        self.budget -= 1
        r = rng.random()
        if depth <= 0 or self.budget <= 0 or r < 0.1:
            return rng.choice((["num", rng.randint(0, 9)], ["name", "x0"]))
        if r < 0.25:
            return ["call", [self.expr(depth - 1, quoted) for _ in range(rng.choice((1, 2, 2, 3)))]]
        if self.quotes and r < (0.7 if quoted else 0.42):
            if not quoted or rng.random() < 0.25:
                return ["m", "q", self.no(), self.expr(depth - 1, quoted + 1), []]
            kind = rng.choice(("u", "u", "n", "a", "s", "t", "h"))
            if kind == "h" and rng.random() < 0.5:
                sub = ["name", rng.choice(("plain", "inner", "nm", "x0"))]
            elif rng.random() < 0.4:
                sub = ["name", {"u": "x0", "n": "w", "a": "y", "s": "z", "t": "z", "h": "x0"}[kind]]
            else:
                sub = self.expr(depth - 1, quoted - 1)
            return ["m", kind, self.no(), sub, []]
        if self.errors and r > 0.95:
            return rng.choice((["m", "u", self.no(), ["num", 1], []], ["m", "n", self.no(), ["name", "w"], []],
                               ["m", "bad", self.no(), ["num", 1], [rng.choice(sorted(BADS))]],
                               ["m", "step", self.no(), ["num", 1], ["nosuch"]],
                               ["m", "expands", self.no(), ["num", 1], []],
                               ["raw", "plain()[x0]"], ["raw", "plain(*x0)[0]"], ["m", "q", self.no(), ["raw", "(1j, a)"], []]))
        kind = rng.choice(self.kinds)
        extra = []
        if kind in ("nm", "same", "macro_bindings", "show_bindings"):
            return ["name", kind]
        if kind == "step":
            extra = rng.choice(([], [], ["dump"], ["detailed"], ["detailed", "dump"]))
        if kind in ("expands", "expand1s", "expandr", "expand1r", "stepr"):
            return ["m", kind, self.no(), ["m", "q", self.no(), self.expr(depth - 1, quoted + 1), []], []]
        if kind in ("expandsq", "expand1sq", "expandrq", "expand1rq"):
            return ["m", kind, self.no(), self.expr(depth - 1, quoted + 1), []]
        if kind == "first":
            kind = "inner"
        return ["m", kind, self.no(), self.expr(depth - 1, quoted), extra]

    def stmts(self, depth, quoted=0):
        return [self.stmt(depth, quoted) for _ in range(self.rng.choice((1, 1, 2, 2, 3)))]

    def stmt(self, depth, quoted=0):
        rng = self.rng
        r = rng.random()
        if not self.blocks or depth <= 1 or self.budget <= 0 or r < 0.45:
            return ["x", self.no(), self.expr(depth, quoted)]
        if r < 0.52:
            return ["if", self.expr(depth - 2, quoted), self.stmts(depth - 1, quoted)]
        if r < 0.62 and not quoted:
            k = rng.choice((1, 1, 2))
            return ["def", [[rng.choice(("plain", "inner", "chain", "catch", "once", "hook", "sub")), self.no(), []] for _ in range(k)], f"fun{self.no()}",
                    self.stmts(depth - 1, quoted)]
        if self.quotes and r < 0.72:
            if not quoted:
                return ["with", "q", self.no(), self.stmts(depth - 1, quoted + 1), []]
            return ["with", "a", self.no(), [["raw", "y2"]], []]
        if self.errors and r > 0.96:
            return rng.choice((["with", "a", self.no(), [["raw", "y2"]], []], ["with", "q", self.no(), [["with", "a", self.no(), [["raw", "y2 = 1"]], []]], []],
                               ["with", "bad", self.no(), [["raw", "pass"]], [rng.choice(sorted(BADS))]],
                               ["with", "expands", self.no(), [["raw", "pass"]], []], ["raw", "with q: pass"], ["raw", "with nonpar[1]: pass"],
                               ["with", "first", self.no(), [["raw", "pass"]], ["nosuch"]]))
        kind = rng.choice(("plain", "inner", "inner", "rec", "once", "undone", "chain", "catch", "catch", "hook", "sub", "gen", "gen", "step", "first", "expandsq"))
        extra = []
        if kind == "step":
            extra = rng.choice(([], ["dump"], ["detailed"]))
        elif kind == "first":
            extra = rng.sample(("plain", "inner", "once", "chain", "catch", "rec"), rng.choice((1, 2)))
        elif kind == "expandsq":
            extra = [f"as quoted{self.no()}"]
            return ["with", kind, self.no(), self.stmts(depth - 1, quoted + 1), extra]
        return ["with", kind, self.no(), self.stmts(depth - 1, quoted), extra]


def shrink_prog(prog):
    """Smaller programs."""
    for i in range(len(prog)):
        if len(prog) > 1:
            yield prog[:i] + prog[i + 1:]
    for i, s in enumerate(prog):
        for x in shrink_stmt(s):
            yield prog[:i] + (x if isinstance(x, list) and x and isinstance(x[0], list) else [x]) + prog[i + 1:]


def shrink_stmt(s):
    k = s[0]
    if k == "x":
        for e in shrink_expr(s[2]):
            yield ["x", s[1], e]
    elif k == "if":
        yield s[2]
        yield ["x", 0, s[1]]
        for e in shrink_expr(s[1]):
            yield ["if", e, s[2]]
        for b in shrink_prog(s[2]):
            yield ["if", s[1], b]
    elif k == "with":
        yield s[3]
        for b in shrink_prog(s[3]):
            yield ["with", s[1], s[2], b, s[4]]
    elif k == "def":
        yield s[3]
        for i in range(len(s[1])):
            if len(s[1]) > 1:
                yield ["def", s[1][:i] + s[1][i + 1:], s[2], s[3]]
        for b in shrink_prog(s[3]):
            yield ["def", s[1], s[2], b]


def shrink_expr(e):
    if e[0] == "call":
        yield from e[1]
        for i in range(len(e[1])):
            if len(e[1]) > 1:
                yield ["call", e[1][:i] + e[1][i + 1:]]
            for x in shrink_expr(e[1][i]):
                yield ["call", e[1][:i] + [x] + e[1][i + 1:]]
    elif e[0] == "m":
        yield e[3]
        if e[3] != ["num", 0]:
            yield [*e[:3], ["num", 0], e[4]]
        for x in shrink_expr(e[3]):
            yield [*e[:3], x, e[4]]
        if e[4] and e[1] == "step":
            yield [*e[:4], []]


def fit(text):
    try:
        ast.parse(text)
        return True
    except SyntaxError:
        return False


def normal(text):
    seen = {}
    text = ADDR.sub("0x?", text)
    return HEX.sub(lambda m: f"<uuid {seen.setdefault(m.group(), len(seen))}>", text)


def dump(tree):
    return normal(ast.dump(tree) if isinstance(tree, ast.AST) else repr(tree))


def differ(a, b):
    """Where two outcomes differ."""
    if a[0] != b[0] or a[0] == "error":
        return f"{str(a)[:700]!s} and {str(b)[:700]!s}"
    for x, y in zip(a[1:], b[1:]):
        if x != y:
            x, y = str(x), str(y)
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return f"...{x[max(0, i - 200):i + 300]!s} and ...{y[max(0, i - 200):i + 300]!s}"


class Terminal(io.StringIO):
    def __init__(self):
        super().__init__()
        self.text = []

    def write(self, s):
        rt.point("stderr")
        self.text.append(s)
        return len(s)

    def take(self):
        out, self.text = ANSI.sub("", "".join(self.text)), []
        return out


KINDS7 = ("plain", "inner", "inner", "rec", "once", "once", "undone", "chain", "chain", "mode", "mode", "sub", "catch", "catch", "catch", "hook", "hook",
          "quoting", "nm", "same", "step", "step", "expandsq", "expand1sq", "expands", "expand1s", "expandr", "expand1r", "expandrq", "expand1rq", "stepr",
          "macro_bindings", "show_bindings")


class C07(InProcWorld):
    id = "C07"
    level = "exploration"
    quick_runs = 1800
    thorough_runs = 300000
    rule = ("each run draws 2 to 5 programs of nested macro invocations (expression, block, decorator and name macros that expand outside-in, inside-out, once, "
            "recursively or in a second expander, set debug hooks, catch errors of what is inside them, quote and unquote, step the expansion, expand at run "
            "time) and expands them with the same one or two expanders, with exceptions injected into macros, hooks and diagnostics, stack exhaustion at "
            "a chosen depth and warnings turned into errors; after each, a battery with known results runs on the same expander, and each result is compared "
            "with that of a fresh expander before any fault; non-trivial: a fault ended an expansion, or was caught by a macro")
    assumptions = ["an asynchronous exception may also hit between two byte codes of a context manager's own code; not simulated"]

    def gen(self, rng, index):
        progs = []
        for _ in range(rng.choice((2, 3, 3, 4, 5))):
            for _ in range(20):
                g = Gen(rng, KINDS7)
                prog = g.stmts(rng.choice((3, 4, 4, 5)))
                if fit(render(prog)[0]):
                    break
            else:
                prog = [["x", 1, ["num", 1]]]
            progs.append(prog)
        ops = []
        for _ in range(rng.choice((2, 3, 4, 5, 6))):
            op = {"op": "expand", "prog": rng.randrange(len(progs)), "how": rng.choice(("visit", "visit", "visit_recursively", "visit_once")),
                  "ex": rng.choice((0, 0, 0, 1)), "faults": []}
            r = rng.random()
            if r < 0.65:
                op["faults"] = [{"at": rng.choice(("mac.*", "mac.*", "mac.*.in", "mac.*.out", "hook", "stderr", "*", "*")),
                                 "n": rng.choice((0, 0, 1, 1, 2, 3, 4, 6, 9, 14)), "exc": rng.choice(EXCS)} for _ in range(rng.choice((1, 1, 2)))]
            elif r < 0.8:
                op["limit"] = rng.choice((30, 45, 60, 80, 100, 120, 150, 180, 220)) + rng.randint(0, 14)
            elif r < 0.87:
                op["warn"] = True
            op["run"] = rng.random() < 0.6
            ops.append(op)
        return {"progs": progs, "ops": ops}

    def shrink(self, spec):
        for x in core.drop_each(spec["ops"]):
            if x:
                yield {**spec, "ops": x}
        used = {op["prog"] for op in spec["ops"]}
        for i, op in enumerate(spec["ops"]):
            for fs in core.drop_each(op["faults"]):
                yield {**spec, "ops": spec["ops"][:i] + [{**op, "faults": fs}] + spec["ops"][i + 1:]}
        for i in range(len(spec["progs"])):
            if i not in used and spec["progs"][i] != [["x", 1, ["num", 1]]]:
                yield {**spec, "progs": spec["progs"][:i] + [[["x", 1, ["num", 1]]]] + spec["progs"][i + 1:]}
            if i in used:
                for p in shrink_prog(spec["progs"][i]):
                    if p and fit(render(p)[0]):
                        yield {**spec, "progs": spec["progs"][:i] + [p] + spec["progs"][i + 1:]}

    def inproc(self, sim, spec):
        global rt, S
        rt = sim
        S = State()
        out, err = sys.stdout, sys.stderr
        sys.stderr = term = Terminal()
        sys.stdout = io.StringIO()
        warnings.simplefilter("ignore")
        try:
            self.history(sim, spec, term)
        finally:
            sys.stdout, sys.stderr = out, err

    def history(self, rt, spec, term):
        global S
        bindings = all_bindings()
        refs = {}

        def attempt(prog, how, expander, run, caught=(), limit=None, warn=False):
            """Expand a program. Returns (outcome, exception)."""
            global S
            S = State()
            S.skip = frozenset(caught)
            for name in [k for k in mcpyrate.core.global_bindings if HEX.search(k)]:     # `macro_bindings` sees them
                del mcpyrate.core.global_bindings[name]
            text, where = render(prog)
            tree = ast.parse(text)
            old = sys.getrecursionlimit()
            exc = None
            with warnings.catch_warnings():
                warnings.simplefilter("error" if warn else "ignore", SyntaxWarning)
                try:
                    try:
                        if limit is not None:
                            depth, f = 0, sys._getframe()
                            while f is not None:
                                depth, f = depth + 1, f.f_back
                            sys.setrecursionlimit(depth + limit)
                        tree = getattr(expander, how)(tree)
                    finally:
                        sys.setrecursionlimit(old)
                    result = dump(tree)
                    tree = tree.body if how == "visit_once" else tree
                    code = dump(global_postprocess(tree)) if isinstance(tree, ast.AST) else repr(tree)
                    value = None
                    if run and limit is None:
                        value = self.execute(tree)
                    out = ("ok", result, code, value)
                except core.Violation:
                    raise
                except BaseException as e:
                    exc = e
                    root = root_of(e)
                    out = ("error", type(e).__name__, type(root).__name__, normal(ANSI.sub("", str(e))))
            return out, exc

        def reference(prog, how, run, caught=()):
            key = repr((prog, how, run, sorted(caught)))
            if key not in refs:
                rt.quiet += 1
                refs[key] = attempt(prog, how, MacroExpander(dict(bindings), "here.py"), run, caught)[0], tuple(S.caught)
                rt.quiet -= 1
                term.take()
            return refs[key]

        # references first: nothing has failed yet, except what fails by itself
        self.battery(rt, MacroExpander(dict(bindings), "here.py"), term, "at the beginning")
        for op in spec["ops"]:
            reference(spec["progs"][op["prog"]], op["how"], op["run"])
        expanders = []
        tables = []
        for i in range(2):
            tables.append(dict(bindings))
            expanders.append(MacroExpander(tables[i], "here.py"))
        for k, op in enumerate(spec["ops"]):
            prog, how, run, ex = spec["progs"][op["prog"]], op["how"], op["run"], expanders[op["ex"]]
            what = f"op {k} ({how} of program {op['prog']} in expander {op['ex']})"
            nfired = len(rt.fired)
            rt.set_plan(op["faults"])
            try:
                out, exc = attempt(prog, how, ex, run, limit=op.get("limit"), warn=op.get("warn", False))
            finally:
                rt.set_plan(())
            fired = rt.fired[nfired:]
            caught = tuple(S.caught)
            term.take()
            rt.event(f"{what}: {out[0]} {out[1:3] if out[0] == 'error' else normal(out[2])[-60:]} fired {fired} caught {caught}")
            ref, refcaught = reference(prog, how, run)
            if op.get("limit") is not None and out[0] == "error" and ref[0] != "error":
                rt.fault("stack exhausted")
                rt.nontrivial = True
            if op.get("warn") and out != ref:
                rt.fault("warning as error")
                rt.nontrivial = True
            if caught:
                rt.probe("caught by a macro")
                rt.nontrivial = True
            if fired:
                rt.nontrivial = True
            if out[0] == "ok":
                if op.get("limit") is not None:
                    run = False
                want = reference(prog, how, run, caught)[0]
                rt.check(out == want, "differs-after-catch" if caught else "differs",
                         lambda: f"{what}: the result is not that of a fresh expander: {differ(out, want)}; fired {fired}, caught {caught}")
            elif not fired and op.get("limit") is None and not op.get("warn"):
                rt.check(out == ref, "differs", lambda: f"{what}: the result is not that of a fresh expander: {differ(out, ref)}")
            for ident, e in enumerate(expanders):
                self.balanced(rt, e, tables[ident], bindings, f"{what}, expander {ident}")
            self.battery(rt, ex, term, what)
            self.battery(rt, MacroExpander(dict(bindings), "here.py"), term, what + ", fresh expander")
            rt.quiet += 1
            again, _ = attempt(prog, how, ex, op["run"])
            rt.quiet -= 1
            term.take()
            rt.check(again == ref, "differs", lambda: f"{what}, repeated without faults: the result is not that of a fresh expander: {differ(again, ref)}")

    def execute(self, tree):
        env = {"__name__": "prog", "mcpyrate": mcpyrate, "f": lambda *a: ("f", *a), "x0": 5, "w": "some.name", "y": ast.Name(id="yy", ctx=ast.Load()),
               "z": [ast.Constant(value=1)], "y2": [ast.Pass()]}
        for k in MINE + LIB + QQ + ("same", "nm"):      # a macro's name is not a name at run time, except when it says so
            env[k] = k
        before = set(env)
        try:
            tree = ast.fix_missing_locations(tree)
            exec(compile(tree, "prog", "exec"), env)
        except core.Violation:
            raise
        except BaseException as err:
            if getattr(err, "_injected", None) or getattr(root_of(err), "_injected", None):
                raise
            return f"{type(err).__name__}: {normal(ANSI.sub('', str(err)))}"
        return normal(repr({k: self.show(v) for k, v in env.items() if k not in before and k != "__builtins__"}))

    def show(self, v):
        if isinstance(v, ast.AST):
            return ast.dump(v)
        if isinstance(v, (list, tuple)):
            return [self.show(x) for x in v]
        if isinstance(v, dict):
            return {k: self.show(x) for k, x in v.items()}
        if callable(v):
            return getattr(v, "__name__", "?")
        return v

    def balanced(self, rt, e, table, bindings, what):
        have = {k: v for k, v in e.bindings.items() if not HEX.search(k)}
        rt.check(have == bindings and table == bindings, "bindings-changed", lambda: f"{what}: the macro bindings changed: {set(have) ^ set(bindings)}")
        rt.check(e.recursive is True, "mode-changed", lambda: f"{what}: the expansion mode is not recursive any more")

    def battery(self, rt, e, term, what):
        """Expansions with known results."""
        global S
        rt.quiet += 1

        def exp(text, how="visit"):
            global S
            S = State()
            tree = getattr(e, how)(ast.parse(text, mode="eval"))
            return ast.unparse(tree.body.body if how == "visit_once" else tree.body)

        def expect(text, want, how="visit"):
            try:
                got = exp(text, how)
            except core.Violation:
                raise
            except BaseException as err:
                got = f"{type(err).__name__}: {root_of(err)!r}"
            rt.check(got == want, "battery", lambda: f"{what}: afterwards, {how}({text!r}) gives {got!r}, should be {want!r}")
        try:
            expect("chain[1][mode[2][0]]", "('plain', 1.5, ('mode True', 2, 0))")
            expect("chain[1][mode[2][0]]", "plain[1.5][mode[2][0]]", "visit_once")
            expect("rec[3][chain[1][mode[2][0]]]", "('rec', 3, ('plain', 1.5, ('mode True', 2, 0)))", "visit_once")
            expect("hook[1][f(plain[2][0], plain[3][0])]", "(\"hook ['plain', 'plain']\", 1, f(('plain', 2, 0), ('plain', 3, 0)))")
            for bad in "unasth":
                expect(f"{bad}[x]", f"MacroApplicationError: SyntaxError('`{bad}` encountered while quotelevel < 1')")
            quoted = "mcpyrate.quotes.splice_ast_literals("
            expect("q[u[x]]", quoted + "mcpyrate.quotes.astify(x), 'here.py')")
            expect("q[u[plain[1][x]]]", quoted + "mcpyrate.quotes.astify(('plain', 1, x)), 'here.py')")
            term.take()
            expect("step[1][chain[1][0]]", "('plain', 1.5, 0)")
            text = term.take()
            heads = [line.split("Tree")[0] + line.split("py)")[1] for line in text.split("\n") if "Tree" in line]
            want = ["** before macro expansion:", "** after step 1:", "** after step 2:", "** macro expansion complete after 2 steps."]
            rt.check(heads == want, "battery-step", lambda: f"{what}: afterwards, step_expansion prints {heads}, should be {want}")
        finally:
            rt.quiet -= 1
            term.take()


KINDS8 = ("plain", "inner", "inner", "inner", "rec", "rec", "once", "undone", "chain", "chain", "mode", "sub", "sub", "catch", "hook", "imp", "imp", "step",
          "quoting", "expandsq", "expand1s")
HEAD = """from mm import macros, {names}
from mcpyrate.quotes import macros, q, u, n, a, s, t, h
from mm import R, f, x0, w, y, z, y2
{names2} = R()
"""
MM = """
import ast
import sim.expworld as E
{defs}
class R:
    __iter__ = None
    def __init__(self, *k):
        self.k = k
    def __getitem__(self, k):
        return R(*self.k, k)
    def __call__(self, x):
        return x
    def __enter__(self):
        return self
    def __exit__(self, *exc):
        return False
def f(*a):
    return ("f", *a)
x0 = 5
w = "some.name"
y = ast.Name(id="yy", ctx=ast.Load())
z = [ast.Constant(value=1)]
y2 = [ast.Pass()]
"""
SITE = re.compile(r"^in (?:expr|block|decorator|name) macro invocation for '(\w+)'")
LOC = re.compile(r"^(/\S+\.py|\S+\.py):(\d+|None):")
MACROS8 = [k for k in MINE if k != "caught"] + ["step", "expandsq", "expand1s", "first"]


class C08(InProcWorld):
    id = "C08"
    level = "exploration"
    quick_runs = 3500
    thorough_runs = 300000
    rule = ("each run draws 1 to 3 modules of nested macro invocations, where macros expand outside-in, inside-out, once, in a second expander, lazily (as "
            "generators), import other such modules while they expand, and catch errors; the modules are imported, imported again and reloaded with "
            "exceptions of 22 kinds injected at entry and exit of macros, and with macros that return what they may not; the message, cause, and state of "
            "the module table are compared with the simulator's record of the invocations in progress; non-trivial: an import failed")

    def gen(self, rng, index):
        n = rng.choice((1, 2, 2, 3))
        mods = []
        for i in range(n):
            for _ in range(20):
                g = Gen(rng, [k for k in KINDS8 if k != "imp" or i > 0], quotes=rng.random() < 0.3, errors=rng.random() < 0.5, start=1000 * (i + 1))
                prog = self.imports(g.stmts(rng.choice((3, 4, 5, 6))), rng, i)
                if fit(render(prog)[0]):
                    break
            else:
                prog = [["x", 1, ["num", 1]]]
            mods.append(prog)
        ops = []
        for _ in range(rng.choice((1, 2, 3, 4))):
            op = {"op": rng.choice(("import", "import", "import", "reload", "run")), "mod": rng.choice((n - 1, n - 1, rng.randrange(n))), "faults": []}
            if rng.random() < 0.9:
                op["faults"] = [{"at": rng.choice(("mac.*", "mac.*", "mac.*.in", "mac.*.out", "mac.gen.body", "mac.catch.*")),
                                 "n": rng.choice((0, 0, 1, 1, 2, 3, 4, 6, 9, 14)), "exc": rng.choice(EXCS + ("MacroExpansionError", "ChainedError"))}
                                for _ in range(rng.choice((1, 1, 2)))]
            op["clean"] = rng.random() < 0.5
            ops.append(op)
        return {"mods": mods, "ops": ops}

    def imports(self, x, rng, i):
        """Fill in what `imp` imports."""
        if isinstance(x, list):
            if x and x[0] == "m" and x[1] == "imp":
                return ["m", "imp", x[2], self.imports(x[3], rng, i), [f"u{rng.randrange(i)}"]]
            return [self.imports(y, rng, i) for y in x]
        return x

    def shrink(self, spec):
        for x in core.drop_each(spec["ops"]):
            if x:
                yield {**spec, "ops": x}
        for i, op in enumerate(spec["ops"]):
            for fs in core.drop_each(op["faults"]):
                yield {**spec, "ops": spec["ops"][:i] + [{**op, "faults": fs}] + spec["ops"][i + 1:]}
        for i in range(len(spec["mods"])):
            for p in shrink_prog(spec["mods"][i]):
                if p and fit(render(p)[0]):
                    yield {**spec, "mods": spec["mods"][:i] + [p] + spec["mods"][i + 1:]}

    def inproc(self, sim, spec):
        global rt, S
        rt = sim
        S = State()
        out, err = sys.stdout, sys.stderr
        sys.stderr, sys.stdout = Terminal(), io.StringIO()
        warnings.simplefilter("ignore")
        try:
            self.history(sim, spec)
        finally:
            sys.stdout, sys.stderr = out, err

    def history(self, rt, spec):
        global S
        rt.write("mm.py", MM.format(defs="\n".join(f"{k} = E.m_{k}" for k in MACROS8)), 1_000_000)
        head = HEAD.format(names=", ".join(MACROS8), names2=" = ".join(MACROS8 + list(QQ)))
        where, texts = {}, {}
        for i, prog in enumerate(spec["mods"]):
            text, w = render(prog, head)
            text += "DONE = 1\n"
            rt.write(f"u{i}.py", text, 1_000_000)
            texts[f"u{i}"] = text
            for no, (line, name) in w.items():
                where[no] = (os.path.join(rt.src, f"u{i}.py"), line, name)
        names = sorted(texts)
        refs = {}

        def attempt(op, name):
            """Returns (outcome, exception)."""
            global S
            S = State()
            exc = None
            try:
                if op == "import":
                    m = importlib.import_module(name)
                elif op == "run":
                    m = mcpyrate.compiler.run(texts[name], sys.modules[name])
                else:
                    m = importlib.reload(sys.modules[name])
                out = ("ok", self.facts(m))
            except core.Violation:
                raise
            except BaseException as err:
                exc = err
                out = ("error", type(err).__name__, type(err.__cause__).__name__, normal(ANSI.sub("", str(err))))
            return out, exc

        def forget():
            for n in names:
                sys.modules.pop(n, None)
            importlib.invalidate_caches()

        # first without faults
        rt.quiet += 1
        for n in names:
            forget()
            refs[n], exc = attempt("import", n)
            self.report(exc, n, where, "at the beginning", rt)
            if exc is not None:
                rt.nontrivial = True
        rt.quiet -= 1
        forget()
        tainted = False     # a macro did without something, so that a module now loaded is not what it would be otherwise
        for k, op in enumerate(spec["ops"]):
            name = f"u{op['mod']}"
            if op["op"] == "import" and op["clean"]:
                forget()
                tainted = False
            what = f"op {k} ({op['op']} of {name})"
            if name in sys.modules and op["op"] == "import":
                continue
            if name not in sys.modules and op["op"] in ("reload", "run"):
                continue
            before = {n: sys.modules.get(n) for n in names}
            facts = {n: self.facts(m) for n, m in before.items() if m is not None}
            nfired = len(rt.fired)
            rt.set_plan(op["faults"])
            try:
                out, exc = attempt(op["op"], name)
            finally:
                rt.set_plan(())
            fired, caught, raised = rt.fired[nfired:], list(S.caught), list(S.raised)
            rt.event(f"{what}: {out[0]} {out[1:3] if exc else ''} fired {fired} caught {caught}")
            tainted = tainted or bool(caught)
            if exc is not None:
                rt.nontrivial = True
                rt.check(raised or tainted or out == refs[name], "fails", lambda: f"{what}: failed without a fault: {out}; in the beginning {str(refs[name])[:500]}")
                self.report(exc, name, where, what, rt)
                for n in names:
                    if before[n] is None and n == name:
                        rt.check(n not in sys.modules, "half-imported", lambda: f"{what}: failed, but left {n} in the module table; fired {fired}")
                    elif before[n] is not None:
                        rt.check(sys.modules.get(n) is before[n] and (not raised or self.facts(before[n]) == facts[n]), "half-imported",
                                 lambda: f"{what}: failed, and changed {n}")
                    elif n in sys.modules:
                        rt.check(self.complete(sys.modules[n], refs[n], caught), "half-imported", lambda: f"{what}: left {n} half imported; fired {fired}")
                rt.quiet += 1
                again, exc2 = attempt(op["op"], name)
                rt.quiet -= 1
                self.report(exc2, name, where, f"{what}, tried again", rt)
                if not tainted:
                    rt.check(again == refs[name], "retry-differs", lambda: f"{what}, tried again: {differ(again, refs[name])}")
            else:
                rt.check(not raised, "error-swallowed", lambda: f"{what}: succeeded although {raised} was raised")
                if not tainted:
                    rt.check(out == refs[name], "differs", lambda: f"{what}: {differ(out, refs[name])}")
                for n in names:
                    if n in sys.modules:
                        rt.check(self.complete(sys.modules[n], refs[n], caught), "half-imported", lambda: f"{what}: left {n} half imported; fired {fired}")

    def complete(self, m, ref, caught):
        return hasattr(m, "DONE")

    def facts(self, m):
        return {k: normal(repr(self.show(v))) for k, v in vars(m).items() if not k.startswith("__") and k not in MACROS8 and k not in QQ}

    def show(self, v):
        if type(v).__name__ == "R":
            return ["R", *v.k]
        if isinstance(v, ast.AST):
            return ast.dump(v)
        if isinstance(v, (list, tuple)):
            return [self.show(x) for x in v]
        return getattr(v, "__name__", v)

    def report(self, exc, name, where, what, rt):
        """Is this failure reported as it should be?"""
        if exc is None or not S.raised:
            return
        raised, stack = S.raised[-1]
        if raised is not None and not isinstance(raised, Exception):
            rt.check(exc is raised, "not-unchanged", lambda: f"{what}: {type(raised).__name__} in a macro arrived as {exc!r}")
            rt.probe("passed unchanged")
            return
        rt.check(isinstance(exc, MacroExpansionError), "wrong-class", lambda: f"{what}: {raised!r} in a macro arrived as {exc!r}")
        cause = exc.__cause__
        if raised is None:
            rt.check(isinstance(cause, Exception) and "expected macro to return" in str(cause), "wrong-cause",
                     lambda: f"{what}: after a macro returned rubbish, the cause is {cause!r}")
            rt.probe("invalid result reported")
        else:
            ok = cause is raised or (isinstance(raised, StopIteration) and isinstance(cause, RuntimeError) and cause.__cause__ is raised)
            rt.check(ok, "wrong-cause", lambda: f"{what}: {raised!r} was raised in a macro, but the cause of {type(exc).__name__} is {cause!r}")
        sites, loc = [], None
        for line in ANSI.sub("", str(exc)).split("\n"):
            m = LOC.match(line)
            if m:
                loc = (m.group(1), int(m.group(2)) if m.group(2) != "None" else None)
            m = SITE.match(line)
            if m:
                sites.append((*(loc or ("?", 0)), m.group(1)))
                loc = None
        want = [where[no] for no in stack]
        got = [x for x in sites if x[2] not in QQ]
        rt.probe(f"use sites: {min(len(want), 5)}")
        if len({x[0] for x in want}) > 1:
            rt.probe("use sites in several files")

        def short(x):
            return [f"{os.path.basename(a)}:{b} {c}" for a, b, c in x]
        rt.check(got == want, "wrong-use-sites", lambda: f"{what}: the report lists {short(got)}, the macros in progress were {short(want)}; {raised!r}")


class ChainedError(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.__cause__ = KeyError("the cause of the cause")


proc.EXCS["MacroExpansionError"] = MacroExpansionError
proc.EXCS["ChainedError"] = ChainedError
