"""Generator of macro-enabled source trees, and the reference model of what each module must evaluate to.

A tree is a dict `name -> mod`; a mod is JSON data. Each module's top level ends up with a `RESULT` tuple, which
contains the versions of the module and of everything that took part in expanding it. So a stale expansion anywhere
in the macro-dependency graph is visible in the `RESULT` of each dependent.
"""
HOWS = ("expr", "block", "deco", "name", "param")
MACRO = {"expr": "f", "block": "b", "deco": "d", "name": "n", "param": "p"}
STAGES = ("src", "ast", "post")
SURFACE = "%% surface syntax: this line is (not python !!\n"


def base(name):
    return name.rsplit(".", 1)[-1]


def package_of(mods, name):
    if mods[name].get("pkg"):
        return name
    return name.rsplit(".", 1)[0] if "." in name else ""


def relpath(mods, name):
    p = name.replace(".", "/")
    return f"{p}/__init__.py" if mods[name].get("pkg") else f"{p}.pyc" if mods[name].get("sourceless") else f"{p}.py"


def import_from(mods, me, dep):
    """The text between `from` and `import`."""
    to = dep["to"]
    pkg = package_of(mods, me)
    if not dep.get("rel") or not pkg:
        return to
    src = pkg.split(".")
    dst = to.split(".")
    k = 0
    while k < len(src) and k < len(dst) - 1 and src[k] == dst[k]:
        k += 1
    if k == 0:
        return to
    return "." * (len(src) - k + 1) + ".".join(dst[k:])


def macro_name(to, how):
    return f"{MACRO[how]}_{base(to)}"


def render_use(mods, me, i, dep, tgt):
    """Source lines: (macro-import, use)"""
    how = dep["how"]
    name = macro_name(dep["to"], how)
    alias = f"zz{i}" if dep.get("as") else name
    what = f"{name} as {alias}" if dep.get("as") else name
    src = import_from(mods, me, dep)
    if dep.get("paren"):
        imp = f"from {src} import (macros,  # several lines\n                  {what})\n"
    else:
        imp = f"from {src} import macros, {what}\n"
    if how == "expr":
        use = f"{tgt} = {alias}[VER]\n"
    elif how == "block":
        use = f"with {alias}:\n    {tgt} = None\n"
    elif how == "deco":
        use = f"@{alias}\ndef {tgt}():\n    pass\n"
    elif how == "name":
        use = f"{tgt} = {alias}\n"
    else:
        use = f"{tgt} = {alias}['arg', 1][VER]\n"
    if dep.get("indef"):
        # the invocation is inside a function body
        body = "".join(f"    {line}\n" for line in use.rstrip("\n").split("\n"))
        use = f"def _fn_{tgt}():\n{body}    return {tgt}\n{tgt} = _fn_{tgt}()\n"
    return imp, use


def render_main(name, m):
    """The end of a module that may be started as the main program."""
    out = ["import sys as _sys, __main__ as _main\n",
           f"_sim.note('ran', {name!r}, __name__, __package__, _os.path.abspath(__file__), _sys.path[0], vars(_main) is globals(), {'None' if m.get('ddeps') else 'RESULT'},\n"
           "          _sys.modules.get(__name__) is not None and vars(_sys.modules[__name__]) is globals(), _sys.path[1])\n",
           "if True:\n" if name.endswith(".__main__") else "if __name__ == '__main__':\n"]
    body = ["_sim.point('main:body')\n"]
    for x in m["imports"]:
        body.append(f"import {x}\n_sim.note('imported', {x!r}, {x}.RESULT)\n")
    if m.get("self"):
        body.append(f"import {name} as _again\n_sim.note('again', _again is _main, _again.RESULT, _again.__name__)\n")
    if m.get("raises"):
        what = m["raises"]
        if what == "import":
            body.append("import no.such.module\n")
        elif what == "importfrom":
            body.append("from _sim import no_such_name\n")
        elif what == "exit":
            body.append("_sys.exit(3)\n")
        else:
            body.append(f"raise {what}('the program fails')\n")
    body.append("_sim.note('finished')\n")
    return "".join(out) + "".join(indent(b) for b in body)


def indent(text):
    return "".join(f"    {line}\n" if line else "\n" for line in text.rstrip("\n").split("\n"))


MACRODEF = '''
def _emit_{b}(kind, expander):
    _sim.note("expand", {name!r}, _os.path.basename(_os.path.dirname(expander.filename)) + "/" + _os.path.basename(expander.filename))
    _sim.point("macro:{b}")
    {emit}
def f_{b}(tree, *, syntax, expander, **kw):
    "expr macro"
    assert syntax == "expr", syntax
    return _emit_{b}("f", expander)
def b_{b}(tree, *, syntax, expander, **kw):
    "block macro"
    assert syntax == "block", syntax
    for stmt in tree:
        stmt.value = _emit_{b}("b", expander)
    return tree
def d_{b}(tree, *, syntax, expander, **kw):
    "decorator macro"
    assert syntax == "decorator", syntax
    return _ast.Assign(targets=[_ast.Name(id=tree.name)], value=_emit_{b}("d", expander))
@_namemacro
def n_{b}(tree, *, syntax, expander, **kw):
    "identifier macro"
    assert syntax == "name", syntax
    return _emit_{b}("n", expander)
@_parametricmacro
def p_{b}(tree, *, args, syntax, expander, **kw):
    "parametric macro"
    assert syntax == "expr", syntax
    assert [a.value for a in args] == ["arg", 1], args
    return _emit_{b}("p", expander)
'''


def first_expr_dep(mod):
    for i, dep in enumerate(mod["deps"]):
        if dep["how"] == "expr" and not dep.get("phase"):
            return i, dep
    return None


def emit_mode(mod):
    q = mod.get("quote") or "ast"
    if q == "hm" and first_expr_dep(mod) is None:
        return "u"
    return q


def render(mods, name):
    mod = mods[name]
    b = base(name)
    multi = mod.get("multi", 0)
    me = {None: "__self__", "abs": name, "rel": f".{name.rsplit('.', 1)[-1]}"}[None if mod.get("main") is not None else mod.get("selfname")]
    out = []
    out.append("# -*- coding: utf-8; -*-\n")
    out.append(f'"""Module {name}."""\n')
    if mod.get("future"):
        out.append("from __future__ import annotations\n")
    if mod.get("decoy"):
        out.append("# from nosuchmodule import macros, nothing\n")
        out.append("DECOY = 'from nosuchmodule import macros, nothing'\n")
    if mod.get("bulk"):
        out.append("BULK = (" + ", ".join(f"'{name}-{i:05d}'" for i in range(mod["bulk"])) + ",)\n")
    if mod.get("surface"):
        out.append(SURFACE)
    for dd in mod.get("ddeps", ()):
        out.append(f"from {import_from(mods, name, dd)} import dialects, D_{base(dd['to'])}\n")
    out.append("import ast as _ast\nimport os as _os\nimport _sim\n")
    out.append(f"_sim.point('exec:{b}')\n") if mod.get("execpoint") else None
    quote = emit_mode(mod) if mod["kind"] == "macro" else None
    if quote in ("u", "h", "hm"):
        out.append("from mcpyrate.quotes import macros, q, u, a, h\n")
    if multi:
        out.append("from mcpyrate.multiphase import macros, phase\n")
    out.append(f"VER = {mod['ver']}\n")
    if mod["kind"] == "macro":
        out.append("from mcpyrate import namemacro as _namemacro, parametricmacro as _parametricmacro\n")
    # higher phases
    for k in range(multi, 0, -1):
        body = ["import ast as _ast\nimport os as _os\nimport _sim\n", f"VER = {mod['ver']}\n"]
        names = []
        for i, dep in enumerate(mod["deps"]):
            if dep.get("phase") == k:
                imp, use = render_use(mods, name, i, dep, f"P{k}_{i}")
                body += [imp, use]
                names.append(f"P{k}_{i}")
        up = "()"
        if k < multi:
            body.append(f"from {me} import macros, g{k + 1}\n")
            body.append(f"UP{k} = g{k + 1}[0]\n")
            up = f"(UP{k},)"
        body.append(f"PH{k} = __phase__\n")
        body.append(f"def g{k}(tree, *, syntax, expander, **kw):\n"
                    f"    _sim.note('expand', {name!r}, _os.path.basename(_os.path.dirname(expander.filename)) + '/' + _os.path.basename(expander.filename))\n"
                    f"    _sim.point('phase{k}:{b}')\n"
                    f"    return _ast.parse(repr(('g', {k}, PH{k}, VER, ({''.join(n + ', ' for n in names)}), {up})), mode='eval').body\n")
        out.append(f"with phase[{k}]:\n" + "".join(indent(x) for x in body))
    values = []
    for i, dep in enumerate(mod["deps"]):
        if not dep.get("phase"):
            imp, use = render_use(mods, name, i, dep, f"V{i}")
            out += [imp, use]
            values.append(f"V{i}")
    gvals = []
    for k in range(1, multi + 1):
        if k == 1 or mod.get("multi_all"):
            out.append(f"from {me} import macros, g{k}\nG{k} = g{k}[0]\n")
            gvals.append(f"G{k}")
    rvals = []
    for i, r in enumerate(mod.get("rdeps", ())):
        out.append(f"import {r}\n")
        rvals.append(f"{r}.RESULT")
    ph = "(__phase__,)" if multi else "()"
    out.append(f"RESULT = ({name!r}, VER, ({''.join(v + ', ' for v in values)}), ({''.join(v + ', ' for v in gvals)}), {ph}, ({''.join(v + ', ' for v in rvals)}))\n")
    if mod.get("main") is not None:
        out.append(render_main(name, {**mod["main"], "ddeps": mod.get("ddeps")}))
    if mod["kind"] == "macro":
        if quote == "ast":
            emit = "return _ast.parse(repr(RESULT), mode='eval').body"
        elif quote == "u":
            emit = "return q[u[RESULT]]"
        elif quote == "h":
            emit = "return q[h[RESULT]]"
        else:
            i, dep = first_expr_dep(mod)
            alias = f"zz{i}" if dep.get("as") else macro_name(dep["to"], "expr")
            emit = f"return q[('hm', u[RESULT], h[{alias}][0])]"
        out.append(MACRODEF.format(b=b, name=name, emit=emit))
    if mod["kind"] == "dialect":
        out.append("from mcpyrate.dialects import Dialect as _Dialect\n")
        out.append(f"class D_{b}(_Dialect):\n    'a dialect'\n")
        note = f"_sim.note('dialect', {name!r}, %r, _os.path.basename(_os.path.dirname(self.expander.filename)) + '/' + _os.path.basename(self.expander.filename)); _sim.point('dialect:%s:{b}')"
        any_stage = False
        for st in STAGES:
            if st not in mod["dial"]:
                continue
            any_stage = True
            tail = f"'RESULT = (*RESULT, ' + repr(('d', {st!r}, RESULT)) + ')\\n'"
            n = note % (st, st)
            if st == "src":
                out.append(f"    def transform_source(self, text):\n        {n}\n"
                           f"        return text.replace({SURFACE!r}, '') + {tail}\n")
            elif st == "ast":
                out.append(f"    def transform_ast(self, tree):\n        {n}\n"
                           f"        tree.body.extend(_ast.parse({tail}).body)\n        return tree\n")
            else:
                out.append(f"    def postprocess_ast(self, tree):\n        {n}\n"
                           f"        tree.body.extend(_ast.parse({tail}).body)\n        return tree\n")
        if not any_stage:
            out.append("    pass\n")
    return "".join(x for x in out if x)


# --------------------------------------------------------------------------------
# Reference model

class Model:
    """What modules evaluate to, when freshly expanded from the given sources."""
    def __init__(self, mods, ver=None):
        self.mods = mods
        self.memo = {}
        self.ver = ver or (lambda name: mods[name]["ver"])

    def emit(self, name):
        mod = self.mods[name]
        if emit_mode(mod) == "hm":
            return ("hm", self.value(name), self.emit(first_expr_dep(mod)[1]["to"]))
        return self.value(name)

    def value(self, name):
        if name in self.memo:
            return self.memo[name]
        mod = self.mods[name]
        ver = self.ver(name)
        vals = tuple(self.emit(d["to"]) for d in mod["deps"] if not d.get("phase"))
        multi = mod.get("multi", 0)

        def g(k, ph):
            """`g{k}`, as used in phase `ph - 1`, i.e. as defined in phase `ph`. The code of each phase is also run in each lower phase."""
            deps = tuple(self.emit(d["to"]) for d in mod["deps"] if d.get("phase") == k)
            up = (g(k + 1, ph + 1),) if k < multi else ()
            return ("g", k, ph, ver, deps, up)
        gv = tuple(g(k, 1) for k in range(1, multi + 1) if k == 1 or mod.get("multi_all"))
        ph = (0,) if multi else ()
        rv = tuple(self.value(r) for r in mod.get("rdeps", ()))
        out = (name, ver, vals, gv, ph, rv)
        for st in STAGES:
            for dd in mod.get("ddeps", ()):
                if st in self.mods[dd["to"]]["dial"]:
                    out = (*out, ("d", st, self.value(dd["to"])))
        self.memo[name] = out
        return out


def macro_deps(mods, name):
    mod = mods[name]
    return {d["to"] for d in mod["deps"]} | {d["to"] for d in mod.get("ddeps", ())}


def macro_closure(mods, name):
    """`name` and everything its expansion depends on."""
    seen = set()
    todo = [name]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(macro_deps(mods, x))
    return seen


def load_closure(mods, name):
    """Everything that gets loaded when `name` is imported (parent packages included)."""
    seen = set()
    todo = [name]
    while todo:
        x = todo.pop()
        if x in seen or x not in mods:      # namespace packages are not in the tree
            continue
        seen.add(x)
        todo.extend(macro_deps(mods, x))
        todo.extend(mods[x].get("rdeps", ()))
        todo.extend((mods[x].get("main") or {}).get("imports", ()))
        parts = x.split(".")
        for k in range(1, len(parts)):
            todo.append(".".join(parts[:k]))
    return seen


def matches(value, mods, name, versions):
    """Does `value` agree with the tree, up to the version numbers listed as acceptable in `versions`?

    Returns an explanation of the first disagreement, or `None`.
    """
    def vers(n):
        return versions.get(n, {mods[n]["ver"]})

    def check_emit(v, n):
        mod = mods[n]
        if emit_mode(mod) == "hm":
            if not (isinstance(v, tuple) and len(v) == 3 and v[0] == "hm"):
                return f"bad hygienic value for {n}: {v!r}"
            return check(v[1], n) or check_emit(v[2], first_expr_dep(mod)[1]["to"])
        return check(v, n)

    def check(v, n):
        mod = mods[n]
        if not isinstance(v, tuple) or len(v) < 6 or v[0] != n:
            return f"not a result of module {n}: {v!r}"
        if v[1] not in vers(n):
            return f"version {v[1]} of {n} found, expected {sorted(vers(n))}"
        deps = [d for d in mod["deps"] if not d.get("phase")]
        if len(v[2]) != len(deps):
            return f"{n}: wrong macro values {v[2]!r}"
        for x, d in zip(v[2], deps):
            e = check_emit(x, d["to"])
            if e:
                return f"{e} (expanded into {n})"
        multi = mod.get("multi", 0)

        def check_g(x, k, ph):
            if not (isinstance(x, tuple) and len(x) == 6 and x[:3] == ("g", k, ph)):
                return f"{n}: wrong phase {k} value {x!r}"
            if x[3] not in vers(n):
                return f"version {x[3]} of {n} found in phase {k}, expected {sorted(vers(n))}"
            pd = [d for d in mod["deps"] if d.get("phase") == k]
            if len(x[4]) != len(pd):
                return f"{n}: wrong phase {k} value {x!r}"
            for y, d in zip(x[4], pd):
                e = check_emit(y, d["to"])
                if e:
                    return f"{e} (expanded into phase {k} of {n})"
            if k < multi:
                if len(x[5]) != 1:
                    return f"{n}: wrong phase {k} value {x!r}"
                return check_g(x[5][0], k + 1, ph + 1)
            return None if x[5] == () else f"{n}: wrong phase {k} value {x!r}"
        ks = [k for k in range(1, multi + 1) if k == 1 or mod.get("multi_all")]
        if len(v[3]) != len(ks):
            return f"{n}: wrong phase values {v[3]!r}"
        for x, k in zip(v[3], ks):
            e = check_g(x, k, 1)
            if e:
                return e
        if v[4] != ((0,) if multi else ()):
            return f"{n}: wrong phase number {v[4]!r}"
        rd = mod.get("rdeps", ())
        if len(v[5]) != len(rd):
            return f"{n}: wrong run-time values {v[5]!r}"
        for x, r in zip(v[5], rd):
            e = check(x, r)
            if e:
                return f"{e} (imported by {n})"
        tails = [(st, dd["to"]) for st in STAGES for dd in mod.get("ddeps", ()) if st in mods[dd["to"]]["dial"]]
        if len(v) - 6 != len(tails):
            return f"{n}: dialects applied: {[t[1] for t in v[6:]]!r}, expected {tails!r}"
        for x, (st, d) in zip(v[6:], tails):
            if not (isinstance(x, tuple) and len(x) == 3 and x[:2] == ("d", st)):
                return f"{n}: wrong dialect value {x!r}"
            e = check(x[2], d)
            if e:
                return f"{e} (dialect applied to {n}, {st})"
        return None
    return check(value, name)


# --------------------------------------------------------------------------------

def gen_tree(rng, *, dialects=True, multiphase=True, packages=True, quotes=True, nmac=None, nleaf=None, bulk=True):
    mods = {}
    nmac = nmac or rng.choice((1, 2, 2, 3, 3, 4))
    nleaf = nleaf or rng.choice((1, 2, 2, 3))
    ndial = rng.choice((0, 0, 1, 2)) if dialects else 0
    use_pkg = packages and rng.random() < 0.5
    sub = use_pkg and rng.random() < 0.4

    def place(n):
        if not use_pkg:
            return n
        r = rng.random()
        if sub and r < 0.3:
            return f"pk.sub.{n}"
        return f"pk.{n}" if r < 0.75 else n
    order = []   # dependency order
    if use_pkg:
        mods["pk"] = {"kind": "leaf", "pkg": True, "ver": 1, "deps": []}
        if sub:
            mods["pk.sub"] = {"kind": "leaf", "pkg": True, "ver": 1, "deps": []}
    seq = [("macro", f"m{i}") for i in range(nmac)]
    for i in range(ndial):
        seq.insert(rng.randint(0, len(seq)), ("dialect", f"d{i}"))
    seq += [("leaf", f"u{i}") for i in range(nleaf)]
    macs, dials = [], []
    for kind, short in seq:
        name = place(short)
        mod = {"kind": kind, "ver": 1, "deps": []}
        mods[name] = mod
        maxdeps = 3 if kind == "leaf" else 2
        lo = 1 if kind == "leaf" else 0
        k = min(len(macs), rng.randint(lo, maxdeps))
        for to in sorted(rng.sample(macs, k)):
            dep = gen_dep(rng, mods, name, to)
            mod["deps"].append(dep)
        if mod["deps"] and rng.random() < 0.15:     # the same macro module in two macro-imports
            to = mod["deps"][0]["to"]
            dep = gen_dep(rng, mods, name, to)
            if dep["how"] != mod["deps"][0]["how"]:
                mod["deps"].append(dep)
        if dials and kind != "dialect" and rng.random() < (0.6 if kind == "leaf" else 0.2):
            for to in sorted(rng.sample(dials, rng.randint(1, len(dials)))):
                mod.setdefault("ddeps", []).append({"to": to, "rel": rng.random() < 0.5})
            if any("src" in mods[d["to"]]["dial"] for d in mod["ddeps"]) and rng.random() < 0.4:
                mod["surface"] = True
                for dep in mod["deps"]:
                    dep.pop("paren", None)   # as documented, in surface syntax only single-line imports can be found
        if multiphase and kind in ("leaf", "macro") and rng.random() < 0.3:
            mod["multi"] = rng.choice((1, 1, 2, 3))
            mod["multi_all"] = rng.random() < 0.5
            if rng.random() < 0.3:      # macro-imports from itself, by its own name
                mod["selfname"] = rng.choice(("abs", "rel") if "." in name else ("abs",))
            for dep in mod["deps"]:
                if rng.random() < 0.6:
                    dep["phase"] = rng.randint(1, mod["multi"])
        if quotes and kind == "macro":
            mod["quote"] = rng.choice(("ast", "ast", "u", "h", "hm"))
            if mod["quote"] == "ast" and not mod["deps"] and not mod.get("ddeps") and not mod.get("multi") and rng.random() < 0.15:
                mod["sourceless"] = True    # distributed as byte code only
        if kind == "dialect":
            mod["dial"] = sorted(rng.sample(STAGES, rng.randint(1, 3)), key=STAGES.index)
        if rng.random() < 0.2:
            mod["future"] = True
        if rng.random() < 0.2:
            mod["decoy"] = True
        if bulk and rng.random() < 0.1:
            mod["bulk"] = rng.choice((20, 400))
        if kind == "leaf":
            leaves = [m for m in order if mods[m]["kind"] == "leaf"]
            if leaves and rng.random() < 0.4:
                mod["rdeps"] = sorted(rng.sample(leaves, rng.randint(1, min(2, len(leaves)))))
        order.append(name)
        if kind == "macro":
            macs.append(name)
        elif kind == "dialect":
            dials.append(name)
    if use_pkg and rng.random() < 0.4:
        # a macro-enabled package `__init__`, using a macro module that does not import anything from the package
        ok = [m for m in macs if not any(x.startswith("pk") for x in load_closure(mods, m) if x != m) and not m.startswith("pk.")]
        if ok:
            to = rng.choice(ok)
            mods["pk"]["deps"].append(gen_dep(rng, mods, "pk", to))
    return mods


def gen_dep(rng, mods, me, to):
    dep = {"to": to, "how": rng.choice(HOWS)}
    for flag, p in (("rel", 0.5), ("as", 0.3), ("paren", 0.2), ("indef", 0.15)):
        if rng.random() < p:
            dep[flag] = True
    return dep


def gen_env(rng):
    """Where the tree is, and what else is on `sys.path`."""
    r = rng.random()
    if r < 0.75:
        return {}
    if r < 0.82:
        return {"roots": ["sr"]}                # another directory, with a name like the beginning of ours
    if r < 0.86:
        return {"roots": ["."]}                 # the directory that contains ours
    if r < 0.92:
        return {"roots": ["."], "dot": True}    # the same, and ours is the current directory
    return {"src": "lib/python3.12/site-packages", "stdlib": "lib/python3.12/os.py"}
