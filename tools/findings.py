"""Writes known_findings.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
findings = [{
    "property": "C01", "name": "F1", "kind": "stale-or-wrong",
    "what": "a macro provider already loaded by a running process goes out of date before that process first imports another dependent of it: the dependent's byte code gets the new time stamp, but the old expansion, and stays stale in later processes",
    "spec": {"allow_f1": True, "prefix": False,
             "ops": [{"op": "proc", "write": True, "ops": [["import", "m3"], ["import", "u0"]], "faults": [{"cls": "stat:src", "n": 3, "do": "edit:m2"}]}],
             "tree": {"m2": {"kind": "macro", "ver": 1, "deps": [], "quote": "ast"},
                      "m3": {"kind": "macro", "ver": 1, "deps": [{"to": "m2", "how": "expr"}], "quote": "ast"},
                      "u0": {"kind": "leaf", "ver": 1, "deps": [{"to": "m3", "how": "expr"}]}}},
}]
extra = os.path.join(here, "tools", "findings_extra.json")
if os.path.exists(extra):
    findings += json.load(open(extra))
fixed = [
    "fixed: property=C11 a66fab8 the cleaner followed symbolic links named __pycache__ and failed on them; it now removes the link",
    "fixed: property=C12 f8f37c5 temporary_module left automatically named modules behind, and removed a module it had failed to create",
    "fixed: property=C12 7902879 temporary_module left the parent package's attribute behind when the code inside removed the module",
    "fixed: property=C12 ca1323e run took any constant at the beginning of the code, such as a number, as the docstring of the module",
    "fixed: property=C06 ed99a26 a multi-phase module with an empty docstring and a future-import did not compile",
    "fixed: property=C06 5802b0a a failing multi-phase compilation left its temporary module in the module table in place of the original",
    "fixed: property=C05 c6be8c0 hygienic captures were cached by object address: a capture could yield another capture's value, and equal captures became one object",
    "fixed: property=C08 1ce0cf4 an error raised by an iterable that a macro returned, such as a macro that is a generator, was replaced by a complaint about the macro's return type, and nested use sites were lost",
    "fixed: property=C18 e1eb82e quoting a complex number failed",
    "fixed: property=C09 9c6d229 the quasiquote nesting level was shared by all threads",
    "fixed: property=C14 491c801 a dialect-import directly followed by other lines could swallow them, so the source transformer of a second dialect never ran",
    "fixed: property=C14 6e19306 importing a module in a non-Python surface syntax failed, because the dependency scan required the text to be Python",
    "fixed: property=C14 8d0743a dialect source transformers ran on dynamically generated syntax trees, on the unparsed text, although such input skips the source stage",
    "fixed: property=C10 bd9aac9 the console died on comments ending in a question mark, and on macro-imports of modules that fail",
    "fixed: property=C10 c51ecd4 a macro-import overwrote variables named like macros imported earlier, and re-imported macros by qualified name (wrong or failing)",
    "fixed: property=C16 811c892 while macro support was active, py_compile failed with a TypeError on any file, because path_stats did not report a size",
    "fixed: property=C16 526e052 while macro support was active, importing an undecodable module without macros raised UnicodeDecodeError instead of Python's SyntaxError",
    "fixed: property=C01 21bcdb9 with a sys.path entry that is a prefix of another's name, macro-imports were resolved in the wrong package, so imports went stale or failed",
    "fixed: property=C01 295c7ff modules in site-packages below the standard library directory were not expanded and not scanned for dependencies",
    "fixed: property=C01 50922b2 importing a module failed when a macro module it uses has no source code, only byte code",
    "fixed: property=C12 11c5ef4 importing a file that macro-imports from a module created at run time failed in the dependency scan",
    "fixed: property=C15 6a7b622 macropython -m of a subpackage failed with an AttributeError, and that of a namespace package ran nothing or the wrong file",
    "fixed: property=C15 f6ce1ec an ImportError raised by the main program itself was reported as 'is a package and cannot be directly executed'",
    "fixed: property=C15 4493a7c macropython -m mod.x, where mod is a module and not a package, ran an unrelated top-level module x",
    "fixed: property=C15 5cf843f macropython SCRIPT ran another module of the same name, such as a builtin module or a package beside the script",
    "fixed: property=C09 9457ce2 while a multi-phase module was being imported, other threads importing it got the temporary module of the compiler",
    "fixed: property=C13 6f0a4e0 two threads could get the same name when the entropy source repeated itself",
    "fixed: property=C03 6df9d2d a dependency cache with a changed byte made the import fail, or could send path_stats to other macro-dependencies",
    "fixed: property=C21 c895a4b code injected after the future-imports of a body that has nothing else ended up before the last of them",
    "fixed: property=C04 5b47cdd byte code using expandr pickled all macros captured so far in the process: it failed when unrelated modules were reloaded, edited or removed",
    "fixed: property=C06 9457ce2 a package whose __init__ has phases could not import its own submodules, nor macros from them",
    "fixed: property=C01 c5aec05 importing a module that macro-imports from itself by its own name, or whose macro-dependencies form a cycle, failed with a RecursionError",
]
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
