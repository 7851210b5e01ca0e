"""Writes properties.jsonl (one place to edit the wording)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "An import never runs a stale expansion",
     "Importing or reloading a macro-enabled module always executes what a fresh, cache-free expansion of the current sources would execute, even when byte code and dependency caches left by earlier processes are used. It holds after any edit anywhere in the transitive macro-dependency graph: macro providers, dialects, relative and parenthesised and aliased macro-imports, macro-imports nested in phases, packages, added and removed dependencies.",
     ["histories", "programs", "schedules"],
     "for all source trees, all histories of edits (also with older modification times, also in the middle of an import) and process lifetimes, as long as each edit moves the newest modification time found among the module and its macro-dependencies by at least a second (byte code is stamped with that maximum, in seconds, like in `make`)",
     "The tests import one tree once, in one process, without any history of edits and caches; staleness needs a cache written by an earlier process and an edit in between.",
     ["mcpyrate/importer.py", "mcpyrate/coreutils.py", "mcpyrate/multiphase.py"],
     [("path_stats, the recursive macro-dependency time stamp", "mcpyrate/importer.py:path_stats"),
      ("persistent cache of macro-import statements", "mcpyrate/importer.py:path_stats (.mcpyrate.pickle)"),
      ("resolution of the source files of macro-imports", "mcpyrate/coreutils.py:resolve_package, relativize")],
     [("pickle cache", "macro-import statements of a source file, by its mtime", "__pycache__/*.mcpyrate.pickle"),
      ("byte code", "expanded module, stamped with the newest mtime of its macro-dependencies", "__pycache__/*.pyc")])

prop("C02", "Unchanged modules are not expanded again, also after faults",
     "Once a module has been imported without faults by a process that may write byte code, later processes import it without calling any macro or dialect on it, until it or something in its transitive macro-dependency graph changes. After any sequence of crashes and I/O faults stops, one clean import suffices to get back to this state.",
     ["histories", "crash_points", "fault_sequences"],
     "for all source trees and all histories of edits, cache removals, crashes and failed writes, followed by fault-free process lifetimes",
     "The tests never look at whether a cache was used, and never run two processes over one tree.",
     ["mcpyrate/importer.py", "mcpyrate/coreutils.py"],
     [("path_stats returns a value that is stable as long as nothing changes", "mcpyrate/importer.py:path_stats"),
      ("source_to_xcode only on a byte code miss", "mcpyrate/importer.py:source_to_xcode")])

prop("C03", "Cache files and I/O faults never break or change an import",
     "A missing, empty, truncated, garbled, unreadable, unwritable or concurrently replaced dependency cache, a full or read-only disk, a crash at any point of a cache write, and concurrent importers never make an import fail and never change its result. An I/O error can surface only when the source itself cannot be read, and after it the same import can be retried successfully.",
     ["fault_sequences", "crash_points", "schedules"],
     "for all source trees, all placements of I/O errors, torn and short writes, crashes and cache damage, and all interleavings of concurrent importing processes at file system calls",
     "The tests run on a healthy file system, in one process, and never crash while writing.",
     ["mcpyrate/importer.py"],
     [("best-effort load of the dependency cache", "mcpyrate/importer.py:path_stats"),
      ("best-effort save of the dependency cache", "mcpyrate/importer.py:path_stats")],
     [("pickle cache", "may be torn or damaged at any time", "__pycache__/*.mcpyrate.pickle")])

prop("C04", "Hygienic captures survive restarts from byte code",
     "A value captured hygienically during expansion is, in any later process that loads the module from byte code, equal to what it was when the module was expanded, independent of what the macro module holds by then. A hygienically captured macro still expands, in any process that expands code containing the capture, no matter what it is called there.",
     ["histories", "crash_points"],
     "for all captured picklable values and macros, and all histories of cold, warm and crashed process lifetimes over the same byte code",
     "The tests expand and run in the same process, where the captured object itself is still in memory; the frozen copy is never thawed from byte code.",
     ["mcpyrate/quotes.py", "mcpyrate/core.py"],
     [("capture_value, lookup_value: pickle in the byte code", "mcpyrate/quotes.py:capture_value, lookup_value"),
      ("capture_macro, lookup_macro", "mcpyrate/quotes.py:capture_macro, lookup_macro"),
      ("global macro bindings", "mcpyrate/core.py:add_postprocessor, global_bindings")],
     [("frozen value", "pickled bytes inside the expanded code", "call of lookup_value in the byte code"),
      ("thaw cache", "one live object per frozen value", "mcpyrate/quotes.py:_lookup_value_cache")])

prop("C05", "Hygienic captures never alias and never go stale",
     "Each evaluation of a hygienic capture yields the value that was captured there, never the value of another capture, regardless of which captures were made before, which captured objects have been garbage collected, and in which order and thread captured code runs. Separate captures stay separate objects even when their values are equal, and repeated runs of one capture site see one and the same object.",
     ["histories", "schedules"],
     "for all histories of capturing, discarding, garbage collection, running and re-running captured code, also in several threads",
     "Aliasing needs a particular history: an object freed and its address reused, or two captures with equal contents; a test captures one value and looks at it at once.",
     ["mcpyrate/quotes.py", "mcpyrate/core.py"],
     [("frozen value with a unique key", "mcpyrate/quotes.py:capture_value"),
      ("thaw cache", "mcpyrate/quotes.py:lookup_value"),
      ("unique bindings of captured macros", "mcpyrate/quotes.py:capture_macro, mcpyrate/core.py:global_bindings")],
     [("thaw cache", "one live object per capture site", "mcpyrate/quotes.py:_lookup_value_cache")])

prop("C06", "A multi-phase import is all or nothing",
     "Importing, reloading or compiling a module with several phases leaves exactly one module object behind, complete, in phase 0, with each higher phase run before each lower one and visible in it; during the compilation the module registered by the import system is what other code gets back afterwards. When any phase, macro or dialect fails at any point, by whatever exception, the state of the module table and of the parent package is as if the compilation had not been tried, and trying again once the cause is gone succeeds.",
     ["fault_sequences", "histories", "programs"],
     "for all multi-phase modules (top level, in packages, reloaded, compiled at run time) and all points at which an exception of any kind can arise, and all sequences of failing and succeeding attempts",
     "The tests compile each multi-phase module once and successfully; rollback is exercised by no test.",
     ["mcpyrate/multiphase.py", "mcpyrate/compiler.py", "mcpyrate/importer.py"],
     [("multiphase_expand, temporary module in the module table", "mcpyrate/multiphase.py:multiphase_expand"),
      ("phase extraction and lifting", "mcpyrate/multiphase.py:split_multiphase_module_ast"),
      ("reserved module for the final phase", "mcpyrate/compiler.py:expand")],
     [("module table", "temporary module during each phase", "sys.modules")])

prop("C07", "A failed expansion leaves the expander usable and its state balanced",
     "After a macro expansion ends by an exception of any kind at any point, be it in a macro, in a nested expansion, in quoting machinery, in a debug hook or in writing diagnostics, the same expander and all later expansions behave exactly as if the failed expansion had not been attempted. Expansion mode, quasiquote nesting level, debug hooks and binding tables are what they were before.",
     ["fault_sequences", "histories"],
     "for all programs invoking macros in nested modes, quotes and step expansion, all points at which an exception arises, and all sequences of failed and successful expansions over one expander",
     "The tests run each expansion on a fresh expander and let it succeed.",
     ["mcpyrate/core.py", "mcpyrate/expander.py", "mcpyrate/quotes.py", "mcpyrate/debug.py", "mcpyrate/utils.py"],
     [("recursive mode, restored on exit", "mcpyrate/core.py:BaseMacroExpander._recursive_mode, mcpyrate/expander.py"),
      ("quote level", "mcpyrate/utils.py:NestingLevelTracker"),
      ("step expansion hook", "mcpyrate/debug.py:step_expansion, mcpyrate/core.py:debughook")],
     [("expander.recursive", "whether expansion continues in the output", "mcpyrate/core.py"),
      ("quote level", "how many quotes surround the current node", "mcpyrate/quotes.py:_quotelevel")])

prop("C08", "A failing macro is reported with its cause and use sites",
     "When a macro raises an exception or returns something that is not valid as its result, the expansion fails with an error whose cause is the original exception and whose message lists the file, line and macro name of each macro use site involved, outermost first; exceptions that are not errors (such as an interrupt) pass through unchanged. The module being imported is not left behind half-imported, and once the macro works the import succeeds in the same process.",
     ["fault_sequences", "programs", "histories"],
     "for all nestings of macro invocations of every kind, over one or several files, and all exceptions raised at any of the macros, before or after it expands its input recursively",
     "The tests check one or two hand-made errors; cause, order and position for nested use sites and for each kind of exception are not enumerated.",
     ["mcpyrate/core.py", "mcpyrate/expander.py", "mcpyrate/importer.py", "mcpyrate/utils.py"],
     [("MacroExpansionError chain and use site reports", "mcpyrate/core.py:BaseMacroExpander.expand"),
      ("location formatting", "mcpyrate/utils.py:format_location, format_macrofunction"),
      ("import error handling", "mcpyrate/importer.py:source_to_xcode")])

prop("C09", "Concurrent expansion in threads equals sequential expansion",
     "When several threads of one process expand, compile and import macro-enabled code at the same time, each gets what it would have got alone, in every interleaving. State belonging to an expansion in progress, such as quote nesting, expansion mode and macro bindings, never leaks between threads.",
     ["schedules"],
     "for all sets of expansion tasks with their own expanders (quasiquotes, hygienic captures, macros, dialects, imports of different and of shared modules) and all interleavings at line boundaries of the threads",
     "The tests are single-threaded, and the interleavings in which shared state leaks are rare in real runs.",
     ["mcpyrate/quotes.py", "mcpyrate/utils.py", "mcpyrate/core.py", "mcpyrate/importer.py", "mcpyrate/compiler.py", "mcpyrate/dialects.py"],
     [("quote level, per thread", "mcpyrate/utils.py:NestingLevelTracker"),
      ("global bindings and postprocessors", "mcpyrate/core.py:global_bindings, global_postprocess"),
      ("thaw cache", "mcpyrate/quotes.py:lookup_value"),
      ("gensym", "mcpyrate/utils.py:gensym")])

prop("C10", "A REPL session survives failing input and keeps its macros",
     "In an interactive console session, each input behaves as the sequence of inputs before it implies: macros and variables bound earlier remain usable, a newer macro-import replaces an older one, names bound at run time behave as in plain Python. An input that fails at any stage, be it reading, expanding, compiling, running or importing, reports its error and changes nothing else; the session goes on, and later inputs behave as if the failing input had done only what its executed part did.",
     ["histories", "fault_sequences"],
     "for all sequences of inputs (definitions, macro-imports, macro uses, comments, documentation requests, incomplete and invalid input) with exceptions of any kind at any call-out",
     "The tests contain no console sessions; error recovery needs sequences of inputs with failures in between.",
     ["mcpyrate/repl/console.py", "mcpyrate/repl/utils.py"],
     [("MacroConsole.runsource", "mcpyrate/repl/console.py:MacroConsole"),
      ("macro bindings across inputs, magic module for the session", "mcpyrate/repl/console.py:MacroConsole._refresh_macro_functions"),
      ("documentation requests", "mcpyrate/repl/utils.py:doc, sourcecode")],
     [("expander bindings", "the macros bound in the session", "mcpyrate/repl/console.py:MacroConsole.expander")])

prop("C11", "The byte code cleaner deletes the caches and nothing else",
     "Removing byte code caches under a directory removes exactly the cache directories inside that directory with their contents, and nothing else: source files, files and directories that merely look similar, and whatever symbolic links point to stay as they are. It copes with caches that disappear while it works, and in listing mode it deletes nothing and reports exactly what a real run would delete.",
     ["inputs", "schedules", "fault_sequences"],
     "for all directory trees (symbolic links in and out of the tree, look-alike names, read-only and nested directories), and all concurrent deletions and I/O errors at each file system call",
     "The cleaner has no tests; it deletes files, and what matters is what happens on unusual trees and in races.",
     ["mcpyrate/pycachecleaner.py"],
     [("getpycachedirs, deletepycachedirs", "mcpyrate/pycachecleaner.py")])

prop("C12", "Run-time modules are registered and removed exactly",
     "Creating a module at run time registers it under exactly the given name and in its parent package, or, when anything goes wrong, changes nothing; a temporary module's name is gone from both places when its context ends in any way, and no other module is affected. Code run in a module uses that module's namespace, documentation string and name, and a run that fails leaves the modules registered before as they were.",
     ["histories", "fault_sequences"],
     "for all histories of creating, running, nesting, shadowing and deleting modules, with and without parent packages, and all points at which the code inside fails or removes modules itself",
     "The tests create a few modules in the regular order; cleanup after failures and for nested, shadowed or removed names is not exercised.",
     ["mcpyrate/compiler.py"],
     [("create_module", "mcpyrate/compiler.py:create_module"), ("temporary_module", "mcpyrate/compiler.py:temporary_module"),
      ("run", "mcpyrate/compiler.py:run")],
     [("module table and parent attributes", "where modules are registered", "sys.modules")])

prop("C13", "Generated names are unique",
     "A generated symbol is a valid identifier, starts with what the caller asked for, and is never equal to another one generated in the same process or in another process whose system entropy differs, whatever the program does to the seedable random number generator, the clock and the process table. This holds even when the entropy source repeats itself within a process.",
     ["histories", "fault_sequences", "configurations"],
     "for all histories of symbol generation with arbitrary base names across processes and forks, with a repeating entropy source, frozen or rewound clock, and re-seeded random number generator",
     "A collision needs the entropy source to repeat, or two processes with equal seeds; tests cannot wait for that.",
     ["mcpyrate/utils.py"],
     [("gensym", "mcpyrate/utils.py:gensym")],
     [("uuids already used", "generated names", "mcpyrate/utils.py:_previous_gensyms")])

prop("C14", "Dialects are applied once, in order, or fail cleanly",
     "Each dialect a module imports transforms it exactly once per stage, in the order in which the module imports them: first all source transformers, each seeing the text as left by the ones before it (also when that reveals further dialect-imports), then the tree transformers, then macro expansion, then the tree postprocessors. A stage that declines is skipped; a stage that fails or returns nothing makes the import fail with the original error as cause, exceptions that are not errors pass unchanged, and in either case the module is not left behind and the import can be retried; the debugging dialect changes nothing but what is printed.",
     ["programs", "fault_sequences", "histories"],
     "for all sequences of dialects with any subset of stages, dialect-imports added by source transformers, and any exception at any stage, over several import attempts",
     "The tests apply single dialects successfully; combinations and failing stages are not covered.",
     ["mcpyrate/dialects.py", "mcpyrate/compiler.py"],
     [("DialectExpander.transform_source, transform_ast, postprocess_ast", "mcpyrate/dialects.py"),
      ("StepExpansion", "mcpyrate/dialects.py:StepExpansion"), ("pipeline", "mcpyrate/compiler.py:expand")])

prop("C15", "The bootstrapper runs a main program like Python, with macros",
     "Running a program through the macro-enabled launcher, as a script or as a module, executes it once as the main program with its macros expanded and with the package, search path and import behaviour that plain Python would give it, independent of what caches earlier runs left or damaged. A package runs its `__main__` module. A program that fails passes its exception on, and the launcher restores the previous main module.",
     ["histories", "fault_sequences", "crash_points"],
     "for all source trees with a main program, started as a script or as a module, and all histories of edits, crashes, I/O faults and damaged caches between runs",
     "The tests never start a program through the launcher.",
     ["mcpyrate/repl/macropython.py", "mcpyrate/importer.py"],
     [("import_module_as_main", "mcpyrate/repl/macropython.py:import_module_as_main"), ("main", "mcpyrate/repl/macropython.py:main")],
     [("main module", "replaced by the program that runs", "sys.modules['__main__']")])

prop("C16", "Activation can be switched on and off in any order",
     "Activating macro support makes every later import expand macros, and deactivating it restores the import system's own behaviour exactly, in any sequence of activations and deactivations, also when repeated. Modules without macros import identically in both states, and switching state never affects modules already loaded.",
     ["histories", "fault_sequences"],
     "for all sequences of activation, deactivation, imports and reloads (also in other modules' code, also with failing imports) over modules with and without macros, with and without byte code caches",
     "The tests activate once at start-up and never deactivate.",
     ["mcpyrate/activate.py", "mcpyrate/importer.py"],
     [("activate, deactivate", "mcpyrate/activate.py"), ("patched source loader", "mcpyrate/importer.py")],
     [("the source loader's methods", "replaced while active", "importlib.machinery.SourceFileLoader")])

PURE = [
    ("C17", "Unparsed code parses back to the same tree",
     "For every syntax tree Python's parser can produce, unparsing it and parsing the result gives an equal tree. Invisible nodes of the macro expander are rendered readably instead of failing.",
     "for all syntax trees", ["mcpyrate/unparser.py"], [("unparse", "mcpyrate/unparser.py:unparse")]),
    ("C18", "Quasiquotes build exactly the quoted tree",
     "A quasiquote evaluates to a tree equal to the parsed quoted code, with each unquote replaced by the value it denotes, and undoing the conversion gives back the original source tree.",
     "for all quoted code and unquoted values", ["mcpyrate/quotes.py"], [("astify, unastify", "mcpyrate/quotes.py:astify, unastify")]),
    ("C19", "Macro invocations bind and expand in the documented order",
     "Each invocation form (expression, block, decorator, name, parametric) calls the macro bound to that name with the documented arguments, outside-in by default, left to right in one with statement and innermost first for decorators; unbound names are left alone.",
     "for all programs", ["mcpyrate/expander.py", "mcpyrate/core.py"], [("MacroExpander visitors", "mcpyrate/expander.py:MacroExpander")]),
    ("C20", "Fixed trees have correct contexts and locations",
     "After expansion every node has a valid context and a source location, and locations already present are kept.",
     "for all trees", ["mcpyrate/astfixers.py"], [("fix_ctx, fix_locations", "mcpyrate/astfixers.py")]),
    ("C21", "Templates are spliced without loss",
     "Splicing statements, expressions or a dialect template puts the given code at the marked place and keeps everything else, including documentation strings, future-imports and dialect- and macro-imports at the top.",
     "for all templates and bodies", ["mcpyrate/splicing.py"], [("splice_dialect and friends", "mcpyrate/splicing.py")]),
    ("C22", "Tree walkers visit everything and renaming is complete",
     "Walkers visit each node once with properly scoped state, and renaming changes each occurrence of a name in each kind of node that can hold one.",
     "for all trees", ["mcpyrate/walkers.py", "mcpyrate/metatools.py", "mcpyrate/utils.py"], [("ASTTransformer, ASTVisitor", "mcpyrate/walkers.py"), ("rename", "mcpyrate/utils.py:rename")]),
]
for id, title, st, text, files, mech in PURE:
    prop(id, title, st, ["inputs"], text, "Tests sample inputs; the property quantifies over all of them.", files, mech)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
