From a66fab8a991af5eca9ee3b59500acebf628e1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 01/31] fix: pycachecleaner: delete symlinks, never follow them
 out of the tree

---
 mcpyrate/pycachecleaner.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 15cf21b..ddbc887 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -37,15 +37,21 @@ def _delete_directory_recursively(path):
 
     Ignores `FileNotFoundError`, but other errors raise. If an error occurs,
     some files and directories may already have been deleted.
+
+    Symbolic links are deleted, never followed.
     """
+    if os.path.islink(path):
+        _unlink(path)
+        return
+
     for root, dirs, files in os.walk(path, topdown=False, followlinks=False):
         for x in files:
-            try:
-                os.unlink(os.path.join(root, x))
-            except FileNotFoundError:
-                pass
+            _unlink(os.path.join(root, x))
 
         for x in dirs:
+            if os.path.islink(os.path.join(root, x)):
+                _unlink(os.path.join(root, x))
+                continue
             try:
                 os.rmdir(os.path.join(root, x))
             except FileNotFoundError:
@@ -55,3 +61,11 @@ def _delete_directory_recursively(path):
         os.rmdir(path)
     except FileNotFoundError:
         pass
+
+
+def _unlink(path):
+    """Delete a file or a symbolic link, ignoring `FileNotFoundError`."""
+    try:
+        os.unlink(path)
+    except FileNotFoundError:
+        pass
-- 
2.43.0


From f8f37c5edbd2b12a742458eae4f5a8d82e3bae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 02/31] fix: temporary_module: remove also an auto-named
 module; if creation fails, remove nothing

---
 mcpyrate/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 47b027e..55eb359 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -569,8 +569,11 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     temporary modules will not pollute `sys.modules` beyond their
     useful lifetime.
     """
+    # If this fails, there is nothing to clean up. Particularly, a module of the same name
+    # that is already in `sys.modules` must not be touched.
+    module = create_module(dotted_name, filename, update_parent=update_parent)
+    dotted_name = module.__name__  # in case it was autogenerated
     try:
-        module = create_module(dotted_name, filename, update_parent=update_parent)
         yield module
     finally:
         try:
-- 
2.43.0


From 5802b0a93fc59e4346f2e8ed6c57ad66510f726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 03/31] fix: multi-phase compiler: restore sys.modules also
 when the compile fails

---
 mcpyrate/multiphase.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index a68ab5e..f0ff198 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -374,6 +374,22 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
+    try:
+        return _expand_phases(tree, n, module, debug=debug, filename=filename, self_module=self_module, dexpander=dexpander)
+    finally:
+        # restore `sys.modules` to how it was before we began the multi-phase compile for this module
+        if original_module:
+            sys.modules[self_module] = original_module
+        else:
+            try:
+                del sys.modules[self_module]
+            except KeyError:
+                pass
+
+
+def _expand_phases(tree, n, module, *, debug, filename, self_module, dexpander):
+    """Compile and run phases `n`, ..., 1 of `tree` in the temporary `module`; return the expanded phase 0 AST."""
+    c, CS = setcolor, ColorScheme
     for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
             print(f"{c(CS.HEADING1)}**AST for {c(CS.ATTENTION)}PHASE {k}{c(CS.HEADING1)} of module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
@@ -402,13 +418,4 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
             compiler.run(phase_k_tree, module)
 
-    # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-    if original_module:
-        sys.modules[self_module] = original_module
-    else:
-        try:
-            del sys.modules[self_module]
-        except KeyError:
-            pass
-
     return expansion
-- 
2.43.0


From c6be8c0d8f01566e336a625421fa459bf2336340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 04/31] fix: hygienic value captures: never mix up values, and
 keep equal captures distinct

---
 mcpyrate/quotes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 893e7b5..3fc0fe5 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -297,7 +297,12 @@ def capture_value(value, name):
     # Putting these considerations together, we pickle the value, causing a copy
     # and serialization.
     #
-    frozen_value = pickle.dumps(value)
+    #
+    # We tag the serialized copy with an uuid, because Python's compiler merges
+    # equal constants, and each capture must remain distinct also when several
+    # captures of equal values end up in the same module. Unpickling stops at
+    # the end of the pickle, ignoring the tag.
+    frozen_value = pickle.dumps(value) + gensym("").encode("ascii")
     return ast.Call(_mcpyrate_quotes_attr("lookup_value", force_import=True),
                     [ast.Tuple(elts=[ast.Constant(value=name),
                                      ast.Constant(value=frozen_value)])],
@@ -333,9 +338,11 @@ def lookup_value(key):
     if frozen_value is None:
         raise ValueError(f"The given key does not (yet) point to a value: {repr(key)}")
 
-    cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
+    # `frozen_value` includes an uuid, so each capture instance behaves independently.
+    # It must be the value itself, not its `id`, which is reused once the value is garbage collected.
+    cachekey = (name, frozen_value)
     if cachekey not in _lookup_cache:
-        _lookup_cache[cachekey] = pickle.loads(frozen_value)
+        _lookup_cache.setdefault(cachekey, pickle.loads(frozen_value))  # one winner if several threads get here
     return _lookup_cache[cachekey]
 
 
-- 
2.43.0


From 9c6d229276449ce5c1f78fda28b078c025058e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 05/31] fix: NestingLevelTracker: track the level separately in
 each thread

---
 mcpyrate/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index b734f7e..7f38e05 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -7,6 +7,7 @@ __all__ = ["gensym", "scrub_uuid", "flatten", "rename", "extract_bindings", "get
 
 import ast
 from contextlib import contextmanager
+import threading
 import uuid
 
 from .astcompat import MatchAs, MatchStar
@@ -295,7 +296,14 @@ class NestingLevelTracker:
     """
     def __init__(self, start=0):
         """start: int, initial level"""
-        self.stack = [start]
+        self._start = start
+        self._local = threading.local()  # each thread may be expanding a different tree
+
+    def _get_stack(self):
+        if not hasattr(self._local, "stack"):
+            self._local.stack = [self._start]
+        return self._local.stack
+    stack = property(fget=_get_stack, doc="The stack of levels of the current thread.")
 
     def _get_value(self):
         return self.stack[-1]
-- 
2.43.0


From 491c80195187b844ec9f505a32246c69ada7f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 06/31] fix: dialect-import scanner: match one line only, so
 that each dialect-import is seen

---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 0f53c46..29e94dd 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\]+)\s*$",
+_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\\n]+)\s*$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From 6e1930666244b7a0b0dbf2da37dbb35c6763f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 07/31] fix: path_stats: support modules that are not Python
 before their dialect source transformers run

---
 mcpyrate/importer.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b0db38c..a257dd4 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -8,6 +8,7 @@ from importlib.machinery import SourceFileLoader
 import importlib.util
 import os
 import pickle
+import re
 import sys
 import tokenize
 
@@ -94,6 +95,22 @@ def _detect_stdlib_sourcefile_paths():
 _stdlib_sourcefile_paths = _detect_stdlib_sourcefile_paths()
 
 
+_magicimport = re.compile(r"^[ \t]*from\s+[.0-9a-zA-Z_]+\s+import (?:macros|dialects),[^(\\\n]+$", flags=re.MULTILINE)
+def _scan_magicimports(text):
+    """Find the macro-imports and dialect-imports in `text`, which is not parseable as Python.
+
+    Like in `mcpyrate.dialects`, we can only rely on the literal text of the import statement.
+    Return value is an `ast.Module` containing the import statements.
+    """
+    body = []
+    for match in _magicimport.finditer(text):
+        try:
+            body.extend(ast.parse(match.group(0).strip()).body)
+        except SyntaxError:
+            pass
+    return ast.Module(body=body, type_ignores=[])
+
+
 def path_stats(path, _stats_cache=None):
     """[mcpyrate] Compute a `.py` source file's mtime, accounting for macro-imports.
 
@@ -155,7 +172,14 @@ def path_stats(path, _stats_cache=None):
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
         with tokenize.open(path) as sourcefile:
-            tree = ast.parse(sourcefile.read(), filename=path)
+            text = sourcefile.read()
+        try:
+            tree = ast.parse(text, filename=path)
+        except SyntaxError:
+            # Before its dialects' source transformers run, the text does not need to be Python.
+            tree = _scan_magicimports(text)
+            if not any(ismacroimport(stmt, magicname="dialects") for stmt in tree.body):
+                raise
 
         macroimports = []
         dialectimports = []
-- 
2.43.0


From bd9aac9d762b824e72978274b25d80bc947bab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 08/31] fix: MacroConsole: survive comments ending in '?',
 failing macro modules, and closure macros

---
 mcpyrate/repl/console.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index e3c5cc7..4118d41 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -135,11 +135,19 @@ class MacroConsole(code.InteractiveConsole):
         if source == "macros?":
             self.write(format_bindings(self.expander, color=True))
             return False  # complete input
-        elif source.endswith("??"):
-            # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
-            return self._internal_execute(f"mcpyrate.repl.utils.sourcecode({source[:-2]})")
         elif source.endswith("?"):
-            return self._internal_execute(f"mcpyrate.repl.utils.doc({source[:-1]})")
+            if source.endswith("??"):
+                command = f"mcpyrate.repl.utils.sourcecode({source[:-2]})"
+            else:
+                command = f"mcpyrate.repl.utils.doc({source[:-1]})"
+            # Not every input that ends with a question mark is a special command; consider e.g. a comment.
+            try:
+                ast.parse(command)
+            except (OverflowError, SyntaxError, ValueError):
+                pass
+            else:
+                # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
+                return self._internal_execute(command)
 
         try:
             code = self.compile(source, filename, symbol)
@@ -183,6 +191,9 @@ class MacroConsole(code.InteractiveConsole):
         except ImportError as err:  # during macro lookup in a successfully imported module
             self.write(f"{err.__class__.__name__}: {str(err)}\n")
             return False  # erroneous input
+        except Exception:  # in the top-level code of a macro definition module
+            self.showtraceback()
+            return False  # erroneous input
 
         self.runcode(code)
         self._refresh_macro_functions()
@@ -208,5 +219,5 @@ class MacroConsole(code.InteractiveConsole):
             try:
                 source = f"from {function.__module__} import {function.__qualname__} as {asname}"
                 self._internal_execute(source)
-            except (ModuleNotFoundError, ImportError):
-                pass
+            except (ModuleNotFoundError, ImportError, SyntaxError):
+                pass  # SyntaxError: not importable by name; e.g. `__qualname__` of a closure has "<locals>" in it.
-- 
2.43.0


From 79028798e26d0981bbe0a5dbcd0924585f505346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:11 +0000
Subject: [PATCH 09/31] fix: temporary_module: clean up the parent package also
 when the code inside removed the module

---
 mcpyrate/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 55eb359..7ae0e17 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -577,7 +577,7 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
         yield module
     finally:
         try:
-            del sys.modules[dotted_name]
+            sys.modules.pop(dotted_name, None)  # the code inside may have removed it already
 
             # The standard importer doesn't do this, but it seems nice for symmetry,
             # considering the use case.
-- 
2.43.0


From ca1323ef2260c66699cb410daf18c611b6f6c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:36 +0000
Subject: [PATCH 10/31] fix: getdocstring: only a string is a docstring, not
 any constant

---
 mcpyrate/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index 7f38e05..5ea5493 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -190,7 +190,7 @@ def getdocstring(body):
     if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):
         docstring_node = body[0].value  # Expr -> Expr.value
         if type(docstring_node) is ast.Constant:
-            return docstring_node.value
+            return docstring_node.value if isinstance(docstring_node.value, str) else None
         # TODO: remove ast.Str once we bump minimum language version to Python 3.8
         else:  # ast.Str
             return docstring_node.s
-- 
2.43.0


From ed99a26daa463c3bd55d3e964950a688f75b00dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 11/31] fix: split_futureimports: recognize also an empty
 docstring

---
 mcpyrate/coreutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 248abf8..e8da4d0 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -266,7 +266,7 @@ def split_futureimports(body):
     Return value is `[docstring, future_imports, the_rest]`, where each item
     is a list of `ast.stmt` (possibly empty).
     """
-    if getdocstring(body):
+    if getdocstring(body) is not None:
         docstring, *body = body
         docstring = [docstring]
     else:
-- 
2.43.0


From e1eb82eeff370efd131fd5a730af9d7a48a7f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 12/31] fix: astify: support complex numbers

---
 mcpyrate/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 3fc0fe5..f797a5d 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -721,7 +721,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
 
         # Builtin types. Mainly support for `u[]`, but also used by the
         # general case for AST node fields that contain bare values.
-        elif T in (int, float, str, bytes, bool, type(None), type(...)):
+        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):
             return ast.Constant(value=x)
 
         elif T is list:
-- 
2.43.0


From 1ce0cf412f5c6437bc09b7aaee69650d2f1c9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 13/31] fix: expander: report the original error when a macro
 returns an iterable that raises

---
 mcpyrate/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/core.py b/mcpyrate/core.py
index ceaf117..9c40976 100644
--- a/mcpyrate/core.py
+++ b/mcpyrate/core.py
@@ -7,6 +7,7 @@ __all__ = ["MacroExpansionError", "MacroExpanderMarker", "Done",
 
 from ast import AST, NodeTransformer
 from collections import ChainMap
+from collections.abc import Iterable
 from contextlib import contextmanager
 from copy import deepcopy
 from typing import Any, Callable, Dict, List
@@ -252,6 +253,9 @@ class BaseMacroExpander(NodeTransformer):
             expansion = self._apply_macro(macro, tree, kw, macroname, target)
 
             # Convert possible iterable result to `list`, then typecheck macro output.
+            # If the iterable raises (e.g. the macro is a generator), that is an error in the macro itself.
+            if isinstance(expansion, Iterable):
+                expansion = list(expansion)
             try:
                 if expansion is not None and not isinstance(expansion, AST):
                     expansion = list(expansion)
-- 
2.43.0


From 8d0743a816a37d657ac990565811016f86045c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 14/31] fix: compiler: skip dialect source transformers for
 dynamically generated AST input, as documented

---
 mcpyrate/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 7ae0e17..07a3286 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -270,7 +270,7 @@ def _compile(source, filename, optimize, self_module):
     # (which the user can easily re-obtain by `unparse(source)`).
     if not (filename and filename.endswith(".py")):
         if isinstance(source, (ast.AST, list)):
-            source = unparse(source)
+            source = ast.parse(unparse(source))  # still an AST; dialect source transformers do not apply
     expansion = expand(source, filename=filename, self_module=self_module, optimize=optimize)
     assert isinstance(expansion, ast.Module)  # we always parse in `"exec"` mode
     docstring = getdocstring(expansion.body)
-- 
2.43.0


From c51ecd41652296cba910e6251ffa56ad75f6552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 15/31] fix: MacroConsole: a macro-import no longer overwrites
 variables named like macros imported earlier

---
 mcpyrate/repl/console.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 4118d41..b0255b5 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -40,7 +40,6 @@ class MacroConsole(code.InteractiveConsole):
     def __init__(self, locals=None, filename="<interactive input>"):
         """Parameters like in `code.InteractiveConsole`."""
         self.expander = MacroExpander(bindings={}, filename=filename)
-        self._macro_bindings_changed = False
 
         if locals is None:
             locals = {}
@@ -171,7 +170,6 @@ class MacroConsole(code.InteractiveConsole):
             bindings = find_macros(tree, filename=self.expander.filename,
                                    reload=True, self_module=_magic_module_name)
             if bindings:
-                self._macro_bindings_changed = True
                 self.expander.bindings.update(bindings)
             tree = self.expander.visit(tree)
             tree = global_postprocess(tree)
@@ -196,28 +194,17 @@ class MacroConsole(code.InteractiveConsole):
             return False  # erroneous input
 
         self.runcode(code)
-        self._refresh_macro_functions()
+        self._refresh_macro_functions(bindings)
         return False  # Successfully compiled. `runcode` takes care of any runtime failures.
 
-    def _refresh_macro_functions(self):
+    def _refresh_macro_functions(self, bindings):
         """Refresh macro function imports.
 
         Called after successfully compiling and running an input, so that
         `some_macro.__doc__` points to the right docstring.
+
+        `bindings` has the macros that the input macro-imported. No others are
+        refreshed, because that would overwrite any variables of the same name
+        the user has defined since.
         """
-        if not self._macro_bindings_changed:
-            return
-        self._macro_bindings_changed = False
-
-        for asname, function in self.expander.bindings.items():
-            # Catch broken bindings due to erroneous imports in user code
-            # (e.g. accidentally to a module object instead of to a function object)
-            if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):
-                continue
-            if not function.__module__:    # Macros defined in the REPL have `__module__=None`.
-                continue
-            try:
-                source = f"from {function.__module__} import {function.__qualname__} as {asname}"
-                self._internal_execute(source)
-            except (ModuleNotFoundError, ImportError, SyntaxError):
-                pass  # SyntaxError: not importable by name; e.g. `__qualname__` of a closure has "<locals>" in it.
+        self.locals.update(bindings)
-- 
2.43.0


From 811c892f49e15c26c01f3e9b6fa69e5eb8a531b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 16/31] fix: path_stats: report the size of the source file,
 py_compile needs it

---
 mcpyrate/importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index a257dd4..568b56a 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -234,7 +234,6 @@ def path_stats(path, _stats_cache=None):
             mtimes.append(stats["mtime"])
 
     mtime = stat_result.st_mtime_ns * 1e-9
-    # size = stat_result.st_size
     mtimes.append(mtime)
 
     # Docs say `size` is optional, and this is correct in CPython 3.6 (and in PyPy3 7.3.0, language version 3.6):
@@ -242,7 +241,8 @@ def path_stats(path, _stats_cache=None):
     # but in CPython 3.7 and later, the implementation is expecting at least a `None` there,
     # if the `size` is not used. See `get_code` in:
     #     https://github.com/python/cpython/blob/master/Lib/importlib/_bootstrap_external.py
-    # Since our minimum is Python 3.8, let's put `size` there.
-    result = {"mtime": max(mtimes), "size": None}  # and sum(sizes)? OTOH, as of Python 3.8, only 'mtime' is mandatory.
+    # Also, `py_compile` and `compileall` need a number. So we put the size of the source file itself there,
+    # because that's what `get_code` writes into the `.pyc`.
+    result = {"mtime": max(mtimes), "size": stat_result.st_size}
     _stats_cache[path] = result
     return result
-- 
2.43.0


From 526e052816ad7f901c987544673bc4cf5b48c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 17/31] fix: importer: undecodable sources fail with the same
 SyntaxError as in plain Python

---
 mcpyrate/importer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 568b56a..dca7c8e 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -10,7 +10,6 @@ import os
 import pickle
 import re
 import sys
-import tokenize
 
 from . import compiler
 from .coreutils import resolve_package, ismacroimport
@@ -171,13 +170,16 @@ def path_stats(path, _stats_cache=None):
         # TODO: doesn't need. How to detect those? Regex-search the source text?
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
-        with tokenize.open(path) as sourcefile:
+        with open(path, "rb") as sourcefile:
             text = sourcefile.read()
         try:
-            tree = ast.parse(text, filename=path)
-        except SyntaxError:
+            tree = ast.parse(text, filename=path)  # in bytes, so that undecodable input fails like in `compile`
+        except SyntaxError as err:
             # Before its dialects' source transformers run, the text does not need to be Python.
-            tree = _scan_magicimports(text)
+            try:
+                tree = _scan_magicimports(importlib.util.decode_source(text))
+            except (SyntaxError, UnicodeDecodeError):
+                raise err from None
             if not any(ismacroimport(stmt, magicname="dialects") for stmt in tree.body):
                 raise
 
-- 
2.43.0


From 21bcdb93e7267e878a97c9d39931c8f566109b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 18/31] fix: match_syspath: match whole directory names, and
 sort resolved paths

---
 mcpyrate/coreutils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index e8da4d0..3380bcb 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -57,15 +57,18 @@ def match_syspath(filename):
 
     If `filename` is not under any directory in `sys.path`, raises `ValueError`.
     """
-    absolute_filename = str(pathlib.Path(filename).expanduser().resolve())
+    absolute_path = pathlib.Path(filename).expanduser().resolve()
+    absolute_filename = str(absolute_path)
     # Match deeper paths first; for readability, break ties lexicographically.
     # This allows the matching to work also if e.g. both `/home/user/.local/`
     # and `/home/user/.local/lib/python3.8/site-packages/` end up on `sys.path`.
-    def sortkey(s):
-        return -s.count(os.path.sep), s
-    for root_path in sorted(sys.path, key=sortkey):
-        root_path = pathlib.Path(root_path).expanduser().resolve()
-        if absolute_filename.startswith(str(root_path)):
+    # The entries must be resolved first; consider e.g. an empty entry (current directory).
+    def sortkey(path):
+        return -len(path.parts), str(path)
+    root_paths = [pathlib.Path(root_path).expanduser().resolve() for root_path in sys.path]
+    for root_path in sorted(root_paths, key=sortkey):
+        # Whole directory names must match; `/home/user/proj` does not contain `/home/user/proj2`.
+        if root_path == absolute_path or root_path in absolute_path.parents:
             return root_path
     resolved = f" (resolved to {absolute_filename})" if absolute_filename != str(filename) else ""
     raise ValueError(f"{filename}{resolved} not under any directory in `sys.path`")
-- 
2.43.0


From 295c7ffa21b1e223c89db6681b45325a403547e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 19/31] fix: importer: packages in site-packages are not part
 of the standard library

---
 mcpyrate/importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index dca7c8e..25e3b9f 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -81,12 +81,16 @@ def path_xstats(self, path):
 
 
 def _detect_stdlib_sourcefile_paths():
-    """Return a set of full paths of `.py` files that are part of Python's standard library."""
+    """Return a set of full paths of `.py` files that are part of Python's standard library.
+
+    In many installations, third-party packages (which may use macros) live under the same directory; they are not included.
+    """
     # Adapted from StackOverflow answer by Adam Spiers, https://stackoverflow.com/a/8992937
     # Note we don't want to get module names, but full paths to `.py` files.
     stdlib_dir = os.path.dirname(os.__file__)
     paths = set()
     for root, dirs, files in os.walk(stdlib_dir):
+        dirs[:] = [x for x in dirs if x not in ("site-packages", "dist-packages")]
         for filename in files:
             if filename[-3:] == ".py":
                 paths.add(os.path.join(root, filename))
-- 
2.43.0


From 50922b24299fdb191318b9a6a32560147814a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 20/31] fix: path_stats: support macro-dependencies that have
 no source code

---
 mcpyrate/importer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 25e3b9f..1d44156 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -134,6 +134,12 @@ def path_stats(path, _stats_cache=None):
 
     stat_result = os.stat(path)
 
+    # A macro-dependency may lack source code (byte code only, extension module). It has no macro-imports we could look at.
+    if not path.endswith(".py"):
+        result = {"mtime": stat_result.st_mtime_ns * 1e-9, "size": stat_result.st_size}
+        _stats_cache[path] = result
+        return result
+
     # Try for cached macro-import statements for `path` to avoid the parse cost.
     #
     # This is a single node in the dependency graph; the result depends only
-- 
2.43.0


From 11c5ef48fc2c3c51a38e952a4272511b9f25e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 21/31] fix: path_stats: support macro-imports from modules
 created at run time

---
 mcpyrate/importer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 1d44156..6d15828 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -239,8 +239,11 @@ def path_stats(path, _stats_cache=None):
             raise SyntaxError(f"{loc}\nmissing module name in macro-import")
         module_absname = importlib.util.resolve_name('.' * macroimport.level + macroimport.module, package_absname)
 
-        spec = importlib.util.find_spec(module_absname)
-        if spec:  # self-macro-imports have no `spec`, and that's fine.
+        try:
+            spec = importlib.util.find_spec(module_absname)
+        except ValueError:  # a module created at run time has `__spec__ = None`
+            spec = None
+        if spec and spec.has_location:  # self-macro-imports have no `spec`, and that's fine.
             origin = spec.origin
             stats = path_stats(origin, _stats_cache)
             mtimes.append(stats["mtime"])
-- 
2.43.0


From 6a7b622e825f94b19b256a55d91394ab6e24537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 22/31] fix: macropython: run the main program of subpackages
 and of namespace packages

---
 mcpyrate/repl/macropython.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 169def1..47b44c7 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -87,11 +87,11 @@ def import_module_as_main(name, script_mode):
     try_mainpy = False
     if script_mode:  # e.g. "macropython somepackage/__init__.py"
         module.__package__ = ""
-    elif path:  # e.g. "macropython -m somepackage.module"
-        module.__package__ = parent_name
-    elif spec.origin.endswith("__init__.py"):  # e.g. "macropython -m somepackage"
+    elif spec.submodule_search_locations is not None:  # e.g. "macropython -m somepackage" or "macropython -m somepackage.subpackage"
         module.__package__ = absolute_name
         try_mainpy = True
+    elif path:  # e.g. "macropython -m somepackage.module"
+        module.__package__ = parent_name
 
     if spec.origin == "namespace":
         # https://docs.python.org/3/reference/import.html#__path__
-- 
2.43.0


From f6ce1ecaf47f85f874a9931e38a032873c6f851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 23/31] fix: macropython: do not hide import errors of the main
 program

---
 mcpyrate/repl/macropython.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 47b44c7..28ae2f3 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -131,8 +131,8 @@ def import_module_as_main(name, script_mode):
         try:
             # __main__.py doesn't need to have its name set to "__main__", so import it normally.
             import_module(f"{absolute_name}.__main__")
-        except ImportError as e:
-            if "No module named" in e.msg:
+        except ModuleNotFoundError as e:
+            if e.name == f"{absolute_name}.__main__":
                 has_mainpy = False
             else:
                 raise
-- 
2.43.0


From 4493a7c2e897bd6bb643f6e77b3adf1ff57457fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 24/31] fix: macropython: do not look for submodules of a
 module that is not a package elsewhere

---
 mcpyrate/repl/macropython.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 28ae2f3..55e6291 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -67,6 +67,8 @@ def import_module_as_main(name, script_mode):
         parent_name, _, child_name = absolute_name.rpartition('.')
         parent_module = import_module(parent_name)
         path = parent_module.__spec__.submodule_search_locations
+        if path is None:
+            raise ModuleNotFoundError(f"No module named {absolute_name}; '{parent_name}' is not a package", name=absolute_name)
 
     for finder in sys.meta_path:
         if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
-- 
2.43.0


From 5cf843fd3bf7eef5edcdaab3d83fa80ecdee9811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 25/31] fix: macropython: run the script that was given, not
 another module of that name

---
 mcpyrate/repl/macropython.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 55e6291..cb8bbdd 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -13,7 +13,7 @@ import os
 import pathlib
 import sys
 from importlib import import_module
-from importlib.util import module_from_spec, resolve_name
+from importlib.util import module_from_spec, resolve_name, spec_from_file_location
 
 from .. import __version__ as __mcpyrate_version__
 from .. import activate  # noqa: F401
@@ -28,9 +28,13 @@ _macropython_module = None  # sys.modules doesn't always seem to keep it, so sta
 
 # --------------------------------------------------------------------------------
 
-def import_module_as_main(name, script_mode):
+def import_module_as_main(name, script_mode, filename=None):
     """Import a module, pretending it's __main__.
 
+    If `filename` is given, in script mode, the module is loaded from that file,
+    even if an import of `name` would find something else (such as a builtin
+    module, or a package next to the script).
+
     We support only new-style loaders that provide `exec_module`; old-style
     loaders that provide `load_module` and `create_module` are not supported.
 
@@ -59,7 +63,7 @@ def import_module_as_main(name, script_mode):
     #     pass
 
     path = None
-    if '.' in absolute_name:
+    if '.' in absolute_name and not filename:
         if script_mode:
             raise ValueError("In script mode, please add the containing directory to `sys.path` and then top-level import the final component of the name.")
         # Import the module's parent package normally to initialize parent packages.
@@ -70,16 +74,21 @@ def import_module_as_main(name, script_mode):
         if path is None:
             raise ModuleNotFoundError(f"No module named {absolute_name}; '{parent_name}' is not a package", name=absolute_name)
 
-    for finder in sys.meta_path:
-        if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
-            continue
-        # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
-        spec = finder.find_spec(absolute_name, path)
-        if spec is not None:
-            break
+    if filename:
+        spec = spec_from_file_location(absolute_name, filename)
+        if spec is None:
+            raise ImportError(f"Not a Python module: '{filename}'")
     else:
-        msg = f"No module named {absolute_name}"
-        raise ModuleNotFoundError(msg, name=absolute_name)
+        for finder in sys.meta_path:
+            if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
+                continue
+            # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
+            spec = finder.find_spec(absolute_name, path)
+            if spec is not None:
+                break
+        else:
+            msg = f"No module named {absolute_name}"
+            raise ModuleNotFoundError(msg, name=absolute_name)
 
     spec.name = "__main__"
     if spec.loader:
@@ -282,7 +291,7 @@ def main():
         elif module_name.endswith(".py"):
             module_name = module_name[:-3]
 
-        import_module_as_main(module_name, script_mode=True)
+        import_module_as_main(module_name, script_mode=True, filename=str(fullpath))
 
 if __name__ == "__main__":
     _macropython_module = sys.modules["__macropython__"] = sys.modules["__main__"]
-- 
2.43.0


From 9457ce2bc14d4037c346f77fdf3ccfd628e55d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 26/31] fix: multi-phase compiler: the temporary module has the
 same import-related attributes as the original

A package whose __init__ uses multi-phase compilation could not import its own submodules in
the phases, nor macros from them; and other threads importing a multi-phase module at the same
time got the temporary module.
---
 mcpyrate/multiphase.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index f0ff198..f4f6a82 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -373,6 +373,13 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     # stuff available in the module's namespace while the next phase is being compiled.
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+    if original_module:
+        # The temporary module stands in for the original, so it must look the same to Python's import system.
+        # E.g. a package needs these to import its own submodules. And thanks to the spec, if the original is just
+        # being imported, then any other threads that import it wait until the import completes.
+        for name in ("__spec__", "__loader__", "__package__", "__path__"):
+            if hasattr(original_module, name):
+                setattr(module, name, getattr(original_module, name))
 
     try:
         return _expand_phases(tree, n, module, debug=debug, filename=filename, self_module=self_module, dexpander=dexpander)
@@ -380,6 +387,10 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
         # restore `sys.modules` to how it was before we began the multi-phase compile for this module
         if original_module:
             sys.modules[self_module] = original_module
+            # Python's import system bound any submodules imported meanwhile to the temporary module.
+            for name, value in list(vars(module).items()):
+                if value is not None and sys.modules.get(f"{self_module}.{name}") is value and not hasattr(original_module, name):
+                    setattr(original_module, name, value)
         else:
             try:
                 del sys.modules[self_module]
-- 
2.43.0


From 6f0a4e014d8af9d40a7eebf06aa710d5475cf255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 27/31] fix: gensym: never return the same name in two threads,
 if the entropy source repeats itself

---
 mcpyrate/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index 5ea5493..0865993 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -17,7 +17,7 @@ from . import unparser
 from . import walkers
 
 
-_previous_gensyms = set()
+_previous_gensyms = {}
 def gensym(basename=None):
     """Create a name for a new, unused lexical identifier, and return the name as an `str`.
 
@@ -46,9 +46,10 @@ def gensym(basename=None):
         return f"{basename}{unique}"
     sym = generate()
     # The uuid spec does not guarantee no collisions, only a vanishingly small chance.
-    while sym in _previous_gensyms:
+    # Check and record in one step, so that no two threads can end up with the same name.
+    owner = object()
+    while _previous_gensyms.setdefault(sym, owner) is not owner:
         sym = generate()  # pragma: no cover
-    _previous_gensyms.add(sym)
     return sym
 
 
-- 
2.43.0


From 6df9d2da0d0813f7452d5bb41194768417611ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 28/31] fix: importer: detect a damaged macro-import statement
 cache

A single changed byte in the cache could make the import fail (or worse,
make us look at the wrong macro-dependencies). Store a checksum of the
content, and treat anything that does not match as a missing cache.
---
 mcpyrate/importer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 6d15828..0c08a5c 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -4,6 +4,7 @@
 __all__ = ["source_to_xcode", "path_xstats", "path_stats"]
 
 import ast
+import hashlib
 from importlib.machinery import SourceFileLoader
 import importlib.util
 import os
@@ -163,7 +164,10 @@ def path_stats(path, _stats_cache=None):
     try:
         macroimport_cache_valid = False
         with open(macroimport_cache_path, "rb") as importcachefile:
-            data = pickle.load(importcachefile)
+            checksum, payload = importcachefile.read(32), importcachefile.read()
+        if hashlib.sha256(payload).digest() != checksum:  # damaged, or written by an older version of mcpyrate
+            raise ValueError(f"invalid checksum in {macroimport_cache_path}")
+        data = pickle.loads(payload)
         if data["st_mtime_ns"] == stat_result.st_mtime_ns:
             macroimport_cache_valid = True
     except Exception:
@@ -215,8 +219,9 @@ def path_stats(path, _stats_cache=None):
                     "dialectimports": dialectimports,
                     "has_relative_macroimports": has_relative_macroimports}
             try:
+                payload = pickle.dumps(data)
                 with open(macroimport_cache_path, "wb") as importcachefile:
-                    pickle.dump(data, importcachefile)
+                    importcachefile.write(hashlib.sha256(payload).digest() + payload)
             except Exception:
                 pass
 
-- 
2.43.0


From c895a4b89b84ee9389592de7c348a96977f5392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 29/31] fix: split_futureimports: a body of nothing but
 future-imports

The last one was returned as part of the rest, so that code was injected before it.
---
 mcpyrate/coreutils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 3380bcb..242f223 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -275,13 +275,10 @@ def split_futureimports(body):
     else:
         docstring = []
 
-    k = -1  # ensure `k` gets defined even if `body` is empty
     for k, bstmt in enumerate(body):
         if not isfutureimport(bstmt):
-            break
-    if k >= 0:
-        return docstring, body[:k], body[k:]
-    return docstring, [], body
+            return docstring, body[:k], body[k:]
+    return docstring, body, []  # nothing but `__future__` imports
 
 def inject_after_futureimports(stmts, body):
     """Inject one or more statements into `body` after its `__future__` imports.
-- 
2.43.0


From 5b47cdd534e8886ae361480281abe92eeb01a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 30/31] fix: macro_bindings: snapshot the expander's own
 bindings only

The snapshot also had all macros captured hygienically so far, anywhere in
the process. Hence bytecode using expandr came to depend on modules that have
nothing to do with it, and failed once those were edited or removed; also,
expansion failed after such a module was reloaded.
---
 mcpyrate/metatools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1eddfce..3e7f8d9 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -100,8 +100,11 @@ def macro_bindings(tree, *, syntax, expander, **kw):  # tree argument is unused
         raise SyntaxError("`macro_bindings` is a name macro only")
     # This is exactly the kind of thing the hygienic capture system was
     # designed to do.
-    keys = list(astify(k) for k in expander.bindings.keys())
-    values = list(capture_value(v, k) for k, v in expander.bindings.items())
+    # Only the expander's own bindings. The global ones, i.e. hygienically captured macros, are visible to any expander,
+    # and those used by a quoted tree are injected when it runs. Here they would be whatever was captured so far anywhere
+    # in the running process; so the bytecode would come to depend on modules that have nothing to do with the use site.
+    keys = list(astify(k) for k in expander.local_bindings.keys())
+    values = list(capture_value(v, k) for k, v in expander.local_bindings.items())
     return ast.Dict(keys=keys, values=values)
 
 
-- 
2.43.0


From c5aec052643aa5ccebbc72fbcb94d5590423abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 31/31] fix: importer: cycles in the macro-dependency graph

When a module macro-imports from itself by its own name, or two
multi-phase modules macro-import from each other, path_stats recursed
until RecursionError.
---
 mcpyrate/importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 0c08a5c..9dd1aee 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -236,6 +236,10 @@ def path_stats(path, _stats_cache=None):
         except (ValueError, ImportError) as err:
             raise ImportError(f"while resolving absolute package name of {path}, which uses relative macro-imports") from err
 
+    # The dependency graph may contain cycles, e.g. when a multi-phase module macro-imports from itself by its own name.
+    # Inside a cycle, each file contributes its own mtime; the call that entered the cycle collects them all.
+    _stats_cache[path] = {"mtime": stat_result.st_mtime_ns * 1e-9, "size": stat_result.st_size}
+
     mtimes = []
     for macroimport in macro_and_dialect_imports:
         if macroimport.module is None:
-- 
2.43.0

