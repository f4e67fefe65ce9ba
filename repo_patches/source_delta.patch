From 6fd573caef6d88b5c43f9ca5ed8ece74054cd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 1/5] fix: make interning of atoms, trees and expressions
 atomic

WeakValueDictionary.setdefault is a lookup followed by a separate store, so
two threads could both store and use their own object for the same key.
---
 src/protosym/core/atom.py      |  3 +-
 src/protosym/core/sym.py       |  3 +-
 src/protosym/core/tree.py      |  2 +-
 src/protosym/core/weakstore.py | 66 ++++++++++++++++++++++++++++++++++
 4 files changed, 70 insertions(+), 4 deletions(-)
 create mode 100644 src/protosym/core/weakstore.py

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index 1cc69de..df0cfac 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -10,7 +10,8 @@ from typing import Any, cast
 from typing import Generic as _Generic
 from typing import Hashable as _Hashable
 from typing import TypeVar as _TypeVar
-from weakref import WeakValueDictionary as _WeakDict
+
+from protosym.core.weakstore import WeakStore as _WeakDict
 
 __all__ = [
     "Atom",
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6253994..aa637b8 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -16,13 +16,12 @@ from typing import Any, Callable, Generic, Sequence, TypeVar, overload
 if _TYPE_CHECKING:
     from typing_extensions import Self
 
-from weakref import WeakValueDictionary as _WeakDict
-
 from protosym.core.atom import AtomType
 from protosym.core.differentiate import DiffProperties, diff_forward
 from protosym.core.evaluate import Evaluator
 from protosym.core.exceptions import BadRuleError
 from protosym.core.tree import SubsFunc, Tr, Tree
+from protosym.core.weakstore import WeakStore as _WeakDict
 
 __all__ = ["Sym", "SymAtomType", "SymEvaluator"]
 
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index b89365a..f40f1aa 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -7,9 +7,9 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import TYPE_CHECKING as _TYPE_CHECKING
-from weakref import WeakValueDictionary as _WeakDict
 
 from protosym.core.atom import Atom, AtomType
+from protosym.core.weakstore import WeakStore as _WeakDict
 
 if _TYPE_CHECKING:
     from protosym.core.atom import AnyAtom
diff --git a/src/protosym/core/weakstore.py b/src/protosym/core/weakstore.py
new file mode 100644
index 0000000..ac889f9
--- /dev/null
+++ b/src/protosym/core/weakstore.py
@@ -0,0 +1,66 @@
+"""protosym.core.weakstore module.
+
+This module defines the :class:`WeakStore` type that is used for the global
+stores that make sure that equal expressions are the same object.
+"""
+
+from __future__ import annotations
+
+from typing import TYPE_CHECKING as _TYPE_CHECKING
+from typing import Any
+from typing import Generic as _Generic
+from typing import TypeVar as _TypeVar
+from weakref import KeyedRef as _KeyedRef
+from weakref import WeakValueDictionary as _WeakDict
+
+__all__ = ["WeakStore"]
+
+
+_K = _TypeVar("_K")
+_V = _TypeVar("_V")
+
+
+if _TYPE_CHECKING:
+
+    class _Base(_WeakDict[_K, _V]):
+        data: Any
+        _remove: Any
+        _commit_removals: Any
+
+else:
+
+    class _Base(_WeakDict, _Generic[_K, _V]):  # type: ignore[no-redef,type-arg]
+        pass
+
+
+class WeakStore(_Base[_K, _V]):
+    """A ``WeakValueDictionary`` whose ``setdefault`` is atomic.
+
+    The ``setdefault`` method of :class:`weakref.WeakValueDictionary` looks up
+    the key and stores the new value in separate steps so that two threads can
+    both store and use their own object for the same key. Here the underlying
+    ``dict.setdefault`` decides which object is used by everyone.
+
+    >>> from protosym.core.weakstore import WeakStore
+    >>> class Obj:
+    ...     pass
+    >>> store = WeakStore()
+    >>> first, second = Obj(), Obj()
+    >>> store.setdefault("key", first) is first
+    True
+    >>> store.setdefault("key", second) is first
+    True
+    """
+
+    def setdefault(self, key: _K, default: _V) -> _V:
+        """Return the live object stored for ``key`` or store ``default``."""
+        ref = _KeyedRef(default, self._remove, key)
+        while True:
+            current = self.data.setdefault(key, ref)
+            obj: _V | None = current()
+            if obj is not None:
+                return obj
+            # The previous object for this key was deallocated but its entry
+            # has not been removed yet.
+            self._remove(current)
+            self._commit_removals()
-- 
2.43.0


From cb9fa004af3ddd5370c129592111a45f898d6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 2/5] fix: substitute correctly when the whole expression is an
 argument of SubsFunc

With more than one argument the last one was returned whichever argument the
expression was, e.g. x.xreplace({x: y, y: x}) gave x.
---
 src/protosym/core/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index f40f1aa..c5044dd 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -454,6 +454,7 @@ class SubsFunc:
     nargs: int
     atoms: list[Tree]
     operations: list[list[int]]
+    output: int
 
     def __new__(cls, expr: Tree, args: list[Tree]) -> SubsFunc:
         # A topological sort but exluding the args because they will be
@@ -506,6 +507,8 @@ class SubsFunc:
         obj.nargs = num_args
         obj.atoms = atoms
         obj.operations = operations
+        # Position of expr itself which can be one of the args.
+        obj.output = indices[expr]
 
         return obj
 
@@ -522,7 +525,7 @@ class SubsFunc:
             children = [stack[i] for i in indices]
             stack.append(Tree(*children))
 
-        return stack[-1]
+        return stack[self.output]
 
 
 try:
-- 
2.43.0


From c6f7b63c03babeaa0d53cae9f159a55adf8b321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 3/5] fix: convert empty SymPy tuples and undefined functions
 without arguments

These have no args and were taken for unsupported atoms so that e.g.
Matrix.from_sympy(sympy.zeros(2, 2)) failed.
---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index e4a3289..edfd3d6 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,7 +90,7 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args:
+    elif expr.args or isinstance(expr, (sympy.Tuple, AppliedUndef)):
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-- 
2.43.0


From 146aa193d51a2435a66b47abef56acf8be7cb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 4/5] fix: use an explicitly given value of None in forward
 evaluation

---
 src/protosym/core/evaluate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protosym/core/evaluate.py b/src/protosym/core/evaluate.py
index a961cdd..cc5daa3 100644
--- a/src/protosym/core/evaluate.py
+++ b/src/protosym/core/evaluate.py
@@ -172,9 +172,9 @@ class Evaluator(Generic[_T]):
 
         # Convert all atoms to _T
         for atom in graph.atoms:
-            value_get = values.get(atom)
-            if value_get is not None:
-                value = value_get
+            if atom in values:
+                # Use an explicit value if given
+                value = values[atom]
             else:
                 value = self.eval_atom(atom)
             stack.append(value)
-- 
2.43.0


From 84a01a9658be8f3350db62df8aab5e35bd796033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 5/5] fix: compiled functions of symbols whose names are not
 plain identifiers

Argument names were pasted into the generated code, so compiling failed for
names with quotes, empty names, '_out', '.0' or two arguments printed alike.
---
 src/protosym/simplecas/lambdification.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index ea74f71..4f31b7f 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import ctypes
+import re
 import struct
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, Callable
@@ -20,6 +21,25 @@ def _double_to_hex(f: float) -> str:
     return hex(struct.unpack("<Q", struct.pack("<d", f))[0])
 
 
+_plain_name = re.compile(r"[A-Za-z][A-Za-z0-9_]{0,99}")
+
+
+def _argument_names(symargs: list[Tree]) -> dict[Tree, str]:
+    """Distinct LLVM identifiers for the arguments.
+
+    A name that is not a plain identifier could clash with the names used for
+    intermediate results or need quoting so a generic name is used instead.
+    """
+    argnames: dict[Tree, str] = {}
+    for n, s in enumerate(symargs):
+        if s not in argnames:
+            identifier = f'%"{s}"'
+            if not _plain_name.fullmatch(str(s)) or identifier in argnames.values():
+                identifier = f'%".arg{n}"'
+            argnames[s] = identifier
+    return argnames
+
+
 _llvm_header = """
 ; ModuleID = "mod1"
 target triple = "unknown-unknown-unknown"
@@ -38,7 +58,7 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
 
     graph = forward_graph(expression)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _argument_names(symargs)
 
     identifiers = []
     for a in graph.atoms:
@@ -154,7 +174,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     graph = forward_graph(elements_graph)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _argument_names(symargs)
 
     identifiers = []
     for a in graph.atoms:
-- 
2.43.0

