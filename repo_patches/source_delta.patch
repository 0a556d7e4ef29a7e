From 88508fc6ae605a3ed27f2316c2aa9969bae96a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 01/21] fix: async wildcard selector must not select characters
 of a string

WildSelector.resolve skips strings, WildSelector.resolve_async did not.
---
 jsonpath/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 44007e9..b700a54 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -423,6 +423,8 @@ class WildSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
+            if isinstance(match.obj, str):
+                continue
             if isinstance(match.obj, Mapping):
                 for key, val in match.obj.items():
                     _match = self.env.match_class(
-- 
2.43.0


From 41fd38c6646b39fdee97d6f8dd9d692cc271bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 02/21] fix: chained intersections lose operands when iterated
 lazily

The generator expressions closed over a loop variable, so every
intersection in a compound query filtered by the last operand.
---
 jsonpath/path.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9cf3d98..700bf24 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -358,8 +358,7 @@ class CompoundJSONPath:
                 matches = itertools.chain(matches, _matches)
             else:
                 assert op == self.env.intersection_token
-                _objs = [match.obj for match in _matches]
-                matches = (match for match in matches if match.obj in _objs)
+                matches = _intersect(matches, [match.obj for match in _matches])
 
         return matches
 
@@ -427,8 +426,9 @@ class CompoundJSONPath:
                 matches = _achain(matches, _matches)
             else:
                 assert op == self.env.intersection_token
-                _objs = [match.obj async for match in _matches]
-                matches = (match async for match in matches if match.obj in _objs)
+                matches = _aintersect(
+                    matches, [match.obj async for match in _matches]
+                )
 
         return matches
 
@@ -473,6 +473,18 @@ class CompoundJSONPath:
         )
 
 
+def _intersect(
+    matches: Iterable[JSONPathMatch], objs: Sequence[object]
+) -> Iterable[JSONPathMatch]:
+    return (match for match in matches if match.obj in objs)
+
+
+def _aintersect(
+    matches: AsyncIterable[JSONPathMatch], objs: Sequence[object]
+) -> AsyncIterable[JSONPathMatch]:
+    return (match async for match in matches if match.obj in objs)
+
+
 T = TypeVar("T")
 
 
-- 
2.43.0


From 6fa1b84cc36d99c7016745104e1fd06e5b977508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 03/21] fix: compound queries read a file document only once

The first operand used to consume the file, leaving nothing for the
others to decode.
---
 jsonpath/_data.py | 12 ++++++++++++
 jsonpath/path.py  |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/jsonpath/_data.py b/jsonpath/_data.py
index e923bf5..53d8754 100644
--- a/jsonpath/_data.py
+++ b/jsonpath/_data.py
@@ -19,3 +19,15 @@ def load_data(data: object) -> Any:
     if isinstance(data, IOBase):
         return json.loads(data.read())
     return data
+
+
+def load_once(data: object) -> Any:
+    """Return _data_ in a form that can be passed to `load_data` repeatedly.
+
+    A file-like object can only be read once, so we load it now.
+    """
+    if not isinstance(data, IOBase):
+        return data
+    obj = load_data(data)
+    # Strings would be loaded again.
+    return json.dumps(obj) if isinstance(obj, str) else obj
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 700bf24..9df3ee0 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -15,6 +15,7 @@ from typing import TypeVar
 from typing import Union
 
 from jsonpath._data import load_data
+from jsonpath._data import load_once
 from jsonpath.fluent_api import Query
 from jsonpath.match import FilterContextVars
 from jsonpath.match import JSONPathMatch
@@ -313,6 +314,7 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
+        data = load_once(data)
         objs = self.path.findall(data, filter_context=filter_context)
 
         for op, path in self.paths:
@@ -350,6 +352,7 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
+        data = load_once(data)
         matches = self.path.finditer(data, filter_context=filter_context)
 
         for op, path in self.paths:
@@ -399,6 +402,7 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> List[object]:
         """An async version of `findall()`."""
+        data = load_once(data)
         objs = await self.path.findall_async(data, filter_context=filter_context)
 
         for op, path in self.paths:
@@ -418,6 +422,7 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
+        data = load_once(data)
         matches = await self.path.finditer_async(data, filter_context=filter_context)
 
         for op, path in self.paths:
-- 
2.43.0


From 3a545496c4a50b55ae399895b2277da7bb620926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 04/21] fix: accept readable file objects that don't inherit
 from IOBase

tempfile.NamedTemporaryFile() and friends return wrappers. They used to be
treated as an empty document.
---
 jsonpath/_data.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jsonpath/_data.py b/jsonpath/_data.py
index 53d8754..1295c0b 100644
--- a/jsonpath/_data.py
+++ b/jsonpath/_data.py
@@ -2,6 +2,8 @@ import json
 import re
 from io import IOBase
 from typing import Any
+from typing import Mapping
+from typing import Sequence
 
 _RE_PROBABLY_MALFORMED = re.compile(r"[\{\}\[\]]")
 
@@ -16,17 +18,29 @@ def load_data(data: object) -> Any:
             if _RE_PROBABLY_MALFORMED.search(data):
                 raise
             return data
-    if isinstance(data, IOBase):
-        return json.loads(data.read())
+    if is_file(data):
+        return json.loads(data.read())  # type: ignore
     return data
 
 
+def is_file(data: object) -> bool:
+    """Return `True` if _data_ is a readable file-like object.
+
+    Some file objects, those from the `tempfile` module, for example, are wrappers
+    that don't inherit from `IOBase`.
+    """
+    return isinstance(data, IOBase) or (
+        not isinstance(data, (Mapping, Sequence))
+        and callable(getattr(data, "read", None))
+    )
+
+
 def load_once(data: object) -> Any:
     """Return _data_ in a form that can be passed to `load_data` repeatedly.
 
     A file-like object can only be read once, so we load it now.
     """
-    if not isinstance(data, IOBase):
+    if not is_file(data):
         return data
     obj = load_data(data)
     # Strings would be loaded again.
-- 
2.43.0


From 908e3497f671ef4d6dc1d565206b4a5ba7cde337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 05/21] fix: intersection must not equate Booleans with numbers

1 == True and 0 == False in Python, but they are different JSON values.
---
 jsonpath/path.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9df3ee0..e447162 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -323,7 +323,7 @@ class CompoundJSONPath:
                 objs.extend(_objs)
             else:
                 assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if obj in _objs]
+                objs = [obj for obj in objs if _contains(_objs, obj)]
 
         return objs
 
@@ -411,7 +411,7 @@ class CompoundJSONPath:
                 objs.extend(_objs)
             else:
                 assert op == self.env.intersection_token
-                objs = [obj for obj in objs if obj in _objs]
+                objs = [obj for obj in objs if _contains(_objs, obj)]
 
         return objs
 
@@ -478,16 +478,42 @@ class CompoundJSONPath:
         )
 
 
+def _equal(left: object, right: object) -> bool:
+    """Test for deep equality, without equating Booleans with numbers."""
+    if left is right:
+        return True
+    if isinstance(left, bool) or isinstance(right, bool):
+        return isinstance(left, bool) and isinstance(right, bool) and left == right
+    if isinstance(left, Mapping) and isinstance(right, Mapping):
+        return len(left) == len(right) and all(
+            key in right and _equal(value, right[key]) for key, value in left.items()
+        )
+    if (
+        isinstance(left, Sequence)
+        and isinstance(right, Sequence)
+        and not isinstance(left, str)
+        and not isinstance(right, str)
+    ):
+        return len(left) == len(right) and all(
+            _equal(_left, _right) for _left, _right in zip(left, right)
+        )
+    return left == right
+
+
+def _contains(objs: Iterable[object], obj: object) -> bool:
+    return any(_equal(obj, other) for other in objs)
+
+
 def _intersect(
     matches: Iterable[JSONPathMatch], objs: Sequence[object]
 ) -> Iterable[JSONPathMatch]:
-    return (match for match in matches if match.obj in objs)
+    return (match for match in matches if _contains(objs, match.obj))
 
 
 def _aintersect(
     matches: AsyncIterable[JSONPathMatch], objs: Sequence[object]
 ) -> AsyncIterable[JSONPathMatch]:
-    return (match async for match in matches if match.obj in objs)
+    return (match async for match in matches if _contains(objs, match.obj))
 
 
 T = TypeVar("T")
-- 
2.43.0


From 3abea969b9860f4255677f0db598ed64c3953206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 06/21] fix: addap in a patch document builds an addap
 operation

---
 jsonpath/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ce5c054..054d6e7 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -419,7 +419,7 @@ class JSONPatch:
                     value=self._op_value(operation, "value", "addne", i),
                 )
             elif op == "addap":
-                self.addne(
+                self.addap(
                     path=self._op_pointer(operation, "path", "addap", i),
                     value=self._op_value(operation, "value", "addap", i),
                 )
-- 
2.43.0


From 02e9420e8df65874d93f929eccbcc6a8256a3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 07/21] fix: applying a patch inserts a copy of the operation's
 value

Later operations, other applications of the same patch and edits to the
patched document used to change the patch and the caller's operations.
---
 jsonpath/patch.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 054d6e7..3142325 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -62,19 +62,19 @@ class OpAdd(Op):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 if target == "-":
-                    parent.append(self.value)
+                    parent.append(copy.deepcopy(self.value))
                 else:
                     raise JSONPatchError("index out of range")
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -107,16 +107,16 @@ class OpAddNe(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(self.value)
+                parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         return data
 
 
@@ -141,16 +141,16 @@ class OpAddAp(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(self.value)
+                parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -212,16 +212,16 @@ class OpReplace(Op):
         """Apply this patch operation to _data_."""
         parent, obj = self.path.resolve_parent(data)
         if parent is None:
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = self.value
+            parent[int(self.path.parts[-1])] = copy.deepcopy(self.value)
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = self.value
+            parent[self.path.parts[-1]] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
-- 
2.43.0


From 4924338ff29ab910a9da0dcf63de09c3c66594b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 08/21] fix: addne follows add, except for existing object
 members

It appended to arrays when the index could not be resolved, and silently
ignored targets below scalar values.
---
 jsonpath/patch.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 3142325..a28133d 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -112,11 +112,19 @@ class OpAddNe(OpAdd):
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(copy.deepcopy(self.value))
+                if target == "-":
+                    parent.append(copy.deepcopy(self.value))
+                else:
+                    raise JSONPatchError("index out of range")
             else:
                 parent.insert(int(target), copy.deepcopy(self.value))
-        elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = copy.deepcopy(self.value)
+        elif isinstance(parent, MutableMapping):
+            if target not in parent:
+                parent[target] = copy.deepcopy(self.value)
+        else:
+            raise JSONPatchError(
+                f"unexpected operation on {parent.__class__.__name__!r}"
+            )
         return data
 
 
-- 
2.43.0


From ac35955c6afbdfdabe648f81382b000451d888dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 09/21] fix: patch object members with names that look like
 integers

Such names are parsed to integers, so operations added an integer key next to
the member, failed to find it or raised a KeyError.
---
 jsonpath/patch.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index a28133d..82538d3 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -43,6 +43,16 @@ class Op(ABC):
         """Return a dictionary representation of this operation."""
 
 
+def _member(
+    obj: Mapping[str, object], part: Union[int, str]
+) -> Union[int, str]:
+    """Return the name of the member of _obj_ identified by a pointer part.
+
+    Pointer parts that look like array indices have been converted to integers.
+    """
+    return str(part) if isinstance(part, int) and part not in obj else part
+
+
 class OpAdd(Op):
     """The JSON Patch _add_ operation."""
 
@@ -74,7 +84,7 @@ class OpAdd(Op):
             else:
                 parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[target] = copy.deepcopy(self.value)
+            parent[_member(parent, target)] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -119,8 +129,8 @@ class OpAddNe(OpAdd):
             else:
                 parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            if target not in parent:
-                parent[target] = copy.deepcopy(self.value)
+            if _member(parent, target) not in parent:
+                parent[_member(parent, target)] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -158,7 +168,7 @@ class OpAddAp(OpAdd):
             else:
                 parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[target] = copy.deepcopy(self.value)
+            parent[_member(parent, target)] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -191,7 +201,7 @@ class OpRemove(Op):
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent property")
-            del parent[self.path.parts[-1]]
+            del parent[_member(parent, self.path.parts[-1])]
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -229,7 +239,7 @@ class OpReplace(Op):
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = copy.deepcopy(self.value)
+            parent[_member(parent, self.path.parts[-1])] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -267,7 +277,7 @@ class OpMove(Op):
         if isinstance(source_parent, MutableSequence):
             del source_parent[int(self.source.parts[-1])]
         if isinstance(source_parent, MutableMapping):
-            del source_parent[self.source.parts[-1]]
+            del source_parent[_member(source_parent, self.source.parts[-1])]
 
         dest_parent, _ = self.dest.resolve_parent(data)
 
@@ -278,7 +288,7 @@ class OpMove(Op):
         if isinstance(dest_parent, MutableSequence):
             dest_parent.insert(int(self.dest.parts[-1]), source_obj)
         elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = source_obj
+            dest_parent[_member(dest_parent, self.dest.parts[-1])] = source_obj
         else:
             raise JSONPatchError(
                 f"unexpected operation on {dest_parent.__class__.__name__!r}"
@@ -320,7 +330,9 @@ class OpCopy(Op):
         if isinstance(dest_parent, MutableSequence):
             dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
         elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = copy.deepcopy(source_obj)
+            dest_parent[_member(dest_parent, self.dest.parts[-1])] = copy.deepcopy(
+                source_obj
+            )
         else:
             raise JSONPatchError(
                 f"unexpected operation on {dest_parent.__class__.__name__!r}"
-- 
2.43.0


From 5cf217f8f162317c94374da5a7187b68d779d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 10/21] fix: unusual patch targets fail with a patch error

The non-standard key and index pointer parts, and `-` as the target of a move
or copy operation, raised a KeyError or ValueError. Now `-` appends.
---
 jsonpath/patch.py | 56 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 82538d3..496f920 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -7,6 +7,7 @@ import json
 from abc import ABC
 from abc import abstractmethod
 from io import IOBase
+from typing import Any
 from typing import Dict
 from typing import Iterable
 from typing import List
@@ -53,6 +54,39 @@ def _member(
     return str(part) if isinstance(part, int) and part not in obj else part
 
 
+def _existing(
+    obj: Union[MutableSequence[object], MutableMapping[str, object]],
+    part: Union[int, str],
+) -> Any:
+    """Return the key or index of an existing item, to be removed or replaced.
+
+    The non-standard key (`~`) and index (`#`) pointer parts resolve to a value, but
+    not one that can be removed or replaced.
+    """
+    if isinstance(obj, MutableSequence):
+        return _position(part)
+    key = _member(obj, part)
+    if key not in obj:
+        raise JSONPatchError("can't change the name of a property")
+    return key
+
+
+def _position(part: Union[int, str]) -> int:
+    """Return the array index identified by a pointer part."""
+    try:
+        return int(part)
+    except ValueError as err:
+        raise JSONPatchError(f"unexpected array index {part!r}") from err
+
+
+def _insert(array: MutableSequence[object], part: Union[int, str], obj: object) -> None:
+    """Insert _obj_ in to _array_."""
+    if part == "-":
+        array.append(obj)
+    else:
+        array.insert(_position(part), obj)
+
+
 class OpAdd(Op):
     """The JSON Patch _add_ operation."""
 
@@ -82,7 +116,7 @@ class OpAdd(Op):
                 else:
                     raise JSONPatchError("index out of range")
             else:
-                parent.insert(int(target), copy.deepcopy(self.value))
+                parent.insert(_position(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
             parent[_member(parent, target)] = copy.deepcopy(self.value)
         else:
@@ -127,7 +161,7 @@ class OpAddNe(OpAdd):
                 else:
                     raise JSONPatchError("index out of range")
             else:
-                parent.insert(int(target), copy.deepcopy(self.value))
+                parent.insert(_position(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
             if _member(parent, target) not in parent:
                 parent[_member(parent, target)] = copy.deepcopy(self.value)
@@ -166,7 +200,7 @@ class OpAddAp(OpAdd):
             if obj is UNDEFINED:
                 parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), copy.deepcopy(self.value))
+                parent.insert(_position(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
             parent[_member(parent, target)] = copy.deepcopy(self.value)
         else:
@@ -197,11 +231,11 @@ class OpRemove(Op):
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent item")
-            del parent[int(self.path.parts[-1])]
+            del parent[_existing(parent, self.path.parts[-1])]
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent property")
-            del parent[_member(parent, self.path.parts[-1])]
+            del parent[_existing(parent, self.path.parts[-1])]
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -235,11 +269,11 @@ class OpReplace(Op):
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = copy.deepcopy(self.value)
+            parent[_existing(parent, self.path.parts[-1])] = copy.deepcopy(self.value)
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[_member(parent, self.path.parts[-1])] = copy.deepcopy(self.value)
+            parent[_existing(parent, self.path.parts[-1])] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -275,9 +309,9 @@ class OpMove(Op):
             raise JSONPatchError("source object does not exist")
 
         if isinstance(source_parent, MutableSequence):
-            del source_parent[int(self.source.parts[-1])]
+            del source_parent[_existing(source_parent, self.source.parts[-1])]
         if isinstance(source_parent, MutableMapping):
-            del source_parent[_member(source_parent, self.source.parts[-1])]
+            del source_parent[_existing(source_parent, self.source.parts[-1])]
 
         dest_parent, _ = self.dest.resolve_parent(data)
 
@@ -286,7 +320,7 @@ class OpMove(Op):
             return source_obj  # type: ignore
 
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), source_obj)
+            _insert(dest_parent, self.dest.parts[-1], source_obj)
         elif isinstance(dest_parent, MutableMapping):
             dest_parent[_member(dest_parent, self.dest.parts[-1])] = source_obj
         else:
@@ -328,7 +362,7 @@ class OpCopy(Op):
             return copy.deepcopy(source_obj)  # type: ignore
 
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
+            _insert(dest_parent, self.dest.parts[-1], copy.deepcopy(source_obj))
         elif isinstance(dest_parent, MutableMapping):
             dest_parent[_member(dest_parent, self.dest.parts[-1])] = copy.deepcopy(
                 source_obj
-- 
2.43.0


From b24bc2e2953b04fb7763366c3d9aabbf4db353d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 11/21] fix: decode escape sequences in pointers without
 corrupting other characters

Non-ASCII characters were read as Latin-1, so a patch with a non-ASCII path
did not survive asdicts(). Malformed escape sequences are pointer errors.
---
 jsonpath/pointer.py | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3628347..f4b4499 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -10,6 +10,7 @@ from typing import TYPE_CHECKING
 from typing import Any
 from typing import Iterable
 from typing import Mapping
+from typing import Match
 from typing import Sequence
 from typing import Tuple
 from typing import Union
@@ -30,6 +31,31 @@ if TYPE_CHECKING:
     from .match import JSONPathMatch
 
 
+_RE_NON_ASCII = re.compile(r"\\[\x00-\x7f]|\\?([^\x00-\x7f])", re.DOTALL)
+
+
+def _escape_non_ascii(match: Match[str]) -> str:
+    char = match.group(1)
+    if char is None:
+        return match.group()
+    escaped = char.encode("ascii", "backslashreplace").decode("ascii")
+    return f"\\\\{escaped}" if match.group().startswith("\\") else escaped
+
+
+def _decode_unicode_escapes(s: str) -> str:
+    # Encode non-ASCII characters as escape sequences first. The `unicode-escape`
+    # codec would read them as Latin-1 otherwise.
+    s = _RE_NON_ASCII.sub(_escape_non_ascii, s.replace("\\/", "/"))
+    try:
+        return (
+            codecs.decode(s, "unicode-escape")
+            .encode("utf-16", "surrogatepass")
+            .decode("utf-16")
+        )
+    except UnicodeError as err:
+        raise JSONPointerError(f"invalid escape sequence: {err}") from err
+
+
 class _Undefined:
     def __str__(self) -> str:
         return "<jsonpath.pointer.UNDEFINED>"
@@ -148,7 +174,10 @@ class JSONPointer:
                     raise JSONPointerIndexError("index out of range") from None
                 # Handle non-standard index pointer.
                 if isinstance(key, str) and key.startswith("#"):
-                    _index = int(key[1:])
+                    try:
+                        _index = int(key[1:])
+                    except ValueError:
+                        raise JSONPointerTypeError(f"{key}: {err}") from err
                     if _index >= len(obj):
                         raise JSONPointerIndexError(
                             f"index out of range: {_index}"
@@ -246,11 +275,7 @@ class JSONPointer:
         # UTF-16 escape sequences - possibly surrogate pairs - inside UTF-8
         # encoded strings. As per https://datatracker.ietf.org/doc/html/rfc4627
         # section 2.5.
-        return (
-            codecs.decode(s.replace("\\/", "/"), "unicode-escape")
-            .encode("utf-16", "surrogatepass")
-            .decode("utf-16")
-        )
+        return _decode_unicode_escapes(s)
 
     @classmethod
     def from_match(
@@ -296,12 +321,7 @@ class JSONPointer:
         if uri_decode:
             _parts = (unquote(p) for p in _parts)
         if unicode_escape:
-            _parts = (
-                codecs.decode(p.replace("\\/", "/"), "unicode-escape")
-                .encode("utf-16", "surrogatepass")
-                .decode("utf-16")
-                for p in _parts
-            )
+            _parts = (_decode_unicode_escapes(p) for p in _parts)
 
         __parts = tuple(_parts)
 
-- 
2.43.0


From e4989ad66396585edc645da2f47ab8062465d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 12/21] fix: malformed numbers and regular expressions are
 syntax errors

`int('1e3')`, `int('-')`, overflowing literals and invalid patterns raised
ValueError, OverflowError or re.error, which the command line tool shows as a
traceback.
---
 jsonpath/parse.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index eaef7fc..1c63229 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -356,17 +356,17 @@ class Parser:
         if not start_token.value:
             start: Optional[int] = None
         else:
-            start = int(start_token.value)
+            start = self._parse_int(start_token)
 
         if not stop_token.value:
             stop: Optional[int] = None
         else:
-            stop = int(stop_token.value)
+            stop = self._parse_int(stop_token)
 
         if not step_token.value:
             step: Optional[int] = None
         else:
-            step = int(step_token.value)
+            step = self._parse_int(step_token)
 
         return SliceSelector(
             env=self.env,
@@ -403,7 +403,7 @@ class Parser:
                     IndexSelector(
                         env=self.env,
                         token=stream.current,
-                        index=int(stream.current.value),
+                        index=self._parse_int(stream.current),
                     )
                 )
             elif stream.current.kind == TOKEN_BARE_PROPERTY:
@@ -527,7 +527,12 @@ class Parser:
 
     def parse_integer_literal(self, stream: TokenStream) -> FilterExpression:
         # Convert to float first to handle scientific notation.
-        return IntegerLiteral(value=int(float(stream.current.value)))
+        try:
+            return IntegerLiteral(value=int(float(stream.current.value)))
+        except (OverflowError, ValueError) as err:
+            raise JSONPathSyntaxError(
+                f"invalid number {stream.current.value!r}", token=stream.current
+            ) from err
 
     def parse_float_literal(self, stream: TokenStream) -> FilterExpression:
         return FloatLiteral(value=float(stream.current.value))
@@ -622,7 +627,12 @@ class Parser:
             stream.next_token()
             for flag in set(stream.current.value):
                 flags |= self.RE_FLAG_MAP[flag]
-        return RegexLiteral(value=re.compile(pattern, flags))
+        try:
+            return RegexLiteral(value=re.compile(pattern, flags))
+        except (re.error, OverflowError, RecursionError) as err:
+            raise JSONPathSyntaxError(
+                f"invalid regular expression: {err}", token=stream.current
+            ) from err
 
     def parse_list_literal(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
@@ -710,6 +720,14 @@ class Parser:
 
         return left
 
+    def _parse_int(self, token: Token) -> int:
+        try:
+            return int(token.value)
+        except ValueError as err:
+            raise JSONPathSyntaxError(
+                f"invalid integer {token.value!r}", token=token
+            ) from err
+
     def _decode_string_literal(self, token: Token) -> str:
         if self.env.unicode_escape:
             if token.kind == TOKEN_SINGLE_QUOTE_STRING:
-- 
2.43.0


From a56bc44c9705b4ae9dd710a5838d109b05f1ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 13/21] fix: the path sub-command can read a query from a file

It read from a namespace attribute that does not exist.
---
 jsonpath/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index e79d2fd..872332e 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -242,7 +242,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.query_file.read().strip()
+        query = args.path_file.read().strip()
 
     try:
         path = jsonpath.JSONPathEnvironment(
-- 
2.43.0


From b2fbe2e15685ae443c0a70948409da4852dd0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 14/21] fix: the path sub-command reports every JSONPath error

Name errors, from unknown functions, were shown as a traceback.
---
 jsonpath/cli.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 872332e..ab0ee34 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -6,6 +6,7 @@ import sys
 import jsonpath
 from jsonpath.__about__ import __version__
 from jsonpath.exceptions import JSONPatchError
+from jsonpath.exceptions import JSONPathError
 from jsonpath.exceptions import JSONPathIndexError
 from jsonpath.exceptions import JSONPathSyntaxError
 from jsonpath.exceptions import JSONPathTypeError
@@ -264,6 +265,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path index error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     try:
         matches = path.findall(args.file)
@@ -278,6 +284,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path type error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
-- 
2.43.0


From c4fccc188ee0cdc5e608517aa46a8606d0dbf00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 15/21] fix: the command line tool reports every kind of
 undecodable document

Invalid UTF-8, oversized integers and excessive nesting were shown as a
traceback.
---
 jsonpath/cli.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index ab0ee34..f69f50d 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -2,6 +2,7 @@
 import argparse
 import json
 import sys
+from typing import TextIO
 
 import jsonpath
 from jsonpath.__about__ import __version__
@@ -237,13 +238,23 @@ def setup_parser() -> argparse.ArgumentParser:  # noqa: D103
     return parser
 
 
+def _read(file: TextIO, debug: bool) -> str:
+    try:
+        return file.read().strip()
+    except UnicodeDecodeError as err:
+        if debug:
+            raise
+        sys.stderr.write(f"expression file decode error: {err}\n")
+        sys.exit(1)
+
+
 def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     """Handle the `path` sub command."""
     # Empty string is OK.
     if args.query is not None:
         query = args.query
     else:
-        query = args.path_file.read().strip()
+        query = _read(args.path_file, args.debug)
 
     try:
         path = jsonpath.JSONPathEnvironment(
@@ -273,7 +284,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
 
     try:
         matches = path.findall(args.file)
-    except json.JSONDecodeError as err:
+    except (ValueError, RecursionError) as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -301,7 +312,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
         pointer = args.pointer
     else:
         # TODO: is a property with a trailing newline OK?
-        pointer = args.pointer_file.read().strip()
+        pointer = _read(args.pointer_file, args.debug)
 
     try:
         match = jsonpath.pointer.resolve(
@@ -310,7 +321,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except (ValueError, RecursionError) as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -329,7 +340,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     """Handle the `patch` sub command."""
     try:
         patch = json.load(args.patch)
-    except json.JSONDecodeError as err:
+    except (ValueError, RecursionError) as err:
         if args.debug:
             raise
         sys.stderr.write(f"patch document json decode error: {err}\n")
@@ -348,7 +359,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except (ValueError, RecursionError) as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
-- 
2.43.0


From 67f33799d9f95f928b60af88dae745101a1adf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 16/21] fix: command line error messages are one line each

---
 jsonpath/cli.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index f69f50d..78fd7dd 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -238,13 +238,17 @@ def setup_parser() -> argparse.ArgumentParser:  # noqa: D103
     return parser
 
 
+def _one_line(err: Exception) -> str:
+    return " ".join(str(err).splitlines())
+
+
 def _read(file: TextIO, debug: bool) -> str:
     try:
         return file.read().strip()
     except UnicodeDecodeError as err:
         if debug:
             raise
-        sys.stderr.write(f"expression file decode error: {err}\n")
+        sys.stderr.write(f"expression file decode error: {_one_line(err)}\n")
         sys.exit(1)
 
 
@@ -264,22 +268,22 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     except JSONPathSyntaxError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path syntax error: {err}\n")
+        sys.stderr.write(f"json path syntax error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathTypeError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
+        sys.stderr.write(f"json path type error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathIndexError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path index error: {err}\n")
+        sys.stderr.write(f"json path index error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path error: {err}\n")
+        sys.stderr.write(f"json path error: {_one_line(err)}\n")
         sys.exit(1)
 
     try:
@@ -287,18 +291,18 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     except (ValueError, RecursionError) as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
+        sys.stderr.write(f"target document json decode error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathTypeError as err:
         # Type errors are currently only occurring are compile-time.
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
+        sys.stderr.write(f"json path type error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path error: {err}\n")
+        sys.stderr.write(f"json path error: {_one_line(err)}\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
@@ -324,12 +328,12 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
     except (ValueError, RecursionError) as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
+        sys.stderr.write(f"target document json decode error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPointerError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
+        sys.stderr.write(_one_line(err) + "\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
@@ -343,7 +347,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except (ValueError, RecursionError) as err:
         if args.debug:
             raise
-        sys.stderr.write(f"patch document json decode error: {err}\n")
+        sys.stderr.write(f"patch document json decode error: {_one_line(err)}\n")
         sys.exit(1)
 
     if not isinstance(patch, list):
@@ -362,12 +366,12 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except (ValueError, RecursionError) as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
+        sys.stderr.write(f"target document json decode error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPatchError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
+        sys.stderr.write(_one_line(err) + "\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-- 
2.43.0


From 4ecc773fa478d061e242cf0d4d0b1f676a4c0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 17/21] fix: the command line tool fails if its output can't be
 written

Errors writing buffered data to an output file were ignored at exit, leaving a
truncated file and exit status 0.
---
 jsonpath/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 78fd7dd..18ac240 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -307,6 +307,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
+    args.output.flush()
 
 
 def handle_pointer_command(args: argparse.Namespace) -> None:
@@ -338,6 +339,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
 
     indent = INDENT if args.pretty else None
     json.dump(match, args.output, indent=indent)
+    args.output.flush()
 
 
 def handle_patch_command(args: argparse.Namespace) -> None:
@@ -376,6 +378,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
 
     indent = INDENT if args.pretty else None
     json.dump(patched, args.output, indent=indent)
+    args.output.flush()
 
 
 def main() -> None:
-- 
2.43.0


From 6e1baf2aecebf87545d049236dd4948fbf3cdccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 18/21] fix: the command line tool reports queries that are
 nested too deeply

RecursionError from the parser was shown as a traceback.
---
 jsonpath/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 18ac240..9002f6b 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -280,7 +280,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path index error: {_one_line(err)}\n")
         sys.exit(1)
-    except JSONPathError as err:
+    except (JSONPathError, RecursionError) as err:
         if args.debug:
             raise
         sys.stderr.write(f"json path error: {_one_line(err)}\n")
-- 
2.43.0


From aec8fea34e79de5cbdb6ece0f502d4ed0c9f240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 19/21] fix: the command line tool writes results that are
 nested deeply

json.dump() is recursive, and failed with a traceback after part of the output
had been written, for documents that the decoder and the library handle.
---
 jsonpath/cli.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 9002f6b..66835ed 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -2,6 +2,7 @@
 import argparse
 import json
 import sys
+from typing import Optional
 from typing import TextIO
 
 import jsonpath
@@ -252,6 +253,17 @@ def _read(file: TextIO, debug: bool) -> str:
         sys.exit(1)
 
 
+def _dumps(obj: object, indent: Optional[int], debug: bool) -> str:
+    # Unlike `json.dump`, `json.dumps` is not recursive, if there's no indent.
+    try:
+        return json.dumps(obj, indent=indent)
+    except RecursionError as err:
+        if debug:
+            raise
+        sys.stderr.write(f"json encode error: {_one_line(err)}\n")
+        sys.exit(1)
+
+
 def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     """Handle the `path` sub command."""
     # Empty string is OK.
@@ -306,7 +318,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(matches, args.output, indent=indent)
+    args.output.write(_dumps(matches, indent, args.debug))
     args.output.flush()
 
 
@@ -338,7 +350,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(match, args.output, indent=indent)
+    args.output.write(_dumps(match, indent, args.debug))
     args.output.flush()
 
 
@@ -377,7 +389,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(patched, args.output, indent=indent)
+    args.output.write(_dumps(patched, indent, args.debug))
     args.output.flush()
 
 
-- 
2.43.0


From e0a309b13c488e13cf476b4c53938c77c857604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 20/21] fix: accept any count in query iterator operations

A count greater than sys.maxsize raised ValueError or OverflowError instead
of meaning all matches, and tee() with a negative count outside the range of
a C integer raised OverflowError instead of ValueError.
---
 jsonpath/fluent_api.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 4329e08..45943ff 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import collections
 import itertools
+import sys
 from enum import Enum
 from enum import auto
 from typing import TYPE_CHECKING
@@ -70,7 +71,7 @@ class Query:
         if n < 0:
             raise ValueError("can't limit by a negative number of matches")
 
-        self._it = itertools.islice(self._it, n)
+        self._it = itertools.islice(self._it, min(n, sys.maxsize))
         return self
 
     def head(self, n: int) -> Query:
@@ -103,6 +104,7 @@ class Query:
             raise ValueError("can't drop a negative number of matches")
 
         if n > 0:
+            n = min(n, sys.maxsize)
             next(itertools.islice(self._it, n, n), None)
 
         return self
@@ -124,7 +126,7 @@ class Query:
         if n < 0:
             raise ValueError("can't select a negative number of matches")
 
-        self._it = iter(collections.deque(self._it, maxlen=n))
+        self._it = iter(collections.deque(self._it, maxlen=min(n, sys.maxsize)))
         return self
 
     def last(self, n: int) -> Query:
@@ -178,7 +180,13 @@ class Query:
         """Return _n_ independent queries by teeing this query's iterator.
 
         It is not safe to use a `Query` instance after calling `tee()`.
+
+        Raises:
+            ValueError: If _n_ < 0.
         """
+        if n < 0:
+            raise ValueError("can't make a negative number of queries")
+
         return tuple(Query(it, self._env) for it in itertools.tee(self._it, n))
 
     def take(self, n: int) -> Query:
@@ -186,7 +194,7 @@ class Query:
 
         It is safe to continue using this query after calling take.
         """
-        return Query(list(itertools.islice(self._it, n)), self._env)
+        return Query(list(itertools.islice(self._it, min(n, sys.maxsize))), self._env)
 
     def select(
         self,
-- 
2.43.0


From d645616653681e72e101aa31003c27f274758d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 21/21] fix: parse the parts of pointer objects given to the
 patch builder

Pointers made with JSONPointer.from_parts() or RelativeJSONPointer.to(), or taken
from a match, hold array indices or index-like names as given. A patch built with
them printed the same operations as one loaded from a document, but didn't refuse
to move an array item into itself, and tested items of strings differently.
---
 jsonpath/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 496f920..f16f660 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -543,7 +543,8 @@ class JSONPatch:
                 uri_decode=self.uri_decode,
             )
         assert isinstance(path, JSONPointer)
-        return path
+        # Parts given to `from_parts()`, or those of a match, have not been parsed.
+        return path.__class__(str(path), unicode_escape=False)
 
     def add(self: Self, path: Union[str, JSONPointer], value: object) -> Self:
         """Append an _add_ operation to this patch.
-- 
2.43.0

