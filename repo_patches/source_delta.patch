From 93a26fa87a4bf8d47c832fef7aad0854d834e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:40 +0000
Subject: [PATCH 01/65] fix: let reduced objects refer to themselves in their
 state and items

An object restored through __reduce__ became available for references only
after its state, list items and dict items had been restored. A deque,
OrderedDict or exception that contained itself came back with internal
placeholder objects inside. Create the object first, as pickle does.
---
 jsonpickle/unpickler.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 76420ac..23c69de 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -522,15 +522,15 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
         try:
-            reduce_val = list(map(self._restore, obj[tags.REDUCE]))
+            reduce_val = list(obj[tags.REDUCE])
+            if len(reduce_val) < 6:
+                reduce_val.extend([None] * (6 - len(reduce_val)))
+            f, args = map(self._restore, reduce_val[:2])
         except TypeError:
             result = []
             proxy.reset(result)
             self._swapref(proxy, result)
             return result
-        if len(reduce_val) < 6:
-            reduce_val.extend([None] * (6 - len(reduce_val)))
-        f, args, state, listitems, dictitems, state_setter = reduce_val
 
         if f == tags.NEWOBJ or getattr(f, "__name__", "") == "__newobj__":
             # mandated special case
@@ -540,6 +540,8 @@ class Unpickler:
             stage1 = cls.__new__(cls, *args[1:])
         else:
             if not callable(f):
+                for value in reduce_val[2:]:
+                    self._restore(value)
                 result = []
                 proxy.reset(result)
                 self._swapref(proxy, result)
@@ -551,6 +553,19 @@ class Unpickler:
                 # __init__ since the state dict will set all attributes immediately afterwards
                 stage1 = f.__new__(f, *args)
 
+        # The object exists now. Make it available before restoring the rest:
+        # its state and its items are allowed to refer back to it.
+        proxy.reset(stage1)
+        self._swapref(proxy, stage1)
+        try:
+            state, listitems, dictitems, state_setter = map(
+                self._restore, reduce_val[2:]
+            )
+        except TypeError:
+            result = []
+            self._swapref(stage1, result)
+            return result
+
         if state and state_setter is None:
             try:
                 stage1.__setstate__(state)
@@ -591,8 +606,6 @@ class Unpickler:
             for k, v in dictitems:
                 stage1.__setitem__(k, v)
 
-        proxy.reset(stage1)
-        self._swapref(proxy, stage1)
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
-- 
2.43.0


From baa0e5d12418d234f149278f804764f6087505d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:44 +0000
Subject: [PATCH 02/65] fix: keep references intact when fail_safe replaces an
 object

An object replaced by the fail_safe callback had already used up a reference
ID, and so had everything flattened inside it. The IDs written later were then
off, so shared objects decoded to the wrong value. Give those IDs back.
---
 jsonpickle/pickler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 771db2b..3ae6f7c 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -333,6 +333,15 @@ class Pickler:
         pretend_new = not self.unpicklable or not self.make_refs
         return pretend_new or is_new
 
+    def _forget_refs(self, count: int) -> None:
+        """Drop the references that were logged after the first `count` ones.
+
+        Used when an object's representation is discarded: the unpickler will
+        never see it, so it must not use up reference IDs.
+        """
+        while len(self._objs) > count:
+            self._objs.popitem()
+
     def _getref(self, obj: Any) -> dict[str, int]:
         """Return a "py/id" entry for the specified object"""
         return {tags.ID: self._objs.get(id(obj))}  # type: ignore[dict-item]
@@ -418,6 +427,7 @@ class Pickler:
         self._seen.append(obj)
 
         max_reached = self._max_reached()
+        num_refs = len(self._objs)
 
         try:
             in_cycle = _in_cycle(obj, self._objs, max_reached, self.make_refs)
@@ -440,6 +450,7 @@ class Pickler:
             if self.fail_safe is None:
                 raise
             else:
+                self._forget_refs(num_refs)
                 return self.fail_safe(e)
 
     def _list_recurse(self, obj: Iterable[Any]) -> list[Any]:
-- 
2.43.0


From 5b35d777675e73bb83e7069c8712c826a5e124b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:48 +0000
Subject: [PATCH 03/65] fix: keep references intact when an object is stored as
 null

Objects that cannot be pickled, for example open files, are stored as null.
They still used up a reference ID, which shifted every later reference.
---
 jsonpickle/pickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 3ae6f7c..ab1607b 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -800,10 +800,15 @@ class Pickler:
     def _ref_obj_instance(self, obj: Any) -> dict[str, Any] | list[Any] | None:
         """Reference an existing object or flatten if new"""
         if self.unpicklable:
+            num_refs = len(self._objs)
             if self._mkref(obj):
                 # We've never seen this object so return its
                 # json representation.
-                return self._flatten_obj_instance(obj)
+                result = self._flatten_obj_instance(obj)
+                if result is None:
+                    # Nothing of this object is stored
+                    self._forget_refs(num_refs)
+                return result
             # We've seen this object before so place an object
             # reference tag in the data. This avoids infinite recursion
             # when processing cyclical objects.
-- 
2.43.0


From f7a4e495296213617d471460483620974234e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:51 +0000
Subject: [PATCH 04/65] fix: keep the attributes of a dict subclass equal to
 its own items

The attributes of a dict subclass were dropped when they happened to compare
equal to its items. Only skip them when they are the very same dictionary.
---
 jsonpickle/pickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index ab1607b..b3c2356 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -935,7 +935,12 @@ class Pickler:
             data[store_key] = value
 
         # Sub-classes of dict
-        if hasattr(obj, "__dict__") and self.unpicklable and obj != obj.__dict__:
+        if (
+            hasattr(obj, "__dict__")
+            and self.unpicklable
+            and obj is not obj.__dict__
+            and (obj != obj.__dict__ or obj.__dict__)
+        ):
             if self._mkref(obj.__dict__):
                 dict_data = {}
                 self._flatten_dict_obj(obj.__dict__, dict_data, exclude=exclude)
-- 
2.43.0


From be43a1820e5a8aafdb070d66191e9bbefd5a975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:55 +0000
Subject: [PATCH 05/65] fix: keep objects alive while their flattened form is
 cached

With make_refs=False or unpicklable=False, flattened values are cached by
object id. Short-lived bytes objects, for example those produced by a
generator, were freed and their id reused, so later values were replaced by
earlier ones.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index b3c2356..ee54261 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -355,6 +355,8 @@ class Pickler:
                 result = self._flattened[id(obj)]
             except KeyError:
                 result = self._flattened[id(obj)] = self._flatten_impl(obj)
+                # id(obj) is only meaningful for as long as obj is alive
+                self._seen.append(obj)
         return result
 
     def flatten(self, obj: Any, reset: bool = True) -> Any:
-- 
2.43.0


From 4e36714d9e20a9647e803d40436f878da961159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:59 +0000
Subject: [PATCH 06/65] fix: treat py/b64 and py/b85 as reserved keys

A dictionary with one of these keys was decoded as bytes even with keys=True,
where every other tag name is escaped.
---
 jsonpickle/tags.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/tags.py b/jsonpickle/tags.py
index cfede5b..36278e5 100644
--- a/jsonpickle/tags.py
+++ b/jsonpickle/tags.py
@@ -36,6 +36,8 @@ TYPE: str = "py/type"
 RESERVED: set[str] = {
     BYTES,
     BYTEARRAY,
+    B64,
+    B85,
     FUNCTION,
     ID,
     INITARGS,
-- 
2.43.0


From 50cf189c3cd57f87f4e95f2e0ee5fba2023d4a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:03 +0000
Subject: [PATCH 07/65] fix: resolve cyclic references in dictionaries decoded
 with keys=True

A string-keyed entry that referred to an object still under construction kept
an internal placeholder as its value.
---
 jsonpickle/unpickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 23c69de..b278638 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -931,7 +931,9 @@ class Unpickler:
                 else:
                     str_k = k
                 self._namestack.append(str_k)
-                data[k] = self._restore(v)
+                data[k] = result = self._restore(v)
+                if isinstance(result, _Proxy):
+                    self._proxies.append((data, k, result, _obj_setvalue))
 
                 self._namestack.pop()
 
-- 
2.43.0


From e78402fd1b6bdb3568b92299898c650f6205ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:07 +0000
Subject: [PATCH 08/65] fix: flatten escaped string keys in the order they are
 restored

With keys=True the decoder handles all escaped keys after the regular ones, but
string keys that needed escaping were encoded in place. References to the
values next to them then decoded to the wrong objects.
---
 jsonpickle/pickler.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index ee54261..aea5b78 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -839,6 +839,11 @@ class Pickler:
         self, k: Any, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten only non-string key/value pairs"""
+        if self._is_colliding_key(k):
+            # Escape data keys colliding with the json:// prefix or a reserved
+            # wire tag; must run before _is_picklable, which drops RESERVED keys.
+            data[self._escape_key(k)] = self._flatten(v)
+            return data
         if not util._is_picklable(k, v):
             return data
         if self.keys and not isinstance(k, str):
@@ -846,18 +851,18 @@ class Pickler:
             data[k] = self._flatten(v)
         return data
 
+    def _is_colliding_key(self, k: Any) -> bool:
+        """Does this string look like an escaped key or a wire tag?"""
+        return isinstance(k, str) and (
+            k.startswith(tags.JSON_KEY) or k in tags.RESERVED
+        )
+
     def _flatten_string_key_value_pair(
         self, k: str, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten string key/value pairs only."""
-        if (
-            isinstance(k, str)
-            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
-            and self.keys
-        ):
-            # Escape data keys colliding with the json:// prefix or a reserved
-            # wire tag; must run before _is_picklable, which drops RESERVED keys.
-            data[self._escape_key(k)] = self._flatten(v)
+        if self.keys and self._is_colliding_key(k):
+            # The unpickler restores escaped keys last, so leave it for later.
             return data
         if not util._is_picklable(k, v):
             return data
-- 
2.43.0


From 45b288a194e242c3204a50181d798f0288d4e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:00 +0000
Subject: [PATCH 09/65] fix: flatten a defaultdict's factory before its items

The decoder restores the default factory first because it needs it to create
the instance. The encoder numbered it after the items. With any factory that is
not a class, references to the values of a defaultdict decoded to the wrong
objects.
---
 jsonpickle/pickler.py | 48 ++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index aea5b78..fe4cffa 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -884,6 +884,24 @@ class Pickler:
         data[k] = self._flatten(v)
         return data
 
+    def _flatten_default_factory(self, factory: Callable[[], Any]) -> Any:
+        """Return a json-friendly representation of a defaultdict's factory"""
+        if util._is_type(factory):
+            # Reference the class/type
+            # in this case it's dict[str, str]
+            return _mktyperef(factory)
+        # The factory is not a type and could reference e.g. functions
+        # or even the object instance itself, which creates a cycle.
+        if self._mkref(factory):
+            # We've never seen this object before so pickle it in-place.
+            # Create an instance from the factory and assume that the
+            # resulting instance is a suitable exemplar.
+            return self._flatten_obj_instance(handlers.CloneFactory(factory()))
+        # We've seen this object before.
+        # Break the cycle by emitting a reference.
+        # in this case it's dict[str, int]
+        return self._getref(factory)
+
     def _flatten_dict_obj(
         self,
         obj: dict[Any, Any],
@@ -894,6 +912,13 @@ class Pickler:
         if data is None:
             data = obj.__class__()
 
+        # The unpickler needs the factory to create the instance, so it is
+        # restored, and must be flattened, before any of the items.
+        has_factory = hasattr(obj, "default_factory") and callable(obj.default_factory)
+        factory_data = (
+            self._flatten_default_factory(obj.default_factory) if has_factory else None
+        )
+
         # If we allow non-string keys then we have to do a two-phase
         # encoding to ensure that the reference IDs are deterministic.
         if self.keys:
@@ -913,33 +938,14 @@ class Pickler:
                 flatten(k, v, data)
 
         # the collections.defaultdict protocol
-        if hasattr(obj, "default_factory") and callable(obj.default_factory):
-            factory = obj.default_factory
+        if has_factory:
             # i know that this string could be moved above the hasattr to reduce
             # string duplication but mypy 1.18.2 complains and i don't want to use
             # even more type: ignores
             store_key = "default_factory"
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
-            value: Any
-            if util._is_type(factory):
-                # Reference the class/type
-                # in this case it's dict[str, str]
-                value = _mktyperef(factory)
-            else:
-                # The factory is not a type and could reference e.g. functions
-                # or even the object instance itself, which creates a cycle.
-                if self._mkref(factory):
-                    # We've never seen this object before so pickle it in-place.
-                    # Create an instance from the factory and assume that the
-                    # resulting instance is a suitable exemplar.
-                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
-                else:
-                    # We've seen this object before.
-                    # Break the cycle by emitting a reference.
-                    # in this case it's dict[str, int]
-                    value = self._getref(factory)
-            data[store_key] = value
+            data[store_key] = factory_data
 
         # Sub-classes of dict
         if (
-- 
2.43.0


From 3e143ea7abd32816fb4b4401173a3f3d398f213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:04 +0000
Subject: [PATCH 10/65] fix: keep attributes and items that are named
 default_factory

An attribute or dictionary item with this name was always taken for the factory
of a defaultdict and often got lost. Only take it for a factory when it can be
one, and mark an item with this name as such.

Restoring a defaultdict also no longer removes the factory from the flattened
data that was passed in, so the same data can be restored again.
---
 jsonpickle/pickler.py   |  4 ++++
 jsonpickle/unpickler.py | 30 +++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index fe4cffa..054aef0 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -946,6 +946,10 @@ class Pickler:
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
             data[store_key] = factory_data
+        elif "default_factory" in data and util._is_dictionary_subclass(obj):
+            # This is one of the items. Store the lack of a factory explicitly so
+            # that it is not mistaken for one.
+            data[tags.DEFAULT_FACTORY] = None
 
         # Sub-classes of dict
         if (
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index b278638..4667297 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -635,17 +635,27 @@ class Unpickler:
         obj = loadrepr(obj[tags.REPR])
         return self._mkref(obj)
 
-    def _loadfactory(self, obj: dict[str, Any]) -> Any | None:
-        default_factory = None
+    def _loadfactory(
+        self, obj: dict[str, Any], cls: type
+    ) -> tuple[Any | None, dict[str, Any]]:
+        """Return the default factory and the data that remains without it"""
         for key in (tags.DEFAULT_FACTORY, "default_factory"):
-            try:
-                default_factory = obj.pop(key)
+            if key in obj:
                 break
-            except KeyError:
-                continue
+        else:
+            return None, obj
+        default_factory = obj[key]
+        is_dict = isinstance(cls, type) and issubclass(cls, dict)
+        if not is_dict and not (
+            has_tag(default_factory, tags.TYPE)
+            or has_tag(default_factory, tags.FUNCTION)
+        ):
+            # A regular attribute that happens to have this name
+            return None, obj
+        obj = {k: v for k, v in obj.items() if k != key}
         if default_factory is None:
-            return None
-        return self._restore(default_factory)
+            return None, obj
+        return self._restore(default_factory), obj
 
     def _process_missing(self, class_name: str) -> None:
         # most common case comes first
@@ -833,7 +843,7 @@ class Unpickler:
 
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
-        factory = self._loadfactory(obj)
+        factory, obj = self._loadfactory(obj, cls)
 
         if has_tag(obj, tags.NEWARGSEX):
             args, kwargs = obj[tags.NEWARGSEX]
@@ -868,6 +878,8 @@ class Unpickler:
                 except Exception:  # ruff: ignore[BLE001]
                     self._process_missing(class_name)
                     return self._mkref(obj)
+            if factory:
+                instance.default_factory = factory
 
         proxy.reset(instance)
         self._swapref(proxy, instance)
-- 
2.43.0


From 5bd5c70900615f814b945f661d5d45628cce0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:57 +0000
Subject: [PATCH 11/65] fix: support compiled regular expressions over bytes

The pattern was handed to the JSON library as it is. Depending on the library,
bytes patterns failed to encode or came back as str patterns.
---
 jsonpickle/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3148365..f7cad2c 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -241,12 +241,13 @@ class RegexHandler(BaseHandler):
     """Flatten _sre.SRE_Pattern (compiled regex) objects"""
 
     def flatten(self, obj: re.Pattern[str], data: dict[str, Any]) -> HandlerReturn:
-        data["pattern"] = obj.pattern
+        data["pattern"] = self.context.flatten(obj.pattern, reset=False)
         data["flags"] = obj.flags
         return data
 
     def restore(self, data: dict[str, Any]) -> re.Pattern[str]:
-        return re.compile(data["pattern"], data.get("flags", 0))
+        pattern = self.context.restore(data["pattern"], reset=False)
+        return re.compile(pattern, data.get("flags", 0))
 
 
 RegexHandler.handles(type(re.compile("")))
-- 
2.43.0


From 2044e9424dd04affecfba38f41eea63699d228cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:00 +0000
Subject: [PATCH 12/65] fix: do not share the context of handlers registered as
 instances

A handler instance, such as the numpy array handler, stored the pickler or
unpickler it was last used with. Concurrent or nested calls overwrote it, so
array contents could be recorded in the wrong pickler.
---
 jsonpickle/handlers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index f7cad2c..d89c1de 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -175,8 +175,11 @@ class BaseHandler:
         :Parameters:
           - `context`: reference to pickler/unpickler
         """
-        self.context = context
-        return self
+        # A registered instance is shared, possibly between threads, so each
+        # context gets its own copy.
+        handler = copy.copy(self)
+        handler.context = context
+        return handler
 
 
 class ArrayHandler(BaseHandler):
-- 
2.43.0


From 22a299d6f98005de415666b9cf026ed1c23cc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:04 +0000
Subject: [PATCH 13/65] fix: do not overwrite attributes while encoding with
 handle_readonly

The read-only test assigned the value being encoded to the top-level object.
A nested value stored under the name of one of its attributes replaced that
attribute.
---
 jsonpickle/pickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 054aef0..8a39f26 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -485,7 +485,9 @@ class Pickler:
         if (
             self.handle_readonly
             and k in {attr for attr, val in inspect.getmembers(self._original_object)}
-            and util._is_readonly(self._original_object, k, v)
+            and util._is_readonly(
+                self._original_object, k, getattr(self._original_object, k)
+            )
         ):
             return data
 
-- 
2.43.0


From 9128d34f504526aa528b305bb684e91692a905ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:14 +0000
Subject: [PATCH 14/65] fix: keep inherited slots of objects that also have a
 __dict__

When a class with __slots__ is subclassed without __slots__, the instances have
both a __dict__ and slots. The slot values were silently dropped.
---
 jsonpickle/pickler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 8a39f26..74428f8 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -769,7 +769,17 @@ class Pickler:
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
-            return self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            # slots inherited from a base class are not part of __dict__
+            inherited_slots = [
+                slot
+                for base in type(obj).__mro__
+                for slot in _wrap_string_slot(vars(base).get("__slots__", ()))
+                if isinstance(vars(base).get(slot), types.MemberDescriptorType)
+            ]
+            if inherited_slots:
+                self._flatten_obj_attrs(obj, inherited_slots, data, exclude)
+            return data
 
         if has_slots:
             return self._flatten_newstyle_with_slots(obj, data, exclude=exclude)
-- 
2.43.0


From 4465c5c213d5156b372db1dedbfbadf0c06bda5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:03 +0000
Subject: [PATCH 15/65] fix: keep the fold attribute of datetime and time
 objects

The second occurrence of an ambiguous local time decoded to the first one.
---
 jsonpickle/handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index d89c1de..3ed6cf5 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -218,7 +218,8 @@ class DatetimeHandler(BaseHandler):
             else:
                 result = str(obj)
             return result
-        cls, args = obj.__reduce__()  # type: ignore[str-unpack]
+        # older protocols do not include the fold attribute
+        cls, args = obj.__reduce_ex__(4)  # type: ignore[str-unpack]
         flatten = pickler.flatten
         payload = util.b64encode(args[0])  # type: ignore[arg-type]
         args = [payload] + [flatten(i, reset=False) for i in args[1:]]
-- 
2.43.0


From ecf8e36c9dd9ea92925c634f6f639d20de0ff00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:05 +0000
Subject: [PATCH 16/65] fix: restore the attributes of tuple subclasses

The attributes of an instance of a tuple subclass were written but not read
back. References to objects inside of them were off as well.
---
 jsonpickle/unpickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 4667297..3c17834 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -885,6 +885,9 @@ class Unpickler:
         self._swapref(proxy, instance)
 
         if isinstance(instance, tuple):
+            # The contents were passed to __new__()
+            if hasattr(instance, "__dict__"):
+                self._restore_from_dict(obj, instance)
             return instance
 
         instance = self._restore_object_instance_variables(obj, instance)
-- 
2.43.0


From 87c866f397baaa71cad4ec7a3e4f92fcb0112785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:10 +0000
Subject: [PATCH 17/65] fix: keep the contents of deque subclasses

Instances of classes derived from collections.deque were stored without their
items. Use their __reduce__ method, as is done for deque itself.
---
 jsonpickle/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index e0414d2..071e307 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -326,7 +326,7 @@ def _is_reducible(obj: Any) -> bool:
         or _is_dictionary_subclass(obj)
         or isinstance(obj, types.ModuleType)
         or _is_reducible_sequence_subclass(obj)
-        or _is_list_like(obj)
+        or (_is_list_like(obj) and not isinstance(obj, collections.deque))
         or isinstance(getattr(obj, "__slots__", None), _ITERATOR_TYPE)
         or (_is_type(obj) and obj.__module__ == "datetime")
     )
-- 
2.43.0


From 521d772ae9525275d9c1bf402ba7d2fdc66745ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:15 +0000
Subject: [PATCH 18/65] fix: keep private slots of base classes

Slots with a name like __x were lost when they were defined in a base class,
when the instance has a __dict__ as well, or when the name of the class starts
with an underscore.
---
 jsonpickle/pickler.py   | 41 +++++++++++++++++++++++++++++++++--------
 jsonpickle/unpickler.py |  4 +++-
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 74428f8..7e63832 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -199,6 +199,34 @@ def _mktyperef(obj: type) -> dict[str, str]:
     return {tags.TYPE: util.importable_name(obj)}
 
 
+def _private_name(cls: type, name: str) -> str:
+    """Return the name that a private name in the body of a class stands for
+
+    >>> _private_name(Pickler, '__name')
+    '_Pickler__name'
+    >>> _private_name(Pickler, 'name')
+    'name'
+
+    """
+    if name.startswith("__") and not name.endswith("__"):
+        return f"_{cls.__name__.lstrip('_')}{name}"
+    return name
+
+
+def _slot_names(cls: type) -> list[str]:
+    """Return the names of all slots, those of the base classes included
+
+    Private names of the class itself are returned as they were written and
+    private names of its base classes as the attribute they stand for.
+    """
+    return [
+        slot if base is cls else _private_name(base, slot)
+        for base in cls.__mro__
+        for slot in _wrap_string_slot(vars(base).get("__slots__", ()))
+        if slot not in ("__dict__", "__weakref__")
+    ]
+
+
 def _wrap_string_slot(string: str | Sequence[str]) -> Sequence[str]:
     """Converts __slots__ = 'a' into __slots__ = ('a',)"""
     if isinstance(string, str):
@@ -533,7 +561,8 @@ class Pickler:
                 if not k.startswith("__"):
                     value = getattr(obj, k)
                 else:
-                    value = getattr(obj, f"_{obj.__class__.__name__}{k}")
+                    class_name = obj.__class__.__name__.lstrip("_")
+                    value = getattr(obj, f"_{class_name}{k}")
                 flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
@@ -590,7 +619,8 @@ class Pickler:
         if self.include_properties:
             data = self._flatten_properties(obj, data, allslots)
 
-        if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
+        slots = chain(*allslots, _slot_names(obj.__class__))
+        if not self._flatten_obj_attrs(obj, dict.fromkeys(slots), data, exclude):
             attrs = [
                 x for x in dir(obj) if not x.startswith("__") and not x.endswith("__")
             ]
@@ -771,12 +801,7 @@ class Pickler:
             getattr(obj, "_", None)
             self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
             # slots inherited from a base class are not part of __dict__
-            inherited_slots = [
-                slot
-                for base in type(obj).__mro__
-                for slot in _wrap_string_slot(vars(base).get("__slots__", ()))
-                if isinstance(vars(base).get(slot), types.MemberDescriptorType)
-            ]
+            inherited_slots = _slot_names(type(obj))
             if inherited_slots:
                 self._flatten_obj_attrs(obj, inherited_slots, data, exclude)
             return data
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 3c17834..d57dde2 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -765,7 +765,9 @@ class Unpickler:
                             continue
                         raise
                 else:
-                    setattr(instance, f"_{instance.__class__.__name__}{k}", value)
+                    # private names are stored as they are written in the class
+                    class_name = instance.__class__.__name__.lstrip("_")
+                    setattr(instance, f"_{class_name}{k}", value)
 
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
-- 
2.43.0


From ee5407f7f287a05586bef694209a46b561171255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:10 +0000
Subject: [PATCH 19/65] fix: restore reduced objects that have both __dict__
 and __slots__

The state of such an object is a pair: the attributes in its __dict__ and those
in its slots. Decoding it failed because the pair was assigned to __dict__.
---
 jsonpickle/unpickler.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index d57dde2..cadfa4b 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -571,25 +571,25 @@ class Unpickler:
                 stage1.__setstate__(state)
             except AttributeError:
                 # it's fine - we'll try the prescribed default methods
+                slots_state = None
+                if isinstance(state, tuple) and len(state) == 2:
+                    # the values of __dict__ and those of __slots__
+                    state, slots_state = state
                 try:
                     # we can't do a straight update here because we
                     # need object identity of the state dict to be
                     # preserved so that _swap_proxies works out
-                    for k, v in stage1.__dict__.items():
-                        state.setdefault(k, v)
-                    stage1.__dict__ = state
+                    if state:
+                        for k, v in stage1.__dict__.items():
+                            state.setdefault(k, v)
+                        stage1.__dict__ = state
                 except AttributeError:
                     # next prescribed default
-                    try:
-                        for k, v in state.items():
-                            setattr(stage1, k, v)
-                    except Exception:  # ruff: ignore[BLE001]
-                        dict_state, slots_state = state
-                        if dict_state:
-                            stage1.__dict__.update(dict_state)
-                        if slots_state:
-                            for k, v in slots_state.items():
-                                setattr(stage1, k, v)
+                    for k, v in state.items():
+                        setattr(stage1, k, v)
+                if slots_state:
+                    for k, v in slots_state.items():
+                        setattr(stage1, k, v)
         elif state:
             # pickle protocol 5's state_setter takes priority over __setstate__
             state_setter(stage1, state)
-- 
2.43.0


From af0bf906e204a7a6b1d4fd4d00885a9c10b5b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:57 +0000
Subject: [PATCH 20/65] fix: do not store class attributes of slotted instances

When none of its slots was set, an instance was stored with the constants and
read-only properties of its class. Decoding then failed because these cannot be
assigned.
---
 jsonpickle/pickler.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 7e63832..3e7d046 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -227,6 +227,18 @@ def _slot_names(cls: type) -> list[str]:
     ]
 
 
+def _is_assignable(cls: type, name: str) -> bool:
+    """Can the instances of this class have their own value for an attribute?
+
+    This tells the attributes of slotted instances from methods, constants and
+    read-only properties of their class.
+    """
+    attr = inspect.getattr_static(cls, name, None)
+    if isinstance(attr, property):
+        return attr.fset is not None
+    return hasattr(type(attr), "__set__")
+
+
 def _wrap_string_slot(string: str | Sequence[str]) -> Sequence[str]:
     """Converts __slots__ = 'a' into __slots__ = ('a',)"""
     if isinstance(string, str):
@@ -622,7 +634,11 @@ class Pickler:
         slots = chain(*allslots, _slot_names(obj.__class__))
         if not self._flatten_obj_attrs(obj, dict.fromkeys(slots), data, exclude):
             attrs = [
-                x for x in dir(obj) if not x.startswith("__") and not x.endswith("__")
+                x
+                for x in dir(obj)
+                if not x.startswith("__")
+                and not x.endswith("__")
+                and _is_assignable(obj.__class__, x)
             ]
             self._flatten_obj_attrs(obj, attrs, data, exclude)
 
-- 
2.43.0


From 785efcbf5b4f473676d46e434323de9b34cc3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:55 +0000
Subject: [PATCH 21/65] fix: restore attributes such as __orig_class__ under
 their own name

Attributes of an instance whose name starts and ends with two underscores were
restored as if they were private names of the class. Instances of a generic
class, created like Box[int](), got an additional _Box__orig_class__.
---
 jsonpickle/unpickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index cadfa4b..2875df6 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -741,7 +741,11 @@ class Unpickler:
                     self._namestack.pop()
                     continue
             else:
-                if not k.startswith("__"):
+                is_private = k.startswith("__") and not (
+                    # names like __orig_class__ are not mangled
+                    k.endswith("__") and not hasattr(type(instance), k)
+                )
+                if not is_private:
                     try:
                         setattr(instance, k, value)
                     except KeyError:
-- 
2.43.0


From f2fe32413bb03b4153bce1e20d556706c4152d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:52 +0000
Subject: [PATCH 22/65] fix: keep dictionary items named __dict__ with
 keys=True

---
 jsonpickle/pickler.py   | 5 ++++-
 jsonpickle/unpickler.py | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 3e7d046..e1d47ac 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -907,7 +907,10 @@ class Pickler:
     def _is_colliding_key(self, k: Any) -> bool:
         """Does this string look like an escaped key or a wire tag?"""
         return isinstance(k, str) and (
-            k.startswith(tags.JSON_KEY) or k in tags.RESERVED
+            k.startswith(tags.JSON_KEY)
+            or k in tags.RESERVED
+            # stores the attributes of dict subclasses
+            or k == "__dict__"
         )
 
     def _flatten_string_key_value_pair(
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 2875df6..bb7d926 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -722,6 +722,7 @@ class Unpickler:
             else:
                 str_k = k
             self._namestack.append(str_k)
+            is_attr_dict = k == "__dict__"
             if restore_dict_items:
                 k = restore_key(k)
                 # step into the namespace
@@ -730,13 +731,13 @@ class Unpickler:
                 value = v
             if util._is_noncomplex(instance) or util._is_dictionary_subclass(instance):
                 try:
-                    if k == "__dict__":
+                    if is_attr_dict:
                         setattr(instance, k, value)
                     else:
                         instance[k] = value
                 except TypeError:
                     # Immutable object, must be constructed in one shot
-                    if k != "__dict__":
+                    if not is_attr_dict:
                         deferred[k] = value
                     self._namestack.pop()
                     continue
-- 
2.43.0


From 6e6192b9a57f99cdb0d21808fd1d8e661792531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:39 +0000
Subject: [PATCH 23/65] fix: break cycles of lists and dictionaries with
 unpicklable=False

---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index e1d47ac..6fa60b8 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -1025,6 +1025,9 @@ class Pickler:
 
     def _get_flattener(self, obj: Any) -> Callable[[Any], Any] | None:
         if type(obj) in (list, dict):
+            if not self.unpicklable and id(obj) in self._objs:
+                # A circular becomes None.
+                return None
             if self._mkref(obj):
                 return (
                     self._list_recurse if type(obj) is list else self._flatten_dict_obj
-- 
2.43.0


From 4843d56c25ad7f3432d014f33c99ccee848938f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:56 +0000
Subject: [PATCH 24/65] fix: no wire tag for dict subclass items named
 default_factory with unpicklable=False

---
 jsonpickle/pickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6fa60b8..5f7b0c6 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -1002,7 +1002,11 @@ class Pickler:
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
             data[store_key] = factory_data
-        elif "default_factory" in data and util._is_dictionary_subclass(obj):
+        elif (
+            "default_factory" in data
+            and self.unpicklable
+            and util._is_dictionary_subclass(obj)
+        ):
             # This is one of the items. Store the lack of a factory explicitly so
             # that it is not mistaken for one.
             data[tags.DEFAULT_FACTORY] = None
-- 
2.43.0


From a820276527b6be9b66ade748ffc717567ef9e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:19 +0000
Subject: [PATCH 25/65] fix: do not add class attributes to instances with
 handle_readonly

The read-only test assigned attributes of the class, such as methods, to the
top-level object when a nested dictionary had a key of the same name.  The
object was changed, or the encoder failed because its __dict__ changed size.
---
 jsonpickle/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index 071e307..d936042 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -342,6 +342,13 @@ def _is_cython_function(obj: Any) -> bool:
 
 
 def _is_readonly(obj: Any, attr: str, value: Any) -> bool:
+    if (
+        hasattr(obj, "__dict__")
+        and attr not in obj.__dict__
+        and not hasattr(type(inspect.getattr_static(type(obj), attr, None)), "__set__")
+    ):
+        # Trying it would copy an attribute of the class to the instance.
+        return False
     # CPython 3.11+ has 0-cost try/except, please use up-to-date versions!
     try:
         setattr(obj, attr, value)
-- 
2.43.0


From 6fb7ee8f393644537304eb2e8a5f266552fe453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:07 +0000
Subject: [PATCH 26/65] fix: keep references intact with include_properties

Objects returned by properties used up reference numbers although the
properties are not restored.  Later references pointed to the wrong object.
Unset slots no longer make the encoder fail.
---
 jsonpickle/pickler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 5f7b0c6..7d26276 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -604,14 +604,21 @@ class Pickler:
         ]
 
         properties_dict = {}
+        num_refs = len(self._objs)
         for p_name in properties:
-            p_val = getattr(obj, p_name)
+            try:
+                p_val = getattr(obj, p_name)
+            except AttributeError:
+                # e.g. a slot that has not been set
+                continue
             if util._is_not_class(p_val):
                 properties_dict[p_name] = p_val
             else:
                 properties_dict[p_name] = self._flatten(p_val)
 
         data[tags.PROPERTY] = properties_dict
+        # The unpickler does not restore the properties
+        self._forget_refs(num_refs)
 
         return data
 
-- 
2.43.0


From c25034efc09a066a051f84a52843386377af5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:26 +0000
Subject: [PATCH 27/65] fix: keep references intact when fail_safe returns a
 list or dict

The decoder numbers the lists and dictionaries of the replacement value
along with all others. The encoder did not count them, so every later
reference in the document pointed to the wrong object.
---
 jsonpickle/pickler.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 7d26276..fdbac24 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -382,6 +382,24 @@ class Pickler:
         while len(self._objs) > count:
             self._objs.popitem()
 
+    def _log_plain_refs(self, value: Any) -> None:
+        """Log the lists and dictionaries of a value that is written as it is.
+
+        The unpickler numbers them along with everything else.
+        """
+        if isinstance(value, dict):
+            children: Iterable[Any] = value.values()
+        elif isinstance(value, (list, tuple)):
+            children = value
+        else:
+            return
+        # The same value can be written again, so its own id must not be used.
+        placeholder = object()
+        self._seen.append(placeholder)
+        self._log_ref(placeholder)
+        for child in children:
+            self._log_plain_refs(child)
+
     def _getref(self, obj: Any) -> dict[str, int]:
         """Return a "py/id" entry for the specified object"""
         return {tags.ID: self._objs.get(id(obj))}  # type: ignore[dict-item]
@@ -493,7 +511,9 @@ class Pickler:
                 raise
             else:
                 self._forget_refs(num_refs)
-                return self.fail_safe(e)
+                result = self.fail_safe(e)
+                self._log_plain_refs(result)
+                return result
 
     def _list_recurse(self, obj: Iterable[Any]) -> list[Any]:
         return [self._flatten(v) for v in obj]
-- 
2.43.0


From 554e547a0d720b44d5f217924a00ed8a9f73d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:25 +0000
Subject: [PATCH 28/65] fix: do not hide an AttributeError of a nested object
 in a slot

An AttributeError raised by a hook of an object stored in a slot was taken
for a slot without a value. The attribute was dropped silently, and later
references pointed to the wrong object.
---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index fdbac24..db0ca53 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -595,10 +595,10 @@ class Pickler:
                 else:
                     class_name = obj.__class__.__name__.lstrip("_")
                     value = getattr(obj, f"_{class_name}{k}")
-                flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
                 continue
+            flatten(k, value, data)
             ok = True
         return ok
 
-- 
2.43.0


From 774add782901964ea705b20ad51ade8eb3c5e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:39 +0000
Subject: [PATCH 29/65] fix: keep references intact next to objects of missing
 classes

An object whose class cannot be found is returned as its plain data. The
objects inside of it were not counted, so later references in the document
pointed to the wrong objects.
---
 jsonpickle/unpickler.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index bb7d926..1891d05 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -921,10 +921,25 @@ class Unpickler:
 
         if cls is None:
             self._process_missing(class_name)
-            return self._mkref(obj)
+            return self._restore_missing(obj)
 
         return self._restore_object_instance(obj, cls, class_name)
 
+    def _restore_missing(self, obj: dict[str, Any]) -> dict[str, Any]:
+        """Return the data of an object whose class could not be found"""
+        self._mkref(obj)
+        restore_key = self._restore_key_fn()
+        # The objects inside of it have numbers as well. They must be counted so
+        # that the references in the rest of the document stay correct.
+        for k, v in obj.items():
+            restore_key(k)
+            if k in (tags.SEQ, tags.NEWARGSEX) and isinstance(v, list):
+                for item in v:
+                    self._restore(item)
+            else:
+                self._restore(v)
+        return obj
+
     def _restore_function(self, obj: dict[str, Any]) -> Any:
         return util.loadclass(obj[tags.FUNCTION], classes=self._classes)
 
-- 
2.43.0


From 9a52a5f011d733f1b55b46ab295c223fe46bcf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:48 +0000
Subject: [PATCH 30/65] fix: do not list a backend twice when it is loaded
 again

Loading an already loaded backend added its name a second time.
Removing it then dropped its functions but left one of the names.
The next encode or decode failed with a KeyError.
---
 jsonpickle/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b150a02..bd6f33d 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -193,7 +193,8 @@ class JSONBackend:
         self._decoder_options.setdefault(name, ([], {}))
 
         # Add this backend to the list of candidate backends
-        self._backend_names.append(name)
+        if name not in self._backend_names:
+            self._backend_names.append(name)
 
         # Indicate that we successfully loaded a JSON backend
         self._verified = True
-- 
2.43.0


From aeefc6556bf68987ae995ef64f7116e13ff6de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:26 +0000
Subject: [PATCH 31/65] fix: keep the order of keys when encoding to YAML

PyYAML sorts the keys of mappings by default.
References between objects count the objects in the order they were
written, so a sorted document could refer to the wrong object.
---
 jsonpickle/ext/yaml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/yaml.py b/jsonpickle/ext/yaml.py
index cb13db3..7b2236b 100644
--- a/jsonpickle/ext/yaml.py
+++ b/jsonpickle/ext/yaml.py
@@ -11,6 +11,10 @@ def register(backend: JSONBackend | None = None) -> bool:
     """Register the yaml module with jsonpickle's JSONBackend"""
     if backend is None:
         backend = jsonpickle_backend
-    return backend.load_backend(
+    loaded = backend.load_backend(
         "yaml", dumps="dump", loads="safe_load", loads_exc="YAMLError"
     )
+    if loaded:
+        # References count objects in document order, which must not change
+        backend.set_encoder_options("yaml", sort_keys=False)
+    return loaded
-- 
2.43.0


From 232279384e7045a9652197c80e52778f8d438687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:58 +0000
Subject: [PATCH 32/65] fix: flatten datetime objects without tuples

Backends that tell tuples from lists, such as YAML, wrote a tuple that
could not be loaded again.
---
 jsonpickle/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3ed6cf5..a2cd39d 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -223,7 +223,7 @@ class DatetimeHandler(BaseHandler):
         flatten = pickler.flatten
         payload = util.b64encode(args[0])  # type: ignore[arg-type]
         args = [payload] + [flatten(i, reset=False) for i in args[1:]]
-        data["__reduce__"] = (flatten(cls, reset=False), args)
+        data["__reduce__"] = [flatten(cls, reset=False), args]
         return data
 
     def restore(self, data: dict[str, Any]) -> Any:
-- 
2.43.0


From eb51847a2104a90e75e7721b8398b16adaedb8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:39 +0000
Subject: [PATCH 33/65] fix: look up handlers while another thread registers
 one

The lookup went through the handlers of base classes and failed with a
RuntimeError when a handler was added or removed in the meantime.
---
 jsonpickle/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index a2cd39d..1d66a4e 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -54,7 +54,7 @@ class Registry:
         handler = self._handlers.get(cls_or_name)
         # attempt to find a base class
         if handler is None and util._is_type(cls_or_name):
-            for cls, base_handler in self._base_handlers.items():
+            for cls, base_handler in list(self._base_handlers.items()):
                 if issubclass(cls_or_name, cls):
                     return base_handler
         return default if handler is None else handler
-- 
2.43.0


From e3fb9dbf33904ce80109b29eb0a8534189466a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:31 +0000
Subject: [PATCH 34/65] fix: unregister the numpy datetime64 handler with the
 others

---
 jsonpickle/ext/numpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 7c895cb..3ed4f36 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -500,5 +500,6 @@ def unregister_handlers() -> None:
     unregister(np.dtype(np.float32).__class__)
     unregister(np.dtype(np.int32).__class__)
     unregister(np.dtype(np.datetime64).__class__)
+    unregister(np.datetime64)
     # other handlers
     unregister(np.ufunc)
-- 
2.43.0


From 0a1ae5c91cac58518135a35faff2c7f3dd962418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:36 +0000
Subject: [PATCH 35/65] fix: keep the shape of zero-dimensional numpy arrays

They were decoded as arrays with one element, or not at all when
their value is neither an int nor a float.
---
 jsonpickle/ext/numpy.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 3ed4f36..fa1cb4f 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -214,12 +214,10 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         """decode numpy from json"""
         values = data["values"]
-        if isinstance(values, list):
+        if isinstance(values, list) or "shape" not in data:
             # decode text representation
+            # (zero-dimensional arrays are the ones that are not lists)
             arr = super().restore(data)
-        elif isinstance(values, (int, float)):
-            # single-value array
-            arr = np.array([values], dtype=self.restore_dtype(data))
         else:
             # decode binary representation
             dtype = self.restore_dtype(data)
-- 
2.43.0


From 07bd0c16d6b8f3c8ef59d4f28c97c8bf15ea4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:41 +0000
Subject: [PATCH 36/65] fix: keep the memory order of numpy arrays that have
 views

The decoded base of a view lost its Fortran order.
Its views then showed the wrong elements.
---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index fa1cb4f..badea47 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -238,7 +238,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                     dtype=dtype,
                     shape=data.get("shape"),  # type: ignore[arg-type]
                     order=data.get("order", "C"),
-                ).copy()  # make a copy, to force the result to own the data
+                ).copy("K")  # make a copy, to force the result to own the data
                 self.restore_byteorder(data, arr)
             self.restore_flags(data, arr)
 
-- 
2.43.0


From 36bc54c20d96f14d9de78aa930f99858a29305a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:53 +0000
Subject: [PATCH 37/65] fix: decode views of numpy datetime arrays

Their dtype does not support the buffer interface.
---
 jsonpickle/ext/numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index badea47..e388f69 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -423,7 +423,11 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             base = self.context.restore(base, reset=False)
             buffer: Any
             if isinstance(base, np.ndarray):
-                buffer = base.data
+                if base.dtype.hasobject:
+                    buffer = base.data
+                else:
+                    # not every dtype supports the buffer interface
+                    buffer = base.reshape(-1, order="A").view(np.uint8).data
             elif isinstance(base, (bytes, bytearray, memoryview)):
                 buffer = base
             else:
-- 
2.43.0


From 99a82315018d0d3d0492cd8ace03bf7dd614848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:58 +0000
Subject: [PATCH 38/65] fix: decode numpy dtypes with sub-arrays

---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index e388f69..b63533f 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -45,7 +45,7 @@ class NumpyBaseHandler(BaseHandler):
 
     def restore_dtype(self, data: dict[str, Any]) -> np.dtype[Any]:
         dtype = data["dtype"]
-        if dtype.startswith(("{", "[")):
+        if dtype.startswith(("{", "[", "(")):
             dtype = ast.literal_eval(dtype)
         return np.dtype(dtype)  # type: ignore[no-any-return]
 
-- 
2.43.0


From fdd6c39ee45970b236cc18c6ba5d53311f5d4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:03 +0000
Subject: [PATCH 39/65] fix: keep the byte order of the fields of structured
 numpy arrays

---
 jsonpickle/ext/numpy.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index b63533f..b1f2195 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -32,6 +32,11 @@ def get_byteorder(arr: _HasDType) -> str:
     return native_byteorder if byteorder == "=" else byteorder
 
 
+def native_dtype(dtype: np.dtype[Any]) -> np.dtype[Any]:
+    """translate to native order, except for fields, which store their order"""
+    return dtype if dtype.byteorder == "|" else dtype.newbyteorder("N")
+
+
 class NumpyBaseHandler(BaseHandler):
     def flatten_dtype(self, dtype: npt.DTypeLike, data: dict[str, Any]) -> None:
         if hasattr(dtype, "tostring"):
@@ -61,7 +66,7 @@ class NumpyDTypeHandler(NumpyBaseHandler):
 
 class NumpyGenericHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(native_dtype(obj.dtype), data)
         value = obj.tolist()
         if isinstance(value, np.generic):
             # extended-precision scalars have no Python counterpart, so
@@ -112,7 +117,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
             arr.flags.writeable = False
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(native_dtype(obj.dtype), data)
         self.flatten_flags(obj, data)
         data["values"] = self.context.flatten(obj.tolist(), reset=False)
         if 0 in obj.shape:
@@ -202,7 +207,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                 buf = self.compression.compress(buf)
             data["values"] = b64encode(buf)
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(native_dtype(obj.dtype), data)
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
@@ -333,7 +338,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 data["strides"] = obj.strides
 
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(native_dtype(obj.dtype), data)
             self.flatten_flags(obj, data)
 
             if get_byteorder(obj) != "|":
@@ -377,7 +382,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     data["strides"] = obj.strides
 
                 data["shape"] = obj.shape
-                self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+                self.flatten_dtype(native_dtype(obj.dtype), data)
                 self.flatten_flags(obj, data)
 
                 if get_byteorder(obj) != "|":
-- 
2.43.0


From 4a9c11e1fa53f0332582c6993a34e2230f790a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:08 +0000
Subject: [PATCH 40/65] fix: keep the byte order of small numpy arrays and of
 views

Arrays stored as text were decoded in native byte order.
A view of a swapped base was decoded with the wrong values.
---
 jsonpickle/ext/numpy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index b1f2195..c73941a 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -120,6 +120,9 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         self.flatten_dtype(native_dtype(obj.dtype), data)
         self.flatten_flags(obj, data)
         data["values"] = self.context.flatten(obj.tolist(), reset=False)
+        byteorder = get_byteorder(obj)
+        if byteorder not in ("|", native_byteorder):
+            data["byteorder"] = byteorder
         if 0 in obj.shape:
             # add shape information explicitly as it cannot be
             # inferred from an empty list
@@ -128,9 +131,8 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
-        arr = np.array(
-            values, dtype=self.restore_dtype(data), order=data.get("order", "C")
-        )
+        dtype = self.restore_dtype(data).newbyteorder(data.get("byteorder", "|"))
+        arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
         shape = data.get("shape", None)
         if shape is not None:
             arr = arr.reshape(shape)
@@ -341,10 +343,8 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             self.flatten_dtype(native_dtype(obj.dtype), data)
             self.flatten_flags(obj, data)
 
-            if get_byteorder(obj) != "|":
-                byteorder = "S" if get_byteorder(obj) != get_byteorder(base) else None
-                if byteorder:
-                    data["byteorder"] = byteorder
+            if get_byteorder(obj) not in ("|", native_byteorder):
+                data["byteorder"] = "S"
 
             if self.size_threshold is None or self.size_threshold >= obj.size:
                 # not used in restore since base is present, but
-- 
2.43.0


From 3f2be9255f73e91c1d3d1e7019a54b57f3d25893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:13 +0000
Subject: [PATCH 41/65] fix: keep the shape of numpy object arrays that hold
 sequences

Sub-arrays in the fields of structured arrays are written as lists.
---
 jsonpickle/ext/numpy.py | 44 +++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index c73941a..2ecb98c 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -37,6 +37,26 @@ def native_dtype(dtype: np.dtype[Any]) -> np.dtype[Any]:
     return dtype if dtype.byteorder == "|" else dtype.newbyteorder("N")
 
 
+def object_array(values: Any, shape: Any, order: Any) -> npt.NDArray[Any]:
+    """build an array of objects, which may be sequences themselves"""
+    arr = np.empty(shape, dtype=object, order=order)
+    for index in np.ndindex(arr.shape):
+        item = values
+        for i in index:
+            item = item[i]
+        arr[index] = item
+    return arr
+
+
+def nested_list(value: Any) -> Any:
+    """convert the subarrays in a structured array, which tolist() leaves alone"""
+    if isinstance(value, np.ndarray):
+        return nested_list(value.tolist())
+    if isinstance(value, (list, tuple)):
+        return type(value)(nested_list(v) for v in value)
+    return value
+
+
 class NumpyBaseHandler(BaseHandler):
     def flatten_dtype(self, dtype: npt.DTypeLike, data: dict[str, Any]) -> None:
         if hasattr(dtype, "tostring"):
@@ -119,23 +139,30 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         self.flatten_dtype(native_dtype(obj.dtype), data)
         self.flatten_flags(obj, data)
-        data["values"] = self.context.flatten(obj.tolist(), reset=False)
+        values = obj.tolist()
+        if obj.dtype.fields:
+            values = nested_list(values)
+        data["values"] = self.context.flatten(values, reset=False)
         byteorder = get_byteorder(obj)
         if byteorder not in ("|", native_byteorder):
             data["byteorder"] = byteorder
-        if 0 in obj.shape:
+        if 0 in obj.shape or (obj.ndim and obj.dtype == object):
             # add shape information explicitly as it cannot be
-            # inferred from an empty list
+            # inferred from an empty list or from a list of lists
             data["shape"] = obj.shape
         return data
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
         dtype = self.restore_dtype(data).newbyteorder(data.get("byteorder", "|"))
-        arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
+        order = data.get("order", "C")
         shape = data.get("shape", None)
-        if shape is not None:
-            arr = arr.reshape(shape)
+        if dtype == object and shape is not None:
+            arr = object_array(values, shape, order)
+        else:
+            arr = np.array(values, dtype=dtype, order=order)
+            if shape is not None:
+                arr = arr.reshape(shape)
 
         self.restore_flags(data, arr)
         return arr
@@ -235,10 +262,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
             # are saved as a list to work around that.
             if dtype == object:
                 values = json.loads(buf.decode())
-                arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
-                shape = data.get("shape", None)
-                if shape is not None:
-                    arr = arr.reshape(shape)
+                arr = object_array(values, data["shape"], data.get("order", "C"))
             else:
                 arr = np.ndarray(
                     buffer=buf,
-- 
2.43.0


From 07ff54c2330ade860a0c3203aca3485fc9ca11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:17 +0000
Subject: [PATCH 42/65] fix: use the same pandas dtype codes in every process

The codes depended on the iteration order of a set of classes.
Frames with extension dtypes could not be read by other processes.
---
 jsonpickle/tags_pd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/tags_pd.py b/jsonpickle/tags_pd.py
index 4f2a729..a26054d 100644
--- a/jsonpickle/tags_pd.py
+++ b/jsonpickle/tags_pd.py
@@ -128,7 +128,8 @@ def all_subclasses(cls: type) -> list[type]:
     for subclass in cls.__subclasses__():
         subclasses.add(subclass)
         subclasses.update(all_subclasses(subclass))
-    return list(subclasses)
+    # the tags depend on the order, so it has to be the same in every process
+    return sorted(subclasses, key=lambda c: (c.__module__, c.__qualname__))
 
 
 def get_all_numpy_dtype_strings() -> list[str]:
-- 
2.43.0


From b0aa658e09dfc0609dbf33e6b3435b4af55e266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:22 +0000
Subject: [PATCH 43/65] fix: keep the name of a pandas index

Names were split into tuples of characters.
---
 jsonpickle/ext/pandas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 73e695c..cf5eb1f 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -376,11 +376,9 @@ class PandasIndexHandler(BaseHandler):
     def restore(self, data: dict[str, Any]) -> pd.Index:
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
-        name_bundle = {
-            "name": (tuple if v is not None else lambda x: x)(v)  # ruff: ignore[B035]
-            for k, v in meta.items()
-            if k in {"name", "names"}
-        }
+        # multiple levels have a list of names, and a tuple became a list
+        name = meta.get("names", meta.get("name"))
+        name_bundle = {"name": tuple(name) if isinstance(name, list) else name}
         idx = self.index_constructor(decode(buf), dtype=dtype, **name_bundle)  # type: ignore[arg-type]
         return idx
 
-- 
2.43.0


From e7943be6821adb40aa25290aae6ef1578291a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:27 +0000
Subject: [PATCH 44/65] fix: keep extension dtypes of pandas frames

Columns with an unknown dtype were decoded as objects.
---
 jsonpickle/ext/pandas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index cf5eb1f..6cd5b29 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -195,11 +195,11 @@ class PandasDfHandler(BaseHandler):
                 else:
                     # treat it as regular object dtype
                     data_columns[col] = col_data.tolist()
-                    type_codes.append(TYPE_MAP.get(dtype_name, "object"))
+                    type_codes.append(TYPE_MAP.get(dtype_name, dtype_name))
             else:
                 # for other dtypes, store their values directly
                 data_columns[col] = col_data.tolist()
-                type_codes.append(TYPE_MAP.get(dtype_name, "object"))
+                type_codes.append(TYPE_MAP.get(dtype_name, dtype_name))
 
         # store index data
         index_encoded = encode(index_values, keys=True)
@@ -275,7 +275,7 @@ class PandasDfHandler(BaseHandler):
             else:
                 df_data[col] = col_data
                 # used later to get correct dtypes
-                dtype_str = REVERSE_TYPE_MAP.get(type_code, "object")
+                dtype_str = REVERSE_TYPE_MAP.get(type_code, type_code)
                 dtypes[col] = dtype_str
 
         # turn dict into df
-- 
2.43.0


From 4246438f71bb8e3436515c957eab198aee7de5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:32 +0000
Subject: [PATCH 45/65] fix: keep the time zone of pandas series and timestamps

---
 jsonpickle/ext/pandas.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 6cd5b29..3983715 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -348,7 +348,9 @@ class PandasSeriesHandler(BaseHandler):
         data["name"] = obj.name
         # This relies on the numpy handlers for the inner guts.
         data["index"] = self.context.flatten(obj.index, reset=False)
-        data["values"] = self.context.flatten(obj.values, reset=False)
+        # Time zones get lost in a numpy array.
+        values = obj.array if isinstance(obj.dtype, pd.DatetimeTZDtype) else obj.values
+        data["values"] = self.context.flatten(values, reset=False)
         return data
 
     def restore(self, data: dict[str, Any]) -> pd.Series:
@@ -399,6 +401,9 @@ class PandasTimestampHandler(BaseHandler):
 
     def flatten(self, obj: pd.Timestamp, data: dict[str, Any]) -> dict[str, Any]:
         meta = {"isoformat": obj.isoformat()}
+        zone = getattr(obj.tz, "key", None)
+        if zone is not None:
+            meta["tz"] = zone
         buf = ""
         data = self.pp.flatten_pandas(buf, data, meta)
         return data
@@ -407,6 +412,8 @@ class PandasTimestampHandler(BaseHandler):
         _, meta = self.pp.restore_pandas(data)
         isoformat = meta["isoformat"]
         obj = pd.Timestamp(isoformat)
+        if "tz" in meta:
+            obj = obj.tz_convert(meta["tz"])
         return obj
 
 
-- 
2.43.0


From aa13c25a6ef7d77a6441a8b9cb0e1b05ed8a8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:38 +0000
Subject: [PATCH 46/65] fix: honor _jsonpickle_exclude in list and set
 subclasses

---
 jsonpickle/pickler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index db0ca53..54fa5fd 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -828,7 +828,7 @@ class Pickler:
             return data
 
         if util._is_sequence_subclass(obj):
-            return self._flatten_sequence_obj(obj, data)
+            return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
         if util._is_iterator(obj):
             # force list in python 3
@@ -838,7 +838,7 @@ class Pickler:
         if has_dict:
             # Support objects that subclasses list and set
             if util._is_sequence_subclass(obj):
-                return self._flatten_sequence_obj(obj, data)
+                return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
@@ -1090,11 +1090,11 @@ class Pickler:
         return None
 
     def _flatten_sequence_obj(
-        self, obj: Iterable[Any], data: dict[str, Any]
+        self, obj: Iterable[Any], data: dict[str, Any], exclude: Iterable[str] = ()
     ) -> dict[str, Any] | list[Any]:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
-            self._flatten_dict_obj(obj.__dict__, data)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From 9d01ad259cf6b560bdbcdbc6f25ca9bfb1df69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:42 +0000
Subject: [PATCH 47/65] fix: honor _jsonpickle_exclude in the properties of an
 object

With include_properties an excluded attribute was written when its
class has a default for it.
---
 jsonpickle/pickler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 54fa5fd..4fec5d9 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -607,13 +607,14 @@ class Pickler:
         obj: Any,
         data: dict[str, Any],
         allslots: Iterable[Sequence[str]] | None = None,
+        exclude: Iterable[str] = (),
     ) -> dict[str, Any]:
         if allslots is None:
             # setting a list as a default argument can lead to some weird errors
             allslots = []
 
         # convert to set in case there are a lot of slots
-        allslots_set = set(itertools.chain.from_iterable(allslots))
+        allslots_set = set(itertools.chain.from_iterable(allslots)).union(exclude)
 
         # i don't like lambdas
         def valid_property(x: tuple[str, Any]) -> bool:
@@ -656,7 +657,7 @@ class Pickler:
 
         # add properties to the attribute list
         if self.include_properties:
-            data = self._flatten_properties(obj, data, allslots)
+            data = self._flatten_properties(obj, data, allslots, exclude)
 
         slots = chain(*allslots, _slot_names(obj.__class__))
         if not self._flatten_obj_attrs(obj, dict.fromkeys(slots), data, exclude):
@@ -729,7 +730,7 @@ class Pickler:
             return result
 
         if self.include_properties:
-            data = self._flatten_properties(obj, data)
+            data = self._flatten_properties(obj, data, exclude=exclude)
 
         if self.unpicklable:
             # test for a reduce implementation, and redirect before
-- 
2.43.0


From 87ac759b62d05e2d1dec61deaa7e2a3e986418a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:46 +0000
Subject: [PATCH 48/65] fix: honor private names in _jsonpickle_exclude

Private attributes are stored under another name than the one that
is written in the class.
---
 jsonpickle/pickler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 4fec5d9..4b84c68 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -587,7 +587,7 @@ class Pickler:
         ok = False
         exclude = set(exclude)
         for k in attrs:
-            if k in exclude:
+            if k in exclude or _private_name(type(obj), k) in exclude:
                 continue
             try:
                 if not k.startswith("__"):
@@ -703,6 +703,13 @@ class Pickler:
         has_getinitargs = util.has_method(obj, "__getinitargs__")
         has_reduce, has_reduce_ex = util.has_reduce(obj)
         exclude = set(getattr(obj, "_jsonpickle_exclude", ()))
+        # private names can be given as they are written in the class
+        exclude |= {
+            _private_name(base, name)
+            for base in type(obj).__mro__
+            for name in exclude
+            if isinstance(name, str)
+        }
 
         # Support objects with __getstate__(); this ensures that
         # both __setstate__() and __getstate__() are implemented
-- 
2.43.0


From d80110d420f2888a2a7fc3cddf36bf2e6b3c2a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:03 +0000
Subject: [PATCH 49/65] fix: keep references intact when a handler returns a
 string

The unpickler does not number strings, so the references after such
an object pointed to the wrong objects.
---
 jsonpickle/pickler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 4b84c68..30ccdff 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -895,8 +895,8 @@ class Pickler:
                 # We've never seen this object so return its
                 # json representation.
                 result = self._flatten_obj_instance(obj)
-                if result is None:
-                    # Nothing of this object is stored
+                if not isinstance(result, (dict, list)):
+                    # Nothing that the unpickler could refer to is stored
                     self._forget_refs(num_refs)
                 return result
             # We've seen this object before so place an object
-- 
2.43.0


From ad6b421eeac10da39dfb47c75fee273a841a53d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:27 +0000
Subject: [PATCH 50/65] fix: do not keep the encoded object alive in the
 pickler

With unpicklable=False or make_refs=False the state of the pickler is
reset once the object is done, but the object itself was added to it
after that.
---
 jsonpickle/pickler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 30ccdff..6defd62 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -412,9 +412,11 @@ class Pickler:
             try:
                 result = self._flattened[id(obj)]
             except KeyError:
-                result = self._flattened[id(obj)] = self._flatten_impl(obj)
-                # id(obj) is only meaningful for as long as obj is alive
-                self._seen.append(obj)
+                result = self._flatten_impl(obj)
+                if self._depth > -1:
+                    self._flattened[id(obj)] = result
+                    # id(obj) is only meaningful for as long as obj is alive
+                    self._seen.append(obj)
         return result
 
     def flatten(self, obj: Any, reset: bool = True) -> Any:
-- 
2.43.0


From 93977dcadd18bc293ffc9ca0b27bacd64d9df059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:49 +0000
Subject: [PATCH 51/65] fix: keep dictionary entries named like methods with
 handle_readonly

With handle_readonly=True a dictionary lost its entries whose keys are
names of dict attributes, such as "keys", "items" or "__class__".  They
are entries and not attributes.
---
 jsonpickle/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index d936042..34eeacf 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -342,12 +342,12 @@ def _is_cython_function(obj: Any) -> bool:
 
 
 def _is_readonly(obj: Any, attr: str, value: Any) -> bool:
-    if (
-        hasattr(obj, "__dict__")
-        and attr not in obj.__dict__
-        and not hasattr(type(inspect.getattr_static(type(obj), attr, None)), "__set__")
+    if attr not in getattr(obj, "__dict__", {}) and (
+        attr == "__class__"
+        or not hasattr(type(inspect.getattr_static(type(obj), attr, None)), "__set__")
     ):
-        # Trying it would copy an attribute of the class to the instance.
+        # Not an attribute of the instance. Trying it would copy an attribute
+        # of the class to the instance.
         return False
     # CPython 3.11+ has 0-cost try/except, please use up-to-date versions!
     try:
-- 
2.43.0


From dbee101f9274ad53f67e631b3ba22e37a21b4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:02 +0000
Subject: [PATCH 52/65] fix: keep references intact when dictionary keys
 collide

Without keys=True distinct keys such as 1 and "1" are written as the same
string and the last value wins.  The other values were still flattened, so
objects first seen there were lost and later references to them pointed
nowhere.
---
 jsonpickle/pickler.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6defd62..f74c9aa 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -553,6 +553,11 @@ class Pickler:
         ):
             return data
 
+        data[self._key_name(k)] = self._flatten(v)
+        return data
+
+    def _key_name(self, k: Any) -> Any:
+        """Return the name a dictionary key is written as"""
         if k is None:
             k = "null"  # for compatibility with common json encoders
 
@@ -564,8 +569,7 @@ class Pickler:
             except Exception:  # ruff: ignore[BLE001]
                 k = str(k)
 
-        data[k] = self._flatten(v)
-        return data
+        return k
 
     def _call_handler_flatten(
         self, handler: handlers.BaseHandler, obj: Any, data: dict[str, Any]
@@ -1027,7 +1031,15 @@ class Pickler:
         else:
             # If we have string keys only then we only need a single pass.
             flatten = self._flatten_key_value_pair
-            for k, v in util.items(obj, exclude=exclude):
+            items = util.items(obj, exclude=exclude)
+            if not all(isinstance(k, str) for k in obj):
+                # Distinct keys can have the same name. Only the last value is
+                # written, so references must not point into the other ones.
+                names = {
+                    self._key_name(k): v for k, v in items if util._is_picklable(k, v)
+                }
+                items = iter(names.items())
+            for k, v in items:
                 flatten(k, v, data)
 
         # the collections.defaultdict protocol
-- 
2.43.0


From 77fcdbe82e3a8b3e89292edbe8e94e0277fc6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:38 +0000
Subject: [PATCH 53/65] fix: keep references intact when the backend sorts keys

With sort_keys=True the output is sorted, but references were numbered in
the order of the unsorted dictionary or attributes.  Only the attributes
of the root object were sorted first, so shared objects below it were
restored as different objects.
---
 jsonpickle/pickler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index f74c9aa..59f20cd 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -592,6 +592,8 @@ class Pickler:
         flatten = self._flatten_key_value_pair
         ok = False
         exclude = set(exclude)
+        if self._determine_sort_keys():
+            attrs = sorted(attrs)
         for k in attrs:
             if k in exclude or _private_name(type(obj), k) in exclude:
                 continue
@@ -1039,6 +1041,9 @@ class Pickler:
                     self._key_name(k): v for k, v in items if util._is_picklable(k, v)
                 }
                 items = iter(names.items())
+            if self._determine_sort_keys():
+                # References are numbered in the order of the output.
+                items = iter(sorted(items, key=lambda item: item[0]))
             for k, v in items:
                 flatten(k, v, data)
 
-- 
2.43.0


From e110f2e47e49b895a17ae5eab6946eab9ffef3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:05 +0000
Subject: [PATCH 54/65] fix: keep references of dict subclasses intact in
 sorted output

The attributes of a dict subclass are numbered after its items.  Restore
them in that order even if the backend sorted "__dict__" to the front.
---
 jsonpickle/unpickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 1891d05..746671c 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -713,7 +713,12 @@ class Unpickler:
         method = _obj_setattr
         deferred = {}
 
-        for k, v in util.items(obj):
+        items = list(util.items(obj))
+        if util._is_dictionary_subclass(instance):
+            # The attributes are flattened last, but sorted output has them earlier.
+            items.sort(key=lambda item: item[0] == "__dict__")
+
+        for k, v in items:
             # ignore the reserved attribute
             if ignorereserved and k in tags.RESERVED:
                 continue
-- 
2.43.0


From b7ba59161e20dc09cfa2257506e106e0e8fc4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:17 +0000
Subject: [PATCH 55/65] fix: keep references of slots intact in sorted output

An object with both slots and other attributes had its other attributes
numbered first, while the sorted output has them mixed.
---
 jsonpickle/pickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 59f20cd..c7d1b80 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -858,9 +858,14 @@ class Pickler:
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
-            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
             # slots inherited from a base class are not part of __dict__
             inherited_slots = _slot_names(type(obj))
+            if inherited_slots and self._determine_sort_keys():
+                # sorted output mixes the slots and the other attributes
+                attrs = dict.fromkeys([*obj.__dict__, *inherited_slots])
+                self._flatten_obj_attrs(obj, attrs, data, exclude)
+                return data
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
             if inherited_slots:
                 self._flatten_obj_attrs(obj, inherited_slots, data, exclude)
             return data
-- 
2.43.0


From 747e61661534f190a8f95ca6b431e09714449942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:30 +0000
Subject: [PATCH 56/65] fix: keep references intact next to objects that cannot
 be created

An object whose class cannot be instantiated, such as a memoryview, was
numbered twice when decoding.  References after it pointed to the wrong
objects.
---
 jsonpickle/unpickler.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 746671c..24557f7 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -6,7 +6,7 @@
 # you should have received as part of this distribution.
 import dataclasses
 import warnings
-from collections.abc import Callable, Iterator, Sequence
+from collections.abc import Callable, Iterable, Iterator, Sequence
 from typing import Any, TypeAlias
 
 from . import errors, handlers, tags, util
@@ -889,7 +889,10 @@ class Unpickler:
                     instance = make_blank_classic(cls)
                 except Exception:  # ruff: ignore[BLE001]
                     self._process_missing(class_name)
-                    return self._mkref(obj)
+                    proxy.reset(obj)
+                    self._swapref(proxy, obj)
+                    self._count_refs(obj, exclude=(tags.INITARGS, tags.NEWARGS, tags.NEWARGSEX))
+                    return obj
             if factory:
                 instance.default_factory = factory
 
@@ -933,17 +936,23 @@ class Unpickler:
     def _restore_missing(self, obj: dict[str, Any]) -> dict[str, Any]:
         """Return the data of an object whose class could not be found"""
         self._mkref(obj)
+        self._count_refs(obj)
+        return obj
+
+    def _count_refs(self, obj: dict[str, Any], exclude: Iterable[str] = ()) -> None:
+        """Count the objects inside of an object that cannot be restored
+
+        They have numbers as well, so that the references in the rest of the
+        document depend on them.
+        """
         restore_key = self._restore_key_fn()
-        # The objects inside of it have numbers as well. They must be counted so
-        # that the references in the rest of the document stay correct.
-        for k, v in obj.items():
+        for k, v in util.items(obj, exclude=exclude):
             restore_key(k)
             if k in (tags.SEQ, tags.NEWARGSEX) and isinstance(v, list):
                 for item in v:
                     self._restore(item)
             else:
                 self._restore(v)
-        return obj
 
     def _restore_function(self, obj: dict[str, Any]) -> Any:
         return util.loadclass(obj[tags.FUNCTION], classes=self._classes)
-- 
2.43.0


From f6c5db6cf20145d2266c557338bccf417b7bb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:54 +0000
Subject: [PATCH 57/65] fix: complete references to unfinished objects inside
 of subclasses

A cycle through the constructor arguments of an object is closed once the
object exists.  The items of dict and list subclasses, ordered dictionaries,
deques, private attributes and frozen dataclasses were left with a
placeholder or raised an error instead.
---
 jsonpickle/unpickler.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 24557f7..b30bb23 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -192,7 +192,10 @@ class _IDProxy(_Proxy):
 
 def _obj_setattr(obj: Any, attr: str, proxy: _Proxy) -> None:
     """Use setattr to update a proxy entry"""
-    setattr(obj, attr, proxy.get())
+    try:
+        setattr(obj, attr, proxy.get())
+    except dataclasses.FrozenInstanceError:
+        object.__setattr__(obj, attr, proxy.get())
 
 
 def _obj_setvalue(obj: Any, idx: Any, proxy: _Proxy) -> None:
@@ -601,10 +604,18 @@ class Unpickler:
             except AttributeError:
                 for x in listitems:
                     stage1.append(x)
+            if hasattr(stage1, "__setitem__"):
+                self._proxies.extend(
+                    (stage1, idx - len(listitems), value, _obj_setvalue)
+                    for idx, value in enumerate(listitems)
+                    if isinstance(value, _Proxy)
+                )
 
         if dictitems:
             for k, v in dictitems:
                 stage1.__setitem__(k, v)
+                if isinstance(v, _Proxy):
+                    self._proxies.append((stage1, k, v, _obj_setvalue))
 
         return stage1
 
@@ -710,7 +721,6 @@ class Unpickler:
         restore_dict_items: bool = True,
     ) -> Any:
         restore_key = self._restore_key_fn()
-        method = _obj_setattr
         deferred = {}
 
         items = list(util.items(obj))
@@ -728,6 +738,7 @@ class Unpickler:
                 str_k = k
             self._namestack.append(str_k)
             is_attr_dict = k == "__dict__"
+            method = _obj_setattr
             if restore_dict_items:
                 k = restore_key(k)
                 # step into the namespace
@@ -740,6 +751,7 @@ class Unpickler:
                         setattr(instance, k, value)
                     else:
                         instance[k] = value
+                        method = _obj_setvalue
                 except TypeError:
                     # Immutable object, must be constructed in one shot
                     if not is_attr_dict:
@@ -777,7 +789,8 @@ class Unpickler:
                 else:
                     # private names are stored as they are written in the class
                     class_name = instance.__class__.__name__.lstrip("_")
-                    setattr(instance, f"_{class_name}{k}", value)
+                    k = f"_{class_name}{k}"
+                    setattr(instance, k, value)
 
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
@@ -835,7 +848,12 @@ class Unpickler:
         if has_tag(obj, tags.SEQ):
             if hasattr(instance, "append"):
                 for v in obj[tags.SEQ]:
-                    instance.append(self._restore(v))
+                    value = self._restore(v)
+                    instance.append(value)
+                    if isinstance(value, _Proxy) and hasattr(instance, "__setitem__"):
+                        self._proxies.append(
+                            (instance, len(instance) - 1, value, _obj_setvalue)
+                        )
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
                     instance.add(self._restore(v))
-- 
2.43.0


From dd2d213b6bb874267283c4d53b7bae6756135690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:17 +0000
Subject: [PATCH 58/65] fix: decode NoneType under its Python 2 name

---
 jsonpickle/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index 34eeacf..5b09b53 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -600,6 +600,6 @@ def loadclass(
         except (AttributeError, ImportError, ValueError):
             continue
     # NoneType is a special case and can not be imported/created
-    if module_and_name == "builtins.NoneType":
+    if module_and_name in ("builtins.NoneType", "__builtin__.NoneType"):
         return type(None)
     return None
-- 
2.43.0


From d99efa2e488715ed7554ad62c4a5dbf1a8f6c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:59 +0000
Subject: [PATCH 59/65] fix: decode modules whose name is taken in their
 package

---
 jsonpickle/unpickler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index b30bb23..7fcc5cf 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -5,6 +5,7 @@
 # This software is licensed as described in the file COPYING, which
 # you should have received as part of this distribution.
 import dataclasses
+import sys
 import warnings
 from collections.abc import Callable, Iterable, Iterator, Sequence
 from typing import Any, TypeAlias
@@ -297,6 +298,9 @@ def _loadmodule(module_str: str) -> Any | None:
         result = __import__(module)
     except ImportError:
         return None
+    if identifier == module:
+        # The package may use the name of the module for something else
+        return sys.modules[module]
     identifier_parts = identifier.split(".")
     first_identifier = identifier_parts[0]
     if first_identifier != module and not module.startswith(f"{first_identifier}."):
-- 
2.43.0


From ad2d84f557317d0093787969e9ee6c10ff5cf41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:33 +0000
Subject: [PATCH 60/65] fix: decode references with negative or boolean numbers
 to None

---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 7fcc5cf..3701800 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -624,8 +624,11 @@ class Unpickler:
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
+        idx = obj[tags.ID]
+        if isinstance(idx, bool) or (isinstance(idx, int) and idx < 0):
+            # Indexes a list but is not the number of an object
+            return None
         try:
-            idx = obj[tags.ID]
             return self._objs[idx]
         except IndexError:
             return _IDProxy(self._objs, idx)
-- 
2.43.0


From 2d39fcf10a60ec840c0aec6814a033e0adac4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:49 +0000
Subject: [PATCH 61/65] fix: keep nested entries named like read-only
 attributes

---
 jsonpickle/pickler.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index c7d1b80..035aa91 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -542,19 +542,24 @@ class Pickler:
         """Flatten a key/value pair into the passed-in dictionary."""
         if not util._is_picklable(k, v):
             return data
+        # The attributes of the original object are written at the first level.
+        if self._depth == 0 and self._is_readonly_attr(k):
+            return data
+
+        data[self._key_name(k)] = self._flatten(v)
+        return data
+
+    def _is_readonly_attr(self, k: Any) -> bool:
+        """Is this the name of a read-only attribute of the original object?"""
         # TODO: use inspect.getmembers_static on 3.11+ because it avoids dynamic
         # attribute lookups
-        if (
+        return (
             self.handle_readonly
             and k in {attr for attr, val in inspect.getmembers(self._original_object)}
             and util._is_readonly(
                 self._original_object, k, getattr(self._original_object, k)
             )
-        ):
-            return data
-
-        data[self._key_name(k)] = self._flatten(v)
-        return data
+        )
 
     def _key_name(self, k: Any) -> Any:
         """Return the name a dictionary key is written as"""
@@ -827,6 +832,15 @@ class Pickler:
             else:
                 if exclude and isinstance(state, dict):
                     state = {k: v for k, v in util.items(state, exclude=exclude)}
+                if (
+                    self._depth == 0
+                    and isinstance(state, dict)
+                    and not hasattr(obj, "__setstate__")
+                    and any(map(self._is_readonly_attr, state))
+                ):
+                    state = {
+                        k: v for k, v in state.items() if not self._is_readonly_attr(k)
+                    }
                 if state:
                     return self._getstate(state, data)
 
-- 
2.43.0


From fe27010cf3fd990eba1d2d4de64186212649b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:49 +0000
Subject: [PATCH 62/65] fix: restore the state of objects derived from tuple

---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 3701800..49692f3 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -928,6 +928,8 @@ class Unpickler:
             # The contents were passed to __new__()
             if hasattr(instance, "__dict__"):
                 self._restore_from_dict(obj, instance)
+            if has_tag(obj, tags.STATE):
+                instance = self._restore_state(obj, instance)
             return instance
 
         instance = self._restore_object_instance_variables(obj, instance)
-- 
2.43.0


From a334dfbe0892c9a64008061ea2f0bbc74e7fbf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:13:53 +0000
Subject: [PATCH 63/65] fix: do not compare dictionaries of other classes with
 their attributes

---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 035aa91..e919741 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -1089,7 +1089,7 @@ class Pickler:
             hasattr(obj, "__dict__")
             and self.unpicklable
             and obj is not obj.__dict__
-            and (obj != obj.__dict__ or obj.__dict__)
+            and (dict.__len__(obj) or obj.__dict__)
         ):
             if self._mkref(obj.__dict__):
                 dict_data = {}
-- 
2.43.0


From e4ff51dc42f4149ea0ab89b453184bd579ce3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:11 +0000
Subject: [PATCH 64/65] fix: encode objects that have any attribute

---
 jsonpickle/pickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index e919741..2e5a8a1 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -715,7 +715,9 @@ class Pickler:
         has_getnewargs_ex = util.has_method(obj, "__getnewargs_ex__")
         has_getinitargs = util.has_method(obj, "__getinitargs__")
         has_reduce, has_reduce_ex = util.has_reduce(obj)
-        exclude = set(getattr(obj, "_jsonpickle_exclude", ()))
+        exclude = getattr(obj, "_jsonpickle_exclude", ())
+        # an object can have anything under any name, e.g. with __getattr__()
+        exclude = set(exclude) if isinstance(exclude, Iterable) else set()
         # private names can be given as they are written in the class
         exclude |= {
             _private_name(base, name)
-- 
2.43.0


From f8ee340027211ed4f2619e6fb009e7669b2c17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:55 +0000
Subject: [PATCH 65/65] fix: leave out read-only attributes with keys=True

---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 2e5a8a1..4a455ac 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -986,6 +986,8 @@ class Pickler:
             return data
         if not util._is_picklable(k, v):
             return data
+        if self._depth == 0 and self._is_readonly_attr(k):
+            return data
         if self.keys:
             if not isinstance(k, str):
                 return data
-- 
2.43.0

