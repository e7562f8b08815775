From 8a0627e5a96800fde52b6fc03f7e485a59cfbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 01/63] fix: keep path-steps renamed to the root step when
 referenced again

A child pstep renamed to '' is falsy, so the next reference to it re-created
it, loosing its name, tags and children.
---
 pandalone/mappings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index ddfe008..38560ec 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1056,7 +1056,7 @@ class Pstep(str):
         attrs = None
         if pname is None:
             pname = ""
-        if maps:
+        if maps or isinstance(maps, Pstep):
             if isinstance(maps, (list, tuple, Pmod)):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
@@ -1096,7 +1096,8 @@ class Pstep(str):
                         pmod._alias = alias
                     else:
                         self._pmod = Pmod(_alias=alias)
-        csteps[ckey] = child = Pstep(ckey, existing_cstep or self._pmod, alias)
+        maps = self._pmod if existing_cstep is None else existing_cstep
+        csteps[ckey] = child = Pstep(ckey, maps, alias)
 
         return child
 
@@ -1107,8 +1108,9 @@ class Pstep(str):
             if attr.startswith("_") or attr in _forbidden_pstep_attrs:
                 raise
             csteps = self._csteps
-            child = csteps and csteps.get(attr, None)
-            return child or self.__make_cstep(attr)
+            child = csteps.get(attr, None) if csteps else None
+            # NOTE: a child renamed to the "root" step(`''`) evaluates to false!
+            return self.__make_cstep(attr) if child is None else child
 
     def __setattr__(self, attr, value):
         if attr.startswith("_"):
-- 
2.43.0


From f81cf3353e90b6f7418e43f39292edee10e7aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 02/63] fix: renaming a path-step by assignment must not modify
 its (shared) mappings

Assigning an alias to a child stored it as the alias of the *parent's* pmod,
which is shared with the pmods-hierarchy given by the user and with any other
pstep built from it.
---
 pandalone/mappings.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 38560ec..e7ecba1 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1085,17 +1085,11 @@ class Pstep(str):
         csteps = self._csteps
         if not csteps:
             self._csteps = csteps = {}
-        else:
-            if existing_cstep is None:
-                existing_cstep = csteps.get(ckey, None)
-                # Update my mappings for `b` when ``self.b = "foo"``.
-                #
-                if alias is not None:
-                    pmod = self._pmod
-                    if pmod:
-                        pmod._alias = alias
-                    else:
-                        self._pmod = Pmod(_alias=alias)
+        elif existing_cstep is None:
+            existing_cstep = csteps.get(ckey, None)
+        # NOTE: pmods are shared among psteps, so they must not change
+        # when ``self.b = "foo"``; the alias is kept by the child itself.
+        #
         maps = self._pmod if existing_cstep is None else existing_cstep
         csteps[ckey] = child = Pstep(ckey, maps, alias)
 
-- 
2.43.0


From 5188ddd3e346f8be0227ca64f581aa39c30919bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 03/63] fix: path-steps must honour rooted, dotted and empty
 mappings as path-mapping does

Psteps built from such mappings reported paths like '//R' or '/a/./X', and
ignored mappings to the root, in contrast to Pmod.map_path().
---
 pandalone/mappings.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index e7ecba1..59c66fa 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -868,6 +868,24 @@ def _join_paths(*steps):
         return "/".join(nsteps)
 
 
+def _iter_alias_steps(step, alias):
+    """
+    Split the `alias` of a `step` into path-steps, like :meth:`Pmod.map_path()` does.
+
+    Aliases starting with dot are relative to the `step` they rename::
+
+        >>> list(_iter_alias_steps('a', '../B/C'))
+        ['a', '..', 'B', 'C']
+        >>> list(_iter_alias_steps('a', '/B/'))
+        ['', 'B']
+    """
+    if alias.startswith("."):
+        yield step
+    if len(alias) > 1 and alias.endswith("/"):
+        alias = alias[:-1]
+    yield from iter_jsonpointer_parts_relaxed(alias)
+
+
 _forbidden_pstep_attrs = ("get_values", "Series")
 """
 Psteps attributes excluded from magic-creation, because searched by pandas's indexing code.
@@ -1061,9 +1079,9 @@ class Pstep(str):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
                 pmod, m_alias = maps.descend(pname)
-                if alias is None and m_alias:
+                if alias is None and m_alias is not None:
                     # TODO: Add Escape-path TCs.
-                    alias = unescape_jsonpointer_part(m_alias)
+                    alias = _join_paths(*_iter_alias_steps(pname, m_alias))
             elif not isinstance(maps, Pstep):
                 raise ValueError("Invalid type(%s) for `maps`!" % maps)
             else:
@@ -1242,13 +1260,19 @@ class Pstep(str):
             orig = s._orig
             return "(%s-->%s)" % (orig, s) if s != orig else s
 
+        def split_relocated(s):
+            return (s[:-1] if len(s) > 1 and s.endswith("/") else s).split("/")
+
         paths = []
         for path in self._iter_hierarchy():
             send = path[-1]
             if (tag and tag in send._tags) or (not tag and not send._csteps):
                 if with_orig:
-                    path = [append_orig(s) for s in path]
-                paths.append(_join_paths(*path))
+                    paths.append(_join_paths(*(append_orig(s) for s in path)))
+                else:
+                    # Rooted & dotted relocations apply on the whole path.
+                    parts = (part for s in path for part in split_relocated(s))
+                    paths.append(_join_paths(*parts))
 
         return sorted(set(paths))
 
-- 
2.43.0


From cd2779d6a2d6467aa39a36072da452006d69701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 04/63] fix: refuse renaming/relocating a locked path-step, as
 documented

---
 pandalone/mappings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 59c66fa..48a2f9e 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1109,7 +1109,10 @@ class Pstep(str):
         # when ``self.b = "foo"``; the alias is kept by the child itself.
         #
         maps = self._pmod if existing_cstep is None else existing_cstep
-        csteps[ckey] = child = Pstep(ckey, maps, alias)
+        child = Pstep(ckey, maps, alias)
+        if alias is not None:
+            child._locked = child._locked  # Scream if it was locked.
+        csteps[ckey] = child
 
         return child
 
-- 
2.43.0


From ce0731efa890c7fc080c57c4a3bf13ef43d5320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 05/63] fix: set_jsonpointer() to scream as documented on empty
 pointers, scalar documents and too negative indices

---
 pandalone/pandata.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ec3975c..17ad3a2 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1266,9 +1266,9 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     """
 
     parts = list(iter_jsonpointer_parts(jsonpointer))
+    if not parts:
+        raise RefResolutionError("Cannot set empty jsonpointer(%r)" % jsonpointer)
 
-    # Will scream if used on 1st iteration.
-    #
     pdoc = None
     ppart = None
     for i, part in enumerate(parts):
@@ -1287,7 +1287,7 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
                         % (part, jsonpointer, i)
                     )
                 else:
-                    if part > doclen:
+                    if not -doclen <= part <= doclen:
                         raise RefResolutionError(
                             "Index(%s) out of bounds(%i) of (%r)[%i]"
                             % (part, doclen, jsonpointer, i)
@@ -1297,6 +1297,10 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
         except (LookupError):
             break  # Branch-extension needed.
         except (TypeError):  # Maybe indexing a string...
+            if pdoc is None:
+                raise RefResolutionError(
+                    "Cannot set (%r) in a document of %s" % (jsonpointer, type(doc))
+                )
             ndoc = object_factory()
             pdoc[ppart] = ndoc
             doc = ndoc
-- 
2.43.0


From 65f3a90380faec7cdfec17e390ae7e0a10413576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 06/63] fix: resolve_path() to restart from the given root even
 if falsy, else from the whole document

---
 pandalone/pandata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 17ad3a2..3b51473 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1229,9 +1229,12 @@ def resolve_path(doc, path, default=_scream, root=None):
     :author: Julian Berman, ankostis
     """
 
+    if root is None:
+        root = doc
+
     def resolve_root(d, p):
         if not p:
-            return root or doc
+            return root
         raise ValueError()
 
     part_resolvers = [
-- 
2.43.0


From e5614f7c2c20582e8e2bd15abf4fecf8a2fb46bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 07/63] fix: building a model must not side-effect its
 submodels, as documented

---
 pandalone/pandata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 3b51473..313b7cc 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -14,6 +14,7 @@ URI-references, implemented by :class:`Pandel`.
 import abc
 import binascii
 import collections.abc as cabc
+import copy
 import functools as fnt
 import numbers
 import pickle
@@ -940,13 +941,16 @@ class Pandel(object):
         "Step-1"
         for (mdl, path_ops) in self._submodel_tuples:
             schema = self._get_json_schema(is_prevalidation=True)
-            for err in self._validate_json_model(schema, mdl):
+            # Clone, because validators may modify models (eg. fill-in defaults).
+            for err in self._validate_json_model(schema, copy.deepcopy(mdl)):
                 yield err
 
     def _merge(self):
         "Step-2"
         for (mdl, path_ops) in self._submodel_tuples:
-            self.model = self._clone_and_merge_submodels(self.model, mdl)
+            self.model = self._clone_and_merge_submodels(
+                self.model, copy.deepcopy(mdl)
+            )
         if False:
             yield  # Just mark method as generator.
 
-- 
2.43.0


From 8231a5555ab5c3c4c8213c9aebd517e6b5304325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 08/63] fix: submodel branches that are not both mappings must
 overwrite, as documented

---
 pandalone/pandata.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 313b7cc..d6b7260 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -880,7 +880,15 @@ class Pandel(object):
     def _clone_and_merge_submodels(self, a, b, path=""):
         """' Recursively merge b into a, cloning both. """
 
-        if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
+        if not (isinstance(a, cabc.Mapping) and isinstance(b, cabc.Mapping)):
+            # Only mappings & pandas merge, anything else "overwrites".
+            if a is None and b is None:
+                raise ValidationError("Cannot merge Nones at path(%s)!" % path)
+
+            if b is not None:
+                a = b
+
+        elif isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
             a = pd.DataFrame() if a is None else pd.DataFrame(a)
             b = pd.DataFrame() if b is None else pd.DataFrame(b)
 
@@ -908,28 +916,6 @@ class Pandel(object):
                     val = b_val
                 a[key] = val
 
-        elif (isinstance(a, cabc.Sequence) and not isinstance(a, str)) or (
-            isinstance(b, cabc.Sequence) and not isinstance(b, str)
-        ):
-            if b is not None:
-                val = b
-            else:
-                val = a
-
-            l = list()
-            for (i, item) in enumerate(val):
-                l.append(
-                    self._clone_and_merge_submodels(item, None, "%s[%i]" % (path, i))
-                )
-            a = l
-
-        elif a is None and b is None:
-            raise ValidationError("Cannot merge Nones at path(%s)!" % path)
-
-        else:
-            if b is not None:
-                a = b
-
         return a
 
     def _resolve(self):
-- 
2.43.0


From 72b1dcd21cc68c6f79cfe85c34c35c7780513ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 09/63] fix: give-up building after any step reporting errors,
 and return what Pandel.get() resolved

---
 pandalone/pandata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index d6b7260..8c77728 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -995,6 +995,7 @@ class Pandel(object):
         for (i, (step, step_name)) in enumerate(steps, start=1):
             try:
                 for err in step():
+                    self._errored = True
                     yield err
             except ValidationError as ex:
                 self._errored = True
@@ -1031,7 +1032,7 @@ class Pandel(object):
         return self.model
 
     def get(self, path, **kws):
-        resolve_jsonpointer(self.model, path, **kws)
+        return resolve_jsonpointer(self.model, path, **kws)
 
 
 def escape_jsonpointer_part(part):
-- 
2.43.0


From 632089644cddcac9ff5cdb44ca769b1e1f766b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 10/63] fix: fill-in copies of schema defaults, not to let
 models modify their schemas

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 8c77728..5b62ced 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -291,7 +291,7 @@ def _rule_auto_defaults_properties(
                 and _is_null(None, instance[property])
             )
         ):
-            instance[property] = subschema["default"]
+            instance[property] = copy.deepcopy(subschema["default"])
         elif (
             first_defined(subschema.get("autoRemoveNull"), auto_remove_nulls)
             and not _is_null_in_type(subschema.get("type"))
-- 
2.43.0


From 42ff3052009d9ab5d483b7e657e9252f7bcda0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 11/63] fix: compare pandas/numpy instances as JSON in enum,
 const & uniqueItems, telling booleans from numbers

---
 pandalone/pandata.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 5b62ced..17284ea 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -304,15 +304,27 @@ def _rule_auto_defaults_properties(
         yield error
 
 
-def rule_enum(validator, enums, instance, schema):
-    """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
-    unbool = jsonschema._utils.unbool
-    if instance is 0 or instance is 1:
-        unbooled = unbool(instance)
-        if all(unbooled != unbool(each) for each in enums):
-            yield ValidationError("%r is not one of %r" % (instance, enums))
-    elif instance not in enums:
-        yield ValidationError("%r is not one of %r" % (instance, enums))
+def _as_json(instance):
+    """Convert pandas & numpy objects of an instance-tree into plain JSON ones."""
+    if isinstance(instance, (np.generic, np.ndarray)):
+        instance = instance.tolist()
+    elif isinstance(instance, pd.Series):
+        is_object = all(isinstance(key, str) for key in instance.index)
+        instance = dict(instance.items()) if is_object else instance.tolist()
+    elif isinstance(instance, pd.DataFrame):
+        instance = {key: instance[key].tolist() for key in instance.columns}
+
+    if isinstance(instance, cabc.Mapping):
+        return {key: _as_json(val) for key, val in instance.items()}
+    if isinstance(instance, cabc.Sequence) and not isinstance(instance, (str, bytes)):
+        return [_as_json(val) for val in instance]
+    return instance
+
+
+def _rule_as_json(validator, value, instance, schema, original_rule):
+    """Overridden to evade pandas-equals, particularly after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
+    for error in original_rule(validator, value, _as_json(instance), schema) or ():
+        yield error
 
 
 def PandelVisitor(
@@ -458,8 +470,11 @@ def PandelVisitor(
         )
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
-    if hasattr(jsonschema._utils, "unbool"):
-        rules["enum"] = rule_enum  # fix pandas after jsonschema-3.0.2
+    for rule in ("enum", "const", "uniqueItems"):  # Rules comparing instances.
+        if rule in validator.VALIDATORS:
+            rules[rule] = fnt.partial(
+                _rule_as_json, original_rule=validator.VALIDATORS[rule]
+            )
 
     ValidatorClass = jsonschema.validators.extend(
         validator,
-- 
2.43.0


From 76ec0e52884df405f0031ec5f39f0c9f5eadd7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 12/63] fix: null-check of single-cell DataFrames must return a
 boolean

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 17284ea..3140577 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -179,7 +179,7 @@ def _is_null(checker, instance):
     #  see https://github.com/numpy/numpy/issues/9583
     #
     try:
-        return instance.size == 1 and np.isnan(instance).all()
+        return instance.size == 1 and bool(np.isnan(np.asarray(instance)).all())
     except Exception:
         pass
 
-- 
2.43.0


From fd7f8af36a6488f58408895b0d660377e034912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 13/63] fix: honour auto-default switches in schemas also when
 validator's are all off, and boolean schemas

---
 pandalone/pandata.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 3140577..903624b 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -278,6 +278,9 @@ def _rule_auto_defaults_properties(
         return
 
     for property, subschema in properties.items():
+        if isinstance(subschema, bool):  # Allowed since draft-06.
+            continue
+
         prop_given = property in instance
         if "default" in subschema and (
             (
@@ -460,14 +463,14 @@ def PandelVisitor(
     props_rule = validator.VALIDATORS["properties"]
 
     rules = {"additionalProperties": _rule_additionalProperties}
-    if any((auto_default, auto_default_nulls, auto_remove_nulls)):
-        rules["properties"] = fnt.partial(
-            _rule_auto_defaults_properties,
-            original_props_rule=props_rule,
-            auto_default=auto_default,
-            auto_default_nulls=auto_default_nulls,
-            auto_remove_nulls=auto_remove_nulls,
-        )
+    # Always, since properties may enable any of those switches in their schema.
+    rules["properties"] = fnt.partial(
+        _rule_auto_defaults_properties,
+        original_props_rule=props_rule,
+        auto_default=auto_default,
+        auto_default_nulls=auto_default_nulls,
+        auto_remove_nulls=auto_remove_nulls,
+    )
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
     for rule in ("enum", "const", "uniqueItems"):  # Rules comparing instances.
-- 
2.43.0


From 7fa5db8f0fb250a751812b85e9cda0d00b24acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 14/63] fix: JSONCodec corrupting newlines of objects, and
 failing to decode plain non-object JSON

---
 pandalone/pandata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 903624b..3a9d467 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1444,14 +1444,17 @@ class JSONCodec:
     class Encoder(JSONEncoder):
         def encode(self, o):
             pickle_bytes = pickle.dumps(o)
-            pickle_str = binascii.b2a_qp(pickle_bytes).decode(encoding="utf8")
+            # Not as text, or else its newlines get "normalized".
+            pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(
+                encoding="utf8"
+            )
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
             return JSONEncoder.encode(self, o)
 
     class Decoder(JSONDecoder):
         def decode(self, s):
             o = JSONDecoder.decode(self, s)
-            pickle_str = o.get(JSONCodec._obj, None)
+            pickle_str = o.get(JSONCodec._obj, None) if isinstance(o, dict) else None
             if pickle_str:
                 # file_ver = o[JSONCodec._ver_key]
                 # if file_ver != JSONCodec._ver:
-- 
2.43.0


From e031b1127d0c549f0be83dc0c4185b5733171edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 15/63] fix: components mapped to the root step must not lose
 their inputs/outputs

---
 pandalone/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/components.py b/pandalone/components.py
index b001d32..203a71c 100644
--- a/pandalone/components.py
+++ b/pandalone/components.py
@@ -197,7 +197,7 @@ class FuncComponent(Component):
         self._cfunc(self, *args, **kws)
 
     def _fetch_all_paths(self, pstep):
-        return pstep._paths() if pstep else []
+        return [] if pstep is None else pstep._paths()
 
     def pinp(self, path=None):
         """The suggested :class:`Pstep` for cfunc to use to access inputs."""
-- 
2.43.0


From c7a316d847f5b2084a9f6aba15b33410a7f2e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:54 +0000
Subject: [PATCH 16/63] fix: obj2bool() to convert also true objects that are
 not texts

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 40f5252..04baabc 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -81,7 +81,7 @@ def obj2bool(v):
         >>> obj2bool(None) == obj2bool('') == obj2bool(0) == False
         True
     """
-    return bool(v) and str2bool(v)
+    return str2bool(v) if isinstance(v, str) else bool(v)
 
 
 def is_travis():  # pragma: no cover
-- 
2.43.0


From 0a8e83b44942e078397137d6eeacfaa7a636d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:01 +0000
Subject: [PATCH 17/63] fix: urlpath2path() to prefix (not suffix) long paths
 with UNC, and only on Windows

---
 pandalone/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 04baabc..1495911 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -182,8 +182,8 @@ def urlpath2path(url):
     p = ur.url2pathname(url)
     if _is_dir_regex.search(url) and p[-1] != os.sep:
         p = p + osp.sep
-    if len(p) > 200:
-        p += _unc_prefix
+    if os.name == "nt" and len(p) > 200:
+        p = _unc_prefix + p
     return p
 
 
-- 
2.43.0


From 19638d029e5247b4ab919057750a19f4b27e3081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:08 +0000
Subject: [PATCH 18/63] fix: preserve the last slash of paths also when
 repeated

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 1495911..7117d7f 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -130,7 +130,7 @@ def first_line(doc):
 
 
 _file_drive_regex = re.compile(r"^([a-z]):(/)?(.*)$", re.I)
-_is_dir_regex = re.compile(r"[^/\\][/\\]$")
+_is_dir_regex = re.compile(r"[^/\\][/\\]+$")
 _unc_prefix = "\\\\?\\"
 
 
-- 
2.43.0


From 297cb55680e75085655f9c8b940f9a2ec640d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:14 +0000
Subject: [PATCH 19/63] fix: path2url() to expand users (before making paths
 absolute) and not to append '.' on path-less URLs

---
 pandalone/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 7117d7f..e9472d7 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -210,6 +210,8 @@ def path2url(path, expandvars=False, expanduser=False):
     if path:
         if expandvars:
             path = osp.expandvars(path)
+        if expanduser:  # Remote URLs never start with `~`.
+            path = osp.expanduser(path)
 
         # Trim UNCs, urljoin() makes nonsense, path2urlpath() just fails.
         if path.startswith(_unc_prefix):
@@ -233,13 +235,10 @@ def path2url(path, expandvars=False, expanduser=False):
             baseurl = up.urljoin("file:", cwd)
             path = up.urljoin(baseurl, path)
 
-        # Expand vars, conditionally on remote or local URL.
-        #
         parts = up.urlsplit(path)
         p = parts.path
-        if parts.scheme == "file" and expanduser:
-            p = osp.expanduser(p)
-        p = normpath(p).replace("\\", "/")
+        if p:
+            p = normpath(p).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
 
     return path
-- 
2.43.0


From 6d30ee25ef0d99c2beba106cfde9d3f06603f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:03 +0000
Subject: [PATCH 20/63] fix: make_unique_filename() ignoring the
 filename-generator given

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index e9472d7..8133813 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -254,7 +254,7 @@ def generate_filenames(filename):
 
 
 def make_unique_filename(fname, filegen=generate_filenames):
-    fname_genor = generate_filenames(fname)
+    fname_genor = filegen(fname)
     fname = next(fname_genor)
     while os.path.exists(fname):
         fname = next(fname_genor)
-- 
2.43.0


From 5ac5ccc3e0853def29ba206910787b3c7fe3137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:11 +0000
Subject: [PATCH 21/63] fix: ensure_file_ext() must match whole extensions, and
 recognize the one it appends

---
 pandalone/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 8133813..db5503f 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -312,16 +312,21 @@ def ensure_file_ext(fname, ext, *exts, is_regex=False):
     """
     _, file_ext = os.path.splitext(fname)
 
-    if is_regex:
+    def has_ext(e):
+        e = (e if e.startswith(".") else "." + e).lower()
+        bname = os.path.basename(fname).lower()
+        return bname.endswith(e) and bname != e  # dot-files have no extension.
+
+    ends_with_ext = has_ext(ext)
+    if not ends_with_ext and is_regex:
         ends_with_ext = any(
-            re.match(e + "$", file_ext, re.IGNORECASE) for e in (re.escape(ext),) + exts
+            re.match("(?:%s)$" % e, file_ext, re.IGNORECASE) for e in exts
         )
-    else:
-        file_ext = file_ext.lower()
-        ends_with_ext = any(file_ext.endswith(e.lower()) for e in (ext,) + exts)
+    elif not ends_with_ext:
+        ends_with_ext = any(has_ext(e) for e in exts)
 
     if not ends_with_ext:
-        if fname[-1] == ".":
+        if fname.endswith("."):
             fname = fname[:-1]
         if ext[0] == ".":
             ext = ext[1:]
-- 
2.43.0


From 28e929610fc8acb4ed78bf34cf4944999fd8fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:34 +0000
Subject: [PATCH 22/63] fix: ensure_dir_exists() must fail if a non-directory
 is created concurrently

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index db5503f..f17b0eb 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -351,7 +351,7 @@ def ensure_dir_exists(path, mode=0o755):
         except OSError as e:
             if e.errno != errno.EEXIST:
                 raise
-    elif not os.path.isdir(path):
+    if not os.path.isdir(path):
         raise IOError("%r exists but is not a directory" % path)
 
 
-- 
2.43.0


From 9845c338ceddf8db8ecdbb0abe184708a58affa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:51 +0000
Subject: [PATCH 23/63] fix: path2url() to resolve repeated slashes of local
 paths as the filesystem does

---
 pandalone/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index f17b0eb..9e5128a 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -233,6 +233,10 @@ def path2url(path, expandvars=False, expanduser=False):
             #
             cwd = ur.pathname2url("%s/" % os.getcwd())
             baseurl = up.urljoin("file:", cwd)
+            parts = up.urlsplit(path)
+            if parts.scheme in ("", "file") and not parts.netloc:
+                # A local path; for urljoin(), repeated slashes are separate folders.
+                path = up.urlunsplit(parts._replace(path=re.sub("/+", "/", parts.path)))
             path = up.urljoin(baseurl, path)
 
         parts = up.urlsplit(path)
-- 
2.43.0


From aab19762eda2c5f729752f66948abc35d663a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:41 +0000
Subject: [PATCH 24/63] fix: lasso xl-refs encased by delimiters, also those
 with filters

---
 pandalone/xleash/_parse.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 18a4017..ab7b911 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -463,23 +463,16 @@ def parse_xlref_fragment(xlref_fragment):
 
 def parse_xlref(xlref):
     """
-    Like ``_parse_xlref()`` but tries also if `xlreaf` is encased by delimiter chars ``/\\"$%&``.
+    Like ``_parse_xlref()`` but strips any delimiter chars encasing the `xlref`: ``/\\"$%&``.
 
     .. seealso:: _encase_regex
     """
-    try:
+    m = _encase_regex.match(xlref)
+    if m:
+        res = _parse_xlref(m.group(2))
+        res["xl_ref"] = xlref
+    else:
         res = _parse_xlref(xlref)
-    except SyntaxError as ex:
-        try:
-            m = _encase_regex.match(xlref)
-        except SyntaxError:
-            raise ex
-        else:
-            if m:
-                res = _parse_xlref(m.group(2))
-                res["xl-ref"] = xlref
-            else:
-                raise ex
 
     return res
 
-- 
2.43.0


From 815e413d892b14ac42c205e10fc73b28e9727bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:49 +0000
Subject: [PATCH 25/63] fix: '!' within filters must not be taken for the end
 of a sheet-name

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index ab7b911..dbd5dc4 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -144,7 +144,7 @@ def Edge_new(row, col, mov=None, mod=None, default=None):
 _encase_regex = re.compile(r'^\s*(?P<q>[/\\"$%&])(.+)(?P=q)\s*$', re.DOTALL)
 _regular_xlref_regex = re.compile(
     r"""
-    ^\s*(?:(?P<sh_name>[^!]+)?!)?                            # xl sheet name
+    ^\s*(?:(?P<sh_name>[^!:]+)?!)?                           # xl sheet name
     (?:                                                      # 1st-edge
         (?:
             (?:
-- 
2.43.0


From 9bde3df2f233af6109d640bc566d6791c77ff2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:55 +0000
Subject: [PATCH 26/63] fix: accept repetitions like 10 in expansions, and
 refuse malformed ones when parsing

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index dbd5dc4..e7ba78d 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -179,7 +179,7 @@ _regular_xlref_regex = re.compile(
             )?
         )?
         (?:
-            :(?P<exp_moves>[LURD?123456789]+)                # expansion moves
+            :(?P<exp_moves>(?:[LURD](?:[1-9]\d*|\?)?)+)      # expansion moves
         )?
     )?
     (?:
-- 
2.43.0


From 2888b676d7c8f4b1750a4e77f080781ae6062ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:03 +0000
Subject: [PATCH 27/63] fix: refuse non-ASCII letters and digits in coordinates

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index e7ba78d..6152494 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -186,7 +186,7 @@ _regular_xlref_regex = re.compile(
         :\s*(?P<js_filt>[{"[].*)                             # filters
     )?$
     """,
-    re.IGNORECASE | re.X | re.DOTALL,
+    re.IGNORECASE | re.X | re.DOTALL | re.ASCII,
 )
 """The regex for parsing regular :term:`xl-ref`. """
 
-- 
2.43.0


From 829c7748be34dd19ac9da0c59409a262ee48ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:10 +0000
Subject: [PATCH 28/63] fix: accept the documented '-' move-modifier

---
 pandalone/xleash/_capture.py | 2 +-
 pandalone/xleash/_parse.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 190ed8a..23a8190 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -773,7 +773,7 @@ def resolve_capture_rect(
                 if (
                     nd_edge.mod == "+"
                     or nd_edge.land == Cell(".", ".")
-                    and nd_edge.mod != "?"
+                    and nd_edge.mod not in ("-", "?")
                 ):
                     nd = _target_same(states_matrix, dn_margin, nd, mov, "2nd-")
             else:
diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 6152494..d401802 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -157,7 +157,7 @@ _regular_xlref_regex = re.compile(
         )
         (?:\(
             (?P<st_mov>L|U|R|D|LD|LU|UL|UR|RU|RD|DL|DR)      # moves
-            (?P<st_mod>[+?])?                                # move modifiers
+            (?P<st_mod>[+?-])?                                # move modifiers
             \)
         )?
     )?
@@ -174,7 +174,7 @@ _regular_xlref_regex = re.compile(
             )
             (?:\(
                 (?P<nd_mov>L|U|R|D|LD|LU|UL|UR|RU|RD|DL|DR)  # moves
-                (?P<nd_mod>[+?])?                            # move-modifiers
+                (?P<nd_mod>[+?-])?                            # move-modifiers
                 \)
             )?
         )?
-- 
2.43.0


From b57410ef9b05b419fd29a3b7c10578c169e74b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:48 +0000
Subject: [PATCH 29/63] fix: refuse negative coordinates reaching before the
 1st row or column

---
 pandalone/xleash/_capture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 23a8190..bee8e0f 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -270,6 +270,8 @@ def _resolve_coord(cname, cfunc, coord, up_coord, dn_coord, base_coords=None):
             # Resolve negatives as from the end.
             if rcoord < 0:
                 rcoord = dn_coord + rcoord + 1
+                if rcoord < 0:  # else, numpy would count from the end again.
+                    raise ValueError("Negative coord before the 1st %s!" % cname)
 
         return rcoord
     except Exception as ex:
-- 
2.43.0


From 3ffb8c9597d153382703b4719dc10b669f1daacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 30/63] fix: coords2Cell() to support columns beyond ZZ

---
 pandalone/xleash/_capture.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index bee8e0f..c59074a 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -22,14 +22,6 @@ from ._parse import Cell
 
 log = logging.getLogger(__name__)
 
-try:
-    from xlrd import colname as xl_colname
-
-    # TODO: Try different backends providing `colname` function.
-except ImportError:
-    log.warning("One of `xlrd`, `...` libraries is needed, will crash later!")
-
-
 CHECK_CELLTYPE = False
 """When `True`, most coord-functions accept any 2-tuples."""
 
@@ -50,6 +42,24 @@ _primitive_dir_vectors = {
 }
 
 
+def _num2col(col):
+    """
+    Converts a zero-based column to Excel letters.
+
+    Examples::
+
+        >>> _num2col(25), _num2col(26), _num2col(16383)
+        ('Z', 'AA', 'XFD')
+    """
+    letters = ""
+    col += 1
+    while col > 0:
+        col, indx = divmod(col - 1, 26)
+        letters = ascii_uppercase[indx] + letters
+
+    return letters
+
+
 def coords2Cell(row, col):
     """Make *A1* :class:`Cell` from *resolved* coords, with rudimentary error-checking.
 
@@ -74,7 +84,7 @@ def coords2Cell(row, col):
         row = str(row + 1)
     if col not in _special_coord_symbols:
         assert col >= 0, "negative col!"
-        col = xl_colname(col)
+        col = _num2col(col)
     return Cell(row=row, col=col)
 
 
-- 
2.43.0


From eaee2e7dc0996a021c37c4306d9fbe22f5b48caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 31/63] fix: ArraySheet must not coerce lists mixing types

---
 pandalone/xleash/io/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 632e534..86b6011 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -436,7 +436,8 @@ class ArraySheet(ABCSheet):
     """A sample :class:`ABCSheet` made out of 2D-list or numpy-arrays, for facilitating tests."""
 
     def __init__(self, arr, ids=SheetId("wb", ["sh", 0])):
-        self._arr = np.asarray(arr)
+        # Lists may mix types, keep their values as they are.
+        self._arr = np.asarray(arr, dtype=getattr(arr, "dtype", object))
         self._ids = ids
 
     def open_sibling_sheet(self, sheet_id):
-- 
2.43.0


From 4b102443e5d9aaaa8307f5ef72c2ea118ca1fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 32/63] fix: report errors when capturing single-edge xl-refs
 as value-errors

---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index fc3a5d8..6afc00c 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -39,7 +39,7 @@ def _build_call_help(name, func, desc):
 def _Lasso_to_edges_str(lasso):
     st = lasso.st_edge if lasso.st_edge else ""
     nd = lasso.nd_edge if lasso.nd_edge else ""
-    s = st if st and not nd else "%s:%s" % (st, nd)
+    s = str(st) if st and not nd else "%s:%s" % (st, nd)
     exp = ":%s" % lasso.exp_moves.upper() if lasso.exp_moves else ""
     return s + exp
 
-- 
2.43.0


From 2cb44507720f1305d6b265e8ee390cf4640cb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:50 +0000
Subject: [PATCH 33/63] fix: opts in xl-refs must overlay the base ones, not
 replace them all, as documented

---
 pandalone/xleash/_lasso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 6afc00c..6a2e6ae 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -156,6 +156,8 @@ class Ranger(object):
         try:
             parsed_fields = _parse.parse_xlref(xlref)
             filled_fields = dtz.valfilter(lambda v: v is not None, parsed_fields)
+            # Overlay xl-ref's opts on top of the base ones.
+            filled_fields["opts"] = init_lasso.opts.new_child(filled_fields.get("opts"))
             init_lasso = init_lasso._replace(**filled_fields)
         except SyntaxError:
             raise
-- 
2.43.0


From 5a1876f627ea8a8f22fa6bfef5a8470bb0642029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 34/63] fix: merge base-opts with the default ones, as
 documented

---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 6a2e6ae..8b484b3 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -310,7 +310,7 @@ def make_default_Ranger(sheets_factory=None, base_opts=None, available_filters=N
     """
     return Ranger(
         sheets_factory or backend.SheetsFactory(),
-        base_opts or get_default_opts(),
+        get_default_opts(base_opts),
         available_filters,
     )
 
-- 
2.43.0


From 535cc2bd318d82a066f233b0c014966b059004fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 35/63] fix: lax argument of filters must apply to all
 elements, not just to the first one

---
 pandalone/xleash/_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 8b484b3..6f6ad18 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -113,6 +113,7 @@ class Ranger(object):
         lasso = self._relasso(lasso, func_name)
 
         verbose = lasso.opts.get("verbose", False)
+        kwds = dict(kwds)  # The call-spec may be invoked many times.
         lax = kwds.pop("lax", lasso.opts.get("lax", False))
         func, func_desc = "", ""
         try:
-- 
2.43.0


From b4f319088f323590ebed50ca7ba29f8f9bbca98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:59 +0000
Subject: [PATCH 36/63] fix: element-wise filters failing midway must not leave
 values half-processed when laxed

---
 pandalone/xleash/_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 904bc6a..4ad387f 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -15,6 +15,7 @@ Prefer accessing the public members from the parent module.
 
 
 from collections import namedtuple, OrderedDict
+from copy import copy
 import logging
 
 
@@ -322,6 +323,7 @@ def run_filter_elementwise(
     def dive_list(elval, cdepth, base_coords):
         proced, elval = call_element_func(elval, cdepth, base_coords)
         if not proced and isinstance(elval, list):
+            elval = copy(elval)  # Preserve original if failing midway.
             for i, v in enumerate(elval):
                 nbc = upd_base_coords(elval, cdepth, base_coords, i)
                 elval[i] = dive_indexed(v, cdepth + 1, nbc)
@@ -336,6 +338,7 @@ def run_filter_elementwise(
             except:
                 pass  # Just to avoid chained ex.
             else:
+                elval = copy(elval)  # Preserve original if failing midway.
                 for i, (k, v) in enumerate(items):
                     # Dict is not ordered, so cannot locate `base_coords`!
                     if is_included(elval, k, cdepth):
-- 
2.43.0


From 3de92e9dff5f0ac57183e93bcfe417dec64adcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 37/63] fix: failing filters when verbose, using a function
 removed from python

---
 pandalone/xleash/_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 6f6ad18..35b7e0e 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -31,8 +31,8 @@ log = logging.getLogger(__name__)
 
 
 def _build_call_help(name, func, desc):
-    sig = func and inspect.formatargspec(*inspect.getfullargspec(func))
-    desc = textwrap.indent(textwrap.dedent(desc), "    ")
+    sig = func and inspect.signature(func)
+    desc = textwrap.indent(textwrap.dedent(desc or ""), "    ")
     return "\n\nFilter: %s%s:\n%s" % (name, sig, desc)
 
 
-- 
2.43.0


From f2bcf6414aae1cf0798df0d59610708766e5b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:49 +0000
Subject: [PATCH 38/63] fix: SimpleSheetsFactory failing to fetch sibling
 sheets

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 86b6011..52b0d3a 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -78,7 +78,7 @@ class SimpleSheetsFactory(object):
             if sheet_id is None:
                 sheet = base_sheet
             else:
-                base_sheet.open_sibling_sheet(sheet_id)
+                sheet = base_sheet.open_sibling_sheet(sheet_id)
         else:
             url = utils.path2url(wb_url)
             sheet = self._open_sheet(url, sheet_id)
-- 
2.43.0


From 207960bb675f67e2744f3db68700d61f29767d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:44 +0000
Subject: [PATCH 39/63] fix: read dates of workbooks in the 1904 date-system

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index df8548a..ceff3b4 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -139,7 +139,7 @@ def _open_sheet_by_name_or_index(xlrd_book, wb_id, sheet_id):
                 raise xl_ex from None
             else:
                 xl_sh = xlrd_book.sheet_by_index(sheet_id)
-    return XlrdSheet(xl_sh, wb_id)
+    return XlrdSheet(xl_sh, wb_id, epoch1904=bool(xlrd_book.datemode))
 
 
 class XlrdSheet(ABCSheet):
-- 
2.43.0


From 447ce1ac4c265f899b1c82c4597573d903ccb38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:51 +0000
Subject: [PATCH 40/63] fix: opening remote workbooks with xlrd

---
 pandalone/xleash/io/_xlrd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index ceff3b4..c998281 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -248,7 +248,8 @@ class XlrdBackend(ABCBackend):
             http_opts = ropts.get("http_opts", {})
             with request.urlopen(url, **http_opts) as response:
                 log.info("Opening book(%r)...", filename)
-                book = xlrd.open_workbook(filename, file_contents=response, **ropts)
+                contents = response.read()
+                book = xlrd.open_workbook(filename, file_contents=contents, **ropts)
 
         return book
 
-- 
2.43.0


From ac4a81415a1c181eb7940cfeddabd56a302aa451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 41/63] fix: redim filter failing to drop non-adjacent
 dimensions, or returning fewer ones than asked

---
 pandalone/xleash/_filter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 4ad387f..3ae67fb 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -109,12 +109,9 @@ def _downdim(values, new_ndim):
     offset = values.ndim - new_ndim
     trivial_ndims = len(trivial_indxs)
     if offset > trivial_ndims:
-        values = values.flatten()
-    elif offset == trivial_ndims:
-        values = values.squeeze()
+        values = _updim(values.flatten(), new_ndim)
     else:
-        for _, indx in zip(range(offset), trivial_indxs):
-            values = values.squeeze(indx)
+        values = values.squeeze(tuple(trivial_indxs[:offset]))
 
     return values
 
-- 
2.43.0


From 2d677c52b97b20313f89ef2a7d2c681927a6747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:32 +0000
Subject: [PATCH 42/63] fix: redim filter must not coerce values mixing types

---
 pandalone/xleash/_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 3ae67fb..21bdd38 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -156,7 +156,8 @@ def _redim(values, new_ndim):
     if new_ndim is None:
         return values
 
-    values = np.asarray(values)
+    # Values may mix types, keep them as they are.
+    values = np.asarray(values, dtype=getattr(values, "dtype", object))
     try:
         new_ndim, transpose = new_ndim
         if transpose:
-- 
2.43.0


From 0ef6050d90911bb6881619e5ea217341b233c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 43/63] fix: element-wise filters mixing up pandas values
 having duplicate labels

---
 pandalone/xleash/_filter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 21bdd38..058f38d 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -341,7 +341,14 @@ def run_filter_elementwise(
                     # Dict is not ordered, so cannot locate `base_coords`!
                     if is_included(elval, k, cdepth):
                         nbc = upd_base_coords(elval, cdepth, base_coords, i)
-                        elval[k] = dive_indexed(v, cdepth + 1, nbc)
+                        v = dive_indexed(v, cdepth + 1, nbc)
+                        # Labels of pandas objects might be duplicate.
+                        if hasattr(elval, "isetitem"):
+                            elval.isetitem(i, v)
+                        elif hasattr(elval, "iat") and elval.ndim == 1:
+                            elval.iat[i] = v
+                        else:
+                            elval[k] = v
                 dived = True
             if not dived:
                 elval = dive_list(elval, cdepth, base_coords)
-- 
2.43.0


From bbefbd6bb0a4c6d992004dc451b42f429db6a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:40 +0000
Subject: [PATCH 44/63] fix: resolve dependent coordinates in lists from each
 element's cell, also when pandas is installed

---
 pandalone/xleash/_filter.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 058f38d..06a0477 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -278,21 +278,29 @@ def run_filter_elementwise(
             ok &= not exclude or key not in exclude
         return ok
 
+    def is_plain_row(elval):
+        """A row-rect redimed as a plain list, its elements are not rows."""
+        is_row = lasso.nd is not None and lasso.st[0] == lasso.nd[0]
+        return is_row and not any(isinstance(v, list) for v in elval)
+
     def upd_base_coords(elval, cdepth, base_coords, i):
         if base_coords and not isinstance(elval, dict):
             row, col = base_coords
-            try:
-                import pandas as pd
-            except ImportError:
-                if cdepth == 0:
-                    row += i
-                elif cdepth == 1:
-                    col += +i
-            else:
-                if isinstance(elval, pd.DataFrame):
+            if isinstance(elval, list):
+                if cdepth == 1 or cdepth == 0 and is_plain_row(elval):
                     col += i
-                elif isinstance(elval, pd.Series):
+                elif cdepth == 0:
                     row += i
+            else:
+                try:
+                    import pandas as pd
+                except ImportError:
+                    pass
+                else:
+                    if isinstance(elval, pd.DataFrame):
+                        col += i
+                    elif isinstance(elval, pd.Series):
+                        row += i
 
             return row, col
 
@@ -321,9 +329,10 @@ def run_filter_elementwise(
     def dive_list(elval, cdepth, base_coords):
         proced, elval = call_element_func(elval, cdepth, base_coords)
         if not proced and isinstance(elval, list):
+            items = elval
             elval = copy(elval)  # Preserve original if failing midway.
-            for i, v in enumerate(elval):
-                nbc = upd_base_coords(elval, cdepth, base_coords, i)
+            for i, v in enumerate(items):
+                nbc = upd_base_coords(items, cdepth, base_coords, i)
                 elval[i] = dive_indexed(v, cdepth + 1, nbc)
 
         return elval
-- 
2.43.0


From 73d8817c21baadd3a6cef8b20269a7467623ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:37 +0000
Subject: [PATCH 45/63] fix: laxed filters not returning lassos must leave the
 previous value

---
 pandalone/xleash/_lasso.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 35b7e0e..c91be03 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -119,11 +119,12 @@ class Ranger(object):
         try:
             func_rec = self.available_filters[func_name]
             func, func_desc = parse_avail_func_rec(**func_rec)
-            lasso = func(self, lasso, *args, **kwds)
-            assert isinstance(lasso, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
+            res = func(self, lasso, *args, **kwds)
+            assert isinstance(res, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
                 func_name,
-                lasso,
+                res,
             )
+            lasso = res
         except Exception as ex:
             if verbose:
                 func_desc = _build_call_help(func_name, func, func_desc)
-- 
2.43.0


From 19af8e6f566d96b4f00dd9a50e6895f3276ec8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 46/63] fix: treat any float NaN as null, not only the np.nan
 object

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 3a9d467..6d34486 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -172,7 +172,7 @@ def _is_integer(checker, instance):
 
 
 def _is_null(checker, instance):
-    if instance is None or instance is float("nan") or instance is np.nan:
+    if instance is None or (isinstance(instance, float) and np.isnan(instance)):
         return True
 
     ## Handle np.arrays's future "bool" behavior.
-- 
2.43.0


From e83623b5e83dd4a3a9c8311b2b782d377be11d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 47/63] fix: pandas filters failing to load with pandas >= 1.0

---
 pandalone/xleash/_pandas_filters.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 3cd4caa..f646d2c 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -21,10 +21,17 @@ from pandas.io import parsers as pdparsers
 from . import installed_filters
 
 try:
-    from pandas.io.excel._util import _fill_mi_header, _pop_header_name
+    # pandas >= 1.0.0
+    from pandas.io.excel._util import (
+        fill_mi_header as _fill_mi_header,
+        pop_header_name as _pop_header_name,
+    )
 except ImportError:
-    # pandas < 0.25.0 (before summer 2019)
-    from pandas.io.excel import _fill_mi_header, _pop_header_name
+    try:
+        from pandas.io.excel._util import _fill_mi_header, _pop_header_name
+    except ImportError:
+        # pandas < 0.25.0 (before summer 2019)
+        from pandas.io.excel import _fill_mi_header, _pop_header_name
 
 
 try:
-- 
2.43.0


From 7e2662039695934d6212123ed2c85fc7be88f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 48/63] fix: df filter must not modify the captured values

---
 pandalone/xleash/_pandas_filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index f646d2c..8906137 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -151,6 +151,8 @@ def _df_filter(
     if not data:
         return pd.DataFrame()
 
+    data = [list(r) for r in data]  # Not to modify captured values.
+
     usecols = _maybe_convert_usecols(usecols)
 
     if is_list_like(header) and len(header) == 1:
-- 
2.43.0


From 789262c96b4321264b4b152ec7eb2e13661d43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 49/63] fix: df filter failing when multi-index without header

---
 pandalone/xleash/_pandas_filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 8906137..b010970 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -180,7 +180,9 @@ def _df_filter(
 
     if is_list_like(index_col):
         # forward fill values for MultiIndex index
-        if not is_list_like(header):
+        if header is None:
+            offset = 0
+        elif not is_list_like(header):
             offset = 1 + header
         else:
             offset = 1 + max(header)
-- 
2.43.0


From 78d0179cef9f23c877686489747044671208f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 50/63] fix: df filter ignoring nrows & keep_default_na, and
 squeeze with pandas >= 2.0

---
 pandalone/xleash/_pandas_filters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index b010970..2a4b77a 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -219,6 +219,7 @@ def _df_filter(
             skiprows=skiprows,
             nrows=nrows,
             na_values=na_values,
+            keep_default_na=keep_default_na,
             parse_dates=parse_dates,
             thousands=thousands,
             comment=comment,
@@ -228,7 +229,10 @@ def _df_filter(
             **kwds
         )
 
-        output = parser.read()
+        output = parser.read(nrows)
+
+        if squeeze and isinstance(output, pd.DataFrame) and output.shape[1] == 1:
+            output = output.iloc[:, 0]
 
         if not squeeze or isinstance(output, pd.DataFrame):
             if header_names:
-- 
2.43.0


From bc760ddcdfc480fcc421832afaf86bba60daf26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:16 +0000
Subject: [PATCH 51/63] fix: df filter failing on usecols given as excel
 columns

---
 pandalone/xleash/_pandas_filters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 2a4b77a..ea6d307 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -46,6 +46,11 @@ except ImportError:
     # Moved on 0.19.0 (Oct 2016):
     #   https://pandas.pydata.org/pandas-docs/stable/whatsnew/v0.19.0.html#pandas-development-api
     from pandas.core.common import is_integer, is_list_like
+try:
+    from pandas.io.excel._util import _range2cols
+except ImportError:
+    # pandas < 0.25.0 (before summer 2019)
+    from pandas.io.excel import _range2cols
 
 
 log = logging.getLogger(__name__)
-- 
2.43.0


From 6de15d970c487e464ef74e0ef96735164107a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:43 +0000
Subject: [PATCH 52/63] fix: df filter failing on empty values

---
 pandalone/xleash/_pandas_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index ea6d307..efb6369 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -154,7 +154,7 @@ def _df_filter(
         raise NotImplementedError("Cannot implement args: %s" % invalid_args)
 
     if not data:
-        return pd.DataFrame()
+        return lasso._replace(values=pd.DataFrame())
 
     data = [list(r) for r in data]  # Not to modify captured values.
 
-- 
2.43.0


From 87cb05eebe328ae2b6aa8e8ee74e82619aa637d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:43 +0000
Subject: [PATCH 53/63] fix: df filter losing the blank rows of single-column
 values

---
 pandalone/xleash/_pandas_filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index efb6369..8ae5da4 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -209,6 +209,9 @@ def _df_filter(
     # Pandaas expect '' instead of `None`!
     data = [["" if c is None else c for c in r] for r in data]
 
+    # Blank rows of single-columns must not be lost.
+    kwds.setdefault("skip_blank_lines", False)
+
     # GH 12292 : error when read one empty column from excel file
     try:
         parser = pdparsers.TextParser(
-- 
2.43.0


From f20c51c4d29df2dc2c181e6e5640ce9779933f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 54/63] fix: py_where() to search programs ending with .com,
 instead of com

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 9e5128a..1feb53b 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -361,7 +361,7 @@ def ensure_dir_exists(path, mode=0o755):
 
 def py_where(program, path=None):
     # From: http://stackoverflow.com/a/377028/548792
-    winprog_exts = (".bat", "com", ".exe")
+    winprog_exts = (".bat", ".com", ".exe")
 
     def is_exec(fpath):
         return (
-- 
2.43.0


From 1e9df97414b91c6229697beb221242ad15caf613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:54 +0000
Subject: [PATCH 55/63] fix: _remove_vba_modules() exhausting the names to
 delete on the first mismatch

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 2358ab7..0457270 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -119,7 +119,7 @@ def _remove_vba_modules(xl_vbcs, *mod_names_to_del):
 
     # Comparisons are case-insensitive.
     if mod_names_to_del:
-        mod_names_to_del = map(str.lower, mod_names_to_del)
+        mod_names_to_del = [n.lower() for n in mod_names_to_del]
 
     # Gather all workbook vba-modules.
     xl_mods = [xl_vbc for xl_vbc in xl_vbcs if xl_vbc.Type == XL_TYPE_MODULE]
-- 
2.43.0


From 5436cea060565c49834a1be4f3c1a7ea7d721e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 56/63] fix: LoggerWriter cutting line-endings in half when a
 text ends with many

---
 pandalone/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 1feb53b..833a0e7 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -428,6 +428,7 @@ class LoggerWriter:
             for le in line_endings:
                 if msg.endswith(le):
                     msg = msg[: -len(le)]
+                    break
             if msg:
                 self.logger.log(self.level, msg)
 
-- 
2.43.0


From 9b1a58f9d16eaae64a8e3f5f92889ee437bc5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:44 +0000
Subject: [PATCH 57/63] fix: pstep_from_df() failing on rows without a name

---
 pandalone/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 48a2f9e..4cde1fe 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1349,7 +1349,7 @@ def pstep_from_df(columns_df, name_col="names"):
                 /B        bar        []
                 ========  =========  ===================
     """
-    p = pmods_from_tuples(zip(columns_df.index, columns_df[name_col])).step()
+    p = pmods_from_tuples(list(zip(columns_df.index, columns_df[name_col]))).step()
     cdf = columns_df.drop(name_col, axis=1, errors="ignore")
     attributes = cdf.columns
     for rows in cdf.itertuples():
-- 
2.43.0


From 592ab9162551791297d0cb53d9211f7f625f9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:44 +0000
Subject: [PATCH 58/63] fix: pstep_from_df() losing the names & attributes of
 multi-level paths

---
 pandalone/mappings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 4cde1fe..c9ba19e 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -39,6 +39,7 @@ import re
 import functools as ft
 from pandalone import utils
 from pandalone.pandata import (
+    iter_jsonpointer_parts,
     iter_jsonpointer_parts_relaxed,
     JSchema,
     unescape_jsonpointer_part,
@@ -1354,7 +1355,9 @@ def pstep_from_df(columns_df, name_col="names"):
     attributes = cdf.columns
     for rows in cdf.itertuples():
         path, *attr_values = rows
-        cstep = getattr(p, path[1:])
+        cstep = p
+        for step in iter_jsonpointer_parts(path):
+            cstep = getattr(cstep, step)
         for attr, aval in zip(attributes, attr_values):
             setattr(cstep, "_%s" % attr, aval)
 
-- 
2.43.0


From 5d13f78e2bb7a2343d4c1a2a0771cb5e43de2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:58 +0000
Subject: [PATCH 59/63] fix: xlsutils --pandalone option to find the VBA
 modules in their folder

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 0457270..2795bcb 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -267,7 +267,7 @@ def main(*argv):
         if argv[1] == "--pandalone":
             mydir = os.path.dirname(__file__)
             argv = list(argv)
-            argv[1] = os.path.join(mydir, "*.vba")
+            argv[1] = os.path.join(mydir, "excel", "*.vba")
         elif argv[1].startswith("--"):
             exit(
                 "Unknown option(%s)! \n%s"
-- 
2.43.0


From 1449dea64b13bdc805320c5dc555aeb0b09255f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:58 +0000
Subject: [PATCH 60/63] fix: failing to save a workbook left the alerts of
 Excel off

---
 pandalone/xlsutils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 2795bcb..06ba7dc 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -179,13 +179,17 @@ def _save_workbook(xl_workbook, path):
         # directory
         path = os.path.join(os.getcwd(), xl_workbook.Name)
         xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
     elif path:
         # Save under new name/location
         xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
 
 
 def _save_excel_as_macro_enabled(xl_wb, new_fname=None):
-- 
2.43.0


From f52b44525fcb1e7fdd13b891cda15269c0fb04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:47 +0000
Subject: [PATCH 61/63] fix: close all sheets & empty the cache even if closing
 some fails

---
 pandalone/xleash/io/backend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 52b0d3a..b15b10f 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -15,6 +15,7 @@ Prefer accessing the public members from the parent module.
 
 from abc import abstractmethod, ABC
 from collections import namedtuple
+from contextlib import ExitStack
 
 import itertools as itt
 import numpy as np
@@ -191,10 +192,11 @@ class SheetsFactory(SimpleSheetsFactory):
 
     def close(self):
         """Closes all contained sheets and empties cache."""
-        for sh_dict in self._cached_sheets.values():
-            for sh in sh_dict.values():
-                sh._close_all()
-        self._cached_sheets = {}
+        cached_sheets, self._cached_sheets = self._cached_sheets, {}
+        with ExitStack() as closing:
+            for sh_dict in cached_sheets.values():
+                for sh in sh_dict.values():
+                    closing.callback(sh._close_all)
 
     def add_sheet(self, sheet, wb_ids=None, sh_ids=None):
         """
-- 
2.43.0


From 06ea2d315ff22b590c69427375c2e0d782f1662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:28 +0000
Subject: [PATCH 62/63] fix: open remote workbooks whose URL has ;params

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index c998281..c0dfe01 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -236,7 +236,7 @@ class XlrdBackend(ABCBackend):
 
     def _open_book(self, url):
         parts = filename = urlparse(url)
-        ropts = parts.params or {}
+        ropts = {}  # NOTE: the "params" of the URL are not for `xlrd`.
         if "logfile" not in ropts:
             ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
         if parts.scheme == "file":
-- 
2.43.0


From 8951c8f6e9ce6af423d47de5ce197bb8299da50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:05 +0000
Subject: [PATCH 63/63] fix: df filter filling blank indices and headers from
 skipped rows

---
 pandalone/xleash/_pandas_filters.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 8ae5da4..09807ff 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -158,6 +158,13 @@ def _df_filter(
 
     data = [list(r) for r in data]  # Not to modify captured values.
 
+    if skiprows is not None:
+        # Drop them before forward-filling headers & indices, below.
+        if is_integer(skiprows):
+            skiprows = range(skiprows)
+        is_skipped = skiprows if callable(skiprows) else set(skiprows).__contains__
+        data = [r for i, r in enumerate(data) if not is_skipped(i)]
+
     usecols = _maybe_convert_usecols(usecols)
 
     if is_list_like(header) and len(header) == 1:
@@ -169,8 +176,6 @@ def _df_filter(
         header_names = []
         control_row = [True for _ in data[0]]
         for row in header:
-            if is_integer(skiprows):
-                row += skiprows
             try:
                 data[row], control_row = _fill_mi_header(data[row], control_row)
             except TypeError:
@@ -224,7 +229,6 @@ def _df_filter(
             dtype=dtype,
             true_values=true_values,
             false_values=false_values,
-            skiprows=skiprows,
             nrows=nrows,
             na_values=na_values,
             keep_default_na=keep_default_na,
-- 
2.43.0

