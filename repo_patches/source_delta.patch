From 6d3817e737ab55aa650faccb984a8ea737950391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 01/93] fix: restore an object when the value assigned to a
 property is rejected

---
 ngoschema/protocols/object_protocol.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 022d9c1..d24dba5 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -91,10 +91,12 @@ class PropertyDescriptor:
             #raise six.reraise(AttributeError, value, trace)
 
     def __set__(self, obj, value):
+        key = self.pname
+        if key in obj._readOnly:
+            raise AttributeError("'%s' is read only" % key)
+        # a rejected value must leave the object as it was
+        saved = {d: dict(getattr(obj, d)) for d in ('_data', '_dataValidated', '_itemsInputs')}
         try:
-            key = self.pname
-            if key in obj._readOnly:
-                raise AttributeError("'%s' is read only" % key)
             obj._set_data(key, value)
             if not obj._lazyLoading:
                 obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
@@ -104,6 +106,10 @@ class PropertyDescriptor:
                     self.fset(obj, obj._dataValidated[key])
         except Exception as er:
             obj._logger.error(er, exc_info=True)
+            for d, values in saved.items():
+                # the containers are referenced by contexts: restore them in place
+                getattr(obj, d).clear()
+                getattr(obj, d).update(values)
             raise
             #etype, value, trace = sys.exc_info()
             #raise six.reraise(AttributeError, value, trace)
-- 
2.43.0


From 97e0deb49db85545cdb706f5dd33e99676717478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 02/93] fix: array items: no stale value after a lazy
 assignment, rejected values are not kept, list-like insert positions and
 slices

---
 ngoschema/protocols/array_protocol.py      | 25 ++++++++++++++++------
 ngoschema/protocols/collection_protocol.py | 12 +++++++++--
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index a58cf6a..b467d14 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -73,15 +73,28 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         return len(self._data)
 
     def insert(self, item, value):
+        # position of the inserted item, as for a list
+        item = max(0, item + len(self)) if item < 0 else min(item, len(self))
         self._itemsInputs.insert(item, {})
         self._dataValidated.insert(item, None)
         self._data.insert(item, value)
-        if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
-        elif isinstance(value, TypeProtocol):
-            value.set_context(self._context)
-        self._validate(self, value, items=False)
+        CollectionProtocol._touch(self)
+        try:
+            if not self._lazyLoading:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+            elif isinstance(value, TypeProtocol):
+                value.set_context(self._context)
+            self._validate(self, value, items=False)
+        except Exception:
+            # a rejected value must leave the array as it was
+            del self._itemsInputs[item], self._dataValidated[item], self._data[item]
+            raise
+
+    def __getitem__(self, item):
+        if isinstance(item, slice):
+            return [self[i] for i in range(*item.indices(len(self)))]
+        return CollectionProtocol.__getitem__(self, item)
 
     def _str_list(self):
         if self._str is None:
diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index aa57d40..5e1025e 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -142,10 +142,18 @@ class CollectionProtocol(Collection):
         return t._serialize(t, v, **opts)
 
     def __setitem__(self, item, value):
+        saved = self._data[item], self._dataValidated[item], self._itemsInputs[item]
+        self._dataValidated[item] = None
         self._data[item] = value
+        CollectionProtocol._touch(self)
         if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
+            try:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+            except Exception:
+                # a rejected value must leave the collection as it was
+                self._data[item], self._dataValidated[item], self._itemsInputs[item] = saved
+                raise
 
     def __getitem__(self, item):
         if self._dataValidated[item] is None:
-- 
2.43.0


From dcbbff75d2515068617b3b5c3e82560464da42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 03/93] fix: deleting a property: required properties are
 protected through item access, a deleted property can be set again

---
 ngoschema/protocols/collection_protocol.py |  4 ++--
 ngoschema/protocols/object_protocol.py     | 22 ++++++++--------------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 5e1025e..d803937 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -94,7 +94,7 @@ class CollectionProtocol(Collection):
         self._dataValidated[item] = None
         self._itemsInputs[item] = {}
         for d, s in self._dependencies.items():
-            if item in s:
+            if item in s and d in self._data:
                 self._items_touch(d)
 
     def _items_inputs_evaluate(self, item):
@@ -176,7 +176,7 @@ class CollectionProtocol(Collection):
 
     def _set_data(self, item, value):
         t = self._items_type(self, item)
-        orig = self._data[item]
+        orig = self._data.get(item)
         # to avoid comparison of objects (often equality which is the longest to validate), only touch for changed primitives
         if t.is_primitive():
             if value != orig:
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index d24dba5..3ee5755 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -121,8 +121,8 @@ class PropertyDescriptor:
         if self.fdel:
             self.fdel(obj)
         del obj._data[key]
-        del obj._dataValidated[key]
-        del obj._itemsInputs[key]
+        obj._dataValidated.pop(key, None)
+        obj._itemsInputs.pop(key, None)
 
 
 class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableMapping):
@@ -242,12 +242,6 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def _create_context(self, *extra_contexts, **local):
         return CollectionProtocol._create_context(self, {'this': self}, self._dataValidated, self, *extra_contexts, **local)
 
-    def _items_touch(self, item):
-        CollectionProtocol._items_touch(self, item)
-        for d, s in self._dependencies.items():
-            if item in s:
-                self._items_touch(d)
-
     def _touch(self):
         CollectionProtocol._touch(self)
         keys = list(self._data.keys())
@@ -440,14 +434,14 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
 
     def __delitem__(self, key):
-        for trans, raw in self._propertiesTranslation.items():
-            if key in (trans, raw):
-                delattr(self, trans)
-                break
+        raw, trans = self._properties_raw_trans(key)
+        desc = self._propertiesDescriptor.get(raw)
+        if desc:
+            desc.__delete__(self)
         else:
             del self._data[key]
-            del self._itemsInputs[key]
-            del self._dataValidated[key]
+            self._itemsInputs.pop(key, None)
+            self._dataValidated.pop(key, None)
 
     @staticmethod
     def _serialize(self, value, schema=False, excludes=[], only=[], **opts):
-- 
2.43.0


From 03b2973c752c8a96a85fd0bf1465ed15a42c2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 04/93] fix: take falsy defaults (0, false, empty string) into
 account

---
 ngoschema/protocols/type_protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index cb6c1c9..9bd7808 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -95,7 +95,8 @@ class TypeProtocol(Serializer):
 
     @staticmethod
     def _has_default(self, value=None, **opts):
-        return bool(value or self._default)
+        # 0, False and '' are defaults as any other value
+        return value is not None or self._default is not None
 
     @classmethod
     def has_default(cls, value=None, **opts):
@@ -103,7 +104,7 @@ class TypeProtocol(Serializer):
 
     @classmethod
     def default(cls, value=None, evaluate=False, raw_literals=True, **opts):
-        return cls._deserialize(cls, value or cls._default, raw_literals=raw_literals, **opts)
+        return cls._deserialize(cls, cls._default if value is None else value, raw_literals=raw_literals, **opts)
 
     @classmethod
     def is_primitive(cls):
-- 
2.43.0


From ecca5e26340b70cfe75e0aab3125d83ae9434438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 05/93] fix: use the default of an object schema

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 3ee5755..5ef2760 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -741,6 +741,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         attrs['_extends'] = extends
         attrs['_schema'] = ChainMap(schema, *[getattr(b, '_schema', {}) for b in bases])
         attrs['_abstract'] = abstract
+        if 'default' in schema:
+            attrs['_default'] = schema['default']
         attrs['_hasPk'] = bool(primary_keys)
         #attrs['_hasPk'] = tuple(k for k, p in all_properties.items() if len(getattr(p, '_primaryKeys', [])))
         attrs['_primaryKeys'] = primary_keys
-- 
2.43.0


From 16df65036529384010b4fe9f94c3907c053735e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 06/93] fix: do not share mutable default values between
 instances

---
 ngoschema/protocols/type_protocol.py | 2 +-
 ngoschema/types/array.py             | 3 ++-
 ngoschema/types/object.py            | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 9bd7808..18676cc 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -104,7 +104,7 @@ class TypeProtocol(Serializer):
 
     @classmethod
     def default(cls, value=None, evaluate=False, raw_literals=True, **opts):
-        return cls._deserialize(cls, cls._default if value is None else value, raw_literals=raw_literals, **opts)
+        return cls._deserialize(cls, copy.deepcopy(cls._default) if value is None else value, raw_literals=raw_literals, **opts)
 
     @classmethod
     def is_primitive(cls):
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 6a9ab6e..5e29c77 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import copy
 from collections import Mapping, Sequence, deque, OrderedDict
 
 from ..exceptions import ValidationError, ConversionError
@@ -158,7 +159,7 @@ class Array(Collection, ArraySerializer):
         return True
 
     def default(self, value=None, **opts):
-        value = value or self._default
+        value = value or copy.deepcopy(self._default)
         ret = [None] * len(value)
         for k, t in self._items_types(self, value):
             ret[k] = t.default(value[k], **opts) if t.has_default(value[k]) else None
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 0b233c7..758450c 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import copy
 from collections import OrderedDict, defaultdict, Mapping, MutableMapping
 import re
 from operator import neg
@@ -189,7 +190,7 @@ class Object(Collection, ObjectSerializer):
         return sch_repr
 
     def default(self, value=None, **opts):
-        ret = self._collType(value or self._default)
+        ret = self._collType(value or copy.deepcopy(self._default))
         for k in list(self._propertiesWithDefault):
             t = self._items_type(self, k)
             v = ret.get(k)
-- 
2.43.0


From e64a0931d78ef2e48b3652dd2da22a1e084daab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 07/93] fix: resolve canonical paths with array indices or a
 leading dot

---
 ngoschema/protocols/object_protocol.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 5ef2760..9ed10ac 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -50,7 +50,7 @@ def split_cname(cname):
         n, indices = parts[0], parts[1:]
         return [n] + [int(i.strip(']')) for i in indices]
     cns = sum([split_part(part) for part in cname.split('.')], [])
-    return cns.pop(0) if cns and not cns[0] else cns
+    return cns[1:] if cns and not cns[0] else cns
 
 
 class PropertyDescriptor:
@@ -381,13 +381,13 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __getitem__(self, key):
         if not key:
             return self._parent
-        if '.' in key:
+        if '.' in key or ('[' in key and key not in self._data):
             parts = split_cname(key)
             # case: canonical name such as a[0][1].b[0].c
             cur = self
             try:
                 for p in parts:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 return cur
@@ -412,12 +412,12 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     def __setitem__(self, key, value):
         op = lambda x: neg(x) if key in self._aliasesNegated else x
-        if '.' in key:
+        if '.' in key or ('[' in key and key not in self._data):
             parts = split_cname(key) # case: canonical name such as a[0][1].b[0].c
             cur = self
             try:
                 for p in parts[:-1]:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 cur[parts[-1]] = value
-- 
2.43.0


From d6baa1d8b0aa4038b553f89816432fc5fd104fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 08/93] fix: track every variable templates and expressions
 depend on, templates with literals

---
 ngoschema/protocols/object_protocol.py |  2 +-
 ngoschema/types/strings.py             |  4 +-
 ngoschema/utils/jinja2.py              | 69 ++++++++++++++++++--------
 3 files changed, 51 insertions(+), 24 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 9ed10ac..8f47a8a 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -203,7 +203,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     v = value.get(k)
                     if v is None and t.has_default():
                         v = t.default(raw_literals=True, **opts)
-                    inputs = [i.split('.')[0] for i in t._inputs(t, v)] if v else []
+                    inputs = [re.split(r'[.\[]', i)[0] for i in t._inputs(t, v)] if v else []
                     if inputs:
                         dependencies[k].update([i for i in inputs if i in self._properties])
         return self._deserializer.call_order(value, dependencies=dependencies, **opts)
diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 0807a58..31165ef 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -59,7 +59,9 @@ class Expr(String):
 
     @staticmethod
     def _inputs(self, value, **opts):
-        return set(Expr._expr_regex.findall(str(value))).difference(builtins.__dict__)
+        names = [n.split('.', 1)[-1] if n.startswith('this.') else n
+                 for n in Expr._expr_regex.findall(str(value))]
+        return set(names).difference(builtins.__dict__)
 
 
 class Pattern(String):
diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index eddeea3..c0ab818 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -16,7 +16,8 @@ from builtins import str
 
 import inflection
 import jinja2
-import jinja2.parser
+import jinja2.meta
+import jinja2.nodes
 from slugify import slugify as _slugify
 
 from .utils import GenericClassRegistry
@@ -68,29 +69,53 @@ class TemplatedString(object):
 
 @functools.lru_cache(512)
 def get_jinja2_variables(source, remove_this=True):
-    """return the list of variables in jinja2 source (no filters)"""
+    """return the list of variables in jinja2 source (no filters), as paths such as a.b[0].c"""
     env = default_jinja2_env()
-    parser = jinja2.parser.Parser(env, source)
+    nodes = jinja2.nodes
+    try:
+        ast = env.parse(source)
+    except jinja2.TemplateSyntaxError:
+        # not a template, it can not be evaluated
+        return []
+    undeclared = jinja2.meta.find_undeclared_variables(ast).union(['this', 'self'])
     vars = []
-    var = []
-    processing = False
-    for t in parser.stream:
-        if t.type == 'variable_begin':
-            processing = True
-            continue
-        if processing:
-            if t.type == 'variable_end' or t.value == '|':
-                processing=False
-                vars.append(''.join(var))
-                var = []
-                continue
-            if t.type == 'integer' and var[-1] == '.':
-                var.pop(-1)
-                var.append(f'[{t.value}]')
-            else:
-                var.append(t.value)
-    return vars if not remove_this \
-        else [v.replace('this.', '').replace('self.', '') for v in vars]
+
+    def _path(node):
+        if isinstance(node, nodes.Name):
+            return node.name if node.name in undeclared else None
+        if isinstance(node, (nodes.Getattr, nodes.Getitem)):
+            path = _path(node.node)
+            if path is None:
+                return None
+            if isinstance(node, nodes.Getattr):
+                return f'{path}.{node.attr}'
+            key = node.arg.value if isinstance(node.arg, nodes.Const) else None
+            if isinstance(key, int):
+                return f'{path}[{key}]'
+            if isinstance(key, str):
+                return f'{path}.{key}'
+        return None
+
+    def _visit(node):
+        path = _path(node)
+        if path is not None:
+            if path not in vars:
+                vars.append(path)
+            return
+        for n in node.iter_child_nodes():
+            if isinstance(node, nodes.Call) and n is node.node:
+                # the object the method belongs to, functions of the environment are not variables
+                if isinstance(n, nodes.Getattr):
+                    n = n.node
+                elif isinstance(n, nodes.Name) and n.name in env.globals:
+                    continue
+            _visit(n)
+
+    _visit(ast)
+    if remove_this:
+        vars = [v.split('.', 1)[-1] if v.startswith(('this.', 'self.')) else v for v in vars]
+        vars = [v for v in vars if v not in ('this', 'self')]
+    return vars
 
 # ADDITIONAL FILTERS FROM INFLECTION
 
-- 
2.43.0


From c555ae978ff79c5898623c44a176ae80f199ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 09/93] fix: convert and validate typed additional and pattern
 properties when they are set

---
 ngoschema/protocols/object_protocol.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 8f47a8a..f6aee84 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -279,7 +279,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if alias:
             cls.__properties_raw_trans[name] = (alias, name)
             return alias, name
-        if cls._propertiesAdditional:
+        if cls._propertiesAdditional or any(reg.search(name) for reg, t in cls._propertiesPattern):
             trans = clean_js_name(name)
             cls.__properties_raw_trans[name] = (name, trans)
             return name, trans
@@ -301,7 +301,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._propertiesDescriptor.get(raw) or self._relationshipsDescriptor.get(raw)
         if desc:
             return op(desc.__get__(self))
-        if self._propertiesAdditional and name in self._data:
+        if name in self._data:
             self._itemsInputs[raw] = self._items_inputs_evaluate(name)
             self._dataAdditional[raw] = v = op(self[name])
             return v
@@ -428,10 +428,26 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._propertiesDescriptor.get(raw) or self._relationshipsDescriptor.get(raw)
         if desc:
             return desc.__set__(self, op(value))
-        if not self._propertiesAdditional:
+        if raw is None:
             raise KeyError(key)
         v = op(value)
-        self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
+        if self._items_type(self, raw).is_constant():
+            self._data[raw] = self._dataAdditional[raw] = self._dataValidated[raw] = v
+            return
+        # pattern or typed additional property
+        saved = {d: dict(getattr(self, d)) for d in ('_data', '_dataValidated', '_itemsInputs')}
+        try:
+            self._items_touch(raw)
+            self._data[raw] = v
+            if not self._lazyLoading:
+                self._itemsInputs[raw] = self._items_inputs_evaluate(raw)
+                self._set_dataValidated(raw, self._items_evaluate(raw))
+            self._dataAdditional[raw] = self._dataValidated[raw]
+        except Exception:
+            for d, values in saved.items():
+                getattr(self, d).clear()
+                getattr(self, d).update(values)
+            raise
 
     def __delitem__(self, key):
         raw, trans = self._properties_raw_trans(key)
-- 
2.43.0


From d2d25eaec49d351337aed4dd61550d7544dd9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 10/93] fix: do not share resolved property names between a
 class and its bases

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index f6aee84..35b976c 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -789,6 +789,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         attrs['_logger'] = logger
         attrs['_jsValidator'] = DefaultValidator(schema, resolver=UriResolver.create(uri=id, schema=schema))
         attrs['_items_type_cache'] = {}
+        # names are not resolved the same way in the bases
+        attrs['_ObjectProtocol__properties_raw_trans'] = {}
         attrs['_mroType'] = pbases
         if 'lazyLoading' in schema:
             attrs['_lazyLoading'] = schema['lazyLoading']
-- 
2.43.0


From 75976aa3af28ffaab171f316f3eaa42f5ea34ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 11/93] fix: compare objects by their properties

---
 ngoschema/protocols/object_protocol.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 35b976c..352039f 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -256,6 +256,21 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __iter__(self):
         return iter(self._dataValidated.keys())
 
+    def __eq__(self, other):
+        if other is self:
+            return True
+        if not isinstance(other, Mapping) or len(self) != len(other):
+            return False
+        for k in self:
+            if k not in other:
+                return False
+            v1, v2 = self[k], other[k]
+            if v1 is not v2 and v1 != v2:
+                return False
+        return True
+
+    __hash__ = CollectionProtocol.__hash__
+
     __properties_raw_trans = None
     @classmethod
     def _properties_raw_trans(cls, name):
-- 
2.43.0


From 780b043cd9db5092f7eb5adc4e4adb2f95188abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 12/93] fix: reject values out of the range of an enum

---
 ngoschema/types/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 9ba2485..1b66083 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -110,10 +110,10 @@ class Enum(Primitive):
             i = Integer.convert(value)
             if i in enum:
                 return i
-            if i > len(enum):
+            if not 0 <= i < len(enum):
                 raise ConversionError('Index %i exceeds enum size of %r' % (i, enum))
             return enum[i]
 
-        if not s:
+        if String.check(value) and not value:
             return self._enum[0]
         raise ConversionError('Impossible to convert %s to enum %r' % (value, enum))
-- 
2.43.0


From a624e025076d90dc67e8387995048daf54309662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 13/93] fix: report invalid dates and times as invalid values

---
 ngoschema/types/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 532600b..078edb6 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -60,7 +60,7 @@ class Date(Primitive):
                     return a.date()
                 except Exception:
                     pass
-        raise InvalidValue("{0} is not detected as a date: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a date.".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
@@ -100,7 +100,7 @@ class Time(Primitive):
                 return a.time()
             except Exception:
                 pass
-        raise InvalidValue("{0} is not detected as a time: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a time.".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 18f2b435c101ce4d4a642a4505c30906bfdd132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 14/93] fix: enum members are taken as they are, falsy defaults
 of enums

---
 ngoschema/types/type.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 1b66083..6752e61 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -88,7 +88,7 @@ class Enum(Primitive):
     def __init__(self, **opts):
         Primitive.__init__(self, **opts)
         self._enum = self._schema.get('enum', [])
-        if self._enum and not self._default:
+        if self._enum and self._default is None:
             self._default = self._enum[0]
 
     @staticmethod
@@ -102,6 +102,8 @@ class Enum(Primitive):
         from .numerics import Integer
         from .strings import String
         enum = self._enum
+        if value in enum:
+            return value
         if String.check(value):
             s = String.convert(value, **opts)
             if s in enum:
-- 
2.43.0


From d473619b91b66f3b226f16418caaa65b1542b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 15/93] fix: reject values which are not a datetime instead of
 silently dropping them

---
 ngoschema/types/datetime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 078edb6..05361f3 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -141,6 +141,7 @@ class Datetime(Date, Time):
                 return arrow.get(dt)
         except Exception as er:
             raise InvalidValue("{0} is not detected as a datetime: {1}".format(value, str(er)))
+        raise InvalidValue("{0} is not detected as a datetime.".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 46e22519c784aebc9cbaf46c508d635c2e9effe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 16/93] fix: unset paths and uris are serialized as None

---
 ngoschema/types/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index cdc7acc..20edc46 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -56,7 +56,7 @@ class Uri(Primitive, Resolver):
         :param context: evaluation context
         :return: json data
         """
-        return Uri._convert(self, value, **opts).geturl()
+        return None if value is None else Uri._convert(self, value, **opts).geturl()
 
     @staticmethod
     def _resolve(self, value, **opts):
@@ -163,7 +163,7 @@ class Path(Uri):
                 fp = fr.document.filepath
                 from pathlib import Path
                 p = value.relative_to(fp)
-        return str(value)
+        return None if value is None else str(value)
 
     @staticmethod
     def _resolve(self, typed, **opts):
-- 
2.43.0


From d4eca81816dfcdd60e2b2c1615c8f02e6ca90d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 17/93] fix: multipleOf with a float multiple

---
 ngoschema/managers/jsch_validators.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/jsch_validators.py b/ngoschema/managers/jsch_validators.py
index a96da66..3138c1d 100644
--- a/ngoschema/managers/jsch_validators.py
+++ b/ngoschema/managers/jsch_validators.py
@@ -2,6 +2,8 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import decimal
+
 from jsonschema import _validators
 from jsonschema.validators import create
 
@@ -36,7 +38,6 @@ jsch_validators_registry.register('minItems')(_validators.minItems)
 jsch_validators_registry.register('minLength')(_validators.minLength)
 jsch_validators_registry.register('minProperties')(_validators.minProperties)
 jsch_validators_registry.register('minimum')(_validators.minimum)
-jsch_validators_registry.register('multipleOf')(_validators.multipleOf)
 jsch_validators_registry.register('oneOf')(_validators.oneOf)
 jsch_validators_registry.register('not')(_validators.not_)
 jsch_validators_registry.register('pattern')(_validators.pattern)
@@ -88,6 +89,15 @@ def extends(validator, ref, instance, schema):
         finally:
             pass
 
+
+@jsch_validators_registry.register('multipleOf')
+def multiple_of(validator, multiple, instance, schema):
+    # numbers are decimals, which can not be mixed with floats
+    if isinstance(instance, decimal.Decimal) and isinstance(multiple, float):
+        multiple = decimal.Decimal(str(multiple))
+    return _validators.multipleOf(validator, multiple, instance, schema)
+
+
 # custom validators
 @jsch_validators_registry.register()
 def isPathDir(validator, param, value, type_data):
-- 
2.43.0


From 9a199f88c400a419d6fc5e37cef56770ad3018e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 18/93] fix: report errors of nested schema keywords (allOf) as
 invalid values

---
 ngoschema/protocols/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/validator.py b/ngoschema/protocols/validator.py
index d44d44a..f3dbcc5 100644
--- a/ngoschema/protocols/validator.py
+++ b/ngoschema/protocols/validator.py
@@ -54,7 +54,7 @@ class Validator(Converter, Context):
         if not with_type:
             excludes = list(excludes) + ['type']
         schema = {k: v for k, v in opts.get('schema', self._schema).items() if k not in excludes}
-        return {'/'.join(e.schema_path): e.message
+        return {'/'.join(str(p) for p in e.schema_path): e.message
                 for e in self._jsValidator.iter_errors(value, schema)}
 
     def _format_errors(self, value, **opts):
-- 
2.43.0


From 19171671546779a0608da28ee8968f6617e7bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 19/93] fix: times with a meridian are not truncated to the
 12-hour clock

---
 ngoschema/config/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/config/settings.py b/ngoschema/config/settings.py
index 67e9b4a..d01d480 100644
--- a/ngoschema/config/settings.py
+++ b/ngoschema/config/settings.py
@@ -142,10 +142,10 @@ ALT_TIME_FORMATS = [
     'HH:mm:ss.SSS',
     'HH:mm:ssZZ',
     'HH:mm:ss ZZ',
-    'HH:mm:ss',
-    'HH:mm',
     'HH:mm:ss A',
     'HH:mm A',
+    'HH:mm:ss',
+    'HH:mm',
 ]
 
 DATETIME_FORMATS = {
-- 
2.43.0


From 196e9d249f6b5a8b88ea5edf5b2c6b11e07c131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 20/93] fix: serialize dates and times with a textual format,
 unset ones as None

---
 ngoschema/types/datetime.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 05361f3..7b57f76 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -15,12 +15,16 @@ from .. import settings
 def _dt_serialize(cls, value, **opts):
     format = opts.get('format') or cls._schema.get('format')
     format = settings.DATETIME_FORMATS.get(format, format)
+    if value is None:
+        return None
     if format:
         if '%' in format:
             return value.strftime(format)
-        else:
-            return value.format(format)
-    return value.isoformat() if value else None
+        # dates and times have no support for arrow formats
+        if isinstance(value, datetime.time):
+            value = datetime.datetime.combine(datetime.date(1, 1, 1), value)
+        return arrow.get(value).format(format)
+    return value.isoformat()
 
 
 @register_type('date')
-- 
2.43.0


From 5b38bec324848cdfead0b697ec79275bf30e3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:51 +0000
Subject: [PATCH 21/93] fix: reject the hour 24 in datetimes instead of going
 back a day

---
 ngoschema/types/datetime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 7b57f76..1dd15f8 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -141,6 +141,7 @@ class Datetime(Date, Time):
                     return arrow.get(arrow.utcnow().date())
                 a_d = arrow.get(value, settings.DATE_FORMATS + settings.ALT_DATE_FORMATS)
                 a_t = arrow.get(value, settings.ALT_TIME_FORMATS)
+                assert a_t.date() == datetime.date(1, 1, 1), a_t
                 dt = datetime.datetime.combine(a_d.date(), a_t.time())
                 return arrow.get(dt)
         except Exception as er:
-- 
2.43.0


From b57518ba36d730f81a53814640d2a8169cdd6a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 22/93] fix: negate the values read through negated aliases

---
 ngoschema/protocols/object_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 352039f..abf6578 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -309,7 +309,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             if name not in self._propertiesAllowed:
                 return MutableMapping.__getattribute__(self, name)
                 return self.__dict__[name]
-        op = lambda x: neg(x) if name in self._aliasesNegated else x
+        negated = name in self._aliasesNegated
+        op = lambda x: neg(x) if negated and x is not None else x
         name = self._aliasesNegated.get(name, name)
         name = self._aliases.get(name, name)
         raw = self._propertiesTranslation.get(name, name)
@@ -411,7 +412,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._relationshipsDescriptor.get(key)
         if desc:
             return desc.__get__(self)
-        op = lambda x: neg(x) if key in self._aliasesNegated else x
+        negated = key in self._aliasesNegated
+        op = lambda x: neg(x) if negated and x is not None else x
         key = self._aliasesNegated.get(key, key)
         key = self._aliases.get(key, key)
         raw, trans = self._properties_raw_trans(key)
-- 
2.43.0


From dc9f52a9cb0657246032b774e70aef26690705b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 23/93] fix: expressions depend on the array elements they
 index

---
 ngoschema/types/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 31165ef..1ee394b 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -41,7 +41,7 @@ class String(Primitive):
 
 
 class Expr(String):
-    _expr_regex = re.compile(r"[a-zA-Z_]+[\w\.]*")
+    _expr_regex = re.compile(r"[a-zA-Z_]+[\w\.]*(?:\[\d+\][\w\.]*)*")
 
     @staticmethod
     def _check(self, value, **opts):
-- 
2.43.0


From ec39c768906efe9bde192631f1ffcf748453c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 24/93] fix: enforce uniqueItems, items can be added to arrays
 with uniqueItems

---
 ngoschema/protocols/array_protocol.py      |  2 +-
 ngoschema/protocols/collection_protocol.py |  1 +
 ngoschema/types/array.py                   | 10 +++++-----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index b467d14..3ccc260 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -85,7 +85,7 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
                 self._set_dataValidated(item, self._items_evaluate(item))
             elif isinstance(value, TypeProtocol):
                 value.set_context(self._context)
-            self._validate(self, value, items=False)
+            self._validate(self, self, items=False)
         except Exception:
             # a rejected value must leave the array as it was
             del self._itemsInputs[item], self._dataValidated[item], self._data[item]
diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index d803937..c613de2 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -150,6 +150,7 @@ class CollectionProtocol(Collection):
             try:
                 self._itemsInputs[item] = self._items_inputs_evaluate(item)
                 self._set_dataValidated(item, self._items_evaluate(item))
+                self._validate(self, self, items=False)
             except Exception:
                 # a rejected value must leave the collection as it was
                 self._data[item], self._dataValidated[item], self._itemsInputs[item] = saved
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 5e29c77..9340572 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -5,7 +5,9 @@ from __future__ import unicode_literals
 import copy
 from collections import Mapping, Sequence, deque, OrderedDict
 
-from ..exceptions import ValidationError, ConversionError
+from jsonschema._utils import uniq
+
+from ..exceptions import InvalidValue, ConversionError
 from ..utils import ReadOnlyChainMap as ChainMap
 from ..decorators import log_exceptions
 from ..managers.type_builder import register_type
@@ -58,10 +60,8 @@ class ArrayDeserializer(CollectionDeserializer):
     @staticmethod
     def _validate(self, value, **opts):
         value = CollectionDeserializer._validate(self, value, **opts)
-        if self._uniqueItems:
-            hashes = set([hash(v) for v in value])
-            if len(hashes) != len(value):
-                ValidationError('Duplicate items in %s.' % value)
+        if self._uniqueItems and not uniq([v for v in value if v is not None]):
+            raise InvalidValue('Duplicate items in %s.' % value)
         return value
 
     @staticmethod
-- 
2.43.0


From ac86555c7bc742b784d0f30195308f02ca6f26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 25/93] fix: items of a tuple are typed by their position,
 whatever the index, and can be followed by others

---
 ngoschema/protocols/array_protocol.py | 11 ++++++++++-
 ngoschema/types/array.py              |  9 ++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 3ccc260..ff898d2 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -94,7 +94,16 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
     def __getitem__(self, item):
         if isinstance(item, slice):
             return [self[i] for i in range(*item.indices(len(self)))]
-        return CollectionProtocol.__getitem__(self, item)
+        return CollectionProtocol.__getitem__(self, self._position(item))
+
+    def __setitem__(self, item, value):
+        CollectionProtocol.__setitem__(self, self._position(item), value)
+
+    def _position(self, item):
+        # the type of an item depends on its position from the start
+        if not -len(self) <= item < len(self):
+            raise IndexError('array index out of range')
+        return item + len(self) if item < 0 else item
 
     def _str_list(self):
         if self._str is None:
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 9340572..dc0afbd 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -124,13 +124,16 @@ class Array(Collection, ArraySerializer):
 
     @staticmethod
     def _items_types(self, value, **opts):
-        value = self._items[:len(value)] if self._itemsIsList else [self._items] * len(value)
-        return [(i, v) for i, v in enumerate(value)]
+        return [(i, self._items_type(self, i)) for i in range(len(value))]
 
     @staticmethod
     def _items_type(self, item):
         from ..protocols.type_proxy import TypeProxy
-        t = self._items[item] if self._itemsIsList else self._items
+        if self._itemsIsList:
+            # items after the typed ones are not constrained
+            t = self._items[item] if item < len(self._items) else _True()
+        else:
+            t = self._items
         return t.proxy_type() if getattr(t, '_proxyUri', None) else t
 
     @staticmethod
-- 
2.43.0


From 65b19c3233986649f588116612212ce8d72d1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 26/93] fix: reverse arrays with uniqueItems

---
 ngoschema/protocols/array_protocol.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index ff898d2..8a078eb 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -99,6 +99,14 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
     def __setitem__(self, item, value):
         CollectionProtocol.__setitem__(self, self._position(item), value)
 
+    def reverse(self):
+        if self._itemsIsList:
+            return MutableSequence.reverse(self)
+        # swapping items one by one creates temporary duplicates
+        for d in (self._data, self._dataValidated, self._itemsInputs):
+            d.reverse()
+        CollectionProtocol._touch(self)
+
     def _position(self, item):
         # the type of an item depends on its position from the start
         if not -len(self) <= item < len(self):
-- 
2.43.0


From dc96be493c06dc29c0dd0650607666e4719bd7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 27/93] fix: serialize arrays of any type as strings

---
 ngoschema/types/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index dc0afbd..0e22782 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -86,7 +86,7 @@ class ArraySerializer(CollectionSerializer, ArrayDeserializer):
         value = CollectionSerializer._serialize(self, value, **opts)
         value = self._collType([value[k] for k in self._print_order(self, value, **opts)])
         if as_string:
-            value = self._strDelimiter.join([String.serialize(v, **opts) for v in value])
+            value = self._strDelimiter.join(['' if v is None else str(v) for v in value])
         return value
 
 
-- 
2.43.0


From 106dbb2bc9616155d3f5243c2d65507bc0f37c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 28/93] fix: an explicit empty array is not replaced by the
 default

---
 ngoschema/types/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 59e667a..5fb78a1 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -74,7 +74,9 @@ class Collection(Type, CollectionSerializer):
 
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
-        ret = self._deserializer._deserialize(self, value or self._default, items=items, evaluate=False, **opts)
+        # an empty array is a value, even when there is a default
+        value = value if value or isinstance(value, (list, tuple)) else self._default
+        ret = self._deserializer._deserialize(self, value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
             for k, t in self._items_types(self, value):
-- 
2.43.0


From 4645d76daf618b493970eccc8892f2d59f34f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 29/93] fix: serialization of arrays as strings

---
 ngoschema/types/array.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 0e22782..19c2d16 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -82,12 +82,9 @@ class ArraySerializer(CollectionSerializer, ArrayDeserializer):
         return range(len(value))
 
     @staticmethod
-    def _serialize(self, value, as_string=False, **opts):
+    def _serialize(self, value, **opts):
         value = CollectionSerializer._serialize(self, value, **opts)
-        value = self._collType([value[k] for k in self._print_order(self, value, **opts)])
-        if as_string:
-            value = self._strDelimiter.join(['' if v is None else str(v) for v in value])
-        return value
+        return self._collType([value[k] for k in self._print_order(self, value, **opts)])
 
 
 @register_type('array')
@@ -190,6 +187,14 @@ class Array(Collection, ArraySerializer):
         value = Collection._validate(self, value, items=items, excludes=excludes, **opts)
         return value
 
+    @staticmethod
+    def _serialize(self, value, as_string=False, **opts):
+        value = Collection._serialize(self, value, **opts)
+        if as_string:
+            # as the last step: a string is not a collection of items anymore
+            value = self._strDelimiter.join(['' if v is None else str(v) for v in value])
+        return value
+
     @staticmethod
     def _inputs(self, value, items=False, **opts):
         inputs = set()
-- 
2.43.0


From 94fd849657dbfea12fac0119beac80d99ea654fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 30/93] fix: accessors defined for a property inherited from a
 base are used

---
 ngoschema/protocols/object_protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index abf6578..23782ce 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -759,10 +759,10 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 ptype._schema.get('description'))
         # remaining descriptors are properties defined in other bases with local getter/setter/deleter definitions
         for pname, pfun in descriptor_funs.items():
-            ptrans = clean_js_name(pname)
             for b in pbases:
-                if hasattr(b, ptrans) and isinstance(b, PropertyDescriptor):
-                    d = copy.copy(getattr(b.trans))
+                d = b._propertiesDescriptor.get(pname)
+                if d is not None:
+                    d = copy.copy(d)
                     for k, v in pfun.items():
                         if v is not None:
                             setattr(d, f'f{k}', v)
-- 
2.43.0


From a86b842a86029550c1fc5345c8f3126fde45406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 31/93] fix: report datetimes which are not a date or a time as
 invalid values

---
 ngoschema/types/datetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 1dd15f8..b0241e0 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -45,7 +45,8 @@ class Date(Primitive):
         if value is None:
             return value
         if isinstance(value, (arrow.Arrow, datetime.datetime)):
-            assert value.time() == datetime.time(0, 0), value.time()
+            if value.time() != datetime.time(0, 0):
+                raise InvalidValue("{0} is not a date.".format(value))
             return value.date()
         if isinstance(value, datetime.date):
             return value
@@ -91,7 +92,8 @@ class Time(Primitive):
         if isinstance(value, datetime.time):
             return value
         if isinstance(value, (datetime.datetime, arrow.Arrow)):
-            assert value.date() == datetime.date(1, 1, 1)
+            if value.date() != datetime.date(1, 1, 1):
+                raise InvalidValue("{0} is not a time.".format(value))
             return value.time()
         if String.check(value, **opts):
             value = String.convert(value, **opts)
-- 
2.43.0


From 421e1547491e1ec360e73657902f065cfaaac1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 32/93] fix: excluded and not serialized required keys are not
 serialized, exclusions are not kept between calls

---
 ngoschema/types/object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 758450c..666aa74 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -90,11 +90,11 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         no_defaults = opts.get('no_defaults', self._noDefaults)
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
         if no_readOnly:
-            excludes += list(self._readOnly)
+            excludes = list(excludes) + list(self._readOnly)
         for k in all_ordered:
-            if k in self._required:
-                yield k
-            elif ObjectSerializer._is_included(k, value, excludes=excludes, only=only, no_defaults=no_defaults):
+            # required keys are kept even without value, unless they are not wanted
+            if ObjectSerializer._is_included(k, value, excludes=excludes, only=only,
+                                             no_defaults=no_defaults and k not in self._required):
                 yield k
 
     @staticmethod
-- 
2.43.0


From b30fd06022c0449c325d0021b21e56fb9db8584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 33/93] fix: properties which are not serialized in an object
 are serialized in the objects it contains

---
 ngoschema/protocols/collection_protocol.py | 2 ++
 ngoschema/types/collection.py              | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index c613de2..9edff83 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -82,6 +82,8 @@ class CollectionProtocol(Collection):
 
     @staticmethod
     def _serialize(self, value, excludes=[], **opts):
+        # what is not serialized in this collection can be serialized in its items
+        opts['items_excludes'] = excludes
         excludes = list(self._notSerialized.union(excludes))
         return self._collection._serialize(self, value, excludes=excludes, **opts)
 
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 5fb78a1..a097467 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -115,15 +115,16 @@ class Collection(Type, CollectionSerializer):
         return Type._evaluate(self, value, convert=False, validate=validate, **opts)
 
     @staticmethod
-    def _serialize(self, value, items=True, only=[], **opts):
+    def _serialize(self, value, items=True, only=[], items_excludes=None, **opts):
         opts.setdefault('no_defaults', True)
         ret = value = self._serializer._serialize(self, value, only=only, **opts)
         if items:
             ret = self.null(value, only=only, **opts)
+            iopts = opts if items_excludes is None else dict(opts, excludes=items_excludes)
             for k, t in self._items_types(self, ret):
                 if self._is_included(k, value, only=only, **opts):
                     v = value[k]
-                    ret[k] = t._serialize(t, v, **opts)
+                    ret[k] = t._serialize(t, v, **iopts)
                     #ret[k] = v.do_serialize(**opts) if hasattr(v, 'do_serialize') else t._serialize(t, v, **opts)
         return self._collType(ret)
 
-- 
2.43.0


From 814c1113e27e3a78e46733384204a55af97de6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 34/93] fix: navigation to the parent in paths of objects
 allowing additional properties, index 0 of an object

---
 ngoschema/protocols/object_protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 23782ce..bfe3fe9 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -395,7 +395,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                                  name, self.__class__.__name__))
 
     def __getitem__(self, key):
-        if not key:
+        if key in ('', None):
             return self._parent
         if '.' in key or ('[' in key and key not in self._data):
             parts = split_cname(key)
@@ -403,7 +403,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts:
-                    cur = cur[p] if isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if p == '' or isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 return cur
@@ -434,7 +434,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts[:-1]:
-                    cur = cur[p] if isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if p == '' or isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 cur[parts[-1]] = value
-- 
2.43.0


From 6bbc469254b607fcffc70ea5d20213b859979ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:03 +0000
Subject: [PATCH 35/93] fix: criteria of filters: missing values with any_of,
 operators on mappings, attributes named as operators, size and index, case
 insensitive operators

---
 ngoschema/query.py       | 33 +++++++++++++++------------------
 ngoschema/utils/utils.py |  2 +-
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index c40a1a9..554b203 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -57,7 +57,8 @@ def _comparable(obj):
 def _sort_criteria(criteria):
     elts = criteria.split('__')
     ops = []
-    for e in reversed(elts):
+    # the first element is always an attribute, even if named as an operator
+    for e in reversed(elts[1:]):
         if e not in _operators and not e.startswith('@'):
             break
         ops.insert(0, e)
@@ -95,13 +96,13 @@ def _apply_ops_test(ops, negate, a, b):
         if op == 'endswith':
             return a.endswith(b)
         if op == 'ieq':
-            return re.match('^%s$' % b, a, re.IGNORECASE)
+            return a.lower() == b.lower()
         if op == 'istartswith':
-            return re.match('^%s' % b, a, re.IGNORECASE)
+            return a.lower().startswith(b.lower())
         if op == 'iendswith':
-            return re.match('%s$' % b, a, re.IGNORECASE)
+            return a.lower().endswith(b.lower())
         if op == 'icontains':
-            return re.search('%s' % b, a, re.IGNORECASE)
+            return b.lower() in a.lower()
         if op == 'regex':
             return re.match(b, a)
 
@@ -136,21 +137,17 @@ class Filter(object):
             ks, ops, ops_negate = self.attrs_ops[k]
             o = get_descendant(obj, ks)
             if o is None:
-                # breaking the look we never go in the for/ELSE statement where
-                # an object is potentially yielded
+                # a missing value never meets a criteria
+                if self.anyOf:
+                    continue
                 test = False
                 break
-            elif ops and utils.is_mapping(o):
-                # check if it s not a child
-                for op in ops:
-                    o2 = get_descendant(o, op)
-                    if o2:
-                        o = o2
-                        ks.append(ops.pop(0))
-                    else:
-                        test = False
-                        break
-            ops = ops or ['eq']
+            # check if operators are not children
+            while ops and utils.is_mapping(o) and get_descendant(o, [ops[0]]) is not None:
+                o = get_descendant(o, [ops[0]])
+                ops = ops[1:]
+            if not ops or ops[-1] == 'size' or ops[-1].startswith('@'):
+                ops = ops + ['eq']
             v = _comparable(o)
             test2 = bool(_apply_ops_test(ops, ops_negate, v, v2))
             test = (test or test2) if self.anyOf else (test and test2)
diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 41b55db..e7dcd6f 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -671,7 +671,7 @@ def get_descendant(obj, key_list):
     except Exception as er:
         child = None
     return get_descendant(child, key_list[1:]) \
-        if child and len(key_list) > 1 else child
+        if child is not None and len(key_list) > 1 else child
 
 
 def topological_sort(data):
-- 
2.43.0


From 63e989b3ef30b8b49a1e6708661c516ed51288fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 36/93] fix: results of queries: ordering, distinct, reversed
 and last results, queries chained after being read, unions

---
 ngoschema/query.py | 81 +++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 26 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 554b203..0b33cc1 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -111,6 +111,47 @@ def _apply_ops_test(ops, negate, a, b):
     return not a if negate else a
 
 
+def _distinct(iterable):
+    """ iterate on the different objects of an iterable """
+    seen, seen_unhashable = set(), []
+    for obj in iterable:
+        comparable = _comparable(obj)
+        try:
+            if comparable in seen:
+                continue
+            seen.add(comparable)
+        except TypeError:
+            if comparable in seen_unhashable:
+                continue
+            seen_unhashable.append(comparable)
+        yield obj
+
+
+class _Replay(object):
+    """ iterable on the objects of an iterator, which can be iterated several times """
+
+    def __init__(self, iterator):
+        self._iterator = iterator
+        self._objs = []
+        self._error = None
+
+    def __iter__(self):
+        i = 0
+        while True:
+            if i == len(self._objs):
+                if self._error is not None:
+                    raise self._error
+                try:
+                    self._objs.append(next(self._iterator))
+                except StopIteration:
+                    return
+                except Exception as er:
+                    self._error = er
+                    raise
+            yield self._objs[i]
+            i += 1
+
+
 class Filter(object):
 
     def __init__(self,
@@ -218,7 +259,8 @@ class Query(object):
         :param reverse: boolean to reverse order
         :type reverse: boolean
         """
-        self._iterable = iterable
+        # an iterator can only be consumed once, while a query can be chained and read several times
+        self._iterable = _Replay(iterable) if iter(iterable) is iterable else iterable
         self._distinct = distinct
         self._order_by = order_by
         self._reverse = reverse
@@ -252,18 +294,8 @@ class Query(object):
                            negate=negate,
                            any_of=any_of,
                            **attrs_value)
-        seen = set()
-        for obj in iterable:
-            if not obj: # todo change to is None??
-                continue
-            if test_op(obj):
-                if distinct:
-                    comparable = _comparable(obj)
-                    if comparable not in seen:
-                        seen.add(comparable)
-                    else:
-                        continue
-                yield obj
+        objs = (obj for obj in iterable if obj is not None and test_op(obj))
+        return _distinct(objs) if distinct else objs
 
     @staticmethod
     def _filter_or_exclude__(iterable,
@@ -399,16 +431,15 @@ class Query(object):
     @property
     def result_cache(self):
         if self._result_cache is None:
-            self._result_cache = list(self._iterable)
-
+            res = list(_distinct(self._iterable) if self._distinct else self._iterable)
             ob = self._order_by
             if ob:
                 from .utils.utils import split_path
                 ks = split_path(ob) if isinstance(ob, str) else ob
-                self._result_cache = sorted(self._result_cache,
-                                            lambda x: get_descendant(x, ks))
+                res.sort(key=lambda x: get_descendant(x, ks))
             if self._reverse:
-                self._result_cache = reversed(self._result_cache)
+                res.reverse()
+            self._result_cache = res
         return self._result_cache
 
     def __getitem__(self, k):
@@ -433,24 +464,24 @@ class Query(object):
         return False
 
     def union(self, *others):
-        res = self.result_cache
+        res = list(self.result_cache)
         for o in others:
             res += o.result_cache
-        return Query(res, self._distinct, self._order_by)
+        return Query(res, self._distinct, self._order_by, self._reverse if self._order_by else False)
 
     def intersection(self, *others):
         res = self.result_cache
         for o in others:
             ores = o.result_cache
             res = [r for r in res if r in ores]
-        return Query(res, self._distinct, self._order_by)
+        return Query(res, self._distinct, self._order_by, self._reverse if self._order_by else False)
 
     def difference(self, *others):
         res = self.result_cache
         for o in others:
             ores = o.result_cache
             res = [r for r in res if r not in ores]
-        return Query(res, self._distinct, self._order_by)
+        return Query(res, self._distinct, self._order_by, self._reverse if self._order_by else False)
 
     def get(self, *attrs, **attrs_value):
         ret = list(Query._filter_or_exclude(self._iterable,
@@ -480,14 +511,12 @@ class Query(object):
 
     def last(self):
         try:
-            return self[-1]
+            return self.result_cache[-1]
         except IndexError:
             return None
 
     def reverse(self):
-        ret = self._chain()
-        ret._iterable = reversed(self.result_cache)
-        return ret
+        return Query(self.result_cache[::-1], self._distinct)
 
     def count(self):
         return len(self)
-- 
2.43.0


From 3868ca4144ce316acd8943a5d128a756889dbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 37/93] fix: contexts: maps added after a first use, last
 instance of a class

---
 ngoschema/utils/utils.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index e7dcd6f..762592c 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -95,18 +95,15 @@ class ReadOnlyChainMap(Mapping):
     def __str__(self):
         return str(self.merged)
 
-    _maps_flattened = None
     @property
     def maps_flattened(self):
-        if self._maps_flattened is None:
-            mf = []
-            for m in self._maps:
-                if isinstance(m, ReadOnlyChainMap):
-                    mf.extend(m.maps_flattened)
-                else:
-                    mf.append(m)
-            self._maps_flattened = mf
-        return self._maps_flattened
+        mf = []
+        for m in self._maps:
+            if isinstance(m, ReadOnlyChainMap):
+                mf.extend(m.maps_flattened)
+            else:
+                mf.append(m)
+        return mf
 
     @property
     def merged(self):
@@ -148,10 +145,8 @@ class Context(ReadOnlyChainMap):
         self._maps.append(mapping)
 
     def find_instance(self, cls, default=None, exclude=None, reverse=False):
-        gen = (m for m in self.maps if isinstance(m, cls) and m is not exclude)
-        if reverse:
-            gen = reversed(gen)
-        return next(gen, default)
+        maps = reversed(self.maps) if reverse else self.maps
+        return next((m for m in maps if isinstance(m, cls) and m is not exclude), default)
 
     def __hash__(self):
         return hash(repr(sorted(self.merged.items())))
-- 
2.43.0


From e379cc2716c49f670f759ebb7d97102fa60cb75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 38/93] fix: registries: items of weak registries, default of
 get

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 762592c..2321dde 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -242,7 +242,7 @@ class WeakRegistry(Registry):
 
     def __getitem__(self, key):
         # callv weak reference
-        return self._registry[key]()
+        return self._registry[key]
 
 
 class GenericClassRegistry(Registry):
@@ -262,7 +262,7 @@ class GenericClassRegistry(Registry):
         return f
 
     def get(self, id, default=None):
-        return self._registry.get(id)
+        return self._registry.get(id, default)
 
     def contains(self, id):
         return id in self._registry
-- 
2.43.0


From 68e47a0bd08d177eb48d0012044387d9d2b04331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 39/93] fix: utilities on collections: deletions on the fly,
 recursive filters, separator of nested items, empty last page

---
 ngoschema/utils/utils.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 2321dde..4b57b32 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -421,12 +421,21 @@ def apply_through_collection(coll, func, recursive=True, level=0, **func_kwargs)
     if not coll:
         return
     is_map = is_mapping(coll)
-    for i, k in enumerate(list(coll.keys()) if is_map else coll):
-        func(coll, k if is_map else i, level=level, **func_kwargs)
+    keys = list(coll.keys() if is_map else range(len(coll)))
+    deleted = 0
+    for k in keys:
+        if not is_map:
+            # the elements following a deleted one are shifted
+            k -= deleted
+            if k >= len(coll):
+                break
+        size = len(coll)
+        func(coll, k, level=level, **func_kwargs)
+        if not is_map and len(coll) < size:
+            deleted += size - len(coll)
+            continue
         if recursive:
-            v = coll.get(k) if is_map else (
-                coll[i] if i < len(coll) else
-                None)
+            v = coll.get(k) if is_map else coll[k]
             if is_mapping(v) or isinstance(v, list):
                 apply_through_collection(v, func, recursive, level=level+1, **func_kwargs)
 
@@ -444,14 +453,14 @@ def filter_collection(data,
 
     def _filter_keys(container, keys, keep=True):
         if is_mapping(container):
-            for k in keys.intersection(container.keys()):
-                if not keep:
+            for k in list(container.keys()):
+                if (k in keys) is not keep:
                     container.pop(k)
                 elif recursive:
-                    _filter_keys(container[k], keys, keep, recursive)
+                    _filter_keys(container[k], keys, keep)
         elif is_sequence(container):
             for v in container:
-                _filter_keys(v, keys, keep, recursive)
+                _filter_keys(v, keys, keep)
         return container
 
     if only or but:
@@ -469,7 +478,7 @@ def nested_dict_iter(nested, separator='.'):
     """
     for key, value in nested.items():
         if isinstance(value, collections.Mapping):
-            for inner_key, inner_value in nested_dict_iter(value):
+            for inner_key, inner_value in nested_dict_iter(value, separator):
                 yield f'{key}{separator}{inner_key}', inner_value
         else:
             yield key, value
@@ -508,7 +517,8 @@ def grouper( page_size, iterable ):
         if len(page) == page_size:
             yield page
             page= []
-    yield page
+    if page:
+        yield page
 
 
 @contextlib.contextmanager
-- 
2.43.0


From cd9a394e1f6ddd05f1a0856af4427e588b89bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 40/93] fix: restore the class of a casted instance on errors

---
 ngoschema/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 4b57b32..87c01e3 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -528,8 +528,10 @@ def casted_as(instance, cls):
     if cls not in instance_cls.__mro__:
         raise AttributeError("'%s' is not a parent of '%s'" % (cls, instance))
     instance.__class__ = cls
-    yield instance
-    instance.__class__ = instance_cls
+    try:
+        yield instance
+    finally:
+        instance.__class__ = instance_cls
 
 
 def class_casted_as(cls, other):
-- 
2.43.0


From b577249566e2b62f0e33cbf25610b588619277dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 41/93] fix: nested brackets

---
 ngoschema/utils/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 87c01e3..34db3a1 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -572,7 +572,7 @@ class Bracket:
         raise InvalidValue('unknown bracket type %s (only %s)' % (bracket, ''.join(brs)))
 
     def is_in(self, other):
-        return self._pos[0] < other._pos[0] and other._pos[1] > self._pos[1]
+        return other._pos[0] < self._pos[0] and self._pos[1] < other._pos[1]
 
     def content(self):
         return self._context[self._pos[0]+1 : self._pos[1]]
@@ -606,10 +606,10 @@ class Bracket:
 
     @staticmethod
     def find_nested_brackets(context, bracket='('):
-        all = Bracket.find_closed_brackets(context, bracket)
+        all = Bracket.find_brackets(context, bracket)
 
         def order_brackets(pos_brs):
-            reg = odict({pos_brs.pop(): odict()})
+            reg = odict()
             def do_order(pos, registry):
                 for k in set(registry):
                     if pos.is_in(k):
@@ -620,10 +620,7 @@ class Bracket:
             for pos in reversed(pos_brs):
                 do_order(pos, reg)
             def do_reverse(registry):
-                res = odict(reversed(list(registry.items())))
-                for r in res.values():
-                    do_reverse(r)
-                return res
+                return odict((k, do_reverse(r)) for k, r in reversed(list(registry.items())))
             return do_reverse(reg)
 
         return order_brackets(all)
-- 
2.43.0


From baf358e9647292dbbd7a52270e2ffa2f61ceba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 42/93] fix: indices in paths

---
 ngoschema/utils/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 34db3a1..2258a88 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -654,9 +654,12 @@ def split_path(path):
     """ return a path as a list of attributes and key, index"""
     paths = []
     for part in path.split('.'):
-        for key in part.split('['):
+        for i, key in enumerate(part.split('[')):
+            if not i and not key and '[' in part:
+                continue
+            index = i and re.match(r'^-?\d+\]$', key)
             key = key.strip('[]')
-            paths.append(int(key) if is_integer(key) else key)
+            paths.append(int(key) if index else key)
     return paths
 
 
-- 
2.43.0


From bc59b941ac24fc5a34279d5ff5fe3e7c6cc51ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 43/93] fix: topological sort does not change its input

---
 ngoschema/utils/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 2258a88..f7ded43 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -687,8 +687,7 @@ def topological_sort(data):
     from functools import reduce
     if not data:
         return {}
-    for k, v in data.items():
-        v.discard(k) # Ignore self dependencies
+    data = {k: set(v) - {k} for k, v in data.items()} # Ignore self dependencies
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     data.update({item: set() for item in extra_items_in_deps})
     while True:
-- 
2.43.0


From 6b3a972db53d1564c166d5bb37fcaf39687dc08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 44/93] fix: replacement of no string, format lazily several
 times

---
 ngoschema/utils/str_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index b040d99..ce93a48 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -135,12 +135,13 @@ class lazy_format(object):
         self.to_format = to_format
 
     def __str__(self):
+        args, kwargs = list(self.args), dict(self.kwargs)
         for a in self.to_format:
             if utils.is_integer(a):
-                self.args[a] = log_format(list(self.args)[a])
+                args[a] = log_format(args[a])
             else:
-                self.kwargs[a] = log_format(self.kwargs[a])
-        return self.fmt.format(*self.args, **self.kwargs)
+                kwargs[a] = log_format(kwargs[a])
+        return self.fmt.format(*args, **kwargs)
 
 
 def _multiple_replacer(replace_dict):
@@ -158,7 +159,7 @@ def multiple_replace(string, key_values):
     :type key_values: dict
     :rtype: str
     """
-    return _multiple_replacer(key_values)(string)
+    return _multiple_replacer(key_values)(string) if key_values else string
 
 
 @take_arrays(0)
-- 
2.43.0


From 3e01f061c3a100aa09d0901e14b8d00ad1e150db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:41 +0000
Subject: [PATCH 45/93] fix: documents are resolved as they are registered now,
 not as they were

---
 ngoschema/resolvers/uri_resolver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 1486102..e355e22 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -41,7 +41,6 @@ def domain_uri(name, domain=None):
     return "%s%s#" % (domain, clean_for_uri(name))
 
 
-@functools.lru_cache(128)
 def resolve_doc(uri_id, remote=False):
     uri, frag = urldefrag(uri_id)
     ret = UriResolver._doc_store.get(uri)
@@ -91,6 +90,8 @@ def relative_url(target, base):
 
 class UriResolver(RefResolver):
     _doc_store = UriDict()
+    # changes of the store
+    _doc_version = 0
 
     @staticmethod
     def get_doc_store():
@@ -98,6 +99,7 @@ class UriResolver(RefResolver):
 
     @staticmethod
     def unregister_doc(uri_id):
+        UriResolver._doc_version += 1
         try:
             del UriResolver._doc_store[uri_id]
         except KeyError:
@@ -105,6 +107,7 @@ class UriResolver(RefResolver):
 
     @staticmethod
     def register_doc(doc, uri_id):
+        UriResolver._doc_version += 1
         UriResolver._doc_store[uri_id] = doc
 
     def __init__(
-- 
2.43.0


From cd7275b1272add710da6b3fe288e2c33a51ea2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:41 +0000
Subject: [PATCH 46/93] fix: canonical names and ids of namespaces with a
 common prefix, of definitions, of names with special characters, and after
 changes of namespaces

---
 ngoschema/managers/namespace_manager.py | 101 +++++++++++++++---------
 1 file changed, 65 insertions(+), 36 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index e420217..5e77fc4 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -5,12 +5,12 @@ from __future__ import unicode_literals
 from urllib.parse import urlparse
 import inflection
 import re
-from collections import OrderedDict
+from collections import OrderedDict, Mapping
 from functools import lru_cache
 
 from .. import settings
-from ..utils import ReadOnlyChainMap as ChainMap, Registry
-from ngoschema.resolvers.uri_resolver import resolve_uri, UriResolver
+from ..utils import ReadOnlyChainMap as ChainMap, Registry, is_string
+from ngoschema.resolvers.uri_resolver import resolve_uri, scope, UriResolver
 
 CLEAN_JS_NAME_REGEX = re.compile(r"[^a-zA-z0-9\.\-_]+")
 MS_NETLOC = urlparse(settings.MS_DOMAIN).netloc
@@ -28,6 +28,22 @@ def clean_for_uri(name):
     return name.split(':')[-1].replace('_', '-')
 
 
+def _in_ns(name, ns):
+    """ a canonical name is in a namespace """
+    return name == ns or name.startswith(ns + '.')
+
+
+def _in_uri(uri, ns_uri):
+    """ an uri is in the document or definition of another uri """
+    if not uri.startswith(ns_uri):
+        return False
+    rest = uri[len(ns_uri):]
+    if not rest or rest[0] == '#' or ns_uri[-1:] in ('#', '/'):
+        return True
+    # the path of another document starts with the path of the namespace
+    return rest[0] == '/' and '#' not in rest
+
+
 class NamespaceManager(Registry):
     _current_ns = ''
     _current_ns_uri = '#'
@@ -46,7 +62,7 @@ class NamespaceManager(Registry):
         self._local[NamespaceManager._uri_to_cname(uri) if name is None else name] = uri
 
     def set_current(self, name):
-        ns_names = sorted([k for k in self._registry.keys() if name.startswith(k)])
+        ns_names = sorted([k for k in self._registry.keys() if not k or _in_ns(name, k)])
         assert ns_names, name
         cname = ns_names[-1]
         self._current_ns = cname
@@ -61,26 +77,24 @@ class NamespaceManager(Registry):
         return self._current_ns_uri
 
     def _find_ns_by_cname(self, cname):
-        reg = ChainMap(self._registry, self._builder_ns)
-        ns_names = sorted([c for c, u in reg.items() if cname.startswith(c+'.') or c == cname], reverse=True)
+        reg = ChainMap(self._registry, self._builder_ns, NamespaceManager.available_namespaces())
+        # the most qualified one
+        ns_names = sorted([c for c in reg if _in_ns(cname, c)], reverse=True)
         if ns_names:
             cn = ns_names[0]
             return cn, reg[cn]
-        for u in UriResolver._doc_store.keys():
-            c = NamespaceManager._uri_to_cname(u)
-            if cname.startswith(c+'.') or c == cname:
-                return c, u
         return None, None
 
     def _find_ns_by_uri(self, uri):
         reg = ChainMap(self._registry, self._builder_ns)
-        ns_names = sorted([c for c, u in reg.items() if uri.startswith(u)], reverse=True)
-        if ns_names:
-            cn = ns_names[0]
-            return cn, reg[cn]
+        # the most qualified one
+        found = max([(len(u), c) for c, u in reg.items() if _in_uri(uri, u)], default=None)
         uri_ns = uri.split('#')[0] if '#' in uri else uri
-        if uri_ns in UriResolver._doc_store.keys():
+        if (not found or found[0] < len(uri_ns)) and uri_ns in UriResolver._doc_store.keys():
             return NamespaceManager._uri_to_cname(uri_ns), uri_ns
+        if found:
+            cn = found[1]
+            return cn, reg[cn]
         return None, None
 
     def __contains__(self, item):
@@ -92,15 +106,16 @@ class NamespaceManager(Registry):
 
     def get_id_cname(self, ref, relative=False):
         rcn = self._current_ns
-        cname = self._get_id_cname(ref, rcn)
-        if relative and rcn and cname.startswith(rcn):
-            local_cn = cname[len(rcn):].split('.')
-            if local_cn and not local_cn[0]:
-                return '.'.join(local_cn[1:])
-            return rcn
+        cname = self._get_id_cname(scope(ref, self._current_ns_uri), rcn, self._state())
+        if relative and rcn and cname and _in_ns(cname, rcn):
+            return cname[len(rcn)+1:]
         return cname
 
-    def _get_id_cname_cached(self, ref, current_ns):
+    def _state(self):
+        """ what canonical names and ids depend on """
+        return self._current_ns_uri, tuple(self._registry.items()), len(self._builder_ns), UriResolver._doc_version
+
+    def _get_id_cname_cached(self, ref, current_ns, state=None):
         ns_cn, ns_uri = self._find_ns_by_uri(ref)
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         #ns_names = sorted([k for k, uri in ns.items() if ref.startswith(uri)], reverse=True)
@@ -109,8 +124,9 @@ class NamespaceManager(Registry):
         cn = ns_cn or current_ns
         frag = ref[len(ns_uri):] if ns_uri and ref.startswith(ns_uri) else ref
         #ns_uri, frag = urldefrag(ref)
+        frag = frag.strip('#')
         if frag:
-            f_cn = NamespaceManager._fragment_to_cname(frag.strip('#'))
+            f_cn = NamespaceManager._fragment_to_cname(frag)
             return f'{ns_cn}.{f_cn}' if ns_cn else f_cn
         return ns_cn
 
@@ -122,13 +138,13 @@ class NamespaceManager(Registry):
                 rcn.pop()
                 cname = cname[1:]
             cname = '.'.join(rcn + [cname])
-        id = self._get_cname_id(cname, self._current_ns)
+        id = self._get_cname_id(cname, self._current_ns, self._state())
         u = self._current_ns_uri.split('#')[0] + '#'
         if u and id.startswith(u):
             id = id[len(u.strip('#')):]
         return id
 
-    def _get_cname_id_cached(self, cname, current_ns):
+    def _get_cname_id_cached(self, cname, current_ns, state=None):
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         # iterate on namespace sorted from the longest to get the most qualified
         #ns_names = sorted([k for k, uri in ns.items() if cname.startswith(k+'.') or k == cname], reverse=True)
@@ -141,13 +157,10 @@ class NamespaceManager(Registry):
             cns = cns[1:]
         fragment_parts = []
         if fragment_cname:
-            if ns_uri in UriResolver._doc_store:
-                import dpath.util
-                doc = resolve_uri(ns_uri)
-                glob = ''.join(['/*/'+c for c in cns])
-                glob = glob.strip('/')
-                for x in dpath.util.search(doc, glob, yielded=True):
-                    return ns_uri + ('#/' if '#' not in ns_uri else '/') + x[0]
+            if ns_uri and ns_uri.split('#')[0] in UriResolver._doc_store:
+                parts = NamespaceManager._find_cname(resolve_uri(ns_uri), cns)
+                if parts:
+                    return ns_uri + ('#/' if '#' not in ns_uri else '/') + '/'.join(parts)
                 # not found: if namespace uri corresponds to local namespace, compute a path
                 #if ns_uri != ns.get(''):
                 #    raise InvalidValue(f"impossible to find '{cname}' in {ns_uri}.")
@@ -157,6 +170,22 @@ class NamespaceManager(Registry):
         ns_uri = ns_uri or self._find_ns_by_cname(current_ns)[1]
         return '/'.join([ns_uri + ('#' if '#' not in ns_uri else '')] + fragment_parts)
 
+    @staticmethod
+    def _find_cname(doc, cns):
+        """ find in a document the path of an element by the names of its ancestors, each one in a container as properties or definitions """
+        if not cns:
+            return []
+        if not isinstance(doc, Mapping):
+            return
+        containers = [(k, v) for k, v in doc.items() if isinstance(v, Mapping)]
+        for test in (lambda n: n == cns[0], lambda n: clean_js_name(n) == cns[0]):
+            for k, v in containers:
+                for n in v:
+                    if is_string(n) and test(n):
+                        parts = NamespaceManager._find_cname(v[n], cns[1:])
+                        if parts is not None:
+                            return [k, n] + parts
+
     @staticmethod
     def _fragment_to_cname(uri_fragment):
         fragments = uri_fragment.lstrip('/').split('/')
@@ -176,7 +205,7 @@ class NamespaceManager(Registry):
                 elif not p[0].isdigit():
                     cn.append(p.replace('-', '_'))
         ns_name = '.'.join(cn)
-        return ns_name + NamespaceManager._fragment_to_cname(u.fragment) if u.fragment else ns_name
+        return ns_name + '.' + NamespaceManager._fragment_to_cname(u.fragment) if u.fragment else ns_name
 
     @staticmethod
     def register_ns(uri, cname=None):
@@ -198,7 +227,7 @@ class NamespaceManager(Registry):
 
     def load(self, cname):
         from .type_builder import type_builder
-        return type_builder.load(self.get_cname_id(cname))
+        return type_builder.load(scope(self.get_cname_id(cname), self._current_ns_uri))
 
     def namespaces(self, contains=None):
         ns = ChainMap(self._registry, self._builder_ns, NamespaceManager.available_namespaces())
@@ -208,12 +237,12 @@ class NamespaceManager(Registry):
         return OrderedDict([(k, ns[k]) for k in sorted(nsk)])
 
     def get_cname_definitions(self, cname):
-        ns_uri = self.get_id_cname(cname)
+        ns_uri = scope(self.get_cname_id(cname), self._current_ns_uri)
         doc = resolve_uri(ns_uri)
         defs = {}
         for tag in ['$defs', 'definitions']:
             for k, v in doc.get(tag, {}).items():
-                defs[f'{cname}.{k}'] = f'{ns_uri}/{tag}/{k}'
+                defs[f'{cname}.{clean_js_name(k)}'] = f'{ns_uri}/{tag}/{k}'
         return defs
 
 
-- 
2.43.0


From 5b9adcfded24da6a3ba8ba7869ea1f71c1724ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 47/93] fix: load schemas identified by their title

---
 ngoschema/loaders/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/loaders/schemas.py b/ngoschema/loaders/schemas.py
index 9fd191b..c5f2f2f 100644
--- a/ngoschema/loaders/schemas.py
+++ b/ngoschema/loaders/schemas.py
@@ -38,7 +38,7 @@ def load_schema(schema, schemas_store=None):
     :type schemas_store: dict
     """
     from ngoschema.resolvers.uri_resolver import UriResolver
-    uri = _id_of(schema).rstrip('#')
+    uri = (_id_of(schema) or '').rstrip('#')
     if not uri and "title" in schema:
         uri = inflection.parameterize(six.text_type(schema["title"]), "_")
     if not uri:
-- 
2.43.0


From 9dbdb86e0954117d5b8a6158de88d8aa6a3641a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 48/93] fix: the parent instance was hidden by the class
 attribute, nested canonical names missed their parents

---
 ngoschema/contexts/instance_context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/contexts/instance_context.py b/ngoschema/contexts/instance_context.py
index f8c52d0..18f160f 100644
--- a/ngoschema/contexts/instance_context.py
+++ b/ngoschema/contexts/instance_context.py
@@ -11,7 +11,8 @@ class InstanceContext(ObjectProtocolContext):
     def set_context(self, context, **opts):
         from ..models.instances import Instance
         ObjectProtocolContext.set_context(self, context, **opts)
-        self._parentInstance = next((m for m in self._context.maps
-                                      if isinstance(m, Instance) and m is not self), None)
+        # the attribute of the class hides the property of the same name
+        self.__dict__['_parentInstance'] = next((m for m in self._context.maps
+                                                 if isinstance(m, Instance) and m is not self), None)
         if '_parentInstance' in self._properties:
             self._set_dataValidated('_parentInstance', self._parentInstance)
-- 
2.43.0


From 0e5a65bd86b707712df745bb2b45c0b301c6703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 49/93] fix: representing an object which declares its parent
 recursed endlessly

---
 ngoschema/protocols/object_protocol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index bfe3fe9..3544414 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -505,10 +505,14 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             ret.move_to_end('$schema', False)
         return ret
 
+    def _context_properties(self):
+        # the parents, which are themselves represented with this object
+        return [k for k in self._notSerialized if k.startswith('_')]
+
     def __repr__(self):
         if self._repr is None:
             m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True))
+            ks = list(self._print_order(self, self._data, excludes=self._context_properties(), no_defaults=True, no_readOnly=True))
             hidden = max(0, len(ks) - m)
             a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
@@ -518,7 +522,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __str__(self):
         if self._str is None:
             m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False))
+            ks = list(self._print_order(self, self._data, excludes=self._context_properties(), no_defaults=True, no_readOnly=False))
             hidden = max(0, len(ks) - m)
             a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
-- 
2.43.0


From edaccefc24f2008e8acff58bd0781a78c3b4fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 50/93] fix: canonical names and strings of instances were
 stale after a renaming

---
 ngoschema/models/instances.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index ca2e648..d53a53a 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -24,11 +24,10 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
     _id = "https://numengo.org/ngoschema#/$defs/instances/$defs/Instance"
 
     def __str__(self):
-        if self._str is None:
-            cn = self._canonicalName
-            a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
-            self._str = '<%s %s>' % (self.qualname(), ' '.join(a))
-        return self._str
+        # not kept, as it depends on the names of the parents
+        cn = self._canonicalName
+        a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
+        return '<%s %s>' % (self.qualname(), ' '.join(a))
 
     @depend_on_prop('name')
     def get_canonicalName(self):
@@ -37,6 +36,12 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
     def get_parentInstance(self):
         return self._parentInstance  # set in context
 
+    def _is_outdated(self, item):
+        # the canonical name depends on the names of the parents, which are not its inputs
+        if item == 'canonicalName' and self._dataValidated[item] != self._canonicalName:
+            return True
+        return super(Instance, self)._is_outdated(item)
+
     @property
     def _canonicalName(self):
         # one that does not trigger lazyloading
-- 
2.43.0


From 007ea6272136d12e3de07846eb9613cafcdacae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 51/93] fix: the root stopped at a parent without properties

---
 ngoschema/contexts/object_protocol_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/contexts/object_protocol_context.py b/ngoschema/contexts/object_protocol_context.py
index eb8f79a..3fbb8a6 100644
--- a/ngoschema/contexts/object_protocol_context.py
+++ b/ngoschema/contexts/object_protocol_context.py
@@ -19,5 +19,5 @@ class ObjectProtocolContext(NsManagerContext):
 
     @property
     def _root(self):
-        return self._parent._root if self._parent else self
+        return self._parent._root if self._parent is not None else self
 
-- 
2.43.0


From 4bf0e9b5ddd4bab0ad7de71e48c81a4529ee0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 52/93] fix: entity keys were looked for on the class instead
 of the serialized entity

---
 ngoschema/models/instances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index d53a53a..582be9e 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -104,9 +104,9 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
                 ik = value.identityKeys
                 return ik[0] if len(ik) == 1 else ik
             if use_entity_keys:
-                keys = self.primaryKeys
+                keys = value.primaryKeys
                 assert len(keys) == 1, keys
-                return {(keys[0] if keys[0] != '$id' else '$ref'): self.identityKeys[0]}
+                return {(keys[0] if keys[0] != '$id' else '$ref'): value.identityKeys[0]}
         data = ObjectProtocol._serialize(self, value, **opts)
         if add_identity_keys:
             for k in self._primaryKeys:
-- 
2.43.0


From 99b223427225e791d4f5cd3001d0938937bbf809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 53/93] fix: dependencies declared by depend_on_prop were
 ignored without the optional inspection package

---
 ngoschema/decorators.py                | 9 ++++++++-
 ngoschema/protocols/object_protocol.py | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 80bd467..7a85eef 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -275,7 +275,14 @@ def depend_on_prop(*prop_names):
     @wrapt.decorator
     def wrapper(wrapped, instance, args, kwargs):
         return wrapped(*args, **kwargs)
-    return wrapper
+
+    def to_decorate(wrapped):
+        decorated = wrapper(wrapped)
+        # recorded for the builder of properties
+        wrapt.FunctionWrapper.__setattr__(decorated, '_dependOnProps', prop_names + getattr(wrapped, '_dependOnProps', ()))
+        return decorated
+
+    return to_decorate
 
 
 class ClassPropertyDescriptor(object):
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 3544414..cf4215a 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -732,6 +732,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     fun = [getattr(b, fname) for b in bases if hasattr(b, fname)]
                     fun = None if not fun else fun[0]
                 if fun:
+                    dependencies[pname].update(getattr(fun, '_dependOnProps', ()))
                     insp = inspect_function(fun)
                     for d in insp.get('decorators', []):
                         if 'depend_on_prop' == d['name']:
-- 
2.43.0


From 74638257d82d87d3b31225b888d530561d47166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 54/93] fix: take_arrays called methods without their instance
 and mishandled second arrays of one element

---
 ngoschema/decorators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 7a85eef..1808032 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -51,9 +51,11 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                 # only first argument is an array
                 if (narg2 == -1 or not type(args[narg2]) in (list, set, tuple)
                         or len(args[narg2]) == 1):
+                    if narg2 != -1 and type(args[narg2]) in (list, set, tuple):
+                        new_args[narg2], = args[narg2]
                     for v in args[narg1]:
                         new_args[narg1] = v
-                        ret.append(wrapped(*new_args, **kwargs))
+                        ret.append(method(*new_args, **kwargs))
                 # both are list
                 else:
                     # same size - call with zipped values
@@ -61,15 +63,15 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                         for v1, v2 in zip(args[narg1], args[narg2]):
                             new_args[narg1] = v1
                             new_args[narg2] = v2
-                            ret.append(wrapped(*new_args, **kwargs))
+                            ret.append(method(*new_args, **kwargs))
                     # different size
                     else:
                         raise InvalidValue(
                             "arguments %s and %s must be of same size" %
                             (narg1, narg2))
             else:
-                # if the first one is not a string, ignore and call func
-                return wrapped(*args, **kwargs)
+                # if the first one is not an array, ignore and call func
+                return method(*args, **kwargs)
             if flatten:
                 return [item for sublist in ret for item in sublist]
             return ret
-- 
2.43.0


From 98ba6b186d0f83440bb11cc18a76306b904d22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 55/93] fix: assert_arg shifted its argument for false
 instances and failed for keyword-only ones

---
 ngoschema/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 1808032..b5069a2 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -139,7 +139,8 @@ def assert_arg(arg, typ, **schema):
             if not assert_args:
                 return wrapped(*args, **kwargs)
 
-            arg_i2 = arg_i if not instance and arg_i is not None else arg_i - 1
+            # the instance (or class) a method is bound to is not among its arguments
+            arg_i2 = arg_i - 1 if instance is not None and arg_i is not None else arg_i
             args = list(args)
             try:
                 if arg_s in kwargs:
-- 
2.43.0


From ba5041222f2a7e99d492df0fa919b95e0340b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 56/93] fix: log_exceptions failed on functions called without
 arguments

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index b5069a2..fdaebde 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -198,7 +198,7 @@ def log_exceptions(method, instance, args, kwargs):
     SHOULDN T BE USED FOR __init__, use log_init instead
     """
     # special case happening for getters/setters
-    if instance is None:
+    if instance is None and args:
         instance = args[0]
     try:
         if hasattr(instance, "_logger"):
-- 
2.43.0


From f14054459461ddc9862ae162829d0dee967fbf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 57/93] fix: memoized values of a base or of a copied instance
 were kept for another definition

---
 ngoschema/decorators.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index fdaebde..74925b3 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -330,7 +330,10 @@ class memoized_property(object):
     def __get__(self, obj, cls):
         if obj is None:
             return self
-        obj.__dict__[self.__name__] = result = self.fget(obj)
+        result = self.fget(obj)
+        # the value hides the property, what a base does (through super) is not to be stored
+        if getattr(type(obj), self.__name__, None) is self:
+            obj.__dict__[self.__name__] = result
         return result
 
     def _reset(self, obj):
@@ -345,15 +348,18 @@ def memoized_method(*lru_args, **lru_kwargs):
     def decorator(func):
         @functools.wraps(func)
         def wrapped_func(self, *args, **kwargs):
-            # We're storing the wrapped method inside the instance. If we had
-            # a strong reference to self the instance would never die.
-            self_weak = weakref.ref(self)
-            @functools.wraps(func)
-            @functools.lru_cache(*lru_args, **lru_kwargs)
-            def cached_method(*args, **kwargs):
-                return func(self_weak(), *args, **kwargs)
-            # can t use setattr as it conflicts with __setattr__ of protocol base
-            object.__setattr__(self, func.__name__, cached_method)
+            # We're storing the cached method inside the instance, each definition under its own key
+            # (a method and the one of the base it calls). If we had a strong reference to self the
+            # instance would never die. The copy of an instance has its own.
+            key = '_memoized_%s_%i' % (func.__name__, id(func))
+            owner, cached_method = self.__dict__.get(key, (None, None))
+            if owner is None or owner() is not self:
+                self_weak = weakref.ref(self)
+                @functools.wraps(func)
+                @functools.lru_cache(*lru_args, **lru_kwargs)
+                def cached_method(*args, **kwargs):
+                    return func(self_weak(), *args, **kwargs)
+                self.__dict__[key] = (self_weak, cached_method)
             return cached_method(*args, **kwargs)
         return wrapped_func
     return decorator
-- 
2.43.0


From 8838728171d8ba8d36b334c8965e6b620859e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 58/93] fix: the end of mixed texts and the spaces where long
 texts are cut were lost when parsing xml

---
 ngoschema/utils/xmltodict.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index 09c5764..35b10fd 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -17,6 +17,7 @@ except ImportError:  # pragma no cover
 
 from collections import OrderedDict
 from inspect import isgenerator
+from itertools import groupby
 
 __author__ = 'Martin Blech'
 __version__ = '0.12.0'
@@ -120,7 +121,7 @@ class _DictSAXHandler(object):
             item = self.item
             if item is None:
                 item = (None if not self.data
-                        else self.cdata_separator.join(self.data))
+                        else self.cdata_separator.join(d for d in self.data if d is not None))
 
             should_continue = self.item_callback(self.path, item)
             if not should_continue:
@@ -128,16 +129,17 @@ class _DictSAXHandler(object):
         if len(self.stack):
             text, tail = None, None
             data = self.data
-            #data = (None if not self.data
-            #        else self.cdata_separator.join(self.data))
             item = self.item
             self.item, self.data = self.stack.pop()
+            # the pieces of a text (comments and long texts are cut) are gathered
+            data = [self.cdata_separator.join(g) for is_end, g in groupby(data, lambda d: d is None) if not is_end]
             if self.strip_whitespace and data:
                 data = [d.strip() for d in data]
             if data:
+                # text until the first element, and all what follows
                 text = data[0]
                 if len(data) > 1:
-                    tail = data[1]
+                    tail = self.cdata_separator.join(data[1:])
                 if (text or tail) and self.force_cdata and item is None:
                     item = self.dict_constructor()
             if item is not None:
@@ -148,6 +150,8 @@ class _DictSAXHandler(object):
                     self.push_data(item, self.cdata_tail_key, tail)
             else:
                 self.item = self.push_data(self.item, name, self.cdata_separator.join(data))
+            # marks the end of an element in the text
+            self.data.append(None)
         else:
             self.item = None
             self.data = []
-- 
2.43.0


From acabe6bc41a28729d9b41ba70f94b1415919e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 59/93] fix: the text around the items of a streamed xml
 document leaked into them

---
 ngoschema/utils/xmltodict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index 35b10fd..c384fdf 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -114,6 +114,9 @@ class _DictSAXHandler(object):
                 attrs = None
             self.item = attrs or None
             self.data = []
+        else:
+            # the text of the enclosing elements is not part of an item
+            self.data = []
 
     def endElement(self, full_name):
         name = self._build_name(full_name)
-- 
2.43.0


From a534b912308b69e118d9460bcf46f7d4e0decfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:29 +0000
Subject: [PATCH 60/93] fix: a failed construction of a type made it a dead
 proxy for ever

---
 ngoschema/managers/type_builder.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 4ed9fbc..2587540 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -80,19 +80,22 @@ class TypeBuilder(GenericClassRegistry):
             return _False()
         attrs = attrs or {}
         self._on_construction[id] = (schema, bases, attrs)
-        if '$ref' in schema:
-            schema = schema.copy()
-            ref = schema.pop('$ref')
-            cls = self.load(scope(ref, id))
-            if schema:
-                cls = cls.extend_type(id, **schema)
-        elif 'object' in schema.get('type', ''):
-            cls = ObjectProtocol.build(id, schema, bases, attrs)
-        elif 'array' in schema.get('type', ''):
-            cls = ArrayProtocol.build(id, schema, bases, attrs)
-        else:
-            cls = TypeProtocol.build(id, schema, bases, attrs)()
-        self._on_construction.pop(id)
+        try:
+            if '$ref' in schema:
+                schema = schema.copy()
+                ref = schema.pop('$ref')
+                cls = self.load(scope(ref, id))
+                if schema:
+                    cls = cls.extend_type(id, **schema)
+            elif 'object' in schema.get('type', ''):
+                cls = ObjectProtocol.build(id, schema, bases, attrs)
+            elif 'array' in schema.get('type', ''):
+                cls = ArrayProtocol.build(id, schema, bases, attrs)
+            else:
+                cls = TypeProtocol.build(id, schema, bases, attrs)()
+        finally:
+            # also when it fails, or a proxy which never gets ready would be given afterwards
+            self._on_construction.pop(id)
         self._registry[id] = cls
         NamespaceManager.register_ns(id)
         return cls
-- 
2.43.0


From a033b5c987a6d33186c6270802ef994715006c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 61/93] fix: rules beside a reference were ignored or crashed
 the build

---
 ngoschema/managers/type_builder.py    | 11 +++++++++--
 ngoschema/protocols/array_protocol.py |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 2587540..52cf9c3 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -85,8 +85,15 @@ class TypeBuilder(GenericClassRegistry):
                 schema = schema.copy()
                 ref = schema.pop('$ref')
                 cls = self.load(scope(ref, id))
-                if schema:
-                    cls = cls.extend_type(id, **schema)
+                # the rules beside a reference apply too (a type being built can only be referenced)
+                is_class = isinstance(cls, type)
+                if schema and not (is_class and issubclass(cls, TypeProxy)):
+                    if is_class and issubclass(cls, ObjectProtocol):
+                        cls = ObjectProtocol.build(id, schema, (cls, ), attrs)
+                    elif is_class and issubclass(cls, ArrayProtocol):
+                        cls = ArrayProtocol.build(id, schema, (cls, ), attrs)
+                    else:
+                        cls = TypeProtocol.build(id, schema, (cls.__class__, ), attrs)()
             elif 'object' in schema.get('type', ''):
                 cls = ObjectProtocol.build(id, schema, bases, attrs)
             elif 'array' in schema.get('type', ''):
diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 8a078eb..5d8601b 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -9,7 +9,7 @@ import logging
 from ..types.array import Array, ArraySerializer, ArrayDeserializer
 from .collection_protocol import CollectionProtocol, TypeProtocol
 from ..types.constants import _True
-from ..utils import shorten
+from ..utils import shorten, ReadOnlyChainMap
 from ..managers.namespace_manager import default_ns_manager
 from .. import settings
 
@@ -146,7 +146,9 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
                 items = type_builder.build(f'{id}/items', items)
                 lz = lz or getattr(items, '_lazyLoading', None)
         else:
-            items = TRUE
+            items = next((b._items for b in bases if issubclass(b, ArrayProtocol)), TRUE)
+            items_list = Array.check(items, split_string=False)
+        schema = dict(ReadOnlyChainMap(schema, *[b._schema for b in bases if issubclass(b, ArrayProtocol)]))
         if not any([issubclass(b, ArrayProtocol) for b in bases]):
             bases = list(bases) + [ArrayProtocol]
         #if 'validate' in schema:
-- 
2.43.0


From f72a3463ba7600dca2592ef6f8fc3461e471c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:08 +0000
Subject: [PATCH 62/93] fix: a class took the property types of a former class
 of its name

---
 ngoschema/managers/type_builder.py   | 6 ++++++
 ngoschema/protocols/type_protocol.py | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 52cf9c3..103f286 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -115,6 +115,12 @@ class TypeBuilder(GenericClassRegistry):
             self._registry[id] = self.build(id)
         return self._registry[id]
 
+    def forget(self, id):
+        """Remove a type from the registry, with the types of the properties and items it declares"""
+        inner, defs = f'{id}/', f'{id}/$defs/'
+        for k in [k for k in self._registry if k == id or k.startswith(inner) and not k.startswith(defs)]:
+            del self._registry[k]
+
     def check_schema(self, schema):
         from jsonschema.exceptions import SchemaError
         for error in default_meta_validator.iter_errors(schema):
diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 18676cc..247221a 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -177,9 +177,13 @@ class SchemaMetaclass(type):
         id = id or clsname
         # remove previous entry in registry
         if id in type_builder._registry:
-            del type_builder._registry[id]
+            type_builder.forget(id)
         attrs['_clsname'] = clsname
-        return type_builder.build(id, schema, bases, attrs=attrs)
+        try:
+            return type_builder.build(id, schema, bases, attrs=attrs)
+        except Exception:
+            type_builder.forget(id)
+            raise
 
     def __subclasscheck__(cls, subclass):
         """Just modify the behavior for classes that aren't genuine subclasses."""
-- 
2.43.0


From b86c226922b0cf85523ee02a1434417758c5a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:07 +0000
Subject: [PATCH 63/93] fix: a class attribute gave no default to a property
 declared beside it

---
 ngoschema/protocols/object_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index cf4215a..38189fa 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -743,8 +743,10 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
         # add redefined properties to local properties and to schemas
         if extra_schema_properties:
-            local_properties.update({k: type_builder.build(f'{id}/properties/{k}', sch)
-                                     for k, sch in extra_schema_properties.items()})
+            for k, sch in extra_schema_properties.items():
+                # the type of the property as declared is replaced
+                type_builder.forget(f'{id}/properties/{k}')
+                local_properties[k] = type_builder.build(f'{id}/properties/{k}', sch)
             schema.setdefault('properties', {})
             schema['properties'].update(extra_schema_properties)
 
-- 
2.43.0


From 78dab0fbe5ff1abcb9a4bf80024f302ccb419d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:26 +0000
Subject: [PATCH 64/93] fix: an enumeration naming its type could not be built

---
 ngoschema/protocols/type_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 247221a..ea953a3 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -69,7 +69,7 @@ class TypeProtocol(Serializer):
         if 'type' in schema:
             extra_bases += (type_builder.get_type(schema['type']), )
         # filter bases to remove duplicates
-        extra_bases = tuple(b for b in extra_bases if not issubclass(b, bases))
+        extra_bases = tuple(b for i, b in enumerate(extra_bases) if not issubclass(b, bases) and b not in extra_bases[:i])
         if not bases and not extra_bases:
             extra_bases = (Type, )
         attrs['_schema'] = schema = dict(ReadOnlyChainMap(schema, *[b._schema for b in bases + extra_bases if hasattr(b, '_schema')]))
-- 
2.43.0


From e5fb36a89a845da030f2b7361ce47dafd8d2b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:18 +0000
Subject: [PATCH 65/93] fix: building a class modified the schema it was given

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 ngoschema/protocols/type_protocol.py   | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 38189fa..8055f07 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -558,6 +558,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             logging.warning(er)
             inspect_function = lambda x: {'arguments': []}
         attrs = attrs or {}
+        schema = dict(schema)
         cname = default_ns_manager.get_id_cname(id)
         clsname = attrs.pop('_clsname', None) or cname.split('.')[-1]
 
@@ -747,8 +748,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 # the type of the property as declared is replaced
                 type_builder.forget(f'{id}/properties/{k}')
                 local_properties[k] = type_builder.build(f'{id}/properties/{k}', sch)
-            schema.setdefault('properties', {})
-            schema['properties'].update(extra_schema_properties)
+            schema['properties'] = dict(schema.get('properties', {}), **extra_schema_properties)
 
         # create descriptors
         # go through local properties and create descriptors
diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index ea953a3..5b70dfd 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -172,7 +172,9 @@ class SchemaMetaclass(type):
         if not schema and id:
             schema = resolve_uri(id)
         elif bases:
-            schema['extends'] = [b._id for b in bases if hasattr(b, '_id')]
+            schema = dict(schema, extends=[b._id for b in bases if hasattr(b, '_id')])
+        # the schema given (or the document it comes from) is left as it is
+        schema = dict(schema)
         schema.setdefault('type', 'object')
         id = id or clsname
         # remove previous entry in registry
-- 
2.43.0


From 4270a59c74a6afd08b588762ad116a4629f81323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:10 +0000
Subject: [PATCH 66/93] fix: a class ignored its extends beside its bases and
 took bases by name

---
 ngoschema/protocols/object_protocol.py | 5 ++++-
 ngoschema/protocols/type_protocol.py   | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 8055f07..63e17d9 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -579,7 +579,10 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
         abstract = schema.get('abstract', False)
 
-        bases_extended = [type_builder.load(scope(e, id)) for e in schema.get('extends', [])]
+        # a base is the class given, even if another one took its id since
+        bases_ids = [b.__dict__.get('_id') for b in bases]
+        bases_extended = [scope(e, id) for e in schema.get('extends', [])]
+        bases_extended = [type_builder.load(e) for e in bases_extended if e not in bases_ids]
         bases_extended = [e for e in bases_extended if not any(issubclass(b, e) for b in bases)]
         pbases = [b for b in bases if issubclass(b, ObjectProtocol) and not any(issubclass(e, b) for e in bases_extended)]
         bases = [b for b in bases if not any(issubclass(e, b) for e in bases_extended)]
diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 5b70dfd..237773c 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -172,7 +172,8 @@ class SchemaMetaclass(type):
         if not schema and id:
             schema = resolve_uri(id)
         elif bases:
-            schema = dict(schema, extends=[b._id for b in bases if hasattr(b, '_id')])
+            extends = [b._id for b in bases if hasattr(b, '_id')]
+            schema = dict(schema, extends=extends + [e for e in schema.get('extends', []) if e not in extends])
         # the schema given (or the document it comes from) is left as it is
         schema = dict(schema)
         schema.setdefault('type', 'object')
-- 
2.43.0


From c9a67af45e39d520b135cd4f5729ee74366c1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:26 +0000
Subject: [PATCH 67/93] fix: types could not be built in any order when they
 refer to or extend each other

---
 ngoschema/managers/type_builder.py | 31 ++++++++++++++++++++++++++++--
 ngoschema/protocols/type_proxy.py  | 15 +++++++++++++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 103f286..1dd90ee 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -33,6 +33,7 @@ class TypeBuilder(GenericClassRegistry):
     _registry = {}
     _type_registry = {}
     _on_construction = {}
+    _postponed = {}
 
     def register_type(self, type):
         """Decorator to register a protocol based class """
@@ -72,6 +73,9 @@ class TypeBuilder(GenericClassRegistry):
         if id in self._on_construction:
             return TypeProxy.build(id)
             #return TypeProxy.build(id)()
+        postponed = self._postponed.pop(id, None)
+        if postponed and schema is None:
+            schema, bases, attrs = postponed
         if schema is None:
             schema = resolve_uri(id)
         if schema is True:
@@ -79,6 +83,10 @@ class TypeBuilder(GenericClassRegistry):
         if schema is False:
             return _False()
         attrs = attrs or {}
+        if self._extends_on_construction(id, schema, tuple(getattr(b, '_id', None) for b in bases)):
+            # it is built when it is first used, once the types it extends are ready
+            self._postponed[id] = (schema, bases, attrs)
+            return TypeProxy.build(id)
         self._on_construction[id] = (schema, bases, attrs)
         try:
             if '$ref' in schema:
@@ -112,8 +120,27 @@ class TypeBuilder(GenericClassRegistry):
         if id not in self._registry:
             if id in self._on_construction:
                 return TypeProxy.build(id)
-            self._registry[id] = self.build(id)
-        return self._registry[id]
+            cls = self.build(id)
+            if id in self._postponed:
+                return cls
+            self._registry[id] = cls
+        cls = self._registry[id]
+        if getattr(cls, '_proxyUri', None) and cls.proxy_type():
+            # a reference to a type which was being built
+            self._registry[id] = cls = cls.proxy_type()
+        return cls
+
+    def _extends_on_construction(self, id, schema, viewed=()):
+        """Detects if a schema extends, even indirectly, a type being built"""
+        for e in schema.get('extends', []):
+            e = scope(e, id)
+            if e in self._on_construction:
+                return True
+            if e not in self._registry and e not in viewed:
+                sch = self._postponed[e][0] if e in self._postponed else resolve_uri(e)
+                if self._extends_on_construction(e, sch, viewed + (e, )):
+                    return True
+        return False
 
     def forget(self, id):
         """Remove a type from the registry, with the types of the properties and items it declares"""
diff --git a/ngoschema/protocols/type_proxy.py b/ngoschema/protocols/type_proxy.py
index a3cebaa..2ee3e7f 100644
--- a/ngoschema/protocols/type_proxy.py
+++ b/ngoschema/protocols/type_proxy.py
@@ -2,6 +2,8 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+from ..exceptions import InvalidValue
+from ..resolvers.uri_resolver import resolve_uri, scope
 from .type_protocol import TypeProtocol
 
 
@@ -14,10 +16,17 @@ class TypeProxy(TypeProtocol):
         from ..managers.type_builder import type_builder
         from .object_protocol import ObjectProtocol
         from .array_protocol import ArrayProtocol
-        sch, bases, attrs = type_builder._on_construction[uri]
+        sch, bases, attrs = type_builder._postponed.get(uri) or type_builder._on_construction[uri]
         schema = schema or sch
         clsname = attrs.get('_clsname') or default_ns_manager.get_id_cname(uri)
-        protocol = {'object': ObjectProtocol, 'array': ArrayProtocol}.get(sch['type'], TypeProtocol)
+        # a reference is of the type of what it refers to
+        refs = [uri]
+        while '$ref' in sch:
+            refs.append(scope(sch['$ref'], refs[-1]))
+            if refs[-1] in refs[:-1]:
+                raise InvalidValue('Circular reference %s.' % ' -> '.join(refs))
+            sch = resolve_uri(refs[-1])
+        protocol = {'object': ObjectProtocol, 'array': ArrayProtocol}.get(sch.get('type'), TypeProtocol)
         #bases += (protocol, TypeProxy) if not issubclass(protocol, bases) else ()
         bases += (protocol, ) if not issubclass(protocol, bases) else ()
         attrs = {k: v for k, v in attrs.items() if not k.startswith('__')}
@@ -33,6 +42,8 @@ class TypeProxy(TypeProtocol):
     @classmethod
     def proxy_type(cls):
         from ..managers.type_builder import type_builder
+        if cls._proxyUri in type_builder._postponed and not type_builder._on_construction:
+            return type_builder.load(cls._proxyUri)
         return type_builder.get(cls._proxyUri)
 
     @classmethod
-- 
2.43.0


From 226c051e77449a4089ea33ff9d9cddacc1074778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:42 +0000
Subject: [PATCH 68/93] fix: a document could not be built by its id without
 fragment

---
 ngoschema/managers/type_builder.py   | 9 ++++++++-
 ngoschema/protocols/type_protocol.py | 4 ++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 1dd90ee..0a5c9ea 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -29,6 +29,11 @@ def untype_schema(schema):
     return schema
 
 
+def document_id(id):
+    """the id of a whole document, as its definitions refer to it"""
+    return f'{id}#' if '://' in id and '#' not in id else id
+
+
 class TypeBuilder(GenericClassRegistry):
     _registry = {}
     _type_registry = {}
@@ -68,6 +73,7 @@ class TypeBuilder(GenericClassRegistry):
         from ..protocols import TypeProtocol, ObjectProtocol, ArrayProtocol, TypeProxy
         from ..types.constants import _True, _False
 
+        id = document_id(id)
         if self.contains(id):
             return self.get(id)
         if id in self._on_construction:
@@ -117,6 +123,7 @@ class TypeBuilder(GenericClassRegistry):
 
     def load(self, id):
         from ..protocols import TypeProxy
+        id = document_id(id)
         if id not in self._registry:
             if id in self._on_construction:
                 return TypeProxy.build(id)
@@ -133,7 +140,7 @@ class TypeBuilder(GenericClassRegistry):
     def _extends_on_construction(self, id, schema, viewed=()):
         """Detects if a schema extends, even indirectly, a type being built"""
         for e in schema.get('extends', []):
-            e = scope(e, id)
+            e = document_id(scope(e, id))
             if e in self._on_construction:
                 return True
             if e not in self._registry and e not in viewed:
diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 237773c..8957b62 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -166,7 +166,7 @@ class SchemaMetaclass(type):
     """
 
     def __new__(cls, clsname, bases, attrs):
-        from ..managers.type_builder import type_builder
+        from ..managers.type_builder import type_builder, document_id
         schema = attrs.get('_schema', {})
         id = attrs.get('_id')
         if not schema and id:
@@ -177,7 +177,7 @@ class SchemaMetaclass(type):
         # the schema given (or the document it comes from) is left as it is
         schema = dict(schema)
         schema.setdefault('type', 'object')
-        id = id or clsname
+        id = document_id(id or clsname)
         # remove previous entry in registry
         if id in type_builder._registry:
             type_builder.forget(id)
-- 
2.43.0


From c17a950b78ff574f8a086ed578213e62b8b02991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:24 +0000
Subject: [PATCH 69/93] fix: rules and defaults beside a reference to a type
 being built were ignored

---
 ngoschema/managers/type_builder.py | 46 +++++++++++++++++-------------
 ngoschema/protocols/type_proxy.py  | 19 ++++++------
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 0a5c9ea..fd2787f 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -8,6 +8,7 @@ from collections import OrderedDict, Mapping
 from jsonschema.validators import extend
 from jsonschema.exceptions import UndefinedTypeCheck
 
+from ..exceptions import InvalidValue
 from ..utils import ReadOnlyChainMap, apply_through_collection, GenericClassRegistry
 from ngoschema.resolvers.uri_resolver import resolve_uri, scope
 from .jsch_validators import Draft201909Validator, default_meta_validator
@@ -89,7 +90,7 @@ class TypeBuilder(GenericClassRegistry):
         if schema is False:
             return _False()
         attrs = attrs or {}
-        if self._extends_on_construction(id, schema, tuple(getattr(b, '_id', None) for b in bases)):
+        if self._waits(id, schema, bases):
             # it is built when it is first used, once the types it extends are ready
             self._postponed[id] = (schema, bases, attrs)
             return TypeProxy.build(id)
@@ -99,15 +100,15 @@ class TypeBuilder(GenericClassRegistry):
                 schema = schema.copy()
                 ref = schema.pop('$ref')
                 cls = self.load(scope(ref, id))
-                # the rules beside a reference apply too (a type being built can only be referenced)
-                is_class = isinstance(cls, type)
-                if schema and not (is_class and issubclass(cls, TypeProxy)):
-                    if is_class and issubclass(cls, ObjectProtocol):
-                        cls = ObjectProtocol.build(id, schema, (cls, ), attrs)
-                    elif is_class and issubclass(cls, ArrayProtocol):
-                        cls = ArrayProtocol.build(id, schema, (cls, ), attrs)
-                    else:
-                        cls = TypeProtocol.build(id, schema, (cls.__class__, ), attrs)()
+                # the rules beside a reference apply too
+                if schema and isinstance(cls, type) and issubclass(cls, ObjectProtocol):
+                    base, cls = cls, ObjectProtocol.build(id, schema, (cls, ), attrs)
+                    if 'additionalProperties' not in schema:
+                        cls._propertiesAdditional = base._propertiesAdditional
+                elif schema and isinstance(cls, type) and issubclass(cls, ArrayProtocol):
+                    cls = ArrayProtocol.build(id, schema, (cls, ), attrs)
+                elif schema:
+                    cls = TypeProtocol.build(id, schema, (cls.__class__, ), attrs)()
             elif 'object' in schema.get('type', ''):
                 cls = ObjectProtocol.build(id, schema, bases, attrs)
             elif 'array' in schema.get('type', ''):
@@ -137,17 +138,22 @@ class TypeBuilder(GenericClassRegistry):
             self._registry[id] = cls = cls.proxy_type()
         return cls
 
-    def _extends_on_construction(self, id, schema, viewed=()):
-        """Detects if a schema extends, even indirectly, a type being built"""
-        for e in schema.get('extends', []):
+    def _waits(self, id, schema, bases=(), viewed=()):
+        """Detects if a schema is made, even indirectly, of a type being built"""
+        viewed = viewed + (id, )
+        given = [getattr(b, '_id', None) for b in bases]
+        waits = False
+        for e in [schema['$ref']] if '$ref' in schema else schema.get('extends', []):
             e = document_id(scope(e, id))
-            if e in self._on_construction:
-                return True
-            if e not in self._registry and e not in viewed:
-                sch = self._postponed[e][0] if e in self._postponed else resolve_uri(e)
-                if self._extends_on_construction(e, sch, viewed + (e, )):
-                    return True
-        return False
+            if e in self._registry or e in given:
+                continue
+            if e in viewed:
+                raise InvalidValue('%s is only made of itself.' % e)
+            waits = waits or e in self._on_construction
+            sch, bs, _ = self._on_construction.get(e) or self._postponed.get(e) or (resolve_uri(e), (), None)
+            if sch not in (True, False):
+                waits = self._waits(e, sch, bs, viewed) or waits
+        return waits
 
     def forget(self, id):
         """Remove a type from the registry, with the types of the properties and items it declares"""
diff --git a/ngoschema/protocols/type_proxy.py b/ngoschema/protocols/type_proxy.py
index 2ee3e7f..5f22153 100644
--- a/ngoschema/protocols/type_proxy.py
+++ b/ngoschema/protocols/type_proxy.py
@@ -2,7 +2,6 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
-from ..exceptions import InvalidValue
 from ..resolvers.uri_resolver import resolve_uri, scope
 from .type_protocol import TypeProtocol
 
@@ -20,12 +19,11 @@ class TypeProxy(TypeProtocol):
         schema = schema or sch
         clsname = attrs.get('_clsname') or default_ns_manager.get_id_cname(uri)
         # a reference is of the type of what it refers to
-        refs = [uri]
+        ref, default = uri, sch.get('default')
         while '$ref' in sch:
-            refs.append(scope(sch['$ref'], refs[-1]))
-            if refs[-1] in refs[:-1]:
-                raise InvalidValue('Circular reference %s.' % ' -> '.join(refs))
-            sch = resolve_uri(refs[-1])
+            ref = scope(sch['$ref'], ref)
+            sch = resolve_uri(ref)
+            default = sch.get('default') if default is None else default
         protocol = {'object': ObjectProtocol, 'array': ArrayProtocol}.get(sch.get('type'), TypeProtocol)
         #bases += (protocol, TypeProxy) if not issubclass(protocol, bases) else ()
         bases += (protocol, ) if not issubclass(protocol, bases) else ()
@@ -33,6 +31,8 @@ class TypeProxy(TypeProtocol):
         attrs['_proxyUri'] = uri
         attrs['_id'] = uri
         attrs['_schema'] = schema
+        if default is not None:
+            attrs['_default'] = default
         attrs['__doc__'] = 'reference to %s' % clsname
         return type(clsname, (TypeProxy, ) + bases, attrs)
 
@@ -52,9 +52,10 @@ class TypeProxy(TypeProtocol):
         return p and p.check(value, **opts)
 
     @classmethod
-    def has_default(cls):
-        p = cls.proxy_type()
-        return p and p.has_default()
+    def has_default(cls, value=None, **opts):
+        # before it is built, only its schema is known
+        p = cls.proxy_type() or cls
+        return p._has_default(p, value=value, **opts)
 
     @classmethod
     def convert(cls, value, **opts):
-- 
2.43.0


From c4d19952f4ebce10921f9c5aab7aece9e3ad32a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:54 +0000
Subject: [PATCH 70/93] fix: objects and arrays could not be hashed

---
 ngoschema/protocols/collection_protocol.py | 2 +-
 ngoschema/protocols/object_protocol.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 9edff83..732f6f8 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -232,5 +232,5 @@ class CollectionProtocol(Collection):
         return True
 
     def __hash__(self):
-        return hash(tuple(self._id, tuple((k, hash(v)) for k, v in enumerate(self._dataValidated))))
+        return hash(tuple(self))
 
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 63e17d9..70d5e59 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -269,7 +269,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 return False
         return True
 
-    __hash__ = CollectionProtocol.__hash__
+    def __hash__(self):
+        # equal objects have the same properties, in any order
+        return hash(frozenset(self.items()))
 
     __properties_raw_trans = None
     @classmethod
-- 
2.43.0


From 25c8121132f4e66b0bf6eeea8e1edc305d858478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:54 +0000
Subject: [PATCH 71/93] fix: copy.copy gave an object sharing its values with
 the original

---
 ngoschema/protocols/collection_protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 732f6f8..61bc47a 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -217,6 +217,10 @@ class CollectionProtocol(Collection):
     def copy(self):
         return self.create(self._data, context=self._context)
 
+    def __copy__(self):
+        # the containers of values are not shared with the copy
+        return self.copy()
+
     def __eq__(self, other):
         if other is None:
             return False
-- 
2.43.0


From 4f9d47a68e6838c00fe5786d8d6320a70323ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:54 +0000
Subject: [PATCH 72/93] fix: notValidated and notSerialized of a type applied
 to all the other types

---
 ngoschema/types/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index a097467..b574c06 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -56,8 +56,8 @@ class Collection(Type, CollectionSerializer):
     _items_type_cache = None
 
     def __init__(self, items=None, notValidated=None, notSerialized=None, **opts):
-        self._notValidated.update(notValidated or [])
-        self._notSerialized.update(notSerialized or [])
+        self._notValidated = self._notValidated.union(notValidated or [])
+        self._notSerialized = self._notSerialized.union(notSerialized or [])
         Type.__init__(self, **opts)
         self._items = items or self._items
 
-- 
2.43.0


From 68a40f4e5a8dedb193e9d101cd39af60881f6631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:54 +0000
Subject: [PATCH 73/93] fix: an Object type could not be built with
 patternProperties

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 666aa74..0e3288b 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -135,7 +135,7 @@ class Object(Collection, ObjectSerializer):
                                    for name, sch in properties.items()]))
             self._properties = ps
         if patternProperties:
-            pps = set(self.patternProperties)
+            pps = set(self._propertiesPattern)
             pps.update([(re.compile(k), type_builder.build(
                 f'{cls_name}/patternProperties/{k}', v)) for k, v in patternProperties.items()])
             self._propertiesPattern = pps
-- 
2.43.0


From 9333014f6d9a41928aaccb49dca5b1b8f18a6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:54 +0000
Subject: [PATCH 74/93] fix: a type could get the items of another one dropped
 before

---
 ngoschema/types/array.py      | 2 +-
 ngoschema/types/collection.py | 3 +++
 ngoschema/types/object.py     | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 19c2d16..2b56f9c 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -103,7 +103,7 @@ class Array(Collection, ArraySerializer):
     def __init__(self, items=None, **opts):
         # split the schema to isolate items schema and object schema
         from ..managers.type_builder import type_builder
-        cls_name = f'{self.__class__.__name__}_{id(self)}'
+        cls_name = f'{self.__class__.__name__}_{next(self._instance_counter)}'
         if isinstance(items, Mapping):
             self._items = type_builder.build(f'{cls_name}/items', items)
         elif isinstance(items, Sequence):
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index b574c06..c4be80c 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 from collections import defaultdict
+from itertools import count
 from operator import neg
 
 from ..utils import ReadOnlyChainMap as ChainMap
@@ -54,6 +55,8 @@ class Collection(Type, CollectionSerializer):
     _serializer = CollectionSerializer
 
     _items_type_cache = None
+    # to name the types of items: an id would be given again once the type is dropped
+    _instance_counter = count()
 
     def __init__(self, items=None, notValidated=None, notSerialized=None, **opts):
         self._notValidated = self._notValidated.union(notValidated or [])
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 0e3288b..aadec63 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -127,7 +127,7 @@ class Object(Collection, ObjectSerializer):
                  **opts):
         # split the schema to isolate properties schema and object schema
         Collection.__init__(self, **opts)
-        cls_name = f'{self.__class__.__name__}_{id(self)}'
+        cls_name = f'{self.__class__.__name__}_{next(self._instance_counter)}'
         if properties:
             ps = OrderedDict(self._properties)
             properties = untype_schema(properties)
-- 
2.43.0


From ba6cf4c7a681a103675e9b27f0c336ff05c27086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:54 +0000
Subject: [PATCH 75/93] fix: an Object type given an empty value took its
 options for properties

---
 ngoschema/types/object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index aadec63..f746fb7 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -146,7 +146,10 @@ class Object(Collection, ObjectSerializer):
         self._items_type_cache = {}
 
     def __call__(self, value=None, **opts):
-        value = value or opts  # to allow initialization by keywords
+        if value is None:
+            # to allow initialization by keywords
+            value = {k: v for k, v in opts.items() if k != 'context'}
+            opts = {k: v for k, v in opts.items() if k == 'context'}
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From 7b4eb318faf490003877af4fec37f9368e56e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:54 +0000
Subject: [PATCH 76/93] fix: the default did not apply to a lazily loaded
 property set to None

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 70d5e59..9729a9f 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -98,7 +98,8 @@ class PropertyDescriptor:
         saved = {d: dict(getattr(obj, d)) for d in ('_data', '_dataValidated', '_itemsInputs')}
         try:
             obj._set_data(key, value)
-            if not obj._lazyLoading:
+            # without value there is nothing to delay, and the default applies
+            if not obj._lazyLoading or value is None:
                 obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
                 iopts = {'validate': False} if key in obj._notValidated else {}
                 obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))
-- 
2.43.0


From bc9a593cf3b46025f0edb0d12c890f056afdca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:54 +0000
Subject: [PATCH 77/93] fix: the rules of a type given as the type of a
 property were lost

---
 ngoschema/managers/type_builder.py | 4 ++--
 ngoschema/types/object.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index fd2787f..a8b9ddf 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -22,9 +22,9 @@ def untype_schema(schema):
     schema = dict(schema)
     for k, v in list(schema.items()):
         if isinstance(v, TypeProtocol):
-            schema[k] = {'$ref': v._id} if hasattr(v, '_id') else v.repr_schema()
+            schema[k] = {'$ref': v._id} if hasattr(v, '_id') else v._repr_schema(v)
         elif isinstance(v, type) and issubclass(v, TypeProtocol):
-            schema[k] = {'$ref': v._id} if hasattr(v, '_id') else v.repr_schema()
+            schema[k] = {'$ref': v._id} if hasattr(v, '_id') else v._repr_schema(v)
         elif isinstance(v, Mapping):
             schema[k] = untype_schema(v)
     return schema
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index f746fb7..b984748 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -185,9 +185,9 @@ class Object(Collection, ObjectSerializer):
         if self._readOnly:
             sch_repr['readOnly'] = list(self._readOnly)
         if self._properties:
-            sch_repr['properties'] = {k: t.repr_schema() for k, t in self._properties.items()}
+            sch_repr['properties'] = {k: t._repr_schema(t) for k, t in self._properties.items()}
         if self._propertiesPattern:
-            sch_repr['patternProperties'] = {k: t.repr_schema() for k, t in list(self._propertiesPattern)}
+            sch_repr['patternProperties'] = {k: t._repr_schema(t) for k, t in list(self._propertiesPattern)}
         if not self._propertiesAdditional:
             sch_repr['additionalProperties'] = False
         return sch_repr
-- 
2.43.0


From a0f84f1a830f161c87b9558d434982a5ad830f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:54 +0000
Subject: [PATCH 78/93] fix: $schema was removed from the data given, which
 could not be used again

---
 ngoschema/protocols/object_protocol.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 9729a9f..fa35bbc 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -165,10 +165,12 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers import type_builder
         data = args[0] if args else kwargs
         if isinstance(data, Mapping) and data.get('$schema'):
-            s_id = Id.convert(scope(data.pop('$schema'), cls._id), **kwargs)
-            if s_id != cls._id:
-                cls = type_builder.load(s_id)
-                return cls(*args, **kwargs)
+            # the data are the caller's: the class is only read from them
+            s_id = Id.convert(scope(data['$schema'], cls._id), context=kwargs.get('context'))
+            named = cls if s_id == cls._id else type_builder.load(s_id)
+            if named is not cls:
+                # a subclass is initialised by the call which creates it
+                return named.__new__(named, *args, **kwargs) if issubclass(named, cls) else named(*args, **kwargs)
         return super(ObjectProtocol, cls).__new__(cls)
 
     @staticmethod
@@ -189,7 +191,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers.type_builder import type_builder
         #value = self._collType(value)
         if value.get('$schema'):
-            s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
+            s_id = Id.convert(scope(value['$schema'], self._id), **opts)
+            value = self._collType((k, v) for k, v in value.items() if k != '$schema')
             if s_id != self._id:
                 self = type_builder.load(s_id)
         return CollectionProtocol._convert(self, value, **opts)
-- 
2.43.0


From 64b46966ae42c791cdb49572546497e737200809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 79/93] fix: import symbols by their names: builtins, falsy
 attributes, values which are not names

---
 ngoschema/types/symbols.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 9eedeef..8c57703 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import builtins
 import logging
 import importlib
 import inspect
@@ -25,11 +26,11 @@ class Symbol(Primitive):
     """
     DOT = re.compile(r"\.")
     _pyType = None
-    _builtins = importlib.__builtins__
+    _builtins = vars(builtins)
 
     @staticmethod
     def _convert(self, value, **opts):
-        typed = self._builtins.get(value, value)
+        typed = self._builtins.get(value, value) if String.check(value) else value
         if String.check(typed):
             value = String.convert(typed, **opts)
             poss = [m.start() for m in Symbol.DOT.finditer("%s." % typed)]
@@ -42,7 +43,7 @@ class Symbol(Primitive):
                         if not a:
                             continue
                         ret = getattr(ret, a, None)
-                        if not ret:
+                        if ret is None:
                             raise ConversionError("%s is not an importable object" % value)
                     typed = ret
                     break
-- 
2.43.0


From 38e68ec57017a22b5c230d8d787acdeaed908c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 80/93] fix: compare and hash instances by what they hold, not
 by the objects they belong to

---
 ngoschema/protocols/object_protocol.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index fa35bbc..eb71a6f 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -260,14 +260,18 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __iter__(self):
         return iter(self._dataValidated.keys())
 
+    # set by the contexts, they tell where an object is and not what it holds
+    _contextProperties = frozenset(('_nsMgr', '_parent', '_parentInstance'))
+
     def __eq__(self, other):
         if other is self:
             return True
-        if not isinstance(other, Mapping) or len(self) != len(other):
+        if not isinstance(other, Mapping):
             return False
-        for k in self:
-            if k not in other:
-                return False
+        keys = set(self).difference(self._contextProperties)
+        if keys != set(other).difference(self._contextProperties):
+            return False
+        for k in keys:
             v1, v2 = self[k], other[k]
             if v1 is not v2 and v1 != v2:
                 return False
@@ -275,7 +279,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     def __hash__(self):
         # equal objects have the same properties, in any order
-        return hash(frozenset(self.items()))
+        return hash(frozenset((k, v) for k, v in self.items() if k not in self._contextProperties))
 
     __properties_raw_trans = None
     @classmethod
-- 
2.43.0


From b026c2d79c6501fc791a9c19363b9df69a1f84ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 81/93] fix: the scalar 0 given for an array was lost

---
 ngoschema/types/array.py      | 3 ++-
 ngoschema/types/collection.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 2b56f9c..694edcd 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -4,6 +4,7 @@ from __future__ import unicode_literals
 
 import copy
 from collections import Mapping, Sequence, deque, OrderedDict
+from numbers import Number as _Number
 
 from jsonschema._utils import uniq
 
@@ -115,7 +116,7 @@ class Array(Collection, ArraySerializer):
         Collection.__init__(self, **opts)
 
     def __call__(self, value=None, *values, **opts):
-        value = value or list(values)  # to allow initialization by varargs
+        value = value if value or isinstance(value, _Number) else list(values)  # to allow initialization by varargs
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index c4be80c..dae9d26 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -4,6 +4,7 @@ from __future__ import unicode_literals
 
 from collections import defaultdict
 from itertools import count
+from numbers import Number as _Number
 from operator import neg
 
 from ..utils import ReadOnlyChainMap as ChainMap
@@ -78,7 +79,7 @@ class Collection(Type, CollectionSerializer):
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
         # an empty array is a value, even when there is a default
-        value = value if value or isinstance(value, (list, tuple)) else self._default
+        value = value if value or isinstance(value, (list, tuple, _Number)) else self._default
         ret = self._deserializer._deserialize(self, value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
-- 
2.43.0


From 96da4108145a912618e2e4b9598ae5a2a9cfa9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 82/93] fix: the error of a key which is not resolved by a
 session raised another one

---
 ngoschema/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 3e33711..60b47f4 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -80,7 +80,7 @@ class Session(with_metaclass(SchemaMetaclass)):
             if keys in repo:
                 return repo.resolve_fkey(keys)
         else:
-            raise Exception("Impossible to resolve '%s'" % keys)
+            raise Exception("Impossible to resolve '%s'" % (keys, ))
 
     def query(self, *attrs, order_by=False, **attrs_value):
         """
-- 
2.43.0


From 67181066b7491687473ba924c9f2bbc8fe3a8e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 83/93] fix: a text foreign key with a comma was truncated

---
 ngoschema/types/foreign_key.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 9819e9a..df9c4bc 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -112,7 +112,8 @@ class ForeignKey(Ref):
                 return None
             value = [value]
         else:
-            value = Array.deserialize(value, split_string=True, **opts)
+            # the text of a single key is the key
+            value = Array.deserialize(value, split_string=len(self._foreignKeysType) > 1, **opts)
         opts['raw_literals'] = False
         fkt = self._foreignKeysType
         return fkt[0]._convert(fkt[0], value[0], **opts) if len(fkt)==1 else tuple(t._convert(t, v, **opts) for t, v in zip(fkt, value))
-- 
2.43.0


From 60840661ea924d9b9a0b8ef26890d8f1e4335688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 84/93] fix: foreign keys are resolved in the default session,
 in every repository of their class

---
 ngoschema/types/foreign_key.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index df9c4bc..7260f02 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -9,7 +9,7 @@ from .. import settings
 from ..exceptions import InvalidValue
 from ..decorators import assert_arg
 from ngoschema.resolvers.uri_resolver import resolve_uri
-from ..session import Session, scoped_session, session_maker
+from ..session import Session, default_session, scoped_session, session_maker
 from ..protocols import TypeProtocol, Resolver
 from ..managers.type_builder import register_type
 from .strings import String
@@ -153,14 +153,13 @@ class ForeignKey(Ref):
     @staticmethod
     @assert_arg(1, Tuple, strDelimiter=',')
     def _resolve(self, key, session=None, **opts):
-        session = session or scoped_session(session_maker())()
+        session = session or default_session
         ric = [r.instanceClass for r in session.repositories]
         fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, self._foreignClass)]
         for r in fc_repos:
             # change resolve_fkey to use resolve??
-            v = r.resolve_fkey(key)
-            if v is not None:
-                return v
+            if key in r:
+                return r.resolve_fkey(key)
         raise InvalidValue('impossible to resolve foreign key %s' % repr(key))
 
 
-- 
2.43.0


From 3f9efc254b5ef54644f5888f8ac32c2127693670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 85/93] fix: relationship pointers give and set the entity of a
 foreign key

---
 ngoschema/managers/relationship_builder.py | 8 +++++---
 ngoschema/protocols/object_protocol.py     | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ngoschema/managers/relationship_builder.py b/ngoschema/managers/relationship_builder.py
index 99590dd..cda5f24 100644
--- a/ngoschema/managers/relationship_builder.py
+++ b/ngoschema/managers/relationship_builder.py
@@ -23,11 +23,13 @@ class RelationshipDescriptor:
             return self
         fk = self.pname
         ik = obj[fk]
-        return obj.items_type(fk).resolve(ik, session=obj.session)
+        if ik is None:
+            return None
+        t = obj.items_type(fk)
+        return t._resolve(t, ik, session=obj.session)
 
     def __set__(self, obj, value):
-        obj[self.pname] = value._identityKeys
-        pass
+        obj[self.pname] = value if value is None else tuple(value.identityKeys)
 
 
 class RelationshipBuilder(GenericClassRegistry):
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index eb71a6f..cb721de 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -667,7 +667,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 for kbp, bp in bps.items():
                     local_relationships[kbp] = rl = relationship_builder.build(f'{id}/relationships/{kbp}', bp, attrs=ra)
                     #local_relationships[rn] = rl = RelationshipBuilder.build(f'{id}/relationships/{rn}', rs, attrs=ra)
-                    local_relationships_descriptor[kbp] = RelationshipDescriptor(kbp, rl)
+                    local_relationships_descriptor[kbp] = RelationshipDescriptor(k, rl)
 
         # add some magic on methods defined in class
         # exception handling, argument conversion/validation, dependencies, etc...
-- 
2.43.0


From 968e3f63b1e20b7ea5220f12b3c60214826807db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 86/93] fix: build an entity from its key in a session

---
 ngoschema/models/instances.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 582be9e..2fc52d0 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -63,21 +63,21 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
     _identityKeys = None
 
     def __new__(cls, *args, **kwargs):
-        if args and args[0] and not isinstance(args[0], Mapping):
+        if args and args[0] is not None and not isinstance(args[0], Mapping):
+            from ..session import default_session
             context = kwargs.get('context')
-            session = context._session if context else None
-            session = session or cls._session
-            inst = session.resolve_fkey(args, cls)
-            cls = inst.__class__
+            session = kwargs.get('session') or getattr(context, '_session', None) or default_session
+            inst = session.resolve_fkey(args[0], cls)
+            new = ObjectProtocol.__new__(inst.__class__, *args, **kwargs)
+            new._designated = inst
+            return new
         return ObjectProtocol.__new__(cls, *args, **kwargs)
 
     def __init__(self, value=None, primaryKeys=None, **opts):
         self._primaryKeys = primaryKeys or self._primaryKeys
-        if value and not isinstance(value, Mapping):
-            context = opts.get('context')
-            session = context._session if context else None
-            session = session or self._session
-            value = session.resolve_fkey(value, self.__class__)
+        if value is not None and not isinstance(value, Mapping):
+            # the entity designated by the key, found when the object was created
+            value = self.__dict__.pop('_designated')
         Instance.__init__(self, value, **opts)
         self.identityKeys
 
-- 
2.43.0


From 544df3df13a787263c3e15a5f096412acb36793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:25 +0000
Subject: [PATCH 87/93] fix: show the current content in the text of objects
 and arrays

---
 ngoschema/protocols/array_protocol.py      | 15 ++++-------
 ngoschema/protocols/collection_protocol.py |  8 ++----
 ngoschema/protocols/object_protocol.py     | 29 +++++++++-------------
 3 files changed, 19 insertions(+), 33 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 5d8601b..eca9fe1 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -41,7 +41,6 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         return cls(dft, **opts) if evaluate else dft
 
     def _touch(self):
-        CollectionProtocol._touch(self)
         self._dataValidated = [None] * len(self._data)
         self._itemsInputs = [{}] * len(self._data)
 
@@ -78,7 +77,6 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         self._itemsInputs.insert(item, {})
         self._dataValidated.insert(item, None)
         self._data.insert(item, value)
-        CollectionProtocol._touch(self)
         try:
             if not self._lazyLoading:
                 self._itemsInputs[item] = self._items_inputs_evaluate(item)
@@ -105,7 +103,6 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         # swapping items one by one creates temporary duplicates
         for d in (self._data, self._dataValidated, self._itemsInputs):
             d.reverse()
-        CollectionProtocol._touch(self)
 
     def _position(self, item):
         # the type of an item depends on its position from the start
@@ -114,13 +111,11 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         return item + len(self) if item < 0 else item
 
     def _str_list(self):
-        if self._str is None:
-            hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
-            a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
-                 for i, t in enumerate(self._items_types(self, self._data))
-                 if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
-            self._str = '[%s]' % (', '.join(a))
-        return self._str
+        hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
+        a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
+             for i, t in enumerate(self._items_types(self, self._data))
+             if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
+        return '[%s]' % (', '.join(a))
 
     def __repr__(self):
         return '%s(%s)' % (self.qualname(), ArrayProtocol._str_list(self))
diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 61bc47a..787daf6 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -30,8 +30,6 @@ class CollectionProtocol(Collection):
     _dataValidated = None
     _itemsInputs = None
     _items_type_cache = None
-    _repr = None
-    _str = None
     #_session = None
 
     def __init__(self, value=None, lazyLoading=None, items=None, validate=True, context=None, session=None, **opts):
@@ -87,12 +85,11 @@ class CollectionProtocol(Collection):
         excludes = list(self._notSerialized.union(excludes))
         return self._collection._serialize(self, value, excludes=excludes, **opts)
 
+    @abstractmethod
     def _touch(self):
-        self._repr = None
-        self._str = None
+        """allocate the storage of evaluated data, for the current data"""
 
     def _items_touch(self, item):
-        CollectionProtocol._touch(self)
         self._dataValidated[item] = None
         self._itemsInputs[item] = {}
         for d, s in self._dependencies.items():
@@ -147,7 +144,6 @@ class CollectionProtocol(Collection):
         saved = self._data[item], self._dataValidated[item], self._itemsInputs[item]
         self._dataValidated[item] = None
         self._data[item] = value
-        CollectionProtocol._touch(self)
         if not self._lazyLoading:
             try:
                 self._itemsInputs[item] = self._items_inputs_evaluate(item)
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index cb721de..8b951c7 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -247,7 +247,6 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         return CollectionProtocol._create_context(self, {'this': self}, self._dataValidated, self, *extra_contexts, **local)
 
     def _touch(self):
-        CollectionProtocol._touch(self)
         keys = list(self._data.keys())
         self._itemsInputs = {k: {} for k in keys}
         self._dataValidated = {k: None for k in keys}
@@ -520,24 +519,20 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         return [k for k in self._notSerialized if k.startswith('_')]
 
     def __repr__(self):
-        if self._repr is None:
-            m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, excludes=self._context_properties(), no_defaults=True, no_readOnly=True))
-            hidden = max(0, len(ks) - m)
-            a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
-            a += ['+%i...' % hidden] if hidden else []
-            self._repr = '%s(%s)' % (self.qualname(), ', '.join(a))
-        return self._repr
+        m = settings.PPRINT_MAX_EL
+        ks = list(self._print_order(self, self._data, excludes=self._context_properties(), no_defaults=True, no_readOnly=True))
+        hidden = max(0, len(ks) - m)
+        a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a += ['+%i...' % hidden] if hidden else []
+        return '%s(%s)' % (self.qualname(), ', '.join(a))
 
     def __str__(self):
-        if self._str is None:
-            m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, excludes=self._context_properties(), no_defaults=True, no_readOnly=False))
-            hidden = max(0, len(ks) - m)
-            a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
-            a += ['+%i...' % hidden] if hidden else []
-            self._str = '{%s}' % (', '.join(a))
-        return self._str
+        m = settings.PPRINT_MAX_EL
+        ks = list(self._print_order(self, self._data, excludes=self._context_properties(), no_defaults=True, no_readOnly=False))
+        hidden = max(0, len(ks) - m)
+        a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a += ['+%i...' % hidden] if hidden else []
+        return '{%s}' % (', '.join(a))
 
     @staticmethod
     def _items_type(self, item):
-- 
2.43.0


From fa63f0004a47752f8c89ddcc7708785815ff5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:25 +0000
Subject: [PATCH 88/93] fix: detect changes made inside the collections a value
 is computed from

---
 ngoschema/protocols/collection_protocol.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 787daf6..e9d2a79 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import inspect
 import logging
 from abc import abstractmethod
 from operator import neg
@@ -21,6 +22,23 @@ from .type_protocol import TypeProtocol
 LAZY_LOADING = settings.DEFAULT_COLLECTION_LAZY_LOADING
 
 
+def _snapshot(value, parents=()):
+    """state of an input: collections are modified in place, hold their data to detect it"""
+    if isinstance(value, CollectionProtocol):
+        value = value._data
+    if id(value) in parents:
+        return None
+    parents += (id(value),)
+    if isinstance(value, dict):
+        return {k: _snapshot(v, parents) for k, v in value.items()}
+    if isinstance(value, list):
+        return [_snapshot(v, parents) for v in value]
+    if inspect.ismethod(value):
+        # method of an object called in an expression
+        return value.__func__, _snapshot(value.__self__, parents)
+    return value
+
+
 class CollectionProtocol(Collection):
     _lazyLoading = LAZY_LOADING
     _collection = None
@@ -102,14 +120,14 @@ class CollectionProtocol(Collection):
         # treat dependencies
         for k in self._dependencies.get(item, []):
             try:
-                ret[k] = self[k]
+                ret[k] = _snapshot(self[k])
             except Exception as er:
                 self._logger.error(er, exc_info=True)
         # treat data
         if t.is_primitive() and not t._rawLiterals:
             for k in t._inputs(t, self._data[item]):
                 try:
-                    ret[k] = self[k]
+                    ret[k] = _snapshot(self[k])
                 except Exception as er:
                     self._logger.error(er, exc_info=True)
         return ret
-- 
2.43.0


From 95654521bd51367d863d255d14b71fc86fbb7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:08 +0000
Subject: [PATCH 89/93] fix: find templates in every folder a module registered

---
 ngoschema/utils/jinja2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index c0ab818..24bedbc 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -229,8 +229,8 @@ class ModulePrefixedJinja2Environment(jinja2.Environment):
 
     def update_loader(self):
         from ..loaders import templates_module_loader
+        # a module can register several folders, the first one having the template gives it
         self.loader.mapping = {
-            mname: jinja2.PackageLoader(mname, path.name)
+            mname: jinja2.FileSystemLoader([str(path) for path in paths])
             for mname, paths in templates_module_loader.items()
-            for path in paths
         }
-- 
2.43.0


From 1edd58f6d74856693ef4653c8cbaa6deae78c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:08 +0000
Subject: [PATCH 90/93] fix: a pointer can have its separators quoted

---
 ngoschema/resolvers/uri_resolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index e355e22..a271035 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -55,8 +55,8 @@ def resolve_doc(uri_id, remote=False):
 
 
 def resolve_fragment(doc, fragment):
-    fragment = fragment.lstrip(u'/')
-    parts = unquote(fragment).split(u"/") if fragment else []
+    fragment = unquote(fragment).lstrip(u'/')
+    parts = fragment.split(u"/") if fragment else []
     for i, part in enumerate(parts):
         try:
             part = part.replace(u"~1", u"/").replace(u"~0", u"~")
-- 
2.43.0


From f07cbccec3cbc1224d6bcd929c1573a9cc2f2802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:30 +0000
Subject: [PATCH 91/93] fix: show the current keys in the text of an entity

---
 ngoschema/models/instances.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 2fc52d0..569e139 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -82,10 +82,8 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
         self.identityKeys
 
     def __str__(self):
-        if self._str is None:
-            ks = [str(k) for k in self._identityKeys]
-            self._str = '<%s %s>' % (self.qualname(), ', '.join(ks))
-        return self._str
+        ks = [str(k) for k in self.identityKeys]
+        return '<%s %s>' % (self.qualname(), ', '.join(ks))
 
     def get_primaryKeys(self):
         return self._primaryKeys
-- 
2.43.0


From 5c0cc49173f2808aad8f54bb7a8ce696fd8897dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:30 +0000
Subject: [PATCH 92/93] fix: keep the dependencies of a class which is also a
 serializer

---
 ngoschema/types/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index dae9d26..9c6deb1 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -21,7 +21,7 @@ class CollectionDeserializer(Deserializer):
     def __init__(self, collType=None, dependencies=None, **opts):
         Deserializer.__init__(self, **opts)
         self._collType = collType or self._collType
-        self._dependencies = defaultdict(list, dependencies or {})
+        self._dependencies = defaultdict(list, dependencies or self._dependencies)
 
     @staticmethod
     def _call_order(self, value, **opts):
-- 
2.43.0


From 0850a4f0cc198f6b611fba14a7c62fa3084eaf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:30 +0000
Subject: [PATCH 93/93] fix: write files in the charset and mode asked for

---
 ngoschema/protocols/file_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 43ab0da..e08ccce 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -106,13 +106,13 @@ class FileSaver(Saver, FileLoader):
     @assert_arg(2, Path)
     def _write_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
+        binary = opts.get('binary', self._binary)
         mode = 'wb' if binary else 'w'
         if not filepath.parent.exists():
             self._logger.info("creating missing directory '%s'", file_link_format(filepath.parent))
             os.makedirs(str(filepath.parent))
         if filepath.exists():
-            content = self.read_file(filepath)
+            content = self.read_file(filepath, **opts)
             if value == content:
                 self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(filepath))
                 return value
@@ -123,7 +123,7 @@ class FileSaver(Saver, FileLoader):
     @assert_arg(2, PathFileExists)
     def _append_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
+        binary = opts.get('binary', self._binary)
         mode = 'ab' if binary else 'a'
         with self._open_file(self, filepath, mode=mode, **opts) as f:
             return f.write(value)
-- 
2.43.0

