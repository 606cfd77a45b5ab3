import sys
sys.path.insert(0, '/verif/tools')
from seeds_b1 import PRE
OP='ngoschema/protocols/object_protocol.py'
MO='ngoschema/loaders/module.py'
PK='''
import os, tempfile, importlib
d = tempfile.mkdtemp()
sys.path.insert(0, d)
def write(path, text):
    path = os.path.join(d, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
'''
SEEDS = [
 dict(id='s41-file-of-another-module', property='C24', edits=[(MO, "                return PathList(*self._registry[module]).pick_first(path)\n", "                found = PathList(*self._registry[module]).pick_first(path)\n                if found:\n                    return found\n                name = path\n")],
   needs='a file missing in the module it is asked of, which another registered module has', breaks='the file of the other module is given',
   demo=PRE+PK+'''
for m in ("demo_p", "demo_q"):
    write(m + "/__init__.py", "")
    write(m + "/stuff/%s.txt" % m, "x")
from ngoschema.loaders.module import GenericModuleFileLoader
l = GenericModuleFileLoader("stuff")
l.register("demo_p"); l.register("demo_q")
check(str(l.find_one("demo_q/demo_q.txt")).endswith("demo_q.txt") and l.find_one("demo_p/demo_q.txt") is None, l.find_one("demo_p/demo_q.txt"))
'''),
 dict(id='s42-document-not-replaced', property='C24', edits=[('ngoschema/loaders/schemas.py', "    UriResolver.register_doc(schema, uri)\n", "    if uri not in UriResolver.get_doc_store():\n        UriResolver.register_doc(schema, uri)\n")],
   needs='a document loaded again under the same name, with another content', breaks='its former content is still resolved',
   demo=PRE+'''
from ngoschema.loaders.schemas import load_schema
from ngoschema.resolvers.uri_resolver import resolve_uri
load_schema({"$id": "https://demo.org/r", "v": 1}); load_schema({"$id": "https://demo.org/r", "v": 2})
check(resolve_uri("https://demo.org/r#/v") == 2, resolve_uri("https://demo.org/r#/v"))
'''),
 dict(id='s43-shorten-exact', property='C23', edits=[('ngoschema/utils/str_utils.py', "    if len(s) > max_size:\n        return s[:max_size] + '...'\n    return s\n", "    if len(s) >= max_size:\n        return s[:max_size] + '...'\n    return s\n")],
   needs='a value whose text has exactly the maximal length', breaks='it is shown complete and followed by ..., as if it were longer',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"s": {"type": "string"}}})
check(str(K(s="x" * 38)) == "{s: '%s'}" % ("x" * 38), str(K(s="x" * 38)))
'''),
 dict(id='s45-dependencies-redefined', property='C04', edits=[(OP, "            for k, v in getattr(b, '_dependencies', {}).items():\n                dependencies[k].update(set(v))\n", "            for k, v in getattr(b, '_dependencies', {}).items():\n                dependencies.setdefault(k, set(v))\n")],
   needs='a subclass declaring one more dependency of an inherited computed property', breaks='the dependencies of the base are forgotten, and the property stays stale when they change',
   demo=PRE+'''
INT = {"type": "integer"}
A = mk({"type": "object", "properties": {"a": INT, "b": INT, "g": INT}, "dependencies": {"g": ["a"]}}, (), get_g=lambda self: self.a + (self.b or 0))
B = SchemaMetaclass("DemoB", (A,), {"_schema": {"type": "object", "dependencies": {"g": ["b"]}}})
o = B(a=1, b=2)
check(o.g == 3, o.g)
o.b = 5
check(o.g == 6, o.g)
o.a = 10
check(o.g == 15, o.g)
'''),
 dict(id='s46-keys-of-one-base', property='C26', edits=[(OP, "                primary_keys += [k for k in getattr(b, '_primaryKeys', []) if k not in primary_keys]\n", "                primary_keys = primary_keys or list(getattr(b, '_primaryKeys', []))\n")],
   needs='an entity class with two entity bases having different keys', breaks='its identity keys are those of its first base only',
   demo=PRE+'''
from ngoschema.models.instances import Entity
INT = {"type": "integer"}
A = SchemaMetaclass("A", (Entity,), {"_schema": {"type": "object", "primaryKeys": ["i"], "properties": {"i": INT}}, "_id": "https://demo.org/k#/$defs/A"})
B = SchemaMetaclass("B", (Entity,), {"_schema": {"type": "object", "primaryKeys": ["j"], "properties": {"j": INT}}, "_id": "https://demo.org/k#/$defs/B"})
C = SchemaMetaclass("C", (A, B), {"_schema": {"type": "object"}, "_id": "https://demo.org/k#/$defs/C"})
c = C(i=1, j=2)
check(tuple(c.identityKeys) == (1, 2), c.identityKeys)
'''),
 dict(id='s47-relation-of-one-base', property='C08', edits=[(OP, "        has_default = set().union(*[b._propertiesWithDefault for b in pbases])\n", "        has_default = set().union(*[b._propertiesWithDefault for b in pbases[:1]])\n")],
   needs='an object of a class with two bases, whose second one has properties with defaults', breaks='the defaults of the second base are not applied',
   demo=PRE+'''
INT = {"type": "integer"}
A = mk({"type": "object", "properties": {"a": {"type": "integer", "default": 1}}})
B = mk({"type": "object", "properties": {"b": {"type": "integer", "default": 2}}})
C = SchemaMetaclass("DemoC", (A, B), {"_schema": {"type": "object"}})
c = C()
check((c.a, c.b) == (1, 2) and dict(c.do_serialize(no_defaults=False)) == {"a": 1, "b": 2} and "b" in list(c), dict(c.do_serialize(no_defaults=False)))
'''),
]
