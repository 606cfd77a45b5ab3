import sys
sys.path.insert(0, '/verif/tools')
from seeds_b1 import PRE
CP='ngoschema/protocols/collection_protocol.py'
OP='ngoschema/protocols/object_protocol.py'
MR='ngoschema/repositories/memory_repository.py'
SY='ngoschema/types/symbols.py'
FK='ngoschema/types/foreign_key.py'
ENT='''
from ngoschema.models.instances import Entity
from ngoschema.repositories import MemoryRepository
from ngoschema.session import session_maker
INT = {"type": "integer"}
E = SchemaMetaclass("E", (Entity,), {"_schema": {"type": "object", "primaryKeys": ["id"], "properties": {"id": INT, "v": INT}}, "_id": "https://demo.org/d#/$defs/E"})
F = SchemaMetaclass("F", (E,), {"_schema": {"type": "object", "properties": {"w": INT}}, "_id": "https://demo.org/d#/$defs/F"})
s = session_maker()()
'''
SEEDS = [
 dict(id='s34-schema-same-fragment', property='C09', edits=[(OP, "        if isinstance(value, ObjectProtocol) and value._id != self._id:\n", "        if isinstance(value, ObjectProtocol) and value._id.split('#')[-1] != self._id.split('#')[-1]:\n")],
   needs='an object of a subclass of the declared class with the same name in another document', breaks='its serialization does not name its class, which is lost when it is loaded back',
   demo=PRE+'''
from ngoschema.loaders.schemas import load_schema
from ngoschema.managers import type_builder
load_schema({"$id": "https://demo.org/h1", "$defs": {"A": {"type": "object", "properties": {"i": {"type": "integer"}}}, "H": {"type": "object", "properties": {"a": {"$ref": "#/$defs/A"}}}}})
load_schema({"$id": "https://demo.org/h2", "$defs": {"A": {"type": "object", "extends": ["https://demo.org/h1#/$defs/A"], "properties": {"j": {"type": "integer"}}}}})
H = type_builder.load("https://demo.org/h1#/$defs/H")
B = type_builder.load("https://demo.org/h2#/$defs/A")
h = H({"a": {"$schema": "https://demo.org/h2#/$defs/A", "i": 1, "j": "2"}})
check(type(h.a) is B and h.a.j == 2, type(h.a))
check(type(H(h.do_serialize()).a) is B, h.do_serialize())
'''),
 dict(id='s35-repository-next-key', property='C20', edits=[(MR, "                    k = max([-1] + iks) + 1\n", "                    k = len(iks)\n")],
   needs='an entity without key committed after keys which are not the first integers', breaks='the key given is already held, and the entity which had it is replaced',
   demo=PRE+ENT+'''
r = MemoryRepository(instanceClass=E, many=True, meta_opts={"session": s})
a, b = E({"id": 1}), E({"v": 2})
r.commit(a); r.commit(b)
check(b.id == 2 and r.resolve_fkey((1,)) is a and r.resolve_fkey((2,)) is b, (a.id, b.id))
'''),
 dict(id='s36-session-exact-class', property='C20', edits=[('ngoschema/session.py', "if issubclass(r.instanceClass, object_class)]:\n            if keys in repo:", "if r.instanceClass is object_class]:\n            if keys in repo:")],
   needs='an entity of a subclass committed in the repository of the subclass, and asked by the base class', breaks='it is not found',
   demo=PRE+ENT+'''
r, rf = [MemoryRepository(instanceClass=k, many=True, meta_opts={"session": s}) for k in (E, F)]
f = F({"id": 3, "w": 4})
r.commit(E({"id": 1})); rf.commit(f)
check(not rejected(s.resolve_fkey, 3, E) and s.resolve_fkey(3, E) is f, "not found by the base class")
'''),
 dict(id='s37-fkey-of-initial-keys', property='C20', edits=[(FK, "            value = [getattr(value, k) for k in self._foreignKeys]\n        elif Integer.check(value):\n", "            value = value._identityKeys or [getattr(value, k) for k in self._foreignKeys]\n        elif Integer.check(value):\n")],
   needs='an entity whose key was changed after its creation, given for a foreign key', breaks='the foreign key holds the key the entity had at first',
   demo=PRE+ENT+'''
H = mk({"type": "object", "properties": {"e": {"type": "foreignKey", "foreignKey": {"foreignSchema": "https://demo.org/d#/$defs/E"}}}})
e = E({"id": 1})
check(H(e=e).e == 1, "first")
e.id = 5
check(H(e=e).e == 5, "key of an entity after its change: %s" % H(e=e).e)
'''),
 dict(id='s38-symbol-nested-name', property='C22', edits=[(SY, "                    value = '%s.%s' % (m, qualname(value)) if m else qualname(value)\n", "                    value = '%s.%s' % (m, value.__name__) if m else qualname(value)\n")],
   needs='a class or function defined in a class', breaks='it is serialized under a name which does not import it',
   demo=PRE+'''
import sys, types
m = types.ModuleType("demomod"); sys.modules["demomod"] = m
exec("class A:\\n    class B:\\n        pass\\n", m.__dict__)
K = mk({"type": "object", "properties": {"s": {"type": "class"}}})
k = K(s="demomod.A.B")
check(k.s is m.A.B, k.s)
check(not rejected(K, k.do_serialize()) and K(k.do_serialize()).s is m.A.B, k.do_serialize())
'''),
 dict(id='s39-symbol-missing-attribute', property='C22', edits=[(SY, "                        ret = getattr(ret, a, None)\n", "                        ret = getattr(ret, a, getattr(ret, '__wrapped__', None))\n")],
   needs='the name of an attribute missing on a decorated function', breaks='it imports the function which was decorated',
   demo=PRE+'''
import sys, types, functools
m = types.ModuleType("demomod"); sys.modules["demomod"] = m
def f(): pass
@functools.wraps(f)
def g(): pass
m.g = g
K = mk({"type": "object", "properties": {"s": {"type": "function"}}})
check(K(s="demomod.g").s is g, "g")
check(rejected(K, {"s": "demomod.g.nosuch"}), "a name of nothing is imported")
'''),
 dict(id='s40-symbol-truthy-serialized', property='C22', edits=[(SY, "        if value:\n            if not String.check(value):\n", "        if isinstance(value, type) or value:\n            if not String.check(value):\n                value = getattr(value, '__wrapped__', value)\n")],
   needs='a decorated function', breaks='it is serialized under the name of the function it wraps',
   demo=PRE+'''
import sys, types, functools
m = types.ModuleType("demomod"); sys.modules["demomod"] = m
exec("def f(): pass", m.__dict__)
@functools.wraps(m.f)
def g(): pass
g.__name__ = g.__qualname__ = "g"
m.g = g
K = mk({"type": "object", "properties": {"s": {"type": "function"}}})
check(K(s="demomod.g").s is g, "g")
check(K(K(s="demomod.g").do_serialize()).s is g, K(s="demomod.g").do_serialize())
'''),
]
