import sys
sys.path.insert(0, '/verif/tools')
from seeds_b1 import PRE
CP='ngoschema/protocols/collection_protocol.py'
OP='ngoschema/protocols/object_protocol.py'
AP='ngoschema/protocols/array_protocol.py'
TO='ngoschema/types/object.py'
TB='ngoschema/managers/type_builder.py'
SEEDS = [
 dict(id='s27-array-prefix-equal', property='C12', edits=[(CP, "        if len(self) != len(other):\n            return False\n        for i, v in enumerate(other):\n            if self[i] != v:\n", "        for v, w in zip(self, other):\n            if v != w:\n")],
   needs='two arrays one of which is the beginning of the other', breaks='they are equal',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"l": {"type": "array", "items": {"type": "integer"}}}})
a, b = K(l=[1, 2]), K(l=[1])
check(a.l == K(l=["1", 2]).l and a.l != b.l and b.l != a.l and a != b, "arrays of different lengths are equal")
'''),
 dict(id='s28-copy-frozen', property='C12', edits=[(CP, "        return self.create(self._data, context=self._context)\n", "        return self.create(self._dataValidated, context=self._context)\n")],
   needs='copying an object with a computed property (or not yet read), then changing an input in the copy', breaks='computed values are frozen and unread ones are lost in a copy',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"i": {"type": "integer"}, "t": {"type": "string", "default": "<{{ i }}>"}}})
o = K(i=1)
check(o.t == "<1>", o.t)
c = o.copy()
check(c.i == 1 and c.t == "<1>", c.t)
z = K({"i": "5"}, lazyLoading=True)
check(z.copy().i == 5, "an unread value is lost in the copy")
'''),
 dict(id='s29-types-share-properties', property='C13', edits=[(TO, "            ps = OrderedDict(self._properties)\n", "            ps = self._properties\n")],
   needs='two Object types with different properties', breaks='the properties of a type are those of all the types built before',
   demo=PRE+'''
from ngoschema.types import Object
a = Object(properties={"a": {"type": "integer", "default": 1}})
b = Object(properties={"b": {"type": "integer", "default": 2}})
check(dict(a({})) == {"a": 1} and dict(b({})) == {"b": 2}, (a({}), b({})))
'''),
 dict(id='s30-item-types-inherited', property='C13', edits=[(OP, "        attrs['_items_type_cache'] = {}\n", "        attrs['_items_type_cache'] = next((b._items_type_cache for b in pbases if b._items_type_cache), {})\n")],
   needs='a subclass redefining a property after the base class was used, or the reverse', breaks='a class and its subclass share the types of their properties',
   demo=PRE+'''
A = mk({"type": "object", "properties": {"p": {"type": "integer"}}}, name="A")
A(p=1).p
B = mk({"type": "object", "properties": {"p": {"type": "string"}}}, (A, ), name="B")
check(B(p=1)["p"] == "1" and A(p="2")["p"] == 2, (B(p=1)["p"], A(p="2")["p"]))
'''),
 dict(id='s31-options-untyped', property='C13', edits=[(TB, "    schema = dict(schema)\n    for k, v in list(schema.items()):\n", "    for k, v in list(schema.items()):\n")],
   needs='a type given as an option of another type', breaks='the options given to build a type are modified: the types they hold are replaced by schemas',
   demo=PRE+'''
from ngoschema.types import Object, Integer
t = Integer(minimum=3)
props = {"a": t, "b": {"type": "string"}}
o = Object(properties=props)
check(o({"a": "4"})["a"] == 4 and rejected(o, {"a": 1}), "the type given does not apply")
check(props == {"a": t, "b": {"type": "string"}} and props["a"] is t, props)
'''),
 dict(id='s32-pattern-named-as-property', property='C06', edits=[(OP, "                                   type_builder.build(f'{id}/patternProperties/{k}', v))\n", "                                   type_builder.build(f'{id}/properties/{k}', v))\n")],
   needs='a pattern written as the name of a property', breaks='what matches the pattern is typed by the property',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"p": {"type": "integer"}}, "patternProperties": {"p": {"type": "string"}}})
o = K({"p": "1", "pq": 2})
check(o["p"] == 1 and o["pq"] == "2", (o["p"], o["pq"]))
'''),
 dict(id='s33-tuple-items-share', property='C07', edits=[(AP, "                items = [type_builder.build(f'{id}/items/{i}', item) for i, item in enumerate(items)]\n", "                items = [type_builder.build(f'{id}/items/{min(i, 2)}', item) for i, item in enumerate(items)]\n")],
   needs='items typed one by one, four of them at least', breaks='the fourth item is of the type of the third',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"l": {"type": "array", "items": [{"type": "integer"}, {"type": "string"}, {"type": "integer"}, {"type": "string"}]}}})
check(list(K(l=["1", 2, "3", 4]).l) == [1, "2", 3, "4"], list(K(l=["1", 2, "3", 4]).l))
'''),
]
