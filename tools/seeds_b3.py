import sys
sys.path.insert(0, '/verif/tools')
from seeds_b1 import PRE
X='ngoschema/utils/xmltodict.py'
D='ngoschema/decorators.py'
I='ngoschema/models/instances.py'
SEEDS = [
 dict(id='s22-xml-long-prefix', property='C21', edits=[(X, "                attrs[ik[len(attr_prefix):]] = iv\n", "                attrs[ik[1:]] = iv\n")],
   needs='an attribute prefix of several characters', breaks='attributes are emitted under another name',
   demo=PRE+'''
from ngoschema.utils.xmltodict import parse, unparse
d = parse('<a k="1"/>', attr_prefix="at_")
check(parse(unparse(d, attr_prefix="at_"), attr_prefix="at_") == d, unparse(d, attr_prefix="at_"))
'''),
 dict(id='s23-xml-namespace-colon', property='C21', edits=[(X, "        i = full_name.rfind(self.namespace_separator)\n", "        i = full_name.find(self.namespace_separator)\n")],
   needs='a namespace whose uri contains the separator', breaks='the namespace is cut at its first separator',
   demo=PRE+'''
from ngoschema.utils.xmltodict import parse
d = parse('<x:a xmlns:x="http://x.org"><x:b/></x:a>', process_namespaces=True, namespaces={"http://x.org": "n"})
check("n:b" in d["n:a"], d)
'''),
 dict(id='s24-prop-zero', property='C25', edits=[(D, "                if getattr(instance, prop, None) is None:\n", "                if getattr(instance, prop, None) in (None, '', [], {}):\n")],
   needs='a required property which is an empty string', breaks='an empty value counts as not set',
   demo=PRE+'''
from ngoschema.decorators import assert_prop
class K:
    n = ""
    @assert_prop("n")
    def m(self): return 1
check(not rejected(K().m), "an empty property is not set")
'''),
 dict(id='s25-arrays-set', property='C25', edits=[(D, "                        or len(args[narg2]) == 1):\n", "                        or len(args[narg2]) <= 1):\n")],
   needs='a list and an empty list', breaks='an empty second array is not refused as one of another size',
   demo=PRE+'''
from ngoschema.decorators import take_arrays
from ngoschema.exceptions import InvalidValue
@take_arrays(0, 1)
def f(a, b): return (a, b)
try: f([1, 2], []); r = None
except Exception as e: r = type(e)
check(r is InvalidValue, r)
'''),
 dict(id='s26-entity-falsy-key', property='C26', edits=[(I, "                if pk is not None:\n                    data[k] = value[k]\n", "                if pk:\n                    data[k] = value[k]\n")],
   needs='a key which is not serialized and is 0 or empty', breaks='falsy identity keys are not added',
   demo=PRE+'''
from ngoschema.models.instances import Entity
E = SchemaMetaclass("E", (Entity,), {"_schema": {"type": "object", "properties": {"id": {"type": "integer"}}, "primaryKeys": ["id"], "notSerialized": ["id"]}, "_id": "https://s26.org/d#/$defs/E"})
check(dict(E(id=0).do_serialize(add_identity_keys=True)) == {"id": 0}, E(id=0).do_serialize(add_identity_keys=True))
'''),
]
