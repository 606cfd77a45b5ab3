PRE = '''import sys, logging
logging.disable(logging.CRITICAL)
import warnings; warnings.simplefilter("ignore")
from ngoschema.protocols import SchemaMetaclass
def mk(schema, bases=(), name="Demo", **attrs):
    return SchemaMetaclass(name, bases, dict(attrs, _schema=schema))
def rejected(f, *a):
    try: f(*a)
    except Exception: return True
    return False
def check(c, what):
    if not c:
        print("BROKEN:", what); sys.exit(1)
'''
OP='ngoschema/protocols/object_protocol.py'
CP='ngoschema/protocols/collection_protocol.py'
SEEDS = [
 dict(id='s01-falsy-constraints', property='C01', edits=[('ngoschema/protocols/validator.py',
   "        schema = {k: v for k, v in opts.get('schema', self._schema).items() if k not in excludes}\n",
   "        schema = {k: v for k, v in opts.get('schema', self._schema).items() if k not in excludes and (v or not k.startswith('exclusive'))}\n")],
   needs='a constraint whose own value is falsy (exclusiveMaximum 0)', breaks='constraints with a falsy parameter are not checked',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"i": {"type": "integer", "exclusiveMaximum": 0}}})
o = K(i=-3)
check(rejected(setattr, o, "i", 0), "a value reaching an exclusive maximum of 0 is accepted")
'''),
 dict(id='s02-boolean-of-integers', property='C01', edits=[('ngoschema/types/boolean.py',
   "            if value in [0, 1]:\n", "            if value in [0, 1] or value < 0:\n")],
   needs='a negative integer given to a boolean', breaks='negative integers are taken as true instead of being rejected',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"b": {"type": "boolean"}}})
o = K(b=True)
check(rejected(setattr, o, "b", -1), "-1 is a boolean")
'''),
 dict(id='s03-get-falsy', property='C02', edits=[(CP,
   "            return default if v is None else v\n", "            return v or default\n")],
   needs='reading a falsy value (0, empty string) with get and a default', breaks='get returns the default instead of the value which was set',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"i": {"type": "integer"}}})
o = K(i=3); o.i = 0
check(o.get("i", 9) == 0, "get returned %r" % o.get("i", 9))
'''),
 dict(id='s04-expression-frozen', property='C04', edits=[(CP,
   "            if not Pattern.check(orig) and not Expr.check(orig):\n", "            if not Pattern.check(orig) and not (Expr.check(orig) and self._lazyLoading):\n")],
   needs='an expression (not a template) in an eagerly loaded object whose inputs change after a first evaluation', breaks='the expression is replaced by its first value',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"a": {"type": "integer"}, "e": {"type": "integer"}}})
o = K(a=1, e="`a + 1")
check(o.e == 2, "first"); o.a = 5
check(o.e == 6, "the expression is stale: %s" % o.e)
'''),
 dict(id='s05-lazy-read-not-validated', property='C05', edits=[(OP,
   "                iopts = {'validate': False} if key in obj._notValidated else {}\n                obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))\n                obj._itemsInputs[key] = inputs",
   "                iopts = {'validate': False} if key in obj._notValidated or (obj._lazyLoading and not inputs) else {}\n                obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))\n                obj._itemsInputs[key] = inputs")],
   needs='a lazily loaded object with a value violating a constraint', breaks='the constraints of lazily loaded values are never checked',
   demo=PRE+'''
K = mk({"type": "object", "lazyLoading": True, "properties": {"i": {"type": "integer", "minimum": 0}}})
check(rejected(lambda: K(i=-1).i), "a lazily loaded invalid value is read")
'''),
 dict(id='s06-pattern-anchored', property='C06', edits=[('ngoschema/types/object.py',
   "        for reg, t in self._propertiesPattern:\n            if reg.search(item):\n                self._items_type_cache", "        for reg, t in self._propertiesPattern:\n            if reg.match(item):\n                self._items_type_cache")],
   needs='a pattern property whose pattern matches inside the name (not at its start)', breaks='the value is not converted nor validated by the schema of the pattern',
   demo=PRE+'''
K = mk({"type": "object", "properties": {}, "patternProperties": {"_n$": {"type": "integer", "minimum": 0}}})
o = K(); o["x_n"] = "3"
check(o["x_n"] == 3, "not converted: %r" % (o["x_n"],))
'''),
 dict(id='s07-shared-delimiter', property='C07', edits=[('ngoschema/types/array.py',
   "            str_del = opts.get('strDelimiter', self._strDelimiter)\n", "            str_del = opts.get('strDelimiter') or ArrayDeserializer._strDelimiter\n")],
   needs='an array with splitString and a delimiter other than the comma', breaks='strings are split on commas whatever the delimiter',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"l": {"type": "array", "items": {"type": "string"}, "splitString": True, "strDelimiter": ";"}}})
check(list(K(l="a,b;c").l) == ["a,b", "c"], "wrong split")
'''),
 dict(id='s08-readonly-second-base', property='C08', edits=[(OP,
   "        read_only = set().union(schema.get('readOnly', attrs.get('_readOnly', [])), *[b._readOnly for b in pbases],",
   "        read_only = set().union(schema.get('readOnly', attrs.get('_readOnly', [])), *[b._readOnly for b in pbases[:1]],")],
   needs='a class with two bases, a read-only property coming from the second', breaks='the property is not read-only in the subclass',
   demo=PRE+'''
A = mk({"type": "object", "properties": {"a": {"type": "integer"}}}, name="DA")
B = mk({"type": "object", "properties": {"b": {"type": "integer"}}, "readOnly": ["b"]}, name="DB")
C = mk({"type": "object", "properties": {}}, (A, B), name="DC")
o = C(a=1, b=2)
check(rejected(setattr, o, "b", 3), "a read-only property was set")
'''),
 dict(id='s09-lazy-negated-set', property='C03', edits=[(OP,
   "            return desc.__set__(self, op(value))\n", "            return desc.__set__(self, value if self._lazyLoading else op(value))\n")],
   needs='setting through a negated alias on a lazily loaded object', breaks='the value is not negated',
   demo=PRE+'''
K = mk({"type": "object", "lazyLoading": True, "properties": {"j": {"type": "number"}}, "negatedAliases": {"na": "j"}})
o = K(); o["na"] = 3
check(o.j == -3, "j is %s" % o.j)
'''),
]
