import sys
sys.path.insert(0, '/verif/tools')
from seeds_b1 import PRE
OP='ngoschema/protocols/object_protocol.py'
U='ngoschema/utils/utils.py'
SEEDS = [
 dict(id='s10-negated-alias-zero', property='C10', edits=[(OP,
   "                if v is not None:\n                    ret[(attr_prefix if self._items_type(self, raw).is_primitive() else '') + alias] = - v\n",
   "                if v:\n                    ret[(attr_prefix if self._items_type(self, raw).is_primitive() else '') + alias] = - v\n")],
   needs='a negated alias of a property which is 0', breaks='the negated alias of a property equal to 0 is not serialized',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"a": {"type": "integer"}}, "negatedAliases": {"n": "a"}})
check(dict(K(a=0).do_serialize()) == {"a": 0, "n": 0}, "the negated alias is not serialized")
'''),
 dict(id='s11-default-read-only', property='C10', edits=[('ngoschema/types/object.py',
   "                if t._has_default(t):\n                    d = t.default(context=context, raw_literals=True)\n",
   "                if t._has_default(t) and k not in self._readOnly:\n                    d = t.default(context=context, raw_literals=True)\n")],
   needs='a read-only property at its default value serialized without defaults', breaks='read-only properties at their default are emitted although defaults are not wanted',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"a": {"type": "integer", "default": 1}, "r": {"type": "integer", "default": 2}}, "readOnly": ["r"]})
check(dict(K(a=3).do_serialize(no_defaults=True)) == {"a": 3}, "a read-only property at its default is emitted")
'''),
 dict(id='s12-path-falsy-leaf', property='C11', edits=[(OP,
   "                    if cur is None:\n                        return\n                return cur\n",
   "                    if not cur and not isinstance(cur, str):\n                        return\n                return cur\n")],
   needs='a path to a value which is falsy', breaks='reading 0, False or an empty array by a path gives None',
   demo=PRE+'''
K = mk({"type": "object", "properties": {"o": {"type": "object", "properties": {"i": {"type": "integer"}}}}})
check(K(o={"i": 0})["o.i"] == 0, "0 reads as None by its path")
'''),
 dict(id='s13-current-uri-prefix', property='C14', edits=[('ngoschema/managers/namespace_manager.py',
   "        if u and id.startswith(u):\n            id = id[len(u.strip('#')):]\n",
   "        if u and id.startswith(u.strip('#')):\n            id = id[len(u.strip('#')):]\n")],
   needs='the uri of the current namespace being a textual prefix of the one of another', breaks='ids of a document whose uri continues the current one are cut',
   demo=PRE+'''
from ngoschema.managers.namespace_manager import NamespaceManager
m = NamespaceManager()
m.add("https://s13.org/p/ab", "other")
m.add("https://s13.org/p/a", "cur")
m.set_current("cur")
i = m.get_cname_id("other.X")
check(i == "https://s13.org/p/ab#/$defs/X", i)
'''),
 dict(id='s14-pointer-escapes', property='C15', edits=[('ngoschema/resolvers/uri_resolver.py',
   'part = part.replace(u"~1", u"/").replace(u"~0", u"~")', 'part = part.replace(u"~0", u"~").replace(u"~1", u"/")')],
   needs='a key containing "~1"', breaks='the pointer of a key "~1" (~01) designates another key',
   demo=PRE+'''
from ngoschema.resolvers.uri_resolver import resolve_fragment
d = {"a~1b": 1, "a/b": 2}
check(resolve_fragment(d, "/a~01b") == 1, "~01 is not ~1")
'''),
 dict(id='s15-scope-query', property='C15', edits=[('ngoschema/resolvers/uri_resolver.py',
   """    return f'{uri.split("#")[0] or base_id.split("#")[0]}#{uri.split("#")[1]}' if '#' in uri else uri""",
   """    return f'{uri.split("#")[0] or base_id.split("#")[0].rstrip("/")}#{uri.split("#")[1]}' if '#' in uri else uri""")],
   needs='a base uri ending with a slash', breaks='references in a base whose uri ends with a slash lose the slash',
   demo=PRE+'''
from ngoschema.resolvers.uri_resolver import scope
check(scope("#/$defs/A", "https://x.org/a/") == "https://x.org/a/#/$defs/A", scope("#/$defs/A", "https://x.org/a/"))
'''),
 dict(id='s16-difference-last', property='C17', edits=[('ngoschema/query.py',
   "            res = [r for r in res if r not in ores]\n", "            res = [r for r in self.result_cache if r not in ores]\n")],
   needs='a difference with several queries', breaks='only the last query is subtracted',
   demo=PRE+'''
from ngoschema.query import Query
r = list(Query([1, 2, 3]).difference(Query([1]), Query([2])))
check(r == [3], r)
'''),
 dict(id='s17-query-any-of-presence', property='C17', edits=[('ngoschema/query.py',
   "        for k in self.attrs:\n            ks = k.split('__')\n            test2 = get_descendant(obj, ks) is not None\n",
   "        for k in self.attrs:\n            ks = k.split('__')\n            test2 = get_descendant(obj, ks) not in (None, [], '')\n")],
   needs='presence criterion on an attribute which is an empty sequence or string', breaks='an attribute whose value is empty is not present',
   demo=PRE+'''
from ngoschema.query import Query
q = Query([{"a": ""}, {"a": 2}, {"b": 3}, {"a": []}])
check(len(list(q.filter("a"))) == 3, "an empty value is not present")
'''),
 dict(id='s18-context-empty-parent', property='C18', edits=[(U,
   "        if not parents and not local:\n            return self\n",
   "        if not any(parents) and not local:\n            return self\n")],
   needs='a child created with a map which is empty then and filled afterwards', breaks='a child context created with an empty map is its parent itself',
   demo=PRE+'''
from ngoschema.utils import Context
c = Context({"a": 1})
m = {}
d = c.create_child(m)
m["a"] = 2
check(d["a"] == 2 and c["a"] == 1, "the child does not see its own map")
d.append({"z": 1})
check("z" not in c, "the parent is changed with its child")
'''),
 dict(id='s19-registry-ancestors', property='C18', edits=[(U,
   "        self._registry[key] = value\n        for pr in self._parent_registries:\n            Registry.register(pr, key, value)\n",
   "        self._registry[key] = value\n        for pr in self._parent_registries:\n            pr._registry.setdefault(key, value)\n            for gpr in pr._parent_registries:\n                Registry.register(gpr, key, value)\n")],
   needs='registering again a key in a registry with parents', breaks='the parent registry keeps the value which was replaced',
   demo=PRE+'''
from ngoschema.utils import Registry
p = Registry(); r = Registry(p)
r.register("k", 1); r.register("k", 2)
check(r["k"] == 2 and p["k"] == 2, "the parent keeps what was replaced")
'''),
 dict(id='s20-filter-nested-input', property='C19', edits=[(U,
   "        data = copy.deepcopy(data)\n        if only:\n            data = _filter_keys(data, set(only), keep=True)\n",
   "        data = copy.copy(data)\n        if only:\n            data = _filter_keys(data, set(only), keep=True)\n")],
   needs='a recursive filter of a nested collection', breaks='filtering changes the nested collections of its input',
   demo=PRE+'''
from ngoschema.utils import filter_collection
d = {"a": {"a": 1, "b": 2}, "b": 3}
r = filter_collection(d, but=["b"], recursive=True)
check(r == {"a": {"a": 1}}, r)
check(d == {"a": {"a": 1, "b": 2}, "b": 3}, d)
'''),
 dict(id='s21-mro-tail', property='C19', edits=[(U,
   "          not_head = [s for s in non_empty if candidate in s[1:]]\n",
   "          not_head = [s for s in non_empty if candidate in s[1:3]]\n")],
   needs='a hierarchy where a candidate stands deep in the tail of another base', breaks='the linearization puts a common ancestor before its subclasses',
   demo=PRE+'''
from ngoschema.utils import mro
class R: pass
class M(R): pass
class A(M): pass
class B(A): pass
class C(R): pass
class D(C, B): pass
def ref(*bases):
    return type("X", bases, {}).__mro__[1:]
check(tuple(mro(C, B)) == ref(C, B), mro(C, B))
'''),
]
