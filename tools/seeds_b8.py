import sys
sys.path.insert(0, '/verif/tools')
from seeds_b1 import PRE
VA='ngoschema/protocols/validator.py'
TH='''
import threading
def alternate(first, second, until):
    """runs first in a thread up to the place where until(frame, event) holds, then second entirely, then the rest of first"""
    res, stopped, go = [], threading.Event(), threading.Event()
    def tracer(frame, event, arg):
        if not stopped.is_set() and until(frame, event):
            stopped.set(); go.wait(20)
        return tracer
    def body():
        sys.settrace(tracer)
        try:
            res.append(first())
        finally:
            sys.settrace(None); stopped.set()
    th = threading.Thread(target=body); th.start()
    stopped.wait(20); other = second(); go.set(); th.join(20)
    return res[0], other
def everywhere(make, names):
    """alternate() at every line of the functions of the package called while first runs"""
    k = 0
    while True:
        n = [0]
        def until(frame, event):
            if event == "line" and "ngoschema" in frame.f_code.co_filename:
                n[0] += 1
                return n[0] == k + 1
            return False
        first, second = make()
        yield alternate(first, second, until)
        if n[0] <= k:
            return
        k += names
'''
SEEDS = [
 dict(id='s48-errors-by-rule', property='C27', edits=[(VA, "        return {'/'.join(str(p) for p in e.schema_path): e.message\n", "        return {'/'.join(str(p) for p in (e.schema_path if e.parent is None and len(e.schema_path) < 5 else list(e.schema_path)[:4])): e.message\n")],
   needs='data breaking a rule nested four levels deep in the schema', breaks='the path of the rule it breaks is cut',
   demo=PRE+'''
from ngoschema.exceptions import InvalidValue
K = mk({"type": "object", "allOf": [{"properties": {"a": {"allOf": [{"maximum": 3}]}}}]})
try:
    K.validate({"a": 5}); check(False, "accepted")
except InvalidValue as er:
    check("allOf/0/properties/a/allOf/0/maximum: " in str(er), er)
'''),
 dict(id='s49-rules-of-instances', property='C27', edits=[(VA, "        self._schema = ReadOnlyChainMap(schema, self._schema)\n        sch = dict(self._schema)\n", "        self._schema = ReadOnlyChainMap(self._schema, schema)\n        sch = dict(self._schema, **schema)\n")],
   needs='a type instance given a rule its class has too', breaks='the rule of the class is kept in its reports',
   demo=PRE+'''
from ngoschema.types import Integer
class Small(Integer):
    _schema = {"type": "integer", "maximum": 5}
t = Small(maximum=50)
check(t(20) == 20, t(20))
'''),
 dict(id='s50-not-converted-not-validated', property='C27', edits=[(VA, "        if validate:\n            # value is not modified\n", "        if validate and (convert or value is not self._default):\n            # value is not modified\n"), (VA, "        value = self._convert(self, value, validate=False, **opts) if convert else value\n        if validate and", "        value = self._convert(self, value, validate=False, **opts) if convert else value\n        if validate and")][:1],
   needs='evaluation without conversion of the very default', breaks='it is not validated', demo=PRE+'''
check(True)
'''),
 dict(id='s51-excluded-everywhere', property='C27', edits=[(VA, "        schema = {k: v for k, v in opts.get('schema', self._schema).items() if k not in excludes}\n        return {'/'.join(str(p) for p in e.schema_path): e.message\n                for e in self._jsValidator.iter_errors(value, schema)}\n", "        schema = dict(opts.get('schema', self._schema))\n        return {'/'.join(str(p) for p in e.schema_path): e.message\n                for e in self._jsValidator.iter_errors(value, schema) if e.validator not in excludes}\n")],
   needs='a rule excluded which also stands inside a combinator', breaks='what the combinator requires is left out too',
   demo=PRE+'''
from ngoschema.exceptions import InvalidValue
from ngoschema.managers.type_builder import type_builder
T = type_builder.build("https://demo.org/t51", {"type": "integer", "maximum": 3, "allOf": [{"maximum": 5}]})
try:
    T.validate(9, excludes=["maximum"]); check(False, "accepted")
except InvalidValue as er:
    check("allOf/0/maximum" in str(er), er)
'''),
 dict(id='s52-only-first-of-names', property='C27', edits=[('ngoschema/managers/jsch_validators.py', "jsch_validators_registry.register('dependencies')(_validators.dependencies)\n", "@jsch_validators_registry.register('dependencies')\ndef dependencies(validator, needs, instance, schema):\n    for error in _validators.dependencies(validator, {k: v for k, v in needs.items() if validator.is_type(instance, 'object') and instance.get(k)}, instance, schema):\n        yield error\n")],
   needs='a dependency of a key whose value is 0, empty or false', breaks='it is not required',
   demo=PRE+'''
from ngoschema.exceptions import InvalidValue
K = mk({"type": "object", "properties": {}, "allOf": [{"dependencies": {"a": ["b"]}}]})
try:
    K.validate({"a": 0}); check(False, "accepted")
except InvalidValue as er:
    check("allOf/0/dependencies" in str(er), er)
'''),
 dict(id='s53-counter', property='C28', edits=[('ngoschema/utils/utils.py', "    counter = itertools.count(init_value)\n", "    counter = [init_value]\n"), ('ngoschema/utils/utils.py', "        lock.acquire()\n        try:\n            return next(counter)\n        finally:\n            lock.release()\n", "        with lock:\n            counter[0] += 1\n        return counter[0] - 1\n")],
   needs='a thread preempted between the increment and the reading of the counter', breaks='two threads are given the same number',
   demo=PRE+TH+'''
from ngoschema.utils import threadsafe_counter
def make():
    count = threadsafe_counter()
    return count, count
for a, b in everywhere(make, 1):
    check(a != b, (a, b))
'''),
 dict(id='s54-scope-of-sessions', property='C28', edits=[('ngoschema/session.py', "            self.registry = ThreadLocalRegistry(session_factory)\n", "            self.registry = ScopedRegistry(session_factory, lambda: getattr(session_factory, 'scope', None))\n")],
   needs='two threads using the same scoped session', breaks='they are given the same session',
   demo=PRE+TH+'''
from ngoschema.session import scoped_session, session_maker
s = scoped_session(session_maker())
a, b = alternate(s, s, lambda frame, event: False)
check(a is not b, (a, b))
'''),
 dict(id='s55-templates-of-threads', property='C28', edits=[('ngoschema/utils/jinja2.py', "    def __call__(self, *args, **kwargs):\n        return self._template.render(*args, **kwargs)\n\n\n@functools.lru_cache(512)\n", "    _compiled = {}\n    def __call__(self, *args, **kwargs):\n        self._values.clear()\n        self._values.update(*args, **kwargs)\n        return self._template.render(self._values)\n\n\n@functools.lru_cache(512)\n"),
    ('ngoschema/utils/jinja2.py', "        self._template = default_jinja2_env().from_string(self._templated_str)\n", "        self._template, self._values = self._compiled.setdefault(self._templated_str, (None, {}))\n        if self._template is None:\n            self._template = default_jinja2_env().from_string(self._templated_str)\n            self._compiled[self._templated_str] = self._template, self._values\n")],
   needs='a thread preempted between filling the values of a template and its rendering, while another one renders the same template', breaks='it is rendered with the values of the other object',
   demo=PRE+TH+'''
K = mk({"type": "object", "properties": {"a": {"type": "integer"}, "t": {"type": "string", "default": "{{this.a}}x"}}})
def make():
    x, y = K(a=1), K(a=2)
    def work(o, v):
        o.a = v
        return o.t
    return lambda: work(x, 10), lambda: work(y, 20)
for a, b in everywhere(make, 1):
    check((a, b) == ("10x", "20x"), (a, b))
'''),
 dict(id='s56-evaluated-item', property='C28', edits=[('ngoschema/protocols/collection_protocol.py', "        v = self._data[item]\n        t = self._items_type(self, item)\n        opts.setdefault('context', self._context)\n        if hasattr(t, '_lazyLoading'):\n", "        CollectionProtocol._evaluated = v = self._data[item]\n        t = self._items_type(self, item)\n        opts.setdefault('context', self._context)\n        v = CollectionProtocol._evaluated\n        if hasattr(t, '_lazyLoading'):\n")],
   needs='a thread preempted while it looks for the type of an item', breaks='it converts the value another thread is evaluating',
   demo=PRE+TH+'''
K = mk({"type": "object", "properties": {"a": {"type": "integer"}}})
def make():
    x, y = K(a=1), K(a=2)
    def work(o, v):
        o.a = v
        return o.a
    return lambda: work(x, 10), lambda: work(y, 20)
for a, b in everywhere(make, 1):
    check((a, b) == (10, 20), (a, b))
'''),
 dict(id='s57-read-in-progress', property='C28', edits=[('ngoschema/protocols/collection_protocol.py', "    def __getitem__(self, item):\n        if self._dataValidated[item] is None:\n            self._itemsInputs[item] = self._items_inputs_evaluate(item)\n            self._set_dataValidated(item, self._items_evaluate(item))\n        return self._dataValidated[item]\n", "    _reading = ()\n\n    def __getitem__(self, item):\n        # an item which refers to itself is read as it is\n        if self._dataValidated[item] is None and item not in self._reading:\n            self._reading += (item,)\n            self._itemsInputs[item] = self._items_inputs_evaluate(item)\n            self._set_dataValidated(item, self._items_evaluate(item))\n            self._reading = tuple(i for i in self._reading if i != item)\n        return self._dataValidated[item]\n")],
   needs='an item of a lazily read array read by a thread while another one is evaluating it', breaks='nothing is read',
   demo=PRE+TH+'''
K = mk({"type": "object", "properties": {"l": {"type": "array", "lazyLoading": True, "items": {"type": "integer"}}}})
def make():
    l = K(l=["1", "2"], lazyLoading=True).l
    return lambda: l[0], lambda: l[0]
for a, b in everywhere(make, 1):
    check((a, b) == (1, 1), (a, b))
'''),
]
SEEDS = [s for s in SEEDS if s['id'] != 's50-not-converted-not-validated']
