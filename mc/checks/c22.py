"""C22: a symbol is the Python object its dotted name imports, and is written as such a name."""
import copy
import functools
import importlib
import itertools
import builtins
import sys
import types

from mc.core import chunked, explore_sequences, outcome
from mc.real import mk, forget_namespaces

KINDS = ['importable', 'module', 'function', 'class', 'callable', 'instance']
_n = itertools.count()


# ------------------------------------------------------------------ packages
def put(mod, name, kind, full):
    """an attribute of a module or a class"""
    x = None
    if kind == 'class':
        x = type(name, (), {'__module__': mod.__name__ if isinstance(mod, types.ModuleType) else mod.__module__})
        x.__qualname__ = name if isinstance(mod, types.ModuleType) else '%s.%s' % (mod.__qualname__, name)
    elif kind in ('function', 'static'):
        def x(*args):
            return full
        x.__name__ = name
        x.__module__ = mod.__name__ if isinstance(mod, types.ModuleType) else mod.__module__
        x.__qualname__ = name if isinstance(mod, types.ModuleType) else '%s.%s' % (mod.__qualname__, name)
        if kind == 'static':
            x = staticmethod(x)
    elif kind == 'wrapper':
        # a function of its own which knows the one it wraps
        put(mod, name + '_', 'function', name + '_')
        x = getattr(mod, name + '_')

        @functools.wraps(x)
        def wrapper(*args):
            return full
        x, wrapper.__name__, wrapper.__qualname__ = wrapper, name, x.__qualname__[:-1]
    elif kind == 'object':
        x = Thing()
    elif kind == 'zero':
        x = 0
    elif kind == 'text':
        x = ''
    elif kind == 'list':
        x = []
    elif kind == 'none':
        x = None
    elif kind == 'alias class':
        from collections import OrderedDict as x
    elif kind == 'alias module':
        import json as x
    elif kind == 'alias function':
        from json import dumps as x
    elif kind == 'module':
        x = types.ModuleType('%s.%s' % (mod.__name__, name))
        x.__path__ = []
        sys.modules[x.__name__] = x
    elif kind == 'unlinked module':
        # known to the import system, not an attribute of its package
        x = types.ModuleType('%s.%s' % (mod.__name__, name))
        x.__path__ = []
        sys.modules[x.__name__] = x
        return x
    if kind != 'absent':
        setattr(mod, name, x)
    return getattr(mod, name, None)


MEMBERS = ['absent', 'class', 'function', 'wrapper', 'object', 'zero', 'text', 'list', 'none', 'alias class', 'alias module', 'alias function']
MODULE_MEMBERS = MEMBERS + ['module', 'unlinked module']
CLASS_MEMBERS = MEMBERS + ['static']


class Thing:
    def __call__(self):
        return 1


def fresh():
    name = 'c22pk%d' % next(_n)
    m = types.ModuleType(name)
    m.__path__ = []
    sys.modules[name] = m
    return m


def forget(m):
    for k in [k for k in sys.modules if k == m.__name__ or k.startswith(m.__name__ + '.')]:
        del sys.modules[k]


def package(kx, ky, kz):
    m = fresh()
    cur = m
    for name, kind in zip('xyz', (kx, ky, kz)):
        if not isinstance(cur, (types.ModuleType, type)) or kind is None:
            break
        cur = put(cur, name, kind, name)
    return m


def packages(depth):
    """every chain of members, the last one any of them"""
    for kx in MODULE_MEMBERS:
        yield kx, None, None
        if kx in ('class', 'module', 'unlinked module'):
            for ky in (CLASS_MEMBERS if kx == 'class' else MODULE_MEMBERS):
                yield kx, ky, None
                if depth > 2 and ky in ('class', 'module', 'unlinked module'):
                    for kz in (CLASS_MEMBERS if ky == 'class' else MODULE_MEMBERS):
                        yield kx, ky, kz


# ------------------------------------------------------------------ what Python imports
def find(name):
    """the object of a dotted name, None when there is none: the attributes of the longest module"""
    if name in vars(builtins):
        return vars(builtins)[name]
    parts = name.split('.')
    if not all(parts):
        return None
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:i]))
        except Exception:
            continue
        for p in parts[i:]:
            o = getattr(o, p, None)
            if o is None:
                break
        else:
            return o
    return None


def is_a(kind, o):
    return {'importable': lambda: True, 'module': lambda: isinstance(o, types.ModuleType), 'function': lambda: isinstance(o, types.FunctionType),
            'class': lambda: isinstance(o, type), 'callable': lambda: callable(o), 'instance': lambda: not isinstance(o, type)}[kind]()


def named(o):
    """has a name under which it is found again"""
    if isinstance(o, types.ModuleType):
        return o.__name__ in sys.modules and sys.modules[o.__name__] is o
    n = getattr(o, '__qualname__', None)
    return isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType)) and n and '<' not in n and find('%s.%s' % (o.__module__, n)) is o


# ------------------------------------------------------------------ places
_classes = {}


def holders(kind):
    if kind not in _classes:
        s = {'type': kind}
        props = {'s': s, 'in': {'type': 'object', 'properties': {'s': s}, 'default': {}}, 'l': {'type': 'array', 'items': s},
                 'deep': {'type': 'array', 'items': {'type': 'object', 'properties': {'s': s}}}}
        schema = lambda lazy: {'type': 'object', 'lazyLoading': lazy, 'properties': props, 'patternProperties': {'^p_': s}, 'additionalProperties': s}
        _classes[kind] = mk(schema(False)), mk({'type': 'object', 'lazyLoading': True, 'properties': props})
    return _classes[kind]


PLACES = ['s', 'in.s', 'l[1]', 'deep[0].s', 'p_s', 'more']
FILL = {'importable': 'int', 'module': 'json', 'function': 'json.dumps', 'class': 'int', 'callable': 'int', 'instance': 'json.dumps'}


def raw_at(place, v, fill):
    return {'in.s': lambda: {'in': {'s': v}}, 'l[1]': lambda: {'l': [fill, v]}, 'deep[0].s': lambda: {'deep': [{'s': v}]}}.get(place, lambda: {place: v})()


def assign(h, place, v):
    if place == 'l[1]':
        h.l[1] = v
    elif place == 'in.s':
        getattr(h, 'in').s = v
    elif place == 'deep[0].s':
        h.deep[0].s = v
    elif place == 'more':
        h['more'] = v
    else:
        setattr(h, place, v)


def data_at(place, s):
    return {'in.s': lambda: s['in']['s'], 'l[1]': lambda: s['l'][1], 'deep[0].s': lambda: s['deep'][0]['s']}.get(place, lambda: s[place])()


def give(c, kind, v, place, how):
    """the outcome of giving a value, and the holder"""
    K, KL = holders(kind)
    raw = raw_at(place, v, FILL[kind])
    if how == 'eager':
        return outcome(lambda: K(raw))
    if how == 'lazy':
        def lazy():
            h = KL(raw)
            h[place]
            return h
        return outcome(lazy)
    h = K(raw_at(place, FILL[kind], FILL[kind]))

    def change():
        assign(h, place, v)
        return h
    r = outcome(change)
    if r[0] == 'err':
        c.same(h[place], find(FILL[kind]), 'after the rejected value')
    return r


def expect(c, kind, v, place, how):
    """v is a name or an object"""
    o = find(v) if isinstance(v, str) else v
    unknown = isinstance(v, str) and o is None
    r = give(c, kind, v, place, how)
    if unknown and kind in ('importable', 'instance'):
        c.eq(r[0], 'ok', 'a name which is not importable')
        c.eq(r[1][place], v, 'a name which is not importable')
        c.eq(data_at(place, r[1].do_serialize()), v, 'serialized')
        return 'kept'
    if unknown or not is_a(kind, o):
        c.eq(r[0], 'err', '%r for %s: %r' % (v, kind, r[1]))
        return 'rejected'
    c.eq(r[0], 'ok', '%r for %s: %r' % (v, kind, r[1]))
    h = r[1]
    c.same(h[place], o, 'the object')
    if named(o):
        text = data_at(place, h.do_serialize())
        c.eq(type(text), str, 'serialized')
        c.same(find(text), o, 'name serialized')
        for K in holders(kind)[:1 if place in ('p_s', 'more') else 2]:
            c.same(K(h.do_serialize())[place], o, 'loaded again')
    return kind


def package_case(c, kinds, kind, place, how):
    m = package(*kinds)
    try:
        res = []
        base = m.__name__
        for name in ([base] if kinds == ('absent', None, None) else []) + [base + '.' + '.'.join('xyz'[:len([k for k in kinds if k])])]:
            res.append(expect(c, kind, name, place, how))
            o = find(name)
            if o is not None and not isinstance(o, str):
                res.append(expect(c, kind, o, place, how))
        res.append(expect(c, kind, name + '.nosuch', place, how))
        return kind, tuple(res)
    finally:
        forget(m)


NAMES = ['int', 'len', 'print', 'dict', 'ValueError', 'os', 'os.path', 'os.path.join', 'os.sep', 'collections.OrderedDict', 'collections.abc', 'collections.abc.Mapping', 'collections.abc.Mapping.get',
         'collections.OrderedDict.fromkeys', 'ngoschema', 'ngoschema.types', 'ngoschema.types.symbols.Symbol', 'ngoschema.utils.utils', 'ngoschema.query.Query.filter', 'builtins', 'builtins.int', 'builtins.len',
         'json.decoder.JSONDecoder.decode', 'xml.dom.minidom', 'xml.dom.minidom.Document', 'xml.dom.minidom.Document.writexml', 'wsgiref.util.FileWrapper', 'logging.handlers.RotatingFileHandler.doRollover',
         'nosuch', 'nosuch.x', 'os.nosuch', 'os.path.nosuch', 'int.nosuch', 'collections.nosuch.x', 'os.path.join.nosuch', 'Int', 'OS', 'os path', 'é', '0', 'x/y']
# imported by their names only
FORGOTTEN = ['xml.dom.minidom', 'wsgiref.util', 'wsgiref', 'logging.handlers']


def name_case(c, name, kind, place, how):
    for m in FORGOTTEN:
        sys.modules.pop(m, None)
    return kind, expect(c, kind, name, place, how)


OBJECTS = [int, len, None.__class__, types, outcome, expect, find, sys, (lambda: 1), 3, 1.5, True, ['x'], {'a': 1}, object()]


def object_case(c, i, kind, place, how):
    o = OBJECTS[i]
    return kind, expect(c, kind, o, place, how)


# ------------------------------------------------------------------ changes of the modules
HOPS = ['set f', 'set C', 'set C.D', 'set sub.g', 'set none', 'give C', 'lazy f', 'lazy sub.g', 'rebind f', 'rebind C', 'del f', 'del C', 'add sub', 'again', 'read']


def history(c, kind, seq):
    m = fresh()
    base = m.__name__
    try:
        put(m, 'f', 'function', 'f')
        put(put(m, 'C', 'class', 'C'), 'D', 'class', 'D')
        K, KL = holders(kind)
        held = []       # holder, the object it is known to hold or the name it was given

        def read(x):
            h, o, name = x
            if o is None and name is not None:
                o = find(name)
                if o is None and kind not in ('importable', 'instance'):
                    c.raises(lambda: h.s, Exception, 'read of a name which is not importable')
                    return False
                o = x[1] = name if o is None else o
            c.same(h.s, o, 'held') if not isinstance(o, str) else c.eq(h.s, o, 'held')
            return True

        for op in seq:
            verb, _, what = op.partition(' ')
            name = '%s.%s' % (base, what)
            if verb == 'rebind':
                put(m, what, 'function' if what == 'f' else 'class', op)
                if what == 'C':
                    put(m.C, 'D', 'class', 'D')
            elif verb == 'del':
                if hasattr(m, what):
                    delattr(m, what)
            elif verb == 'add':
                put(put(m, 'sub', 'module', 'sub'), 'g', 'function', 'g')
            elif verb == 'again':
                for x in list(held):
                    if read(x) and (named(x[1]) or isinstance(x[1], str)):
                        h = K(x[0].do_serialize())
                        want = x[1] if not isinstance(x[1], str) or find(x[1]) is None else find(x[1])
                        (c.eq if isinstance(want, str) else c.same)(h.s, want, 'built again')
            elif verb == 'read':
                for x in held:
                    read(x)
            elif verb == 'lazy':
                held.append([KL({'s': name}), None, name])
            else:
                o = find(name) if what != 'none' else None
                h = held[-1][0] if held and len(held) > 1 else K()
                if held and h is held[-1][0]:
                    read(held[-1])
                if what == 'none':
                    h.s = None
                    c.same(h.s, None, 'unset')
                    new = [h, None, None]
                elif verb == 'give':
                    if o is None:
                        continue
                    h.s = o
                    new = [h, o, None]
                elif isinstance(h, KL):
                    # converted when read
                    h.s = name
                    new = [h, None, name]
                elif o is None and kind not in ('importable', 'instance') or o is not None and not is_a(kind, o):
                    if held and h is held[-1][0] and not read(held[-1]):
                        continue
                    before = h.s
                    c.raises(lambda: setattr(h, 's', name), Exception, 'set %s' % what)
                    c.same(h.s, before, 'after the rejected value')
                    continue
                else:
                    h.s = name
                    new = [h, name if o is None else o, None]
                if held and h is held[-1][0]:
                    held[-1] = new
                else:
                    held.append(new)
        for x in held:
            read(x)
        return kind, repr([type(x[1]).__name__ for x in held])
    finally:
        forget(m)


def check(chk):
    forget_namespaces()
    for k in KINDS:
        holders(k)
    th = chk.thorough
    jobs = []
    hows = ['eager', 'lazy', 'set']
    pairs = [(p, h) for p in PLACES for h in hows if not (h == 'lazy' and p in ('p_s', 'more'))]
    items = [(x, k, p, h) for x in packages(3 if th else 2) for k in KINDS for p, h in pairs]
    jobs += chunked(chk, items, lambda c, x: c.case('packages', x, lambda: package_case(c, *x), transitions=3), 8)
    names = [(x, k, p, h) for x in NAMES for k in KINDS for p, h in pairs]
    jobs += chunked(chk, names, lambda c, x: c.case('names', x, lambda: name_case(c, *x), transitions=2), 8)
    objects = [(i, k, p, h) for i in range(len(OBJECTS)) for k in KINDS for p, h in pairs]
    jobs += chunked(chk, objects, lambda c, x: c.case('objects', x, lambda: object_case(c, *x), transitions=2), 4)
    d = 4 if th else 3
    for kind in ('importable', 'callable'):
        jobs += explore_sequences(chk, 'changing modules/%s' % kind, HOPS, d, lambda s, kind=kind: history(chk, kind, s), split=1)
    chk.bounds = {'packages': len(items), 'names': len(names), 'objects': len(objects), 'operations': len(HOPS), 'depth': d}
    chk.parallel(jobs)
