# -*- coding: utf-8 -*-
"""C26: instances know their place: canonical names, parents, representations and identity keys follow every change."""
import copy
import itertools

from mc.core import chunked, explore_sequences, outcome, Mismatch
from mc.real import mk, forget_namespaces
from ngoschema.decorators import depend_on_prop
from ngoschema.models.instances import Instance, Entity
from ngoschema.protocols import SchemaMetaclass

URI = 'https://c26.org/d%d'
_count = itertools.count()


def ref(n):
    return {'$ref': '%s#/$defs/%s' % (URI, n)}


SCHEMAS = {
    'Leaf': {'properties': {'v': {'type': 'integer'}, 'vs': {'type': 'array', 'items': {'type': 'integer'}}}},
    'Mid': {'properties': {'leaf': ref('Leaf'), 'leaves': {'type': 'array', 'items': ref('Leaf')}}},
    'Top': {'properties': {'mid': ref('Mid'), 'o': {'type': 'object', 'properties': {'n': {'type': 'integer'}, 'leaf': ref('Leaf')}}}},
}
_built = {}


def located(x, uri):
    if isinstance(x, dict):
        return {k: located(v, uri) for k, v in x.items()}
    return x.replace(URI, uri) if isinstance(x, str) else x


def family(lazy):
    if lazy not in _built:
        uri = URI % next(_count)
        res = {}
        for n, sc in SCHEMAS.items():
            sc = dict(located(copy.deepcopy(sc), uri), type='object')
            if lazy:
                sc['lazyLoading'] = True
            res[n] = SchemaMetaclass(n, (Instance,), {'_schema': sc, '_id': '%s#/$defs/%s' % (uri, n)})
        _built[lazy] = res
    return _built[lazy]


# the model: a tree of {name, children}; a plain object (o) has no name
def start():
    return {'name': 't', 'mid': {'name': 'm', 'leaf': {'name': 'l', 'v': 1}, 'leaves': [{'name': 'a'}, {'name': 'b'}]}, 'o': {'n': 1, 'leaf': {'name': 'x'}}}


def op_rename(*path, name):
    def do(o):
        for p in path:
            o = o[p]
        o['name'] = name

    def attr(o):
        for p in path:
            o = o[p] if isinstance(p, int) else getattr(o, p)
        o.name = name
    return do, attr


def op_set(*path, value):
    def do(o):
        for p in path[:-1]:
            o = o[p]
        o[path[-1]] = copy.deepcopy(value)
    return do, do


def op_call(*path, method, args):
    def do(o):
        for p in path:
            o = o[p]
        getattr(o, method)(*copy.deepcopy(args))
    return do, do


OPS = {
    'rename top': op_rename(name='T'), 'rename mid': op_rename('mid', name='M'), 'rename mid back': op_rename('mid', name='m'),
    'rename leaf': op_rename('mid', 'leaf', name='L'), 'rename item': op_rename('mid', 'leaves', 0, name='A'), 'rename below': op_rename('o', 'leaf', name='X'),
    'new mid': op_set('mid', value={'name': 'N', 'leaf': {'name': 'k'}, 'leaves': [{'name': 'c'}]}), 'new leaf': op_set('mid', 'leaf', value={'name': 'nl', 'v': 2}),
    'new items': op_set('mid', 'leaves', value=[{'name': 'd'}, {'name': 'e'}, {'name': 'f'}]), 'new item': op_set('mid', 'leaves', 0, value={'name': 'g'}),
    'append': op_call('mid', 'leaves', method='append', args=[{'name': 'h'}]), 'insert': op_call('mid', 'leaves', method='insert', args=[0, {'name': 'i'}]),
    'pop': op_call('mid', 'leaves', method='pop', args=[0]), 'new o': op_set('o', value={'leaf': {'name': 'z'}}), 'new below': op_set('o', 'leaf', value={'name': 'y'}),
    'same value': op_set('mid', 'leaf', 'v', value=7),
}
LOOKS = ['look', 'look str', 'look leaf', 'look repr']


def walk(o, m, named, chain):
    """(instance, its canonical name, its parent, its nearest instance)"""
    cn = '.'.join(named + [m['name']])
    yield o, m, cn, chain[-1] if chain else None, [x for x in chain if isinstance(x, Instance)][-1] if chain else None, chain[0] if chain else o
    for k in ('mid', 'leaf'):
        if k in m:
            for _ in walk(o[k], m[k], named + [m['name']], chain + [o]):
                yield _
    for i, x in enumerate(m.get('leaves', [])):
        for _ in walk(o['leaves'][i], x, named + [m['name']], chain + [o]):
            yield _
    if 'o' in m and 'leaf' in m['o']:
        for _ in walk(o['o']['leaf'], m['o']['leaf'], named + [m['name']], chain + [o, o['o']]):
            yield _


def look(chk, o, m, what):
    for x, d, cn, parent, inst, root in walk(o, m, [], []):
        if what != 'look leaf' or 'v' in d:
            if what != 'look str':
                chk.eq(x.canonicalName, cn, 'canonical name')
            if what in ('look', 'look str'):
                chk.eq(str(x), '<%s %s>' % (x.qualname(), cn), 'string')
        if what == 'look':
            chk.true(x._parent is parent, 'parent of %s: %r' % (cn, x._parent))
            chk.true(x._parentInstance is inst, 'parent instance of %s: %r' % (cn, x._parentInstance))
            chk.true(x._root is root, 'root of %s: %r' % (cn, x._root))
        if what == 'look repr':
            r = repr(x)
            chk.true('name=%r' % d['name'] in r, 'representation %s of %s' % (r, cn))


def names_run(c, lazy, watched, seq):
    top = family(lazy)['Top'](start())
    m = start()
    if watched:
        look(c, top, m, 'look')
    n = 0
    for op in seq:
        if op in LOOKS:
            look(c, top, m, op)
            continue
        by_item, by_attr = OPS[op]
        a, b = outcome(by_item if n % 2 else by_attr, top), outcome(by_item, m)
        c.eq(a[0], b[0], '%s: %r' % (op, a[1]))
        n += 1
    look(c, top, m, 'look')
    look(c, top, m, 'look repr')
    # the name of an instance is serialized, its canonical name never
    data = top.do_serialize()
    c.eq(plain(data), plain(m), 'serialized')
    return plain(data)


def plain(x):
    if isinstance(x, dict) or hasattr(x, 'keys'):
        return {k: plain(x[k]) for k in x if not (k == 'leaves' and not len(x[k]))}
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


# ------------------------------------------------------------------ entities
_ent = {}
KEYS = {'E1': ['id'], 'E2': ['id', 'k'], 'E3': ['k'], 'E4': ['k', 'id']}
# keys of the bases in order, unless it has its own
BASES = {'EK': [], 'S1': ['E1'], 'M1': ['E1', 'EK'], 'M2': ['EK', 'E1'], 'M3': ['M2'], 'M4': ['M1', 'E2'], 'O1': ['M1']}
OWN = {'EK': ['k'], 'O1': ['v']}
ROOTS = list(KEYS)


def _inherited():
    for n, bs in BASES.items():
        ks = []
        for b in bs:
            ks += [k for k in KEYS[b] if k not in ks]
        KEYS[n] = OWN.get(n, ks)


_inherited()


def entities():
    if not _ent:
        uri = URI % next(_count)
        for n, pk in KEYS.items():
            sc = {'type': 'object', 'properties': {'id': {'type': 'integer'}, 'k': {'type': 'string'}, 'v': {'type': 'integer'}}}
            if n in OWN or n in ROOTS:
                sc['primaryKeys'] = pk
            if n == 'E3':
                sc['notSerialized'] = ['k']
            _ent[n] = SchemaMetaclass(n, tuple(_ent[b] for b in BASES.get(n, [])) or (Entity,), {'_schema': sc, '_id': '%s#/$defs/%s' % (uri, n)})
        sc = {'type': 'object', 'properties': {n: {'$ref': '%s#/$defs/%s' % (uri, n)} for n in KEYS}}
        sc['properties']['l'] = {'type': 'array', 'items': {'$ref': '%s#/$defs/E1' % uri}}
        _ent['H'] = mk(sc)
    return _ent


ESTART = {n: {'id': i, 'k': 'k%d' % i, 'v': i * 2} for i, n in enumerate(KEYS)}
ESTART['l'] = [{'id': 7, 'k': 'q'}, {'id': 8}]
EOPS = {}
for _n in ROOTS + ['M2', 'M4']:
    EOPS['%s id' % _n] = op_set(_n, 'id', value=11)
    EOPS['%s k' % _n] = op_set(_n, 'k', value='w')
    EOPS['%s new' % _n] = op_set(_n, value={'id': 21, 'k': 'n'})
EOPS['E3 empty'] = op_set('E3', 'k', value='')
EOPS['E1 0'] = op_set('E1', 'id', value=0)
EOPS['l id'] = op_set('l', 1, 'id', value=9)
EOPS['l append'] = op_call('l', method='append', args=[{'id': 10, 'v': 1}])
EOPS['E1 v'] = op_set('E1', 'v', value=5)
MODES = [{}, {'use_identity_keys': True}, {'use_entity_keys': True}, {'add_identity_keys': True}]


def keys_of(n, m):
    return [m.get(k) for k in KEYS[n]]


def ent_data(n, m, mode):
    ks = keys_of(n, m)
    if 'use_identity_keys' in mode:
        return ks[0] if len(ks) == 1 else ks
    if 'use_entity_keys' in mode:
        return {KEYS[n][0]: ks[0]}
    return {k: v for k, v in m.items() if not (n == 'E3' and k == 'k' and not mode)}


def native(x):
    if hasattr(x, 'keys'):
        return {k: native(x[k]) for k in x}
    if not isinstance(x, str) and hasattr(x, '__iter__'):
        return [native(y) for y in x]
    return x


def entity_run(c, seq):
    h = entities()['H'](copy.deepcopy(ESTART))
    m = copy.deepcopy(ESTART)
    for op in seq:
        do = EOPS[op][0]
        c.eq(outcome(do, h)[0], 'ok', op)
        do(m)
        for n in KEYS:
            c.eq(list(h[n].identityKeys), keys_of(n, m[n]), 'identity keys of %s after %s' % (n, op))
            c.eq(str(h[n]), '<%s %s>' % (h[n].qualname(), ', '.join(map(str, keys_of(n, m[n])))), 'string of %s' % n)
    for n in KEYS:
        c.eq(list(h[n].primaryKeys), KEYS[n], 'primary keys')
        c.eq(outcome(setattr, h[n], 'identityKeys', [1])[0], 'err', 'identity keys are set')
    for mode in MODES + MODES[:1]:
        for n in KEYS:
            if 'use_entity_keys' in mode and len(KEYS[n]) > 1:
                continue
            c.eq(native(h[n].do_serialize(**mode)), ent_data(n, m[n], mode), '%s serialized with %s' % (n, mode))
        if 'use_entity_keys' in mode:
            c.eq(native(h.do_serialize(only=['E1', 'l', 'E3', 'id', 'k', 'v'], **mode)),
                 dict({n: ent_data(n, m[n], mode) for n in ('E1', 'E3')}, l=[ent_data('E1', x, mode) for x in m['l']]), 'holder serialized with %s' % mode)
        else:
            c.eq(native(h.do_serialize(**mode)), dict({n: ent_data(n, m[n], mode) for n in KEYS}, l=[ent_data('E1', x, mode) for x in m['l']]), 'holder serialized with %s' % mode)
    c.eq(native(h.do_serialize(root_entity=True)), native(h.do_serialize()), 'entities in full')
    return sorted(plain(m).items())


# ------------------------------------------------------------------ properties computed from others, declared by the decorator
DSCHEMA = {'type': 'object', 'properties': {'a': {'type': 'integer'}, 'b': {'type': 'integer'}, 's': {'type': 'integer'}, 'p': {'type': 'integer'}, 'u': {'type': 'integer'}}}
DOPS = [('a', 1), ('a', 5), ('b', 3), ('b', 0), ('look', None), ('u', 4)]


def computed(sub):
    class Mixin(object):
        @depend_on_prop('a', 'b')
        def get_s(self):
            return (self.a or 0) + (self.b or 0)

        @depend_on_prop('s')
        def get_p(self):
            return self.s * 10
    attrs = {k: v for k, v in Mixin.__dict__.items() if k.startswith('get_')}
    cls = mk(DSCHEMA, (), 'D', **attrs)
    return mk({'type': 'object', 'properties': {'z': {'type': 'integer'}}}, (cls,), 'DS') if sub else cls


_dep = {}


def depend_run(c, sub, seq):
    if sub not in _dep:
        _dep[sub] = computed(sub)
    o, other = _dep[sub](), _dep[sub](a=100)
    m = {'a': None, 'b': None}
    for k, v in seq:
        if k == 'look':
            s = (m['a'] or 0) + (m['b'] or 0)
            c.eq((o.s, o.p, o['p'], o['s']), (s, 10 * s, 10 * s, s), 'computed from %s' % m)
        else:
            setattr(o, k, v)
            m[k] = v
    s = (m['a'] or 0) + (m['b'] or 0)
    c.eq((o.p, o.s), (10 * s, s), 'computed from %s' % m)
    c.eq((other.s, other.p), (100, 1000), 'computed of another object')
    return tuple(sorted(m.items(), key=str))


def check(chk):
    th = chk.thorough
    jobs = []
    d = 3 if th else 2
    for lazy in (False, True):
        for watched in (False, True):
            jobs += explore_sequences(chk, 'names/%s/%s' % ('lazy' if lazy else 'eager', watched), list(OPS) + LOOKS[:], d + (1 if th and not lazy and watched else 0),
                                      lambda seq, lazy=lazy, watched=watched: names_run(chk, lazy, watched, seq), split=1)
    de = 4 if th else 3
    jobs += explore_sequences(chk, 'entities', list(EOPS), de - 1, lambda seq: entity_run(chk, seq), split=1)
    dd = 6 if th else 5
    for sub in (False, True):
        jobs += explore_sequences(chk, 'computed/%s' % sub, DOPS, dd, lambda seq, sub=sub: depend_run(chk, sub, seq), split=1)
    chk.bounds = ('every sequence of up to %d renamings, replacements, insertions, removals and readings on a tree of 7 instances (one below a plain object), eager and lazy; of up to %d '
                  'changes of 4 kinds of entities and a list, in 4 serializations; of up to %d changes and readings of chained computed properties' % (d, de - 1, dd))
    chk.parallel(jobs)
