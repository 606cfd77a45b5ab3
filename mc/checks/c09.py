"""C09: data naming its class by $schema gives an instance of it, wherever an object is expected, and back."""
import copy
import itertools

from mc.core import chunked, explore_sequences, outcome, Mismatch
from mc.real import mk, evaluate, Reject, forget_namespaces

from ngoschema.loaders.schemas import load_schema
from ngoschema.managers import type_builder
from ngoschema.managers.namespace_manager import default_ns_manager
from ngoschema.protocols import SchemaMetaclass

U1, U2, U3 = 'https://c09.org/d1', 'https://c09.org/sub/d2', 'https://c09.org/d3'
INT = {'type': 'integer'}
DOC1 = {'$id': U1, '$defs': {
    'A': {'type': 'object', 'properties': {'a': dict(INT, default=1), 'n': {'$ref': '#/$defs/A'}}},
    'B': {'type': 'object', 'extends': ['#/$defs/A'], 'properties': {'b': dict(INT, default=2, minimum=0)}},
    'C': {'type': 'object', 'extends': ['#/$defs/B'], 'properties': {'a': {'type': 'string'}}, 'additionalProperties': False},
    'R': {'$ref': '#/$defs/B'},
    'L': {'type': 'object', 'extends': ['#/$defs/A'], 'lazyLoading': True, 'properties': {'l': {'type': 'array', 'items': {'$ref': '#/$defs/A'}}}},
}}
DOC2 = {'$id': U2, '$defs': {'D': {'type': 'object', 'extends': [U1 + '#/$defs/A'], 'properties': {'d': dict(INT, default=5)}},
                              'A': {'type': 'object', 'extends': [U1 + '#/$defs/A'], 'properties': {'m': {'$ref': '#/$defs/A'}}}}}
HOLDER = {
    'type': 'object',
    'properties': {
        'one': {'$ref': U1 + '#/$defs/A'}, 'many': {'type': 'array', 'items': {'$ref': U1 + '#/$defs/A'}},
        'deep': {'type': 'object', 'properties': {'in': {'$ref': U1 + '#/$defs/A'}}, 'default': {}}, 'b': {'$ref': U1 + '#/$defs/B'},
        'tup': {'type': 'array', 'items': [INT, {'$ref': U1 + '#/$defs/A'}]},
    },
    'patternProperties': {'^p_': {'$ref': U1 + '#/$defs/A'}},
    'additionalProperties': {'$ref': U1 + '#/$defs/A'},
}
ID = {'A': U1 + '#/$defs/A', 'B': U1 + '#/$defs/B', 'C': U1 + '#/$defs/C', 'R': U1 + '#/$defs/R', 'L': U1 + '#/$defs/L', 'D': U2 + '#/$defs/D', 'E': U2 + '#/$defs/A', 'P': U3 + '#/$defs/P'}
FIELDS = {
    'A': {'a': ('integer', {}, 1), 'n': ('A', None, None)},
    'P': {'p': ('integer', {}, 7)}, 'B': {'b': ('integer', {'minimum': 0}, 2)}, 'C': {'a': ('string', {}, None)}, 'D': {'d': ('integer', {}, 5)}, 'L': {'l': ('[A]', None, [])}, 'E': {'m': ('E', None, None)},
}
BASES = {'A': [], 'B': ['A'], 'C': ['B', 'A'], 'D': ['A'], 'P': ['A'], 'L': ['A'], 'E': ['A']}
_built = {}
CREATED = []


def setup():
    if _built:
        return _built
    load_schema(copy.deepcopy(DOC1))
    load_schema(copy.deepcopy(DOC2))
    for n in 'ABCRLDE':
        _built[n] = type_builder.load(ID[n])
    a = _built['A']

    def init(self, *args, **kw):
        CREATED.append(1)
        a.__init__(self, *args, **kw)
    _built['P'] = SchemaMetaclass('P', (a, ), {'_schema': {'type': 'object', 'properties': {'p': dict(INT, default=7)}}, '_id': ID['P'], '__init__': init})
    _built['H'] = mk(HOLDER)
    _built['HL'] = mk(dict(HOLDER, lazyLoading=True))
    return _built


def fields(n):
    r = {}
    for c in reversed([n] + BASES[n]):
        r.update(FIELDS[c])
    return r


class Rec(dict):
    """the object of a class, as a dictionary"""
    def __init__(self, cls, d):
        self.cls = cls
        dict.__init__(self, d)

    def __eq__(self, other):
        return isinstance(other, Rec) and (self.cls, dict(self)) == (other.cls, dict(other))

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return '%s(%s)' % (self.cls, sorted(self.items(), key=repr))


def named(name, base):
    for n, i in ID.items():
        if name in (i, default_ns_manager.get_id_cname(i)) or name == '#' + i.split('#')[1] and ID[base].split('#')[0] == i.split('#')[0]:
            return 'B' if n == 'R' else n
    raise Reject(name)


def conv(ty, rules, v):
    if ty == '[A]':
        return [record('A', x) for x in v or []]
    if v is None:
        return None
    return record(ty, v) if ty in ('A', 'E') else evaluate(ty, rules, v)


def record(decl, raw):
    if isinstance(raw, Rec):
        return copy.deepcopy(raw)
    raw = dict(raw)
    cls = named(raw.pop('$schema'), decl) if '$schema' in raw else decl
    fs = fields(cls)
    r = Rec(cls, {k: conv(t, o, raw[k]) if k in raw else copy.copy(d) for k, (t, o, d) in fs.items()})
    for k, v in raw.items():
        if k not in fs:
            if cls == 'C':
                raise Reject(k)
            r[k] = v
    return r


def plain(o):
    """the record of a real object"""
    cls = next((n for n in 'ABCLDEP' if type(o) is _built[n]), None)
    if cls is None:
        raise Mismatch('an instance of %r' % type(o))
    r = {}
    for k in o:
        v = o[k]
        r[k] = plain(v) if k in 'nm' and v is not None else [plain(x) for x in v] if k == 'l' else v
    return Rec(cls, r)


def serialized(r, decl):
    s = {'$schema': ID[r.cls]} if r.cls != decl else {}
    fs = fields(r.cls)
    for k, v in r.items():
        if v is None or k in fs and v == fs[k][2]:
            continue
        s[k] = serialized(v, 'E' if k == 'm' else 'A') if isinstance(v, Rec) else [serialized(x, 'A') for x in v] if isinstance(v, list) else v
    return s


def unordered(s):
    if isinstance(s, dict):
        if '$schema' in s and list(s)[0] != '$schema':
            raise Mismatch('$schema is not first: %r' % list(s))
        return {k: unordered(v) for k, v in s.items()}
    return [unordered(x) for x in s] if isinstance(s, list) else s


# what an object can be given as: its class named in each way, then its content
def forms(base='A'):
    yield 'A', {}
    for n in 'ABCRLDEP':
        yield n, {'$schema': ID[n]}
        if ID[n].startswith(U1):
            yield n, {'$schema': '#' + ID[n].split('#')[1]}
        if n != 'R':
            yield n, {'$schema': default_ns_manager.get_id_cname(ID[n])}


NESTED = [{}, {'$schema': ID['B'], 'b': '4'}, {'$schema': '#/$defs/C', 'a': 5, 'n': {'$schema': ID['D'], 'd': '15'}}]
CONTENTS = [{}, {'a': '3'}] + [{'a': 4, 'n': n} for n in NESTED]
OWN = {'B': [{'b': '5'}], 'R': [{'b': 6}], 'C': [{'a': 7, 'b': '0'}], 'D': [{'d': '2'}], 'P': [{'p': '8'}], 'E': [{'m': {'a': '8'}}, {'m': {'$schema': '#/$defs/A', 'm': {'n': {'$schema': ID['E'], 'a': 6}}}}],
       'L': [{'l': [{}, {'$schema': ID['B'], 'b': '3'}]}, {'l': [{'$schema': ID['L'], 'l': [{'$schema': ID['D']}]}]}], 'A': [{'w': 1}]}
INVALID = [{'$schema': ID['B'], 'b': -1}, {'$schema': '#/$defs/C', 'zz': 1}, {'$schema': U1 + '#/$defs/Z'}, {'$schema': 'https://c09.org/none#/$defs/A'}, {'$schema': ID['D'], 'd': 'x'},
           {'$schema': ID['B'], 'a': 'x'}, {'n': {'$schema': ID['B'], 'b': 'x'}}, {'n': {'$schema': U1 + '#/$defs/Z'}}]
PLACES = {
    'one': (lambda v: {'one': v}, lambda h: h.one), 'many': (lambda v: {'many': [{}, v]}, lambda h: h.many[1]), 'deep': (lambda v: {'deep': {'in': v}}, lambda h: h['deep.in']),
    'pattern': (lambda v: {'p_x': v}, lambda h: h['p_x']), 'additional': (lambda v: {'zz': v}, lambda h: h['zz']), 'tuple': (lambda v: {'tup': [1, v]}, lambda h: h.tup[1]),
}
SET = {
    'one': lambda h, v: setattr(h, 'one', v), 'many': lambda h, v: h.many.append(v) if len(h.many) < 2 else h.many.__setitem__(1, v), 'deep': lambda h, v: h.__setitem__('deep.in', v),
    'pattern': lambda h, v: h.__setitem__('p_x', v), 'additional': lambda h, v: h.__setitem__('zz', v), 'tuple': lambda h, v: h.tup.append(v) if len(h.tup) < 2 else h.tup.__setitem__(1, v),
}


def sentence(s, place):
    """what is serialized at a place"""
    return {'one': lambda: s['one'], 'many': lambda: s['many'][1], 'deep': lambda: s['deep']['in'], 'pattern': lambda: s['p_x'], 'additional': lambda: s['zz'], 'tuple': lambda: s['tup'][1]}[place]()


def observed(chk, h, place, r, what):
    chk.eq(plain(PLACES[place][1](h)), r, what)
    # what is not there gives an empty object when the defaults are serialized too
    s = unordered(sentence(h.do_serialize(), place))
    chk.eq(s, serialized(r, 'A'), '%s, serialized' % what)


def root_case(chk, decl, raw, how):
    k = setup()
    given = copy.deepcopy(raw)
    r = record(decl, raw)
    for turn in ('first', 'second'):
        del CREATED[:]
        o = k[decl](given) if how == 'mapping' else k[decl](**given) if how == 'keywords' else k[decl](given, lazyLoading=True)
        chk.eq(len(CREATED), repr(r).count('P('), 'initialisations')
        chk.eq(plain(o), r, '%s construction' % turn)
        chk.eq(given, raw, 'the data given')
        chk.true(isinstance(o, k[r.cls]) and o == k[r.cls]({x: v for x, v in given.items() if x != '$schema'}), 'the class called directly gives another object')
        s = o.do_serialize()
        chk.eq(unordered(s), serialized(r, r.cls), 'serialized alone')
        chk.eq(plain(k[r.cls](s)), r, 'built again from its serialization')
        s = o.do_serialize(schema=True)
        chk.eq(plain(k[decl](s)), r, 'built again from its serialization with $schema')
        chk.eq(plain(copy.deepcopy(o)), r, 'deep copy')
        chk.eq(plain(o.copy()), r, 'copy')
    return r.cls, repr(r)


def place_case(chk, place, raw, how):
    k = setup()
    r = record('A', raw)
    data = PLACES[place][0](raw)
    given = copy.deepcopy(data)
    for turn in ('first', 'second'):
        del CREATED[:]
        if how in ('eager', 'lazy', 'lazy class'):
            h = k['HL'](given) if how == 'lazy class' else k['H'](given, lazyLoading=how == 'lazy')
        elif how == 'set':
            h = k['H'](PLACES[place][0]({'a': 9}))
            SET[place](h, sentence(given, place))
        elif how == 'set over another':
            h = k['H'](PLACES[place][0]({'$schema': ID['P'], 'p': 3}), lazyLoading=True)
            PLACES[place][1](h)
            SET[place](h, sentence(given, place))
        else:
            h = k['H'](PLACES[place][0]({}))
            v = k['A'](sentence(given, place))
            SET[place](h, v)
            chk.true(PLACES[place][1](h) is v, 'another object than the one given')
        observed(chk, h, place, r, '%s construction' % turn)
        if how == 'eager':
            chk.eq(len(CREATED), repr(r).count('P('), 'initialisations')
        chk.eq(given, data, 'the data given')
        again = type(h)(h.do_serialize())
        observed(chk, again, place, r, 'built again')
        chk.true(again == h, 'built again, another object')
        observed(chk, copy.deepcopy(h), place, r, 'deep copy')
    return place, repr(r)


def invalid_case(chk, place, raw, how):
    k = setup()
    given = copy.deepcopy(raw)
    if outcome(record, 'A', raw)[0] == 'ok':
        raise Mismatch('the case is wrong')
    if how == 'root':
        chk.raises(lambda: k['A'](given), Exception, 'construction')
    elif how == 'build':
        chk.raises(lambda: k['H'](PLACES[place][0](given)), Exception, 'construction')
    else:
        good = {'$schema': ID['B'], 'b': 3}
        h = k['H'](PLACES[place][0](good))
        chk.raises(lambda: SET[place](h, given), Exception, 'set')
        observed(chk, h, place, record('A', good), 'after the rejected operation')
        SET[place](h, {'$schema': ID['D'], 'd': 3})
        observed(chk, h, place, record('A', {'$schema': ID['D'], 'd': 3}), 'after it')
    chk.eq(given, raw, 'the data given')
    return place, how


# ------------------------------------------------------------------ histories
VALUES = [{'a': 2}, {'$schema': ID['B'], 'b': '4'}, {'$schema': '#/$defs/C', 'n': {'$schema': ID['B']}}, {'$schema': ID['D']}]
HOPS = [('set', p, i) for p in ('one', 'many', 'additional') for i in range(len(VALUES))] + [('a', p, None) for p in ('one', 'many', 'additional')] + \
       [('n', p, i) for p in ('one', 'many') for i in (1, 3)] + [('bad', p, i) for p in ('one', 'many') for i in (0, 2)] + \
       [('reload', None, None), ('copy', None, None), ('move', 'one', 'many'), ('move', 'many', 'additional'), ('read', None, None)]
PS = ('one', 'many', 'additional')


def history_run(chk, lazy, seq):
    k = setup()
    first = VALUES[1]
    raws = copy.deepcopy(VALUES)
    h = k['H'](dict(PLACES['one'][0](raws[0]), **dict(PLACES['many'][0](raws[1]), **PLACES['additional'][0](raws[2]))), lazyLoading=lazy)
    m = {'one': record('A', VALUES[0]), 'many': record('A', VALUES[1]), 'additional': record('A', VALUES[2])}
    for op, p, i in seq:
        if op == 'set':
            SET[p](h, raws[i])
            m[p] = record('A', VALUES[i])
        elif op == 'a':
            PLACES[p][1](h).a = '8'
            m[p]['a'] = '8' if m[p].cls == 'C' else 8
        elif op == 'n':
            PLACES[p][1](h).n = raws[i]
            m[p]['n'] = record('A', VALUES[i])
        elif op == 'bad':
            got = outcome(SET[p], h, copy.deepcopy(INVALID[i]))
            if got[0] == 'ok':
                chk.true(lazy and outcome(PLACES[p][1], h)[0] == 'err', 'accepted')
                SET[p](h, raws[3])
                m[p] = record('A', VALUES[3])
        elif op == 'reload':
            h = k['H'](h.do_serialize(), lazyLoading=lazy)
        elif op == 'copy':
            h = copy.deepcopy(h)
        elif op == 'move':
            SET[i](h, PLACES[p][1](h).do_serialize(schema=True))
            m[i] = record('A', m[p])
        else:
            for p in PS:
                plain(PLACES[p][1](h))
    for p in PS:
        observed(chk, h, p, m[p], p)
    chk.eq(raws, VALUES, 'the data given')
    return repr(m)


def check(chk):
    forget_namespaces()
    setup()
    jobs = []
    raws = [dict(f, **c) for n, f in forms() for c in CONTENTS + OWN[n]]
    roots = [(d, r, how) for d in 'ABPL' for r in raws for how in ('mapping', 'keywords', 'lazy')
             if d == 'A' or r.get('$schema') and outcome(record, d, r)[0] == 'ok' and d in [record(d, r).cls] + BASES[record(d, r).cls]]
    jobs += chunked(chk, roots, lambda c, x: c.case('root', x, lambda: root_case(c, *x), transitions=8), 8)
    hows = ('eager', 'lazy', 'lazy class', 'set', 'set over another', 'instance')
    places = [(p, r, how) for p in PLACES for r in raws for how in (hows if chk.thorough or p in ('one', 'many') else ('eager', 'lazy', 'set'))]
    jobs += chunked(chk, places, lambda c, x: c.case('place', x, lambda: place_case(c, *x), transitions=8), 16)
    bad = [(p, r, how) for p in PLACES for r in INVALID for how in ('root', 'build', 'set')]
    jobs += chunked(chk, bad, lambda c, x: c.case('invalid', x, lambda: invalid_case(c, *x), transitions=3), 8)
    d = 3 if chk.thorough else 2
    for lazy in (False, True):
        jobs += explore_sequences(chk, 'histories/%s' % ('lazy' if lazy else 'eager'), HOPS, d, lambda s, lazy=lazy: history_run(chk, lazy, s))
    chk.bounds = {'forms of the data': len(raws), 'places': len(PLACES), 'ways': len(hows), 'invalid': len(INVALID), 'operations': len(HOPS), 'depth': d}
    chk.parallel(jobs)
