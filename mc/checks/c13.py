"""C13: instances, types and classes keep to themselves: nothing done to one is seen in another, nor in what was given to build it."""
import copy
import gc
import itertools

from mc.core import chunked, explore_sequences, outcome, Mismatch
from mc.real import mk, evaluate, forget_namespaces, Reject

from ngoschema.types import Array, Boolean, Enum, Integer, Number, Object, String

INT = {'type': 'integer', 'minimum': 0}
SUB = {'type': 'object', 'properties': {'x': dict(INT, default=1), 'l': {'type': 'array', 'items': INT, 'default': [5]}}}
SCHEMA = {
    'type': 'object',
    'properties': {
        'i': dict(INT, default=2), 's': {'type': 'string', 'default': '{{ i }}!'},
        'o': dict(SUB, default={'x': 3}), 'n': SUB, 'l': {'type': 'array', 'items': INT, 'default': [1, 2]}, 'm': {'type': 'array', 'items': SUB, 'default': [{'x': 4}]},
    },
    'patternProperties': {'^p_': INT},
}
DERIVED = {'type': 'object', 'properties': {'j': dict(INT, default=6)}}
START = {'i': 2, 's': '2!', 'o': {'x': 3, 'l': [5]}, 'n': None, 'l': [1, 2], 'm': [{'x': 4, 'l': [5]}]}
RAW = {'n': {'x': 7, 'l': [8]}, 'l': [9], 'm': [{'x': 8}], 'p_a': '3'}
_built = {}


def classes(lazy):
    if lazy not in _built:
        sc = copy.deepcopy(SCHEMA)
        if lazy:
            sc['lazyLoading'] = True
        k = mk(sc)
        _built[lazy] = k, mk(DERIVED, (k, )), sc
    return _built[lazy]


def rec(cls, **kw):
    r = copy.deepcopy(START)
    if cls == 'd':
        r['j'] = 6
    r.update(copy.deepcopy(kw))
    return r


def sub(v):
    return dict({'x': 1, 'l': [5]}, **copy.deepcopy(v))


# the operations on one of the instances; raw is given to several of them
OPS = {
    'i': (lambda o, r: setattr(o, 'i', '4'), lambda m, r: m.update(i=4)),
    'del': (lambda o, r: o.__delitem__('p_a'), lambda m, r: m.pop('p_a')),
    'append': (lambda o, r: o.l.append('3'), lambda m, r: m['l'].append(3)),
    'l0': (lambda o, r: o.l.__setitem__(0, 0), lambda m, r: m['l'].__setitem__(0, 0)),
    'o.x': (lambda o, r: setattr(o.o, 'x', 0), lambda m, r: m['o'].update(x=0)),
    'o.l': (lambda o, r: o.o.l.append(6), lambda m, r: m['o']['l'].append(6)),
    'm': (lambda o, r: o.m.append({}), lambda m, r: m['m'].append(sub({}))),
    'm0': (lambda o, r: setattr(o.m[0], 'x', 9), lambda m, r: m['m'][0].update(x=9)),
    'n raw': (lambda o, r: setattr(o, 'n', r['n']), lambda m, r: m.update(n=copy.deepcopy(r['n']))),
    'n.x': (lambda o, r: o.n is not None and setattr(o.n, 'x', 0), lambda m, r: m['n'] and m['n'].update(x=0)),
    'n.l': (lambda o, r: o.n is not None and o.n.l.append(6), lambda m, r: m['n'] and m['n']['l'].append(6)),
    'l raw': (lambda o, r: setattr(o, 'l', r['l']), lambda m, r: m.update(l=list(r['l']))),
    'm raw': (lambda o, r: o.__setitem__('m', r['m']), lambda m, r: m.update(m=[sub(x) for x in r['m']])),
    'zz raw': (lambda o, r: o.__setitem__('p_b', '1'), lambda m, r: m.update(p_b=1)),
    's': (lambda o, r: setattr(o, 's', 'k{{ i }}'), lambda m, r: m.update(s='k')),
    'read': (lambda o, r: [o[k] for k in o], lambda m, r: None),
    'serialize': (lambda o, r: o.do_serialize(no_defaults=False), lambda m, r: None),
}
SMALL = ['append', 'o.l', 'm0', 'n raw', 'n.l', 'i', 'o.x', 'read']


def content(chk, o, m, what):
    m = dict(m)
    m['s'] = '%s%s!' % ('', m['i']) if m['s'] != 'k' else 'k%s' % m['i']
    chk.eq(sorted(o), sorted(m), 'keys of %s' % what)
    for k, v in m.items():
        chk.eq(o[k], v, '%r of %s' % (k, what))


def instances_run(chk, lazy, start, seq):
    k, d, sc = classes(lazy)
    raw, given = copy.deepcopy(RAW), copy.deepcopy(SCHEMA)
    if start == 'shared':
        # built with the very same data
        os = [k(raw), d(raw), k(raw)]
        kw = {'n': RAW['n'], 'l': [9], 'm': [sub(x) for x in RAW['m']], 'p_a': 3}
    else:
        os, kw = [k(), d(), k()], {}
    ms = [rec('k', **kw), rec('d', **kw), rec('k', **kw)]
    for who, op in seq:
        real, model = OPS[op]
        got = outcome(real, os[who], raw)
        exp = outcome(model, ms[who], RAW)
        chk.eq(got[0], exp[0], 'operation %s (%r)' % (op, got[1]))
    for i in (2, 1, 0):
        content(chk, os[i], ms[i], 'instance %d' % i)
    chk.eq(raw, RAW, 'the data given')
    content(chk, k(), rec('k'), 'a new instance')
    content(chk, d(), rec('d'), 'a new instance of the subclass')
    return repr(ms)


# ------------------------------------------------------------------ types built with options
def conv(sc, v):
    if v is None:
        return sc.get('default', sc['enum'][0] if 'enum' in sc else None)
    if sc.get('type') == 'array':
        return [conv(sc.get('items', {}), x) for x in v]
    if 'type' not in sc and 'enum' not in sc:
        return v
    return evaluate(sc.get('type', 'enum'), sc, v)


def obj(properties={}, additionalProperties=True, patternProperties={}, **kw):
    def model(v):
        r = {}
        for k, x in v.items():
            if k in properties:
                r[k] = conv(properties[k], x)
            elif any(k.startswith(p[1:]) for p in patternProperties):
                r[k] = conv([t for p, t in patternProperties.items() if k.startswith(p[1:])][0], x)
            elif additionalProperties is False:
                raise Reject(k)
            else:
                r[k] = conv(additionalProperties, x) if additionalProperties is not True else x
        for k, t in properties.items():
            r.setdefault(k, t.get('default'))
        return r
    kws = {k: v for k, v in (('properties', properties), ('patternProperties', patternProperties)) if v}
    if additionalProperties is not True:
        kws['additionalProperties'] = additionalProperties
    return Object, dict(kws, **kw), model, [{}, {'a': '3'}, {'a': -1}, {'a': 'x'}, {'b': '2'}, {'p_a': '4'}, {'p_a': 'w', 'a': 1}]


def arr(items=None, uniqueItems=False, splitString=False, strDelimiter=',', **kw):
    def model(v):
        if isinstance(v, str):
            v = [x.strip() for x in v.split(strDelimiter)] if splitString else [v]
        r = [conv(items or {}, x) for x in v]
        if uniqueItems and len(set(map(repr, r))) != len(r):
            raise Reject(v)
        return r
    kws = {k: v for k, v, d in (('items', items, None), ('uniqueItems', uniqueItems, False), ('splitString', splitString, False),
                                ('strDelimiter', strDelimiter, ',')) if v != d}
    return Array, dict(kws, **kw), model, [['1', 2], [1, 1], ['x'], [-1], '1,2', '1;2', '3']


def scal(cls, ty, **kw):
    return cls, kw, lambda v: conv(dict(kw, type=ty), v), ['3', 7, -2, 'ab', 0, None]


TYPES = {
    'Integer': scal(Integer, 'integer'), 'Integer>=0': scal(Integer, 'integer', minimum=0), 'Integer<=5': scal(Integer, 'integer', maximum=5),
    'Integer=4': scal(Integer, 'integer', default=4), 'Number': scal(Number, 'number'), 'Number*2': scal(Number, 'number', multipleOf=2),
    'String': scal(String, 'string'), 'String3': scal(String, 'string', minLength=2, default='dd'),
    'Enum': scal(Enum, 'enum', enum=['ab', 'b']), 'Enum2': scal(Enum, 'enum', enum=[7, '3']),
    'Array': arr(), 'Arrayi': arr(items=INT), 'Arrays': arr(items={'type': 'string'}), 'Arrayu': arr(items={'type': 'integer'}, uniqueItems=True),
    'Array,': arr(items={'type': 'integer'}, splitString=True), 'Array;': arr(splitString=True, strDelimiter=';'), 'Arrayv': arr(notValidated=['a']),
    'Object': obj(), 'Objecta': obj({'a': INT}), 'Objects': obj({'a': {'type': 'string', 'default': 'k'}, 'b': {'type': 'integer', 'default': 0}}),
    'Object!': obj({'a': {'type': 'integer'}}, additionalProperties=False), 'Object+': obj(additionalProperties={'type': 'integer'}),
    'Objectp': obj({'a': {'type': 'string'}}, patternProperties={'^p_': {'type': 'integer'}}),
    'Objectv': obj({'a': {'type': 'integer'}}, notValidated=['b'], notSerialized=['b'], readOnly=['a']),
    'Objectt': obj({'a': INT, 'b': {'type': 'string', 'default': 'w'}}), 'Arrayt': arr(items=INT),
    'Objectr': obj({'a': {'type': 'integer', 'default': 1}, 'b': {'type': 'integer'}}, required=['a']),
}


SHARED = Integer(minimum=0), String(default='w')


def options(name):
    """the options of a type, where other types may be given as such"""
    kw = copy.deepcopy(TYPES[name][1])
    if name == 'Objectt':
        kw['properties'].update(zip('ab', SHARED))
    if name == 'Arrayt':
        kw['items'] = SHARED[0]
    return kw


def use(chk, name, t):
    _, _, model, values = TYPES[name]
    for v in values:
        given = copy.deepcopy(v)
        got = outcome(t, given)
        exp = outcome(model, copy.deepcopy(v))
        what = '%s given %r' % (name, v)
        chk.eq(got[0], exp[0], '%s (%r, expected %r)' % (what, got[1], exp[1]))
        if got[0] == 'ok':
            g, e = got[1], exp[1]
            if isinstance(e, dict):
                g = dict(g)
            chk.eq(g, e, what)
        chk.eq(given, v, 'what is given to %s' % name)


def types_run(chk, seq):
    made = []
    for name in seq:
        given, kw = options(name), options(name)
        made.append((name, TYPES[name][0](**given)))
        chk.true(given == kw, 'the options given become %r' % given)
    for name, t in made:
        use(chk, name, t)
    for name, t in reversed(made):
        use(chk, name, t)
    return seq


def dropped_run(chk, names, n, rounds):
    """types built after others were dropped: none is taken for a former one"""
    for i in range(rounds):
        # each round builds other types than the former one did
        made = []
        for j in range(n):
            name = names[(i + j) % len(names)]
            made.append((name, TYPES[name][0](**options(name))))
        for name, t in made:
            use(chk, name, t)
        made = t = None
        gc.collect()
    return names


# ------------------------------------------------------------------ classes
CLASS_SCHEMAS = {
    'plain': {'type': 'object', 'properties': {'a': INT, 'b': {'type': 'string', 'default': 'k'}}},
    'closed': {'type': 'object', 'properties': {'a': INT, 'b': {'type': 'string', 'default': 'k'}}, 'additionalProperties': False},
    'readonly': {'type': 'object', 'properties': {'a': INT, 'b': {'type': 'string', 'default': 'k'}}, 'readOnly': ['b']},
    'required': {'type': 'object', 'properties': {'a': dict(INT, default=3), 'b': {'type': 'string', 'default': 'k'}}, 'required': ['a']},
    'hidden': {'type': 'object', 'properties': {'a': INT, 'b': {'type': 'string', 'default': 'k'}}, 'notSerialized': ['a'], 'notValidated': ['a']},
    'alias': {'type': 'object', 'properties': {'a': INT, 'b': {'type': 'string', 'default': 'k'}}, 'aliases': {'c': 'a'}, 'negatedAliases': {'z': 'a'}},
    'pattern': {'type': 'object', 'properties': {'a': INT, 'b': {'type': 'string', 'default': 'k'}}, 'patternProperties': {'^c': INT}},
    'retyped': {'type': 'object', 'properties': {'a': {'type': 'string', 'maxLength': 2}, 'b': dict(INT, default=3), 'z': INT}, 'additionalProperties': INT},
    'depends': {'type': 'object', 'properties': {'a': INT, 'b': {'type': 'string', 'default': '{{ a }}'}}, 'dependencies': {'b': ['a']}},
}


def behaviour(k):
    """how a class behaves, whatever the class it is"""
    res = []

    def note(fn, *args):
        r = outcome(fn, *args)
        res.append(('ok', repr(r[1])) if r[0] == 'ok' else ('err', type(r[1]).__name__))
    note(lambda: sorted(k()))
    note(lambda: k()['b'])
    for data in ({'a': '1'}, {'a': -1}, {'c': '2'}, {'c': 'x'}, {'z': -3}, {'zz': 'q'}, {'a': 1, 'b': 'w'}):
        note(lambda: sorted((n, repr(v)) for n, v in k(copy.deepcopy(data)).items()))
        note(lambda: sorted((n, repr(v)) for n, v in k(copy.deepcopy(data)).do_serialize(no_defaults=False).items()))

    def ops():
        o = k(a='1')
        r = []
        for n, v in (('a', 4), ('b', 'w'), ('c', '5'), ('z', -6), ('a', None)):
            r.append(outcome(o.__setitem__, n, v)[0])
            r.append(sorted((x, repr(o[x])) for x in o))
        r.append(outcome(o.__delitem__, 'a')[0])
        r.append(outcome(o.__delitem__, 'b')[0])
        r.append(sorted(o))
        return r
    note(ops)
    return res


def classes_run(chk, seq):
    """each class behaves as when it is alone, whatever was built (as another class, a subclass or a property type) around it"""
    made = []
    for name, how in seq:
        sc = copy.deepcopy(CLASS_SCHEMAS[name])
        if how == 'alone' or not made:
            k = mk(sc)
            made.append((name, k))
        elif how in ('sub', 'sub of used'):
            # a subclass of the former class: the former one must not change
            base, k = made[-1]
            if how == 'sub of used':
                behaviour(k)
            d = mk(sc, (k, ))
            chk.eq(behaviour(d), ALONE[base, name], 'the class %s based on %s' % (name, base))
        else:
            k = mk({'type': 'object', 'properties': {'p': sc}})
            o = k(p={'a': 1})
            outcome(o.p.__setitem__, 'b', 'zz')
    for name, k in made:
        chk.eq(behaviour(k), ALONE[name], 'the class %s' % name)
    return seq


ALONE = {}


def check(chk):
    forget_namespaces()
    for name, sc in CLASS_SCHEMAS.items():
        ALONE[name] = behaviour(mk(sc))
    for (n1, s1), (n2, s2) in itertools.product(CLASS_SCHEMAS.items(), repeat=2):
        ALONE[n1, n2] = behaviour(mk(s2, (mk(s1), )))
    depth = 3 if chk.thorough else 2
    jobs = []
    ops = [(w, op) for w in (0, 1, 2) for op in OPS]
    small = [(w, op) for w in (0, 1) for op in SMALL[:None if chk.thorough else 5]]
    for lazy in (False, True):
        for start in ('apart', 'shared'):
            name = 'instances/%s/%s' % ('lazy' if lazy else 'eager', start)
            jobs += explore_sequences(chk, name, ops, depth, lambda seq, a=(lazy, start): instances_run(chk, *a, seq))
            if start == 'shared' or chk.thorough:
                jobs += explore_sequences(chk, name + '/deep', small, depth + 1, lambda seq, a=(lazy, start): instances_run(chk, *a, seq), min_depth=depth + 1)
    jobs += explore_sequences(chk, 'types', list(TYPES), depth, lambda seq: types_run(chk, seq), min_depth=1)
    pool = ['Objecta', 'Objects', 'Object!', 'Objectp', 'Arrayi', 'Arrays', 'Arrayu', 'Objectt']
    drops = [(names, n) for k in (2, 3) for names in itertools.combinations(pool, k) for n in ((1, 2, 3, 4, 5, 6, 20) if chk.thorough else (2, 3))]
    rounds = 24 if chk.thorough else 8
    jobs += chunked(chk, drops, lambda c, d: c.case('dropped', d, lambda: dropped_run(c, *d, rounds), transitions=d[1] * rounds), 8)
    cops = [(n, how) for n in CLASS_SCHEMAS for how in ('alone', 'sub', 'sub of used', 'inner')]
    jobs += explore_sequences(chk, 'classes', cops, depth, lambda seq: classes_run(chk, seq), min_depth=1)
    chk.bounds = {'operations on three instances': len(ops), 'depth': depth, 'deep operations': len(small), 'deep depth': depth + 1,
                  'types': len(TYPES), 'types built together': depth, 'histories of dropped types': len(drops), 'rounds': rounds, 'class definitions': len(cops), 'classes built together': depth}
    chk.parallel(jobs)
