# -*- coding: utf-8 -*-
"""C10: serialization gives exactly the wanted properties, and loading it gives the object back."""
import copy
import datetime
import itertools
from decimal import Decimal

from mc.core import chunked, outcome, typed, Mismatch
from mc.real import mk

NO = '<unset>'
SUB = {'type': 'object', 'properties': {'x': {'type': 'integer'}, 'y': {'type': 'integer', 'default': 1}, 's': {'type': 'integer'}},
       'required': ['x'], 'notSerialized': ['h']}
SCHEMA = {
    'type': 'object',
    'properties': {
        'a': {'type': 'integer', 'default': 3}, 'b': {'type': 'string'}, 'r': {'type': 'integer'}, 's': {'type': 'string'},
        'j': {'type': 'number'}, 'd': {'type': 'date'}, 'e': {'enum': ['u', 'v']}, 'f': {'type': 'boolean', 'default': True},
        'o': SUB, 'm': {'type': 'array', 'items': SUB}, 'l': {'type': 'array', 'items': {'type': 'integer'}},
        't': {'type': 'string', 'default': '{{ a }}!'}, 'p': {'type': 'path'}, 'u-i': {'type': 'uri'},
        'rd': {'type': 'integer', 'default': 2},
    },
    'required': ['b'], 'readOnly': ['r', 'rd'], 'notSerialized': ['s'],
    'aliases': {'al': 'b'}, 'negatedAliases': {'nj': 'j'},
}
CHOICES = {
    'a': [NO, 3, 0, '7'], 'b': ['q', NO], 'r': [NO, 1, 0], 's': [NO, 'hid'], 'j': [NO, 4, 0], 'd': [NO, '2020-01-02'], 'e': [NO, 'v', 'u'],
    'f': [NO, False, True], 'o': [NO, {'x': 1}, {'x': '1', 'y': 2, 's': 5}, {'y': 0}], 'm': [NO, [], [{'x': 1}, {'y': 3, 's': 0}]], 'l': [NO, [1, '2'], [0]],
    't': [NO, 'w', '3!', ''], 'p': [NO, 'a/b'], 'u-i': [NO, 'http://a.org/b'], 'rd': [NO, 0, 2], 'z': [NO, 'any', [1], 0],
}
KEYS = list(CHOICES)
SUBKEYS = ['x', 'y', 's']


def contents(n):
    base = {k: v[0] for k, v in CHOICES.items()}
    for k in range(n + 1):
        for names in itertools.combinations(KEYS, k):
            for vs in itertools.product(*[CHOICES[x][1:] for x in names]):
                c = dict(base, **dict(zip(names, vs)))
                yield {a: b for a, b in c.items() if b is not NO}


def options(thorough):
    names = KEYS + ['al', 'nj', 'x', 'y']
    flt = [((), ())] + [((k,), ()) for k in names] + [((), (k,)) for k in names]
    flt += [(('a', 'o'), ()), (('b', 'al'), ()), (('j', 'nj', 'r'), ()), (('o', 'm', 's'), ('x',)), ((), ('b', 'o')), ((), ('j', 'nj', 'y')), (('a', 'b'), ('a',)),
            (('m',), ('m',)), ((), ('b', 'al'))]
    if thorough:
        flt += [(p, ()) for p in itertools.combinations(names, 2)] + [((), p) for p in itertools.combinations(names, 2)]
    for (only, excl), nd, ro in itertools.product(flt, (True, False), (False, True)):
        if ro and len(only) + len(excl) > 1:
            continue
        yield {'only': list(only), 'excludes': list(excl), 'no_defaults': nd, 'no_readOnly': ro}


def sub_values(v):
    return {'x': None if v.get('x') is None else int(v['x']), 'y': v.get('y', 1), 's': v.get('s')}


def values(c):
    """what the object holds (native, serialized)"""
    d = {k: c.get(k) for k in SCHEMA['properties']}
    d.update({k: v for k, v in c.items() if k not in d})
    d['a'] = int(c.get('a', 3))
    d['e'] = c.get('e', 'u')
    d['f'] = c.get('f', True)
    d['rd'] = c.get('rd', 2)
    d['l'] = [int(x) for x in c.get('l', [])]
    d['m'] = [sub_values(x) for x in c.get('m', [])]
    d['o'] = sub_values(c['o']) if 'o' in c else None
    d['t'] = c.get('t', '%s!' % d['a'])
    d['j'] = None if 'j' not in c else Decimal(c['j'])
    return d


def ser_sub(v, opts):
    out = {}
    for k in SUBKEYS:
        if k in opts['excludes']:
            continue
        if opts['no_defaults'] and (v[k] is None and k != 'x' or k == 'y' and v[k] == 1):
            continue
        if opts['no_defaults'] and v[k] is None:
            pass   # a required key is kept
        out[k] = v[k]
    return out


def expected(c, opts):
    vals = values(c)
    out = {}
    defaults = {'a': 3, 'e': 'u', 'f': True, 'l': [], 'm': [], 'rd': 2, 't': '%s!' % vals['a']}
    for k, v in vals.items():
        if k == 's' or k in opts['excludes'] or opts['only'] and k not in opts['only'] or opts['no_readOnly'] and k in ('r', 'rd'):
            continue
        if opts['no_defaults']:
            if v is None and k != 'b':
                continue
            if k in defaults and v == defaults[k]:
                continue
        if k == 'o':
            v = ser_sub(v, opts) if v is not None else {}
        elif k == 'm':
            v = [ser_sub(x, opts) for x in v]
        out[k] = v
    for al, raw, f in (('al', 'b', lambda x: x), ('nj', 'j', lambda x: -x)):
        if opts['only'] and al not in opts['only'] or al in opts['excludes']:
            continue
        if out.get(raw) is not None:
            out[al] = f(out[raw])
    return out


_cls = {}


def classes(lazy):
    if lazy not in _cls:
        sc = copy.deepcopy(SCHEMA)
        if lazy:
            sc['lazyLoading'] = True
        _cls[lazy] = mk(sc)
    return _cls[lazy]


def check(chk):
    opts = list(options(chk.thorough))
    n = 3 if chk.thorough else 2
    allc = list(contents(n))
    ALL = {'only': [], 'excludes': [], 'no_defaults': True, 'no_readOnly': False}

    def one(c, item):
        content, lazy = item
        changed = {k for k in content if k != 'b'} | ({'b', 'al'} if 'b' not in content else set())
        mine = [o for i, o in enumerate(opts) if c.thorough or len(changed) < 2 or not o['only'] + o['excludes'] or len(o['only'] + o['excludes']) > 1
                or changed.intersection(o['only'] + o['excludes'])]
        if lazy and content.get('t') == '%s!' % values(content)['a']:
            return     # whether a value is a computed default is not known before what it depends on was read

        def run():
            cls = classes(lazy)
            res = []
            for o in mine:
                obj = cls(copy.deepcopy(content))
                kept = copy.deepcopy(o)
                # every set of options on an object of its own, and again after another one
                c.eq(dict(obj.do_serialize(**o)), expected(content, o), 'serialized with %r' % o)
                c.same(o, kept, 'options given')
                if not o['only'] or not o['excludes']:
                    c.eq(dict(obj.do_serialize()), expected(content, ALL), 'serialized after a serialization with %r' % o)
            obj = cls(copy.deepcopy(content))
            texts = (repr(obj), str(obj)) if not lazy else None
            for o in mine[:40]:
                obj.do_serialize(**o)
            for k, v in values(content).items():
                if k in ('d', 'p', 'u-i', 'o', 'm'):
                    continue
                c.eq(obj[k], v, 'value of %s after serializations' % k)
            if texts:
                c.same((repr(obj), str(obj)), texts, 'representations after serializations')
            # what is serialized loads as the object, hidden properties apart
            for nd in (True, False):
                data = obj.do_serialize(no_defaults=nd)
                if not nd and 'o' not in content:
                    continue     # an unset nested object is written as an empty one
                before = copy.deepcopy(data)
                for cls2 in (cls, classes(not lazy)):
                    back = cls2(copy.deepcopy(data))
                    for k in set(values(content)) - {'s'}:
                        c.true(typed(back[k]) == typed(obj[k]), '%s: %r is loaded as %r' % (k, obj[k], back[k]))
                    if 's' not in content and cls2 is cls:
                        c.true(back == obj, 'loaded object %r differs from %r' % (back, obj))
                    for k in set(back) - set(obj):
                        raise Mismatch('the loaded object has a property %s' % k)
                    c.same(data, before, 'serialized data')
                    c.eq(dict(back.do_serialize(no_defaults=nd)), dict(data), 'serialized again')
            # of the nested objects too
            for sub, want in [(obj['o'], values(content)['o'])] + list(zip(obj['m'], values(content)['m'])):
                if sub is not None:
                    c.eq(dict(sub.do_serialize()), ser_sub(want, ALL), 'nested object serialized')
            return content
        c.case('serialize', (content, lazy), run, transitions=2 * len(mine))

    items = [(x, False) for x in allc] + [(x, True) for x in (allc if chk.thorough else contents(1))]
    chk.bounds = {'contents': len(items), 'options': len(opts), 'properties_changed_together': n}
    chk.parallel(chunked(chk, items, one))
