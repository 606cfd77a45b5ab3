# -*- coding: utf-8 -*-
"""C05: a lazily loaded object is, once read, the object that is built eagerly."""
import copy
import itertools

from mc.core import explore_sequences, chunked, outcome, Mismatch
from mc.real import mk, evaluate, Reject

ITEM = {'type': 'object', 'properties': {'x': {'type': 'integer', 'minimum': 0}, 'y': {'type': 'string', 'default': 'dy'}}}
SCHEMA = {
    'type': 'object',
    'properties': {
        'i': {'type': 'integer', 'minimum': 0},
        's': {'type': 'string', 'maxLength': 3, 'default': 'd'},
        'o': ITEM,
        'l': {'type': 'array', 'items': {'type': 'integer', 'minimum': 0}},
        'm': {'type': 'array', 'items': ITEM},
        't': {'type': 'string', 'default': '{{ i }}/{{ s }}'},
    },
    'patternProperties': {'^p_': {'type': 'number'}},
}
DATA = {'i': '3', 's': 12, 'o': {'x': '4'}, 'l': ['1', 2], 'm': [{'x': '5'}, {'x': 6, 'y': 'z'}], 'p_a': '1.5'}
BAD = {'i': [-1, 'x'], 's': ['long!'], 'o': [{'x': -1}, {'x': 'q'}], 'l': [[1, -2], ['x']], 'm': [[{'x': 5}, {'x': -6}]], 'p_a': ['w']}
KEYS = ['i', 's', 'o', 'l', 'm', 't', 'p_a']


def lazy_schema(mode):
    sc = copy.deepcopy(SCHEMA)
    if mode in ('top', 'all'):
        sc['lazyLoading'] = True
    if mode in ('nested', 'all'):
        sc['properties']['o']['lazyLoading'] = True
        sc['properties']['l']['lazyLoading'] = True
        sc['properties']['m']['lazyLoading'] = True
        sc['properties']['m']['items']['lazyLoading'] = True
    return sc


_cls = {}


def cls(mode, pp=True):
    """pp: with pattern properties"""
    if mode == 'keyword':
        mode = 'eager'
    if (mode, pp) not in _cls:
        sc = copy.deepcopy(SCHEMA) if mode == 'eager' else lazy_schema(mode)
        if not pp:
            del sc['patternProperties']
        _cls[mode, pp] = mk(sc)
    return _cls[mode, pp]


def build(mode, data, pp=True):
    data = copy.deepcopy(data)
    return cls(mode, pp)(data, lazyLoading=True) if mode == 'keyword' else cls(mode, pp)(data)


MODES = ['top', 'nested', 'all', 'keyword']


def plain(x):
    from collections.abc import Mapping
    if isinstance(x, Mapping):
        return {k: plain(x[k]) for k in x}
    if hasattr(x, 'insert'):
        return [plain(i) for i in x]
    return x


def want_value(k, v):
    """reference: the value a raw value stands for"""
    if k == 'i' or k == 'x':
        return None if v is None else evaluate('integer', {'minimum': 0}, v)
    if k == 's':
        return 'd' if v is None else evaluate('string', {'maxLength': 3}, v)
    if k == 'y':
        return 'dy' if v is None else evaluate('string', {}, v)
    if k == 'o':
        return None if v is None else {'x': want_value('x', v.get('x')), 'y': want_value('y', v.get('y'))}
    if k == 'l':
        return [want_value('i', x) for x in v or []]
    if k == 'm':
        return [want_value('o', x) for x in v or []]
    if k == 'p_a':
        return None if v is None else evaluate('number', {}, v)


def want(data):
    r = {k: want_value(k, data.get(k)) for k in KEYS if k != 't' and (k in data or k != 'p_a')}
    r['t'] = '%s/%s' % (r['i'], r['s'])
    return r


def check(chk):
    def reading(c, item):
        mode, order, present = item

        def go():
            data = {k: DATA[k] for k in present}
            w = want(data)
            e, z = build('eager', data), build(mode, data)
            for how in (0, 1):
                for k in order:
                    if k in w:
                        c.eq(plain(z[k] if how == 0 else getattr(z, k)), w[k], 'lazy %s' % k)
                        c.eq(plain(e[k] if how == 0 else getattr(e, k)), w[k], 'eager %s' % k)
            c.eq(plain(z.do_serialize()), plain(e.do_serialize()), 'serialized')
            c.eq(plain(z.do_serialize(no_defaults=False)), plain(e.do_serialize(no_defaults=False)), 'serialized with defaults')
            c.eq(sorted(z), sorted(e), 'keys')
            c.true(mode != 'keyword' or (z == e and e == z), 'not equal')
            return w, mode
        c.case('reading', item, go, transitions=2 * len(order))

    def unread(c, item):
        mode, present = item

        def go():
            data = {k: DATA[k] for k in present}
            e, z = build('eager', data), build(mode, data)
            c.eq(sorted(z), sorted(e), 'keys')
            c.eq(len(z), len(e), 'length')
            c.true(mode != 'keyword' or z == e, 'an unread lazy object differs')
            c.eq(plain(z), want(data), 'whole')
            z.do_validate()
            return sorted(present), mode
        c.case('unread', item, go)

    def bad(c, item):
        mode, k, v, order, pp = item
        if not pp:
            order = tuple(x for x in order if x != 'p_a')

        def go():
            data = dict({x: DATA[x] for x in DATA if x != 'p_a' or pp}, **{k: v})
            c.raises(lambda: build('eager', data, pp), ValueError, 'eager')
            # the value is rejected at the latest when it is read
            got = outcome(build, mode, data, pp)
            if got[0] == 'err':
                c.true(isinstance(got[1], ValueError), 'rejected with %r' % got[1])
                return 'rejected', mode
            z = got[1]
            good = want(DATA)
            for _ in range(2):
                for n in order:
                    got = outcome(lambda: plain(z[n]))
                    if n == k or (n == 't' and k in 'is'):
                        c.true(got[0] == 'err' if n == k else True, 'the invalid value of %s is read as %r' % (n, got[1]))
                    else:
                        c.true(got[0] == 'ok', '%s can not be read: %r' % (n, got[1]))
                        c.eq(got[1], good[n], n)
            z[k] = copy.deepcopy(DATA[k])
            for n in order:
                c.eq(plain(z[n]), good[n], 'repaired %s' % n)
            c.true(mode != 'keyword' or not pp or z == build('eager', DATA), 'repaired object differs')
            return 'repaired', mode, k
        c.case('invalid', item, go, transitions=3 * len(order))

    OPS = [('i', '7'), ('i', 8), ('s', 'ab'), ('o', {'x': '9'}), ('l', ['6']), ('m', [{'x': '1'}]), ('p_a', '2.5'),
           ('in', 'o', 'x', '3'), ('in', 'm', 0, 'x'), ('app', 'l', '5'), ('app', 'm', {'x': '2', 'y': 1}), ('item', 'l', 0, '4'), ('item', 'm', 1, {'x': '8'}),
           ('ins', 'l', 0, '9'), ('dell', 'l', 0), ('i', None), ('s', None), ('o', None), ('l', None), ('m', None), ('p_a', None), ('in', 'o', 'x', None),
           ('r', 'i'), ('r', 'o'), ('r', 'l'), ('r', 'm'), ('r', 't')]

    def apply(o, op):
        if op[0] == 'in':
            if op[1] == 'o':
                if o['o'] is not None:
                    o['o'][op[2]] = op[3]
            else:
                if len(o['m']):
                    o['m'][0]['x'] = '77'
        elif op[0] == 'app':
            o[op[1]].append(copy.deepcopy(op[2]))
        elif op[0] == 'ins':
            o[op[1]].insert(op[2], op[3])
        elif op[0] == 'item':
            if len(o[op[1]]) > op[2]:
                o[op[1]][op[2]] = copy.deepcopy(op[3])
        elif op[0] == 'dell':
            if len(o[op[1]]):
                del o[op[1]][op[2]]
        elif op[0] == 'r':
            if not isinstance(o, dict):
                plain(o[op[1]])
        elif isinstance(o, dict) and op[0] in 'olm' and op[1] is None:
            # without value, an object of defaults or an empty array
            o[op[0]] = {} if op[0] == 'o' else []
        else:
            o[op[0]] = copy.deepcopy(op[1])

    def history(mode, seq):
        m = copy.deepcopy(DATA)
        e, z = build('eager', DATA), build(mode, DATA)
        for op in seq:
            apply(m, op)
            apply(e, op)
            apply(z, op)
        w = want(m)
        c = chk
        c.eq(plain(z), w, 'lazy')
        c.eq(plain(e), w, 'eager')
        c.true(mode != 'keyword' or z == e, 'not equal')
        c.eq(plain(z.do_serialize()), plain(e.do_serialize()), 'serialized')
        return w

    d = 3 if chk.thorough else 2
    orders = list(itertools.permutations(KEYS)) if chk.thorough else \
        [p for p in itertools.permutations(KEYS) if list(p[3:]) == sorted(p[3:])] + [tuple(KEYS), tuple(reversed(KEYS))]
    subsets = [s for n in range(7) for s in itertools.combinations([k for k in KEYS if k != 't'], n)]
    jobs = chunked(chk, [(m, o, tuple(DATA)) for m in MODES for o in orders], reading)
    jobs += chunked(chk, [(m, tuple(KEYS), s) for m in MODES for s in subsets], reading, 8)
    jobs += chunked(chk, [(m, s) for m in MODES for s in subsets], unread, 8)
    jobs += chunked(chk, [(m, k, v, o, pp) for m in MODES for pp in (True, False) for k, vs in BAD.items() if pp or k != 'p_a' for v in vs
                          for o in (tuple(KEYS), tuple(reversed(KEYS)), (k,) + tuple(x for x in KEYS if x != k))], bad, 8)
    for mode in MODES:
        jobs += explore_sequences(chk, 'histories %s' % mode, OPS, d, lambda s, mode=mode: history(mode, s))
    chk.bounds = {'read_orders': len(orders), 'operations': len(OPS), 'depth': d, 'modes': MODES}
    chk.parallel(jobs)
