# -*- coding: utf-8 -*-
"""C03: aliases, negated aliases and translated names are views of one property."""
import itertools

from mc.core import explore_sequences, chunked, outcome, Mismatch
from mc.real import mk, evaluate, Reject

SCHEMA = {
    'type': 'object',
    'properties': {
        'i': {'type': 'integer', 'minimum': 0, 'maximum': 9},
        'j': {'type': 'number', 'maximum': 5},
        'a-b': {'type': 'string', 'maxLength': 3},
        'c d': {'type': 'integer'},
        'dd': {'type': 'integer', 'default': 4},
        't': {'type': 'string'},
    },
    'aliases': {'al': 'i', 'bl': 'i', 'da': 'dd'},
    'negatedAliases': {'na': 'j'},
    'additionalProperties': False,
}
PROPS = SCHEMA['properties']
# name -> property, sign, and whether the name can be an attribute
NAMES = {'i': ('i', 1), 'al': ('i', 1), 'bl': ('i', 1), 'j': ('j', 1), 'na': ('j', -1), 'a-b': ('a-b', 1), 'a_b': ('a-b', 1),
         'c d': ('c d', 1), 'cd': ('c d', 1), 'dd': ('dd', 1), 'da': ('dd', 1)}


def model_set(m, name, v):
    p, sign = NAMES[name]
    if v is None:
        if sign < 0:
            raise Reject(v)
        m[p] = PROPS[p].get('default')
        return
    if sign < 0:
        if isinstance(v, str):
            raise Reject(v)
        v = -v
    m[p] = evaluate(PROPS[p]['type'], PROPS[p], v)


def init():
    return {'i': None, 'j': None, 'a-b': None, 'c d': None, 'dd': 4, 't': None}


VALUES = {'i': [5, '7', 12, 0], 'al': [6, '8', -1], 'bl': [0], 'j': [2, '3', 7], 'na': [-4, 1.5, -6, 0, 'x'], 'a-b': ['p', 'pqrs'],
          'a_b': ['q', 'qrst', ''], 'c d': [1, 'x'], 'cd': ['2', 'y'], 'dd': [8], 'da': [9, 'z']}
OPS = [(how, n, v) for n, vs in VALUES.items() for v in vs for how in ('attr', 'item', 'update')]
SMALL = [('attr', 'i', 5), ('item', 'al', '8'), ('attr', 'al', -1), ('item', 'bl', 0), ('item', 'j', 2), ('attr', 'na', -4), ('item', 'na', 1.5),
         ('attr', 'na', -6), ('item', 'a-b', 'p'), ('attr', 'a_b', 'qrst'), ('item', 'a_b', 'q'), ('item', 'c d', 1), ('attr', 'cd', '2'),
         ('attr', 'da', 9), ('read', 'al', None), ('read', 'na', None)]


def observe(chk, o, m):
    chk.eq(sorted(o), sorted(m), 'keys')
    for n, (p, sign) in NAMES.items():
        want = m[p] if sign > 0 or m[p] is None else -m[p]
        chk.eq(o[n], want, 'item %r' % n)
        chk.eq(getattr(o, n), want, 'attribute %r' % n)
        chk.eq(o.get(n, 'dflt'), 'dflt' if want is None else want, 'get %r' % n)
        chk.true(n in o, '%r in' % n)
    ser = o.do_serialize()
    for n in ('al', 'bl', 'i'):
        chk.eq(ser.get(n), m['i'], 'serialized %s' % n)
    if m['j'] is not None:
        chk.eq(ser.get('na'), -m['j'], 'serialized na')
    chk.eq(ser.get('a-b'), m['a-b'], 'serialized a-b')
    chk.true('a_b' not in ser and 'cd' not in ser, 'translated name serialized')


def check(chk):
    classes = {}

    def cls(kind):
        if kind not in classes:
            if kind == 'derived':
                b = cls('base')
                classes[kind] = mk({'type': 'object', 'extends': [b._id], 'properties': {'own': {'type': 'integer'}},
                                    'additionalProperties': False}, (b,))
            else:
                classes[kind] = mk(dict(SCHEMA, **({'lazyLoading': True} if kind == 'lazy' else {})))
        return classes[kind]

    def run(kind, seq):
        o, m = cls(kind)(), init()
        if kind == 'derived':
            m['own'] = None
        for how, n, v in seq:
            if how == 'read':
                if m[NAMES[n][0]] is not None:
                    o[n], getattr(o, n)
                continue

            def real():
                if how == 'attr':
                    setattr(o, n, v)
                elif how == 'item':
                    o[n] = v
                else:
                    o.update({n: v})
            want, got = outcome(model_set, m, n, v), outcome(real)
            if want[0] == 'err' and not isinstance(want[1], Reject):
                raise want[1]
            if got[0] != want[0]:
                raise Mismatch('%s: %s' % ((how, n, v), 'accepted, expected to be rejected' if got[0] == 'ok' else 'rejected: %r' % got[1]))
        observe(chk, o, m)
        return m

    def ctor(c, item):
        kind, kw, how = item

        def go():
            m = init()
            if kind == 'derived':
                m['own'] = None

            def build():
                for n, v in kw.items():
                    model_set(m, n, v)
            want = outcome(build)
            got = outcome(lambda: cls(kind)(dict(kw)) if how == 'mapping' else cls(kind)(**kw))
            if got[0] != want[0]:
                raise Mismatch('%s' % ('accepted, expected to be rejected' if got[0] == 'ok' else 'rejected: %r' % got[1]))
            if got[0] == 'ok':
                observe(c, got[1], m)
                return m
            return 'rejected'
        c.case('constructor', item, go)

    def template(c, item):
        kind, name, v, w = item

        def go():
            o = cls(kind)(t='{{ i }}-{{ j }}', i=1, j=2)
            m = init()
            m.update(i=1, j=2)
            chk.eq(o.t, '1-2', 'before')
            for x in (v, w):
                o[name] = x
                model_set(m, name, x)
                chk.eq(o.t, '%s-%s' % (m['i'], m['j']), 'after %r=%r' % (name, x))
            return m
        c.case('dependent', item, go, transitions=2)

    d = 4 if chk.thorough else 3
    jobs = explore_sequences(chk, 'histories', [('eager',) + o for o in OPS], 2, lambda s: run('eager', [o[1:] for o in s]))
    for kind in ('eager', 'derived'):
        jobs += explore_sequences(chk, '%s deep' % kind, SMALL, d, lambda s, kind=kind: run(kind, s), min_depth=1)
    kws = []
    for a, b, e, f in itertools.product([None, ('i', 5), ('al', '6'), ('bl', 7), ('i', 12), ('al', 12)],
                                        [None, ('j', 2), ('na', -3), ('na', -6)],
                                        [None, ('a-b', 'p'), ('a_b', 'q'), ('a_b', 'qrst')],
                                        [None, ('c d', 1), ('cd', '2'), ('da', 9)]):
        kws.append(dict(x for x in (a, b, e, f) if x))
    jobs += chunked(chk, [(k, kw, h) for k in ('eager', 'derived') for kw in kws for h in ('mapping', 'keywords')], ctor)
    jobs += chunked(chk, [(k, n, v, w) for k in ('eager', 'derived', 'lazy') for n, vs in (('i', (3, 4)), ('al', (3, 4)), ('j', (3, 4)), ('na', (-3, -4)))
                          for v in vs for w in vs], template, 2)
    chk.bounds = {'operations': len(OPS), 'depth': 2, 'small_operations': len(SMALL), 'small_depth': d}
    chk.parallel(jobs)
