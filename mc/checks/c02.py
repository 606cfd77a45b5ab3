# -*- coding: utf-8 -*-
"""C02: histories of writes, deletions and reads on an object against a record of values."""
import itertools

from mc.core import chunked, explore_sequences, outcome, Mismatch
from mc.real import mk, evaluate, Reject

SCHEMA = {
    'type': 'object',
    'properties': {
        'i': {'type': 'integer', 'minimum': 0, 'maximum': 9},
        's': {'type': 'string', 'maxLength': 3, 'default': 'd'},
        'e': {'enum': ['u', 'v']},
        'r': {'type': 'integer'},
        'q': {'type': 'integer'},
        'o': {'type': 'object', 'additionalProperties': False,
              'properties': {'x': {'type': 'integer', 'minimum': 0}, 'y': {'type': 'string'}}},
        'l': {'type': 'array', 'items': {'type': 'integer', 'minimum': 0}},
    },
    'required': ['q'],
    'readOnly': ['r'],
    'patternProperties': {'^p_': {'type': 'integer', 'minimum': 0}},
    'additionalProperties': False,
}
PROPS = SCHEMA['properties']
INIT = {'r': 7, 'q': 1, 'i': '3'}
MISSING = '<missing>'


class Model:
    """a record"""

    def __init__(self):
        self.d = {'i': 3, 's': 'd', 'e': 'u', 'r': 7, 'q': 1, 'o': None, 'l': []}

    def convert(self, k, v):
        if k.startswith('p_'):
            return v if v is None else evaluate('integer', {'minimum': 0}, v)
        sc = PROPS[k]
        if k == 'o':
            if v is None:
                return None
            if not isinstance(v, dict) or set(v) - {'x', 'y'}:
                raise Reject(v)
            return {p: None if v.get(p) is None else evaluate(t['type'], t, v[p]) for p, t in sc['properties'].items()}
        if k == 'l':
            if v is None:
                return []
            if not isinstance(v, (list, tuple)):
                raise Reject(v)
            return [evaluate('integer', sc['items'], x) for x in v]
        if v is None:
            return sc.get('default', 'u' if 'enum' in sc else None)
        if 'enum' in sc:
            return evaluate('enum', sc, v)
        return evaluate(sc['type'], sc, v)

    def set(self, k, v):
        if k == 'r' or (k not in PROPS and not k.startswith('p_')):
            raise Reject(k)
        self.d[k] = self.convert(k, v)

    def delete(self, k):
        if k in ('q',) or k not in self.d:
            raise Reject(k)
        del self.d[k]

    def setin(self, k, p, v):
        if self.d.get(k) is None:
            raise Reject(k)
        if k == 'o':
            if p not in ('x', 'y'):
                raise Reject(p)
            t = PROPS['o']['properties'][p]
            self.d['o'][p] = evaluate(t['type'], t, v)
        else:
            x = evaluate('integer', {'minimum': 0}, v)
            if p == 'append':
                self.d['l'].append(x)
            else:
                if p >= len(self.d['l']):
                    raise Reject(p)
                self.d['l'][p] = x


def plain(x):
    from collections.abc import Mapping
    if isinstance(x, Mapping):
        return {k: plain(x[k]) for k in x}
    if hasattr(x, 'insert'):
        return [plain(i) for i in x]
    return x


def apply_real(o, op):
    how, k, v = op
    if how == 'attr':
        setattr(o, k, v)
    elif how == 'item':
        o[k] = v
    elif how == 'delattr':
        delattr(o, k)
    elif how == 'delitem':
        del o[k]
    elif how == 'pop':
        o.pop(k)
    elif how == 'update':
        o.update({k: v})
    elif how == 'in':            # through the value itself
        c, p = k
        if p == 'append':
            o[c].append(v)
        elif isinstance(p, int):
            o[c][p] = v
        else:
            setattr(o[c], p, v)
    elif how == 'path':          # through a path
        c, p = k
        o['%s[%d]' % (c, p) if isinstance(p, int) else '%s.%s' % (c, p)] = v
    elif how == 'read':
        if k == 'repr':
            repr(o), str(o)
        else:
            o[k], getattr(o, k)


def apply_model(m, op):
    how, k, v = op
    if how in ('attr', 'item', 'update'):
        m.set(k, v)
    elif how in ('delattr', 'delitem', 'pop'):
        m.delete(k)
    elif how in ('in', 'path'):
        if how == 'path' and k[0] in m.d and m.d[k[0]] is None:
            return   # nothing to be reached: nothing is done
        m.setin(k[0], k[1], v)
    elif how == 'read' and k != 'repr' and k not in m.d:
        raise Reject(k)


CORE = [
    ('attr', 'i', 5), ('item', 'i', '8'), ('attr', 'i', 10), ('item', 'i', 'x'), ('attr', 'i', None),
    ('delattr', 'i', None), ('delitem', 'i', None),
    ('attr', 's', 'ab'), ('item', 's', 'abcd'), ('delitem', 's', None),
    ('attr', 'e', 'v'), ('item', 'e', 'w'),
    ('attr', 'r', 1), ('item', 'r', 1), ('attr', 'q', 2), ('delitem', 'q', None), ('delattr', 'q', None),
    ('item', 'zz', 1), ('attr', 'zz', 1), ('item', 'p_a', '4'), ('item', 'p_a', -1), ('delitem', 'p_a', None),
    ('item', 'o', {'x': '1'}), ('attr', 'o', {'x': -1}), ('attr', 'o', {'zz': 1}), ('delitem', 'o', None),
    ('in', ('o', 'x'), 4), ('in', ('o', 'x'), -4), ('in', ('o', 'y'), 'q'), ('in', ('o', 'zz'), 1),
    ('path', ('o', 'x'), '6'), ('path', ('o', 'x'), -6), ('path', ('o', 'y'), 'p'),
    ('attr', 'l', [1, '2']), ('item', 'l', [1, -1]), ('in', ('l', 'append'), '3'), ('in', ('l', 'append'), -1),
    ('in', ('l', 0), '9'), ('in', ('l', 0), -9), ('path', ('l', 0), '7'), ('path', ('l', 0), -7), ('path', ('l', 1), 0),
    ('update', 'i', 6), ('update', 's', 'abcd'), ('pop', 'i', None),
    ('read', 'i', None), ('read', 'o', None), ('read', 'repr', None),
]
SMALL = [('attr', 'i', 5), ('item', 'i', 'x'), ('delitem', 'i', None), ('item', 's', 'ab'), ('attr', 's', 'abcd'),
         ('item', 'p_a', '4'), ('delitem', 'p_a', None), ('item', 'o', {'x': '1'}), ('in', ('o', 'x'), -4), ('path', ('o', 'x'), '6'),
         ('delitem', 'o', None), ('attr', 'l', [1, '2']), ('in', ('l', 'append'), '3'), ('path', ('l', 0), -7), ('item', 'l', [1, -1]),
         ('read', 'i', None)]

DROP = [('update', 'i', 6), ('update', 's', 'abcd'), ('pop', 'i', None), ('attr', 'e', 'v'), ('item', 'e', 'w'), ('item', 'r', 1),
        ('attr', 'q', 2), ('delattr', 'q', None), ('attr', 'zz', 1), ('in', ('o', 'y'), 'q'), ('path', ('o', 'y'), 'p'),
        ('in', ('o', 'zz'), 1), ('read', 'o', None), ('delattr', 'i', None), ('attr', 'i', 10), ('path', ('l', 1), 0),
        ('in', ('l', 0), -9), ('item', 'l', [1, -1])]
MID = [o for o in CORE if o not in DROP]
CTOR = {'i': [MISSING, '3', 10, None], 's': [MISSING, 'ab', 'abcd'], 'q': [MISSING, 1], 'o': [MISSING, {'x': '1'}, {'x': -1}, {'zz': 1}],
        'l': [MISSING, ['1', 2], [-1]], 'p_a': [MISSING, '4', -4], 'zz': [MISSING, 1]}

_cls = []


def get_class():
    if not _cls:
        _cls.append(mk(SCHEMA))
    return _cls[0]


def observe(chk, o, m, what):
    chk.eq(sorted(o.keys()), sorted(m.d), '%s: keys' % what)
    chk.eq(len(o), len(m.d), '%s: length' % what)
    for k in list(PROPS) + ['p_a', 'zz']:
        if k in m.d:
            chk.true(k in o, '%s: %r is not in the object' % (what, k))
            chk.eq(plain(o[k]), m.d[k], '%s: item %r' % (what, k))
            chk.eq(plain(getattr(o, k)), m.d[k], '%s: attribute %r' % (what, k))
            chk.eq(plain(o.get(k, 'dflt')), 'dflt' if m.d[k] is None else m.d[k], '%s: get %r' % (what, k))
        else:
            chk.true(k not in o, '%s: %r is in the object' % (what, k))
            chk.raises(lambda: o[k], KeyError, '%s: item %r' % (what, k))
            chk.eq(o.get(k, 'dflt'), 'dflt', '%s: get %r' % (what, k))
    chk.eq({k: plain(v) for k, v in o.items()}, m.d, '%s: items' % what)


def check(chk):
    def run(seq, lookat=False):
        o, m = get_class()(**INIT), Model()
        for op in seq:
            got, want = outcome(apply_real, o, op), outcome(apply_model, m, op)
            if want[0] == 'err' and not isinstance(want[1], Reject):
                raise want[1]
            if got[0] != want[0]:
                raise Mismatch('%r: %s, expected %s' % (op, 'accepted' if got[0] == 'ok' else 'rejected with %r' % got[1],
                                                        'accepted' if want[0] == 'ok' else 'rejected'))
            if lookat:
                observe(chk, o, m, 'after %r' % (op,))
        observe(chk, o, m, 'at the end')
        return m.d

    def ctor(c, item):
        how, values = item
        kw = {k: v for k, v in zip(CTOR, values) if v is not MISSING}

        def go():
            m = Model()
            m.d.update({k: None for k in ('r', 'q', 'i')})

            def build():
                for k, v in kw.items():
                    m.set(k, v)
            want = outcome(build)
            got = outcome(lambda: get_class()(**kw) if how == 'keywords' else get_class()(dict(kw)))
            if got[0] == 'ok' and want[0] == 'err':
                raise Mismatch('accepted, expected to be rejected')
            if got[0] == 'err' and want[0] == 'ok':
                raise Mismatch('rejected: %r' % got[1])
            if want[0] == 'err':
                return 'rejected'
            observe(c, got[1], m, 'constructed')
            return m.d
        c.case('constructor', (how, kw), go)

    d1, d2 = (3, 5) if chk.thorough else (2, 3)
    chk.bounds = {'operations': len(CORE), 'depth': d1, 'small_operations': len(SMALL), 'small_depth': d2, 'mid_operations': len(MID), 'mid_depth': 3}
    jobs = explore_sequences(chk, 'histories', CORE, d1, run)
    if not chk.thorough:
        jobs += explore_sequences(chk, 'long histories', MID, 3, run, min_depth=3)
    jobs += chunked(chk, [(h, v) for h in ('keywords', 'mapping') for v in itertools.product(*CTOR.values())], ctor)
    jobs += explore_sequences(chk, 'deep histories', SMALL, d2, run)
    jobs += explore_sequences(chk, 'observed histories', CORE, 2, lambda s: run(s, True), min_depth=2)
    chk.parallel(jobs)
