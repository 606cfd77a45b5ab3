# -*- coding: utf-8 -*-
"""C06: the rules of a schema (defaults, required, read-only, pattern and additional properties) hold along any history."""
import itertools
import re

from mc.core import chunked, outcome, Mismatch
from mc.real import mk, evaluate, Reject

NO = '<no>'
ADD = [NO, True, False, {'type': 'integer', 'minimum': 0}]
PATS = [None, {'^p_': {'type': 'integer', 'minimum': 0}}]
DEFAULTS = [NO, 0, 5]
CTORS = [{}, {'a': '3'}, {'b': 'q'}, {'a': 4, 'p_x': '6'}, {'zz': '8'}]
OPS = [('set', 'a', '1'), ('set', 'a', -1), ('del', 'a', None), ('set', 'b', 'w'), ('set', 'b', 'long'), ('del', 'b', None),
       ('set', 'p_x', '2'), ('set', 'p_x', -2), ('del', 'p_x', None), ('set', 'zz', '3'), ('set', 'zz', 'y'), ('del', 'zz', None),
       ('read', 'a', None), ('read', 'zz', None)]


def configurations():
    for add, pat, ro, req, dft, lazy in itertools.product(ADD, PATS, [None, 'a', 'b'], [None, 'a', 'b'], DEFAULTS, [False, True]):
        yield {'add': add, 'pat': pat, 'ro': ro, 'req': req, 'dft': dft, 'lazy': lazy}


def schema(cfg):
    sc = {'type': 'object', 'properties': {'a': {'type': 'integer', 'minimum': 0}, 'b': {'type': 'string', 'maxLength': 3}}}
    if cfg['dft'] is not NO:
        sc['properties']['a']['default'] = cfg['dft']
    if cfg['add'] is not NO:
        sc['additionalProperties'] = cfg['add']
    if cfg['pat']:
        sc['patternProperties'] = cfg['pat']
    if cfg['ro']:
        sc['readOnly'] = [cfg['ro']]
    if cfg['req']:
        sc['required'] = [cfg['req']]
    if cfg['lazy']:
        sc['lazyLoading'] = True
    return sc


class Model:
    def __init__(self, cfg, data):
        self.cfg = cfg
        self.d = {'a': None if cfg['dft'] is NO else cfg['dft'], 'b': None}
        for k, v in data.items():
            self.d[k] = self.convert(k, v)

    def convert(self, k, v):
        cfg = self.cfg
        if k == 'a':
            return evaluate('integer', {'minimum': 0}, v)
        if k == 'b':
            return evaluate('string', {'maxLength': 3}, v)
        if k.startswith('p_') and cfg['pat']:
            return evaluate('integer', {'minimum': 0}, v)
        if cfg['add'] is False:
            raise Reject(k)
        if isinstance(cfg['add'], dict):
            return evaluate('integer', {'minimum': 0}, v)
        return v

    def set(self, k, v):
        if k == self.cfg['ro']:
            raise Reject(k)
        self.d[k] = self.convert(k, v)

    def delete(self, k):
        if k == self.cfg['req'] or k not in self.d:
            raise Reject(k)
        del self.d[k]


def invalid(cfg, op):
    """would only the read of a lazy object reject it"""
    try:
        Model(cfg, {}).convert(op[1], op[2])
        return False
    except Reject:
        return not (op[1] in ('zz', 'p_x') and cfg['add'] is False and not (op[1] == 'p_x' and cfg['pat']))


# ------------------------------------------------------------------ names and patterns
INT = {'type': 'integer', 'minimum': 0}
STR = {'type': 'string', 'maxLength': 3}
PATTERNS = [{'^p_': INT}, {'_n$': INT}, {'mid': INT}, {'^[a-c]{2}$': INT}, {'(?i)^UP': INT}, {'^p_': INT, '_n$': STR}, {'^q': STR, r'\d$': INT}]
NAMES = ['p_', 'p_x', 'xp_', 'x_n', 'x_n_', 'amidb', 'mid', 'ab', 'abc', 'AB', 'upx', 'qq', 'zz', 'z9', 'a', 'b', 'c1']
VALUES = ['3', -1, 'xyzt', 7, 'ab']


def check_names(c, item):
    pats, add, lazy, name = item
    sc = {'type': 'object', 'properties': {'a': INT, 'b': STR}, 'patternProperties': pats}
    if add is not NO:
        sc['additionalProperties'] = add
    if lazy:
        sc['lazyLoading'] = True
    ms = [t for p, t in pats.items() if re.search(p, name)]
    if name in ('a', 'b'):
        ms = [sc['properties'][name]]
    elif not ms:
        ms = [False if add is False else True if add in (NO, True) else add]
    if len(ms) > 1:
        return   # a name matching several patterns

    def expected(v):
        if ms[0] is False:
            raise Reject(name)
        if ms[0] is True:
            return v
        return evaluate(ms[0]['type'], ms[0], v)

    def go():
        cls = mk(sc)
        out = []
        for v in VALUES:
            want = outcome(expected, v)
            for how in ('ctor', 'kw', 'item', 'attr', 'update', 'setdefault'):
                if how == 'setdefault' and name in ('a', 'b'):
                    continue
                o = outcome(cls) if how not in ('ctor', 'kw') else None

                def make():
                    if how == 'ctor':
                        x = cls({name: v})
                    elif how == 'kw':
                        x = cls(**{name: v})
                    else:
                        x = o[1]
                        if how == 'item':
                            x[name] = v
                        elif how == 'attr':
                            setattr(x, name, v)
                        elif how == 'update':
                            x.update({name: v})
                        else:
                            x.setdefault(name, v)
                    return x[name]
                got = outcome(make)
                if got[0] != want[0]:
                    raise Mismatch('%s of %r by %s: %r, expected %r' % (name, v, how, got, want))
                if want[0] == 'ok':
                    c.eq(got[1], want[1], '%s by %s' % (name, how))
                elif o is not None and not lazy:
                    c.eq(o[1].get(name), None, 'rejected %s by %s' % (name, how))
            out.append(want[0])
        return repr(ms), out
    c.case('names', (pats, add, lazy, name), go, transitions=len(VALUES) * 6)


# properties and patterns named as the keywords of schemas, of python, of the library, or as paths of a schema
WORDS = ['properties', 'items', 'additionalProperties', 'patternProperties', '$defs', 'default', 'title', 'required', 'enum', 'type', 'readOnly', 'extends', 'aliases', 'dependencies',
         'description', '$ref', '$id', 'relationships', 'minimum', 'a/b', 'items/0', 'properties/a', 'properties/n', '0', 'properties/n/properties/a', 'a b', 'class', 'self', 'value',
         'lazyLoading', 'data', 'get', 'keys', 'update', 'copy', 'notSerialized', 'format', 'session', '_id', 'any', 'name', 'parent', 'root', 'é', 'n-1', 'Class', 'p']
PWORDS = ['properties', 'items', 'additionalProperties', 'properties/a', 'default', 'type', 'p', 'name', 'self', 'class', 'any', 'copy', '0']


def check_words(c, item):
    word, pword, lazy = item

    def go():
        sc = {'type': 'object', 'additionalProperties': {'type': 'boolean'},
              'properties': {word: INT, 's': STR, 'a': INT, 'n': {'type': 'object', 'properties': {'a': STR}}, 'l': {'type': 'array', 'items': [INT, STR]}},
              'patternProperties': {pword: {'type': 'integer', 'multipleOf': 2}}}
        if lazy:
            sc['lazyLoading'] = True
        k = mk(sc)
        data = {word: '4', 's': 4, 'a': '1', 'n': {'a': 5}, 'l': ['6', 7], 'Z': 'true', pword + 'Z': '8', 'Z' + pword: 10}
        want = {word: 4, 's': '4', 'a': 1, 'Z': True, pword + 'Z': 8, 'Z' + pword: 10}

        def look(o, what):
            for n, v in want.items():
                c.eq(o[n], v, '%s, %r' % (what, n))
            c.eq((o['n']['a'], list(o['l']), sorted(o)), ('5', [6, '7'], sorted(data)), what)
        o = k(data)
        look(o, 'built')
        look(k(o.do_serialize()), 'built again')
        o = k()
        for n, v in data.items():
            o[n] = v
        look(o, 'set')
        if not lazy:
            for n, v in ((word, -1), ('s', 'long'), (pword + 'Z', 3), ('Z', 'maybe')):
                c.raises(lambda: o.__setitem__(n, v), ValueError, 'set %r' % n)
                c.raises(lambda: k(dict(data, **{n: v})), ValueError, 'built with %r' % n)
            look(o, 'after rejected operations')
        return word, lazy
    c.case('words', item, go, transitions=24)


def check(chk):
    def run(c, cfg, cls, data, seq, how):
        def go():
            m = outcome(Model, cfg, data)
            r = outcome(lambda: cls(dict(data)))
            if m[0] != r[0]:
                raise Mismatch('constructor: %s' % ('accepted, expected to be rejected' if r[0] == 'ok' else 'rejected: %r' % r[1]))
            if m[0] == 'err':
                return 'rejected'
            m, o = m[1], r[1]
            for op, k, v in seq:
                def real():
                    if op == 'set':
                        if how == 'item':
                            o[k] = v
                        else:
                            setattr(o, k, v)
                    elif op == 'del':
                        del o[k]
                    else:
                        o.get(k)
                got = outcome(real)
                want = outcome((lambda: m.set(k, v)) if op == 'set' else (lambda: m.delete(k)) if op == 'del' else (lambda: None))
                if got[0] != want[0]:
                    raise Mismatch('%s: %s' % ((op, k, v), 'accepted, expected to be rejected' if got[0] == 'ok' else 'rejected: %r' % got[1]))
                if got[0] == 'err' and not isinstance(got[1], (AttributeError, KeyError, ValueError)):
                    raise Mismatch('%s: rejected with %r' % ((op, k, v), got[1]))
            c.eq(sorted(o), sorted(m.d), 'keys')
            for k in ('a', 'b', 'p_x', 'zz'):
                if k in m.d:
                    c.eq(o[k], m.d[k], 'item %s' % k)
                    c.eq(getattr(o, k), m.d[k], 'attribute %s' % k)
                else:
                    c.raises(lambda: o[k], KeyError, 'item %s' % k)
                    c.eq(o.get(k, 'dflt'), 'dflt', 'get %s' % k)
                    if k in ('p_x', 'zz'):
                        if cfg['add'] is False:
                            c.raises(lambda: getattr(o, k), AttributeError, 'attribute %s' % k)
                        else:
                            c.eq(getattr(o, k), None, 'attribute %s' % k)
            return tuple(sorted(m.d.items(), key=repr))
        c.case('rules', (cfg, data, seq, how), go, transitions=1 + len(seq))

    def explore(c, cfg):
        cls = mk(schema(cfg))
        ops = [o for o in OPS if not (cfg['lazy'] and o[0] == 'set' and invalid(cfg, o))]
        for data in CTORS:
            if cfg['lazy'] and any(invalid(cfg, ('set', k, v)) for k, v in data.items()):
                continue
            run(c, cfg, cls, data, (), 'item')
            for op in ops:
                for how in ('item', 'attr'):
                    run(c, cfg, cls, data, (op,), how)
            if chk.thorough or data is CTORS[3]:
                for seq in itertools.product(ops, repeat=2):
                    run(c, cfg, cls, data, seq, 'item')
            if chk.thorough and not data:
                for seq in itertools.product(ops, repeat=2):
                    run(c, cfg, cls, data, seq, 'attr')

    cfgs = list(configurations())
    chk.bounds = {'schemas': len(cfgs), 'constructors': len(CTORS), 'operations': len(OPS), 'depth': 2, 'names of properties': len(WORDS), 'names of patterns': len(PWORDS)}
    names = list(itertools.product(PATTERNS, ADD, [False, True], NAMES))
    words = list(itertools.product(WORDS, PWORDS, [False]))
    words += list(itertools.product(WORDS, PWORDS if chk.thorough else PWORDS[:3], [True]))
    chk.parallel(chunked(chk, words, check_words, 8) + chunked(chk, cfgs, explore, 64) + chunked(chk, names, check_names, 16))
