# -*- coding: utf-8 -*-
"""C23: the text (str, repr) of objects and arrays tells what they contain now."""
import copy
import datetime
import decimal
import itertools
import re

from mc.core import explore_sequences, outcome, chunked, Mismatch
from mc.real import mk

INT = {'type': 'integer'}
XOBJ = {'type': 'object', 'properties': {'x': INT, 'd': {'type': 'integer', 'default': 3}}}
PROPS = {'a': INT, 'd': {'type': 'integer', 'default': 3}, 's': {'type': 'string'}, 'r': INT,
         'o': {'type': 'object', 'properties': {'x': INT, 'y': {'type': 'string'}, 'q': {'type': 'object', 'properties': {'z': INT}}}},
         'l': {'type': 'array', 'items': INT}, 'm': {'type': 'array', 'items': XOBJ}, 'n': {'type': 'number'}, 'w': {'type': 'date'}, 'u': {'type': 'boolean'},
         't': {'type': 'string'}}
MAX_EL, MAX_LEN = 10, 40


def short(text):
    return text if len(text) <= MAX_LEN else text[:MAX_LEN] + '...'


def joined(parts):
    return ', '.join(parts[:MAX_EL] + (['+%i...' % (len(parts) - MAX_EL)] if len(parts) > MAX_EL else []))


class Text:
    """the text of values of a class: v is plain data of the given properties, in the order of the data"""

    def __init__(self, cls, props, read_only=()):
        self.cls, self.props, self.read_only = cls, props, read_only

    def value(self, k, v, real):
        sch = self.props.get(k, {})
        if v is None or not sch:
            return repr(v)
        t = sch['type']
        if t == 'object':
            return Text(real, sch['properties']).repr(v, real)
        if t == 'array':
            return Text(real, {}).array_repr(v, sch['items'], real)
        return repr({'number': decimal.Decimal, 'date': datetime.date.fromisoformat}.get(t, lambda x: x)(v))

    def parts(self, v, real, fmt, hide):
        out = []
        for k in v:
            if v[k] is None or k in hide or v[k] == self.props.get(k, {}).get('default', [] if self.props.get(k, {}).get('type') == 'array' else None):
                continue
            out.append(fmt % (k, short(self.value(k, v[k], real[k]))))
        return out

    def str(self, v, real):
        return '{%s}' % joined(self.parts(v, real, '%s: %s', ()))

    def repr(self, v, real):
        return '%s(%s)' % (real.qualname(), joined(self.parts(v, real, '%s=%s', self.read_only)))

    def array_str(self, v, items, real):
        return '[%s]' % joined([short(Text(r, items['properties']).repr(i, r) if items['type'] == 'object' else repr(i)) for i, r in zip(v, real)])

    def array_repr(self, v, items, real):
        return '%s(%s)' % (real.qualname(), self.array_str(v, items, real))


def read(o):
    """every value of an object, of its objects and of its arrays"""
    if hasattr(o, 'keys') and hasattr(o, 'qualname'):
        for k in list(o.keys()):
            read(o[k])
    elif hasattr(o, 'insert') and hasattr(o, 'qualname'):
        for i in o:
            read(i)


def texts(o):
    return {'object': (str(o), repr(o)), 'o': (str(o.o), repr(o.o)), 'q': (str(o.o.q), repr(o.o.q)), 'l': (str(o.l), repr(o.l)),
            'm': (str(o.m), repr(o.m)), 'items': [(str(i), repr(i)) for i in o.m]}


def template(v):
    return v.replace('{{ a }}', str(v))


START = {'a': 1, 's': 'x', 'r': 2, 'o': {'x': 3, 'y': 'y', 'q': {'z': 4}}, 'l': [5, 6], 'm': [{'x': 7}, {'x': 8}], 'n': 1.5, 't': '<{{ a }}{{ o.x }}>'}
OPS = ['a', 'a None', 'd', 'd 3', 's', 's long', 'o.x', 'o.y', 'o.q.z', 'o', 'o.q', 'l.append', 'l.pop', 'l[0]', 'l.reverse', 'l.insert', 'l', 'l 12',
       'm.append', 'm.pop', 'm[0].x', 'm[0].d', 'm', 'm[0]', 'new', 'new 2', 'del', 'n', 'w', 'u', 'text', 'read', 't']


def step(o, v, op, n):
    """an operation on the object and on the plain data"""
    new = 10 + n

    def both(path, x):
        o[path] = copy.deepcopy(x)
        cur = v
        parts = [int(p) if p.isdigit() else p for p in re.findall(r'\w+', path)]
        for p in parts[:-1]:
            cur = cur[p]
        cur[parts[-1]] = copy.deepcopy(x)
    if op in ('a', 'd', 'o.x', 'o.q.z', 'l[0]', 'm[0].x', 'm[0].d'):
        if op[0] in 'lm' and not v[op[0]]:
            return
        both(op, new)
    elif op == 'a None':
        both('a', None)
    elif op == 'd 3':
        both('d', 3)
    elif op == 's':
        both('s', 's%d\n' % n)
    elif op == 's long':
        both('s', 'é' * (36 + n))
    elif op == 'o.y':
        both('o.y', "it's %d" % n)
    elif op == 'o':
        both('o', {'x': new, 'q': {'z': new}})
    elif op == 'o.q':
        both('o.q', {'z': new})
    elif op == 'l':
        both('l', [new])
    elif op == 'l 12':
        both('l', list(range(12)))
    elif op == 'm':
        both('m', [{'x': new}])
    elif op == 'm[0]':
        if v['m']:
            both('m[0]', {'x': new})
    elif op == 'new':
        both('new%d' % n, new)
    elif op == 'new 2':
        both('zz', 'z%d' % n)
    elif op == 'del':
        if 'zz' in v:
            del o['zz'], v['zz']
    elif op == 'n':
        both('n', n + 0.5)
    elif op == 'w':
        both('w', '2020-01-%02d' % (n + 1))
    elif op == 'u':
        both('u', not v.get('u'))
    elif op == 't':
        both('t', 'plain %d' % n)
    elif op == 'text':
        str(o), repr(o), str(o.o), str(o.l), repr(o.m), [str(i) for i in o.m]
    elif op == 'read':
        read(o)
    elif op.endswith('.pop'):
        for q in (o[op[0]], v[op[0]]):
            if len(q):
                q.pop()
    elif op.endswith('.reverse'):
        o.l.reverse(), v['l'].reverse()
    else:
        x = new if op[0] == 'l' else {'x': new}
        for q in (o[op[0]], v[op[0]]):
            q.append(copy.deepcopy(x)) if op.endswith('append') else q.insert(0, copy.deepcopy(x))


def check(chk):
    classes = {}

    def cls(kind):
        if kind not in classes:
            b = mk({'type': 'object', 'lazyLoading': kind == 'lazy', 'readOnly': ['r'], 'properties': PROPS})
            if kind == 'derived':
                b = mk({'type': 'object', 'extends': [b._id]}, (b,))
            classes[kind] = b
        return classes[kind]

    def ordered(o, v):
        """the plain data in the order of the keys of the object, and what the texts are made of"""
        return {k: v[k] for k in o.keys() if k in v}

    def evaluated(v):
        v = copy.deepcopy(v)
        v['t'] = v['t'].replace('{{ a }}', str(v.get('a'))).replace('{{ o.x }}', str((v['o'] or {}).get('x')))
        return v

    def compare(o, v, kind):
        read(o)
        got = texts(o)
        want = evaluated(v)
        txt = Text(type(o), PROPS, ['r'])
        if None not in v.values():
            # (a property set to nothing stays in the object)
            fresh = cls(kind)(copy.deepcopy({k: v[k] for k in o.keys() if k in v}))
            read(fresh)
            chk.eq(texts(fresh), got, 'texts of a new object of the same content')
        w = ordered(o, want)
        oo = {k: want['o'][k] for k in o.o.keys() if k in want['o']}
        chk.eq(got['object'], (txt.str(w, o), txt.repr(w, o)), 'texts of the object')
        sub = Text(None, PROPS['o']['properties'])
        chk.eq(got['o'], (sub.str(oo, o.o), sub.repr(oo, o.o)), 'texts of the nested object')
        arr = Text(None, {})
        chk.eq(got['l'], (arr.array_str(want['l'], INT, o.l), arr.array_repr(want['l'], INT, o.l)), 'texts of the array')
        chk.eq(got['m'], (arr.array_str(want['m'], XOBJ, o.m), arr.array_repr(want['m'], XOBJ, o.m)), 'texts of the array of objects')
        xs = Text(None, XOBJ['properties'])
        chk.eq(got['items'], [(xs.str(i, r), xs.repr(i, r)) for i, r in zip(want['m'], o.m)], 'texts of the items')

    def run(kind, seq):
        v = copy.deepcopy(START)
        o = cls(kind)(copy.deepcopy(v))
        for n, op in enumerate(seq):
            step(o, v, op, n)
        compare(o, v, kind)
        return v

    def entities(kind, seq):
        if ('entity', kind) not in classes:
            from ngoschema.models.instances import Entity
            from ngoschema.protocols import SchemaMetaclass
            for k, keys in (('one key', ['i']), ('two keys', ['s', 'i'])):
                classes['entity', k] = SchemaMetaclass('E%d' % len(keys), (Entity,), {'_schema': {'type': 'object', 'primaryKeys': keys, 'properties': {
                    'i': INT, 's': {'type': 'string'}, 'v': INT}}, '_id': 'https://c23.org/d#/$defs/E%d' % len(keys)})
        E = classes['entity', kind]
        v = {'i': 1, 's': 'x', 'v': 0}
        o = E(dict(v))
        for n, op in enumerate(seq):
            if op == 'text':
                str(o), repr(o)
            elif op == 'keys':
                o.identityKeys
            else:
                v[op] = 'y%d' % n if op == 's' else 10 + n
                o[op] = v[op]
            if op in v or n == len(seq) - 1:
                chk.eq(str(o), '<%s %s>' % (E.qualname(), '%s' % v['i'] if kind == 'one key' else '%s, %s' % (v['s'], v['i'])), 'text of the entity')
        return v

    def shape(c, item):
        kind, d = item

        def fn():
            v = dict({'o': {'q': {}}, 'l': [], 'm': [], 't': ''}, **copy.deepcopy(d))
            o = cls(kind)(copy.deepcopy(v))
            compare(o, v, kind)
        c.case('%s shape' % kind, repr(d)[:150], fn, state=repr(d))

    shapes = [{'s': ch * n} for n in range(0, 46) for ch in ('x', "'", '\n', 'é')]
    shapes += [{'k%d' % i: i for i in range(n)} for n in range(0, 14)]
    shapes += [{'l': list(range(n))} for n in range(0, 25)]
    shapes += [{'m': [{'x': i} for i in range(n)]} for n in range(0, 14)]
    shapes += [{'o': {'q': {}, 'x': x, 'y': 'y' * n}} for x in (0, 5) for n in range(0, 42)]
    optional = {'a': [0, 7], 'd': [3, 4], 's': ['', 'x'], 'r': [9], 'n': [0, 2.25], 'u': [False, True], 'w': ['2020-02-03']}
    for vals in itertools.product(*[[None] + v for v in optional.values()]):
        shapes.append({k: v for k, v in zip(optional, vals) if v is not None})
    d = 3 if chk.thorough else 2
    jobs = chunked(chk, [(k, s) for s in shapes for k in ('eager', 'lazy', 'derived')], shape)
    for kind in ('eager', 'lazy', 'derived'):
        jobs += explore_sequences(chk, '%s histories' % kind, OPS, d, lambda s, k=kind: run(k, s))
    for kind in ('one key', 'two keys'):
        jobs += explore_sequences(chk, 'entities with %s' % kind, ['i', 's', 'v', 'text', 'keys'], d + 1, lambda s, k=kind: entities(k, s))
    chk.bounds = {'operations': len(OPS), 'depth': d, 'shapes': len(shapes)}
    chk.parallel(jobs)
