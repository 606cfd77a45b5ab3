# -*- coding: utf-8 -*-
"""C04: properties computed from other properties are never stale."""
import copy
import re

import jinja2

from mc.core import explore_sequences, outcome, chunked, Mismatch
from mc.real import mk

SCHEMA = {
    'type': 'object',
    'properties': {
        'a': {'type': 'integer'},
        'b': {'type': 'integer', 'default': 2},
        'o': {'type': 'object', 'properties': {'x': {'type': 'integer'}}},
        'l': {'type': 'array', 'items': {'type': 'integer'}},
        't1': {'type': 'string', 'default': '{{ a }}-{{ b }}'},
        'e1': {'type': 'integer'},
        't2': {'type': 'string'},
        'n1': {'type': 'integer'},
        'p': {'type': 'string'},
        'q': {'type': 'integer'},
        'g': {'type': 'integer'},
        'h': {'type': 'integer'},
        'n': {'type': 'integer', 'default': 5},
    },
    'dependencies': {'g': ['a'], 'h': ['e1', 'b']},
}
# property -> the expressions it can be given, with their meaning as functions of the other values
FORMS = {
    't1': {'default': ('{{ a }}-{{ b }}', lambda r: '%s-%s' % (r('a'), r('b'))),
           'alt': ('<{{ b }}>', lambda r: '<%s>' % r('b')),
           'if': ('{% if a > b %}gt{% else %}le{% endif %}', lambda r: 'gt' if r('a') > r('b') else 'le'),
           'const': ('k', lambda r: 'k')},
    'e1': {'default': ('`a + b', lambda r: r('a') + r('b')),
           'this': ('`this.a * 2', lambda r: r('a') * 2),
           'const': (7, lambda r: 7)},
    't2': {'default': ('{{ t1 }}!{{ e1 }}', lambda r: '%s!%s' % (r('t1'), r('e1'))),
           'filter': ('{{ t1 | upper }}', lambda r: r('t1').upper())},
    'n1': {'default': ('{{ e1 + 1 }}', lambda r: r('e1') + 1), 'chain2': ('`e1 + n', lambda r: r('e1') + r('n'))},
    'p': {'default': ('{{ o.x }}', lambda r: str(r('o')['x'])), 'this': ('{{ this.o.x }}/{{ a }}', lambda r: '%s/%s' % (r('o')['x'], r('a')))},
    'q': {'default': ('`l[0] + a', lambda r: r('l')[0] + r('a'))},
}


def getters():
    def get_g(self):
        return self.a * 10

    def get_h(self):
        return self.e1 + self.b
    return {'get_g': get_g, 'get_h': get_h}


class Model:
    def __init__(self):
        self.v = {'a': 1, 'b': 2, 'o': {'x': 3}, 'l': [4, 5], 'n': 5}
        self.form = {k: 'default' for k in FORMS}
        self.over = None      # value given to g, until its dependency changes

    def read(self, k):
        if k in self.v:
            return self.v[k]
        if k in FORMS:
            return FORMS[k][self.form[k]][1](self.read)
        deps = {'g': ['a'], 'h': ['e1', 'b']}[k]
        if k == 'g' and self.over is not None:
            return self.over
        return self.read('a') * 10 if k == 'g' else self.read('e1') + self.read('b')

    def all(self):
        return {k: self.read(k) for k in list(self.v) + list(FORMS) + ['g', 'h']}


OPS = [('a', 6), ('a', 2), ('b', 7), ('b', 1), ('n', 8), ('o.x', 9), ('o.x', 8), ('o', {'x': 11}), ('l[0]', 12), ('l', [13]), ('a', 'bad'),
       ('form', 't1', 'alt'), ('form', 't1', 'if'), ('form', 't1', 'default'), ('form', 't1', 'const'),
       ('form', 'e1', 'this'), ('form', 'e1', 'const'), ('form', 'e1', 'default'), ('form', 't2', 'filter'), ('form', 'n1', 'chain2'), ('form', 'p', 'this'),
       ('read', 't2'), ('read', 'h'), ('read', 'all'), ('oattr', 9), ('litem', 14), ('g', 99)]
SMALL = [('a', 6), ('b', 7), ('o.x', 9), ('l[0]', 12), ('form', 't1', 'alt'), ('form', 't1', 'const'), ('form', 'e1', 'this'), ('form', 'e1', 'const'),
         ('read', 't2'), ('read', 'all'), ('a', 'bad'), ('g', 99)]
ORDER = list(Model().all())

# ---------------------------------------------------------------- what a source reads: any template, any expression
INT = {'type': 'integer'}
XOBJ = {'type': 'object', 'properties': {'x': INT}}
SOURCE_PROPS = {'a': INT, 'b': INT, 's': {'type': 'string'}, 'k': {'type': 'string'}, 'u': {'type': 'boolean'},
                'o': {'type': 'object', 'properties': {'x': INT, 'y': {'type': 'string'}, 'q': {'type': 'object', 'properties': {'z': INT}}}},
                'l': {'type': 'array', 'items': INT}, 'm': {'type': 'array', 'items': XOBJ}}
VALUES = {'a': 1, 'b': 2, 's': 'ab', 'k': 'x', 'o': {'x': 3, 'y': 'why', 'q': {'z': 4}}, 'l': [5, 6], 'm': [{'x': 7}, {'x': 8}], 'u': True}
CHANGES = [('a', 0), ('b', 5), ('s', 'cde'), ('k', 'y'), ('u', False), ('o.x', 30), ('o.y', 'zz'), ('o.q.z', 40), ('o.q', {'z': 42}),
           ('o', {'x': 31, 'y': 'w', 'q': {'z': 41}}), ('l[0]', 51), ('l[1]', 61), ('l', [50, 60]), ('m[0].x', 71), ('m[1].x', 81),
           ('m[0]', {'x': 72}), ('m', [{'x': 70}, {'x': 80}])]
TEMPLATES = [
    '{{ a }}', '{{ this.a }}', "{{ this['a'] }}", '{{ o.x }}', "{{ o['x'] }}", '{{ o[k] }}', '{{ this.o.x }}', "{{ this.o['x'] }}", '{{ o.q.z }}', '{{ o.y.upper() }}',
    '{{ l[0] }}', '{{ l[-1] }}', '{{ l[a] }}', '{{ l[a:] }}', '{{ this.l[0] }}', '{{ m[0].x }}', '{{ m[a].x }}', '{{ this.m[1].x }}', '{{ (o if u else m[0]).x }}',
    '{{ l|length }}', '{{ l|first }}', '{{ l|last }}', '{{ l|sum }}', '{{ l|join("-") }}', '{{ l|list }}', '{{ m|map(attribute="x")|join(",") }}',
    '{{ s|upper }}', '{{ s.upper() }}', '{{ s[0] }}', '{{ s|length }}', '{{ s.replace(k, s) }}', '{{ a + b }}', '{{ a ~ b }}', '{{ -a }}', '{{ a > b }}', '{{ a == 1 }}',
    '{{ a in l }}', '{{ not u }}', '{{ a if u else b }}', '{{ a is defined }}', '{{ zz is defined }}', '{{ zz|default(a) }}', '{{ a|default(b) }}',
    '{{ o.get("x") }}', '{{ "x" in o }}', '{{ o|length }}', '{{ o.values()|list|length }}', '{{ [a, b]|sum }}', '{{ {"a": b}.a }}', '{{ {k: b} }}', '{{ "%s"|format(a) }}',
    '{{ range(a, b)|list }}', '{{ len(l) }}', '{{ str(a) }}', '{{ enumerate(l)|list }}', '{{ "a" }}{{ b }}', '{# {{ a }} #}{{ b }}', '{% raw %}{{ a }}{% endraw %}{{ b }}',
    '{% if u %}{{ a }}{% else %}{{ b }}{% endif %}', '{% if o.x > l[0] %}{{ s }}{% elif u %}{{ k }}{% endif %}', '{% for i in l %}{{ i }}{{ a }},{% endfor %}',
    '{% for i in m %}{{ i.x }};{% endfor %}', '{% for i in l if i > a %}{{ i }}{{ loop.index }}{% else %}{{ b }}{% endfor %}',
    '{% for i, j in enumerate(l) %}{{ i }}{{ j }}{% endfor %}', '{% for key in o %}{{ key }}{% endfor %}', '{% for i in m %}{% for j in l %}{{ i.x + j }} {% endfor %}{% endfor %}',
    '{% set z = a %}{{ z }}', '{% set a = b %}{{ a }}', '{{ a }}{% set a = b %}{{ a }}', '{% set v = m[0] %}{{ v.x }}', '{% set p = o.q %}{{ p.z }}', '{% set this = o %}{{ this.x }}',
    '{% with z = o %}{{ z.x }}{% endwith %}', '{% with a = o.x %}{{ a }}{% endwith %}', '{% macro f(p) %}{{ p }}{{ a }}{% endmacro %}{{ f(b) }}',
    '{% macro f(a) %}{{ a }}{% endmacro %}{{ f(b) }}', '{% filter upper %}{{ s }}{% endfilter %}',
]
EXPRESSIONS = [
    'a', 'this.a', 'this["a"]', 'a+b', '-a', '(a+b)*a', '1.5*a', 'a > b', 'a==1', 'not u', 'a and b', 'a or b', 'int(u) + a', 'a if u else b', 'max(a,b)', '1',
    'o.x', 'o["x"]', 'o[k]', 'this.o.x', 'o.q.z', 'o.get("x")', 'getattr(o, k)', 'list(o)', '(o if u else m[0]).x', 'l[0]', 'l[-1]', 'l[a]', 'l[a:]', 'this.l[0]',
    'm[0].x', 'm[a].x', 'this.m[1].x', 'len(l)', 'sum(l)', 'min(l)', 'sorted(l)', 'a in l', '[i for i in l]', '[i + a for i in l]', '[a for a in l]',
    'sum(i.x for i in m)', 'sum([x.x for x in m])', 'any(u for i in l)', '[i for i, j in enumerate(l)]', '{k: a}', '(lambda q: q + a)(b)',
    's.upper()', 's[0]', 's+k', 's.replace(k, s)', 'o.y.upper()', '"a"+s', '"a b"', 'str(a)', '"%s" % a', 'f"{a}"', 'a.bit_length()',
]
ENV = jinja2.Environment()
ENV.globals.update(len=len, enumerate=enumerate, str=str, list=list)


def changed(v, path, x):
    v = cur = copy.deepcopy(v)
    parts = [int(p) if p.isdigit() else p for p in re.findall(r'\w+', path)]
    for p in parts[:-1]:
        cur = cur[p]
    cur[parts[-1]] = copy.deepcopy(x)
    return v


class Attr(dict):
    __getattr__ = dict.__getitem__


def attrs(v):
    if isinstance(v, dict):
        return Attr({k: attrs(w) for k, w in v.items()})
    return [attrs(w) for w in v] if isinstance(v, list) else v


def meaning(src, v):
    """the text a source stands for, among plain values"""
    if src[0] == '`':
        v = attrs(v)
        return str(eval(src[1:], dict(v, this=v)))
    return ENV.from_string(src).render(this=v, **v)


# ---------------------------------------------------------------- what is computed from collections changed in place
COLL_PROPS = {'l': {'type': 'array', 'items': INT}, 'm': {'type': 'array', 'items': XOBJ}, 'o': {'type': 'object', 'properties': {'x': INT, 'l': {'type': 'array', 'items': INT}}},
              'sl': INT, 'sm': INT, 'so': INT, 'c': {'type': 'string', 'default': '<{{ sl }}|{{ sm }}|{{ so }}>'},
              't': {'type': 'string', 'default': '{% for i in l %}{{ i }},{% endfor %}{% for i in m %}{{ i.x }};{% endfor %}{% for i in o.l %}{{ i }}.{% endfor %}'},
              'e': {'type': 'integer'}}
COLL_OPS = ['l.append', 'l.insert', 'l.pop', 'l.set', 'l.reverse', 'l.extend', 'l', 'm.append', 'm.pop', 'm.set', 'm[0].x', 'm', 'o.x', 'o.l.append', 'o.l.set', 'o.l', 'o', 'read']


def coll_getters():
    def get_sl(self):
        return sum(self.l)

    def get_sm(self):
        return sum(i.x for i in self.m)

    def get_so(self):
        return self.o.x + sum(self.o.l)
    return {'get_sl': get_sl, 'get_sm': get_sm, 'get_so': get_so}


def check(chk):
    classes = {}

    def cls(kind):
        if kind not in classes:
            b = mk(dict(SCHEMA, **({'lazyLoading': True} if kind == 'lazy' else {})), **getters())
            if kind == 'derived':
                base = classes[kind + '_base'] = b
                b = mk({'type': 'object', 'extends': [base._id], 'properties': {'own': {'type': 'integer'}}}, (base,))
            classes[kind] = b
        return classes[kind]

    def plain(v):
        from collections.abc import Mapping
        if isinstance(v, Mapping):
            return {k: v[k] for k in v}
        return [i for i in v] if hasattr(v, 'insert') else v

    def run(kind, seq, order):
        m = Model()
        o = cls(kind)(a=1, o={'x': 3}, l=[4, 5], **{k: f['default'][0] for k, f in FORMS.items() if k != 't1'})
        for op in seq:
            if op[0] == 'read':
                if op[1] == 'all':
                    for k in ORDER:
                        getattr(o, k)
                else:
                    getattr(o, op[1])
            elif op[0] == 'form':
                setattr(o, op[1], FORMS[op[1]][op[2]][0])
                m.form[op[1]] = op[2]
            elif op[0] == 'a' and op[1] == 'bad':
                if kind != 'lazy':
                    chk.raises(lambda: setattr(o, 'a', 'bad'), ValueError, 'bad value')
            elif op[0] == 'o.x':
                o['o.x'] = op[1]
                m.v['o']['x'] = op[1]
            elif op[0] == 'oattr':
                o.o.x = op[1]
                m.v['o']['x'] = op[1]
            elif op[0] == 'l[0]':
                o['l[0]'] = op[1]
                m.v['l'][0] = op[1]
            elif op[0] == 'litem':
                o.l[0] = op[1]
                m.v['l'][0] = op[1]
            elif op[0] == 'g':
                if kind != 'lazy':
                    o.g = op[1]
                    m.over = op[1]
            else:
                o[op[0]] = op[1]
                if op[0] == 'a' and op[1] != m.v['a']:
                    m.over = None
                import copy
                m.v[op[0]] = copy.deepcopy(op[1])
        want = m.all()
        for k in (ORDER if order == 'up' else reversed(ORDER)):
            chk.eq(plain(getattr(o, k)), want[k], 'attribute %s' % k)
            chk.eq(plain(o[k]), want[k], 'item %s' % k)
        ser = o.do_serialize(no_defaults=False)
        for k in want:
            chk.eq(str(plain(ser[k])), str(want[k]), 'serialized %s' % k)
        return want

    def source(kind, src, changes):
        key = ('source', kind)
        if key not in classes:
            classes[key] = mk({'type': 'object', 'lazyLoading': kind == 'lazy', 'properties': dict(
                SOURCE_PROPS, t={'type': 'string'}, c={'type': 'string', 'default': '<{{ t }}>'})})
        v = copy.deepcopy(VALUES)
        o = classes[key](dict(copy.deepcopy(v), t=src))
        for path, x in [(None, None)] + list(changes):
            if path:
                o[path] = copy.deepcopy(x)
                v = changed(v, path, x)
            want = meaning(src, v)
            chk.eq((o.t, o.c), (want, '<%s>' % want), 'after %s' % path)
        return v

    def inherited(kind, seq):
        if ('inherited', kind) not in classes:
            INTS = {'type': 'object', 'properties': {k: INT for k in ('a', 'b', 'n', 'g', 'h')}}
            A = mk(dict(INTS, dependencies={'g': ['a']}), get_g=lambda self: self.a + (self.b or 0) * 10, get_h=lambda self: self.g + self.n)
            B = mk(dict(INTS, dependencies={'g': ['b'], 'h': ['n']}), get_g=lambda self: self.a + (self.b or 0) * 10, get_h=lambda self: self.g + self.n)
            one = mk({'type': 'object', 'dependencies': {'g': ['b'], 'h': ['g']}}, (A,))
            two = mk({'type': 'object', 'dependencies': {'h': ['n']}}, (one,))
            three = mk({'type': 'object', 'extends': [A._id], 'dependencies': {'g': ['b'], 'h': ['g', 'n']}}, (A,))
            four = mk({'type': 'object', 'dependencies': {'h': ['g']}}, (A, B))
            five = mk({'type': 'object', 'lazyLoading': True, 'properties': {'own': INT}}, (two,))
            for k, c in zip(('chain', 'extends', 'bases', 'lazy'), (two, three, four, five)):
                classes['inherited', k] = c
        v = {'a': 1, 'b': 2, 'n': 3}
        o = classes['inherited', kind](copy.deepcopy(v))
        for i, op in enumerate(seq):
            if op in v:
                v[op] += i + 1
                o[op] = v[op]
            else:
                getattr(o, op)
        chk.eq((o.h, o.g), (v['a'] + v['b'] * 10 + v['n'], v['a'] + v['b'] * 10), 'computed values')
        chk.eq(o.do_serialize()['h'], o.h, 'serialized value')
        return v

    def sources(c, item):
        kind, src = item
        seqs = [(x,) for x in CHANGES]
        if chk.thorough:
            seqs += [(x, y) for x in CHANGES for y in CHANGES]
        for seq in seqs:
            def valid_one():
                v = VALUES
                for p, x in seq:
                    v = changed(v, p, x)
                    meaning(src, v)
            if outcome(valid_one)[0] == 'ok':
                c.case('%s: %s' % (kind, src), [list(x) for x in seq], lambda: source(kind, src, seq), transitions=len(seq) + 1)

    def collections(kind, seq):
        key = ('collections', kind)
        if key not in classes:
            classes[key] = mk({'type': 'object', 'lazyLoading': kind == 'lazy', 'properties': COLL_PROPS,
                               'dependencies': {'sl': ['l'], 'sm': ['m'], 'so': ['o']}}, **coll_getters())
        v = {'l': [1, 2], 'm': [{'x': 3}, {'x': 4}], 'o': {'x': 5, 'l': [6]}}
        o = classes[key](dict(copy.deepcopy(v), e='`sum(l) + sum(i.x for i in m) + sum(o.l)'))
        for n, op in enumerate(seq):
            new = 10 + n
            if op == 'read':
                o.c, o.t, o.e
            elif op in ('l', 'o.l'):
                o[op] = [new, new]
                v = changed(v, op, [new, new])
            elif op == 'm':
                o.m = [{'x': new}]
                v['m'] = [{'x': new}]
            elif op == 'o':
                o.o = {'x': new, 'l': [new]}
                v['o'] = {'x': new, 'l': [new]}
            elif op == 'o.x':
                o.o.x = v['o']['x'] = new
            elif op == 'm[0].x':
                if v['m']:
                    o.m[0].x = v['m'][0]['x'] = new
            else:
                path, act = op.rsplit('.', 1)
                real, model = (o.o.l, v['o']['l']) if path == 'o.l' else (getattr(o, path), v[path])
                x = {'x': new} if path == 'm' else new
                for q in (real, model):
                    y = copy.deepcopy(x)
                    if act == 'append':
                        q.append(y)
                    elif act == 'insert':
                        q.insert(0, y)
                    elif act == 'extend':
                        q.extend([y, y])
                    elif act == 'reverse':
                        q.reverse()
                    elif act == 'set' and len(q):
                        q[len(q) - 1] = y
                    elif act == 'pop' and len(q):
                        q.pop()
        want = {'sl': sum(v['l']), 'sm': sum(i['x'] for i in v['m']), 'so': v['o']['x'] + sum(v['o']['l'])}
        want['c'] = '<%s|%s|%s>' % (want['sl'], want['sm'], want['so'])
        want['t'] = ''.join('%s,' % i for i in v['l']) + ''.join('%s;' % i['x'] for i in v['m']) + ''.join('%s.' % i for i in v['o']['l'])
        want['e'] = want['sl'] + want['sm'] + sum(v['o']['l'])
        for k in ('t', 'c', 'e', 'so', 'sm', 'sl'):
            chk.eq(getattr(o, k), want[k], k)
        return v

    d = 4 if chk.thorough else 3
    jobs = []
    for kind in ('eager', 'lazy', 'derived'):
        jobs += explore_sequences(chk, '%s all' % kind, OPS, 2, lambda s, k=kind: run(k, s, 'up'))
        jobs += explore_sequences(chk, '%s all, read backwards' % kind, OPS, 2, lambda s, k=kind: run(k, s, 'down'))
    for kind in ('eager', 'lazy'):
        jobs += explore_sequences(chk, '%s deep' % kind, SMALL, d, lambda s, k=kind: run(k, s, 'down'), min_depth=3)
    items = [(kind, src) for src in TEMPLATES + ['`' + e for e in EXPRESSIONS] for kind in ('eager', 'lazy')]
    jobs += chunked(chk, items, sources)
    for kind in ('chain', 'extends', 'bases', 'lazy'):
        jobs += explore_sequences(chk, '%s of classes' % kind, ['a', 'b', 'n', 'g', 'h'], d, lambda s, k=kind: inherited(k, s))
    for kind in ('eager', 'lazy'):
        jobs += explore_sequences(chk, '%s collections' % kind, COLL_OPS, d - 1, lambda s, k=kind: collections(k, s))
    chk.bounds = {'sources': len(items) // 2, 'changes': len(CHANGES), 'collection_operations': len(COLL_OPS), 'collection_depth': d - 1, 'operations': len(OPS), 'depth': 2, 'small_operations': len(SMALL), 'small_depth': d}
    chk.parallel(jobs)
