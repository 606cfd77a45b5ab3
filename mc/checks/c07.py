# -*- coding: utf-8 -*-
"""C07: a typed array is a list of converted, valid items."""
import copy

from mc.core import explore_sequences, chunked, outcome, Mismatch
from mc.real import mk, evaluate, Reject

INT = {'type': 'integer', 'minimum': 0}
OBJ = {'type': 'object', 'properties': {'x': {'type': 'integer', 'minimum': 0}}, 'additionalProperties': False}


def conv_int(v):
    return None if v is None else evaluate('integer', {'minimum': 0}, v)


def conv_str(v):
    return None if v is None else evaluate('string', {'maxLength': 3}, v)


def conv_obj(v):
    if not isinstance(v, dict) or set(v) - {'x'}:
        raise Reject(v)
    return {'x': conv_int(v.get('x'))}


def conv_row(v):
    if v is None:
        return []
    return [conv_int(x) for x in v]


KINDS = {
    'int': ({'type': 'array', 'items': INT}, lambda i: conv_int),
    'lazy': ({'type': 'array', 'items': INT, 'lazyLoading': True}, lambda i: conv_int),
    'any': ({'type': 'array'}, lambda i: lambda v: v),
    'tuple': ({'type': 'array', 'items': [INT, {'type': 'string', 'maxLength': 3}, INT, {'type': 'string', 'maxLength': 3}]}, lambda i: [conv_int, conv_str][i % 2] if i < 4 else (lambda v: v)),
    'obj': ({'type': 'array', 'items': OBJ}, lambda i: conv_obj),
    'row': ({'type': 'array', 'items': {'type': 'array', 'items': INT}}, lambda i: conv_row),
    'unique': ({'type': 'array', 'items': INT, 'uniqueItems': True}, lambda i: conv_int),
    'min': ({'type': 'array', 'items': INT, 'minItems': 2}, lambda i: conv_int),
    'split': ({'type': 'array', 'items': INT, 'splitString': True, 'strDelimiter': ';'}, lambda i: conv_int),
}
G = {'int': ['7', 8, 0, None], 'obj': [{'x': '7'}, {'x': 0}, {}, {'x': 9}], 'row': [['7'], [8, '9'], [], [0]]}
B = {'int': [-1, 'w', [1]], 'obj': [{'x': -1}, {'z': 1}], 'row': [[1, -1], ['q']], 'tuple': [-1, 'wwww'], 'any': []}
INITS = {'int': [[], ['1'], [1, '2', 3]], 'obj': [[], [{'x': '1'}, {'x': 2}]], 'row': [[], [['1'], [2, '3']]],
         'tuple': [[], ['1'], ['1', 2, '3', 'z', 'long']], 'any': [[], [1, 'a', None]], 'unique': [[], [1, '2', 3]]}


class Model:
    def __init__(self, kind, init):
        self.kind, self.conv = kind, KINDS[kind][1]
        self.unique = kind == 'unique'
        self.l = [self.conv(i)(copy.deepcopy(v)) for i, v in enumerate(init)]
        if kind == 'min':
            self.l += [None] * (2 - len(self.l))
        self.check(self.l)

    def check(self, l):
        if self.unique and any(v is not None and v in l[:i] for i, v in enumerate(l)):
            raise Reject(l)

    def pos(self, i):
        n = len(self.l)
        return min(max(i + n if i < 0 else i, 0), n)

    def apply(self, op):
        l, name = self.l, op[0]
        if name == 'set':
            if not -len(l) <= op[1] < len(l):
                raise Reject(op)
            i = op[1] % len(l)
            new = list(l)
            new[i] = self.conv(i)(copy.deepcopy(op[2]))
            self.check(new)
            self.l = new
        elif name in ('append', 'insert'):
            i = len(l) if name == 'append' else self.pos(op[1])
            new = list(l)
            new.insert(i, self.conv(i)(copy.deepcopy(op[-1])))
            self.check(new)
            self.l = new
        elif name in ('extend', 'iadd'):
            for v in op[1]:
                self.apply(('append', v))
        elif name == 'del':
            if not -len(l) <= op[1] < len(l):
                raise Reject(op)
            del l[op[1]]
        elif name == 'pop':
            if not l:
                raise Reject(op)
            return l.pop()
        elif name == 'remove':
            if op[1] not in l:
                raise Reject(op)
            l.remove(op[1])
        elif name == 'clear':
            del l[:]
        elif name == 'reverse':
            l.reverse()
        elif name == 'delslice':
            del l[0:2]
        elif name == 'index':
            if op[1] not in l:
                raise Reject(op)
            return l.index(op[1])
        elif name == 'count':
            return l.count(op[1])


def plain(x):
    from collections.abc import Mapping
    if isinstance(x, Mapping):
        return {k: plain(x[k]) for k in x}
    if hasattr(x, 'insert'):
        return [plain(i) for i in x]
    return x


def real(o, op):
    a, name = o['l'], op[0]
    if name == 'set':
        a[op[1]] = copy.deepcopy(op[2])
    elif name == 'append':
        a.append(copy.deepcopy(op[1]))
    elif name == 'insert':
        a.insert(op[1], copy.deepcopy(op[2]))
    elif name == 'extend':
        a.extend(copy.deepcopy(op[1]))
    elif name == 'iadd':
        a += copy.deepcopy(op[1])
    elif name == 'del':
        del a[op[1]]
    elif name == 'pop':
        return plain(a.pop())
    elif name == 'remove':
        a.remove(op[1])
    elif name == 'clear':
        a.clear()
    elif name == 'reverse':
        a.reverse()
    elif name == 'delslice':
        del a[0:2]
    elif name == 'index':
        return a.index(op[1])
    elif name == 'count':
        return a.count(op[1])
    elif name == 'read':
        for i in range(len(a)):
            a[i]
    elif name == 'repr':
        repr(a), str(a)


def ops(kind):
    fam = {'lazy': 'int', 'unique': 'int', 'min': 'int', 'split': 'int', 'tuple': 'tuple', 'any': 'any'}.get(kind, kind)
    if fam == 'tuple':
        good, bad = ['7', 8, 'ab'], B['tuple']
    elif fam == 'any':
        good, bad = ['7', None, [1], 8], []
    else:
        good, bad = G[fam], B[fam]
    if kind == 'lazy':
        bad = []
    res = []
    for v in good[:2] + bad[:2]:
        res += [('append', v), ('set', 0, v), ('set', -1, v), ('insert', 0, v)]
    res += [('insert', -1, good[0]), ('insert', 9, good[1]), ('insert', 1, good[-1]), ('set', 5, good[0]), ('set', -5, good[0]), ('set', 1, good[1])]
    if bad:
        res += [('insert', 9, bad[0]), ('insert', -1, bad[-1]), ('set', 1, bad[-1]), ('extend', [good[0], bad[0]])]
    if kind != 'tuple':   # these move items which are typed by their position
        res += [('reverse',), ('del', 0), ('delslice',)]
    res += [('extend', good[:2]), ('iadd', [good[0]]), ('del', -1), ('del', 5), ('pop',), ('clear',), ('read',), ('repr',)]
    if fam == 'int':
        res += [('remove', 7), ('remove', 99), ('index', 7), ('count', 7), ('append', None)]
    return res


def allowed(kind):
    if kind != 'tuple':
        return None

    def ok(seq):
        # an insertion before typed items shifts them to another type: only at the end
        return all(op[0] != 'insert' or op[1] == 9 for op in seq)
    return ok


def check(chk):
    classes = {}

    def cls(kind, dft=None):
        if (kind, dft) not in classes:
            sc = dict(KINDS[kind][0])
            if dft is not None:
                sc['default'] = [5, 6]
            classes[kind, dft] = mk({'type': 'object', 'properties': {'l': sc}})
        return classes[kind, dft]

    def observe(o, m):
        a, w = o['l'], m.l
        chk.eq(len(a), len(w), 'length')
        chk.eq(plain(a), w, 'items')
        chk.eq([plain(a[i]) for i in range(len(w))], w, 'by index')
        chk.eq([plain(a[i - len(w)]) for i in range(len(w))], w, 'by negative index')
        chk.raises(lambda: a[len(w)], IndexError, 'index out of range')
        chk.raises(lambda: a[-len(w) - 1], IndexError, 'negative index out of range')
        chk.eq([plain(x) for x in a[1:3]], w[1:3], 'slice')
        chk.eq([plain(x) for x in a[::-1]], w[::-1], 'reversed slice')
        chk.eq([plain(x) for x in reversed(a)], w[::-1], 'reversed')
        ser = a.do_serialize(no_defaults=False)
        chk.eq(plain(ser), w, 'serialized')
        a2 = type(a)(copy.deepcopy(w))
        chk.true((m.kind == 'min' and len(w) < 2) or (a == a2 and a2 == a), 'differs from an array with the same items')
        if w and m.kind not in ('obj', 'row'):
            chk.true(w[0] in a, 'in')

    def run(kind, init, seq):
        o, m = cls(kind)(l=copy.deepcopy(init)), Model(kind, init)
        for op in seq:
            want, got = outcome(m.apply, op), outcome(real, o, op)
            if want[0] == 'err' and not isinstance(want[1], Reject):
                raise want[1]
            if got[0] != want[0]:
                raise Mismatch('%s: %s' % (op, 'accepted, expected to be rejected' if got[0] == 'ok' else 'rejected: %r' % got[1]))
            if op[0] in ('pop', 'index', 'count') and got[0] == 'ok':
                chk.eq(got[1], want[1], 'result of %s' % op[0])
            if op[0] in ('set', 'del', 'pop') and got[0] == 'err' and want[0] == 'err' and op[0] != 'set':
                chk.true(isinstance(got[1], IndexError), '%s: %r' % (op, got[1]))
        observe(o, m)
        return kind, m.l

    def construct(c, item):
        kind, init, how = item

        def go():
            want = outcome(Model, kind, init)

            def build():
                if how == 'ctor':
                    return cls(kind)(l=copy.deepcopy(init))
                o = cls(kind)()
                if how == 'attr':
                    o.l = copy.deepcopy(init)
                elif how == 'tuple':
                    o.l = tuple(copy.deepcopy(init))
                elif how == 'array':
                    o.l = cls(kind)(l=copy.deepcopy(init)).l
                else:
                    o['l'] = copy.deepcopy(init)
                return o
            got = outcome(build)
            if got[0] != want[0]:
                raise Mismatch('%s' % ('accepted, expected to be rejected' if got[0] == 'ok' else 'rejected: %r' % got[1]))
            if got[0] == 'ok':
                observe(got[1], want[1])
                return kind, want[1].l
            return kind, 'rejected'
        c.case('construct', item, go)

    def strings(c, item):
        text, how = item

        def go():
            want = ref_split(text)
            got = outcome(lambda: plain((cls('split')(l=text) if how == 'ctor' else assign(cls('split')(), text)).l))
            if want == 'err':
                c.true(got[0] == 'err', 'accepted as %r' % (got[1],))
                return 'err'
            c.eq(got, ('ok', want), 'split')
            o = cls('split')(l=want)
            s = o.l.do_serialize(as_string=True)
            c.eq(s, ';'.join(str(x) for x in want), 'as a string')
            if want:
                c.eq(plain(cls('split')(l=s).l), want, 'round trip')
            return want
        c.case('strings', item, go)

    def assign(o, v):
        o.l = v
        return o

    def ref_split(s):
        if s == '':
            return []
        try:
            return [conv_int(p.strip()) for p in s.split(';')]
        except Reject:
            return 'err'

    def scalars(c, item):
        # a scalar is the array of this item
        kind, dft, value, how = item

        def go():
            want = outcome(Model, kind, [value])

            def build():
                if how == 'ctor':
                    return cls(kind, dft)(l=value)
                o = cls(kind, dft)(**({} if how == 'attr' else {'l': [1, 2]}))
                return assign(o, value)
            got = outcome(build)
            if got[0] != want[0]:
                raise Mismatch('%s' % ('accepted, expected to be rejected' if got[0] == 'ok' else 'rejected: %r' % got[1]))
            if got[0] == 'ok':
                observe(got[1], want[1])
            return kind, repr(value)
        c.case('scalars', item, go)

    def defaults(c, item):
        value, how = item

        def go():
            kw = {} if value is None else {'l': copy.deepcopy(value)}
            o = cls('int', True)(**kw)
            if how == 'again':
                o.l.append(9)
                o = cls('int', True)(**kw)
            elif how == 'assign' and value is not None:
                o = cls('int', True)()
                o.l = copy.deepcopy(value)
            want = [5, 6] if value is None else [conv_int(x) for x in value]
            c.eq(plain(o.l), want, 'items')
            c.eq(plain(o.do_serialize().get('l')), None if want == [5, 6] else want, 'serialized')
            return value, how
        c.case('defaults', item, go)

    d = 3 if chk.thorough else 2
    jobs = []
    for kind in KINDS:
        for init in INITS.get(kind, INITS['int']):
            jobs += explore_sequences(chk, 'histories %s %r' % (kind, init), ops(kind), d,
                                      lambda s, kind=kind, init=init: run(kind, init, s), allowed=allowed(kind))
    short_ops = [('append', '7'), ('set', 0, '8'), ('set', -1, -1), ('insert', 0, 0), ('insert', 1, 'w'), ('del', 0), ('pop',), ('reverse',), ('read',)]
    for kind in ('int', 'unique', 'lazy'):
        o = short_ops if kind != 'lazy' else [x for x in short_ops if x[-1] not in (-1, 'w')]
        jobs += explore_sequences(chk, 'deep %s' % kind, o, 5 if chk.thorough else 4,
                                  lambda s, kind=kind: run(kind, [1, '2'], s), min_depth=3)
    single = [(k, d, v, h) for k in ('int', 'lazy', 'any', 'unique') for d in (None, True) for v in (0, 3, 0.0, 2.0, '5', '0') + ((-1, 'w') if k in ('int', 'unique') else ()) for h in ('ctor', 'attr', 'over')]
    jobs += chunked(chk, single, scalars, 2)
    cons = []
    for kind in KINDS:
        fam = kind if kind in ('obj', 'row') else 'int'
        vals = G[fam] + (B[fam] if kind not in ('any', 'lazy') else [])
        for n in range(0, 4):
            import itertools
            for t in itertools.product(vals, repeat=n):
                if kind == 'row' and None in t:
                    continue
                for how in ('ctor', 'attr', 'item', 'array', 'tuple') if n < 3 else ('ctor',):
                    cons.append((kind, list(t), how))
    jobs += chunked(chk, cons, construct)
    jobs += chunked(chk, [(s, h) for s in ('', '1', '1;2', ' 1 ; 2', '1;', ';', '1,2', '1;x', '-1', '1;2;3;04') for h in ('ctor', 'assign')], strings, 2)
    jobs += chunked(chk, [(v, h) for v in (None, [], ['1'], [5, 6]) for h in ('first', 'again', 'assign')], defaults, 1)
    chk.bounds = {'kinds': list(KINDS), 'operations': {k: len(ops(k)) for k in KINDS}, 'depth': d}
    chk.parallel(jobs)
