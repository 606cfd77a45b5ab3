# -*- coding: utf-8 -*-
"""C17: queries are the composition of filters, orders and set operations, whenever and however often they are read."""
import itertools
import operator

from mc.core import chunked, explore_sequences, outcome, typed, Mismatch
from mc.real import mk, forget_namespaces

from ngoschema.query import Query, Filter

SUB = {'type': 'object', 'properties': {'x': {'type': 'integer'}, 'size': {'type': 'integer'}, 'lt': {'type': 'string'}}}
SCHEMA = {'type': 'object', 'properties': {
    'id': {'type': 'integer'}, 'a': {'type': 'integer'}, 's': {'type': 'string'}, 'b': SUB, 'size': {'type': 'integer'},
    'l': {'type': 'array', 'items': {'type': 'integer'}}, 'not': {'type': 'boolean'}}}
RECORDS = [
    {'id': 0, 'a': 0, 's': 'Ab.c', 'b': {'x': 1, 'size': 2}, 'l': [1, 2]},
    {'id': 1, 'a': 1, 's': 'abxc', 'b': {'x': 0}, 'size': 2, 'l': [1]},
    {'id': 2, 's': '', 'b': {'lt': 'z', 'x': 2}, 'size': 0},
    {'id': 3, 'a': 2, 'l': [], 'not': True},
    {'id': 4, 'a': 1, 's': 'C', 'l': [3, 1, 0], 'not': False},
    {},
    {'id': 5, 'b': {}, 's': 'b.c', 'a': -1},
]
OPS = ['lt', 'le', 'eq', 'ne', 'neq', 'ge', 'gt', 'not', 'contains', 'in', 'size', 'intersects', 'ieq', 'icontains', 'startswith', 'istartswith',
       'endswith', 'iendswith', 'regex']
CRITERIA = [
    ('a', 0), ('a', 1), ('a__eq', 1), ('a__ne', 1), ('a__neq', 0), ('a__lt', 1), ('a__le', 1), ('a__gt', 0), ('a__ge', 0), ('a__not', 1), ('a__lt__not', 1),
    ('a__not__ge', 1), ('a__in', [0, 2]), ('a__in', ()), ('a__not__in', [0, 2]), ('a__x', 0), ('a__b__x', 0), ('zz', 0), ('zz__not', 0), ('zz__ne', 0),
    ('s', ''), ('s__size', 4), ('s__size__ge', 1), ('s__contains', 'b'), ('s__icontains', 'B.C'), ('s__icontains', 'B'), ('s__startswith', 'a'),
    ('s__istartswith', 'a'), ('s__istartswith', 'AB.'), ('s__endswith', 'c'), ('s__iendswith', 'C'), ('s__iendswith', '.C'), ('s__ieq', 'AB.C'), ('s__ieq', 'c'),
    ('s__ieq__not', 'c'), ('s__regex', 'a.*c'), ('s__regex', '[A-C]'), ('s__in', 'Cb.c'), ('s__lt', 'b'), ('s__@0', 'b'),
    ('b__x', 0), ('b__x', 1), ('b__x__ge', 1), ('b__x__not', 1), ('b__size', 2), ('b__size__ge', 2), ('b__size', 1), ('b__size', 0), ('b__lt', 'z'),
    ('b__lt__ne', 'y'), ('b__contains', 'x'), ('b__contains__not', 'size'), ('b__x__y', 1),
    ('size', 2), ('size', 0), ('size__ge', 0), ('size__not', 2), ('not', True), ('not', False), ('not__not', True), ('in', 1),
    ('l__size', 1), ('l__size', 0), ('l__size__ge', 1), ('l__size__not', 3), ('l__contains', 1), ('l__not__contains', 3), ('l__intersects', [0, 2]),
    ('l__intersects', []), ('l__@0', 1), ('l__@0__ge', 3), ('l__@-1', 2), ('l__@0__not', 1),
    # errors
    ('a__startswith', 'a'), ('a__lt', 'a'), ('l__intersects', 1), ('s__ieq', 1),
]
PRESENT = ['a', 's', 'b', 'b__x', 'l', 'size', 'zz', 'b__zz', 'a__x', 'not']


# ------------------------------------------------------------------ the reference
def child(v, k):
    return v.get(k) if isinstance(v, dict) else None


def get(rec, names):
    for n in names:
        rec = child(rec, n)
        if rec is None:
            return None
    return rec


def need(*types):
    for v, t in types:
        if not isinstance(v, t):
            raise TypeError(v)


def apply(op, a, b):
    if op in ('lt', 'le', 'eq', 'ne', 'ge', 'gt'):
        return getattr(operator, op)(a, b)
    if op == 'neq':
        return a != b
    if op == 'size':
        return len(a)
    if op[0] == '@':
        return a[int(op[1:])]
    if op == 'in':
        return a in b
    if op == 'contains':
        return b in a
    if op == 'intersects':
        need((a, (list, tuple)), (b, (list, tuple)))
        return any(x in b for x in a)
    need((a, str), (b, str))
    if op == 'regex':
        import re
        return re.match(b, a) is not None
    if op[0] == 'i':
        op, a, b = op[1:], a.lower(), b.lower()
    return {'eq': a == b, 'contains': b in a, 'startswith': a[:len(b)] == b, 'endswith': b == '' or a[-len(b):] == b}[op]


def meets(rec, key, ref):
    parts = key.split('__')
    n = len(parts)
    while n > 1 and (parts[n - 1] in OPS or parts[n - 1][0] == '@'):
        n -= 1
    names, ops = parts[:n], parts[n:]
    neg = 'not' in ops
    if neg:
        ops.remove('not')
    v = get(rec, names)
    if v is None:
        return False
    while ops and child(v, ops[0]) is not None:
        v, ops = child(v, ops[0]), ops[1:]
    if not ops or ops[-1] == 'size' or ops[-1][0] == '@':
        ops = ops + ['eq']
    for o in ops:
        v = apply(o, v, ref)
    return bool(v) is not neg


def select(rec, present, criteria, any_of=False, negate=False):
    # all the criteria are evaluated in order, until one decides
    res = not any_of
    for t in [lambda c=c: meets(rec, *c) for c in criteria] + [lambda p=p: get(rec, p.split('__')) is not None for p in present]:
        if t() is any_of:
            res = any_of
            break
    return res is not negate


_K = None


def build(kind):
    global _K
    if kind == 'dict':
        return [dict(r) for r in RECORDS]
    if _K is None:
        _K = mk(SCHEMA)
    return [_K(**r) for r in RECORDS]


def ids(objs):
    return [o['id'] if o.get('id') is not None else None for o in objs]


def same_error(chk, k1, k2, what):
    chk.true((k1 == 'err') == (k2 == 'err'), 'one of them only raises: %s' % what)


def criteria_case(c, kind, present, criteria):
    def run():
        seen = []
        for any_of, negate in itertools.product((False, True), repeat=2):
            objs = build(kind)
            flt = outcome(Filter, *present, any_of=any_of, negate=negate, **dict(criteria))
            exp = []
            for o, r in zip(objs, RECORDS):
                if kind == 'object':
                    r = dict({'l': []}, **r)      # an array which is not set is an empty array
                k, v = outcome(select, r, present, criteria, any_of, negate)
                exp.append((k, v))
                k2, v2 = outcome(flt[1], o)
                same_error(c, k, k2, 'expected %s, got %s for %s (any_of %s negate %s)' % (v, v2, r, any_of, negate))
                if k == 'ok':
                    c.eq(v2, v, 'filter of %s (any_of %s, negate %s)' % (r, any_of, negate))
                # a filter gives the same answer again
                k3, v3 = outcome(flt[1], o)
                c.eq((k3, v3 if k3 == 'ok' else None), (k2, v2 if k2 == 'ok' else None), 'filter applied a second time to %s' % r)
            method = {(False, False): 'filter', (False, True): 'exclude', (True, False): 'filter_any_of', (True, True): 'exclude_any_of'}[(any_of, negate)]
            q = getattr(Query(objs), method)(*present, **dict(criteria))
            if all(k == 'ok' for k, v in exp):
                e = [o for o, (k, v) in zip(objs, exp) if v]
                for again in range(2):
                    got = [o for o in q]
                    c.eq([id(o) for o in got], [id(o) for o in e], '%s reading %d: %s instead of %s' % (method, again, ids(got), ids(e)))
                c.eq(len(q), len(e), 'length')
                for o in objs:
                    c.eq(o in q, any(o == x for x in e), 'in')
                k, v = outcome(Query(objs).get, *present, **dict(criteria)) if method == 'filter' else ('skip', None)
                if k != 'skip':
                    c.eq(k, 'ok' if len(e) == 1 else 'err', 'get: one result exactly')
                    if k == 'ok':
                        c.true(v is e[0], 'get gives the object')
                    k, v = outcome(Query(objs).next, *present, **dict(criteria))
                    c.eq(k, 'ok' if e else 'err', 'next')
                    if e:
                        c.true(v is e[0], 'next gives the first')
                seen.append(tuple(ids(e)))
            else:
                for again in range(2):
                    c.true(outcome(lambda: [o for o in q])[0] == 'err', '%s: an error is not raised at reading %d' % (method, again))
                seen.append('error')
        return tuple(seen)
    c.case('criteria', (kind, tuple(present), tuple((k, repr(v)) for k, v in criteria)), run, transitions=4 * len(RECORDS))


# ------------------------------------------------------------------ chains and repeated reads
ROWS = [{'id': 0, 'a': 2, 'g': 'u'}, {'id': 1, 'a': 0, 'g': 'v'}, {'id': 2, 'a': 1, 'g': 'u'}, {'id': 0, 'a': 2, 'g': 'u'}, {'id': 3, 'a': 0, 'g': 'u'}]
OTHER = [2, 4, 1]


def uniq(l):
    res = []
    for x in l:
        if not any(ROWS[x] == ROWS[y] for y in res):
            res.append(x)
    return res


class M:
    """a query as the list of its results (rows numbers): source, distinct, order, reverse"""

    def __init__(self, src, distinct=False, order=None, reverse=False):
        self.src, self.distinct, self.order, self.reverse = list(src), distinct, order, reverse

    def res(self):
        r = uniq(self.src) if self.distinct else list(self.src)
        if self.order:
            r.sort(key=lambda i: ROWS[i][self.order])
        if self.reverse:
            r.reverse()
        return r

    def select(self, present, criteria, any_of, negate, distinct=None, order=None, reverse=None):
        d = distinct or self.distinct
        r = [i for i in self.src if select(ROWS[i], present, criteria, any_of, negate)]
        return M(uniq(r) if d else r, d, order or self.order, reverse or self.reverse)

    def combined(self, r):
        return M(r, self.distinct, self.order, self.reverse if self.order else False)


# derivations: name -> (real, model)
def _sel(meth, any_of, negate, present=(), kw=None, **opts):
    kw = kw or {}
    mopts = {'order' if k == 'order_by' else k: v for k, v in opts.items()}
    return (lambda q, o: getattr(q, meth)(*present, **kw, **opts)), (lambda m: m.select(present, tuple(kw.items()), any_of, negate, **mopts))


def _other(rows):
    return Query([rows[i] for i in OTHER])


DERIVE = {
    'filter a>=1': _sel('filter', False, False, kw={'a__ge': 1}),
    'filter g=u': _sel('filter', False, False, kw={'g': 'u'}),
    'filter g=u by a': _sel('filter', False, False, kw={'g': 'u'}, order_by='a'),
    'filter reversed': _sel('filter', False, False, present=('a',), reverse=True),
    'filter distinct': _sel('filter', False, False, present=('a',), distinct=True),
    'exclude a=0': _sel('exclude', False, True, kw={'a': 0}),
    'any': _sel('filter_any_of', True, False, kw={'a': 0, 'id': 2}),
    'exclude any by a': _sel('exclude_any_of', True, True, kw={'a': 1, 'g': 'v'}, order_by='a'),
    'order a': ((lambda q, o: q.order_by('a')), (lambda m: M(m.src, m.distinct, 'a', False))),
    'order id desc': ((lambda q, o: q.order_by('id', reverse=True)), (lambda m: M(m.src, m.distinct, 'id', True))),
    'reverse': ((lambda q, o: q.reverse()), (lambda m: M(m.res()[::-1], m.distinct))),
    'union': ((lambda q, o: q.union(_other(o))), (lambda m: m.combined(m.res() + OTHER))),
    'intersection': ((lambda q, o: q.intersection(_other(o))), (lambda m: m.combined([i for i in m.res() if any(ROWS[i] == ROWS[j] for j in OTHER)]))),
    'difference': ((lambda q, o: q.difference(_other(o))), (lambda m: m.combined([i for i in m.res() if not any(ROWS[i] == ROWS[j] for j in OTHER)]))),
    'union of 3': ((lambda q, o: q.union(_other(o), Query(o[:1]))), (lambda m: m.combined(m.res() + OTHER + [0]))),
    'intersection of 3': ((lambda q, o: q.intersection(_other(o), Query(o[1:3]))),
                          (lambda m: m.combined([i for i in m.res() if any(ROWS[i] == ROWS[j] for j in OTHER) and i in (1, 2)]))),
    'difference of 3': ((lambda q, o: q.difference(_other(o), Query(o[3:4]))),
                        (lambda m: m.combined([i for i in m.res() if not any(ROWS[i] == ROWS[j] for j in OTHER + [3])]))),
}
READ = {
    'list': (lambda q: list(q), lambda r: r),
    'len': (lambda q: len(q), len),
    'first': (lambda q: q.first(), lambda r: r[0] if r else None),
    'last': (lambda q: q.last(), lambda r: r[-1] if r else None),
    'half': (lambda q: next(iter(q)), lambda r: r[0] if r else StopIteration),
    'next': (lambda q: q.next(), None),
    'slice': (lambda q: q[1:3], lambda r: r[1:3]),
    'all': (lambda q: q.all(), lambda r: r),
    'count': (lambda q: (q.count(), q.isEmpty()), lambda r: (len(r), not r)),
}
SOURCES = ['list', 'tuple', 'generator', 'query', 'distinct', 'reversed', 'ordered']


def number(rows, o):
    for i, r in enumerate(rows):
        if r is o:
            return i
    return repr(o)


def nums(rows, v):
    if isinstance(v, (list, tuple)) and not isinstance(v, tuple):
        return [number(rows, o) for o in v]
    if isinstance(v, (dict,)) or hasattr(v, 'keys'):
        return number(rows, v)
    return v


def source(kind, rows):
    n = list(range(len(rows)))
    if kind == 'list':
        return Query(rows), M(n)
    if kind == 'tuple':
        return Query(tuple(rows)), M(n)
    if kind == 'generator':
        return Query(r for r in rows), M(n)
    if kind == 'query':
        return Query(Query(rows)), M(n)
    if kind == 'distinct':
        return Query(rows, distinct=True), M(n, True)
    if kind == 'reversed':
        return Query(rows, reverse=True), M(n, reverse=True)
    return Query(rows, order_by='a'), M(n, order='a')


_R = None


def chain_run(c, kind, typ, seq):
    global _R
    if typ == 'dict':
        rows = [dict(r) for r in ROWS]
    else:
        if _R is None:
            _R = mk({'type': 'object', 'properties': {'id': {'type': 'integer'}, 'a': {'type': 'integer'}, 'g': {'type': 'string'}}})
        rows = [_R(**r) for r in ROWS]
    q, m = source(kind, rows)
    qs = [('source', q, m)]
    for op in seq:
        if op in READ:
            real, ref = READ[op]
            k, v = outcome(real, q)
            if op == 'next':
                e = (uniq(m.src) if m.distinct else m.src)
                e = e[0] if e else StopIteration
            else:
                e = ref(m.res())
            if e is StopIteration:
                c.eq(k, 'err', op)
            else:
                c.eq(k, 'ok', '%s raises %r' % (op, v))
                c.eq(nums(rows, v), e, '%s of %s' % (op, seq))
        else:
            real, ref = DERIVE[op]
            q, m = real(q, rows), ref(m)
            qs.append((op, q, m))
    # every query of the chain, the last one first, read twice
    for name, q, m in reversed(qs + qs):
        c.eq([number(rows, o) for o in q], m.res(), 'results of %s after %s' % (name, seq))
    c.eq([number(rows, o) for o in rows], list(range(len(rows))), 'the queried list is left as it is')
    return (kind, tuple(tuple(m.res()) for n, q, m in qs))


def check(chk):
    th = chk.thorough
    items = []
    for kind in ('dict', 'object'):
        # (the length of an object is the one of its schema)
        ALL = [x for x in CRITERIA if kind == 'dict' or not x[0].startswith(('b__size', 'b__contains'))]
        items += [(kind, (), (x,)) for x in ALL] + [(kind, (p,), ()) for p in PRESENT] + [(kind, (), ())]
        items += [(kind, p, ()) for p in itertools.permutations(PRESENT[:6], 2)]
        short = ALL[::1 if th or kind == 'dict' else 4]
        items += [(kind, (), (x, y)) for x, y in itertools.permutations(short, 2) if x[0] != y[0]]
        items += [(kind, (p,), (x,)) for p in PRESENT for x in short]
        if th:
            items += [(kind, (), t) for t in itertools.permutations(ALL[::4], 3) if len({x[0] for x in t}) == 3]
    jobs = chunked(chk, items, lambda c, it: criteria_case(c, *it))
    d = 3 if not th else 4
    for kind in SOURCES:
        for typ in ('dict', 'object'):
            if typ == 'object' and kind != 'generator':
                continue
            dd = d if typ == 'dict' else d - 1
            jobs += explore_sequences(chk, 'chain/%s/%s' % (kind, typ), list(DERIVE) + list(READ), dd,
                                      lambda seq, kind=kind, typ=typ: chain_run(chk, kind, typ, seq), split=1)
    chk.bounds = ('%d criteria (all operators, nested paths, names equal to operators, missing and falsy values, errors) alone, in ordered pairs%s and with presence '
                  'tests, as all/any/negated filters over %d records as dictionaries and objects; every sequence of up to %d derivations and reads over %d kinds of sources'
                  % (len(CRITERIA), ' and triples' if th else '', len(RECORDS), d, len(SOURCES)))
    chk.parallel(jobs)
