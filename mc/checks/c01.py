# -*- coding: utf-8 -*-
"""C01: a scalar is converted to its type and satisfies every constraint, or is rejected."""
import datetime
import decimal
import itertools

from mc.core import chunked, outcome, Mismatch
from mc.real import mk, evaluate, ref, Reject
from ngoschema.types import Integer, Number, String, Boolean, Enum, Date, Time, Datetime, Array, Path, Uri

CLS = {'integer': Integer, 'number': Number, 'string': String, 'boolean': Boolean, 'enum': Enum}
D = decimal.Decimal

INTS = [-7, -1, 0, 1, 2, 3, 4, 5, 6, 10, 12, 100]
FLOATS = [-2.5, -0.5, 0.0, 0.5, 1.0, 1.5, 2.25, 3.0, 3.75, 6.0, 10.5]
NUMSTR = ['-3', '0', '1', '2', '3', ' 4 ', '6', '12', '+5', '007', '2.5', '-0.5', '1e2', '.5']
BADSTR = ['', 'x', '1x', '--1', '1,5', 'a b', 'nope']
BOOLS = [True, False, 'true', 'TRUE', 'False', 'fAlse', 'yes', '0', '1']
DECS = [D('0'), D('1'), D('2.5'), D('-1.25'), D('3'), D('6')]
STRS = ['a', 'ab', 'abc', 'abcd', 'b', 'ba', 'aab', 'A', 'a1', '12', 'é', 'a\nb', 'true']

NUM_CONSTRAINTS = [('minimum', 0), ('minimum', 2), ('minimum', 0.5), ('maximum', 3), ('maximum', 6), ('maximum', 0),
                   ('exclusiveMinimum', 0), ('exclusiveMinimum', 2), ('exclusiveMaximum', 3), ('exclusiveMaximum', 6),
                   ('multipleOf', 2), ('multipleOf', 3), ('multipleOf', 0.5),
                   ('enum', [1, 3, 6]), ('const', 3), ('not', {'minimum': 3}),
                   ('anyOf', [{'maximum': 0}, {'minimum': 3}]), ('oneOf', [{'minimum': 1}, {'multipleOf': 2}]),
                   ('allOf', [{'minimum': 1}, {'maximum': 4}])]
STR_CONSTRAINTS = [('minLength', 0), ('minLength', 1), ('minLength', 2), ('minLength', 3), ('maxLength', 0), ('maxLength', 1),
                   ('maxLength', 3), ('pattern', 'a'), ('pattern', '^a'), ('pattern', '^[ab]+$'),
                   ('pattern', r'\d'), ('enum', ['a', 'ab', '3']), ('const', 'ab'), ('not', {'pattern': 'b'}),
                   ('anyOf', [{'maxLength': 1}, {'pattern': 'c'}]), ('oneOf', [{'minLength': 2}, {'pattern': '^a'}]),
                   ('allOf', [{'minLength': 2}, {'maxLength': 3}])]
ENUMS = [['a', 'b', 'c'], ['a'], [10, 20, 30], ['1', '0', '2'], [1, 0], [1.5, 2.5, 'x'], ['true', 'false'],
         ['x', 5], ['', 'z']]


def schemas(constraints, n):
    for k in range(n + 1):
        for comb in itertools.combinations(constraints, k):
            names = [c[0] for c in comb]
            if len(set(names)) == len(names):
                yield dict(comb)


def check_scalar(chk, item):
    ty, schema, v, entries = item
    want = ref(evaluate, ty, schema, v)

    def judge(got, how):
        if want[0] == 'ok':
            if got[0] != 'ok':
                raise Mismatch('%s: rejected with %r, expected %r' % (how, got[1], want[1]))
            chk.eq(got[1], want[1], how)
        else:
            if got[0] == 'ok':
                raise Mismatch('%s: accepted as %r, expected to be rejected' % (how, got[1]))
            if not isinstance(got[1], (ValueError, TypeError)):
                raise Mismatch('%s: rejected with %r' % (how, got[1]))

    def run():
        T = CLS[ty](**schema)
        judge(outcome(T, v), 'evaluated')
        if want[0] == 'ok':
            judge(outcome(T, want[1]), 'evaluated again')
            if ty != 'enum' or v != '':
                chk.true(T.check(want[1]) or ty == 'enum', 'converted value is not recognised by the type')
        if entries:
            ps = dict(schema) if ty == 'enum' else dict(schema, type=ty)

            def prop():
                o = entries_class(ps)()
                o.p = v
                return o.p

            def item_():
                return entries_class(ps)(p=v)['p']

            def arr():
                return list(Array(items=ps)([v]))[0]
            judge(outcome(prop), 'assigned to a property')
            judge(outcome(item_), 'given to the constructor')
            judge(outcome(arr), 'array item')
        return ty, schema, (want[0], repr(want[1]) if want[0] == 'ok' else '')
    chk.case('scalar', (ty, schema, v), run, transitions=5 if entries else 2)


_classes = {}


def entries_class(ps):
    k = repr(ps)
    if k not in _classes:
        _classes[k] = mk({'type': 'object', 'properties': {'p': ps}})
    return _classes[k]


# ------------------------------------------------------------------ dates and times
def ref_date(s):
    import re
    forms = [r'(?P<Y>\d{4})%s(?P<M>\d\d)%s(?P<D>\d\d)', r'(?P<Y>\d{4})%s(?P<M>\d\d)',
             r'(?P<D>\d\d)%s(?P<M>\d\d)%s(?P<Y>\d{4})', r'(?P<M>\d\d)%s(?P<Y>\d{4})']
    for sep in ('-', '/', r'\.'):
        for f in forms:
            m = re.match('^' + (f % ((sep,) * f.count('%s'))) + '$', s)
            if m:
                g = m.groupdict()
                try:
                    return datetime.date(int(g['Y']), int(g['M']), int(g.get('D') or 1))
                except ValueError:
                    raise Reject(s)
    raise Reject(s)


def ref_time(s):
    import re
    m = re.match(r'^(\d\d):(\d\d)(?::(\d\d))?(?:\.(\d{3}|\d{6}))?(?: (AM|PM))?$', s)
    if not m or (m.group(4) and not m.group(3)) or (m.group(4) and m.group(5)):
        raise Reject(s)
    h = int(m.group(1))
    if m.group(5) == 'PM' and h < 12:
        h += 12
    if m.group(5) == 'AM' and h == 12:
        h = 0
    try:
        return datetime.time(h, int(m.group(2)), int(m.group(3) or 0), int((m.group(4) or '0').ljust(6, '0')))
    except ValueError:
        raise Reject(s)


def date_strings(full):
    ys = ['2020', '2021', '1999'] if full else ['2020', '2021']
    ms = ['00', '01', '02', '12', '13', '06'] if full else ['00', '02', '12', '13']
    ds = ['00', '01', '28', '29', '30', '31', '32'] if full else ['00', '01', '29', '30', '31']
    for sep in '-/.':
        for y, m in itertools.product(ys, ms):
            yield sep.join((y, m))
            yield sep.join((m, y))
            for d in ds:
                yield sep.join((y, m, d))
                yield sep.join((d, m, y))
    for s in ('', 'x', '2020', '20-01-02', '2020-1-2', '2020-01-02x', '2020-01-02-03', '20200102', '2020 01 02', 'yesterday'):
        yield s


def time_strings(full):
    hs = ['00', '01', '11', '12', '13', '23', '24'] if full else ['00', '01', '12', '23', '24']
    for h, m in itertools.product(hs, ['00', '34', '59', '60']):
        yield '%s:%s' % (h, m)
        if int(h) <= 12:
            for ap in ('AM', 'PM'):
                if h != '00':
                    yield '%s:%s %s' % (h, m, ap)
                    yield '%s:%s:07 %s' % (h, m, ap)
        for s in ['00', '59', '61']:
            yield '%s:%s:%s' % (h, m, s)
            yield '%s:%s:%s.123' % (h, m, s)
            yield '%s:%s:%s.123456' % (h, m, s)
    for s in ('', 'x', '12', '1:2', '12:3', '12:34:5', '12-34', 'noon'):
        yield s


def check_dt(chk, item):
    kind, s = item

    def run():
        if kind == 'date':
            T, want = Date(), ref(ref_date, s)
        elif kind == 'time':
            T, want = Time(), ref(ref_time, s)
        else:
            d, t = s.split(' ', 1)
            T = Datetime()

            def f(_):
                return datetime.datetime.combine(ref_date(d), ref_time(t))
            want = ref(f, s)
        got = outcome(T, s)
        if want[0] == 'err':
            chk.true(got[0] == 'err' and isinstance(got[1], ValueError), '%r is accepted or badly rejected: %r' % (s, got[1]))
            return kind, 'err'
        chk.true(got[0] == 'ok', '%r is rejected: %r' % (s, got[1]))
        v = got[1]
        if kind == 'datetime':
            chk.eq(v.naive, want[1], 'value')
            chk.eq(v.utcoffset(), datetime.timedelta(0), 'offset')
            chk.eq(T.serialize(v), v.isoformat(), 'serialized')
            chk.same(T(v), v, 'again')
            chk.same(T(v.naive), v, 'from datetime')
        else:
            chk.eq(v, want[1], 'value')
            chk.eq(T.serialize(v), v.isoformat(), 'serialized')
            chk.eq(T(v), v, 'again')
            chk.eq(T(T.serialize(v)), v, 'round trip')
        return kind, repr(want[1])
    chk.case('dt', item, run, transitions=4)


DT_RAW = [5, 1.5, True, [1], {}, object]


def check_dt_raw(chk, item):
    name, v = item
    T = {'date': Date, 'time': Time, 'datetime': Datetime}[name]()

    def run():
        got = outcome(T, v)
        chk.true(got[0] == 'err' and isinstance(got[1], (ValueError, TypeError)), '%r is taken as %s: %r' % (v, name, got[1]))
        return name, repr(v)
    chk.case('dt raw', (name, repr(v)), run)


_d, _t = datetime.date, datetime.time
_dt = datetime.datetime
# native value -> its date, its time, its datetime (None: rejected)
NATIVES = [
    (_d(2020, 2, 29), _d(2020, 2, 29), None, None),
    (_d(1, 1, 1), _d(1, 1, 1), None, None),
    (_t(0, 0), None, _t(0, 0), None),
    (_t(23, 59, 59, 7), None, _t(23, 59, 59, 7), None),
    (_dt(2020, 2, 29), _d(2020, 2, 29), None, _dt(2020, 2, 29)),
    (_dt(2020, 2, 29, 1), None, None, _dt(2020, 2, 29, 1)),
    (_dt(2020, 2, 29, 0, 0, 0, 1), None, None, _dt(2020, 2, 29, 0, 0, 0, 1)),
    (_dt(1, 1, 1, 3, 4, 5), None, _t(3, 4, 5), _dt(1, 1, 1, 3, 4, 5)),
    (_dt(1, 1, 1), _d(1, 1, 1), _t(0, 0), _dt(1, 1, 1)),
    (_dt(1, 1, 2, 3), None, None, _dt(1, 1, 2, 3)),
    (_dt(1, 2, 1, 3), None, None, _dt(1, 2, 1, 3)),
    (_dt(9999, 12, 31, 23, 59), None, None, _dt(9999, 12, 31, 23, 59)),
]


def check_native(chk, item):
    import arrow
    name, how, (v, date, time, dt) = item
    want = {'date': date, 'time': time, 'datetime': dt}[name]
    if how == 'arrow':
        v = arrow.get(v)

    def run():
        T = {'date': Date, 'time': Time, 'datetime': Datetime}[name]()
        cls = mk({'type': 'object', 'properties': {'v': {'type': name}}})
        for make in (lambda: T(v), lambda: cls(v=v).v, lambda: cls(v=v)['v']):
            got = outcome(make)
            if want is None:
                chk.true(got[0] == 'err' and isinstance(got[1], (ValueError, TypeError)), '%r is taken as %s: %r' % (v, name, got[1]))
            else:
                chk.true(got[0] == 'ok', 'rejected: %r' % got[1])
                r = got[1].naive if name == 'datetime' else got[1]
                chk.eq(r, want, 'value')
        return name, repr(v)
    chk.case('dt native', (name, how, repr(v)), run, transitions=3)


FORMATS = [('date', 'DD/MM/YYYY', '2020-03-04', '04/03/2020'), ('date', '%d/%m/%Y', '2020-03-04', '04/03/2020'),
           ('date', 'YYYY', '2020-03-04', '2020'), ('time', 'HH:mm', '12:34:56', '12:34'), ('time', '%M', '12:34:56', '34'),
           ('datetime', 'YYYY HH', '2020-03-04 12:34', '2020 12'), ('datetime', '%Y %H', '2020-03-04 12:34', '2020 12'),
           ('date', 'ATOM', '2020-03-04', '2020-03-04 00:00:00+00:00')]


def check_format(chk, item):
    name, fmt, s, want = item

    def run():
        T = {'date': Date, 'time': Time, 'datetime': Datetime}[name](format=fmt)
        chk.eq(T(s, serialize=True), want, 'serialized')
        chk.eq(T(None, serialize=True), None, 'unset')
        return item
    chk.case('dt format', item, run)


# ------------------------------------------------------------------ None and defaults
def ambiguous(enum, v):
    # JSON schema tells 1 from true, Python does not: left out
    return any(e == v and isinstance(e, bool) != isinstance(v, bool) for e in enum)


def check_none(chk, item):
    ty, default = item

    def run():
        kw = {'enum': [3, 0, 1]} if ty == 'enum' else {}
        if default is not None:
            kw['default'] = default
        T = CLS[ty](**kw)
        want = (3 if ty == 'enum' else None) if default is None else evaluate(ty, kw, default)
        chk.eq(T(None), want, 'unset')
        return item
    chk.case('none', item, run)


# ------------------------------------------------------------------ paths and uris
URIS = ['http://a.org/b?c=d#e', 'file:///a/b', '', 'a/b', '#', 'urn:x:y', 'http://h:80/p;q', 'HTTP://A.org', 'a%20b', '//h/p']
PATHS = ['a/b', '/a/b.c', '.', '..', 'a/../b', 'a//b', 'é', 'a b', 'a.tar.gz']


def check_uri(chk, item):
    import pathlib
    import urllib.parse
    kind, s = item

    def run():
        if kind == 'uri':
            v = Uri()(s)
            chk.eq(v, urllib.parse.urlparse(s), 'value')
            chk.eq(Uri().serialize(v), urllib.parse.urlparse(s).geturl(), 'serialized')
            chk.eq(Uri()(Uri().serialize(v)), v, 'round trip')
        else:
            v = Path()(s)
            chk.eq(v, pathlib.Path(s), 'value')
            chk.eq(Path().serialize(v), str(pathlib.Path(s)), 'serialized')
            chk.eq(Path()(v), v, 'again')
        chk.eq(Uri()(None, serialize=True), None, 'unset uri')
        chk.eq(Path()(None, serialize=True), None, 'unset path')
        return item
    chk.case('uri', item, run, transitions=4)


# ------------------------------------------------------------------ literals that are evaluated
EXPRS = [('`1+2', 3), ('{{ 1+2 }}', 3), ('`2*a', 14), ('{{ a }}', 7), ('{{ a + 1 }}', 8), ('`a-7', 0), ('`max(a, 9)', 9)]


def check_expr(chk, item):
    ty, (text, val), raw = item

    def run():
        T = CLS[ty](rawLiterals=True) if raw else CLS[ty]()
        ctx = T._context.create_child({'a': 7})
        if raw:
            if ty == 'string':
                chk.eq(T(text, context=ctx), text, 'raw literal')
        else:
            chk.eq(T(text, context=ctx), evaluate(ty, {}, val), 'evaluated')
        return item
    chk.case('expression', item, run)


def check(chk):
    n = 3 if chk.thorough else 2
    items = []
    numcorpus = INTS + FLOATS + NUMSTR + BADSTR + BOOLS[:4] + DECS
    strcorpus = STRS + NUMSTR[:5] + [''] + INTS[:4] + FLOATS[:3] + [True, False]
    for ty in ('integer', 'number'):
        for sc in schemas([c for c in NUM_CONSTRAINTS if c[0] != 'enum'], n):
            e = len(sc) <= (2 if chk.thorough else 1)
            items += [(ty, sc, v, e) for v in numcorpus]
    for sc in schemas(STR_CONSTRAINTS, n):
        if 'enum' in sc and len(sc) > 1 and not chk.thorough:
            continue
        e = len(sc) <= (2 if chk.thorough else 1) and 'enum' not in sc
        items += [('string', sc, v, e) for v in strcorpus]
    items += [('boolean', sc, v, True) for sc in ({}, {'const': True}, {'not': {'const': True}})
              for v in BOOLS + INTS + BADSTR + FLOATS + NUMSTR]
    for en in ENUMS:
        items += [('enum', {'enum': en}, v, True) for v in
                  INTS + ['a', 'b', 'c', 'd', '1', '0', '2', '3', '', 'true', 'x', 'z', True, False, 1.5, 2.5, '10', '-1', 'A']
                  if not ambiguous(en, v)]
    for ty in ('integer', 'number'):
        items += [(ty, {'enum': [1, 3, 6]}, v, False) for v in [1, 3, 6, 2, '3', '2', -1]]
    # values which are not scalars
    for v in ([1], {'a': 1}, (1, 2), object()):
        for ty in ('integer', 'number', 'boolean'):
            items.append((ty, {}, v, not isinstance(v, (dict, list, tuple))))
    jobs = chunked(chk, items, check_scalar)
    jobs += chunked(chk, [('date', s) for s in date_strings(chk.thorough)] + [('time', s) for s in time_strings(chk.thorough)] +
                    [('datetime', '%s %s' % (d, t)) for d in ('2020-01-02', '2020/02/30', '02.01.2020', '31-12-1999', '2020-02')
                     for t in time_strings(False) if t and ' ' not in t and t != 'x'] +
                    [('datetime', 'x y'), ('datetime', '2020-01-02 x')], check_dt, 8)
    jobs += chunked(chk, [(k, v) for k in ('date', 'time', 'datetime') for v in DT_RAW], check_dt_raw, 1)
    jobs += chunked(chk, FORMATS, check_format, 1)
    jobs += chunked(chk, [(k, how, n) for k in ('date', 'time', 'datetime') for n in NATIVES for how in ('native', 'arrow')
                          if how == 'native' or isinstance(n[0], datetime.datetime)], check_native, 1)
    jobs += chunked(chk, [(ty, d) for ty, ds in (('integer', [None, 0, 1, '5', -2]), ('number', [None, 0, 2.5]),
                                                 ('boolean', [None, True, False]), ('string', [None, '', 'x', 3]),
                                                 ('enum', [None, 0, 1, 3])) for d in ds], check_none, 1)
    jobs += chunked(chk, [('uri', s) for s in URIS] + [('path', s) for s in PATHS], check_uri, 1)
    jobs += chunked(chk, [(ty, e, r) for ty in ('integer', 'number', 'string') for e in EXPRS for r in (False, True)], check_expr, 1)
    chk.bounds = {'constraints_combined': n, 'numeric_constraints': len(NUM_CONSTRAINTS), 'string_constraints': len(STR_CONSTRAINTS),
                  'values_per_numeric_schema': len(numcorpus), 'values_per_string_schema': len(strcorpus), 'enums': len(ENUMS)}
    chk.parallel(jobs)
