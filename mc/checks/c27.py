# -*- coding: utf-8 -*-
"""C27: validating data against a type reports exactly the rules of its schema the data breaks."""
import copy
import itertools
import re

from mc.core import chunked, outcome
from mc.real import mk
from ngoschema.exceptions import InvalidValue
from ngoschema.managers.type_builder import type_builder
from ngoschema.types import Integer, String

_count = itertools.count()


# ------------------------------------------------------------------ the rules
def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def unique(v):
    return all(x != y for i, x in enumerate(v) for y in v[:i])


NUM = {'minimum': lambda v, p: v >= p, 'maximum': lambda v, p: v <= p, 'exclusiveMinimum': lambda v, p: v > p, 'exclusiveMaximum': lambda v, p: v < p,
       'multipleOf': lambda v, p: v % p == 0}
STR = {'minLength': lambda v, p: len(v) >= p, 'maxLength': lambda v, p: len(v) <= p, 'pattern': lambda v, p: re.search(p, v) is not None}
OBJ = {'minProperties': lambda v, p: len(v) >= p, 'maxProperties': lambda v, p: len(v) <= p, 'required': lambda v, p: all(k in v for k in p)}
ARR = {'minItems': lambda v, p: len(v) >= p, 'maxItems': lambda v, p: len(v) <= p, 'uniqueItems': lambda v, p: not p or unique(v),
       'contains': lambda v, p: any(not broken(p, x) for x in v)}
ANY = {'enum': lambda v, p: v in p, 'const': lambda v, p: v == p, 'anyOf': lambda v, p: any(not broken(s, v) for s in p),
       'oneOf': lambda v, p: sum(not broken(s, v) for s in p) == 1, 'not': lambda v, p: bool(broken(p, v))}


def below(path, sch, v):
    return set('/'.join([path, e]) for e in broken(sch, v))


def broken(sch, v):
    """the paths of the rules v breaks"""
    if sch is True:
        return set()
    if sch is False:
        return {''}
    res = set()
    for k, p in sch.items():
        for kind, rules in ((is_num, NUM), (lambda x: isinstance(x, str), STR), (lambda x: isinstance(x, dict), OBJ), (lambda x: isinstance(x, list), ARR), (lambda x: True, ANY)):
            if k in rules and kind(v) and not rules[k](v, p):
                res.add(k)
        if k == 'allOf':
            for i, s in enumerate(p):
                res |= below('allOf/%d' % i, s, v)
        if k == 'if':
            branch = 'else' if broken(p, v) else 'then'
            if branch in sch:
                res |= below('if/%s' % branch, sch[branch], v)
        if isinstance(v, dict):
            if k == 'properties':
                for n, s in p.items():
                    if n in v:
                        res |= below('properties/%s' % n, s, v[n])
            if k == 'patternProperties':
                for n, s in p.items():
                    for key in v:
                        if re.search(n, key):
                            res |= below('patternProperties/%s' % n, s, v[key])
            if k == 'propertyNames':
                for key in v:
                    res |= below('propertyNames', p, key)
            if k == 'additionalProperties':
                more = [key for key in v if key not in sch.get('properties', {}) and not any(re.search(n, key) for n in sch.get('patternProperties', {}))]
                if p is False and more:
                    res.add(k)
                elif isinstance(p, dict):
                    for key in more:
                        res |= below(k, p, v[key])
            if k == 'dependencies':
                for n, need in p.items():
                    if n in v and (any(x not in v for x in need) if isinstance(need, list) else False):
                        res.add(k)
                    elif n in v and isinstance(need, dict):
                        res |= below('dependencies/%s' % n, need, v)
        if isinstance(v, list) and k == 'additionalItems' and isinstance(sch.get('items'), list):
            if p is False and len(v) > len(sch['items']):
                res.add(k)
            elif isinstance(p, dict):
                for x in v[len(sch['items']):]:
                    res |= below(k, p, x)
        if isinstance(v, list) and k == 'items':
            if isinstance(p, dict):
                for x in v:
                    res |= below('items', p, x)
            else:
                for i, (s, x) in enumerate(zip(p, v)):
                    res |= below('items/%d' % i, s, x)
    return res


def reported(fn):
    """None | the paths of the error"""
    kind, res = outcome(fn)
    if kind == 'ok':
        return None, res
    if not isinstance(res, InvalidValue):
        return 'not an InvalidValue: %r' % res, None
    return sorted(set(re.findall(r'^\t(\S+): ', str(res), re.M))), None


# ------------------------------------------------------------------ pools of rules
def combined(atoms, pool):
    """combinators of atoms, and of combinators"""
    a, b, c = atoms
    yield 'allOf', [a, b]
    yield 'anyOf', [a, b]
    yield 'anyOf', [b, {'not': c}]
    yield 'oneOf', [a, b]
    yield 'oneOf', [c, {'allOf': [a, {'not': b}]}, b]
    yield 'not', a
    yield 'not', {'anyOf': [a, c]}
    yield 'allOf', [{'anyOf': [a, b]}, c, {'if': a, 'then': b, 'else': c}]
    yield 'if', (a, b, None)
    yield 'if', (b, None, c)
    yield 'if', ({'allOf': [a, b]}, {'not': c}, a)


def as_schema(rules):
    sch = {}
    for k, p in rules:
        if k == 'if':
            sch['if'] = p[0]
            if p[1] is not None:
                sch['then'] = p[1]
            if p[2] is not None:
                sch['else'] = p[2]
        else:
            sch[k] = p
    return sch


INT_ATOMS = [('minimum', 2), ('maximum', 4), ('exclusiveMinimum', 2), ('exclusiveMaximum', 4), ('multipleOf', 2), ('multipleOf', 3), ('enum', [1, 2, 6]), ('const', 2)]
INT_RULES = INT_ATOMS + list(combined([{'minimum': 2}, {'maximum': 4}, {'multipleOf': 2}], 0)) + list(combined([{'enum': [1, 2]}, {'exclusiveMinimum': 1, 'maximum': 5}, {'const': 2}], 0))
INT_VALUES = list(range(-1, 8))
STR_ATOMS = [('minLength', 2), ('maxLength', 2), ('pattern', 'b'), ('pattern', '^a+$'), ('enum', ['a', 'bb']), ('const', 'ab')]
STR_RULES = STR_ATOMS + list(combined([{'minLength': 2}, {'pattern': '^a'}, {'maxLength': 2}], 0)) + list(combined([{'enum': ['ab', 'b']}, {'const': 'b'}, {'pattern': 'b$', 'minLength': 1}], 0))
STR_VALUES = [''.join(x) for n in range(4) for x in itertools.product('ab', repeat=n)]
OBJ_RULES = [('minProperties', 1), ('minProperties', 2), ('maxProperties', 1), ('maxProperties', 2), ('propertyNames', {'pattern': '^[ap]'}), ('propertyNames', {'maxLength': 1, 'enum': ['a', 'b', 'z']}),
             ('patternProperties', {'^p': {'maximum': 3}}), ('patternProperties', {'p': {'minimum': 2}, 'q': {'maximum': 3}}), ('const', {'a': 1}), ('enum', [{}, {'a': 1}, {'b': 5, 'a': 1}]),
             ('required', ['b']), ('additionalProperties', False)]
OBJ_RULES += list(combined([{'required': ['a']}, {'required': ['b']}, {'minProperties': 2}], 0))
OBJ_RULES += list(combined([{'properties': {'a': {'maximum': 3}, 'b': {'minimum': 3}}}, {'additionalProperties': False, 'properties': {'a': {}}, 'patternProperties': {'^p': {'const': 1}}},
                            {'propertyNames': {'minLength': 2}}], 0))
OBJ_RULES += [('anyOf', [{'additionalProperties': {'maximum': 3}, 'properties': {'b': {}}}, {'required': ['a', 'b', 'z']}])]
OBJ_RULES += list(combined([{'dependencies': {'a': ['b'], 'z': ['pq']}}, {'dependencies': {'b': {'maxProperties': 1}}}, {'required': ['b']}], 0))[:7]
OBJ_VALUES = [{k: v for k, v in zip(('a', 'b', 'pq', 'z'), vs) if v} for vs in itertools.product((0, 1, 5), repeat=4)] + [
    {k: v for k, v in zip(('a', 'b', 'z'), vs) if v is not None} for vs in itertools.product((None, 0, 5), repeat=3) if 0 in vs]
ARR_RULES = [('uniqueItems', True), ('contains', {'maximum': 1}), ('contains', {'enum': [2, 5]}), ('const', [1]), ('enum', [[], [1, 2], [5]])]
ARR_RULES += list(combined([{'minItems': 2}, {'contains': {'const': 1}}, {'maxItems': 2}], 0))
ARR_RULES += list(combined([{'items': {'maximum': 3}}, {'uniqueItems': True, 'minItems': 1}, {'items': [{'const': 1}, {'minimum': 2}]}], 0))
ARR_RULES += list(combined([{'items': [{'maximum': 3}], 'additionalItems': False}, {'items': [{}, {'const': 1}], 'additionalItems': {'minimum': 2}}, {'contains': {'const': 5}}], 0))
ARR_VALUES = [list(x) for n in range(4) for x in itertools.product((1, 2, 5), repeat=n)]
KINDS = {'integer': (INT_RULES, INT_VALUES), 'string': (STR_RULES, STR_VALUES), 'object': (OBJ_RULES, OBJ_VALUES), 'array': (ARR_RULES, ARR_VALUES)}


def schemas(kind, n):
    for k in range(n + 1):
        for rules in itertools.combinations(KINDS[kind][0], k):
            if len(set(r[0] for r in rules)) == len(rules):
                yield rules


def typed(kind, sch, how):
    sch = dict(sch, type=kind)
    if kind == 'object':
        sch['properties'] = {'a': {'type': 'integer'}}
    if kind in ('object', 'array'):
        return mk(sch)
    if how == 'instance':
        return {'integer': Integer, 'string': String}[kind](**{k: v for k, v in sch.items() if k != 'type'})
    return type_builder.build('https://c27.org/t%d' % next(_count), sch)


def expected(kind, sch, v):
    """None | what is reported"""
    own = dict(sch)
    if kind == 'object':
        closed, needed = own.pop('additionalProperties', True) is False, own.pop('required', [])
        pats = own.get('patternProperties', {})
        if closed and any(k != 'a' and not any(re.search(p, k) for p in pats) for k in v):
            return []
        if any(k not in v for k in needed):
            return []
    res = broken(own, v)
    if kind == 'array' and res == {'uniqueItems'}:
        return []        # reported by itself
    return sorted(res - ({'uniqueItems'} if kind == 'array' else set())) or None


def rules_of(c, item):
    kind, rules = item
    sch = as_schema(copy.deepcopy(rules))
    given = copy.deepcopy(sch)
    values = KINDS[kind][1]

    def run():
        t = typed(kind, sch, 'class')
        n = 0
        for v in values:
            before = copy.deepcopy(v)
            want = expected(kind, given, v)
            got, res = reported(lambda: t.validate(v))
            c.eq(got, want, '%r validated with %s' % (v, given))
            c.eq(v, before, 'data validated')
            if want is None:
                c.true(res is v or res == v, 'returned %r' % (res,))
            if kind != 'array':
                c.eq(t.check(v, validate=True), want is None, '%r checked with %s' % (v, given))
            n += 2
            if kind in ('integer', 'string') and 'enum' not in given:     # a value of an enum is converted: see C01
                c.eq(reported(lambda: t.evaluate(v))[0], want, '%r evaluated with %s' % (v, given))
                n += 1
            for k in given:
                if k in ('then', 'else', 'required', 'additionalProperties', 'uniqueItems'):
                    continue
                if k == 'patternProperties' and 'additionalProperties' in given:
                    continue        # which properties are additional stays the same
                less = {x: p for x, p in given.items() if x != k and not (k == 'if' and x in ('then', 'else'))}
                c.eq(reported(lambda: t.validate(v, excludes=[k]))[0], expected(kind, less, v), '%r validated with %s but %s' % (v, given, k))
                n += 1
        c.eq(sch, given, 'the schema given')
        # the reports are the same once more, and those of a type given as an instance
        for v in values[:4]:
            c.eq(reported(lambda: t.validate(v))[0], expected(kind, given, v), '%r validated again with %s' % (v, given))
        if kind in ('integer', 'string') and 'enum' not in given:
            t = typed(kind, sch, 'instance')
            for v in values:
                c.eq(reported(lambda: t(v))[0], expected(kind, given, v), '%r given to an instance with %s' % (v, given))
                n += 1
        return n
    c.case('%s' % kind, (kind, rules), run, transitions=len(values) * 3)


WRONG = {'integer': ['x', '1', 1.5, None, [], {}], 'string': [1, None, [], {}], 'object': [1, 'x', None, [1]], 'array': [1, None, {'a': 1}]}


def types_of(c, kind):
    def run():
        t = typed(kind, {}, 'class')
        for v in WRONG[kind]:
            c.eq(t.check(v), False, '%r checked as %s' % (v, kind))
            c.eq(t.check(v, validate=True), False, '%r checked as %s' % (v, kind))
    c.case('types', kind, run, transitions=len(WRONG[kind]) * 2)


def inherited(c, item):
    kind, one, two = item
    a, b = as_schema([one]), as_schema([two])

    def run():
        base = mk(dict(copy.deepcopy(a), type='object', properties={'a': {'type': 'integer'}}))
        both = dict(a, **b)
        for cls in (mk(dict(copy.deepcopy(b), type='object'), (base,)), mk(dict(copy.deepcopy(b), type='object', extends=[base._id]), (base,))):
            for v in KINDS[kind][1]:
                c.eq(reported(lambda: cls.validate(v))[0], expected(kind, both, v), '%r validated with %s over %s' % (v, b, a))
                c.eq(reported(lambda: base.validate(v))[0], expected(kind, a, v), '%r validated with %s' % (v, a))
    c.case('inherited', item, run, transitions=len(KINDS[kind][1]) * 4)


def over_class(c, item):
    kind, one, two = item
    a, b = as_schema([one]), as_schema([two])

    def run():
        parent = {'integer': Integer, 'string': String}[kind]
        base = type('Ruled%d' % next(_count), (parent,), {'_schema': dict(copy.deepcopy(a), type=kind)})
        t = base(**copy.deepcopy(b))
        for v in KINDS[kind][1]:
            c.eq(reported(lambda: t(v))[0], expected(kind, dict(a, **b), v), '%r given to an instance with %s of a type with %s' % (v, b, a))
            c.eq(reported(lambda: base.validate(v))[0], expected(kind, a, v), '%r validated with %s' % (v, a))
    c.case('rules over those of the class', item, run, transitions=len(KINDS[kind][1]) * 2)


def check(chk):
    th = chk.thorough
    n = 3 if th else 2
    jobs = []
    for kind in KINDS:
        jobs += chunked(chk, [(kind, r) for r in schemas(kind, n)], rules_of, 16)
    jobs += chunked(chk, list(KINDS), types_of, 1)
    pairs = [('object', x, y) for x in OBJ_RULES for y in OBJ_RULES if x[0] != y[0] and x[0] != 'additionalProperties' and 'if' not in (x[0], y[0])]
    jobs += chunked(chk, pairs, inherited, 8)
    scalars = [(kind, x, y) for kind in ('integer', 'string') for x in KINDS[kind][0] for y in KINDS[kind][0] if 'if' not in (x[0], y[0]) and 'enum' not in (x[0], y[0])]
    jobs += chunked(chk, scalars, over_class, 8)
    chk.bounds = 'every combination of up to %d of %s rules, with all %s values, and all pairs of rules of an object and of its base, of a type and of its class' % (
        n, {k: len(v[0]) for k, v in KINDS.items()}, {k: len(v[1]) for k, v in KINDS.items()})
    chk.parallel(jobs)
