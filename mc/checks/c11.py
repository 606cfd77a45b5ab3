# -*- coding: utf-8 -*-
"""C11: a dotted, indexed path reads and writes what the same steps one by one do."""
import copy
import itertools
import re

from mc.core import chunked, explore_sequences, outcome, typed, Mismatch
from mc.real import mk, evaluate, Reject

LEAF = {'type': 'object', 'properties': {'x': {'type': 'integer', 'minimum': 0}, 'y-z': {'type': 'string', 'maxLength': 3}},
        'aliases': {'ax': 'x'}, 'additionalProperties': False}
NODE = {'type': 'object', 'properties': {'x': {'type': 'integer', 'minimum': 0}, 'o': LEAF, 'm': {'type': 'array', 'items': LEAF}},
        'patternProperties': {'^p_': {'type': 'integer', 'minimum': 0}}}
SCHEMA = {
    'type': 'object',
    'properties': {
        'x': {'type': 'integer', 'minimum': 0},
        'o': NODE,
        'u': NODE,
        'l': {'type': 'array', 'items': {'type': 'integer', 'minimum': 0}},
        'n': {'type': 'array', 'items': {'type': 'array', 'items': {'type': 'integer', 'minimum': 0}}},
        'm': {'type': 'array', 'items': NODE},
    },
    'aliases': {'ao': 'o'},
    'additionalProperties': False,
}
DATA = {'x': 1, 'o': {'x': 2, 'o': {'x': 3, 'y-z': 'a'}, 'm': [{'x': 4}, {'x': 5, 'y-z': 'b'}], 'p_1': 6}, 'l': [7, 8, 9],
        'n': [[10, 11], [12]], 'm': [{'x': 13, 'o': {'x': 14}}, {'x': 15, 'm': [{'x': 16}]}]}
# name in a path -> property
ALIAS = {'ao': 'o', 'ax': 'x', 'y_z': 'y-z'}
FIRST = ['x', 'o', 'ao', 'u', 'l', 'n', 'm', 'zz']
STEP = ['x', 'ax', 'o', 'm', 'y_z', 'p_1', 'zz']
INDEX = ['[0]', '[1]', '[2]', '[-1]']


def paths(thorough):
    """all names and indices, up to a length"""
    out = []
    frontier = [f for f in FIRST]
    for n in range(4 if thorough else 3):
        nxt = []
        for p in frontier:
            out.append(p)
            nxt += [p + i for i in INDEX]
            nxt += [p + '.' + s for s in STEP]
        frontier = nxt
    # the longer ones on what exists
    for p in ['o.o', 'ao.o', 'o.m[0]', 'o.m[1]', 'o.m[-1]', 'm[0].o', 'm[1].m[0]', 'm[1].o', 'm[-1].m[-1]', 'u.o', 'm[0].m[0]']:
        out += [p] + [p + '.' + s for s in STEP]
        out += [p + '.' + s + i for s in STEP for i in INDEX[:2]]
    return sorted(set(out))


def split(path):
    res = []
    for i, part in enumerate(path.split('.')):
        if part == '' and i:
            res.append('')       # the parent
            continue
        m = re.match(r'^([^\[]*)((?:\[-?\d+\])*)$', part)
        if m.group(1):
            res.append(m.group(1))
        res += [int(i) for i in re.findall(r'-?\d+', m.group(2))]
    return res


FIELDS = {'root': {'x': 'int', 'o': 'node', 'u': 'node', 'l': 'ints', 'n': 'rows', 'm': 'nodes'},
          'node': {'x': 'int', 'o': 'leaf', 'm': 'leaves'},
          'leaf': {'x': 'int', 'y-z': 'str'}}
ITEMS = {'ints': 'int', 'rows': 'ints', 'nodes': 'node', 'leaves': 'leaf'}
ALIASES = {'root': {'ao': 'o'}, 'node': {}, 'leaf': {'ax': 'x', 'y_z': 'y-z'}}


class NoPath(Exception):
    pass


def fill(kind, v):
    """the data as read: every declared property is there"""
    if v is None:
        return [] if kind in ITEMS else None
    if kind in FIELDS:
        d = {f: fill(k, v.get(f)) for f, k in FIELDS[kind].items()}
        for k in v:
            if k not in d:
                d[k] = v[k]
        return d
    if kind in ITEMS:
        return [fill(ITEMS[kind], i) for i in v]
    return v


def kind_of(kind, step, value):
    if isinstance(step, int):
        return ITEMS.get(kind)
    return FIELDS.get(kind, {}).get(ALIASES.get(kind, {}).get(step, step), 'int' if step.startswith('p_') else None)


def get(root, steps):
    cur, kind = root, 'root'
    owners = [(None, 'root')]
    for s in steps:
        if isinstance(cur, dict) and s != '':
            owners = owners + [(cur, kind)]
        if s == '':
            if not isinstance(cur, dict):
                raise NoPath(s)
            cur, kind = owners[-1]
            owners = owners[:-1] or [(None, 'root')]
            if cur is None:
                return None
            continue
        if isinstance(s, int):
            # (the characters of a string can be read by index)
            if not isinstance(cur, (list, str)) or not -len(cur) <= s < len(cur):
                raise NoPath(s)
            nxt = cur[s]
        else:
            if not isinstance(cur, dict):
                raise NoPath(s)
            name = ALIASES[kind].get(s, s)
            if name not in cur:
                if kind == 'node':
                    return None          # additional properties are allowed there: not set
                raise NoPath(s)
            nxt = cur[name]
        kind = kind_of(kind, s, nxt)
        cur = nxt
        if cur is None:
            return None
    return cur


def put(root, steps, value):
    """None: silently ignored (an element of the path is unset)"""
    cur, kind = root, 'root'
    for s in steps[:-1]:
        k2 = kind_of(kind, s, None)
        cur = _step(cur, kind, s)
        kind = k2
        if cur is None:
            return
    last = steps[-1]
    if isinstance(last, int):
        if not isinstance(cur, list) or not -len(cur) <= last < len(cur):
            raise NoPath(last)
        k = ITEMS[kind]
    else:
        if not isinstance(cur, dict):
            raise NoPath(last)
        last = ALIASES[kind].get(last, last)
        k = kind_of(kind, last, None)
        if k is None:
            if kind != 'node':
                raise NoPath(last)
            cur[last] = value
            return
    if value is None:
        cur[last] = fill(k, None)
    elif k == 'int':
        cur[last] = evaluate('integer', {'minimum': 0}, value)
    elif k == 'str':
        cur[last] = evaluate('string', {'maxLength': 3}, value)
    else:
        raise Reject(value)


def _step(cur, kind, s):
    if isinstance(s, int):
        if not isinstance(cur, list) or not -len(cur) <= s < len(cur):
            raise NoPath(s)
        return cur[s]
    if not isinstance(cur, dict):
        raise NoPath(s)
    name = ALIASES[kind].get(s, s)
    if name not in cur:
        if kind == 'node':
            return None
        raise NoPath(s)
    return cur[name]


_cls = {}


def cls(lazy):
    if lazy not in _cls:
        _cls[lazy] = mk(dict(copy.deepcopy(SCHEMA), lazyLoading=lazy))
    return _cls[lazy]


def plain(v):
    return typed(v)


PARENTS = ['o..x', 'o..', 'ao..o.x', 'o.o..x', 'o.o...x', 'm[0]..x', 'm[1]..o.x', 'm[1].m[0]..x', 'm[1].m[0]...x', 'm[0].o..x', 'm[0].o...l[0]', 'o.m[1]..o.x',
           'o.m[1]..m[0].ax', 'm[0]..m[1].x', 'm[-1].m[-1]..m[0].x', 'o.o..zz', 'o.o...zz', 'o....x', 'u..x', 'o..u', 'o.o..p_1', 'o.o..o..x', 'l[0]..x']


def check_read(c, item):
    path, lazy = item

    def run():
        steps = split(path)
        model = fill('root', DATA)
        for form in (path, '.' + path):
            if form == path and len(steps) == 1 and '.' not in path:
                pass
            o = cls(lazy)(copy.deepcopy(DATA))
            want = outcome(get, model, steps)
            got = outcome(lambda: o[form])
            if want[0] == 'err':
                if got[0] == 'ok':
                    raise Mismatch('%s: %r, expected to be unknown' % (form, got[1]))
                if not isinstance(got[1], KeyError):
                    raise Mismatch('%s: %r instead of a KeyError' % (form, got[1]))
                c.eq(o.get(form, 'dft'), 'dft', 'get')
            else:
                if got[0] == 'err':
                    raise Mismatch('%s: %r, expected %r' % (form, got[1], want[1]))
                c.eq(got[1], want[1], form)
                c.eq(o.get(form, 'dft'), 'dft' if want[1] is None else want[1], 'get')
        return want[0], typed(want[1]) if want[0] == 'ok' else None
    c.case('read', (path, lazy), run, transitions=4)


OPS = [('o.x', '20'), ('o.x', -1), ('ao.o.x', '21'), ('o.o.ax', 22), ('o.o.y_z', 'long'), ('o.o.y_z', 'w'), ('o.m[1].x', '23'), ('o.m[0].ax', 'q'),
       ('o.m[-1].x', 24), ('o.m[5].x', 1), ('l[1]', '25'), ('l[-1]', 26), ('l[7]', 1), ('l[0]', -3), ('n[0][1]', '27'), ('n[1][0]', 28), ('n[1][1]', 1),
       ('n[0][0]', 'z'), ('m[0].o.x', 29), ('m[1].m[0].x', '30'), ('m[1].o.x', 31), ('u.x', 32), ('u.o.x', 33), ('m[0].p_1', '34'), ('o.p_1', -5),
       ('o.o.zz', 1), ('o.zz', 5), ('m[0].x', None), ('.o.x', 35), ('.x', '36')]
SMALL = [OPS[i] for i in (0, 1, 3, 6, 8, 10, 14, 18, 19, 23)]


def run_writes(c, lazy, seq):
    o = cls(lazy)(copy.deepcopy(DATA))
    model = fill('root', copy.deepcopy(DATA))
    for path, v in seq:
        steps = split(path.lstrip('.'))
        if lazy and outcome(put, copy.deepcopy(model), steps, v)[0] == 'err' and isinstance(outcome(put, copy.deepcopy(model), steps, v)[1], Reject):
            continue     # rejected when it is read
        want = outcome(put, model, steps, v)
        got = outcome(o.__setitem__, path, v)
        if got[0] != want[0]:
            raise Mismatch('set %s to %r: %r, expected %r' % (path, v, got, want))
        if got[0] == 'err' and not isinstance(got[1], (KeyError, ValueError)):
            raise Mismatch('set %s to %r: %r' % (path, v, got))
    for path in ('x', 'l', 'n', 'm', 'u', 'o.x', 'o.o', 'o.m', 'o.p_1', 'm[0]', 'm[1].m[0]', 'o'):
        c.eq(o[path], get(model, split(path)), path)
    return typed(o)


def check(chk):
    ps = paths(chk.thorough)
    jobs = chunked(chk, [(p, lazy) for p in ps + PARENTS for lazy in (False, True)], check_read)
    d = 3 if chk.thorough else 2
    for lazy in (False, True):
        jobs += explore_sequences(chk, 'write-%s' % ('lazy' if lazy else 'eager'), OPS, 2, lambda s, lazy=lazy: run_writes(chk, lazy, s))
        jobs += explore_sequences(chk, 'write3-%s' % ('lazy' if lazy else 'eager'), SMALL, d, lambda s, lazy=lazy: run_writes(chk, lazy, s), min_depth=3)
    chk.bounds = {'paths': len(ps), 'writes': len(OPS), 'depth': 2, 'small_writes': len(SMALL), 'small_depth': d}
    chk.parallel(jobs)
