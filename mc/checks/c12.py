"""C12: objects and arrays compare, hash and copy as the records and lists they hold."""
import copy
import itertools

from mc.core import chunked, explore_sequences, outcome, Mismatch
from mc.real import mk, forget_namespaces

from ngoschema.models.instances import Instance
from ngoschema.protocols import SchemaMetaclass

INT = {'type': 'integer'}
SUB = {'type': 'object', 'properties': {'x': INT, 'y': {'type': 'string', 'default': 'dy'}}}
PROPS = {'i': INT, 's': {'type': 'string', 'default': 'd'}, 'f': {'type': 'number'}, 'o': SUB, 't': {'type': 'string', 'default': '{{ i }}/{{ s }}'}}
ARRAYS = {'l': {'type': 'array', 'items': INT}, 'm': {'type': 'array', 'items': SUB}}
SCHEMAS = {'flat': {'type': 'object', 'properties': PROPS}, 'full': {'type': 'object', 'properties': dict(PROPS, **ARRAYS)}}

CONTENTS = [
    {}, {'i': 1}, {'i': 2}, {'i': 0}, {'s': 'd'}, {'s': 'e'}, {'s': ''}, {'i': 1, 's': 'e'}, {'f': 1.5}, {'f': 2}, {'o': {}}, {'o': {'x': 1}}, {'o': {'x': 2}},
    {'o': {'x': 1, 'y': 'dy'}}, {'o': {'x': 1, 'y': 'z'}}, {'o': {'x': 1, 'w': 3}}, {'zz': 1}, {'zz': 'a'}, {'zy': 1}, {'zz': 1, 'zy': 2}, {'zy': 2, 'zz': 1},
    {'t': 'k'}, {'t': 'None/d'},
]
ARRAY_CONTENTS = [{'l': []}, {'l': [1]}, {'l': [1, 2]}, {'l': [2, 1]}, {'l': [1, 2, 1]}, {'i': 1, 'l': [0]}, {'m': []}, {'m': [{}]}, {'m': [{'x': 1}]}, {'m': [{'x': 1}, {'x': 1}]},
                  {'m': [{'x': 1, 'y': 'dy'}]}, {'m': [{'x': 1}, {'x': 2}]}]


def sub(v):
    return dict({'x': None, 'y': 'dy'}, **v)


def record(kind, content):
    r = dict({'i': None, 's': 'd', 'f': None, 'o': None}, **({'l': [], 'm': []} if kind == 'full' else {}))
    r.update(copy.deepcopy(content))
    if r['o'] is not None:
        r['o'] = sub(r['o'])
    if 'm' in r:
        r['m'] = [sub(x) for x in r['m']]
    r.setdefault('t', '%s/%s' % (r['i'], r['s']))
    return r


def textual(v, name=''):
    """the same content, given as texts"""
    if isinstance(v, dict):
        return {k: textual(x, k) for k, x in v.items()}
    if isinstance(v, list):
        return [textual(x, name) for x in v]
    return v if name.startswith('z') or name == 'w' else str(v)


MODES = ['mapping', 'keywords', 'lazy', 'texts', 'lazy texts', 'sets', 'subclass', 'history']
_built = {}


def classes(kind):
    if kind not in _built:
        k = mk(SCHEMAS[kind])
        _built[kind] = k, mk({'type': 'object'}, (k, ))
    return _built[kind]


def build(kind, content, mode):
    k, d = classes(kind)
    c = copy.deepcopy(content)
    if mode == 'mapping':
        return k(c)
    if mode == 'keywords':
        return k(**c)
    if mode == 'lazy':
        return k(c, lazyLoading=True)
    if mode == 'texts':
        return k(textual(c))
    if mode == 'lazy texts':
        return k(textual(c), lazyLoading=True)
    if mode == 'subclass':
        return d(c)
    o = k()
    if mode == 'history':
        # other values first, some read
        o.i, o.s = 7, 'q'
        o.t
        o['zz'] = 5
        o.i, o.s = None, 'd'
        if kind == 'full':
            o.l.append(3)
            o.l.pop()
        del o['zz']
    for n, v in c.items():
        o[n] = v
    return o


def read(o):
    for k in list(o):
        o[k]


def eq_case(chk, kind, a, b, reading):
    (ca, ma), (cb, mb) = a, b

    def run():
        x, y = build(kind, ca, ma), build(kind, cb, mb)
        want = record(kind, ca) == record(kind, cb)
        if reading == 'left':
            read(x)
        elif reading == 'right':
            y.get('i'), y.get('o'), y.get('t')
        chk.eq(x == y, want, '==')
        chk.eq(y == x, want, '== the other way')
        chk.eq(x != y, not want, '!=')
        chk.true(x == x and not x != x, 'equal to itself')
        if want:
            chk.eq(hash(x), hash(y), 'hash of equal objects')
        chk.eq(len({x, y}), 1 if want else 2, 'set of both')
        chk.eq([x].index(y) if want else x in [y], 0 if want else False, 'search')
        for other in (None, 'x', 1, [], {}, ()):
            chk.true(not x == other and x != other, 'not equal to %r' % (other, ))
        if kind == 'flat':
            p, q = record(kind, ca), record(kind, cb)
            chk.eq(x == p, True, '== the mapping')
            chk.eq(p == x, True, 'the mapping ==')
            chk.eq(x == q, want, '== the other mapping')
            chk.eq(q == x, want, 'the other mapping ==')
            chk.eq(x != q, not want, '!= the other mapping')
        return want, repr(sorted(record(kind, ca).items(), key=repr))
    chk.case('equal/%s' % kind, (ca, ma, cb, mb, reading), run, transitions=12)


# ------------------------------------------------------------------ histories of two objects, and of copies
OPS = [('set', 'i', 1), ('set', 'i', '2'), ('set', 's', 'e'), ('set', 's', None), ('set', 'zz', 1), ('del', 'zz', None), ('o.x', 1, None), ('o.x', 2, None), ('set', 'o', {'x': 1}),
       ('append', 1, None), ('pop', None, None), ('set', 'l', ['1']), ('m.x', 1, None), ('set', 'm', [{}]), ('bad', 'i', 'x'), ('read', None, None)]
SHALLOW = ('set', 'del', 'bad', 'read')


def apply(o, m, op):
    """the operation on the real object and on the record"""
    k, a, b = op
    if k == 'set':
        o[a] = copy.deepcopy(b)
        m[a] = {'i': lambda: int(b), 's': lambda: 'd' if b is None else b, 'zz': lambda: b, 'o': lambda: sub(b), 'l': lambda: [int(x) for x in b],
                'm': lambda: [sub(x) for x in b]}[a]()
    elif k == 'del':
        r = outcome(o.__delitem__, a)
        if (r[0] == 'ok') != (a in m):
            raise Mismatch('del %r: %r' % (a, r))
        m.pop(a, None)
    elif k == 'o.x':
        if m['o'] is not None:
            o.o.x = a
            m['o']['x'] = a
    elif k == 'append':
        o.l.append(a)
        m['l'].append(a)
    elif k == 'pop':
        if m['l']:
            o.l.pop()
            m['l'].pop()
    elif k == 'm.x':
        if m['m']:
            o.m[0].x = a
            m['m'][0]['x'] = a
    elif k == 'bad':
        if outcome(o.__setitem__, a, b)[0] == 'ok':
            # by a lazy object, until it is read
            if outcome(o.__getitem__, a)[0] == 'ok':
                raise Mismatch('accepted')
            o[a] = m[a]
    else:
        read(o)
    m['t'] = '%s/%s' % (m['i'], m['s'])


def content(chk, o, m, what):
    chk.eq(sorted(o), sorted(m), 'keys of %s' % what)
    for k, v in m.items():
        chk.eq(o[k], v, '%r of %s' % (k, what))


def pair_run(chk, modes, seq):
    start = {'i': 1, 'o': {'x': 1}, 'l': [1], 'm': [{'x': 2}]}
    os = [build('full', start, m) for m in modes]
    ms = [record('full', start) for m in modes]
    for who, op in seq:
        apply(os[who], ms[who], op)
    want = ms[0] == ms[1]
    chk.eq(os[0] == os[1], want, '==')
    chk.eq(os[1] != os[0], not want, '!=')
    if want:
        chk.eq(hash(os[0]), hash(os[1]), 'hash')
    chk.eq(os[0].l == os[1].l, ms[0]['l'] == ms[1]['l'], 'arrays ==')
    chk.eq(os[0].m == os[1].m, ms[0]['m'] == ms[1]['m'], 'arrays of objects ==')
    for o, m in zip(os, ms):
        content(chk, o, m, 'an object')
    return want, repr(ms)


HOW = {'copy()': lambda o: o.copy(), 'copy.copy': copy.copy, 'copy.deepcopy': copy.deepcopy}


def copy_run(chk, how, mode, seq):
    start = {'i': 1, 'o': {'x': 1}, 'l': [1], 'm': [{'x': 2}], 'zz': 3}
    o, m = build('full', start, mode), record('full', start)
    os, ms = [o], [m]
    for who, op in seq:
        if op == 'copy':
            c = HOW[how](os[-1])
            chk.true(type(c) is type(os[-1]) and c is not os[-1], 'a copy is another object of the class')
            os.append(c)
            ms.append(copy.deepcopy(ms[-1]))
        else:
            i = min(who, len(os) - 1)
            apply(os[i], ms[i], op)
    for i, (o, m) in enumerate(zip(os, ms)):
        content(chk, o, m, 'object %d' % i)
    for i, j in itertools.combinations(range(len(os)), 2):
        chk.eq(os[i] == os[j], ms[i] == ms[j], 'objects %d and %d ==' % (i, j))
    return repr(ms)


def array_run(chk, how, lazy, seq):
    k, _ = classes('full')
    o = k({'l': ['1', 2]}, lazyLoading=lazy)
    a, m = o.l, [1, 2]
    arrays, lists = [a], [m]
    for who, op in seq:
        if op == 'copy':
            c = HOW[how](arrays[-1])
            chk.true(type(c) is type(a) and c is not a, 'a copy is another array of the class')
            arrays.append(c)
            lists.append(list(lists[-1]))
            continue
        i = min(who, len(arrays) - 1)
        x, l = arrays[i], lists[i]
        if op == 'append':
            x.append('3')
            l.append(3)
        elif op == 'set' and l:
            x[0] = 9
            l[0] = 9
        elif op == 'del' and l:
            del x[0]
            del l[0]
        elif op == 'read':
            list(x)
        elif op == 'bad':
            chk.true(outcome(x.append, 'z')[0] == 'err' or lazy, 'accepted')
            if lazy and len(x) != len(l):
                x.pop()
    for i, (x, l) in enumerate(zip(arrays, lists)):
        chk.eq(list(x), l, 'array %d' % i)
    for i, j in itertools.product(range(len(arrays)), repeat=2):
        chk.eq(arrays[i] == arrays[j], lists[i] == lists[j], 'arrays %d and %d ==' % (i, j))
        chk.eq(arrays[i] != arrays[j], lists[i] != lists[j], 'arrays %d and %d !=' % (i, j))
        if lists[i] == lists[j]:
            chk.eq(hash(arrays[i]), hash(arrays[j]), 'hash of arrays')
    chk.eq(list(o.l), lists[0], 'the property')
    return repr(lists)


# ------------------------------------------------------------------ trees of instances
LEAVES = [{'name': 'x', 'v': 1}, {'name': 'x', 'v': 2}, {'name': 'y', 'v': 1}, {'name': 'x'}]
TREES = [{'name': 'p'}, {'name': 'q'}] + [{'name': n, 'c': c} for n in 'pq' for c in LEAVES] + [{'name': 'p', 'cs': cs} for r in range(3) for cs in map(list, itertools.product(LEAVES[:3], repeat=r))] \
    + [{'name': 'p', 'c': c, 'cs': [d]} for c in LEAVES[:3] for d in LEAVES[:3]]
TREE_MODES = ['mapping', 'lazy', 'sets', 'additions', 'deep copy', 'history']
_trees = {}


def tree_classes():
    if not _trees:
        uri = 'https://c12.org/d'
        _trees['L'] = SchemaMetaclass('L', (Instance,), {'_schema': {'type': 'object', 'properties': {'v': INT}}, '_id': uri + '#/$defs/L'})
        ref = {'$ref': uri + '#/$defs/L'}
        _trees['P'] = SchemaMetaclass('P', (Instance,), {'_schema': {'type': 'object', 'properties': {'c': ref, 'cs': {'type': 'array', 'items': ref}}}, '_id': uri + '#/$defs/P'})
    return _trees


def tree(content, mode):
    k = tree_classes()
    c = copy.deepcopy(content)
    if mode in ('mapping', 'deep copy'):
        t = k['P'](c)
        return copy.deepcopy(t) if mode == 'deep copy' else t
    if mode == 'lazy':
        return k['P'](c, lazyLoading=True)
    if mode == 'sets':
        t = k['P']()
        for x, v in c.items():
            t[x] = v
        return t
    if mode == 'additions':
        t = k['P']({'name': c['name']})
        if 'c' in c:
            t.c = dict(c['c'])
        for x in c.get('cs', ()):
            t.cs.append(dict(x))
        return t
    t = k['P'](dict({'name': 'zz', 'cs': [{'name': 'k'}]}, **({'c': {'name': 'k', 'v': 7}} if 'c' in c else {})))
    t.canonicalName, t.cs[0].canonicalName
    if 'c' in c:
        t.c.canonicalName
    if 'c' in c:
        t.c = c['c']
    t.cs = c.get('cs', [])
    t.name = c['name']
    return t


def tree_case(chk, a, am, b, bm):
    x, y = tree(a, am), tree(b, bm)
    whole = dict({'c': None, 'cs': []}, **a) == dict({'c': None, 'cs': []}, **b)
    for _ in range(2):
        chk.eq((x == y, y == x, x != y), (whole, whole, not whole), 'equality')
    chk.eq((x == x, y == y), (True, True), 'equality with itself')
    named = a['name'] == b['name']
    if 'c' in a and 'c' in b:
        same = named and a['c'] == b['c']
        chk.eq((x.c == y.c, y.c == x.c, x.c != y.c), (same, same, not same), 'children')
        if same:
            chk.eq(hash(x.c), hash(y.c), 'hash of equal children')
    la, lb = a.get('cs', []), b.get('cs', [])
    for i, v in enumerate(la):
        present = named and v in lb
        chk.eq(x.cs[i] in y.cs, present, 'in the array')
        if present:
            chk.eq(y.cs.index(x.cs[i]), lb.index(v), 'index in the array')
        chk.eq(y.cs.count(x.cs[i]), lb.count(v) if named else 0, 'count in the array')
    chk.eq(x.cs == y.cs, la == lb and (named or not la), 'arrays')
    for t, c in ((x, a), (y, b)):
        d = copy.deepcopy(t)
        chk.eq((d == t, t == d), (True, True), 'deep copy')
        d.name = 'w'
        chk.eq((d == t, t == d), (False, False), 'changed copy')
        if 'c' in c:
            chk.eq(t.c == d.c, False, 'child of the changed copy')
            d = copy.deepcopy(t)
            d.c.v = 99
            chk.eq((d == t, t == d, t.c == d.c), (False, False, False), 'changed child')
    return repr((whole, am, bm))


def check(chk):
    tree_classes()
    pair_depth = 3 if chk.thorough else 2
    jobs = []
    modes = MODES
    for kind in ('flat', 'full'):
        contents = CONTENTS + (ARRAY_CONTENTS if kind == 'full' else [])
        left = [(c, m) for c in contents for m in (modes if chk.thorough else ['mapping', 'lazy texts'])]
        right = [(c, m) for c in contents for m in (modes if chk.thorough or kind == 'flat' else ['keywords', 'lazy', 'subclass', 'history'])]
        pairs = [(kind, a, b, r) for a in left for b in right for r in (('none', 'left', 'right') if chk.thorough else ('none', ) if kind == 'full' else ('none', 'left'))]
        jobs += chunked(chk, pairs, lambda c, p: eq_case(c, *p), 16)
    trees = [(a, m, b, n) for a in TREES for m in (TREE_MODES if chk.thorough else ['mapping', 'history']) for b in TREES for n in (TREE_MODES if chk.thorough else ['lazy', 'sets', 'additions', 'deep copy'])]
    if not chk.thorough:
        trees = [x for x in trees if x[1] == 'mapping' or len(x[0]) + len(x[2]) < 5]
    jobs += chunked(chk, trees, lambda c, p: c.case('instances', p, lambda: tree_case(c, *p), transitions=12), 8)
    ops = [(w, op) for w in (0, 1) for op in OPS]
    for ms in ([('mapping', 'mapping'), ('mapping', 'lazy texts'), ('subclass', 'history')]):
        jobs += explore_sequences(chk, 'pair/%s/%s' % ms, ops, pair_depth, lambda seq, ms=ms: pair_run(chk, ms, seq), split=1)
    for how in HOW:
        # what is below the first level is shared by a copy which is not deep
        cops = [(0, 'copy')] + [(w, op) for w in range(3 if chk.thorough else 2) for op in OPS if how == 'copy.deepcopy' or op[0] in SHALLOW]
        for mode in ('mapping', 'lazy texts', 'subclass'):
            jobs += explore_sequences(chk, 'copies/%s/%s' % (how, mode), cops, pair_depth + (how != 'copy.deepcopy' and mode == 'lazy texts' and not chk.thorough),
                                      lambda seq, how=how, mode=mode: copy_run(chk, how, mode, seq), split=1)
        aops = [(0, 'copy')] + [(w, op) for w in (0, 1) for op in ('append', 'set', 'del', 'read', 'bad')]
        for lazy in (False, True):
            jobs += explore_sequences(chk, 'arrays/%s/%s' % (how, lazy), aops, pair_depth + 1,
                                      lambda seq, how=how, lazy=lazy: array_run(chk, how, lazy, seq), split=1)
    chk.bounds = {'pairs of trees of instances': len(trees), 'contents': len(CONTENTS) + len(ARRAY_CONTENTS), 'ways of building': len(modes), 'operations on a pair': len(ops), 'depth': pair_depth}
    chk.parallel(jobs)
