"""C20: an entity is designated by its keys: in foreign keys, repositories, sessions, arrays."""
import copy
import itertools

from mc.core import chunked, explore_sequences, outcome
from mc.real import mk, forget_namespaces

from ngoschema.models.instances import Entity
from ngoschema.protocols import SchemaMetaclass
from ngoschema.repositories import MemoryRepository
from ngoschema.session import session_maker

URI = 'https://c20.org/d%d'
INT, STR = {'type': 'integer'}, {'type': 'string'}
KEYS = {'E': ['id'], 'F': ['id'], 'S': ['k'], 'M': ['a', 'b'], 'N': ['b', 'a']}
TYPES = {'id': int, 'k': str, 'a': int, 'b': str}
_n = itertools.count()
_built = {}


def build():
    uri = URI % next(_n)
    ref = lambda n: '%s#/$defs/%s' % (uri, n)
    r = {'uri': uri}
    for n in 'ESMN':
        props = {k: STR if TYPES[k] is str else INT for k in KEYS[n]}
        r[n] = SchemaMetaclass(n, (Entity,), {'_schema': {'type': 'object', 'primaryKeys': KEYS[n], 'properties': dict(props, v=INT)}, '_id': ref(n)})
    r['F'] = SchemaMetaclass('F', (r['E'],), {'_schema': {'type': 'object', 'properties': {'w': INT}}, '_id': ref('F')})
    fk = lambda n: {'type': 'foreignKey', 'foreignKey': {'foreignSchema': ref(n)}}
    props = {n.lower(): fk(n) for n in KEYS}
    props['in'] = {'type': 'object', 'properties': {'e': fk('E'), 'm': fk('M')}, 'default': {}}
    props['l'] = {'type': 'array', 'items': fk('E')}
    props['lm'] = {'type': 'array', 'items': fk('M')}
    for name, lazy in (('H', False), ('HL', True)):
        r[name] = mk({'type': 'object', 'lazyLoading': lazy, 'properties': props})
    r['G'] = mk({'type': 'object', 'properties': {'one': {'$ref': ref('E')}, 'm': {'$ref': ref('M')}, 'many': {'type': 'array', 'items': {'$ref': ref('E')}}}})
    for n in 'EM':
        r['L' + n] = mk({'type': 'object', 'properties': {'l': {'type': 'array', 'items': {'$ref': ref(n)}}}})
    return r


def setup():
    if not _built:
        _built.update(build())
    return _built


def ent(k, n, keys, **more):
    return k[n](dict(zip(KEYS[n], keys), **more))


# ------------------------------------------------------------------ values of foreign keys
INTS, STRS = [0, 1, 7, 12345678901234567890], ['a', 'a.b', 'é', '10', 'a b', 'A']
DOMAIN = {'E': [(i,) for i in INTS], 'F': [(i,) for i in INTS[:3]], 'S': [(s,) for s in STRS + ['a,b', ' a ', 'x[0]']],
          'M': [(i, s) for i in INTS for s in STRS], 'N': [(s, i) for i in INTS[:4] for s in STRS[:4]]}
# name of the place, as an item of the holder, and how it is given with the holder
PLACES = {'E': ['e', 'in.e', 'l[1]'], 'F': ['f'], 'S': ['s'], 'M': ['m', 'in.m', 'lm[1]'], 'N': ['n']}


def forms(n, keys):
    """everything which designates an entity, with what it designates"""
    one = len(keys) == 1
    want = keys[0] if one else keys
    texts = all(isinstance(x, int) or x == x.strip() and ',' not in x for x in keys)
    yield 'native', want
    yield 'list', list(keys)
    yield 'tuple', tuple(keys)
    yield 'texts', [str(x) for x in keys]
    if texts or one:
        yield 'text', ','.join(map(str, keys))
    if texts and not one:
        yield 'spaced text', ' , '.join(map(str, keys))
    yield 'entity', ('entity', n)
    yield 'changed entity', ('changed', n)
    if n == 'E':
        yield 'entity of a subclass', ('entity', 'F')


def given(k, v, keys):
    if isinstance(v, tuple) and v[:1] in (('entity',), ('changed',)):
        if v[0] == 'entity':
            return ent(k, v[1], keys, v=3)
        e = ent(k, v[1], [{int: 5, str: 'q'}[TYPES[x]] for x in KEYS[v[1]]])
        for x, y in zip(KEYS[v[1]], keys):
            setattr(e, x, y)
        return e
    return copy.deepcopy(v)


def raw_at(place, v):
    return {'in.e': lambda: {'in': {'e': v}}, 'in.m': lambda: {'in': {'m': v}}, 'l[1]': lambda: {'l': [3, v]}, 'lm[1]': lambda: {'lm': [(3, 'z'), v]}}.get(place, lambda: {place: v})()


def data_at(place, s):
    return {'in.e': lambda: s['in']['e'], 'in.m': lambda: s['in']['m'], 'l[1]': lambda: s['l'][1], 'lm[1]': lambda: s['lm'][1]}.get(place, lambda: s[place])()


def assign(h, place, v):
    if place in ('l[1]', 'lm[1]'):
        getattr(h, place[:-3])[1] = v
    elif place.startswith('in'):
        setattr(getattr(h, 'in'), place[3:], v)
    else:
        setattr(h, place, v)


def key_case(c, n, keys, form, v, place, how):
    k = setup()
    want = keys[0] if len(keys) == 1 else tuple(keys)
    before = {int: 4, str: 'p'}
    old = [before[TYPES[x]] for x in KEYS[n]]
    oldw = old[0] if len(old) == 1 else tuple(old)
    x = given(k, v, keys)
    if how in ('eager', 'lazy'):
        h = k['H' if how == 'eager' else 'HL'](raw_at(place, x))
    else:
        h = k['H' if how == 'set' else 'HL'](raw_at(place, oldw))
        c.eq(h[place], oldw, 'before')
        assign(h, place, x)
    c.eq(h[place], want, 'the key')
    c.eq(type(h[place]), type(want), 'type of the key')
    s = h.do_serialize()
    got = data_at(place, s)
    c.eq(tuple(got) if isinstance(want, tuple) else got, want, 'serialized')
    for again in (k['H'](s), k['HL'](s), copy.deepcopy(h)):
        c.eq(again[place], want, 'built again')
    assign(h, place, None)
    c.eq(h[place], None, 'unset')
    assign(h, place, oldw)
    c.eq(h[place], oldw, 'set after it')
    return n, repr(want)


BAD = {'E': ['x', ['x'], ('entity', 'S'), ('entity', 'M'), {'id': 1}], 'F': ['x', ('entity', 'S')], 'S': [], 'M': ['x,y', ['x', 'y'], ('entity', 'S'), {'a': 1, 'b': 'x'}], 'N': []}
BADKEYS = {'S': ['a'], 'M': [1, 'z']}


def bad_case(c, n, v, place, how):
    k = setup()
    old = [{int: 4, str: 'p'}[TYPES[x]] for x in KEYS[n]]
    oldw = old[0] if len(old) == 1 else tuple(old)
    x = given(k, v, BADKEYS.get(v[1] if isinstance(v, tuple) else n, [1]))
    if how == 'eager':
        c.raises(lambda: k['H'](raw_at(place, x)), Exception, 'construction')
    elif how == 'lazy':
        c.raises(lambda: k['HL'](raw_at(place, x))[place], Exception, 'construction and read')
    else:
        h = k['H'](raw_at(place, oldw))
        c.raises(lambda: assign(h, place, x), Exception, 'set')
        c.eq(h[place], oldw, 'after the rejected value')
    return n, how


# ------------------------------------------------------------------ repositories
REPOS = [('E', 0), ('F', 0), ('M', 0), ('E', 1)]     # class, session
OPS = [('commit', 0, 'E', (1,)), ('commit', 0, 'E', (0,)), ('commit', 0, 'E', (None,)), ('commit', 0, 'F', (1,)), ('commit', 1, 'F', (2,)), ('commit', 1, 'F', (None,)),
       ('commit', 2, 'M', (1, 'x')), ('commit', 2, 'M', (None, 'x')), ('commit', 3, 'E', (1,)), ('commit', 3, 'E', (None,)),
       ('again', 0, None, None), ('change', 0, None, None), ('look', 0, None, None), ('pointer', 0, 'E', (1,)), ('bind', 0, None, None)]
QUERIES = {'E': [(0,), (1,), (2,), (3,)], 'F': [(0,), (1,), (2,), (3,)], 'M': [(1, 'x'), (0, 'x'), (2, 'x'), (1, 'y')]}


class World:
    def __init__(self, k):
        self.k = k
        self.sessions = [session_maker()(), session_maker()()]
        self.repos, self.model = [], []
        for n, i in REPOS:
            self.add(n, i)
        self.holders = [k['H']({}, session=s) for s in self.sessions]
        self.count = 0

    def add(self, n, i):
        self.repos.append((n, i, MemoryRepository(instanceClass=self.k[n], many=True, meta_opts={'session': self.sessions[i]})))
        self.model.append({})

    def find(self, i, n, keys):
        """the entity of a class in a session"""
        for (rn, ri, r), m in zip(self.repos, self.model):
            if ri == i and (rn == n or (n, rn) == ('E', 'F')) and keys in m:
                return m[keys]


def look(c, w):
    k = w.k
    for (n, i, r), m in zip(w.repos, w.model):
        for keys in QUERIES[n]:
            c.eq(keys in r, keys in m, '%r in the repository of %s' % (keys, n))
            if keys in m:
                c.same(r.resolve_fkey(keys), m[keys], 'resolved by the repository')
                got = r.query(**dict(zip(KEYS[n], keys)))
                c.same(got, m[keys], 'queried')
            else:
                c.raises(lambda: r.resolve_fkey(keys), Exception, 'resolved by the repository')
    for i, s in enumerate(w.sessions):
        h = w.holders[i]
        for n in QUERIES:
            for keys in QUERIES[n]:
                e = w.find(i, n, keys)
                one = keys[0] if len(keys) == 1 else keys
                h[n.lower()] = one
                setattr(getattr(h, 'in'), n.lower() if n in 'EM' else 'e', one)
                ways = [lambda: s.resolve_fkey(keys, k[n]), lambda: h[n.lower() + '_ptr'], lambda: getattr(h, n.lower() + '_ptr')]
                if len(keys) == 1:
                    ways.append(lambda: s.resolve_fkey(one, k[n]))
                if n in 'EM':
                    ways.append(lambda: getattr(getattr(h, 'in'), n.lower() + '_ptr'))
                copies = [lambda: k[n](one, session=s)]
                if n == 'E':
                    copies += [lambda: k['G']({'one': one}, session=s).one, lambda: k['G']({'many': [one]}, session=s).many[0]]
                if n == 'M':
                    copies.append(lambda: k['G']({'m': one}, session=s).m)
                for f in ways:
                    if e is None:
                        c.raises(f, Exception, '%s %r resolved in session %d' % (n, keys, i))
                    else:
                        c.same(f(), e, '%s %r resolved in session %d' % (n, keys, i))
                for f in copies:
                    if e is None:
                        c.raises(f, Exception, '%s built from %r in session %d' % (n, keys, i))
                    else:
                        o = f()
                        c.eq((type(o), o.do_serialize()), (type(e), e.do_serialize()), '%s built from %r' % (n, keys))
        held = {n: [e for keys in QUERIES[n] for e in [w.find(i, n, keys)] if e is not None] for n in 'EM'}
        for form in ('use_identity_keys', 'use_entity_keys'):
            g = k['G']({'many': held['E']}, session=s)
            if held['E']:
                g.one = held['E'][-1]
            if held['M'] and form == 'use_identity_keys':
                g.m = held['M'][0]
            d = g.do_serialize(**{form: True})
            key = (lambda x: x[0]) if form == 'use_identity_keys' else lambda x: {'id': x[0]}
            c.eq([list(d.get('many', [])), d.get('one')], [[key(e.identityKeys) for e in held['E']], key(held['E'][-1].identityKeys) if held['E'] else None], form)
            if form == 'use_identity_keys':
                if 'm' in d:
                    c.eq(tuple(d['m']), tuple(held['M'][0].identityKeys), form)
                again = k['G'](d, session=s)
                c.eq(again.do_serialize(), g.do_serialize(), 'loaded from the keys')
                c.eq([type(x) for x in again.many], [type(x) for x in held['E']], 'classes loaded from the keys')
        for n in QUERIES:
            h[n.lower()] = None
            c.same(getattr(h, n.lower() + '_ptr'), None, 'pointer of no key')


def repo_run(c, seq):
    w = World(setup())
    k = w.k
    order = [[] for r in w.repos]
    for op, ri, n, keys in seq:
        r, m = w.repos[ri][2], w.model[ri]
        w.count += 1
        if op == 'commit':
            e = ent(k, n, keys, v=w.count)
            if None in keys:
                i = keys.index(None)
                keys = keys[:i] + (max([-1] + [x[i] for x in m]) + 1,) + keys[i + 1:]
            content = r.commit(e)
            if keys in m:
                order[ri][order[ri].index(m[keys])] = e
            else:
                order[ri].append(e)
            m[keys] = e
            c.eq(tuple(e.identityKeys), keys, 'identity keys')
            c.eq([e[x] for x in KEYS[n]], list(keys), 'keys')
        elif op == 'again':
            for x in list(m.values()):
                content = r.commit(x)
            if not m:
                continue
        elif op == 'change':
            for x in m.values():
                x.v = w.count * 10
            continue
        elif op == 'pointer':
            e = ent(k, n, keys)
            w.holders[0].e_ptr = e
            c.eq(w.holders[0].e, keys[0], 'key of the pointer')
            w.holders[0]['e_ptr'] = None
            c.eq(w.holders[0].e, None, 'key of no pointer')
            continue
        elif op == 'bind':
            w.add('E', 0)
            order.append([])
            e = ent(k, 'E', (3,))
            w.repos[-1][2].commit(e)
            w.model[-1][3,] = e
            order[-1].append(e)
            continue
        else:
            look(c, w)
            continue
        c.eq([id(x) for x in content], [id(x) for x in order[ri]], 'content after %s' % op)
    look(c, w)
    return repr([sorted(m) for m in w.model])


def default_run(c, seq):
    """without any session, repositories are found in the default one"""
    k = build()
    held = {}
    h = k['H']()
    repos = {}
    for op, n, keys in seq:
        if op == 'repo':
            repos[n] = MemoryRepository(instanceClass=k[n], many=True)
        elif n in repos:
            e = ent(k, n, keys)
            repos[n].commit(e)
            held[n, keys] = e
    for n in 'EM':
        for keys in QUERIES[n]:
            one = keys[0] if len(keys) == 1 else keys
            h[n.lower()] = one
            if (n, keys) in held:
                c.same(h[n.lower() + '_ptr'], held[n, keys], 'resolved')
                c.eq(k[n](one), held[n, keys], 'built from the key')
            else:
                c.raises(lambda: h[n.lower() + '_ptr'], Exception, 'resolved')
                c.raises(lambda: k[n](one), Exception, 'built from the key')
    return repr(sorted(held))


DOPS = [('repo', 'E', None), ('repo', 'M', None), ('commit', 'E', (1,)), ('commit', 'E', (0,)), ('commit', 'M', (1, 'x'))]


# ------------------------------------------------------------------ arrays of entities
START = {'E': [(1,), (0,)], 'M': [(1, 'x'), (1, 'y')]}
NEW = {'E': [(2,), (0,)], 'M': [(2, 'x'), (1, 'x')]}
AOPS = ['append 0', 'append 1', 'insert 0', 'set 0', 'set 1', 'del 0', 'del 1', 'pop', 'reverse', 'key', 'key of the last', 'v', 'look']


def array_look(c, n, l, m):
    c.eq([tuple(x) for x in l.identityKeys], [tuple(x[y] for y in KEYS[n]) for x in m], 'identity keys')
    for keys in START[n] + NEW[n] + [(5,) if n == 'E' else (5, 'y')]:
        i = next((i for i, x in enumerate(m) if [x[y] for y in KEYS[n]] == list(keys)), None)
        if i is None:
            c.same(l.get(*keys), None, 'get %r' % (keys,))
            c.eq(l.get(*keys, default=7), 7, 'get %r' % (keys,))
        else:
            c.same(l.get(*keys), l[i], 'get %r' % (keys,))
            c.same(l.get(*keys, default=7), l[i], 'get %r' % (keys,))
            c.same(l.get(*keys, v=m[i]['v']), next((l[j] for j, x in enumerate(m) if [x[y] for y in KEYS[n]] == list(keys) and x['v'] == m[i]['v']), None), 'get %r' % (keys,))
    for v in (1, 4):
        i = next((i for i, x in enumerate(m) if x['v'] == v), None)
        c.same(l.get(v=v), None if i is None else l[i], 'get v=%d' % v)


def array_run(c, n, lazy, seq):
    k = setup()
    m = [dict(zip(KEYS[n], x), v=i) for i, x in enumerate(START[n])]
    l = k['L' + n]({'l': copy.deepcopy(m)}, lazyLoading=lazy).l
    for op in seq:
        if op[-1] in '01':
            i = int(op[-1])
            new = dict(zip(KEYS[n], NEW[n][i]), v=4)
        if op.startswith('append'):
            l.append(dict(new))
            m.append(new)
        elif op.startswith('insert'):
            l.insert(0, k[n](new))
            m.insert(0, new)
        elif op == 'look':
            array_look(c, n, l, m)
        elif not m or op[-1] == '1' and len(m) < 2:
            continue
        elif op.startswith('set'):
            l[i] = dict(new)
            m[i] = new
        elif op.startswith('del'):
            del l[i]
            del m[i]
        elif op == 'pop':
            l.pop()
            m.pop()
        elif op == 'reverse':
            l.reverse()
            m.reverse()
        elif op == 'v':
            l[0].v = 4
            m[0]['v'] = 4
        else:
            i = 0 if op == 'key' else -1
            x = KEYS[n][-1]
            val = 5 if x == 'id' else 'y'
            setattr(l[i], x, val)
            m[i][x] = val
    array_look(c, n, l, m)
    return repr(m)


def check(chk):
    forget_namespaces()
    setup()
    th = chk.thorough
    jobs = []
    items = [(n, keys, f, v, p, how) for n in DOMAIN for keys in DOMAIN[n] for f, v in forms(n, keys) for p in PLACES[n] for how in ('eager', 'lazy', 'set', 'set lazy')]
    jobs += chunked(chk, items, lambda c, x: c.case('keys', x, lambda: key_case(c, *x), transitions=8), 8)
    bad = [(n, v, p, how) for n in BAD for v in BAD[n] for p in PLACES[n] for how in ('eager', 'lazy', 'set')]
    jobs += chunked(chk, bad, lambda c, x: c.case('rejected keys', x, lambda: bad_case(c, *x), transitions=3), 2)
    d = 3 if th else 2
    jobs += explore_sequences(chk, 'repositories', OPS, d, lambda s: repo_run(chk, s), split=1)
    jobs += explore_sequences(chk, 'default session', DOPS, 4 if th else 3, lambda s: default_run(chk, s), split=1)
    da = 4 if th else 3
    for n in 'EM':
        for lazy in (False, True):
            jobs += explore_sequences(chk, 'arrays/%s/%s' % (n, 'lazy' if lazy else 'eager'), AOPS, da - (n == 'M' and lazy), lambda s, n=n, lazy=lazy: array_run(chk, n, lazy, s), split=1)
    chk.bounds = {'values of keys': len(items), 'rejected': len(bad), 'operations on repositories': len(OPS), 'depth': d, 'operations on arrays': len(AOPS), 'depth of arrays': da}
    chk.parallel(jobs)
