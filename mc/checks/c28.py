# -*- coding: utf-8 -*-
"""C28: threads using their own objects, or reading a shared one, get what they would alone, whatever the interleaving."""
import itertools

from mc.core import Mismatch
from mc.real import mk
from mc.threads import Run, Stuck, known_locks
from ngoschema.query import Query
from ngoschema.resolvers.uri_resolver import UriResolver, resolve_uri
from ngoschema.session import scoped_session, session_maker
from ngoschema.utils import threadsafe_counter, GenericClassRegistry

INT = {'type': 'integer'}
PROPS = {'a': INT, 't': {'type': 'string', 'default': '{{this.a}}x'}, 'l': {'type': 'array', 'items': INT},
         'o': {'type': 'object', 'properties': {'n': INT, 'u': {'type': 'string', 'default': 'u{{this.n}}'}}}, 'g': INT}
_count = itertools.count()
_classes = {}


def cls(kind):
    if kind not in _classes:
        sch = {'type': 'object', 'properties': PROPS, 'dependencies': {'g': ['a']}}
        if kind == 'lazy':
            sch['lazyLoading'] = True
            sch['properties'] = {k: dict(p, lazyLoading=True) if k in 'lo' else p for k, p in PROPS.items()}
        _classes[kind] = mk(sch, (), 'Threads', get_g=lambda self: (self.a or 0) * 100)
        use(_classes[kind]({'a': '1', 'l': ['1'], 'o': {'n': '1'}}), READS)     # what is made once for all is made
    return _classes[kind]


def plain(x):
    if hasattr(x, 'keys'):
        return {k: plain(x[k]) for k in x}
    if isinstance(x, (list, tuple)) or hasattr(x, 'append'):
        return [plain(y) for y in x]
    return x


READS = ['a', 't', 'l', 'o.n', 'o.u', 'g', 'o']
VALUES = {'a': 3, 't': '3x', 'l': [1, 2], 'o.n': 4, 'o.u': 'u4', 'g': 300, 'o': {'n': 4, 'u': 'u4'}}


def use(o, names):
    res = []
    for n in names:
        x = o
        for p in n.split('.'):
            x = getattr(x, p)
        res.append(plain(x))
    return res


def values(results):
    for kind, r in results:
        if kind != 'ok':
            raise Mismatch('a thread failed: %r' % (r,))
    return [r for kind, r in results]


# ------------------------------------------------------------------ the workloads: (c) -> workers, verdict
def shared(kind, orders):
    def make(c):
        o = cls(kind)({'a': '3', 'l': ['1', '2'], 'o': {'n': '4'}})

        def verdict(results):
            for got, names in zip(values(results), orders):
                c.eq(got, [VALUES[n] for n in names], 'read %s' % (names,))
            c.eq(use(o, READS), [VALUES[n] for n in READS], 'read afterwards')
            o.a = 5
            c.eq((o.t, o.g), ('5x', 500), 'computed afterwards')
        return [lambda names=names: use(o, names) for names in orders], verdict
    return make


def work_set(o, k):
    o.a = k
    first = o.t
    o.a = k + 1
    return [first, o.t, o.g, o.a]


def work_items(o, k):
    o.l = [k]
    o.l.append(str(k + 1))
    return plain(o.l)


def work_nested(o, k):
    o.o.n = k
    first = o.o.u
    o['o.n'] = str(k + 1)
    return [first, o.o.u]


def work_rejected(o, k):
    o.a = k
    try:
        o['a'] = 'x'
        o.a
    except Exception:
        o.a = k
        return [o.a, o.t]


def work_serialized(o, k):
    o.a = k
    return plain(o.do_serialize(only=['a', 't', 'l']))


def short(name, path, text):
    def work(o, k):
        o[path] = text % k
        return plain(getattr(o, name) if name[0] != 'u' else o.o.u)
    return work


SHORT = {'value': (short('a', 'a', '%d'), lambda k: k), 'template': (short('t', 'a', '%d'), lambda k: '%dx' % k), 'computed': (short('g', 'a', '%d'), lambda k: k * 100),
         'inner': (short('u', 'o.n', '%d'), lambda k: 'u%d' % k), 'array': (short('l', 'l', '%d'), lambda k: [k])}
WORKS = {'set': (work_set, lambda k: ['%dx' % k, '%dx' % (k + 1), (k + 1) * 100, k + 1]), 'items': (work_items, lambda k: [k, k + 1]),
         'nested': (work_nested, lambda k: ['u%d' % k, 'u%d' % (k + 1)]), 'rejected': (work_rejected, lambda k: [k, '%dx' % k]),
         'serialized': (work_serialized, lambda k: {'a': k, 'l': []})}

ALL = dict(WORKS, **SHORT)


def own(kind, works):
    def make(c):
        objs = [cls(kind)({'a': 1, 'o': {'n': 1}}) for _ in works]

        def verdict(results):
            for i, (got, w) in enumerate(zip(values(results), works)):
                want = ALL[w][1](10 * (i + 1))
                if w == 'serialized':
                    got, want = got.get('a'), want['a']
                c.eq(got, want, '%s in thread %d' % (w, i))
        return [lambda i=i, w=w: ALL[w][0](objs[i], 10 * (i + 1)) for i, w in enumerate(works)], verdict
    return make


def created(c):
    def verdict(results):
        for i, got in enumerate(values(results)):
            c.eq(got, [i + 5, '%dx' % (i + 5), [i], 'u%d' % i], 'object created by thread %d' % i)
    C = cls('eager')

    def work(i):
        o = C({'a': str(i + 5), 'l': [str(i)], 'o': {'n': str(i)}})
        return [o.a, o.t, plain(o.l), o.o.u]
    return [lambda: work(0), lambda: work(1)], verdict


def counted(threads, calls):
    def make(c):
        with known_locks():
            count = threadsafe_counter(5)

        def work():
            return [count() for _ in range(calls)]

        def verdict(results):
            got = values(results)
            c.eq(sorted(sum(got, [])), list(range(5, 5 + threads * calls)), 'numbers given')
            for g in got:
                c.eq(g, sorted(g), 'numbers given to a thread')
        return [work] * threads, verdict
    return make


def sessions(again):
    def make(c):
        scope = scoped_session(session_maker())

        def work():
            a, b = scope(), scope()
            if not again:
                return [a, b]
            scope.remove()
            return [a, b, scope()]

        def verdict(results):
            got = values(results)
            ids = []
            for g in got:
                c.true(g[0] is g[1], 'a thread has two sessions')
                ids += [g[0]] + g[2:]
            for x, y in itertools.combinations(ids, 2):
                c.true(x is not y and x._hash_key != y._hash_key, 'two threads have the same session')
                c.true(x.repositories is not y.repositories, 'sessions share their repositories')
        return [work, work], verdict
    return make


def resolved(c):
    n = next(_count)
    uri = 'https://c28.org/doc%d' % n
    UriResolver.register_doc({'$id': uri, '$defs': {'A': {'x': 1, 'l': [{'y': 2}]}}}, uri)

    def work(i):
        mine = '%s/%d' % (uri, i)
        UriResolver.register_doc({'$id': mine, '$defs': {'A': {'x': i}}}, mine)
        return [resolve_uri(uri + '#/$defs/A/x'), resolve_uri(mine + '#/$defs/A')['x'], resolve_uri(uri + '#/$defs/A/l/0/y')]

    def verdict(results):
        for i, got in enumerate(values(results)):
            c.eq(got, [1, i, 2], 'resolved by thread %d' % i)
            c.eq(resolve_uri('%s/%d#/$defs/A/x' % (uri, i)), i, 'resolved afterwards')
    return [lambda: work(0), lambda: work(1)], verdict


def queried(c):
    data = [{'a': i, 'b': {'n': i % 2}, 's': 'ab'[i % 2] * i} for i in range(4)]

    def verdict(results):
        got = values(results)
        c.eq(got[0], [1, 3, 2], 'query of thread 0')
        c.eq(got[1], [3, 2, 1, 0], 'query of thread 1')
    return [lambda: [x['a'] for x in Query(data).filter(b__n=1)] + [Query(data).get(a=2)['a']],
            lambda: sorted([x['a'] for x in Query(data).filter(a__ge=0)], reverse=True)], verdict


def registered(c):
    reg = GenericClassRegistry()

    def work(i):
        @reg.register('k%d' % i)
        class K(object):
            pass
        return [reg.get('k%d' % i) is K, K.__name__]

    def verdict(results):
        for got in values(results):
            c.eq(got, [True, 'K'], 'class registered')
        c.true(reg.get('k0') is not reg.get('k1'), 'classes registered')
    return [lambda: work(0), lambda: work(1)], verdict


# ------------------------------------------------------------------ exploration
def explore(c, name, make, bound, grain, part, parts):
    def run(sch):
        workers, verdict = make(c)
        r = Run(workers, sch, grain, len(sch) < bound)
        try:
            results = r()
        except Stuck as er:
            raise Mismatch(str(er))
        verdict(results)
        return r

    ran = []
    c.case('%s/%s' % (name, grain), 'alone', lambda: ran.append(run(())))     # what is computed once for all
    if not ran:
        return
    todo = [()]
    while todo:
        sch = todo.pop()
        last = []
        if sch or part == 0:
            def one():
                r = run(sch)
                last.append(r)
                return tuple(r.runs[::7])
            c.case('%s/%s' % (name, grain), sch, one, transitions=max(1, len(sch)))
        else:
            last.append(run(()))
        if len(sch) < bound and last:
            r = last[0]
            for k in range((sch[-1][0] + 1) if sch else 0, r.steps):
                if sch or k % parts == part:
                    todo += [sch + ((k, to),) for to in range(len(r.workers)) if to != r.runs[k]]


def check(chk):
    th = chk.thorough
    fine, coarse = 'line', 'call'
    loads = [('counter 2x2', counted(2, 2), 3 if th else 2, 'opcode'), ('counter 3x1', counted(3, 1), 2 if th else 1, 'opcode'),
             ('sessions', sessions(False), 1, coarse), ('sessions removed', sessions(True), 1, coarse),
             ('resolved', resolved, 2 if th else 1, fine), ('queried', queried, 1, 'opcode' if th else fine), ('registered', registered, 2, fine), ('created', created, 1, coarse)]
    orders = [('a', 'a'), ('l', 'l'), ('t', 't'), ('t', 'a'), ('g', 'a'), ('o.n', 'o.n'), ('o.u', 'o'), ('g', 't')]
    quick = {'lazy': orders[1:2] + orders[4:6] + orders[7:], 'eager': orders[2:3]}
    for kind in ('lazy', 'eager'):
        for x, y in (orders if th else quick[kind]):
            loads.append(('%s object shared: %s, %s' % (kind, x, y), shared(kind, [[x], [y]]), 1, fine))
        loads.append(('%s object shared' % kind, shared(kind, [READS, READS[::-1]]), 1, coarse))
    for kind in ('eager', 'lazy'):
        for x, y in itertools.combinations_with_replacement(sorted(WORKS), 2):
            if th or kind == 'eager' and y == 'set':
                loads.append(('own %s objects: %s, %s' % (kind, x, y), own(kind, [x, y]), 1, coarse))
        for x, y in itertools.combinations_with_replacement(sorted(SHORT), 2):
            if th or x == y and (kind == 'eager') != (x in ('value', 'array')):
                loads.append(('own %s objects: %s, %s' % (kind, x, y), own(kind, [x, y]), 1, 'line'))
    jobs = []
    for name, make, bound, grain in loads:
        for p in range(8):
            jobs.append(lambda c, name=name, make=make, bound=bound, grain=grain, p=p: explore(c, name, make, bound, grain, p, 8))
    chk.bounds = '%d workloads of 2 or 3 threads; every schedule with 1 preemption (2 or 3 for the short ones) at every call, line or bytecode of the package' % len(loads)
    chk.parallel(jobs)
