# -*- coding: utf-8 -*-
"""C18: contexts, chained maps, key-insensitive mappings and registries are, after any history, the mappings they document."""
import itertools

from mc.core import chunked, explore_sequences, outcome
from mc.real import Reject

from ngoschema.utils import ReadOnlyChainMap, CaseInsensitiveDict, UriDict, Registry, GenericClassRegistry
from ngoschema.utils.utils import Context, WeakRegistry
from ngoschema.managers.namespace_manager import NamespaceManager  # noqa: F401 (the contexts are used through it)


class A(dict):
    pass


class B(dict):
    pass


class AA(A):
    pass


# ------------------------------------------------------------------ contexts
def new_maps():
    return {'A1': A(x=1, y=2), 'B1': B(y=3, z=4), 'AA': AA(z=5, w=0), 'D0': {}, 'N': {'x': None}}


MAPS = list(new_maps())
LOC = {'x': 9, 'q': 8}
OBS = ['x', 'y', 'z', 'w', 'q', 'k', 'nope']


class MC:
    """the reference: the maps of a context, nearest first (references to the same dictionaries)"""

    def __init__(self, maps):
        self.maps = list(maps)

    def get(self, k):
        for m in self.maps:
            if isinstance(m, MC):
                if m.has(k):
                    return m.get(k)
            elif k in m:
                return m[k]
        raise KeyError(k)

    def has(self, k):
        return any(m.has(k) if isinstance(m, MC) else k in m for m in self.maps)

    def keys(self):
        res = []
        for m in self.maps:
            for k in (m.keys() if isinstance(m, MC) else m):
                if k not in res:
                    res.append(k)
        return res

    def flat(self):
        res = []
        for m in self.maps:
            res += m.flat() if isinstance(m, MC) else [m]
        return res

    def rkeys(self):
        res = []
        for m in reversed(self.maps):
            for k in (m.rkeys() if isinstance(m, MC) else m):
                if k not in res:
                    res.append(k)
        return res


OPS = [('prepend', m) for m in MAPS] + [('append', m) for m in MAPS] + [
    ('child', 'local'), ('child', 'A1'), ('child', 'D0'), ('child', 'nothing'), ('child', 'local+B1'), ('child', 'sibling'), ('new_child',), ('parent',),
    ('set', 'A1', 'k'), ('set', 'D0', 'y'), ('set', 'A1', 'x'), ('del', 'B1', 'y'), ('obs',)]


def observe(chk, real, model, all_maps, what):
    chk.eq(list(real), model.keys(), 'keys of %s' % what)
    chk.eq(len(real), len(model.keys()), 'length of %s' % what)
    for k in OBS:
        chk.eq(k in real, model.has(k), '%r in %s' % (k, what))
        a, v = outcome(real.__getitem__, k)
        if model.has(k):
            chk.eq((a, v), ('ok', model.get(k)), 'item %r of %s' % (k, what))
        else:
            chk.true(a == 'err' and isinstance(v, KeyError), 'item %r of %s: %r' % (k, what, v))
        chk.eq(real.get(k, 'dflt'), model.get(k) if model.has(k) else 'dflt', 'get %r of %s' % (k, what))
    exp = {k: model.get(k) for k in model.keys()}
    chk.eq(dict(real.merged), exp, 'merged %s' % what)
    chk.eq(dict(real.items()), exp, 'items of %s' % what)
    chk.eq(list(real.reversed_keys()), model.rkeys(), 'keys of %s from the furthest map' % what)
    f = [m for m in model.flat() if m]
    g = [m for m in real.maps_flattened if m]
    chk.eq(len(g), len(f), 'flattened maps of %s' % what)
    chk.true(all(x is y or x == y for x, y in zip(g, f)), 'flattened maps of %s' % what)
    if isinstance(real, Context):
        for cls in (A, B, AA):
            for rev in (False, True):
                for excl in (None, all_maps['A1']):
                    cand = [m for m in model.maps if isinstance(m, cls) and m is not excl]
                    e = (cand[-1] if rev else cand[0]) if cand else 'none'
                    chk.true(real.find_instance(cls, 'none', exclude=excl, reverse=rev) is e, 'find_instance(%s, reverse=%s, exclude=%s) in %s'
                             % (cls.__name__, rev, excl is not None, what))
    return tuple(sorted((k, repr(v)) for k, v in exp.items()))


def context_run(chk, start, seq):
    maps = new_maps()
    local = dict(LOC)
    ms = [maps[m] for m in start]
    cur = Context(*ms, **local)
    mod = MC([dict(local)] + ms)
    stack = [(cur, mod)]
    if seq and seq[0] == 'x':
        seq = seq[1:]
    for op in seq:
        if op[0] == 'prepend':
            cur.prepend(maps[op[1]])
            mod.maps.insert(0, maps[op[1]])
        elif op[0] == 'append':
            cur.append(maps[op[1]])
            mod.maps.append(maps[op[1]])
        elif op[0] == 'child':
            if op[1] == 'local':
                new, m = cur.create_child(k=1, x=0), MC([{'k': 1, 'x': 0}] + mod.maps)
            elif op[1] in ('A1', 'D0'):
                # even a map which is empty now
                new, m = cur.create_child(maps[op[1]]), MC([maps[op[1]]] + mod.maps)
                chk.true(new is not cur, 'a child context is another context')
            elif op[1] == 'nothing':
                new, m = cur.create_child(), mod
                chk.true(new is cur, 'a child of nothing more is the context')
            elif op[1] == 'local+B1':
                new, m = cur.create_child(maps['B1'], y='l'), MC([{'y': 'l'}, maps['B1']] + mod.maps)
            else:
                sib = Context(maps['AA'], q='s')
                new, m = cur.create_child(sib), MC([MC([{'q': 's'}, maps['AA']])] + mod.maps)
            # a child context has its own local map
            if m is not mod:
                m = MC(m.maps)
                stack.append((new, m))
                cur, mod = new, m
        elif op[0] == 'new_child':
            new = cur.new_child(maps['N'], k='n')
            observe(chk, new, MC([{'k': 'n'}, maps['N']] + mod.maps), maps, 'new_child')
        elif op[0] == 'parent':
            if len(stack) > 1:
                stack.insert(0, stack.pop())
                cur, mod = stack[-1]
        elif op[0] == 'set':
            maps[op[1]][op[2]] = 'set'
        elif op[0] == 'del':
            maps[op[1]].pop(op[2], None)
        else:
            observe(chk, cur, mod, maps, 'context')
    return tuple(observe(chk, r, m, maps, 'context %d' % i) for i, (r, m) in enumerate(stack))


# ------------------------------------------------------------------ key-insensitive mappings
NORM = {'ci': lambda k: k.lower(), 'uri': lambda k: k.lower().rstrip('#').rstrip('?') if k.endswith('#') else k.lower()}
KEYS = {'ci': ['a', 'A', 'Ab', 'aB', ''], 'uri': ['http://a.org/B', 'HTTP://A.org/b', 'http://a.org/b#', 'http://a.org/b#X', 'http://a.org/b#x']}


def key_ops(kind):
    return [(o, k) for o in ('set', 'del', 'pop', 'setdefault', 'update') for k in KEYS[kind]] + [('clear',), ('popitem',)]


def key_run(chk, kind, start, seq):
    cls, norm = {'ci': CaseInsensitiveDict, 'uri': UriDict}[kind], NORM[kind]
    init = {k: i for i, k in enumerate(KEYS[kind][:start])}
    r = cls(init)
    m = {}
    for k, v in init.items():
        m[norm(k)] = v
    for i, op in enumerate(seq):
        v = 100 + i
        k = op[1] if len(op) > 1 else None
        n = norm(k) if k is not None else None
        if op[0] == 'set':
            r[k] = v
            m[n] = v
        elif op[0] == 'del':
            a, x = outcome(r.__delitem__, k)
            chk.eq(a, 'ok' if n in m else 'err', 'del %r' % k)
            m.pop(n, None)
        elif op[0] == 'pop':
            chk.eq(r.pop(k, 'none'), m.pop(n, 'none'), 'pop %r' % k)
        elif op[0] == 'setdefault':
            chk.eq(r.setdefault(k, v), m.setdefault(n, v), 'setdefault %r' % k)
        elif op[0] == 'update':
            r.update({k: v})
            m[n] = v
        elif op[0] == 'clear':
            r.clear()
            m.clear()
        elif m:
            k, v = r.popitem()
            chk.true(k in m and m.pop(k) == v, 'popitem')
    chk.eq(sorted(r), sorted(m), 'keys')
    chk.eq(len(r), len(m), 'length')
    chk.eq(dict(r.items()), m, 'items')
    for k in KEYS[kind]:
        chk.eq(k in r, norm(k) in m, '%r in' % k)
        chk.eq(r.get(k, 'none'), m.get(norm(k), 'none'), 'get %r' % k)
    chk.true(r == cls(m), 'equality')
    return tuple(sorted(m.items()))


# ------------------------------------------------------------------ registries
# g: top, p: registered in g; q: registered in nothing; c: registered in p and q
PARENTS = {'g': [], 'p': ['g'], 'q': [], 'c': ['p', 'q']}
REG_OPS = [('reg', r, k) for r in 'gpc' for k in ('i', 'j')] + [('unreg', r, k) for r in 'gpc' for k in ('i', 'j')] + [('reg', 'q', 'i'), ('unreg', 'q', 'i')]


class Val:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Val%s' % self.n


def registry_run(chk, kind, seq):
    cls = {'registry': Registry, 'weak': WeakRegistry, 'class': GenericClassRegistry}[kind]
    real = {}
    for n in 'gpqc':
        real[n] = cls(*[real[p] for p in PARENTS[n]])
    model = {n: {} for n in 'gpqc'}

    # parents of parents are only updated by their own registrations
    def reach(n):
        return [n] + PARENTS[n]
    keep = []
    for i, op in enumerate(seq):
        _, n, k = op
        if op[0] == 'reg':
            v = Val(i)
            keep.append(v)
            if kind == 'class':
                chk.true(real[n].register(k)(v) is v, 'a registered class is returned as it is')
            else:
                real[n].register(k, v)
            todo = [n]
            while todo:
                x = todo.pop()
                model[x][k] = v
                todo += PARENTS[x]
        else:
            todo, seen = [n], []
            while todo:
                x = todo.pop()
                seen.append(x)
                todo += PARENTS[x]
            if not all(k in model[x] for x in seen):
                if k not in model[n]:
                    chk.true(outcome(real[n].unregister, k)[0] == 'err', 'unregister of a key which is not registered')
                continue
            real[n].unregister(k)
            for x in seen:
                del model[x][k]
    for n in 'gpqc':
        r, m = real[n], model[n]
        chk.eq(sorted(r), sorted(m), 'keys of %s' % n)
        if kind == 'registry':
            chk.eq(list(r), list(m), 'order of %s' % n)
        chk.eq(len(r), len(m), 'length of %s' % n)
        for k in ('i', 'j', 'z'):
            chk.eq(k in r, k in m, '%s in %s' % (k, n))
            chk.true(r.get(k, 'none') is m.get(k, 'none'), 'get %s of %s: %r' % (k, n, r.get(k, 'none')))
            if k in m:
                chk.true(r[k] is m[k], '%s of %s' % (k, n))
            else:
                chk.true(outcome(r.__getitem__, k)[0] == 'err', 'item %s of %s' % (k, n))
        chk.true(all(v is m[k] for k, v in r.items()), 'items of %s' % n)
    return tuple((n, tuple((k, repr(v)) for k, v in model[n].items())) for n in 'gpqc')


def check(chk):
    th = chk.thorough
    d = 3 if not th else 4
    jobs = []
    for start in [(), ('A1',), ('A1', 'B1')] + ([('AA', 'A1', 'D0')] if th else []):
        jobs += explore_sequences(chk, 'context/%s' % '+'.join(start), OPS, d if start != () or th else d - 1, lambda seq, start=start: context_run(chk, start, seq))
    for kind in ('ci', 'uri'):
        for n in (0, 3):
            jobs += explore_sequences(chk, 'keys/%s/%d' % (kind, n), key_ops(kind), 3, lambda seq, kind=kind, n=n: key_run(chk, kind, n, seq))
    for kind in ('registry', 'weak', 'class'):
        jobs += explore_sequences(chk, 'registry/%s' % kind, REG_OPS, 3 if not th else 5 if kind == 'registry' else 4, lambda seq, kind=kind: registry_run(chk, kind, seq))
    chk.bounds = 'every sequence of up to %d operations on contexts (3-4 initial chains), 3 on key-insensitive mappings, %d on registries with parents' % (d, 3 if not th else 5)
    chk.parallel(jobs)
