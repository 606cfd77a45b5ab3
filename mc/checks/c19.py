# -*- coding: utf-8 -*-
"""C19: the utility algorithms compute what they document, on every small input, and leave their input as it was."""
import collections
import copy
import itertools
import re

from mc.core import chunked, outcome

from ngoschema.utils import (topological_sort, Bracket, apply_through_collection, filter_collection, nested_dict_iter, grouper, casted_as,
                             multiple_replace, split_string)
from ngoschema.utils.utils import mro, gcs, get_descendant, split_path, to_list, class_casted_as, reduce_coll
from ngoschema.utils.str_utils import rreplace, shorten, lazy_format, log_format


# ------------------------------------------------------------------ dependency graphs
def levels(graph):
    """the nodes by level: those depending on nothing, then on the previous levels... None on a cycle"""
    nodes = set(graph) | {d for ds in graph.values() for d in ds}
    deps = {n: set(graph.get(n, ())) - {n} for n in nodes}
    res, done = [], set()
    while len(done) < len(nodes):
        lev = {n for n in nodes - done if deps[n] <= done}
        if not lev:
            return res, True
        res.append(lev)
        done |= lev
    return res, False


def graphs(n):
    """every graph on n nodes, the last one being possibly only a dependency"""
    names = 'abcd'[:n]
    for bits in itertools.product((0, 1), repeat=n * n):
        g = {}
        for i, x in enumerate(names):
            g[x] = {names[j] for j in range(n) if bits[i * n + j]}
        yield g
        if n < 4 and not g[names[-1]]:
            g2 = {k: set(v) for k, v in g.items()}
            del g2[names[-1]]
            yield g2


def topo_case(c, batch):
    def run():
        seen = set()
        for g in batch:
            arg = {k: set(v) for k, v in g.items()}
            exp, cyclic = levels(g)
            got = []

            def consume():
                for x in topological_sort(arg):
                    got.append(set(x))
            k, v = outcome(consume)
            c.eq(got, exp, 'order of %s' % g)
            c.eq(k, 'err' if cyclic else 'ok', 'cyclic dependencies of %s' % g)
            c.eq(arg, g, 'the graph is left as it was')
            seen.add((len(exp), cyclic))
        return (len(batch), tuple(sorted(seen)), repr(batch[0]))
    c.case('topological', repr(batch[0]), run, transitions=len(batch))


# ------------------------------------------------------------------ hierarchies
def hierarchies(n):
    """bases (ordered) of each of the classes 0..n-1 among the previous ones"""
    def opts(i):
        prev = range(i)
        return [b for k in range(0, min(i, 3) + 1) for b in itertools.permutations(prev, k)]
    return itertools.product(*[opts(i) for i in range(n)])


def mro_case(c, h):
    def run():
        classes = []
        for i, bs in enumerate(h[:-1]):
            k, cls = outcome(type, 'C%d' % i, tuple(classes[b] for b in bs) or (object,), {})
            if k == 'err':
                return 'not buildable'
            classes.append(cls)
        bases = [classes[b] for b in h[-1]] or [object]
        k, cls = outcome(type, 'K', tuple(bases), {})
        k2, m = outcome(mro, *bases)
        c.eq(k2, k, 'a linearization exists for %s' % (h,))
        if k == 'ok':
            c.eq([x.__name__ for x in m], [x.__name__ for x in cls.__mro__[1:]], 'linearization')
        g = gcs(*bases)
        common = [x for x in bases[0].__mro__ if all(x in b.__mro__ for b in bases)]
        c.true(g is common[0], 'greatest common superclass')
        for cl in classes:
            c.true(mro(cl) == cl.__mro__, 'linearization of one class')
            # an instance casted as one of its bases, whatever happens
            o = cl()
            for b in classes:
                if b in cl.__mro__:
                    with casted_as(o, b) as x:
                        c.true(x is o and type(o) is b, 'casted')
                    c.true(type(o) is cl, 'not casted any more')

                    def failing():
                        with casted_as(o, b):
                            raise ValueError
                    c.true(isinstance(outcome(failing)[1], ValueError), 'the error is not hidden')
                    c.true(type(o) is cl, 'not casted any more after an error')
                else:
                    c.true(isinstance(outcome(lambda: casted_as(o, b).__enter__())[1], AttributeError), 'not a base')
                    c.true(type(o) is cl, 'the class does not change')
        return k
    c.case('hierarchy', h, run, state=h)


# ------------------------------------------------------------------ brackets
def pairs(s, o, cl):
    stack, res = [], []
    for i, ch in enumerate(s):
        if ch == o:
            stack.append(i)
        elif ch == cl:
            if not stack:
                return None
            res.append((stack.pop(), i))
    return None if stack else res


def tree(ps):
    def inside(a, b):
        return b[0] < a[0] and a[1] < b[1]

    def level(items):
        top = [p for p in items if not any(inside(p, q) for q in items)]
        return [(p, level([q for q in items if inside(q, p)])) for p in sorted(top)]
    return level(ps)


def as_tree(reg):
    return [(tuple(b._pos), as_tree(r)) for b, r in reg.items()]


def bracket_case(c, br, batch):
    o, cl = br

    def run():
        n = 0
        for s in batch:
            ps = pairs(s, o, cl)
            if ps is None:
                continue
            n += 1
            for sym in br:
                found = Bracket.find_brackets(s, sym)
                c.eq(sorted(tuple(b._pos) for b in found), sorted(ps), 'brackets of %r' % s)
                for b in found:
                    c.eq(b.content(), s[b._pos[0] + 1:b._pos[1]], 'content in %r' % s)
                    for b2 in found:
                        c.eq(bool(b.is_in(b2)), b2._pos[0] < b._pos[0] and b._pos[1] < b2._pos[1], '%s is in %s, of %r' % (b._pos, b2._pos, s))
                r = Bracket.find_closing_bracket(s, sym)
                if not ps:
                    c.true(r is None, 'no bracket in %r' % s)
                else:
                    first = min(ps)
                    c.eq((tuple(r[0]), r[1]), (first, s[first[0] + 1:first[1]]), 'first bracket of %r' % s)
            c.eq(as_tree(Bracket.find_nested_brackets(s, o)), tree(ps), 'nested brackets of %r' % s)
        return (br, n, batch[0])
    c.case('brackets', (br, batch[0], len(batch)), run, transitions=len(batch))


# ------------------------------------------------------------------ collections
LEAVES = [0, None, 'v']


def collections_of(depth, width=2):
    """every collection of dictionaries and lists, up to a depth and width"""
    if depth == 0:
        return list(LEAVES[:2])
    subs = collections_of(depth - 1, width)
    res = list(LEAVES)
    for n in range(width + 1):
        for vs in itertools.product(subs, repeat=n):
            res.append(list(vs))
            res.append(dict(zip('ab', vs)))
    out, seen = [], set()
    for r in res:
        if repr(r) not in seen:
            seen.add(repr(r))
            out.append(r)
    return out


def visit(coll, deleted, recursive, level=0):
    """reference: every element once, deleted() ones are removed and not entered, others are entered"""
    calls = []
    if isinstance(coll, dict):
        for k in list(coll):
            calls.append((level, k, repr(coll[k])))
            if deleted(coll[k]):
                del coll[k]
            elif recursive and isinstance(coll[k], (dict, list)):
                calls += visit(coll[k], deleted, recursive, level + 1)
    else:
        keep = []
        for v in coll:
            calls.append((level, None, repr(v)))
            if not deleted(v):
                keep.append(v)
                if recursive and isinstance(v, (dict, list)):
                    calls += visit(v, deleted, recursive, level + 1)
        coll[:] = keep
    return calls


DELETED = {'nothing': lambda v: False, 'none': lambda v: v is None, 'zero': lambda v: v == 0 and v is not None and not isinstance(v, (dict, list)), 'empty': lambda v: v in ([], {}),
           'lists': lambda v: isinstance(v, list)}


def apply_case(c, batch):
    def run():
        for coll in batch:
            for name, deleted in DELETED.items():
                for recursive in (True, False):
                    real, mod, calls = copy.deepcopy(coll), copy.deepcopy(coll), []

                    def func(cc, key, level, tag):
                        c.eq(tag, 't', 'arguments are given to the function')
                        calls.append((level, key if isinstance(cc, dict) else None, repr(cc[key])))
                        if deleted(cc[key]):
                            del cc[key]
                    apply_through_collection(real, func, recursive, tag='t')
                    exp = visit(mod, deleted, recursive)
                    c.eq(calls, exp, 'elements of %r (deleting %s)' % (coll, name))
                    c.eq(repr(real), repr(mod), 'result of %r (deleting %s)' % (coll, name))
            # keys
            if isinstance(coll, dict):
                for sep in ('.', '/'):
                    c.eq(list(nested_dict_iter(coll, sep)), flat(coll, sep), 'nested items of %r' % (coll,))
                c.eq(list(nested_dict_iter(coll)), flat(coll, '.'), 'nested items of %r' % (coll,))
            for only, but, rec in itertools.product(((), ('a',), ('a', 'b'), ('z',)), ((), ('b',), ('a', 'z')), (True, False)):
                arg = copy.deepcopy(coll)
                got = filter_collection(arg, only, but, rec)
                c.eq(repr(arg), repr(coll), 'the filtered collection is left as it was')
                c.eq(repr(got), repr(filtered(coll, only, but, rec)), 'filter of %r: only %s but %s recursive %s' % (coll, only, but, rec))
        return (len(batch), repr(batch[0]))
    c.case('collections', (repr(batch[0]), len(batch)), run, transitions=len(batch) * 34)


def flat(d, sep, prefix=''):
    res = []
    for k, v in d.items():
        if isinstance(v, dict):
            res += flat(v, sep, prefix + k + sep)
        else:
            res.append((prefix + k, v))
    return res


def filtered(coll, only, but, rec, top=True):
    if isinstance(coll, dict):
        return {k: filtered(v, only, but, rec, False) if rec else v for k, v in coll.items() if (not only or k in only) and k not in but}
    if isinstance(coll, list) and (rec or top):
        # a list at the top is gone through
        return [filtered(v, only, but, rec, True) for v in coll]
    return coll


# ------------------------------------------------------------------ descendants and paths
def paths_of(v, prefix=()):
    yield prefix, v
    if isinstance(v, dict):
        for k, x in v.items():
            yield from paths_of(x, prefix + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths_of(x, prefix + (i,))


def descend_case(c, batch):
    def run():
        for coll in batch:
            for steps, v in paths_of(coll):
                if steps:
                    c.true(get_descendant(coll, list(steps)) is v or v is None, 'descendant %s of %r' % (steps, coll))
                    c.eq(repr(get_descendant(coll, list(steps))), repr(v), 'descendant %s of %r' % (steps, coll))
                    text = ''.join('[%d]' % s if isinstance(s, int) else '.' + s for s in steps).lstrip('.')
                    c.eq(split_path(text), list(steps), 'path %r' % text)
                    c.eq(repr(get_descendant(coll, text)), repr(v), 'descendant %r of %r' % (text, coll))
                for miss in ('z', 7):
                    c.true(get_descendant(coll, list(steps) + [miss]) is None, 'missing %r' % (steps + (miss,),))
                    c.true(get_descendant(coll, list(steps) + [miss, 'a']) is None, 'missing %r' % (steps + (miss, 'a'),))
                    if not isinstance(v, (dict, list, str)):
                        c.true(get_descendant(coll, list(steps) + ['a']) is None, 'missing child of a leaf %r' % (steps,))
        return (len(batch), repr(batch[0]))
    c.case('descendants', (repr(batch[0]), len(batch)), run, transitions=len(batch))


# ------------------------------------------------------------------ strings
def ref_replace(s, kv):
    """leftmost replacement, the first key of the dictionary first"""
    res, i = '', 0
    while i < len(s):
        for k, v in kv.items():
            if k and s.startswith(k, i):
                res += v
                i += len(k)
                break
        else:
            res += s[i]
            i += 1
    return res


def ref_split(s, dels, strip):
    res, cur = [], ''
    for ch in s:
        if ch in dels:
            res.append(cur)
            cur = ''
        else:
            cur += ch
    res.append(cur)
    return [w.strip() if strip else w for w in res]


def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


SPECIALS = '.^$*+?{}[]\\|()-,; /'


def split_case(c, dels):
    def run():
        alpha = ''.join(sorted(set(dels[:2] + 'a ' + (dels[-1:] or '')))) + 'b'
        for s in words(alpha, 4):
            for strip in (True, False):
                exp = ref_split(s, dels, strip) if dels else [s]
                c.eq(split_string(s, dels, strip), exp, 'split %r with %r (strip %s)' % (s, dels, strip))
        l = ['a' + dels[:1] + 'b', 'c']
        c.eq(list(split_string(l, dels)), [ref_split(x, dels, True) if dels else [x] for x in l], 'split of a list with %r' % dels)
        return dels
    c.case('split', dels, run, transitions=300)


def replace_case(c, kv):
    kv = dict(kv)

    def run():
        arg = dict(kv)
        for s in words('ab.', 4):
            c.eq(multiple_replace(s, arg), ref_replace(s, kv), 'replace %r in %r' % (kv, s))
        c.eq(arg, kv, 'the replacements are left as they were')
        return repr(kv)
    c.case('replace', repr(kv), run, transitions=100)


def misc_case(c, n):
    def run():
        for size in range(1, 5):
            l = list(range(n))
            c.eq([list(p) for p in grouper(size, iter(l))], [l[i:i + size] for i in range(0, n, size)], 'pages of %d' % size)
        for v, e in ((None, None), ([n], [n]), ((n,), [n]), (n, [n]), ('ab', ['ab']), (collections.deque([n]), [n])):
            c.eq(to_list(v), e, 'to_list %r' % (v,))
        for s in words('ab', 4):
            for k in range(1, 3):
                c.eq(rreplace(s, 'a', 'Z' * n, k), rev_replace(s, k, 'Z' * n), 'right replacement in %r' % s)
            c.eq(shorten(s, n), s if len(s) <= n else s[:n] + '...', 'shorten %r' % s)
        lf = lazy_format('{0} {x}', ['a'] * n, x='v', to_format=[0, 'x'])
        first = str(lf)
        c.eq(first, '%s %s' % (log_format(['a'] * n), log_format('v')), 'lazy format')
        c.eq(str(lf), first, 'lazy format a second time')
        return n
    c.case('misc', n, run, transitions=100)


def rev_replace(s, k, new):
    out = ''
    for ch in reversed(s):
        if ch == 'a' and k:
            out = new + out
            k -= 1
        else:
            out = ch + out
    return out


def forests(n, k):
    """deep hierarchies: n classes of at most one base each, merged by a last one of up to k bases"""
    for h in itertools.product(*[[()] + [(b,) for b in range(i)] for i in range(n)]):
        for m in range(2, k + 1):
            for last in itertools.permutations(range(n), m):
                yield h + (last,)


def linear_case(c, batch):
    def run():
        n = 0
        for h in batch:
            classes = []
            for i, bs in enumerate(h[:-1]):
                classes.append(type('C%d' % i, tuple(classes[b] for b in bs) or (object,), {}))
            bases = [classes[b] for b in h[-1]]
            k, cls = outcome(type, 'K', tuple(bases), {})
            k2, m = outcome(mro, *bases)
            c.eq(k2, k, 'a linearization exists for %s' % (h,))
            if k == 'ok':
                n += 1
                c.eq([x.__name__ for x in m], [x.__name__ for x in cls.__mro__[1:]], 'linearization of %s' % (h,))
        return n
    c.case('linearization', repr(batch[0]), run, transitions=len(batch))


def batches(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def check(chk):
    th = chk.thorough
    jobs = []
    gs = [g for n in (1, 2, 3) for g in graphs(n)] + (list(graphs(4)) if th else [g for i, g in enumerate(graphs(4)) if not any(k in v for k, v in g.items())])
    jobs += chunked(chk, batches(gs, 200), topo_case)
    hs = [h for n in (1, 2, 3, 4) for h in hierarchies(n)]
    if th:
        hs += [h for h in hierarchies(5) if all(len(b) <= 2 for b in h)]
    jobs += chunked(chk, hs, mro_case)
    jobs += chunked(chk, batches(itertools.chain(forests(5, 3), forests(6, 2), forests(6, 3) if th else ()), 100), linear_case)
    n = 9 if th else 8
    for br in ('()', '[]', '{}', '<>'):
        m = n if br == '()' else n - 2
        jobs += chunked(chk, batches((''.join(t) for k in range(m + 1) for t in itertools.product(br + 'a', repeat=k)), 500), lambda c, b, br=br: bracket_case(c, br, b), 8)
    colls = [x for x in collections_of(2) if isinstance(x, (dict, list))]
    deep = [x for d in ([colls[i]] for i in range(len(colls))) for x in (d, {'a': d[0], 'b': None}, {'b': d}, [None, d[0], 0])]
    jobs += chunked(chk, batches(colls + deep, 100), apply_case)
    jobs += chunked(chk, batches(colls + deep, 200), descend_case)
    dels = [''] + list(SPECIALS) + [a + b for a, b in itertools.permutations(SPECIALS, 2)]
    if th:
        dels += [a + b + d for a, b, d in itertools.permutations(SPECIALS[::2], 3)]
    jobs += chunked(chk, dels, split_case)
    keys = ['a', 'b', 'ab', '.', 'a.']
    kvs = [()] + [tuple((k, v) for k, v in zip(ks, vs)) for m in (1, 2, 3 if th else 2) for ks in itertools.permutations(keys, m)
                  for vs in itertools.product(['', 'b', 'aa'], repeat=m)]
    jobs += chunked(chk, sorted(set(kvs)), replace_case)
    jobs += chunked(chk, range(8), misc_case)
    chk.bounds = ('all dependency graphs of up to 4 nodes, all hierarchies of up to %d classes and all forests of up to 6 merged by one more, all strings of up to %d characters with brackets, all nested collections '
                  'of depth 2-3 and width 2, all pairs of delimiters on all strings of length 4, all dictionaries of up to %d replacements' % (5 if th else 4, n, 3 if th else 2))
    chk.parallel(jobs)
