# -*- coding: utf-8 -*-
"""C15: a URI resolves to the element of the document registered under it at that time."""
import copy
import itertools
from urllib.parse import quote

from mc.core import chunked, explore_sequences, outcome

from ngoschema.loaders.schemas import load_schema
from ngoschema.resolvers.uri_resolver import UriResolver, resolve_uri, resolve_fragment, scope, relative_url
from ngoschema.exceptions import InvalidValue

# ------------------------------------------------------------------ pointers
KEYS = ['a', 'A', 'a/b', 'c~d', '~1', '~01', 'e%20f', ' ', 'é', '0', '-1', '01', 'a#b', '$defs']


def docs():
    """documents with every key, at every position, in dictionaries and lists"""
    for k in KEYS:
        yield {k: 1}
        yield {k: {k: [1, {k: 2}], 'z': None}}
        yield {'x': [[], {}, [{k: 'v'}]], k: False}
    for k, j in itertools.permutations(KEYS, 2):
        yield {k: {j: 1}, j: [{k: 2}, 3]}


def elements(doc, path=()):
    yield path, doc
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield from elements(v, path + (k,))
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from elements(v, path + (i,))


def pointer(path, style):
    parts = [str(p).replace('~', '~0').replace('/', '~1') for p in path]
    if style == 'quoted':
        parts = [quote(p, safe='~') for p in parts]
    else:
        parts = [p.replace('%', '%25') for p in parts]
    return '/' + '/'.join(parts) if parts else ''


def pointer_case(c, doc):
    def run():
        uri = 'https://mc.org/pointers'
        ref = copy.deepcopy(doc)
        UriResolver.register_doc(doc, uri)
        n = 0
        try:
            for path, v in elements(doc):
                for style in ('quoted', 'plain'):
                    p = pointer(path, style)
                    if style == 'plain' and ('#' in p):
                        continue
                    n += 1
                    for what, k, got in [
                            ('resolve_uri', *outcome(resolve_uri, uri + '#' + p)), ('resolve_uri in a document', *outcome(resolve_uri, '#' + p, doc)),
                            ('resolve_fragment', *outcome(resolve_fragment, doc, p)), ('resolve', *outcome(UriResolver._resolve, None, uri + '#' + p))]:
                        c.eq(k, 'ok', '%s %r: %r' % (what, p, got))
                        c.true(got is v, '%s %r gives another element: %r' % (what, p, got))
                # what does not exist
                for miss in ('nope', '99', 'a/nope', 'A'):
                    parent = v
                    if isinstance(parent, dict) and miss in parent:
                        continue
                    p = pointer(path + (miss,), 'quoted')
                    for fn, a in ((resolve_uri, (uri + '#' + p,)), (resolve_uri, ('#' + p, doc)), (resolve_fragment, (doc, p))):
                        k, got = outcome(fn, *a)
                        c.true(k == 'err' and isinstance(got, InvalidValue), 'missing %r of %r gives %r' % (p, doc, got))
            c.eq(doc, ref, 'the document is left as it was')
        finally:
            UriResolver.unregister_doc(uri)
        return (repr(doc), n)
    c.case('pointer', repr(doc), run, transitions=1 + len(list(elements(doc))))


# ------------------------------------------------------------------ registration histories
URIS = ['https://mc.org/d', 'https://mc.org/d/e', 'mc_title']
SPELL = {'https://mc.org/d': ['https://mc.org/d', 'https://mc.org/d#', 'HTTPS://mc.org/D'], 'https://mc.org/d/e': ['https://mc.org/d/e', 'https://mc.org/d/e#'],
         'mc_title': ['mc_title', 'mc_title#']}


def content(uri, n):
    d = {'$defs': {'A': {'n': n, 'uri': uri}}, 'l': [n, {'deep': [uri]}]}
    if n % 2:
        d['odd'] = n
    return d


OPS = [('reg', 0, s) for s in range(3)] + [('reg', 1, 0), ('reg', 1, 1)] + [('load', 0), ('load', 1), ('load', 2)] + \
      [('unreg', 0, 0), ('unreg', 0, 1), ('unreg', 1, 0), ('unreg', 2, 0)] + [('res', 0), ('res', 1), ('res', 2)]


def look(c, state):
    res = []
    for i, u in enumerate(URIS):
        doc = state.get(u)
        for s in SPELL[u]:
            base = s.rstrip('#')
            for frag in ('', '#', '#/$defs/A', '#/l/1/deep/0', '#/odd', '#/$defs/B'):
                k, v = outcome(resolve_uri, base + frag)
                k2, v2 = outcome(UriResolver._resolve, None, base + frag)
                if doc is None:
                    c.eq(k, 'err', '%s resolves to %r although it is not registered' % (base + frag, v))
                    c.true(k2 == 'err' or v2 is None, '%s is resolved to %r although it is not registered' % (base + frag, v2))
                    continue
                exp = {'': doc, '#': doc, '#/$defs/A': doc['$defs']['A'], '#/l/1/deep/0': u, '#/odd': doc.get('odd', 'missing'), '#/$defs/B': 'missing'}[frag]
                if exp == 'missing':
                    c.true(k == 'err' and isinstance(v, InvalidValue), '%s resolves to %r' % (base + frag, v))
                    c.true(k2 == 'err', '%s is resolved to %r' % (base + frag, v2))
                else:
                    c.eq(k, 'ok', '%s: %r' % (base + frag, v))
                    c.true(v is exp or v == exp, '%s resolves to %r instead of %r' % (base + frag, v, exp))
                    c.true(k2 == 'ok' and v2 == exp, '%s is resolved to %r instead of %r' % (base + frag, v2, exp))
            store = UriResolver.get_doc_store()
            c.eq(base in store, doc is not None, '%s in the store' % base)
        res.append(None if doc is None else doc['$defs']['A']['n'])
    return tuple(res)


def history(c, seq):
    state = {}
    try:
        for n, op in enumerate(seq):
            u = URIS[op[1]]
            if op[0] == 'reg':
                state[u] = content(u, n)
                UriResolver.register_doc(state[u], SPELL[u][op[2]])
            elif op[0] == 'load':
                d = content(u, n)
                if op[1] == 2:
                    d['title'] = 'Mc Title'
                else:
                    d['$id'] = SPELL[u][n % 2]
                d['$defs']['A']['loaded'] = True
                store = {}
                uri, got = load_schema(d, store)
                c.eq(uri, u, 'uri of a loaded schema')
                c.true(got is d and store == {u: d}, 'the schema loaded')
                state[u] = d
            elif op[0] == 'unreg':
                UriResolver.unregister_doc(SPELL[u][op[2]])
                state.pop(u, None)
            else:
                look(c, {k: v for k, v in state.items()} if op[1] == 0 else state)
        return look(c, state)
    finally:
        for u in URIS:
            UriResolver.unregister_doc(u)


# ------------------------------------------------------------------ scopes
def scope_case(c, base, ref):
    def run():
        exp = ref if '#' not in ref else (ref if ref.split('#')[0] else base.split('#')[0] + ref)
        c.eq(scope(ref, base), exp, 'scope of %r in %r' % (ref, base))
        c.eq(scope(scope(ref, base), 'https://other.org/x'), scope(ref, base) if not scope(ref, base).startswith('#') else 'https://other.org/x' + ref, 'scope twice')
        return exp
    c.case('scope', (base, ref), run)


def relative_case(c, a, b):
    def run():
        from urllib.parse import urljoin
        r = relative_url(a, b)
        c.eq(urljoin(b, r), a, '%r relative to %r is %r' % (a, b, r))
        c.true(outcome(relative_url, a.replace('//x.org', '//y.org'), b)[0] == 'err', 'a url is not relative to another host')
        return r
    c.case('relative', (a, b), run)


def check(chk):
    th = chk.thorough
    jobs = chunked(chk, docs(), pointer_case)
    d = 3 if not th else 5
    jobs += explore_sequences(chk, 'history', OPS, d, lambda seq: history(chk, seq), split=2 if th else 1)
    bases = ['https://x.org/a', 'https://x.org/a#', 'https://x.org/a#/$defs/A', '#', '', 'https://x.org/a/b#/p', 'https://x.org/a/', 'https://x.org/a/#/p', 'https://x.org/', 'urn:x', 'https://x.org/a?q=1']
    refs = ['#', '#/$defs/B', '#/', 'https://y.org/z', 'https://y.org/z#', 'https://y.org/z#/$defs/C', 'https://x.org/a#/$defs/A', 'name', 'https://y.org/z/', 'https://y.org/z/#/p', '#/a/']
    jobs += chunked(chk, itertools.product(bases, refs), lambda c, x: scope_case(c, *x), 2)
    urls = ['https://x.org/' + p for p in ('a', 'b', 'd/a', 'd/b', 'd/e/a', 'f/e/a', 'f/g/h/i')]
    jobs += chunked(chk, itertools.product(urls, repeat=2), lambda c, x: relative_case(c, *x), 2)
    chk.bounds = ('every element of documents with every key of %d special ones nested in every pair; every history of up to %d registrations (three spellings, schemas by id or '
                  'title), replacements, unregistrations and resolutions of %d documents' % (len(KEYS), d, len(URIS)))
    chk.parallel(jobs)
