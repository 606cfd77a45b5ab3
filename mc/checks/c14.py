# -*- coding: utf-8 -*-
"""C14: canonical names and ids designate each other, in the namespaces and documents known at that time."""
import itertools
import re

from mc.core import chunked, explore_sequences, outcome

from ngoschema.managers import NamespaceManager
from ngoschema.resolvers.uri_resolver import UriResolver, scope

N = 'https://numengo.org/'
INT = {'type': 'integer'}


def obj(**props):
    return {'type': 'object', 'properties': props}


DOCS = {
    N + 'mca': {'$defs': {'A': obj(x=INT, sub=obj(y=INT)), 'B-c': obj(**{'u-v': INT, 'b_c': INT}), 'b': obj(z=INT)}, 'properties': {'top': INT}},
    N + 'mca/b': {'$defs': {'A': obj(w=INT), 'D': dict(obj(x=INT), **{'$defs': {'In': obj(q=INT)}})}},
    N + 'mcab': {'definitions': {'A': obj(x=INT, v=INT)}, '$defs': {'E': INT}},
    'https://q.org/mc-r/2020/s': {'$defs': {'A': obj(x=INT), 'b': obj(A=INT)}},
}
URIS = list(DOCS)
CNS = ['mca', 'mca.b', 'mcab', 'q.mc_r_2020.s']
OTHER = {'$defs': {'New': obj(n=INT), 'A': obj(only=INT)}}
LOCALS = [('loc', URIS[0]), ('loc2', URIS[0] + '#/$defs/A'), ('mca', URIS[1]), ('mca.b', URIS[2]), ('lo', URIS[3]), ('loc.x', URIS[3] + '#')]


def clean(n):
    return re.sub('[^a-zA-Z0-9._-]', '', n).replace('-', '_')


def paths(doc):
    """the elements in containers: (path, canonical name)"""
    def rec(d, path, names):
        for k, v in d.items():
            if isinstance(v, dict):
                for n, x in v.items():
                    if isinstance(x, dict):
                        yield path + (k, n), names + (clean(n),)
                        yield from rec(x, path + (k, n), names + (clean(n),))
    return list(rec(doc, (), ()))


def find(doc, names):
    if not names:
        return ()
    if not isinstance(doc, dict):
        return None
    for t in (lambda n: n == names[0], lambda n: clean(n) == names[0]):
        for k, v in doc.items():
            if isinstance(v, dict):
                for n, x in v.items():
                    if t(n):
                        r = find(x, names[1:])
                        if r is not None:
                            return (k, n) + r
    return None


def element(doc, frag):
    for p in frag.strip('/').split('/'):
        if p:
            doc = doc[p]
    return doc


class Model:
    def __init__(self, local):
        self.docs = {}
        self.local = dict(local)
        self.cur, self.cururi = '', '#'
        self.local.setdefault('', '#')

    def id_cname(self, ref):
        if ref.startswith('#'):
            ref = self.cururi.split('#')[0] + ref
        cand = []
        for c, u in self.local.items():
            r = ref[len(u):]
            if ref.startswith(u) and (not r or r[0] == '#' or u[-1] in '#/' or (r[0] == '/' and '#' not in r)):
                cand.append((len(u), c, u))
        best = max(cand, default=(0, None, None))
        doc = ref.split('#')[0]
        if doc in self.docs and best[0] < len(doc):
            best = (len(doc), CNS[URIS.index(doc)], doc)
        _, cn, u = best
        if cn is None or (ref[len(u):][:1] == '/' and '#' not in u):
            # (a document which is not known, in the path of a namespace: any name)
            return None
        names = [clean(n) for n in ref[len(u):].strip('#').strip('/').split('/')[1::2]]
        return '.'.join(([cn] if cn else []) + names)

    def cname_id(self, cn):
        """None: unknown, the id is only a guess"""
        if cn.startswith('.'):
            parts, cn = self.cur.split('.'), cn[1:]
            while cn.startswith('.'):
                parts, cn = parts[:-1], cn[1:]
            cn = '.'.join(parts + [cn])
        cand = dict([(CNS[URIS.index(u)], u) for u in self.docs], **self.local)
        cand = [(len(c), c, u) for c, u in cand.items() if cn == c or cn.startswith(c + '.')]
        if not cand:
            c, u = None, self.cururi
            return None
        _, c, u = max(cand)
        names = [x for x in cn[len(c):].split('.') if x]
        if not names:
            return u
        doc, _, frag = u.partition('#')
        if doc not in self.docs:
            return None
        p = find(element(self.docs[doc], frag), tuple(names))
        if p is None:
            return None
        return u + ('/' if '#' in u else '#/') + '/'.join(p)


def norm(uri):
    return uri.rstrip('#')


QUERY_NAMES = ['mca', 'mca.A', 'mca.A.x', 'mca.A.sub.y', 'mca.B_c', 'mca.B_c.u_v', 'mca.B_c.b_c', 'mca.top', 'mca.b', 'mca.b.z', 'mca.b.A', 'mca.b.A.w', 'mca.b.D.In.q',
               'mca.b.E', 'mcab.A.v', 'mcab.E', 'q.mc_r_2020.s.A.x', 'q.mc_r_2020.s.b.A', 'loc', 'loc.A', 'loc.A.sub', 'loc2', 'loc2.x', 'loc2.sub.y', 'loc.x', 'loc.x.A.x', 'lo',
               'lo.A', 'mca.New.n', '.A', '.A.x', '.b', '..A', 'mcab.A', 'mca.b.A.only', 'mca.A.only']
ALL_IDS = [u + f for u in URIS for f in [''] + ['#/' + '/'.join(p) for p, n in paths(DOCS[u])]] + [URIS[0] + '#', URIS[0] + '#/$defs/New/properties/n',
                                                                                                  '#', '#/$defs/A', '#/$defs/A/properties/x', '#/$defs/New']


def observe(c, mgr, m, only=None):
    res = []
    for i in (ALL_IDS if only is None else only[0]):
        e = m.id_cname(i)
        if e is None:
            continue
        got = mgr.get_id_cname(i)
        c.eq(got, e, 'canonical name of %s (namespaces %s, current %r, documents %s)' % (i, m.local, m.cur, sorted(m.docs)))
        rel = mgr.get_id_cname(i, relative=True)
        exp = e[len(m.cur) + 1:] if m.cur and (e == m.cur or e.startswith(m.cur + '.')) else e
        c.eq(rel, exp, 'relative canonical name of %s in %r' % (i, m.cur))
        res.append(e)
    for n in (QUERY_NAMES if only is None else only[1]):
        if n.startswith('.') and not (m.cur and (n[1] != '.' or '.' in m.cur)):
            continue
        e = m.cname_id(n)
        if e is None:
            continue
        got = mgr.get_cname_id(n)
        full = scope(got, m.cururi) if got.startswith('#') else got
        c.eq(norm(full), norm(e), 'id of %s (namespaces %s, current %r, documents %s)' % (n, m.local, m.cur, sorted(m.docs)))
        # and back: it is the name of the same element
        back = mgr.get_id_cname(got)
        c.eq(back, m.id_cname(got), 'canonical name of the id of %s' % n)
        e2 = m.cname_id(back) if back else None
        if e2 is not None and norm(e2) == norm(e):
            c.eq(norm(scope(mgr.get_cname_id(back), m.cururi)), norm(e), 'id of the canonical name of the id of %s' % n)
        if not n.startswith('.'):
            c.true(n in mgr, '%s is in the namespaces' % n)
        res.append(e)
    if only is None:
        for u in m.docs:
            cn = CNS[URIS.index(u)]
            if m.cname_id(cn) == u and m.id_cname(u) == cn:
                exp = {'%s.%s' % (cn, clean(k)): '%s#/%s/%s' % (u, tag, k) for tag in ('$defs', 'definitions') for k in m.docs[u].get(tag, {})}
                c.eq(dict(mgr.get_cname_definitions(cn)), exp, 'definitions of %s' % cn)
    return tuple(res)


# queries in the middle of a history warm what is remembered: one of the lists each
SOME = {'ids': (ALL_IDS, ()), 'names': ((), QUERY_NAMES)}
OPS = [('reg', i) for i in range(4)] + [('unreg', 0), ('unreg', 1), ('other', 0), ('other', 1)] + [('add', i) for i in range(len(LOCALS))] + \
      [('addname', 1), ('addfrag', 0), ('cur', 'mca.b'), ('cur', 'loc'), ('cur', 'loc2'), ('cur', 'mcab'), ('cur', 'lo'), ('cur', 'mca.b.A'), ('see', 'ids'), ('see', 'names')]


def history(c, start, local, seq):
    m = Model(local)
    try:
        for i in start:
            UriResolver.register_doc(DOCS[URIS[i]], URIS[i])
            m.docs[URIS[i]] = DOCS[URIS[i]]
        mgr = NamespaceManager(**dict(local))
        for op in seq:
            if op[0] == 'reg':
                UriResolver.register_doc(DOCS[URIS[op[1]]], URIS[op[1]])
                m.docs[URIS[op[1]]] = DOCS[URIS[op[1]]]
            elif op[0] == 'unreg':
                UriResolver.unregister_doc(URIS[op[1]])
                m.docs.pop(URIS[op[1]], None)
            elif op[0] == 'other':
                UriResolver.register_doc(OTHER, URIS[op[1]])
                m.docs[URIS[op[1]]] = OTHER
            elif op[0] == 'add':
                n, u = LOCALS[op[1]]
                mgr.add(u, n)
                m.local[n] = u
            elif op[0] == 'addname':
                mgr.add(URIS[op[1]])
                m.local[CNS[op[1]]] = URIS[op[1]]
            elif op[0] == 'addfrag':
                mgr.add(URIS[op[1]] + '#/$defs/A')
                m.local[CNS[op[1]] + '.A'] = URIS[op[1]] + '#/$defs/A'
            elif op[0] == 'cur':
                mgr.set_current(op[1])
                k = max((k for k in m.local if not k or op[1] == k or op[1].startswith(k + '.')), key=len)
                m.cur, m.cururi = k, m.local[k]
                m.local[''] = m.local[k]
                c.eq(mgr.currentNs, m.cur, 'current namespace')
                c.eq(mgr.currentNsUri, m.cururi, 'uri of the current namespace')
            else:
                observe(c, mgr, m, SOME[op[1]])
        return observe(c, mgr, m)
    finally:
        for u in URIS:
            UriResolver.unregister_doc(u)


# ------------------------------------------------------------------ every name and document is found back
def round_trip(c, names):
    def run():
        uri = N + 'mc-trip'
        doc = {'$defs': {n: obj(**{p: obj(**{names[0]: INT}) for p in names}) for n in names}}
        UriResolver.register_doc(doc, uri)
        try:
            mgr = NamespaceManager()
            ids = [uri + '#/' + '/'.join(p) for p, n in paths(doc)]
            cns = [mgr.get_id_cname(i) for i in ids]
            c.eq(len(set(cns)), len(ids), 'names are distinct')
            for i, cn in zip(ids, cns):
                c.eq(mgr.get_cname_id(cn), i, 'id of the canonical name of %s (%s)' % (i, cn))
            return tuple(cns)
        finally:
            UriResolver.unregister_doc(uri)
    c.case('round trip', names, run, transitions=2 * len(names) ** 2)


def check(chk):
    th = chk.thorough
    jobs = []
    d = 2 if not th else 3
    for start in ([(), (0, 1, 2, 3), (0, 1)] if not th else [(), (0, 1, 2, 3), (0, 1), (1, 2), (3,)]):
        for local in [(), (('loc', URIS[0]), ('loc2', URIS[0] + '#/$defs/A'), ('mcab', URIS[2]))]:
            jobs += explore_sequences(chk, 'history/%s/%d' % ('+'.join(map(str, start)), len(local)), OPS, d,
                                      lambda seq, start=start, local=local: history(chk, start, local, seq), split=1)
    names = ['A', 'a', 'b-c', 'items', 'properties', 'x', 'd_e', '1x', 'A-b', 'Z9']
    jobs += chunked(chk, [t for n in (1, 2, 3) for t in itertools.permutations(names, n)], round_trip)
    chk.bounds = ('every history of up to %d operations (registration, replacement and removal of 4 documents with common prefixes, namespaces added under %d names, current namespace, '
                  'queries) from %d initial states; all pairs and triples of %d names in a document' % (d, len(LOCALS), 10 if th else 6, len(names)))
    chk.parallel(jobs)
