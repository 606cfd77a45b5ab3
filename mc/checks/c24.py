# -*- coding: utf-8 -*-
"""C24: files of registered modules, templates and schema documents are found under the names they were registered with."""
import importlib
import itertools
import json
import os
import shutil
import sys
import tempfile
from urllib.parse import quote

from mc.core import explore_sequences, outcome, chunked
from ngoschema.loaders import templates_module_loader
from ngoschema.loaders.module import GenericModuleFileLoader, load_module_schemas
from ngoschema.loaders.schemas import load_schema, load_schema_file
from ngoschema.resolvers.uri_resolver import UriResolver, resolve_uri, resolve_doc
from ngoschema.utils.jinja2 import default_jinja2_env
from ngoschema.managers.type_builder import type_builder

# files of the packages (P is the name of the package)
FILES = {
    'P': {'templates/a.j2': 'P a {{ x }}', 'templates/d/b.j2': '{% include "P/a.j2" %}!', 'templates/only.j2': 'P only', 'templates/ext.j2': '{% extends "P/base.j2" %}{% block k %}{{ x + 1 }}{% endblock %}',
          'templates/base.j2': '[{% block k %}{% endblock %}]', 'other/a.j2': 'P other a', 'other/c.j2': 'P c {{ x }}', 'res/deep/e.j2': 'P e', 'res/deep/a.j2': 'P deep a'},
    'P.sub': {'templates/a.j2': 'P.sub a {{ x }}', 'templates/s.j2': '{% include "P/a.j2" %}{% include "P.sub/a.j2" %}', 'other/s.j2': 'P.sub other s'},
    'Q': {'templates/a.j2': 'Q a {{ x }}', 'templates/q.j2': '{% import "P/m.j2" as m %}{{ m.f(x) }}', 'other/a.j2': 'Q other', 'other/z.j2': 'Q z'},
    'N': {},
}
FILES['P']['templates/m.j2'] = '{% macro f(v) %}<{{ v }}>{% endmacro %}'
REGISTER = [('P', None), ('P', 'other'), ('P', 'res/deep'), ('P.sub', None), ('P.sub', 'other'), ('Q', None), ('Q', 'other'), ('N', None), ('missing', None), ('P', 'nowhere')]
NAMES = sorted({f.split('/', 1)[1] for fs in FILES.values() for f in fs if not f.startswith('res')} | {'e.j2', 'nothing.j2', 'd/nothing.j2'})


class Packages:
    """packages on the disk, in a scratch directory, with names of their own"""
    count = itertools.count()

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='c24-')
        self.n = 'c24p%d_%d' % (os.getpid(), next(self.count))
        for m, files in FILES.items():
            self.write(self.name(m).replace('.', '/') + '/__init__.py', '')
            for f, text in files.items():
                self.write(self.name(m).replace('.', '/') + '/' + f, self.text(text))
        sys.path.insert(0, self.dir)
        importlib.invalidate_caches()
        return self

    def __exit__(self, *args):
        sys.path.remove(self.dir)
        for m in [m for m in sys.modules if m.startswith(self.n)]:
            del sys.modules[m]
        shutil.rmtree(self.dir)

    def name(self, m):
        return self.n + m

    def text(self, text):
        return text.replace('"P', '"' + self.n + 'P')

    def write(self, path, text):
        path = os.path.join(self.dir, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)

    def folder(self, m, sub):
        return os.path.join(os.path.realpath(self.dir), *(self.name(m).split('.') + sub.split('/')))


def has(m, sub):
    return any(f.startswith(sub + '/') for f in FILES.get(m, {}))


def find(reg, m, name):
    """(module, file) found in the folders of a module, None for all"""
    for mm, subs in reg.items():
        if m in (None, mm):
            for s in subs:
                if s + '/' + name in FILES[mm]:
                    return mm, s + '/' + name
    return None


def render(reg, name, x=7):
    """the text of a template"""
    m, rest = name.split('/', 1)
    got = find(reg, m, rest)
    if got is None:
        return None
    src = FILES[got[0]][got[1]]
    parts = {'{% include "P/a.j2" %}': lambda: render(reg, 'P/a.j2'), '{% include "P.sub/a.j2" %}': lambda: render(reg, 'P.sub/a.j2'), '{{ x }}': lambda: str(x)}
    if 'extends' in src:
        return None if render(reg, 'P/base.j2') is None else '[%s]' % (x + 1)
    if 'import' in src:
        return None if find(reg, 'P', 'm.j2') is None else '<%s>' % x
    if 'macro' in src:
        return ''
    src = src.replace('{% block k %}{% endblock %}', '')
    for k, f in parts.items():
        if k in src:
            v = f()
            if v is None:
                return None
            src = src.replace(k, v)
    return src


def registrations(chk, seq, templates):
    with Packages() as p:
        loader = templates_module_loader if templates else GenericModuleFileLoader('templates')
        reg = {}
        for m, sub in seq:
            got = outcome(loader.register, p.name(m), sub)
            if m == 'missing':
                chk.true(got[0] == 'err' and isinstance(got[1], ImportError), 'a missing module: %r' % (got,))
                continue
            s = sub or 'templates'
            chk.eq((got[0], str(got[1])), ('ok', p.folder(m, s)), 'folder of %s' % m)
            if has(m, s) and s not in reg.setdefault(m, []):
                reg[m].append(s)
            reg = {k: v for k, v in reg.items() if v}
        mine = {k: [str(f) for f in v] for k, v in loader.items() if k.startswith(p.n)}
        chk.eq(mine, {p.name(m): [p.folder(m, s) for s in subs] for m, subs in reg.items()}, 'registered folders')
        chk.eq(list(mine), [p.name(m) for m in reg], 'order of the modules')
        for name in NAMES:
            for m in list(FILES):
                want = find(reg, m, name) if m in reg else find(reg, None, m.replace('P', p.name('P')) + '/' + name)
                for sep in ('/', '\\'):
                    got = loader.find_one(sep.join([p.name(m)] + name.split('/')))
                    chk.eq(got and str(got), want and os.path.join(p.folder(want[0], ''), want[1]), 'find %s of %s' % (name, m))
                if templates:
                    text = render(reg, m + '/' + name)
                    got = outcome(lambda: default_jinja2_env().get_template(p.name(m) + '/' + name).render(x=7))
                    if text is None:
                        chk.true(got[0] == 'err', 'template %s of %s: %r' % (name, m, got))
                    else:
                        chk.eq(got, ('ok', text), 'template %s of %s' % (name, m))
            if not templates:
                want = find(reg, None, name)
                got = loader.find_one(name)
                chk.eq(got and str(got), want and os.path.join(p.folder(want[0], ''), want[1]), 'find %s anywhere' % name)
        return reg


# ------------------------------------------------------------------ documents
def doc(n):
    return {'$defs': {'A': {'type': 'integer', 'maximum': n}, 'x/y': {'type': 'string', 'maxLength': n}}, 'v': n}


DOC_OPS = ([('load', key, uri) for key in ('$id', 'id') for uri in ('https://c24.org/D', 'https://c24.org/E', 'c24 local')] +
           [('load', '$id', 'https://c24.org/D#'), ('load', '$id', 'https://C24.org/d'), ('load', 'title', 'C24 Títle!'), ('load', None, None),
            ('file', '$id', 'https://c24.org/D'), ('file', None, 'c24stem'), ('module', '$id', 'https://c24.org/E'), ('unregister', None, 'https://c24.org/D'),
            ('unregister', None, 'HTTPS://C24.ORG/e'), ('unregister', None, 'https://c24.org/none')])
URIS = ['https://c24.org/D', 'https://c24.org/E', 'c24 local', 'c24_title', 'c24stem', 'https://c24.org/none']


def documents(chk, seq, with_store):
    model, store, mine = {}, ({} if with_store else None), {}
    with Packages() as p:
        for n, (act, key, uri) in enumerate(seq):
            d = doc(n + 1)
            if act == 'unregister':
                UriResolver.unregister_doc(uri)
                model.pop(uri.lower(), None)
                continue
            if key:
                d[key] = uri
            name = {'C24 Títle!': 'c24_title'}.get(uri, (uri or '').rstrip('#'))
            if act == 'load':
                if uri is None:
                    got = outcome(load_schema, d, store)
                    chk.true(got[0] == 'err', 'a document without name: %r' % (got,))
                    continue
                got = load_schema(d, store)
                chk.eq(got[0], name, 'name')
                chk.true(got[1] is d, 'the document itself')
            else:
                rel = p.name('Q') + '/schemas/' + ('sub/' if n % 2 else '') + (name if key is None else 'f%d' % n) + '.json'
                p.write(rel, json.dumps(d))
                path = os.path.join(p.dir, rel)
                if act == 'file':
                    got = load_schema_file(path, store)
                    chk.eq(got[0], name, 'name')
                else:
                    p.write(p.name('Q') + '/schemas/broken.json', '{')
                    p.write(p.name('Q') + '/schemas/readme.txt', '{}')
                    got = load_module_schemas(p.name('Q'), store)
                    os.remove(os.path.join(p.dir, p.name('Q') + '/schemas/broken.json'))
                    chk.true(got is (UriResolver.get_doc_store() if store is None else store), 'the store')
                os.remove(path)
                d.setdefault('$id', name)
            model[name.lower()] = mine[name] = d
        if with_store:
            chk.eq({k: json.loads(json.dumps(v)) for k, v in store.items()}, mine, 'the given store')
        for uri in URIS:
            want = model.get(uri.lower())
            for variant in (uri, uri.lower(), uri.upper(), uri + '#', uri + '#/'):
                got = outcome(resolve_uri, variant)
                if want is None:
                    chk.true(got[0] == 'err', '%s is not known: %r' % (variant, got))
                    chk.true(outcome(resolve_doc, variant)[0] == 'err', '%s is not known' % variant)
                    continue
                chk.eq((got[0], json.loads(json.dumps(got[1]))), ('ok', want), 'document %s' % variant)
                chk.eq(resolve_doc(variant), got[1], 'document %s' % variant)
            if want is not None:
                for frag, v in (('$defs/A', want['$defs']['A']), ('/$defs/A/maximum', want['v']), ('/%24defs/x~1y', want['$defs']['x/y']), ('/v', want['v'])):
                    chk.eq(resolve_uri(uri + '#' + frag), v, 'fragment %s of %s' % (frag, uri))
                for frag in ('/$defs/B', '/$defs/A/maximum/0', '/v/v', '/$defs/a', '/$defs/x/y'):
                    chk.true(outcome(resolve_uri, uri + '#' + frag)[0] == 'err', 'fragment %s' % frag)
            else:
                chk.true(outcome(type_builder.load, uri + '#/$defs/A')[0] == 'err', 'type of an unknown document %s' % uri)
        for uri in URIS:
            if uri.lower() in model:
                UriResolver.unregister_doc(uri)
        for uri in URIS:
            chk.true(outcome(resolve_uri, uri)[0] == 'err', '%s is not known anymore' % uri)
    return {k: v['v'] for k, v in model.items()}


# ------------------------------------------------------------------ pointers
KEYS = ['a', 'a/b', 'm~n', '~1', '~0', '%25', 'é ', '0', '-1', '$ref', '#x', 'A']


def values(depth):
    yield 5
    yield None
    yield 'text'
    if depth:
        for k in KEYS:
            for v in values(depth - 1):
                yield {k: v, 'z': [1]}
        for v in values(depth - 1):
            yield [v]
            yield [[], v]
            yield [{}, 'q', v]


def paths(v):
    yield (), v
    if isinstance(v, dict):
        for k in v:
            for p, w in paths(v[k]):
                yield (k,) + p, w
    if isinstance(v, list):
        for k, i in enumerate(v):
            for p, w in paths(i):
                yield (str(k),) + p, w


def escaped(k):
    return k.replace('~', '~0').replace('/', '~1')


def pointers(chk, d):
    existing = dict(paths(d))
    for p, v in paths(d):
        raw = ''.join('/' + escaped(k) for k in p)
        for frag in ('#' + quote(raw, safe='/~$!*\'()+,;=:@'), '#' + quote(raw, safe='/'), '#' + ''.join('%%%02X' % b for b in raw.encode())):
            # (a quoted separator is a separator: quotes are removed first)
            for base in ('', 'https://c24.org/any'):
                chk.true(resolve_uri(base + frag, doc=d) is v, 'pointer %s' % frag)
        for k in ('nothing', '7', 'a', ''):
            if p + (k,) not in existing and (k or p):
                missing = '#' + quote(''.join('/' + escaped(x) for x in p + (k,)), safe='/~')
                got = outcome(resolve_uri, missing, d)
                chk.true(got[0] == 'err' and isinstance(got[1], ValueError), 'missing pointer %s: %r' % (missing, got))


def check(chk):
    d = 4 if chk.thorough else 3
    jobs = []
    for templates in (False, True):
        jobs += explore_sequences(chk, 'templates' if templates else 'files', REGISTER, d if not templates else d - 1, lambda s, t=templates: registrations(chk, s, t))
    for st in (False, True):
        jobs += explore_sequences(chk, 'documents' + (' in a store' if st else ''), DOC_OPS, d, lambda s, st=st: documents(chk, s, st))
    docs = [v for v in values(3 if chk.thorough else 2) if v is not None]
    jobs += chunked(chk, docs, lambda c, v: c.case('pointers', repr(v)[:200], lambda: pointers(c, v), transitions=len(list(paths(v))), state=repr(v)))
    chk.bounds = {'registrations': len(REGISTER), 'documents': len(DOC_OPS), 'depth': d, 'pointed_documents': len(docs)}
    chk.parallel(jobs)
