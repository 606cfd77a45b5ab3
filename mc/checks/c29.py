# -*- coding: utf-8 -*-
"""C29: a file holds what was written to it, and file objects show the content of the path they have now."""
import hashlib
import os
import shutil
import tempfile

from mc.core import chunked, explore_sequences, outcome
from ngoschema.models.files import Document, File, FileInfo
from ngoschema.protocols.file_loader import FileLoader, FileSaver

OLD = 10 ** 18


class Folder(object):
    """a scratch folder, and what its files should hold"""
    def __init__(self, **files):
        self.path = tempfile.mkdtemp(prefix='c29')
        self.files = {}
        for n, b in files.items():
            self.put(n, b)

    def put(self, name, content):
        with open(self.at(name), 'wb') as f:
            f.write(content)
        self.files[name] = content

    def at(self, name):
        return os.path.join(self.path, name)

    def content(self):
        res = {}
        for r, _, fs in os.walk(self.path):
            for f in fs:
                p = os.path.join(r, f)
                with open(p, 'rb') as fd:
                    res[os.path.relpath(p, self.path)] = fd.read()
        return res

    def __enter__(self):
        return self

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------------ savers
SAVERS = {'utf-8': {}, 'latin-1': {'charset': 'latin-1'}, 'binary': {'binary': True}}
CALLS = {'as it is': {}, 'latin-1': {'charset': 'latin-1'}, 'utf-8': {'charset': 'utf-8'}, 'binary': {'binary': True}, 'text': {'binary': False}}
TEXTS = ['', 'a', 'é\n', 'a\r\nb']


def encoding(saver, call):
    """None: bytes"""
    opts = dict({'binary': False, 'charset': 'utf-8'}, **SAVERS[saver])
    opts.update(CALLS[call])
    return None if opts['binary'] else opts['charset']


def saves(c, saver, alphabet, depth):
    def run(seq):
        with Folder(f=b'start') as d:
            s = FileSaver(**SAVERS[saver])
            for op, name, text, call in seq:
                enc = encoding(saver, call)
                had = d.files.get(name)
                if had is not None and enc:
                    try:
                        had.decode(enc)
                    except UnicodeDecodeError:
                        continue        # what is there has another encoding
                value = text.encode('utf-8') if enc is None else text
                raw = value if enc is None else value.encode(enc)
                path, opts = d.at(name), CALLS[call]
                if op == 'write':
                    if had is not None:
                        os.utime(path, ns=(OLD, OLD))
                    s.write_file(value, path, **opts)
                    d.files[name] = raw
                    if had == raw:
                        c.eq(os.stat(path).st_mtime_ns, OLD, 'time of a file which had this content')
                elif op == 'append':
                    kind, res = outcome(lambda: s.append_file(value, path, **opts))
                    c.eq(kind, 'err' if had is None else 'ok', 'append to %s' % name)
                    if had is not None:
                        d.files[name] = had + raw
                elif op == 'save':
                    c.eq(s.save(text, path, **opts), text, 'saved')
                    d.files[name] = raw
                elif op == 'read':
                    kind, res = outcome(lambda: s.read_file(path, **opts))
                    c.eq(kind, 'err' if had is None else 'ok', 'read %s' % name)
                    if had is not None:
                        c.eq(res, had if enc is None else had.decode(enc), 'read')
                        c.eq(FileLoader(**SAVERS[saver]).load_file(path, **opts) if enc else res, res, 'loaded')
                c.eq(d.content(), d.files, 'files after %s' % (op,))
            return sorted(d.files.items())
    return explore_sequences(c, 'saver %s' % saver, alphabet, depth, run, min_depth=1, split=1)


def ops(saver, th):
    res = []
    for name in ('f', 'new', 'a/b/new'):
        texts = TEXTS if th else TEXTS[2:] + TEXTS[:1] * (name == 'f')
        calls = ['as it is'] + (['latin-1', 'binary'] if saver == 'utf-8' else ['utf-8'] if saver == 'latin-1' else ['text'])
        for text in texts:
            for call in calls if name == 'f' or th else calls[:1]:
                res.append(('write', name, text, call))
                if text:
                    res.append(('append', name, text, call))
        res.append(('read', name, '', 'as it is'))
        if saver != 'binary' and name != 'new':
            res.append(('save', name, 'é', 'as it is'))
    res.append(('read', 'f', '', calls[-1]))
    return res


# ------------------------------------------------------------------ files and documents
def file_objects(chk, kind, depth):
    names = ['f', 'g', None] + (['none'] if kind != 'document' else [])
    alphabet = [('path', n) for n in names] + [('content',), ('identity',), ('read', 'f'), ('read', 'g')]
    if kind != 'document':
        alphabet += [('write', 'f', 'new'), ('write', 'g', 'f1'), ('append', 'g', '+'), ('append', 'f', '+'), ('load',), ('load', 'g'), ('again',)]
    else:
        alphabet += [('name',)]

    def run(seq):
        with Folder(f=b'f1', g=b'g1') as d:
            files = dict(d.files)
            cls = Document if kind == 'document' else File
            if kind == 'bytes':
                o = File(filepath=d.at('f'), binary=True)
            else:
                o = cls(filepath=d.at('f'))
            as_read = (lambda b: b) if kind == 'bytes' else (lambda b: b.decode('utf-8'))
            cur = 'f'

            def content():
                chk.eq(o.contentRaw, as_read(files[cur]) if cur in files else None, 'content of %s' % cur)

            for op in seq:
                if op[0] == 'path':
                    cur = op[1]
                    o.filepath = cur and d.at(cur)
                elif op[0] == 'content':
                    content()
                elif op[0] == 'again':      # the content is read again with the path
                    files[cur] = b'other'
                    if cur:
                        d.put(cur, b'other')
                        o.filepath = d.at(cur)
                    else:
                        del files[cur]
                elif op[0] == 'identity':
                    if kind == 'document':
                        chk.eq(o.identifier, cur and d.at(cur), 'identifier')
                    else:
                        chk.eq([x and str(x) for x in o.identityKeys], [cur and d.at(cur)], 'keys')
                elif op[0] == 'name':
                    if cur:
                        chk.eq(o.filename, cur, 'name of the file')
                elif op[0] == 'read':
                    if op[1] in files:
                        chk.eq(o.read_file(d.at(op[1])), as_read(files[op[1]]), 'read')
                elif op[0] in ('write', 'append'):
                    text = op[2].encode('utf-8')
                    getattr(o, op[0] + '_file')(text if kind == 'bytes' else op[2], d.at(op[1]))
                    files[op[1]] = text if op[0] == 'write' else files[op[1]] + text
                    cur = op[1]
                elif op[0] == 'load':
                    if kind != 'bytes' and (len(op) > 1 or cur in files):
                        n = op[1] if len(op) > 1 else cur
                        chk.eq(o.load(d.at(n)) if len(op) > 1 else o.load(), as_read(files[n]), 'loaded')
                chk.eq(o.filepath and str(o.filepath), cur and d.at(cur), 'path after %s' % (op,))
            content()
            chk.eq(d.content(), files, 'files')
            return cur, sorted(files.items())
    return explore_sequences(chk, kind, alphabet, depth, run, min_depth=1, split=1)


# ------------------------------------------------------------------ facts of a file
SIZES = sorted(set([0, 1, 2, 10, 1000] + [b + e for b in (1024, 2 ** 16, 2 ** 17, 2 ** 20) for e in (-1, 0, 1)]))


def human(n):
    n = float(n)
    for unit in ('bytes', 'KB', 'MB'):
        if n < 1024:
            return '%3.1f %s' % (n, unit)
        n /= 1024


def facts(c, n):
    def run():
        data = bytes((i * 7 + n) % 251 for i in range(min(n, 5000))) + b'x' * max(0, n - 5000)
        with Folder(f=data) as d:
            for order in (('contentSize', 'contentSizeHuman', 'sha1'), ('sha1', 'contentSizeHuman', 'contentSize')):
                i = FileInfo(file=File(filepath=d.at('f'), binary=True))
                for name in order:
                    want = {'contentSize': n, 'contentSizeHuman': human(n), 'sha1': hashlib.sha1(data).hexdigest()}[name]
                    c.eq(getattr(i, name), want, '%s of %d bytes' % (name, n))
    c.case('facts', n, run, transitions=6)


def lists(c, item):
    def run():
        text = item[1].join(str(x) for x in item[0])
        with Folder(f=text.encode()) as d:
            c.eq(FileLoader().load_file(d.at('f'), many=True), [str(x) for x in item[0]], 'loaded')
            c.eq(FileLoader(instanceClass='builtins.int').load_file(d.at('f'), many=True), list(item[0]), 'loaded as integers')
            c.eq(FileSaver(instanceClass=int).load_file(d.at('f'), many=True), list(item[0]), 'loaded as integers')
            if len(item[0]) == 1:
                c.eq(FileLoader(instanceClass='builtins.int').load_file(d.at('f')), item[0][0], 'loaded as an integer')
    c.case('lists', item, run, transitions=4)


def check(chk):
    th = chk.thorough
    jobs = []
    for saver in SAVERS:
        jobs += saves(chk, saver, ops(saver, th), 2)
    for kind in ('file', 'bytes', 'document'):
        jobs += file_objects(chk, kind, 4 if th else 3)
    jobs += chunked(chk, SIZES, facts, 4)
    jobs += chunked(chk, [(v, sep) for sep in (',', ', ', ' , ') for v in ((1,), (1, 2), (30, -4, 5), (0, 0, 0, 7))], lists, 1)
    chk.bounds = 'every sequence of 2 operations of 3 kinds of savers on 3 files, of %d operations of files and documents; %d sizes' % (4 if th else 3, len(SIZES))
    chk.parallel(jobs)
