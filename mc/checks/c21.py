# -*- coding: utf-8 -*-
"""C21: every XML document up to a size, parsed, emitted and parsed again, against ElementTree."""
import itertools
import re
from collections import OrderedDict
from xml.etree import ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from mc.core import outcome, Mismatch, typed, chunked
from ngoschema.utils.xmltodict import parse, unparse, ParsingInterrupted

TAGS = ['a', 'b', 'n:c']
TEXTS = [None, 't', 'x < & "y" é', '  sp\n']
ATTRS = [(), (('k', '1'),), (('k', '<&">'), ('n:l', ''))]


class Node:
    def __init__(self, tag, attrs=(), text=None, children=()):
        self.tag, self.attrs, self.text, self.children = tag, attrs, text, list(children)

    def xml(self, style=0):
        s = '<%s%s' % (self.tag, ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in self.attrs))
        inner = (escape(self.text) if self.text is not None else '')
        if style == 1 and self.text and ']]>' not in self.text:
            inner = '<![CDATA[%s]]>' % self.text
        if style == 2 and self.text:
            h = len(self.text) // 2
            inner = escape(self.text[:h]) + '<!-- note -->' + escape(self.text[h:])
        pad = '\n  ' if style == 3 and self.children and not self.text else ''
        inner += ''.join(pad + c.xml(style) for c in self.children) + (pad and '\n')
        if not inner and style != 1:
            return s + '/>'
        return s + '>' + inner + '</%s>' % self.tag

    def __repr__(self):
        return self.xml()


def trees(n, tags=TAGS, texts=TEXTS, attrs=ATTRS):
    """all the trees of n nodes"""
    for tag in tags:
        for a in attrs:
            for t in texts:
                for f in forests(n - 1, tags, texts, attrs):
                    yield Node(tag, a, t, f)


def forests(n, tags, texts, attrs):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for t in trees(k, tags, texts, attrs):
            for f in forests(n - k, tags, texts, attrs):
                yield [t] + f


def expected(node, strip=True, force=(), force_cdata=False, attr_prefix='@', cdata_key='#text', attribs=True):
    """what the documentation tells: attributes, then text, then children, repeated ones as lists"""
    text = node.text
    if text is not None and strip:
        text = text.strip()
    ats = node.attrs if attribs else ()
    if not ats and not node.children:
        if force_cdata and text:
            return {cdata_key: text}
        return text or ''
    d = {}
    for k, v in ats:
        d[attr_prefix + k] = v
    for c in node.children:
        v = expected(c, strip, force, force_cdata, attr_prefix, cdata_key, attribs)
        if c.tag in d:
            if not isinstance(d[c.tag], list):
                d[c.tag] = [d[c.tag]]
            d[c.tag].append(v)
        else:
            d[c.tag] = [v] if force is True or c.tag in force else v
    if text:
        d[cdata_key] = [text] if force is True else text
    return d


def root(node, **kw):
    v = expected(node, **kw)
    f = kw.get('force', ())
    return {node.tag: [v] if f is True or node.tag in f else v}


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def order(node, d, prefix='@'):
    """children in the order of their first occurrence"""
    if not isinstance(d, dict):
        return
    keys = [k for k in d if not k.startswith((prefix, '#', '='))]
    seen = []
    for c in node.children:
        if c.tag not in seen:
            seen.append(c.tag)
    if keys != seen:
        raise Mismatch('order of the elements: %r instead of %r' % (keys, seen))


OPTIONS = [{}, {'strip': False}, {'force': ('b',)}, {'force': True}, {'force_cdata': True}, {'attr_prefix': '!', 'cdata_key': '=t'}, {'attr_prefix': '_at_', 'cdata_key': '=text'},
           {'attribs': False}]
PARSE = {'strip': 'strip_whitespace', 'force': 'force_list', 'attribs': 'xml_attribs'}
UNPARSE = ({}, {'pretty': True}, {'short_empty_elements': True}, {'pretty': True, 'indent': ' ', 'newl': '\r\n'}, {'full_document': False})


def same_tree(e, f):
    return e.tag == f.tag and e.attrib == f.attrib and (e.text or '') == (f.text or '') and (e.tail or '') == (f.tail or '') \
        and len(e) == len(f) and all(same_tree(x, y) for x, y in zip(e, f))


def strip_tree(e):
    e.text, e.tail = (e.text or '').strip(), (e.tail or '').strip()
    for c in e:
        strip_tree(c)
    return e


def grouped(node):
    """ the document with the elements of a same name together """
    tags = []
    for c in node.children:
        if c.tag not in tags:
            tags.append(c.tag)
    return Node(node.tag, node.attrs, node.text, [grouped(c) for t in tags for c in node.children if c.tag == t])


def wrap(x):
    return '<w xmlns:n="u">%s</w>' % x


def case(chk, node, small):
    def body():
        styles = range(4) if small else (0, 3)
        for style in styles:
            x = node.xml(style)
            for opt in OPTIONS if small and style == 0 else OPTIONS[:1]:
                if style == 3 and opt.get('strip') is False:
                    continue
                got = parse(x, **{PARSE.get(k, k): v for k, v in opt.items()})
                exp = root(node, **opt)
                if plain(got) != exp:
                    raise Mismatch('%s parsed with %r: %r instead of %r' % (x, opt, plain(got), exp))
                order(node, list(got.values())[0] if not isinstance(list(got.values())[0], list) else list(got.values())[0][0], opt.get('attr_prefix', '@'))
        # with other prefixes
        for pre, key in (('!', '=t'), ('_at_', '=text')):
            o = {'attr_prefix': pre, 'cdata_key': key}
            p = parse(x, **o)
            q = parse(unparse(p, **o))
            chk.eq(plain(q), root(node), 'emitted with %s' % o)
        # whatever the way the text is given
        x = node.xml()
        p = parse(x)
        import io
        b = x.encode('utf-8')
        for what, y in (('bytes', b), ('file', io.BytesIO(b)), ('generator', (b[i:i + 3] for i in range(0, len(b), 3)))):
            if parse(y) != p:
                raise Mismatch('%s parsed from %s' % (x, what))
        # emitted and parsed again
        ref = strip_tree(ET.fromstring(wrap(grouped(node).xml())))
        for opt in UNPARSE if small else UNPARSE[:2]:
            before = repr(p)
            y = unparse(p, **opt)
            chk.eq(repr(p), before, 'emitting changes the document')
            q = parse(y)
            if q != p:
                raise Mismatch('%r emitted with %r as %r is %r when parsed again' % (plain(p), opt, y, plain(q)))
            y = re.sub(r'^<\?xml[^>]*\?>', '', y.strip())
            if not same_tree(strip_tree(ET.fromstring(wrap(y))), ref):
                raise Mismatch('%r emitted with %r as %s' % (plain(p), opt, y))
        # streaming
        for depth in (1, 2, 3):
            items = []
            parse(x, item_depth=depth, item_callback=lambda path, item: items.append(([t for t, _ in path], dict(path[-1][1] or {}), item)) or True)
            exp = []

            def walk(n, path):
                path = path + [n.tag]
                if len(path) == depth:
                    exp.append((path, dict(n.attrs), n))
                for c in n.children:
                    walk(c, path)
            walk(node, [])
            if [i[:2] for i in items] != [e[:2] for e in exp]:
                raise Mismatch('items of depth %d: %r instead of %r' % (depth, [i[:2] for i in items], [e[:2] for e in exp]))
            for (_, _, item), (_, _, n) in zip(items, exp):
                if not n.children and plain(item) != (None if n.text is None else n.text):
                    raise Mismatch('item of depth %d of %s: %r' % (depth, x, item))
                if n.children:
                    e = expected(Node(n.tag, (), None, n.children))
                    chk.eq({k: v for k, v in plain(item).items() if k[0] not in '@#'}, e, 'children of the item')
            for stop in range(1, len(exp)):
                seen = []

                def until(path, item):
                    seen.append(item)
                    return len(seen) < stop
                r = outcome(parse, x, item_depth=depth, item_callback=until)
                if not isinstance(r[1], ParsingInterrupted) or len(seen) != stop:
                    raise Mismatch('stopping after %d items: %r, %d items' % (stop, r, len(seen)))
        return repr(plain(p))
    chk.case('xml', (repr(node),), body, transitions=12)


def mixed(chk):
    """no text is lost when mixed with elements"""
    parts = ['', ' ', 'x', 'y ']
    for n in (1, 2, 3):
        for texts in itertools.product(parts, repeat=n + 1):
            for attr in ('', ' k="1"'):
                def body():
                    x = '<a%s>' % attr + texts[0] + ''.join('<b/>' + t for t in texts[1:]) + '</a>'
                    d = parse(x)['a']
                    got = ''.join(d.get(k, '') for k in ('#text', '#tail'))
                    chk.eq(sorted(got.replace(' ', '')), sorted(''.join(texts).replace(' ', '')), 'text of %s' % x)
                    b = d['b']
                    chk.eq(len(b) if isinstance(b, list) else 1, n, 'elements')
                    chk.eq(parse(unparse({'a': d}))['a'].get('b'), b, 'elements emitted')
                chk.case('mixed', (attr, texts), body, transitions=2)


SCALARS = [None, True, False, 0, 3, 2.5, 'txt', '', [], [1], [1, 'z'], [None, True], {'@k': 1}, {'@k': True, '#text': 'v'}, {'c': [1, {'d': None}]}, (1, 2)]


def text_of(v):
    return '' if v is None else 'true' if v is True else 'false' if v is False else str(v)


def emit_values(chk):
    def exp(v):
        if isinstance(v, dict):
            out = {}
            for k, x in v.items():
                if k[0] == '@':
                    out[k] = str(x)
                elif k == '#text':
                    if x:
                        out[k] = x
                else:
                    y = exp(x)
                    if y is not NotImplemented:
                        out[k] = y
            return out or ''
        if isinstance(v, (list, tuple)):
            return NotImplemented if not v else exp(v[0]) if len(v) == 1 else [exp(x) for x in v]
        return text_of(v)
    for a, b in itertools.product(SCALARS, repeat=2):
        def body():
            d = OrderedDict([('r', OrderedDict([('p', a), ('q', b)]))])
            e = exp(d)
            y = unparse(d)
            got = plain(parse(y))
            chk.eq(got, {'r': e['r']}, 'values emitted as %s' % y)
        chk.case('emit', (repr(a), repr(b)), body, transitions=1)
    # one root
    for d, ok in (({}, False), ({'a': 1, 'b': 2}, False), ({'a': [1, 2]}, False), ({'a': [1]}, True), ({'a': None}, True)):
        chk.case('root', (repr(d),), lambda: chk.eq(outcome(unparse, d)[0], 'ok' if ok else 'err', 'document'))


def namespaces(chk):
    docs = ['<x:a xmlns:x="u" x:k="1"><x:b/><c/></x:a>', '<a xmlns="u"><b xmlns="v">t</b></a>', '<a xmlns:x="u" xmlns:y="v"><x:b y:k="2"/><y:b/></a>']
    names = [None, {'u': 'short'}, {'u': None}, {'v': 'w'}]
    docs += [d.replace('"u"', '"http://u.org/a:b"').replace('"v"', '"urn:v"') for d in docs]
    names += [{'http://u.org/a:b': 'short'}, {'http://u.org/a:b': None, 'urn:v': 'w'}, {'http://u.org/a:b': 's:t', 'http': 'bad'}]
    for x, ns, sep in itertools.product(docs, names, (':', '|')):
        def body():
            got = parse(x, process_namespaces=True, namespaces=ns, namespace_separator=sep)

            def name(full):
                u, _, n = full[1:].rpartition('}') if full[0] == '{' else ('', '', full)
                if not u:
                    return n
                s = (ns or {}).get(u, u)
                return n if not s else s + sep + n

            def conv(e):
                d = {}
                for k, v in e.attrib.items():
                    d['@' + name(k)] = v
                for c in e:
                    v = conv(c)
                    if name(c.tag) in d:
                        d[name(c.tag)] = [d[name(c.tag)], v]
                    else:
                        d[name(c.tag)] = v
                if (e.text or '').strip() and d:
                    d['#text'] = e.text
                return d or e.text or ''
            r = ET.fromstring(x)

            def clean(v):
                if isinstance(v, dict):
                    return {k: clean(y) for k, y in v.items() if k != '@xmlns'}
                return [clean(y) for y in v] if isinstance(v, list) else v
            chk.eq(clean(plain(got)), {name(r.tag): conv(r)}, 'namespaces of %s' % x)
        chk.case('namespaces', (x, repr(ns), sep), body)


def long_texts(chk):
    """texts longer than the buffer of the parser, with spaces, entities and comments anywhere around its limits"""
    B = 8192
    sizes = [B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 5]
    for n, off, attr, kind in itertools.product(sizes, (-1, 0, 1), ('', ' k="1"'), ('space', 'amp', 'comment', 'cdata', 'plain')):
        def body():
            i = min(n - 2, (n // B * B or n - 100) + off)
            mid = {'space': ' ', 'amp': '&', 'comment': '', 'cdata': '<', 'plain': 'p'}[kind]
            src = {'space': ' ', 'amp': '&amp;', 'comment': '<!-- c -->', 'cdata': '<![CDATA[<]]>', 'plain': 'p'}[kind]
            a, b = ''.join(chr(97 + k % 26) for k in range(i)), ''.join(chr(65 + k % 26) for k in range(n - i))
            x = '<a%s>%s%s%s</a>' % (attr, a, src, b)
            for y in (x, x.encode('utf-8'), (x.encode('utf-8')[k:k + 1000] for k in range(0, len(x), 1000))):
                got = parse(y)['a']
                chk.eq(got['#text'] if attr else got, a + mid + b, 'text')
                chk.true(not attr or sorted(got) == ['#text', '@k'], 'keys')
            chk.eq(parse(unparse(parse(x))), parse(x), 'emitted and parsed again')
            x = '<a%s>%s%s<b/>%s</a>' % (attr, a, src, b)
            got = parse(x)['a']
            chk.eq((got['#text'], got['#tail']), ((a + mid).strip(), b), 'text and its end')
        chk.case('long', (n, off, attr, kind), body, transitions=5)


def comments_and_entities(chk):
    spots = ['', '<!-- c -->', '<!--d-->']
    for a, b, c, on in itertools.product(spots, spots, spots, (True, False)):
        def body():
            x = '<r><a>%s1%s</a>%s<b>2</b></r>' % (a, b, c)
            got = plain(parse(x, process_comments=on))
            cs = lambda *l: [y[4:-3].strip() for y in l if y]
            exp = {'r': {'a': '1', 'b': '2'}}
            if on:
                one = lambda l: l[0] if len(l) == 1 else l
                if cs(a, b):
                    exp['r']['a'] = {'#comment': one(cs(a, b)), '#text': '1'}
                if cs(c):
                    exp['r']['#comment'] = one(cs(c))
            chk.eq(got, exp, 'comments of %s' % x)
        chk.case('comments', (a, b, c, on), body)
    for dtd in ('<!ENTITY x "boom">', '<!ENTITY y "b"><!ENTITY x "&y;&y;boom">', '<!ENTITY x SYSTEM "file:///etc/hostname">'):
        for place in ('<a>&x;</a>', '<a>t&x;u</a>', '<a><b>&x;</b></a>'):
            def body():
                x = '<!DOCTYPE a [%s]>%s' % (dtd, place)
                k, v = outcome(parse, x)
                chk.true(k == 'err' or 'boom' not in repr(v), 'an entity is expanded: %r' % (v,))
                if k == 'ok':
                    chk.eq(plain(v), plain(parse(place.replace('&x;', ''))), 'entities are left out')
                if 'SYSTEM' not in dtd:
                    chk.true('boom' in repr(parse(x, disable_entities=False)), 'entities are expanded when asked for')
            chk.case('entities', (dtd, place), body)


def processors(chk):
    for n in (1, 2, 3):
        for node in trees(n, TAGS[:2], TEXTS[:2], ATTRS[:2]):
            def body():
                # a postprocessor sees every key once its value is complete, with its path
                seen = []

                def post(path, k, v):
                    seen.append(('/'.join(t for t, _ in path), k))
                    return k.upper(), v
                x = node.xml()
                got = parse(x, postprocessor=post)
                up = lambda v: {k.upper(): up(y) for k, y in v.items()} if isinstance(v, dict) else [up(y) for y in v] if isinstance(v, list) else v
                chk.eq(plain(got), up(root(node)), 'keys changed in %s' % x)
                # one which drops what it does not want
                got = parse(x, postprocessor=lambda p, k, v: None if k == 'b' else (k, v))
                if node.tag != 'b':
                    def without(nd):
                        return Node(nd.tag, nd.attrs, nd.text, [without(y) for y in nd.children if y.tag != 'b'])
                    chk.eq(plain(got), root(without(node)), 'without b of %s' % x)
                # the same when emitting
                p = parse(x)
                y = unparse(p, preprocessor=lambda k, v: None if k == 'b' else (k, v)) if node.tag != 'b' else None
                if y:
                    chk.eq(plain(parse(y)), root(without(node)), 'emitted without b of %s' % x)
            chk.case('processors', (repr(node),), body, transitions=3)


def check(chk):
    items = []
    for n, tags, texts, attrs in ((1, TAGS, TEXTS, ATTRS), (2, TAGS, TEXTS[:3], ATTRS), (3, TAGS[:2], TEXTS[:2], ATTRS[:2]), (4, TAGS[:2], TEXTS[:2], ATTRS[:1])) \
            + (((3, TAGS, TEXTS[:2], ATTRS[1:]), (4, TAGS[:2], TEXTS[:2], ATTRS[:2]), (5, TAGS[:2], TEXTS[:1], ATTRS[:2])) if chk.thorough else ()):
        items += [(t, n < 3) for t in trees(n, tags, texts, attrs)]
    chk.bounds = {'documents': len(items), 'nodes': 5 if chk.thorough else 4, 'options': len(OPTIONS)}
    chk.parallel(chunked(chk, items, lambda c, it: case(c, it[0], it[1])))
    mixed(chk)
    emit_values(chk)
    namespaces(chk)
    long_texts(chk)
    comments_and_entities(chk)
    processors(chk)
