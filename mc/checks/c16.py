# -*- coding: utf-8 -*-
"""C16: types referring to and extending each other are what their definitions say, whichever is loaded first."""
import copy
import itertools

from mc.core import chunked, explore_sequences, outcome, Mismatch
from mc.real import forget_namespaces
from ngoschema.protocols import SchemaMetaclass
from ngoschema.loaders.schemas import load_schema
from ngoschema.managers.type_builder import type_builder

INT = {'type': 'integer', 'minimum': 0}
# an object with a link to another definition, or a definition which is not an object
OBJ = ['prop', 'propS', 'propD', 'items', 'tupl', 'addl', 'pattern', 'inline', 'ext', 'extInl']
OTHER = ['arr', 'arrS', 'arrT', 'ref', 'refS']
FEW = ['prop', 'propS', 'propD', 'items', 'ref', 'ext', 'extInl', 'refS']
_count = itertools.count()


class Doc:
    """definitions, where they are, and what they stand for"""

    def __init__(self, bodies, split):
        self.bodies = bodies                     # name -> (kind, target)
        n = next(_count)
        self.uri = {x: 'https://c16.org/d%d%s' % (n, x if split else '') for x in bodies}
        self.defs = {}
        for x in bodies:
            self.defs[x] = None
        for x in bodies:
            self.defs[x] = self.body(x)

    def id(self, x):
        return '%s#/$defs/%s' % (self.uri[x], x)

    def ref(self, x, target):
        return '#/$defs/%s' % target if self.uri[x] == self.uri[target] else self.id(target)

    def final(self, x, seen=()):
        """the definition a definition stands for, through references"""
        k, t = self.bodies[x]
        if k in ('ref', 'refS'):
            return 'cycle' if t in seen + (x,) else self.final(t, seen + (x,))
        return x

    def sort(self, x):
        f = self.final(x)
        if f == 'cycle':
            return None
        k = self.bodies[f][0]
        return 'arr' if k in ('arr', 'arrS', 'arrT') else 'int' if k == 'int' else 'obj'

    def siblings(self, x):
        return copy.deepcopy({'obj': {'properties': {'s': dict(INT, maximum=9)}}, 'arr': {'uniqueItems': True},
                              'int': {'maximum': 9}, None: {'description': 'd'}}[self.sort(x)])

    def body(self, x):
        k, t = self.bodies[x]
        if k == 'int':
            return dict(INT)
        r = {'$ref': self.ref(x, t)} if t else None
        if k == 'ref':
            return r
        if k == 'refS':
            return dict(r, **self.siblings(t))
        if k == 'arr':
            return {'type': 'array', 'items': r}
        if k == 'arrS':
            return {'type': 'array', 'items': dict(r, **self.siblings(t)), 'uniqueItems': True}
        if k == 'arrT':
            return {'type': 'array', 'items': [dict(INT), r]}
        b = {'type': 'object', 'properties': {'v%s' % x: dict(INT)}}
        if k == 'prop':
            b['properties']['l'] = r
        elif k == 'propS':
            b['properties']['l'] = dict(r, **self.siblings(t))
        elif k == 'propD':
            b['properties']['l'] = dict(r, default={'obj': {}, 'arr': [], 'int': 7, None: None}[self.sort(t)])
            if self.sort(t) == 'obj':
                b['properties']['l']['default'] = {'y': 7}
                b['properties']['l']['properties'] = {'y': dict(INT)}
        elif k == 'items':
            b['properties']['l'] = {'type': 'array', 'items': r}
        elif k == 'tupl':
            b['properties']['l'] = {'type': 'array', 'items': [dict(INT), r]}
        elif k == 'addl':
            b['additionalProperties'] = r
        elif k == 'pattern':
            b['patternProperties'] = {'^q': r}
        elif k == 'inline':
            b['properties']['l'] = {'type': 'object', 'properties': {'w': dict(INT), 'm': r}}
        elif k == 'ext':
            b['extends'] = [r['$ref']]
        elif k == 'extInl':
            b['properties']['l'] = {'type': 'object', 'properties': {'e': dict(INT)}, 'extends': [r['$ref']]}
        return b

    # ---------------------------------------------------------------- what the definitions say
    def possible(self):
        """an object extends an object"""
        for x in self.bodies:
            # a default holding itself has no end
            y, seen = x, []
            while self.bodies[y][0] in ('propD', 'ref', 'refS', 'ext') and y not in seen:
                seen.append(y)
                y = self.bodies[y][1]
            if y in seen and any(self.bodies[z][0] == 'propD' for z in seen[seen.index(y):]):
                return False
        return all(k not in ('ext', 'extInl') or self.sort(t) in ('obj', None) for k, t in self.bodies.values())

    def broken(self, x, seen=()):
        """a definition only made of itself"""
        k, t = self.bodies[x]
        if k not in ('ref', 'refS', 'ext'):
            return False
        return x in seen or self.broken(t, seen + (x,))

    def reaches_broken(self, x):
        todo, seen = [x], set()
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if self.broken(y):
                return True
            if self.bodies[y][1]:
                todo.append(self.bodies[y][1])
        return False

    def view(self, x):
        """('int', rules) | ('obj', properties, rest) | ('arr', items, rules): the definition, merged"""
        return self.view_of(self.defs[x])

    def target(self, ref):
        return ref.rsplit('/', 1)[1]

    def view_of(self, sch):
        if '$ref' in sch:
            v = self.view(self.target(sch['$ref']))
            if v[0] == 'obj':
                return ('obj', dict(v[1], **sch.get('properties', {})), v[2])
            rules = dict(v[-1], **{k: w for k, w in sch.items() if k in ('maximum', 'uniqueItems')})
            return (v[0], v[1], rules) if v[0] == 'arr' else ('int', rules)
        if sch['type'] == 'integer':
            return ('int', sch)
        if sch['type'] == 'array':
            return ('arr', sch['items'], {k: w for k, w in sch.items() if k == 'uniqueItems'})
        props, rest = {}, {}
        for e in sch.get('extends', []):
            v = self.view(self.target(e))
            props.update(v[1])
            rest.update({k: w for k, w in v[2].items() if k == 'q'})
        props.update(sch['properties'])
        if 'additionalProperties' in sch:
            rest['x'] = sch['additionalProperties']
        if 'patternProperties' in sch:
            rest['q'] = sch['patternProperties']['^q']
        return ('obj', props, rest)

    def data(self, sch, depth, counter, bad=None):
        """a value of the schema, as given and as it has to be read (the leaf number `bad` is not acceptable)"""
        v = self.view_of(sch)
        if v[0] == 'int':
            n = next(counter)
            if n == bad:
                return 'bad', None
            if n + 1 == -(bad or 0):
                return -1, None
            n = 1 + n % 8
            return str(n), n
        if v[0] == 'arr':
            if depth <= 0:
                return [], []
            items = v[1] if isinstance(v[1], list) else [v[1]] * 2
            d = [self.data(i, depth - 1, counter, bad) for i in items]
            if not isinstance(v[1], list) and d[0] == d[1]:
                d = d[:1]
            return [a for a, b in d], [b for a, b in d]
        # an object
        raw, exp = {}, {}
        for k, s in list(v[1].items()) + [(k + 'n', s) for k, s in v[2].items()]:
            if depth <= 0 and self.view_of(s)[0] != 'int':
                continue
            raw[k], exp[k] = self.data(s, depth - 1, counter, bad)
        return raw, exp


def plain(v):
    if isinstance(v, dict):
        return {k: plain(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    return v


def read(t, sort, raw):
    raw = copy.deepcopy(raw)
    if sort == 'int':
        v = t(raw)
        return v
    o = t(**raw) if sort == 'obj' else t(raw)
    return plain(o.do_serialize())


def read_items(o):
    """the value, read item by item"""
    if hasattr(o, 'do_serialize'):
        if hasattr(o, 'keys'):
            return {k: read_items(o[k]) for k in o if o[k] is not None}
        return [read_items(o[i]) for i in range(len(o))]
    return o


def use(c, doc, x, t, deep, bads):
    sort = doc.sort(x)
    counter = itertools.count()
    raw, exp = doc.data(doc.defs[x], deep, counter)
    n = next(counter)
    got = read(t, sort, raw)
    c.same(prune(got), prune(exp), '%s of %r' % (x, raw))
    if sort != 'int' and not any(k == 'propD' for k, y in doc.bodies.values()):
        o = t(**copy.deepcopy(raw)) if sort == 'obj' else t(copy.deepcopy(raw))
        got = read_items(o)
        c.eq(prune(got), prune(exp), '%s of %r, item by item' % (x, raw))
    for i in sorted(set((0, n // 2, n - 1))) if bads and n else ():
        for b in (i, -i - 1):
            raw, _ = doc.data(doc.defs[x], deep, itertools.count(), b)
            k, v = outcome(read, t, sort, raw)
            if k == 'ok':
                raise Mismatch('%s accepted %r: %r' % (x, raw, v))
    # the rules beside a reference
    return repr(exp)


def prune(v):
    """without the containers nothing was given for"""
    if isinstance(v, dict):
        r = {k: prune(w) for k, w in v.items()}
        return {k: w for k, w in r.items() if w not in ({}, [])}
    if isinstance(v, list):
        return [prune(w) for w in v]
    return v


def over(doc, x):
    """values which only the rules beside a reference refuse"""
    k, t = doc.bodies[x]
    if k not in ('propS', 'refS', 'arrS'):
        return
    s = doc.sort(t)
    if s == 'obj':
        bad = [{'s': 10}, {'s': 'bad'}]
    elif s == 'int':
        bad = [10]
    else:
        a, _ = doc.data(doc.defs[t], 1, itertools.count())
        if not a or isinstance(doc.view(t)[1], list):
            return
        bad = [[a[0], a[0]]]
    for b in bad:
        yield {'l': b} if k == 'propS' else [b] if k == 'arrS' else b


def one(c, job):
    bodies, split, deep = job
    names = list(bodies)
    doc = Doc(bodies, split)
    if not doc.possible():
        return

    def body():
        forget_namespaces()
        docs = {}
        for x in names:
            docs.setdefault(doc.uri[x], {'$id': doc.uri[x], '$defs': {}})['$defs'][x] = doc.defs[x]
        given = copy.deepcopy(docs)
        for d in docs.values():
            load_schema(d)
        res, types = [], {}
        for x in names:
            k, t = outcome(type_builder.load, doc.id(x))
            if doc.reaches_broken(x):
                c.eq(k, 'err', '%s, only made of itself' % x)
                res.append('broken')
                continue
            if k == 'err':
                raise t
            types[x] = t
            res.append(use(c, doc, x, t, deep, True))
        for x, t in types.items():
            # once all is loaded
            c.true(type_builder.load(doc.id(x)) is t, '%s loaded again is another type' % x)
            use(c, doc, x, t, 2, False)
            k, y = bodies[x]
            if doc.sort(x) == 'int':
                for b in over(doc, x):
                    c.raises(lambda: t(b), Exception, '%s of %r' % (x, b))
                continue
            for b in over(doc, x):
                r = outcome(read, t, doc.sort(x), b)
                c.eq(r[0], 'err', '%s of %r, which the rules beside a reference refuse: %r' % (x, b, r[1]))
            if k == 'propD':
                o = t()
                s = doc.sort(y)
                c.same(o.l.y if s == 'obj' else plain(o.l.do_serialize()) if s == 'arr' else o.l, [] if s == 'arr' else 7, 'the default of %s.l' % x)
            if k == 'ref':
                c.true(t is types[y], '%s and what it refers to (%s) are different types' % (x, y))
            if k in ('ext', 'refS'):
                c.true(issubclass(t, types[y]), '%s does not derive from %s' % (x, y))
                c.true(not issubclass(types[y], t), '%s derives from %s' % (y, x))
            if k == 'prop' and doc.sort(y) != 'int':
                raw, _ = doc.data(doc.defs[x], 2, itertools.count())
                o = t(**raw)
                c.true(type(o.l) is types[y], 'the type of %s.l is %s, not %s' % (x, type(o.l), types[y]))
        c.eq(docs, given, 'the documents, after their types were built')
        return res
    c.case('types-%d%s' % (len(names), '-documents' if split else ''), (bodies, split), body, transitions=8 * len(names))


def bodies_of(names, kinds_obj, kinds_other):
    opts = [('none', None), ('int', None)]
    for k in kinds_obj + kinds_other:
        for t in names:
            opts.append((k, t))
    return opts


# ------------------------------------------------------------------ documents completed after a failure
def repaired(c, job):
    bodies, wrong = job
    names = list(bodies)
    doc = Doc(bodies, False)
    if not doc.possible() or any(doc.broken(x) for x in names):
        return

    def reaches(x, seen=()):
        return x == wrong or x not in seen and bodies[x][1] is not None and reaches(bodies[x][1], seen + (x,))

    def body():
        forget_namespaces()
        uri = doc.uri['A']
        res = []
        for how in ({}, {wrong: {'type': 'object', 'properties': {'w': {'type': 'nope'}}}}):
            load_schema({'$id': uri, '$defs': dict({x: copy.deepcopy(doc.defs[x]) for x in names if x != wrong}, **how)})
            for x in names:
                if reaches(x):
                    c.eq(outcome(type_builder.load, doc.id(x))[0], 'err', '%s, which needs %s' % (x, wrong))
        load_schema({'$id': uri, '$defs': copy.deepcopy(doc.defs)})
        for x in names:
            res.append(use(c, doc, x, type_builder.load(doc.id(x)), 2, False))
        return res
    c.case('completed', (bodies, wrong), body, transitions=6 * len(names))


# ------------------------------------------------------------------ classes of the same name
SCHEMAS = {
    'int': {'p': 'int'},
    'str': {'p': 'str', 'q': 'int'},
    'nested-int': {'p': {'x': 'int'}},
    'nested-str': {'p': {'x': 'str'}, 'q': 'int'},
    'array': {'p': ['int']},
    'array-str': {'p': ['str']},
    'nope': {'p': {'x': 'nope'}},
}
TYPES = {'int': {'type': 'integer'}, 'str': {'type': 'string'}, 'nope': {'type': 'nope'}}


def schema_of(p):
    if isinstance(p, dict):
        return {'type': 'object', 'properties': {k: schema_of(v) for k, v in p.items()}}
    if isinstance(p, list):
        return {'type': 'array', 'items': schema_of(p[0])}
    return dict(TYPES[p])


def sample(p):
    if isinstance(p, dict):
        d = {k: sample(v) for k, v in p.items()}
        return {k: v[0] for k, v in d.items()}, {k: v[1] for k, v in d.items()}
    if isinstance(p, list):
        a, b = sample(p[0])
        return [a, a], [b, b]
    return ('4', 4 if p == 'int' else '4')


NAME_OPS = [('new', s) for s in SCHEMAS] + [('derive-same', 'int'), ('derive-same', 'str'), ('derive-same', 'nope'), ('derive', 'str'),
                                            ('derive-first', 'int'), ('extend', 'int')]


def names_run(c, seq):
    forget_namespaces()
    n = next(_count)
    name, other = 'Same%d' % n, 'Other%d_' % n
    built = []       # (class, properties, name)

    def make(nm, s, bases=(), inherited=None, **more):
        sch = dict({'type': 'object', 'properties': {k: schema_of(v) for k, v in SCHEMAS[s].items()}}, **more)
        given = copy.deepcopy(sch)
        k, cls = outcome(make_class, nm, bases, sch)
        c.eq(sch, given, 'the schema given')
        if s == 'nope':
            c.eq(k, 'err', 'a class of an unknown type')
            return
        if k == 'err':
            raise cls
        built.append((cls, dict(inherited or {}, **SCHEMAS[s]), nm))
    for i, (op, s) in enumerate(seq):
        same = [b for b in built if b[2] == name]
        if op == 'new':
            make(name, s)
        elif not same:
            continue
        elif op == 'derive-same':
            make(name, s, (same[-1][0],), same[-1][1])
        elif op == 'derive':
            make(other + str(i), s, (same[-1][0],), same[-1][1])
        elif op == 'derive-first':
            make(other + str(i), s, (same[0][0],), same[0][1])
        elif seq[:i] and seq[i - 1][0] != 'new' or seq[i - 1][1] == 'nope':
            continue    # the name is free after a failure
        else:
            make(other + str(i), s, (), same[-1][1], extends=[name])
    res = []
    for i, (cls, props, nm) in enumerate(built):
        raw, exp = sample(props)
        o = cls(**raw)
        got = plain(o.do_serialize())
        c.same(got, exp, 'class %d (%s) of %r' % (i, nm, raw))
        c.eq(read_items(o), exp, 'class %d (%s) of %r, item by item' % (i, nm, raw))
        c.eq(sorted(k for k in cls()), sorted(props), 'the properties of class %d' % i)
        for j, (b, _, _) in enumerate(built):
            if i != j and issubclass(cls, b):
                c.true(set(built[j][1]) <= set(props), 'class %d derives from class %d' % (i, j))
        res.append(repr(exp))
    return res


def make_class(nm, bases, sch):
    return SchemaMetaclass(nm, bases, {'_schema': sch})


def check(chk):
    jobs = []
    names = ['A', 'B']
    for b in itertools.product(bodies_of(names, OBJ, OTHER), repeat=2):
        for split in (False, True):
            jobs.append((dict(zip(names, b)), split, 3))
    names = ['A', 'B', 'C']
    kinds = (OBJ, OTHER) if chk.thorough else ([k for k in OBJ if k in FEW], [k for k in OTHER if k in FEW])
    for b in itertools.product(bodies_of(names, *kinds), repeat=3):
        # what A does not reach, with a single other definition, is covered by pairs
        reached, todo = set(), ['A']
        while todo:
            y = todo.pop()
            if y not in reached:
                reached.add(y)
                t = dict(zip(names, b))[y][1]
                if t:
                    todo.append(t)
        if len(reached) < 3:
            continue
        jobs.append((dict(zip(names, b)), False, 2))
    chk.bounds = {'definitions': 3, 'links': OBJ + OTHER, 'configurations': len(jobs)}
    names = ['A', 'B']
    rep = [(dict(zip(names, b)), w) for b in itertools.product(bodies_of(names, OBJ, OTHER), repeat=2) for w in names]
    chk.parallel(chunked(chk, jobs, one) + chunked(chk, rep, repaired)
                 + explore_sequences(chk, 'names', NAME_OPS, 4 if chk.thorough else 3, lambda seq: names_run(chk, seq)))
