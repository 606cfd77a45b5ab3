# -*- coding: utf-8 -*-
"""C08: a class extending others behaves as the class declaring the merged schema; bases are unaffected."""
import copy
import itertools

from mc.core import chunked, outcome, Mismatch, typed
from mc.real import mk, forget_namespaces
from ngoschema.loaders.schemas import load_schema
from ngoschema.managers.type_builder import type_builder

SHAPES = {
    'chain2': [('A', ()), ('B', ('A',))],
    'chain3': [('A', ()), ('B', ('A',)), ('C', ('B',))],
    'merge': [('A', ()), ('B', ()), ('C', ('A', 'B'))],
    'diamond': [('A', ()), ('B', ('A',)), ('C', ('A',)), ('D', ('B', 'C'))],
}
PDEF = {
    'none': None,
    'int': {'type': 'integer', 'minimum': 0},
    'str': {'type': 'string', 'maxLength': 3},
    'dft': {'type': 'integer', 'default': 5},
    'get': {'type': 'integer'},          # with a getter
    'oget': None,                        # only a getter: the property comes from a base
}
FEATURES = {
    'required': {'required': ['p']},
    'readOnly': {'readOnly': ['p']},
    'aliases': {'aliases': {'pa': 'p'}},
    'negated': {'negatedAliases': {'pn': 'a'}},
    'notSerialized': {'notSerialized': ['p']},
    'pattern': {'patternProperties': {'^q_': {'type': 'integer', 'minimum': 0}}},
    'default': {'properties': {'z': {'type': 'integer', 'default': 0}}},
    'raw': {'properties': {'r-w': {'type': 'integer', 'minimum': 0}}},
    'dep': {'properties': {'t': {'type': 'string', 'default': '<{{ a }}>'}}},
    'method': {},
}
INITS = [{}, {'p': '2', 'a': '4'}, {'p': 'ab', 'xA': 1}, {'p': 'long'}, {'p': -1}, {'pa': 3}, {'a': 1, 'q_1': '6', 'pn': 2}, {'q_1': -1}, {'r_w': '3', 't': 'k'}]
OPS = [('set', 'p', '3'), ('set', 'p', 'xyzt'), ('set', 'p', -2), ('set', 'p', 'w'), ('del', 'p', None), ('set', 'a', '8'), ('set', 'a', 'bad'),
       ('set', 'pa', 1), ('set', 'pn', 5), ('item', 'q_1', '7'), ('item', 'q_1', 'u'), ('set', 'r_w', '2'), ('item', 'r-w', -2), ('del', 'z', None),
       ('set', 'z', '9'), ('item', 'xA', '11'), ('item', 'xB', '12')]
NAMES = ['p', 'a', 'pa', 'pn', 'z', 't', 'r_w', 'xA', 'xB', 'xC', 'xD', 'q_1']


def spec(cls, pdef, feature):
    sc = {'type': 'object', 'properties': {'x%s' % cls: {'type': 'integer'}}}
    if cls == 'A' or pdef in ('get', 'oget'):
        sc['properties']['a'] = {'type': 'integer'}
    if PDEF[pdef] is not None:
        sc['properties']['p'] = PDEF[pdef]
    fs = copy.deepcopy(FEATURES[feature]) if feature else {}
    sc['properties'].update(fs.pop('properties', {}))
    sc.update(fs)
    if pdef in ('get', 'oget'):
        sc['dependencies'] = {'p': ['a']}
    return copy.deepcopy(sc)


def methods(cls, pdef, feature):
    ms = {}
    if pdef in ('get', 'oget'):
        n = ord(cls) - ord('A') + 1
        ms['get_p'] = lambda self: (self.a or 0) + n
    if feature == 'method':
        ms['tell'] = lambda self: 'tell%s' % cls
    return ms


def mro(shape, leaf):
    """python's own linearization, on empty classes"""
    cs = {}
    for n, bs in shape:
        cs[n] = type(n, tuple(cs[b] for b in bs), {})
    return [c.__name__ for c in cs[leaf].__mro__[:-1]]


def merged(shape, leaf, specs, meths):
    """the schema the class stands for: the nearest definition of each property, the union of the rules"""
    out = {'type': 'object', 'properties': {}}
    ms = {}
    for n in reversed(mro(shape, leaf)):
        sc = specs[n]
        for k, v in sc.items():
            if k in ('properties', 'aliases', 'negatedAliases', 'patternProperties'):
                out.setdefault(k, {}).update(v)
            elif k in ('required', 'readOnly', 'notSerialized'):
                out[k] = sorted(set(out.get(k, [])) | set(v))
            elif k == 'dependencies':
                out.setdefault(k, {})
                for p, d in v.items():
                    out[k][p] = sorted(set(out[k].get(p, [])) | set(d))
        ms.update(meths[n])
    return copy.deepcopy(out), ms


def configurations(thorough):
    for sname, shape in SHAPES.items():
        n = len(shape)
        if sname == 'diamond':
            pds = [pd for pd in itertools.product(PDEF, repeat=n) if sum(x == 'none' for x in pd) >= (1 if thorough else 2) and 'dft' not in pd]
        else:
            pds = list(itertools.product(PDEF if n == 2 or thorough and sname == 'chain3' else [x for x in PDEF if x != 'dft'], repeat=n))
        for pd in pds:
            d = dict(zip([c for c, _ in shape], pd))
            # an accessor for a property which no base has is a plain method
            if any(d[c] == 'oget' and not any(d[b] not in ('none', 'oget') for b in mro(shape, c)[1:]) for c in d):
                continue
            if sname == 'diamond' and d['C'] != 'none' and d['B'] == 'none' and d['D'] in ('none', 'oget'):
                continue   # the nearest definition is ambiguous
            if sname == 'diamond' and d['B'] == 'oget':
                continue
            if sname == 'merge' and 'oget' in (d['B'], d['A']):
                continue
            # the getter of a base applies to a property redefined below: not a merge of schemas
            yield sname, d


def accessors_consistent(shape, leaf, d):
    """the getter, if any, comes with (or below) the nearest definition of the property"""
    for c in mro(shape, leaf):
        if d[c] in ('get', 'oget'):
            return True
        if d[c] != 'none':
            return not any(d[b] in ('get', 'oget') for b in mro(shape, leaf)[mro(shape, leaf).index(c) + 1:])
    return True


_count = itertools.count()


def build_python(shape, specs, meths):
    cs = {}
    for n, bs in shape:
        cs[n] = mk(specs[n], tuple(cs[b] for b in bs), **meths[n])
    return cs


def build_extends(shape, specs, meths):
    """python classes naming what they extend by id"""
    cs = {}
    tag = 'E%d' % next(_count)
    for n, bs in shape:
        cs[n] = mk(dict(specs[n], extends=['%s%s' % (tag, b) for b in bs]), (), '%s%s' % (tag, n), **meths[n])
    return cs


def build_document(shape, specs, order):
    uri = 'https://c08.org/d%d' % next(_count)
    doc = {'$id': uri, '$defs': {}}
    for n, bs in (reversed(shape) if order else shape):
        doc['$defs'][n] = dict(copy.deepcopy(specs[n]), extends=['#/$defs/%s' % b for b in bs])
        if not bs:
            del doc['$defs'][n]['extends']
    load_schema(doc)
    names = [n for n, _ in (reversed(shape) if order else shape)]
    return {n: type_builder.load('%s#/$defs/%s' % (uri, n)) for n in names}


def apply(o, op):
    k, name, v = op
    if k == 'set':
        setattr(o, name, v)
    elif k == 'item':
        o[name] = v
    else:
        delattr(o, name)


def observe(o, tell):
    res = {}
    for n in NAMES:
        a, b = outcome(lambda: getattr(o, n)), outcome(lambda: o[n])
        res[n] = (typed(a[1]) if a[0] == 'ok' else 'err', typed(b[1]) if b[0] == 'ok' else 'err')
    res['keys'] = sorted(o)
    s = outcome(o.do_serialize, no_defaults=False)
    res['ser'] = typed(dict(s[1])) if s[0] == 'ok' else ('err', type(s[1]).__name__)
    if tell:
        res['tell'] = outcome(lambda: o.tell())[1].__str__()
    return res


def compare(c, real, flat, init, ops, tell):
    a, b = outcome(lambda: real(**copy.deepcopy(init))), outcome(lambda: flat(**copy.deepcopy(init)))
    if a[0] != b[0] or (a[0] == 'err' and type(a[1]) is not type(b[1])):
        raise Mismatch('construction with %r: %r, of the merged schema: %r' % (init, a, b))
    if a[0] == 'err':
        return 'err'
    a, b = a[1], b[1]
    for op in ops:
        x, y = outcome(apply, a, op), outcome(apply, b, op)
        if x[0] != y[0] or (x[0] == 'err' and type(x[1]) is not type(y[1])):
            raise Mismatch('%r: %r, with the merged schema: %r' % (op, x, y))
    x, y = observe(a, tell), observe(b, tell)
    for k in y:
        if x[k] != y[k]:
            raise Mismatch('%s: %r, with the merged schema: %r' % (k, x[k], y[k]))
    return sorted(y.items())


def check(chk):
    feats = [None] + list(FEATURES)
    jobs = []
    for sname, d in configurations(chk.thorough):
        few = [x in ('none', 'int') for x in d.values()]
        for f in feats:
            if f is not None and not all(few) and (sname == 'diamond' or 'dft' in d.values() or few.count(False) > 1 if chk.thorough else sname != 'chain2') and len(d) > 2:
                continue
            for where in (['A'] if f is None else [n for n, _ in SHAPES[sname]]):
                jobs.append((sname, d, f, where))

    def one(c, job):
        sname, d, f, where = job
        shape = SHAPES[sname]
        leaf = shape[-1][0]
        specs = {n: spec(n, d[n], f if n == where else None) for n, _ in shape}
        meths = {n: methods(n, d[n], f if n == where else None) for n, _ in shape}
        has_p = any(PDEF[x] is not None for x in d.values())
        if f in ('required', 'readOnly', 'aliases', 'notSerialized') and not has_p:
            return
        modes = ['python', 'extends']
        if not any(meths.values()):
            modes += ['document', 'reversed']
        full = c.thorough and f is None
        if (len(shape) > 2 or f) and not full:
            modes = [modes[(len(repr(job)) + sum(map(ord, repr(job)))) % len(modes)]]
        params = (sname, tuple(d.values()), f, where)
        for mode in modes:
            def body():
                forget_namespaces()
                if mode == 'python':
                    cs = build_python(shape, specs, meths)
                elif mode == 'extends':
                    cs = build_extends(shape, specs, meths)
                else:
                    cs = build_document(shape, specs, mode == 'reversed')
                res = []
                # the leaf and, after it was built, its bases
                for n in [leaf] + [b for b, _ in shape if b != leaf]:
                    if not accessors_consistent(shape, n, d):
                        continue
                    if any(not accessors_consistent(shape, b, d) for b in mro(shape, n)):
                        continue
                    sc, ms = merged(shape, n, specs, meths)
                    flat = mk(sc, **ms)
                    for b in mro(shape, n):
                        c.true(issubclass(cs[n], cs[b]), '%s does not derive from %s' % (n, b))
                    c.eq(issubclass(cs[n], cs[leaf]), n == leaf, '%s derives from %s' % (n, leaf))
                    for init in INITS if n == leaf or full else INITS[:2]:
                        res.append(compare(c, cs[n], flat, init, (), f == 'method'))
                    # whole histories, then (leaf) every operation on its own
                    for seq in (OPS, OPS[::-1], OPS[6:] + OPS[:6]):
                        res.append(compare(c, cs[n], flat, INITS[1], seq, f == 'method'))
                        if n != leaf and not full:
                            break
                    if n == leaf and f is None:
                        for op in OPS:
                            res.append(compare(c, cs[n], flat, INITS[1], (op,), False))
                return res
            c.case('inherit-%s' % mode, params, body, transitions=len(INITS) + 3 * len(OPS))
    chk.bounds = {'shapes': list(SHAPES), 'definitions': list(PDEF), 'features': feats, 'configurations': len(jobs)}
    chk.parallel(chunked(chk, jobs, one))
