# -*- coding: utf-8 -*-
"""C25: decorated functions behave as the function on the converted arguments (histories of calls on several instances)."""
import copy
import itertools

from mc.core import outcome, Mismatch, typed
from ngoschema.decorators import (take_arrays, assert_arg, assert_prop, log_exceptions, log_init, classproperty,
                                  memoized_property, memoized_method, depend_on_prop)
from ngoschema.exceptions import InvalidValue
from ngoschema.types import Integer, String, Boolean, Array

LISTS = (list, set, tuple)


class Silent:
    """a logger which is never shown"""
    def __getattr__(self, name):
        return lambda *a, **k: None


# ------------------------------------------------------------------ take_arrays
VALUES = [0, 3, 'ab', None, [], [5], (7,), [1, 2], (1, 2), [2, 1], {4}, [1, 2, 3], [[1], [2]], 'xyz']


def ref_take(f, args, n1, n2, flatten):
    a = args[n1]
    if type(a) not in LISTS:
        return f(*args)
    call = lambda **sub: f(*[sub.get('i%d' % i, v) for i, v in enumerate(args)])
    b = args[n2] if n2 != -1 else None
    if n2 == -1 or type(b) not in LISTS:
        ret = [call(**{'i%d' % n1: x}) for x in a]
    elif len(b) == 1:
        y, = b
        ret = [call(**{'i%d' % n1: x, 'i%d' % n2: y}) for x in a]
    elif len(a) == len(b):
        ret = [call(**{'i%d' % n1: x, 'i%d' % n2: y}) for x, y in zip(a, b)]
    else:
        raise InvalidValue('sizes')
    return [y for x in ret for y in x] if flatten else ret


def same(c, a, b, what):
    if a[0] != b[0] or (a[0] == 'err' and type(a[1]) is not type(b[1])) or (a[0] == 'ok' and typed(a[1]) != typed(b[1])):
        raise Mismatch('%s: %r, expected %r' % (what, a, b))


def check_take(chk):
    def f2(a, b):
        """doc"""
        return ('r', a, b)

    def f3(a, b, c=9):
        return [('r', a, b), c]

    class K(object):
        n = 5

        def m(self, a, b):
            return (self.n, a, b)
    k = K()

    def run(c, fn, target, n1, n2, flatten, vals):
        def body():
            args = copy.deepcopy(vals)
            got = outcome(target, *args)
            same(c, got, outcome(ref_take, fn, copy.deepcopy(vals), n1, n2, flatten), 'call')
            c.eq(typed(list(args)), typed(list(vals)), 'the arguments are changed')
            return typed(got[1]) if got[0] == 'ok' else 'err'
        c.case('take_arrays', (fn.__name__, n1, n2, flatten, repr(vals)), body, transitions=1)

    cfgs = [(0, -1, False), (1, -1, False), (0, 1, False), (1, 0, False), (0, -1, True), (0, 1, True)]
    targets = []
    for n1, n2, fl in cfgs:
        targets.append((f2, take_arrays(n1, n2, fl)(f2), n1, n2, fl))
        targets.append((f3, take_arrays(n1, n2, fl)(f3), n1, n2, fl))
        KK = type('KK', (K,), {'m': take_arrays(n1, n2, fl)(K.__dict__['m'])})
        targets.append((k.m, KK().m, n1, n2, fl))
    for t in targets:
        for vals in itertools.product(VALUES, repeat=2):
            run(chk, t[0], t[1], t[2], t[3], t[4], list(vals))


# ------------------------------------------------------------------ assert_arg
ARGS = [0, 3, '3', -1, '12', 'ab', None, True, 2.0, '2.5', [], '']
KINDS = {
    'Integer': (Integer, {}),
    'Natural': (Integer, {'minimum': 0, 'maximum': 10}),
    'String': (String, {'maxLength': 2}),
    'Boolean': (Boolean, {}),
    'Array': (Array, {}),
    'Arrayi': (Array, {'items': {'type': 'integer'}, 'maxItems': 1}),
}


class Empty(object):
    """an instance which is false"""
    def __len__(self):
        return 0


def check_assert_arg(chk):
    for kind, (ty, sch) in KINDS.items():
        reference = ty(**copy.deepcopy(sch))

        def expected(v):
            return reference(copy.deepcopy(v), check=True, validate=True)

        def make(arg_of):
            def fn(a, b='dft', *more, **kw):
                return (a, b, more, sorted(kw.items()))
            return assert_arg(arg_of, ty, **copy.deepcopy(sch))(fn)

        def make_method(arg_of, base, static=None):
            d = {}
            if static is None:
                def m(self, a, b='dft'):
                    return (a, b, isinstance(self, base))
                d['m'] = assert_arg(arg_of, ty, **copy.deepcopy(sch))(m)
            elif static == 'static':
                def m(a, b='dft'):
                    return (a, b, True)
                d['m'] = staticmethod(assert_arg(arg_of, ty, **copy.deepcopy(sch))(m))
            else:
                def m(cls, a, b='dft'):
                    return (a, b, issubclass(cls, base))
                d['m'] = classmethod(assert_arg(arg_of, ty, **copy.deepcopy(sch))(m))
            return type('M', (base,), d)().m

        # (callable, name of the argument, extra results)
        targets = []
        for n, (pos, name) in itertools.product(('fn', 'obj', 'empty', 'static', 'class'), ((0, 'a'), (1, 'b'))):
            for by in ('pos', 'name'):
                shift = 1 if n in ('obj', 'empty', 'class') else 0
                arg = pos + shift if by == 'pos' else name
                if n == 'fn':
                    targets.append((n, by, name, make(arg)))
                else:
                    st = n if n in ('static', 'class') else None
                    targets.append((n, by, name, make_method(arg, Empty if n == 'empty' else object, st)))
        for n, by, name, fn in targets:
            for v in ARGS:
                for style in ('pos', 'kw', 'omit', 'off', 'offkw'):
                    def body():
                        exp = {'a': v, 'b': 'dft'}
                        other = 'w'
                        if name == 'a':
                            args, kw = ((v,), {}) if style in ('pos', 'off') else ((), {'a': v})
                            if style == 'omit':
                                return
                        elif style == 'omit':
                            args, kw, exp = (other,), {}, {'a': other, 'b': 'dft'}
                        else:
                            args, kw = ((other, v), {}) if style in ('pos', 'off') else ((other,), {'b': v})
                            exp = {'a': other, 'b': v}
                        if style.startswith('off'):
                            kw['assert_args'] = False
                        elif style != 'omit':
                            e = outcome(expected, v)
                            if e[0] == 'ok':
                                exp[name] = e[1]
                        rejected = style in ('pos', 'kw') and e[0] == 'err'
                        got = outcome(lambda: fn(*copy.deepcopy(args), **copy.deepcopy(kw)))
                        if rejected:
                            chk.eq(got[0], 'err', 'an invalid argument is accepted: %r' % (got[1],))
                            return 'err'
                        if got[0] == 'err':
                            raise Mismatch('a valid argument is rejected: %r' % got[1])
                        chk.eq(typed([got[1][0], got[1][1]]), typed([exp['a'], exp['b']]), 'arguments received')
                        return typed(got[1][:2])
                    chk.case('assert_arg', (kind, n, by, name, repr(v), style), body, transitions=1)


# ------------------------------------------------------------------ memoization
def memo_classes():
    class A(object):
        _logger = Silent()

        def __init__(self, x):
            self.x = x
            self.calls = 0

        @memoized_property
        def p(self):
            self.calls += 1
            return ('p', self.x)

        @memoized_method()
        def m(self, y=0):
            self.calls += 1
            return ('m', self.x, y)

        @memoized_method(maxsize=1)
        def small(self, y=0):
            return ('s', self.x, y)

    class B(A):
        @memoized_property
        def p(self):
            return ('B', A.p.__get__(self, B))

        @memoized_method()
        def m(self, y=0):
            return ('B', super(B, self).m(y))

        def basep(self):
            return super(B, self).p

        def basem(self, y=0):
            return super(B, self).m(y)
    return A, B


class MemoModel:
    def __init__(self, cls, x):
        self.cls, self.x, self.cp, self.cm = cls, x, {}, {}

    def p(self, cls=None):
        cls = cls or self.cls
        if cls == 'B':
            if 'B' not in self.cp:
                self.cp['B'] = ('B', ('p', self.x))
            return self.cp['B']
        return self.cp.setdefault('A', ('p', self.x))

    def m(self, y, cls=None):
        cls = cls or self.cls
        if (cls, y) not in self.cm:
            self.cm[cls, y] = ('B', self.m(y, 'A')) if cls == 'B' else ('m', self.x, y)
        return self.cm[cls, y]


def check_memo(chk):
    # x never changes: memoized values are functions of the instance only. 'copy' makes another instance, with another x
    alphabet = ['p', 'm0', 'm1', 's0', 's1', 'reset', 'copy', 'basep', 'basem', 'del']
    depth = 6 if chk.thorough else 5

    def one(c, cls):
        for seq in itertools.product(alphabet, repeat=depth):
            if cls == 'A' and ('basep' in seq or 'basem' in seq):
                continue
            if seq.count('copy') > 1 or seq.count('del') > 1:
                continue

            def body():
                A, B = memo_classes()
                k = {'A': A, 'B': B}[cls]
                objs = [k(1), k(2)]
                expc = 'A'
                for step, op in enumerate(seq):
                    if op == 'copy':
                        o = copy.copy(objs[0])
                        o.x = 3
                        memoized_property.reset(o, 'p')
                        objs.append(o)
                        continue
                    if op == 'del':
                        if len(objs) > 1:
                            del objs[0]
                        continue
                    for o in objs:
                        x = o.x
                        wrap = (lambda r: ('B', r)) if cls == 'B' else (lambda r: r)
                        if op == 'p':
                            r, e = o.p, wrap(('p', x))
                        elif op in ('m0', 'm1'):
                            y = int(op[1])
                            r, e = (o.m(y) if y else o.m()), wrap(('m', x, y))
                        elif op in ('s0', 's1'):
                            r, e = o.small(int(op[1])), ('s', x, int(op[1]))
                        elif op == 'reset':
                            memoized_property.reset(o, 'p')
                            continue
                        elif op == 'basep':
                            r, e = o.basep(), ('p', x)
                        else:
                            r, e = o.basem(1), ('m', x, 1)
                        if r != e:
                            raise Mismatch('step %d (%s): %r instead of %r' % (step, op, r, e))
            c.case('memoized', (cls,) + seq, body, transitions=depth)
    chk.parallel([(lambda c, cls=cls: one(c, cls)) for cls in 'AB'])

    # evaluated once
    for cls in 'AB':
        def body():
            k = dict(zip('AB', memo_classes()))[cls]
            o, o2 = k(1), k(2)
            for i in range(4):
                o.p, o.m(3), o.m(4)
            chk.eq(o.calls, 3, 'number of evaluations')
            chk.eq(o2.calls, 0, 'evaluations of another instance')
            memoized_property.reset(o, 'p')
            o.p
            chk.eq(o.calls, 4, 'number of evaluations after a reset')
        chk.case('memoized-once', (cls,), body, transitions=13)


# ------------------------------------------------------------------ transparent decorators and their stacks
class Boom(Exception):
    pass


STACK = {
    'log': lambda: log_exceptions,
    'arg': lambda: assert_arg(1, Integer, minimum=0),
    'argn': lambda: assert_arg('a', Integer, minimum=0),
    'prop': lambda: assert_prop('needed'),
    'prop2': lambda: assert_prop('needed', 'other'),
    'dep': lambda: depend_on_prop('needed'),
    'take': lambda: take_arrays(0),
}


def check_stacks(chk):
    depth = 4 if chk.thorough else 3
    for n in range(1, depth + 1):
        for stack in itertools.permutations(STACK, n):
            if 'arg' in stack and 'argn' in stack:
                continue
            # what gets arrays is above what expects integers
            if 'take' in stack and any(s in stack and stack.index(s) < stack.index('take') for s in ('arg', 'argn')):
                continue
            # inspection of a decorated function: the signature is the one of the function

            def build():
                def m(self, a, b=2):
                    """the doc"""
                    if a == 9:
                        raise Boom('nine')
                    return (self.tag, a, b)
                for s in reversed(stack):
                    m = STACK[s]()(m)

                def __init__(self, **kw):
                    self.tag = 't'
                    self._logger = Silent()
                    if kw.get('fail'):
                        raise Boom('init')
                    for k, v in kw.items():
                        setattr(self, k, v)
                return type('S', (object,), {'m': m, '__init__': log_init(__init__), '_logger': Silent()})

            def expect(state, a, b):
                if 'take' in stack and isinstance(a, list):
                    return [expect1(state, x, b, stack) for x in a] if state is not None else None
                return expect1(state, a, b, stack)

            def expect1(state, a, b, stack):
                for s in stack:
                    if s in ('prop', 'prop2'):
                        for p in ('needed',) if s == 'prop' else ('needed', 'other'):
                            if state.get(p) is None:
                                raise AttributeError(p)
                    elif s in ('arg', 'argn'):
                        try:
                            a = int(a)
                        except Exception:
                            raise ValueError('arg')
                        if a < 0:
                            raise ValueError('arg')
                if a == 9:
                    raise Boom('nine')
                return ('t', a, b)

            for state in ({}, {'needed': 1}, {'needed': 0, 'other': None}, {'needed': '', 'other': False}, {'other': 3}):
                def body():
                    S = build()
                    o = S(**state)
                    res = []
                    for a in (1, '4', 9, -3, 'ab', [1, '2'], [], [9]):
                        if isinstance(a, list) and ('take' not in stack or any(s in ('prop', 'prop2') for s in stack[stack.index('take'):]) and not a):
                            continue
                        for b in (2, 5):
                            got = outcome(lambda: o.m(copy.copy(a)) if b == 2 else o.m(copy.copy(a), b=5))
                            pre = outcome(expect_props, stack, state, a)
                            exp = pre if pre[0] == 'err' else outcome(expect, state, a, b)
                            if exp[0] == 'err' and isinstance(exp[1], ValueError):
                                chk.eq(got[0], 'err', 'an invalid argument is accepted')
                            else:
                                same(chk, got, exp, 'call with %r' % (a,))
                            res.append(got[0])
                    return res

                def expect_props(stack, state, a):
                    for s in stack:
                        if s == 'take':
                            return
                        if s in ('prop', 'prop2'):
                            for p in ('needed',) if s == 'prop' else ('needed', 'other'):
                                if state.get(p) is None:
                                    raise AttributeError(p)
                        elif s in ('arg', 'argn'):
                            return
                chk.case('stack', (stack, sorted(state.items())), body, transitions=14)

    def body():
        S = type('S', (object,), {'_logger': Silent(), '__init__': log_init(lambda self, fail=False: (_ for _ in ()).throw(Boom()) if fail else None)})
        chk.eq(outcome(S)[0], 'ok', 'init')
        chk.true(isinstance(outcome(S, True)[1], Boom), 'exception of a constructor lost')
    chk.case('log_init', (), body)


def check_functions(chk):
    """functions which are no methods, arguments given by name only"""
    def f(a=None, *more, **kw):
        if a == 9 or kw.get('k') == 9:
            raise Boom('nine')
        return (a, more, sorted(kw.items()))
    decs = {'log': log_exceptions, 'k': assert_arg('k', Integer, minimum=0), 'a': assert_arg('a', Integer, minimum=0), 'dep': depend_on_prop('x')}
    for n in (1, 2, 3, 4):
        for stack in itertools.permutations(decs, n):
            g = f
            for s in stack:
                g = decs[s](g)
            for args in ((), (1,), ('2',), (9,), (-1,), (3, 'm')):
                for kw in ({}, {'k': 1}, {'k': '2'}, {'k': 9}, {'k': -1}, {'o': -1}):
                    def body():
                        bad = 'a' in stack and args and int(args[0]) < 0 or 'k' in stack and kw.get('k') == -1
                        got = outcome(g, *args, **dict(kw))
                        if bad:
                            chk.eq(got[0], 'err', 'an invalid argument is accepted')
                            chk.true(not isinstance(got[1], Boom), 'the function is called with invalid arguments')
                            return 'rejected'
                        a2 = tuple(int(x) if 'a' in stack and i == 0 else x for i, x in enumerate(args))
                        k2 = {k: int(v) if k == 'k' and 'k' in stack else v for k, v in kw.items()}
                        same(chk, got, outcome(f, *a2, **k2), 'call with %r %r' % (args, kw))
                        return typed(got[1]) if got[0] == 'ok' else 'err'
                    chk.case('function', (stack, args, sorted(kw.items())), body, transitions=1)


def check_classproperty(chk):
    for seq in itertools.product(['A', 'B', 'a', 'b', 'ren', 'seta', 'setb'], repeat=4):
        def body():
            class A(object):
                n = 'A'

                @classproperty
                def p(cls):
                    return (cls.__name__, cls.n)

                @p.setter
                def p(cls, v):
                    cls.n = v

                @classproperty
                def ro(cls):
                    return cls.__name__
            class B(A):
                pass
            a, b = A(), B()
            an, bn = 'A', None
            for op in seq:
                if op == 'ren':
                    A.n = an = 'ren'
                elif op == 'seta':
                    a.p = an = 'sa'
                elif op == 'setb':
                    b.p = bn = 'sb'
                else:
                    o = {'A': A, 'B': B, 'a': a, 'b': b}[op]
                    chk.eq(o.p, (op.upper(), an if op.upper() == 'A' else bn or an), 'class property')
                    chk.eq(o.ro, op.upper(), 'class property')
            chk.true(isinstance(outcome(setattr, a, 'ro', 1)[1], AttributeError), 'a read-only class property is set')
        chk.case('classproperty', seq, body, transitions=4)


def check(chk):
    chk.bounds = {'values': len(VALUES), 'arguments': len(ARGS), 'memo depth': 6 if chk.thorough else 5, 'stack depth': 4 if chk.thorough else 3}
    check_take(chk)
    check_assert_arg(chk)
    check_memo(chk)
    check_stacks(chk)
    check_functions(chk)
    check_classproperty(chk)
