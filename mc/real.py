# -*- coding: utf-8 -*-
"""What the checks use of the code under test (public names only) and common reference pieces."""
import re
import sys
import copy
import datetime
import decimal
import itertools
from fractions import Fraction

import ngoschema  # noqa: F401
from ngoschema.protocols import SchemaMetaclass
from ngoschema.exceptions import ConversionError, InvalidValue  # noqa: F401

_n = itertools.count()


def mk(schema, bases=(), name=None, **attrs):
    """a class defined by a schema (fresh name: nothing is shared between executions by name)"""
    name = name or 'K%d' % next(_n)
    return SchemaMetaclass(name, bases, dict(attrs, _schema=copy.deepcopy(schema)))


class Reject(Exception):
    """the reference rejects the value"""


# ------------------------------------------------------------------ JSON schema constraints
def frac(x):
    return Fraction(x)


def is_num(v):
    return isinstance(v, (int, float, decimal.Decimal))


def valid(schema, v):
    """does the converted scalar v satisfy the constraints of the schema"""
    for k, p in schema.items():
        if k == 'minimum' and is_num(v) and frac(v) < frac(p):
            return False
        if k == 'maximum' and is_num(v) and frac(v) > frac(p):
            return False
        if k == 'exclusiveMinimum' and is_num(v) and frac(v) <= frac(p):
            return False
        if k == 'exclusiveMaximum' and is_num(v) and frac(v) >= frac(p):
            return False
        if k == 'multipleOf' and is_num(v) and (frac(v) / frac(p)).denominator != 1:
            return False
        if k == 'minLength' and isinstance(v, str) and len(v) < p:
            return False
        if k == 'maxLength' and isinstance(v, str) and len(v) > p:
            return False
        if k == 'pattern' and isinstance(v, str) and not re.search(p, v):
            return False
        if k == 'enum' and v not in p:
            return False
        if k == 'const' and v != p:
            return False
        if k == 'not' and valid(p, v):
            return False
        if k == 'allOf' and not all(valid(s, v) for s in p):
            return False
        if k == 'anyOf' and not any(valid(s, v) for s in p):
            return False
        if k == 'oneOf' and sum(valid(s, v) for s in p) != 1:
            return False
    return True


def convert(ty, schema, v):
    """the value of type ty a raw scalar stands for"""
    if ty == 'integer':
        if isinstance(v, int):
            return v
        if isinstance(v, str):
            if not re.match(r'^\s*[+-]?\d+\s*$', v):
                raise Reject(v)
            return int(v)
        if isinstance(v, (float, decimal.Decimal)):
            if v != v or v in (float('inf'), float('-inf')):
                raise Reject(v)
            return int(v)
        raise Reject(v)
    if ty == 'number':
        if isinstance(v, (int, float, decimal.Decimal)):
            return decimal.Decimal(v)
        if isinstance(v, str) and re.match(r'^\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\s*$', v):
            return decimal.Decimal(v.strip())
        raise Reject(v)
    if ty == 'boolean':
        if isinstance(v, bool):
            return v
        if isinstance(v, str):
            if v.lower() in ('true', 'false'):
                return v.lower() == 'true'
            raise Reject(v)
        if isinstance(v, int) and v in (0, 1):
            return bool(v)
        raise Reject(v)
    if ty == 'string':
        return v if isinstance(v, str) else str(v)
    if ty == 'enum':
        enum = schema['enum']
        if v in enum:
            return v
        if isinstance(v, str) and v == '':
            return enum[0]
        try:
            i = convert('integer', {}, v)
        except Reject:
            raise Reject(v)
        if i in enum:
            return i
        if 0 <= i < len(enum):
            return enum[i]
        raise Reject(v)
    raise KeyError(ty)


def evaluate(ty, schema, v):
    """conversion then validation"""
    r = convert(ty, schema, v)
    if not valid(schema, r):
        raise Reject(v)
    return r


def ref(fn, *args):
    try:
        return 'ok', fn(*args)
    except Reject as er:
        return 'err', er


# ------------------------------------------------------------------ housekeeping
def _namespaces():
    from ngoschema.managers.namespace_manager import NamespaceManager
    ns = getattr(NamespaceManager, '_builder_ns', None)
    return ns if isinstance(ns, dict) else {}


_initial_ns = dict(_namespaces())


def forget_namespaces():
    """namespaces of the classes of former executions only slow the following ones down"""
    ns = _namespaces()
    for k in [k for k in ns if k not in _initial_ns]:
        del ns[k]
