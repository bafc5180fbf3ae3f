"""Shared oracles.  Everything here works on concrete and on symbolic values."""
import math
from decimal import Decimal
from enum import Enum

import attr

from sx.core import SymBase, SymBool, SymInt, SymStr, is_sym, zand, znot, zor


def modules():
    """The code under test (imported lazily, so that it is the instrumented or the plain one as the run demands)."""
    import treeno.base
    import treeno.builder.convert
    import treeno.datatypes.builder
    import treeno.datatypes.conversions
    import treeno.datatypes.inference
    import treeno.datatypes.types
    import treeno.expression
    import treeno.functions
    import treeno.groupby
    import treeno.orderby
    import treeno.relation
    import treeno.util
    import treeno.window

    return treeno


def concrete_type(x):
    t = type(x)
    if t is SymStr:
        return str
    if t is SymInt:
        return int
    if t is SymBool:
        return bool
    if isinstance(x, SymBase):
        return x.concrete_type
    return t


def leaf_eq(a, b):
    """Exact equality of two leaves as bool | SymBool (no fork)."""
    ta, tb = concrete_type(a), concrete_type(b)
    if ta is not tb:
        return False
    if ta is str:
        if type(a) is SymStr:
            return a.eq(b)
        if type(b) is SymStr:
            return b.eq(a)
        return a == b
    if ta is bool:
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return bool(a) == bool(b)
        return a == b
    if ta is int:
        r = a == b
        return r
    if ta is Decimal:
        if hasattr(a, "same"):
            return a.same(b)
        if hasattr(b, "same"):
            return b.same(a)
        return a.as_tuple() == b.as_tuple() or (a.is_nan() and b.is_nan())
    if ta is float:
        if hasattr(a, "same"):
            return a.same(b)
        if hasattr(b, "same"):
            return b.same(a)
        return (a == b and math.copysign(1, a) == math.copysign(1, b)) or (a != a and b != b)
    return a == b


def sx_str(x):
    """str(x) that keeps symbolic results"""
    return x.__str__()


SKIP_FIELDS = {"_column_schema"}


def node_fields(x):
    return [f.name for f in attr.fields(type(x))]


def deep_eq(a, b, data_types=True, norm=None, seen=None, path=""):
    """Exact structural equality of two SQL trees: same node classes, same fields, same leaves. bool | SymBool"""
    if norm is not None:
        a, b = norm(a), norm(b)
    if is_sym(a) or is_sym(b):
        return leaf_eq(a, b)
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return zand([deep_eq(x, y, data_types, norm) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        # insertion order is significant for printed SQL
        out = []
        for (k1, v1), (k2, v2) in zip(a.items(), b.items()):
            out.append(deep_eq(k1, k2, data_types, norm))
            out.append(deep_eq(v1, v2, data_types, norm))
        return zand(out)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, Enum):
        return a is b
    if hasattr(a, "type_name") and hasattr(a, "parameters"):
        return zand([leaf_eq(a.type_name, b.type_name), params_eq(a.parameters, b.parameters, data_types, norm)])
    if attr.has(type(a)):
        out = []
        for n in node_fields(a):
            if n in SKIP_FIELDS:
                continue
            if n == "data_type" and not data_types:
                continue
            r = deep_eq(getattr(a, n), getattr(b, n), data_types, norm)
            if r is False:
                return False
            out.append(r)
        return zand(out)
    return leaf_eq(a, b)


def params_eq(a, b, data_types=True, norm=None):
    if set(a) != set(b):
        return False
    return zand([deep_eq(a[k], b[k], data_types, norm) for k in sorted(a)])


def render(x, depth=0):
    """Readable dump of a tree, for counterexample messages."""
    if attr.has(type(x)) and depth < 8:
        return "%s(%s)" % (
            type(x).__name__,
            ", ".join("%s=%s" % (n, render(getattr(x, n), depth + 1)) for n in node_fields(x) if n not in ("data_type",) and n not in SKIP_FIELDS),
        )
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(render(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (render(k), render(v, depth + 1)) for k, v in x.items())
    try:
        return repr(x)
    except Exception:
        return object.__repr__(x)


def zand_all(conds):
    """conjunction that stops at the first plain False"""
    out = []
    for c in conds:
        if c is False:
            return False
        out.append(c)
    return zand(out)
