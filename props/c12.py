"""C12: structural equality tells every two different trees apart."""
import copy
from enum import Enum

import attr

from sx.api import Harness

from .common import SKIP_FIELDS, concrete_type, deep_eq, is_sym, node_fields, render, zand_all
from .gen import CORE, KINDS, LEAVES, Gen, expr
from .zoo import NAMES, ZOO, nodes
from .long import any_place, DEEP_QUICK


def equals(a, b):
    r = a.equals(b)
    return r


def asserts(a, b):
    """assert_equals does not raise"""
    try:
        a.assert_equals(b)
    except AssertionError:
        return False
    return True


def some(ctx):
    """the trees explored: all aggregates share their clauses, so in quick runs only a few come with all of them"""
    return NAMES if ctx.thorough else [n for n in NAMES if not n.startswith("agg:") or n in ("agg:SUM", "agg:MAX_BY", "agg:CORR")]


def agree(ctx, a, b, extra=True):
    """equals says exactly what a comparison field by field says, in both directions"""
    a0, b0 = render(a), render(b)
    want = deep_eq(a, b)
    got = equals(a, b)
    back = equals(b, a)
    ctx.check(_iff(got, want), "equal exactly when the contents are", lambda: "%s and %s: equals says %s" % (render(a), render(b), got))
    ctx.check(_iff(back, got), "symmetric", lambda: "%s and %s: %s, %s" % (render(a), render(b), got, back))
    if extra:
        ctx.check(_iff(asserts(a, b), got), "assert_equals raises exactly when they differ", lambda: "%s and %s: equals %s" % (render(a), render(b), got))
        ctx.check(render(a) == a0 and render(b) == b0, "comparing changes nothing")


def _iff(p, q):
    if isinstance(p, bool) and isinstance(q, bool):
        return p == q
    if isinstance(p, bool):
        return q if p else ~q
    if isinstance(q, bool):
        return p if q else ~p
    return (p & q) | (~p & ~q)


def h_leaves(ctx):
    """two trees of the same shape with independent leaves"""
    g = Gen(ctx)
    name = ctx.pick("node", some(ctx))
    a, b = ZOO[name](g), ZOO[name](g)
    agree(ctx, a, b, name.startswith("expr"))


def h_reflexive(ctx):
    """a tree equals itself and a copy built again from the same leaves"""
    g = Gen(ctx)
    name = ctx.pick("node", NAMES)
    a = ZOO[name](g)
    ctx.check(equals(a, a), "reflexive", lambda: render(a))
    b = copy.deepcopy(a)
    ctx.check(equals(a, b) and equals(b, a), "equal to a copy", lambda: render(a))
    ctx.check(asserts(a, b), "assert_equals accepts a copy", lambda: render(a))
    for other in (None, 3, "x", [a], (a,), {"a": a}, render(a), object()):
        ctx.check(not equals(a, other), "different from what is no tree", lambda: "%s and %r" % (render(a), other))


def h_kinds(ctx):
    """two nodes of different kinds over the same contents"""
    g = Gen(ctx)
    one = [n for n in NAMES if not n.startswith("agg:")]
    a = ctx.pick("a", one)
    s = ZOO[a](_Same(g))
    # the ones that could be confused: those with the same fields
    fits = one if ctx.thorough else [n for n in one if _fields(g, n) == _fields(g, a)]
    t = ZOO[ctx.pick("b", fits)](_Same(g))
    agree(ctx, s, t, False)


_FIELDS = {}


def _fields(g, name):
    if name not in _FIELDS:
        n = ZOO[name](_Same(g))
        _FIELDS[name] = tuple(node_fields(n)) if attr.has(type(n)) else ("type",)
    return _FIELDS[name]


class _Same(Gen):
    """leaves that always are the same"""

    def __init__(self, g):
        super().__init__(g.ctx)
        self.ctx = _Fixed()

    def name(self, label="id"):
        return "a"

    def field(self):
        return self.x.Field("a")


class _Fixed:
    thorough = False

    def name(self, label="id"):
        return "a"

    def int(self, label, lo, hi, default=None):
        return lo

    def str(self, label, n, ranges=None):
        return "7" * n

    def pick(self, label, options):
        return list(options)[0]

    def choose(self, label, n):
        return 0

    def flag(self, label):
        return False

    def assume(self, c):
        pass


def mutants(g, v):
    """values that differ from v"""
    x = g.x
    t = concrete_type(v)
    if v is None:
        return [x.Field("zz9"), "zz9"]
    if isinstance(v, Enum):
        return [m for m in type(v) if m is not v]
    if t is bool:
        return [not v, None]
    if t is int:
        return [v + 1, None]
    if t is str:
        return [v + "z", "", None]
    if isinstance(v, (list, tuple)):
        out = [list(v) + [x.Field("zz9")], []]
        if len(v):
            out += [list(v)[:-1], list(v)[1:], list(v) + [v[-1]]]
        if len(v) > 1:
            out.append(list(reversed(v)))
        return [w for w in out if len(w) != len(v) or not _same(w, v)] + [None]
    if isinstance(v, dict):
        ks = list(v)
        out = [dict(v, zz9=3)]
        if ks:
            out += [{k: v[k] for k in ks[:-1]}, dict(v, **{ks[0]: None}) if isinstance(ks[0], str) else {}]
            if isinstance(ks[0], str):
                out.append(dict({k: v[k] for k in ks[1:]}, **{ks[0] + "q": v[ks[0]]}))
        return out
    if hasattr(v, "type_name"):
        return [g.dt.p4hll(), g.dt.array(dtype=g.dt.p4hll())]
    if attr.has(type(v)):
        return [None, x.Field("zz9"), x.Positive(x.Field("zz9")), "zz9"]
    return [None]


def _same(a, b):
    r = deep_eq(list(a), list(b))
    return r if isinstance(r, bool) else bool(r)


def h_one_place(ctx):
    """one field of one node anywhere in a tree is changed"""
    g = Gen(ctx)
    name = ctx.pick("node", some(ctx))
    a = ZOO[name](_Same(g) if not ctx.thorough else g)
    b = copy.deepcopy(a)
    ns = nodes(b)
    path, n = ns[ctx.choose("at", len(ns))]
    fields = [f for f in node_fields(n) if f not in SKIP_FIELDS]
    ctx.assume(bool(fields))
    f = ctx.pick("field", fields)
    ms = mutants(g, getattr(n, f))
    m = ms[ctx.choose("mutant", len(ms))]
    try:
        setattr(n, f, m)
    except Exception:
        ctx.assume(False)
    want = deep_eq(a, b)
    ctx.assume(want is False or not (want if isinstance(want, bool) else bool(want)))
    ctx.check(not equals(a, b), "one difference makes trees unequal", lambda: "%s with %s%s changed: %s" % (render(a), path, "." + f, render(b)))
    ctx.check(not equals(b, a), "whichever side is asked", lambda: "%s with %s.%s changed: %s" % (render(a), path, f, render(b)))
    ctx.check(not asserts(a, b), "assert_equals raises", lambda: "%s with %s.%s changed: %s" % (render(a), path, f, render(b)))


def h_deep(ctx):
    """two expressions with independent structure and leaves, two levels deep"""
    g = Gen(ctx)
    ks = [k for k in CORE]
    lv = [k for k in LEAVES if k.name in ("Field", "Int", "Str", "Null")]
    if ctx.thorough:
        a, b = expr(g, [ks, ks, lv]), expr(g, [ks, ks, lv])
    else:
        # the second differs from the first at most below one operand
        top = ctx.pick("top", [k for k in KINDS if k.slots])
        pos = ctx.choose("pos", top.slots)
        k1, k2 = ctx.pick("k1", ks[::2] + lv[:2]), ctx.pick("k2", [k for k in ks if k.name in ("Minus", "Subscript", "Between", "Row")] + lv[:2])
        mk = lambda k: k.build(g, [g.plain(k) for _ in range(k.slots)])
        x1, x2 = mk(k1), mk(k2)
        rest = [g.plain(top) for _ in range(top.slots)]
        ctx.assume(k1.name not in ("Field",) or top.name != "Deref")
        ctx.assume(k2.name not in ("Field",) or top.name != "Deref")
        a = top.build(_fixpick(g), rest[:pos] + [x1] + rest[pos + 1 :])
        b = top.build(_fixpick(g), rest[:pos] + [x2] + rest[pos + 1 :])
    agree(ctx, a, b, False)


def _fixpick(g):
    h = _Same(g)
    return h


def h_literals(ctx):
    """literals of all kinds against each other: 1, 1.0, TRUE and '1' are all different"""
    from decimal import Decimal

    g = Gen(ctx)
    x = g.x
    kinds = {
        "int": lambda: x.wrap_literal(ctx.int("n", -(2**40), 2**40)),
        "one": lambda: x.wrap_literal(1),
        "zero": lambda: x.wrap_literal(0),
        "true": lambda: x.wrap_literal(True),
        "false": lambda: x.wrap_literal(False),
        "str": lambda: x.wrap_literal(ctx.str("s", ctx.choose("len", 3))),
        "dec1": lambda: x.wrap_literal(Decimal("1")),
        "dec10": lambda: x.wrap_literal(Decimal("1.0")),
        "dec0": lambda: x.wrap_literal(Decimal("0.0")),
        "dbl1": lambda: x.wrap_literal(1.0),
        "dbl0": lambda: x.wrap_literal(0.0),
        "null": lambda: x.NULL,
        "field": lambda: g.field(),
        "bigone": lambda: x.Literal(1, data_type=g.dt.bigint()),
    }
    a, b = kinds[ctx.pick("a", list(kinds))](), kinds[ctx.pick("b", list(kinds))]()
    wrap = ctx.pick("in", ["bare", "list", "operand", "query"] if ctx.thorough else ["bare", "query"])
    w = {"bare": lambda e: e, "list": lambda e: x.Array([x.NULL, e]), "operand": lambda e: x.IsNull(e), "query": lambda e: g.r.SelectQuery([e])}[wrap]
    agree(ctx, w(a), w(b))


def h_long(ctx):
    """two long lists or deep chains with one entry each that may differ, or of different lengths"""
    g = Gen(ctx)
    sizes = [1, 2, 3, 5, 8, 9, 16, 17, 33, 65] if ctx.thorough else [1, 3, 9, 17, 33]
    depths = DEEP_QUICK if ctx.thorough else [2, 5, 9]
    g.ctx = Once(ctx)
    a = any_place(g, sizes, depths)
    g.ctx.again(ctx.pick("shift", [0, 1]))
    b = any_place(g, sizes, depths)
    agree(ctx, a, b)


class Once:
    """the second tree is shaped like the first one, or is one size larger"""

    def __init__(self, ctx):
        self.ctx, self.seen, self.second, self.shift = ctx, {}, False, 0

    def again(self, shift):
        self.second, self.shift = True, shift

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def pick(self, label, options):
        options = list(options)
        if label == "where":
            return self.ctx.pick(label + str(self.second), options)
        if not self.second:
            self.seen[label] = i = self.ctx.choose(label, len(options))
            return options[i]
        i = self.seen[label]
        if label == "size":
            self.ctx.assume(i + self.shift < len(options))
            i += self.shift
        return options[i]


HARNESSES = [
    Harness("leaves", h_leaves, "two trees of each of %d kinds with every optional part (quick: 3 aggregates with all clauses), all names, numbers and strings independent and symbolic" % len(NAMES)),
    Harness("reflexive", h_reflexive, "each of the same trees against itself, a copy and 8 things that are no trees"),
    Harness("kinds", h_kinds, "all pairs of kinds with the same fields (thorough: all pairs of kinds), same contents"),
    Harness("one_place", h_one_place, "every field of every node of every one of the trees changed to 1..7 other values"),
    Harness("deep", h_deep, "every construct x every child position x 8 x 6 kinds below it, symbolic leaves (thorough: two independent trees of 2 levels)"),
    Harness("literals", h_literals, "14 kinds of literals against each other in 2 (thorough 4) places, integers in -2^40..2^40, strings of 0..2 characters"),
    Harness("long", h_long, "46 places of trees with 1..33 (thorough 1..65) entries or 9 (12) levels, one symbolic entry in each tree at independent positions, same size or the next one"),
]
