"""Trees with long lists and deep chains: the same guarantees far beyond the sizes the other harnesses enumerate.

A place is a list-valued (or nestable) part of a tree.  Every entry is a column c0, c1, ...; the one at a chosen position
has a symbolic name, so that entries cannot be confused, dropped, reordered or cut off at a length without a difference."""
from .gen import set_query

LONG_QUICK = list(range(1, 18)) + [20, 21, 24, 25, 26, 31, 32, 33, 50, 51, 64, 65, 79, 80, 81, 100, 101, 128, 129]
LONG_THOROUGH = list(range(1, 135)) + [150, 200, 201, 255, 256, 257, 300, 500, 512, 513]
DEEP_QUICK = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12]
DEEP_THOROUGH = list(range(1, 26))


def names(g, n):
    """n different names, one of them symbolic"""
    out = ["c%d" % i for i in range(n)]
    where = sorted({0, n // 2, n - 1} | ({n // 3, n - 2, 1} if g.ctx.thorough and n > 3 else set()))
    out[g.ctx.pick("where", where)] = g.name("nm")
    return out


def fold(f, items, left):
    if left:
        acc = items[0]
        for i in items[1:]:
            acc = f(acc, i)
        return acc
    acc = items[-1]
    for i in reversed(items[:-1]):
        acc = f(i, acc)
    return acc


def nest(f, inner, rest):
    for r in rest:
        inner = f(inner, r)
    return inner


# ------------------------------------------------------------------ expressions: (g, fields) -> expression
EXPR_LISTS = {
    "array": lambda g, f: g.x.Array(f),
    "in_list": lambda g, f: g.x.InList(f[0], f[1:] or [f[0]]),
    "row": lambda g, f: g.x.RowConstructor(f),
    "case": lambda g, f: g.x.Case(branches=[g.x.When(a, g.x.wrap_literal(1)) for a in f], else_=g.x.Else(f[0])),
    "case_results": lambda g, f: g.x.Case(branches=[g.x.When(g.x.wrap_literal(True), a) for a in f]),
    "case_value": lambda g, f: g.x.Case(branches=[g.x.When(a, a) for a in f], value=f[-1]),
}


def _chain(cls, left):
    return lambda g, f: fold(lambda a, b: getattr(g.x, cls)(a, b), f, left)


EXPR_CHAINS = {}
for _cls in ("And", "Or", "Add", "Minus", "Multiply", "Divide", "Modulus"):
    EXPR_CHAINS[_cls + "_left"] = _chain(_cls, True)
    EXPR_CHAINS[_cls + "_right"] = _chain(_cls, False)
EXPR_CHAINS.update(
    {
        "Equal_left": _chain("Equal", True),
        "Subscript_left": _chain("Subscript", True),
        "Subscript_right": _chain("Subscript", False),
        "mixed": lambda g, f: fold(lambda a, b: g.x.Or(g.x.And(a, b), g.x.Not(b)), f, True),
        "arith": lambda g, f: fold(lambda a, b: g.x.Minus(b, g.x.Multiply(g.x.Add(a, b), b)), f, True),
        "not": lambda g, f: nest(lambda a, _: g.x.Not(a), f[0], f[1:]),
        "is_null": lambda g, f: nest(lambda a, _: g.x.IsNull(a), f[0], f[1:]),
        "negative": lambda g, f: nest(lambda a, _: g.x.Negative(a), f[0], f[1:]),
        "cast": lambda g, f: nest(lambda a, _: g.x.Cast(a, data_type=g.dt.bigint()), f[0], f[1:]),
        "rows": lambda g, f: nest(lambda a, b: g.x.RowConstructor([b, a]), f[0], f[1:]),
        "arrays": lambda g, f: nest(lambda a, b: g.x.Array([a, b]), f[0], f[1:]),
        "cases": lambda g, f: nest(lambda a, b: g.x.Case(branches=[g.x.When(b, a)], else_=g.x.Else(b)), f[0], f[1:]),
        "between": lambda g, f: nest(lambda a, b: g.x.Between(a, b, b), f[0], f[1:]),
        "in_lists": lambda g, f: nest(lambda a, b: g.x.InList(b, [a, b]), f[0], f[1:]),
        "in_queries": lambda g, f: nest(lambda a, b: g.x.InQuery(b, g.r.SelectQuery([a])), f[0], f[1:]),
        "lower": lambda g, f: nest(lambda a, _: g.fstring.Lower(a), f[0], f[1:]),
        "coalesces": lambda g, f: nest(lambda a, b: g.cond.Coalesce(values=[b, a]), f[0], f[1:]),
    }
)


# ------------------------------------------------------------------ functions
def _sum(g, f, **kw):
    return g.agg.Sum(f[0], **kw)


FUNC_LISTS = {
    "concat": lambda g, f: g.fcommon.Concatenate(values=f if len(f) > 1 else f * 2),
    "coalesce": lambda g, f: g.cond.Coalesce(values=f if len(f) > 1 else f * 2),
    "agg_order": lambda g, f: _sum(g, f, orderby=[g.o.OrderTerm(a) for a in f]),
    "listagg_order": lambda g, f: g.agg.ListAgg(f[0], separator="-", orderby=[g.o.OrderTerm(a, g.o.OrderType.DESC) for a in f]),
}
WINDOW_LISTS = {
    "partitions": lambda g, f: g.w.Window(partitions=f),
    "orderby": lambda g, f: g.w.Window(orderby=[g.o.OrderTerm(a, g.o.OrderType.DESC) for a in f]),
    "both": lambda g, f: g.w.Window(partitions=f, orderby=[g.o.OrderTerm(a, null_order=g.o.NullOrder.FIRST) for a in f]),
}
FUNC_LISTS.update({"over_" + k: (lambda v: lambda g, f: _sum(g, f, window=v(g, f)))(v) for k, v in WINDOW_LISTS.items()})

# ------------------------------------------------------------------ grouping
GROUP_LISTS = {
    "elements": lambda g, f: [g.g.GroupingSet([a]) for a in f],
    "set": lambda g, f: [g.g.GroupingSet(f)],
    "cube": lambda g, f: [g.g.Cube(f)],
    "rollup": lambda g, f: [g.g.Rollup(f)],
    "sets": lambda g, f: [g.g.GroupingSetList([g.g.GroupingSet([a]) for a in f])],
    "sets_of_two": lambda g, f: [g.g.GroupingSetList([g.g.GroupingSet([a, f[0]]) for a in f])],
    "cubes": lambda g, f: [g.g.Cube([a]) for a in f],
}


def grouped(g, elements):
    return g.r.SelectQuery([g.x.Field("x")], from_=g.r.Table("t"), groupby=g.g.GroupBy(elements))


# ------------------------------------------------------------------ relations
def _cross(g):
    return g.r.JoinConfig(g.r.JoinType.CROSS)


def _on(g, a, b):
    return g.r.JoinConfig(g.r.JoinType.INNER, criteria=g.r.JoinOnCriteria(g.x.Equal(g.x.Field(a), g.x.Field(b))))


REL_LISTS = {
    "using": lambda g, ns: g.r.Join(g.r.Table("t"), g.r.Table("u"), g.r.JoinConfig(g.r.JoinType.INNER, criteria=g.r.JoinUsingCriteria(ns))),
    "columns": lambda g, ns: g.r.AliasedRelation(g.r.Table("t"), "a", ns),
    "unnest": lambda g, ns: g.r.Unnest([g.x.Field(n) for n in ns]),
}
REL_CHAINS = {
    "cross_left": lambda g, ns: fold(lambda a, b: g.r.Join(a, b, _cross(g)), [g.r.Table(n) for n in ns], True),
    "cross_right": lambda g, ns: fold(lambda a, b: g.r.Join(a, b, _cross(g)), [g.r.Table(n) for n in ns], False),
    "on_left": lambda g, ns: fold(lambda a, b: g.r.Join(a, b, _on(g, "k", ns[-1])), [g.r.Table(n) for n in ns], True),
    "on_right": lambda g, ns: fold(lambda a, b: g.r.Join(a, b, _on(g, "k", ns[0])), [g.r.Table(n) for n in ns], False),
    "subqueries": lambda g, ns: nest(lambda a, n: g.r.SelectQuery([g.x.Field(n)], from_=a), g.r.Table(ns[0]), ns[1:]),
    "aliased": lambda g, ns: nest(lambda a, n: g.r.AliasedRelation(g.r.SelectQuery([g.x.Star()], from_=a), n), g.r.Table(ns[0]), ns[1:]),
}

# ------------------------------------------------------------------ queries: (g, names) -> query
def _f(g, ns):
    return [g.x.Field(n) for n in ns]


def _sel(g, n):
    return g.r.SelectQuery([g.x.Field(n)])


def _set(op, left, limit=False):
    def f(g, ns):
        return fold(lambda a, b: set_query(g, op, a, b, **({"limit": 3} if limit else {})), [_sel(g, n) for n in ns], left)

    return f


QUERY_LISTS = {
    "select": lambda g, ns: g.r.SelectQuery(_f(g, ns)),
    "aliases": lambda g, ns: g.r.SelectQuery([g.x.AliasedValue(g.x.wrap_literal(i), n) for i, n in enumerate(ns)]),
    "star_aliases": lambda g, ns: g.r.SelectQuery([g.x.AliasedStar(g.x.Star("t"), ns)]),
    "orderby": lambda g, ns: g.r.SelectQuery([g.x.Star()], from_=g.r.Table("t"), orderby=[g.o.OrderTerm(a, g.o.OrderType.DESC if i % 2 else g.o.OrderType.ASC) for i, a in enumerate(_f(g, ns))]),
    "values": lambda g, ns: g.r.ValuesQuery(_f(g, ns)),
    "value_rows": lambda g, ns: g.r.ValuesQuery([g.x.RowConstructor([a, g.x.wrap_literal(i)]) for i, a in enumerate(_f(g, ns))]),
    "with": lambda g, ns: g.r.SelectQuery([g.x.Star()], with_=[g.r.AliasedRelation(_sel(g, n), n) for n in ns]),
    "with_columns": lambda g, ns: g.r.SelectQuery([g.x.Star()], with_=[g.r.AliasedRelation(g.r.SelectQuery(_f(g, ns)), "w", ns)]),
    "windows": lambda g, ns: g.r.SelectQuery([g.x.Star()], from_=g.r.Table("t"), window={n: g.w.Window(partitions=[g.x.Field(n)]) for n in ns}),
    "where_and": lambda g, ns: g.r.SelectQuery([g.x.Star()], where=fold(g.x.And, _f(g, ns), True)),
    "having_or": lambda g, ns: g.r.SelectQuery([g.x.Star()], having=fold(g.x.Or, _f(g, ns), True)),
    "set_order": lambda g, ns: set_query(g, "union", _sel(g, "l"), _sel(g, "r"), orderby=[g.o.OrderTerm(a) for a in _f(g, ns)]),
}
QUERY_CHAINS = {
    "union_left": _set("union", True),
    "union_right": _set("union", False),
    "except_left": _set("except", True),
    "except_right": _set("except", False),
    "intersect_left": _set("intersect", True),
    "limits_left": _set("union_all", True, True),
    "limits_right": _set("union_all", False, True),
    "withs": lambda g, ns: nest(lambda q, n: g.r.SelectQuery([g.x.Field(n)], with_=[g.r.AliasedRelation(q, n)]), _sel(g, ns[0]), ns[1:]),
}


def in_query(g, rel):
    return g.r.SelectQuery([g.x.Star()], from_=rel)


def expr_place(g, table, label="place", sizes=None):
    k = g.ctx.pick(label, sorted(table))
    return table[k](g, [g.x.Field(n) for n in names(g, g.ctx.pick("size", sizes))])


def name_place(g, table, label="place", sizes=None):
    k = g.ctx.pick(label, sorted(table))
    return table[k](g, names(g, g.ctx.pick("size", sizes)))


def lists(ctx):
    return LONG_THOROUGH if ctx.thorough else LONG_QUICK


def deep(ctx):
    return DEEP_THOROUGH if ctx.thorough else DEEP_QUICK


def any_place(g, lists_sizes, deep_sizes):
    """a tree of any of the places"""
    kind = g.ctx.pick("kind", ["expr", "chain", "func", "group", "rel", "rel_chain", "query", "query_chain"])
    if kind == "expr":
        return expr_place(g, EXPR_LISTS, sizes=lists_sizes)
    if kind == "chain":
        return expr_place(g, EXPR_CHAINS, sizes=deep_sizes)
    if kind == "func":
        return expr_place(g, FUNC_LISTS, sizes=lists_sizes)
    if kind == "group":
        return grouped(g, expr_place(g, GROUP_LISTS, sizes=lists_sizes))
    if kind == "rel":
        return in_query(g, name_place(g, REL_LISTS, sizes=lists_sizes))
    if kind == "rel_chain":
        return in_query(g, name_place(g, REL_CHAINS, sizes=deep_sizes))
    if kind == "query":
        return name_place(g, QUERY_LISTS, sizes=lists_sizes)
    return name_place(g, QUERY_CHAINS, sizes=deep_sizes)
