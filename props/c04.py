"""C04: every clause of a printed query reads back unchanged."""
from sx.api import Harness

from .common import deep_eq, render
from .gen import ITEMS, SETOPS, SIMPLE, Gen, constraints, count, from_clause, norm_sugar, order_terms, select_items, set_query, simple_query
from .special import SPECIAL, grow, tree as special_tree
from .long import QUERY_CHAINS, QUERY_LISTS, deep, lists, name_place


def roundtrip(ctx, g, q, both=True):
    from treeno.builder.convert import query_from_sql

    M = g.T.base.PrintMode
    mode = ctx.pick("mode", [M.DEFAULT, M.PRETTY]) if both else M.DEFAULT
    sql = q.sql(g.T.base.PrintOptions(mode=mode))
    ctx.sample(lambda: str(sql))
    back = query_from_sql(sql)
    ctx.check(deep_eq(q, back, norm=norm_sugar(g)), "same query", lambda: "%s  printed as  %s  reads as  %s" % (render(q), sql, render(back)))


def subset(ctx, label, names):
    """every subset of the optional clauses"""
    m = ctx.choose(label, 2 ** len(names))
    return [n for i, n in enumerate(names) if m >> i & 1]


def h_select_clauses(ctx):
    g = Gen(ctx)
    x, r = g.x, g.r
    Q = g.T.base.SetQuantifier
    cl = subset(ctx, "clauses", ["from", "where", "groupby", "having", "window", "orderby", "offset", "limit", "with"])
    kw = constraints(g, cl)
    if "from" in cl:
        kw["from_"] = r.Table(g.name("t"))
    if "where" in cl:
        kw["where"] = x.Equal(g.field(), g.field())
    if "groupby" in cl:
        kw["groupby"] = g.g.GroupBy([g.g.GroupingSet([g.field()])])
    if "having" in cl:
        kw["having"] = x.IsNull(g.field())
    if "window" in cl:
        kw["window"] = {g.name("w"): g.w.Window(partitions=[g.field()])}
    if "with" in cl:
        kw["with_"] = [r.AliasedRelation(simple_query(g, "select"), g.name("cte"))]
    quant = ctx.pick("quantifier", [Q.ALL, Q.DISTINCT])
    roundtrip(ctx, g, r.SelectQuery([g.field()], select_quantifier=quant, **kw), False)


def h_select_items(ctx):
    g = Gen(ctx)
    Q = g.T.base.SetQuantifier
    items = select_items(g, ctx.pick("items", ITEMS))
    if ctx.flag("more"):
        items = items + select_items(g, ctx.pick("items2", ITEMS))
    q = g.r.SelectQuery(items, from_=from_clause(g, ctx.pick("from", [None, "table", "alias", "join", "sub"])), select_quantifier=ctx.pick("quantifier", [Q.ALL, Q.DISTINCT]))
    roundtrip(ctx, g, q)


def h_values(ctx):
    """every clause with its own contents in one query, in both modes"""
    g = Gen(ctx)
    x, r, w = g.x, g.r, g.w
    part = ctx.pick("part", ["where", "having", "orderby", "window", "limits", "with", "values", "groupby"])
    kw = {}
    if part in ("where", "having"):
        cond = ctx.pick("cond", ["and", "or", "not", "in", "between", "subquery", "bool"])
        f = g.field
        kw[part] = {
            "and": lambda: x.And(x.Equal(f(), f()), x.LessThan(f(), f())),
            "or": lambda: x.Or(x.And(f(), f()), f()),
            "not": lambda: x.Not(f()),
            "in": lambda: x.InList(f(), [f(), x.wrap_literal(2)]),
            "between": lambda: x.Between(f(), f(), f()),
            "subquery": lambda: x.InQuery(f(), r.SelectQuery([f()], where=f())),
            "bool": lambda: x.wrap_literal(True),
        }[cond]()
    elif part == "orderby":
        kw["orderby"] = order_terms(g, 1 + ctx.choose("n", 2))
    elif part == "window":
        n = 1 + ctx.choose("n", 2)
        names = [g.name("w") for _ in range(n)]
        if n == 2:
            ctx.assume(names[0] != names[1])
        kw["window"] = {nm: ctx.pick("win", [lambda: w.Window(partitions=[g.field()]), lambda: w.Window(orderby=order_terms(g))])() for nm in names}
    elif part == "limits":
        kw.update(constraints(g, subset(ctx, "c", ["offset", "limit", "orderby"])))
    elif part == "with":
        n = 1 + ctx.choose("n", 2)
        kw["with_"] = []
        for _ in range(n):
            q = simple_query(g, ctx.pick("cte", SIMPLE))
            cols = ctx.pick("cols", [None, 1])
            kw["with_"].append(r.AliasedRelation(q, g.name("cte"), cols and [g.name("col")]))
    elif part == "groupby":
        kw["groupby"] = g.g.GroupBy([g.g.GroupingSet([g.field()]), g.g.Cube([g.field()])])
    if part == "values":
        n = 1 + ctx.choose("n", 3)
        rows = ctx.flag("rows")
        mk = (lambda: x.RowConstructor([g.lit_int(0, 9), g.lit_int(0, 9)])) if rows else (lambda: g.lit_int(0, 9))
        q = r.ValuesQuery([mk() for _ in range(n)], **constraints(g, subset(ctx, "c", ["offset", "limit", "orderby"])))
    else:
        q = r.SelectQuery([g.field()], from_=r.Table(g.name("t")), **kw)
    roundtrip(ctx, g, q)


def h_limits(ctx):
    """OFFSET and LIMIT of every query kind with symbolic values, zero included"""
    g = Gen(ctx)
    kind = ctx.pick("kind", ["select", "values", "table", "union", "intersect"])
    kw = constraints(g, subset(ctx, "c", ["orderby"]))
    which = subset(ctx, "which", ["offset", "limit"])
    for n in which:
        kw[n] = ctx.int(n, 0, 2**31 - 1, 0)
    r = g.r
    t = r.Table(g.name("t"))
    if kind == "select":
        q = r.SelectQuery([g.field()], from_=t, **kw)
    elif kind == "values":
        q = r.ValuesQuery([g.lit_int(0, 9)], **kw)
    elif kind == "table":
        q = r.TableQuery(t, **kw)
    else:
        q = set_query(g, kind, simple_query(g, "select"), simple_query(g, "select"), **kw)
    roundtrip(ctx, g, q, False)


def h_set_operands(ctx):
    """a set operation over every pair of operand kinds, with clauses of its own"""
    g = Gen(ctx)
    op = ctx.pick("op", SETOPS)
    left, right = simple_query(g, ctx.pick("left", SIMPLE)), simple_query(g, ctx.pick("right", SIMPLE))
    kw = constraints(g, ctx.pick("clauses", [[], ["orderby"], ["limit"], ["offset", "limit", "orderby"]]))
    if ctx.flag("with"):
        kw["with_"] = [g.r.AliasedRelation(simple_query(g, "select"), g.name("cte"))]
    roundtrip(ctx, g, set_query(g, op, left, right, **kw), False)


def h_set_nesting(ctx):
    """set operations nested on either side, inner and outer ones with their own clauses"""
    g = Gen(ctx)

    def build(d, label):
        if d == 0:
            return simple_query(g, "select")
        op = ctx.pick("op" + label, SETOPS)
        side = ctx.pick("side" + label, ["left", "right", "both"] if d > 1 else ["none"])
        l = build(d - 1 if side in ("left", "both") else 0, label + "l")
        r = build(d - 1 if side in ("right", "both") else 0, label + "r")
        kw = constraints(g, ctx.pick("clauses" + label, [[], ["limit"], ["orderby"]] if d < ctx.params["d"] or ctx.thorough else [[], ["limit"]]))
        return set_query(g, op, l, r, **kw)

    roundtrip(ctx, g, build(ctx.params["d"], ""), False)


def h_nested_queries(ctx):
    """queries inside FROM, WITH, IN and scalar subqueries keep their own clauses"""
    g = Gen(ctx)
    x, r = g.x, g.r
    place = ctx.pick("place", ["from", "from_alias", "with", "in", "operand", "lateral", "join_left", "join_right"])
    inner_kind = ctx.pick("inner", SIMPLE + ["union", "with"])
    if inner_kind == "union":
        inner = set_query(g, "union", simple_query(g, "select"), simple_query(g, "values"), limit=count(g, "l"))
    elif inner_kind == "with":
        ctx.assume(place not in ("from", "from_alias", "join_left", "join_right", "operand") or True)
        inner = r.SelectQuery([g.field()], with_=[r.AliasedRelation(simple_query(g, "select"), g.name("cte"))])
    else:
        inner = simple_query(g, inner_kind)
    f = g.field
    t = lambda: r.Table(g.name("t"))
    cross = r.JoinConfig(r.JoinType.CROSS)
    outer = ctx.pick("outer", [{}, {"limit": 5}])
    q = {
        "from": lambda: r.SelectQuery([f()], from_=inner, **outer),
        "from_alias": lambda: r.SelectQuery([f()], from_=r.AliasedRelation(inner, g.name("al")), **outer),
        "with": lambda: r.SelectQuery([f()], with_=[r.AliasedRelation(inner, g.name("al"))], **outer),
        "in": lambda: r.SelectQuery([f()], where=x.InQuery(f(), inner), **outer),
        "operand": lambda: r.SelectQuery([f()], where=x.Equal(f(), inner), **outer),
        "lateral": lambda: r.SelectQuery([f()], from_=r.Join(t(), r.Lateral(inner), cross), **outer),
        "join_left": lambda: r.SelectQuery([f()], from_=r.Join(inner, t(), cross), **outer),
        "join_right": lambda: r.SelectQuery([f()], from_=r.Join(t(), inner, cross), **outer),
    }[place]()
    roundtrip(ctx, g, q)


def h_long(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, name_place(g, QUERY_LISTS, sizes=lists(ctx)))


def h_deep(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, name_place(g, QUERY_CHAINS, sizes=deep(ctx)), ctx.thorough)


def h_special(ctx):
    """special values at every position of every kind of query"""
    from .zoo import ZOO

    kind = ctx.pick("what", ["zoo", "values", "table_items"])
    if kind == "zoo":
        g, query = special_tree(ctx, [n for n in ZOO if n.startswith("query:")])
    elif kind == "values":
        g, query = grow(ctx, "values", lambda g: g.r.ValuesQuery([g.x.RowConstructor([g.field(), g.field()]), g.x.RowConstructor([g.field(), g.field()])]) if ctx.flag("rows") else g.r.ValuesQuery([g.field(), g.field()]))
    else:
        g, query = grow(ctx, "items", lambda g: g.r.SelectQuery([g.field(), g.x.AliasedValue(g.field(), g.name("al")), g.field()], from_=g.r.Table(g.name("t")), where=g.field(), having=g.field(), orderby=[g.o.OrderTerm(g.field()), g.o.OrderTerm(g.field(), g.o.OrderType.DESC)], offset=0, limit=ctx.pick("limit", [None, 0, 1])))
    roundtrip(ctx, g, query, ctx.thorough)


HARNESSES = [
    Harness("select_clauses", h_select_clauses, "all 512 subsets of the optional clauses x ALL/DISTINCT, symbolic names and numbers 0..9"),
    Harness("select_items", h_select_items, "1..2 groups of 7 kinds of select items x 5 kinds of FROM x ALL/DISTINCT, both print modes"),
    Harness("clause_contents", h_values, "each clause with 1..3 entries of several kinds, both print modes"),
    Harness("limits", h_limits, "OFFSET/LIMIT 0..2^31-1 on 5 kinds of queries"),
    Harness("set_operands", h_set_operands, "4 set operations x 8 x 8 operand kinds x 4 clause sets x WITH"),
    Harness("set_nesting", h_set_nesting, "set operations nested 2 (thorough 3) deep on either or both sides, with inner clauses", {"d": 2}, {"d": 3}),
    Harness("nested_queries", h_nested_queries, "10 kinds of queries in 8 places of a query"),
    Harness("special", h_special, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) at every position of the 5 full queries, VALUES and a SELECT with OFFSET 0"),
    Harness("long", h_long, "12 kinds of lists in queries; lists of 1..17 and 19 sizes up to 129 (thorough 1..134 and 10 sizes up to 513) entries, one name symbolic"),
    Harness("deep", h_deep, "8 kinds of nested queries; chains of 1..8, 10, 12 (thorough 1..25) levels, one name symbolic"),
]
