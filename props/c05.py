"""C05: every printed FROM clause reads back unchanged."""
from sx.api import Harness

from .c04 import roundtrip
from .gen import REL, RLEAF, Gen, relation
from .special import tree as special_tree
from .long import REL_CHAINS, REL_LISTS, deep, in_query, lists, name_place

RMID = [k for k in REL if k.name not in ("NaturalLeft", "NaturalRight", "NaturalOuter", "OuterOn")]
RCORE = [k for k in REL if "core" in k.tags]


def wrap(g, rel):
    return g.r.SelectQuery([g.field()], from_=rel)


def h_two(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, wrap(g, relation(g, [REL + RLEAF, REL + RLEAF])))


def h_three(ctx):
    g = Gen(ctx)
    g.small = True
    k = REL if ctx.thorough else RMID
    roundtrip(ctx, g, wrap(g, relation(g, [k, k, k + RLEAF])), ctx.thorough)


def h_four(ctx):
    g = Gen(ctx)
    g.small = not ctx.thorough
    k = REL if ctx.thorough else RCORE[1:4]
    roundtrip(ctx, g, wrap(g, relation(g, [k, RCORE, RCORE, RCORE])), False)


def h_both_sides(ctx):
    """joins whose both sides are composite"""
    g = Gen(ctx)
    g.small = not ctx.thorough
    top = ctx.pick("top", [k for k in (REL if ctx.thorough else RMID) if "join" in k.tags])
    kids = [relation(g, [(REL if ctx.thorough else RMID) + RLEAF]) for _ in range(2)]
    roundtrip(ctx, g, wrap(g, top.build(g, kids)), False)


def h_on(ctx):
    """ON conditions of every shape stay with their join"""
    g = Gen(ctx)
    r, x = g.r, g.x
    f = g.field
    cond = {
        "and": lambda: x.And(x.Equal(f(), f()), x.Equal(f(), f())),
        "or": lambda: x.Or(x.Equal(f(), f()), f()),
        "not": lambda: x.Not(f()),
        "in": lambda: x.InQuery(f(), r.SelectQuery([f()], from_=r.Join(r.Table(g.name("t")), r.Table(g.name("t")), r.JoinConfig(r.JoinType.CROSS)))),
        "between": lambda: x.Between(f(), f(), f()),
        "true": lambda: x.wrap_literal(True),
    }[ctx.pick("cond", ["and", "or", "not", "in", "between", "true"])]()
    j = r.Join(r.Table(g.name("t")), r.Table(g.name("t")), r.JoinConfig(ctx.pick("type", [r.JoinType.INNER, r.JoinType.LEFT, r.JoinType.RIGHT, r.JoinType.OUTER]), criteria=r.JoinOnCriteria(cond)))
    side = ctx.pick("side", ["alone", "left", "right"])
    t = r.Table(g.name("t"))
    c2 = r.JoinConfig(r.JoinType.INNER, criteria=r.JoinOnCriteria(f()))
    rel = j if side == "alone" else (r.Join(j, t, c2) if side == "left" else r.Join(t, j, c2))
    roundtrip(ctx, g, wrap(g, rel))


def h_details(ctx):
    """lists of column aliases, USING columns, UNNEST arrays and sample percentages of every length"""
    g = Gen(ctx)
    r, x = g.r, g.x
    n = 1 + ctx.choose("n", ctx.params["n"])
    t = lambda: r.Table(g.name("t"))
    what = ctx.pick("what", ["cols", "using", "unnest", "sample_int", "sample_dec", "sample_expr"])
    rel = {
        "cols": lambda: r.AliasedRelation(t(), g.name("al"), [g.name("c") for _ in range(n)]),
        "using": lambda: r.Join(t(), t(), r.JoinConfig(ctx.pick("type", [r.JoinType.INNER, r.JoinType.LEFT, r.JoinType.RIGHT, r.JoinType.OUTER]), criteria=r.JoinUsingCriteria([g.name("c") for _ in range(n)]))),
        "unnest": lambda: r.AliasedRelation(r.Unnest([g.field() for _ in range(n)], with_ordinality=ctx.flag("ord")), g.name("al"), [g.name("c") for _ in range(n)]),
        "sample_int": lambda: r.TableSample(t(), r.SampleType.SYSTEM, g.lit_int(0, 100)),
        "sample_dec": lambda: r.TableSample(t(), r.SampleType.BERNOULLI, x.wrap_literal(__import__("decimal").Decimal("0.5"))),
        "sample_expr": lambda: r.TableSample(t(), r.SampleType.BERNOULLI, x.Add(g.field(), g.lit_int(0, 9))),
    }[what]()
    roundtrip(ctx, g, wrap(g, rel))


def h_long(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, in_query(g, name_place(g, REL_LISTS, sizes=lists(ctx))))


def h_deep(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, in_query(g, name_place(g, REL_CHAINS, sizes=deep(ctx))), ctx.thorough)


def h_special(ctx):
    """special values wherever a relation holds an expression"""
    from .zoo import ZOO

    g, rel = special_tree(ctx, [n for n in ZOO if n.startswith("rel:")])
    roundtrip(ctx, g, in_query(g, rel))


HARNESSES = [
    Harness("two_levels", h_two, "21 relation kinds in every position of 13, both print modes"),
    Harness("three_levels", h_three, "9 x 9 x 17 relation kinds along one spine in every position (thorough 13 x 13 x 21, both print modes)"),
    Harness("four_levels", h_four, "spines of four levels over 5 representative kinds, 3 on top (thorough: any of 13 on top)"),
    Harness("both_sides", h_both_sides, "6 joins with every pair of 17 kinds of operands (thorough: 10 joins, 21 kinds)"),
    Harness("join_conditions", h_on, "6 kinds of ON conditions x 4 join types x 3 positions, both print modes"),
    Harness("lists", h_details, "column lists and arrays of 1..3 (thorough 1..6) entries, sample percentages 0..100", {"n": 3}, {"n": 6}),
    Harness("special", h_special, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) wherever a relation holds an expression"),
    Harness("long", h_long, "3 kinds of lists in relations; lists of 1..17 and 19 sizes up to 129 (thorough 1..134 and 10 sizes up to 513) entries, one name symbolic"),
    Harness("deep", h_deep, "6 kinds of nested relations; chains of 1..8, 10, 12 (thorough 1..25) levels, one name symbolic"),
]
