"""C01: printed expressions read back as the same expression."""
from sx.api import Harness

from .common import deep_eq, modules, render
from .gen import ALL, CORE, KINDS, LEAVES, OPS, BYNAME, Gen, expr, norm_sugar
from .special import tree as special_tree
from .long import EXPR_CHAINS, EXPR_LISTS, deep, expr_place, lists


def roundtrip(ctx, g, node, modes=("DEFAULT", "PRETTY")):
    T = g.T
    from treeno.builder.convert import expression_from_sql

    M = T.base.PrintMode
    ctx.assume(not isinstance(node, g.r.Query))
    if len(modes) > 1:
        mode = ctx.pick("mode", modes)
    else:
        mode = modes[0]
    sql = node.sql(T.base.PrintOptions(mode=M[mode]))
    ctx.sample(lambda: str(sql))
    back = expression_from_sql(sql)
    ctx.check(deep_eq(node, back, norm=norm_sugar(g)), "same expression", lambda: "%s  printed as  %s  reads as  %s" % (render(node), sql, render(back)))


def h_depth1(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, expr(g, [ALL, LEAVES]))


def h_depth2(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, expr(g, [KINDS, KINDS]), ("DEFAULT",))


def h_depth3(ctx):
    g = Gen(ctx)
    ks = KINDS if ctx.thorough else CORE
    roundtrip(ctx, g, expr(g, [ks, CORE, CORE]), ("DEFAULT",))


def h_pretty(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, expr(g, [KINDS, KINDS if ctx.thorough else CORE]), ("PRETTY",))


def h_long(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, expr_place(g, EXPR_LISTS, sizes=lists(ctx)))


def h_deep(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, expr_place(g, EXPR_CHAINS, sizes=deep(ctx)), ("DEFAULT", "PRETTY") if ctx.thorough else ("DEFAULT",))


def h_special(ctx):
    """special values at every position of every construct"""
    from .zoo import ZOO

    g, e = special_tree(ctx, [n for n in ZOO if n.startswith("expr:")])
    roundtrip(ctx, g, e, ("DEFAULT", "PRETTY") if ctx.thorough else ("DEFAULT",))


HARNESSES = [
    Harness("one_level", h_depth1, "every construct x every child position x every kind of leaf, both print modes"),
    Harness("two_levels", h_depth2, "every construct in every child position of every construct"),
    Harness("three_levels", h_depth3, "three levels of one construct per precedence level (thorough: any construct on top)"),
    Harness("pretty", h_pretty, "two levels in pretty mode"),
    Harness("special", h_special, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) at every position of every construct"),
    Harness("long", h_long, "6 kinds of lists; lists of 1..17 and 19 sizes up to 129 (thorough 1..134 and 10 sizes up to 513) entries, one name symbolic"),
    Harness("deep", h_deep, "31 kinds of nesting; chains of 1..8, 10, 12 (thorough 1..25) levels, one name symbolic"),
]
