"""C08: GROUP BY structures read back unchanged."""
from sx.api import Harness

from .c04 import roundtrip as qroundtrip
from .c06 import is_arg, q
from .common import render, zand_all
from .gen import ALL, Gen
from .special import grow
from .long import GROUP_LISTS, expr_place, lists

ELEMENTS = ["plain", "set0", "set2", "set3", "sets_e", "sets_1", "sets_2", "sets_mixed", "cube1", "cube2", "rollup1", "rollup3"]


def element(g, kind, f=None):
    G = g.g
    f = f or g.field
    S = lambda n: G.GroupingSet([f() for _ in range(n)])
    return {
        "plain": lambda: S(1),
        "set0": lambda: S(0),
        "set2": lambda: S(2),
        "set3": lambda: S(3),
        "sets_e": lambda: G.GroupingSetList([S(0)]),
        "sets_1": lambda: G.GroupingSetList([S(1)]),
        "sets_2": lambda: G.GroupingSetList([S(2)]),
        "sets_mixed": lambda: G.GroupingSetList([S(2), S(1), S(0), S(1)]),
        "cube1": lambda: G.Cube([f()]),
        "cube2": lambda: G.Cube([f(), f()]),
        "rollup1": lambda: G.Rollup([f()]),
        "rollup3": lambda: G.Rollup([f(), f(), f()]),
    }[kind]()


def group(g, elements, quant):
    return g.r.SelectQuery([g.field()], from_=g.r.Table(g.name("t")), groupby=g.g.GroupBy(elements, quant))


def quantifier(ctx, g):
    Q = g.T.base.SetQuantifier
    return ctx.pick("quantifier", [Q.ALL, Q.DISTINCT])


def h_lists(ctx):
    g = Gen(ctx)
    n = 1 + ctx.choose("n", ctx.params["n"])
    els = [element(g, ctx.pick("el", ELEMENTS)) for _ in range(n)]
    qroundtrip(ctx, g, group(g, els, quantifier(ctx, g)), n < 3)


def h_sets(ctx):
    """GROUPING SETS, CUBE and ROLLUP lists of any sizes"""
    g = Gen(ctx)
    G = g.g
    what = ctx.pick("what", ["sets", "cube", "rollup"])
    n = 1 + ctx.choose("n", ctx.params["n"])
    if what == "sets":
        el = G.GroupingSetList([G.GroupingSet([g.field() for _ in range(ctx.choose("size", ctx.params["size"]))]) for _ in range(n)])
    else:
        el = (G.Cube if what == "cube" else G.Rollup)([g.field() for _ in range(n)])
    qroundtrip(ctx, g, group(g, [el], quantifier(ctx, g)))


def h_expressions(ctx):
    """every kind of expression as grouping expression"""
    g = Gen(ctx)
    G = g.g
    kind = ctx.pick("kind", [k for k in ALL if "subquery" not in k.tags and "lambda" not in k.tags])
    e = kind.build(g, [g.plain(kind) for _ in range(kind.slots)])
    slot = ctx.pick("slot", ["plain", "pair", "sets1", "sets2", "cube", "rollup", "after"])
    els = {
        "plain": lambda: [G.GroupingSet([e])],
        "pair": lambda: [G.GroupingSet([g.field(), e])],
        "sets1": lambda: [G.GroupingSetList([G.GroupingSet([e]), G.GroupingSet([])])],
        "sets2": lambda: [G.GroupingSetList([G.GroupingSet([e, g.field()]), G.GroupingSet([e])])],
        "cube": lambda: [G.Cube([e])],
        "rollup": lambda: [G.Rollup([g.field(), e])],
        "after": lambda: [G.GroupingSet([g.field()]), G.GroupingSet([e])],
    }[slot]()
    qroundtrip(ctx, g, group(g, els, g.T.base.SetQuantifier.ALL), False)


def h_read(ctx):
    """GROUP BY written in SQL: each column is in the set where it was written"""
    from treeno.builder.convert import query_from_sql

    g = Gen(ctx)
    G = g.g
    low = ctx.flag("lower")
    kw = lambda s: s.lower() if low else s
    forms = ["a", "(a)", "(a, b)", "()", "((a))", "((a), b)", "CUBE (a, b)", "ROLLUP (a)", "GROUPING SETS ((a, b), c, (), (d))", "GROUPING SETS (a)", "GROUPING SETS ((a, b))"]
    want = [
        (G.GroupingSet, "a"), (G.GroupingSet, "a"), (G.GroupingSet, "ab"), (G.GroupingSet, ""), (G.GroupingSet, "a"), (G.GroupingSet, "ab"),
        (G.Cube, "ab"), (G.Rollup, "a"), (G.GroupingSetList, ["ab", "c", "", "d"]), (G.GroupingSetList, ["a"]), (G.GroupingSetList, ["ab"]),
    ]
    n = 1 + ctx.choose("n", 2)
    text = ""
    checks = []
    for _ in range(n):
        i = ctx.choose("form", len(forms))
        names = {c: g.name(c) for c in "abcd"}
        if text != "":
            text = text + ", "
        for ch in forms[i]:
            text = text + (q(names[ch]) if ch in names else kw(ch))
        checks.append((want[i], names))
    quant = ctx.pick("q", ["", "ALL ", "DISTINCT "])
    tree = query_from_sql("SELECT 1 FROM t GROUP BY " + kw(quant) + text)
    gb = tree.groupby

    def same_set(s, cols, names):
        return zand_all([type(s) is G.GroupingSet, len(s.values) == len(cols)]) and zand_all([is_arg(g, v, names[c]) for v, c in zip(s.values, cols)])

    ok = [type(gb) is G.GroupBy and len(gb.groups) == n and gb.groupby_quantifier.name == (quant.strip() or "ALL")]
    if ok[0]:
        for el, ((cls, cols), names) in zip(gb.groups, checks):
            if type(el) is not cls:
                ok.append(False)
            elif cls is G.GroupingSetList:
                ok.append(len(el.groups) == len(cols))
                ok += [same_set(s, c, names) for s, c in zip(el.groups, cols)]
            else:
                ok.append(len(el.values) == len(cols))
                ok += [is_arg(g, v, names[c]) for v, c in zip(el.values, cols)]
    ctx.check(zand_all(ok), "grouping read as written", lambda: "%s reads as %s" % (text, render(gb)))


def h_long(ctx):
    g = Gen(ctx)
    qroundtrip(ctx, g, group(g, expr_place(g, GROUP_LISTS, sizes=lists(ctx)), quantifier(ctx, g)), ctx.thorough)


def h_special(ctx):
    """special values in every kind of grouping element"""
    kind = ctx.pick("element", ELEMENTS)
    g, e = grow(ctx, kind, lambda g: element(g, kind))
    qroundtrip(ctx, g, group(g, [e], quantifier(ctx, g)))


HARNESSES = [
    Harness("lists", h_lists, "1..3 (thorough 1..4) grouping elements of 12 shapes, ALL or DISTINCT, both print modes", {"n": 3}, {"n": 4}),
    Harness("sets", h_sets, "GROUPING SETS of 1..4 (thorough 1..5) sets of 0..3 (0..4) columns, CUBE and ROLLUP of as many", {"n": 4, "size": 4}, {"n": 5, "size": 5}),
    Harness("expressions", h_expressions, "58 kinds of expression in 7 positions"),
    Harness("read", h_read, "1..2 elements of 11 forms written in SQL, symbolic column names, keywords in either letter case"),
    Harness("special", h_special, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) in every kind of grouping element"),
    Harness("long", h_long, "7 kinds of lists in GROUP BY; lists of 1..17 and 19 sizes up to 129 (thorough 1..134 and 10 sizes up to 513) entries, one name symbolic"),
]
