"""C18: visitors reach every node of a tree."""
from sx.api import Harness

from .c04 import subset
from .c06 import AGGREGATES, SPEC, cls_of
from .c08 import ELEMENTS, element
from .common import render
from .gen import ALL, BYNAME, ITEMS, KINDS, REL, RLEAF, SETOPS, SIMPLE, Gen, constraints, expr, from_clause, ok_child, order_terms, relation, select_items, set_query, simple_query
from .zoo import NAMES, ZOO, nodes, window
from .special import tree as special_tree
from .long import any_place, deep as deep_sizes, lists as long_sizes


def is_node(n):
    return not hasattr(n, "type_name") or not hasattr(n, "parameters")


def contained(tree):
    """the nodes of a tree (data types are attributes of nodes rather than nodes), found by our own traversal"""
    return [(p, n) for p, n in nodes(tree) if is_node(n)]


def recorder(kinds, prune=()):
    """a visitor that notes which method is called with which node, and goes on to the children"""
    from treeno.visitor import TreenoVisitor

    log = []

    def method(name):
        def f(self, node):
            log.append((name, node))
            if name not in prune:
                node.visit(self)
            return None

        return f

    cls = type("Recorder", (TreenoVisitor,), {"visit_" + k: method(k) for k in kinds})
    return cls(), log


def check(ctx, tree):
    from treeno.visitor import TreenoVisitor

    have = contained(tree)
    kinds = {type(n).__name__ for _, n in have}
    ctx.sample(lambda: render(tree))
    v, log = recorder(kinds)
    try:
        v.visit(tree)
    except Exception as e:
        ctx.check(False, "every kind of node has a method", lambda: "%s: %s: %s" % (render(tree), type(e).__name__, e))
        return
    want, got = {}, {}
    for p, n in have:
        want[id(n)] = want.get(id(n), 0) + 1
    for k, n in log:
        got[id(n)] = got.get(id(n), 0) + 1
    missed = [p for p, n in have if got.get(id(n), 0) < want[id(n)]]
    twice = [p for p, n in have if got.get(id(n), 0) > want[id(n)]]
    strange = [k for k, n in log if id(n) not in want]
    ctx.check(not missed, "every node is visited", lambda: "%s: not visited: %s" % (render(tree), ", ".join(missed)))
    ctx.check(not twice and not strange, "every node is visited once", lambda: "%s: visited again: %s %s" % (render(tree), ", ".join(twice), ", ".join(strange)))
    wrong = [(k, type(n).__name__) for k, n in log if k != type(n).__name__]
    ctx.check(not wrong, "every node is dispatched as its own kind", lambda: "%s: %s" % (render(tree), wrong))
    # the plain visitor has a method for every kind, which does nothing of its own
    plain = TreenoVisitor()
    for p, n in have:
        ctx.check(callable(getattr(plain, "visit_" + type(n).__name__, None)), "the visitor class has a method of every kind", lambda: type(n).__name__)


def h_zoo(ctx):
    g = Gen(ctx)
    check(ctx, ZOO[ctx.pick("node", [n for n in NAMES if n != "type"])](g))


def h_expressions(ctx):
    """every kind of expression in every position of every kind"""
    g = Gen(ctx)
    top = ctx.pick("top", [k for k in KINDS if k.slots])
    pos = ctx.choose("pos", top.slots)
    inner = ctx.pick("inner", ALL if ctx.thorough else [k for k in ALL if k.slots != 1 or k.name in ("Not", "Negative", "Cast")])
    kids = []
    for i in range(top.slots):
        if i == pos:
            c = inner.build(g, [g.plain(inner) for _ in range(inner.slots)])
            ok_child(g, top, i, c)
            kids.append(c)
        else:
            kids.append(g.plain(top))
    check(ctx, top.build(g, kids))


def h_optional(ctx):
    """every node kind with every subset of its optional parts"""
    g = Gen(ctx)
    x, r, w = g.x, g.r, g.w
    f = g.field
    what = ctx.pick("what", ["like", "case", "agg", "listagg", "window", "count", "unixtime", "values", "normalize"])
    if what == "like":
        e = x.Like(f(), f(), f() if ctx.flag("escape") else None)
    elif what == "case":
        n = 1 + ctx.choose("branches", 3)
        e = x.Case([x.When(f(), f()) for _ in range(n)], x.Else(f()) if ctx.flag("else") else None, f() if ctx.flag("value") else None)
    elif what == "agg":
        parts = subset(ctx, "parts", ["orderby", "filter_", "window", "null"])
        name = ctx.pick("name", AGGREGATES if ctx.thorough else ["SUM", "MAX_BY", "APPROX_PERCENTILE", "MAP_AGG", "COUNT"])
        sig = ctx.pick("sig", SPEC[name][2])
        kw = {s: f() for s in sig}
        if "orderby" in parts:
            kw["orderby"] = order_terms(g, 2)
        if "filter_" in parts:
            kw["filter_"] = f()
        if "window" in parts:
            kw["window"] = window(g)
        if "null" in parts:
            kw["null_treatment"] = w.NullTreatment.IGNORE
        cls = cls_of(name)
        e = cls(kw.pop("value"), **kw) if name == "APPROX_PERCENTILE" else cls(**kw)
    elif what == "listagg":
        A = g.agg
        e = A.ListAgg(f(), separator="," if ctx.flag("sep") else None, overflow_filler=A.OverflowFiller(A.CountIndication.WITH_COUNT, "..") if ctx.flag("filler") else None, orderby=order_terms(g, 1 + ctx.choose("n", 2)))
    elif what == "window":
        B = w.BoundType
        parts = subset(ctx, "parts", ["parent_window", "partitions", "orderby"])
        kw = {}
        if "parent_window" in parts:
            kw["parent_window"] = g.name("pw")
        if "partitions" in parts:
            kw["partitions"] = [f(), f()]
        if "orderby" in parts:
            kw["orderby"] = order_terms(g, 2)
        bounds = [lambda: w.UnboundedFrameBound(B.PRECEDING), lambda: w.CurrentFrameBound(), lambda: w.BoundedFrameBound(B.FOLLOWING, f())]
        if ctx.flag("frame"):
            kw.update(frame_type=w.FrameType.ROWS, start_bound=ctx.pick("start", bounds)(), end_bound=ctx.pick("end", bounds)())
        e = w.Window(**kw)
    elif what == "count":
        e = g.agg.Count(x.Star(g.name("tb") if ctx.flag("table") else None), filter_=f() if ctx.flag("filter") else None, window=window(g) if ctx.flag("window") else None)
    elif what == "unixtime":
        e = g.fdate.FromUnixtime(f(), **ctx.pick("args", [lambda: {}, lambda: {"zone": f()}, lambda: {"hours": f(), "minutes": f()}])())
    elif what == "values":
        e = r.ValuesQuery([ctx.pick("v", [f, lambda: x.RowConstructor([f(), f()])])() for _ in range(1 + ctx.choose("n", 3))])
    else:
        e = g.fstring.Normalize(f(), g.fstring.NormalForm.NFC if ctx.flag("form") else None)
    check(ctx, e)


def h_queries(ctx):
    """every subset of the clauses of every kind of query"""
    g = Gen(ctx)
    x, r = g.x, g.r
    kind = ctx.pick("kind", ["select", "union", "intersect", "except", "values", "table"])
    own = ["from", "where", "groupby", "having", "window"] if kind == "select" else []
    cl = subset(ctx, "clauses", own + ["orderby", "with", "limit"])
    kw = constraints(g, cl)
    if "from" in cl:
        kw["from_"] = r.Table(g.name("t"))
    if "where" in cl:
        kw["where"] = x.Equal(g.field(), g.field())
    if "groupby" in cl:
        kw["groupby"] = g.g.GroupBy([g.g.GroupingSet([g.field()])])
    if "having" in cl:
        kw["having"] = x.IsNull(g.field())
    if "window" in cl:
        kw["window"] = {"w1": g.w.Window(partitions=[g.field()]), "w2": g.w.Window(orderby=order_terms(g))}
    if "with" in cl:
        kw["with_"] = [r.AliasedRelation(simple_query(g, "select"), g.name("cte")) for _ in range(2)]
    if kind == "select":
        q = r.SelectQuery([g.field(), x.Add(g.field(), g.lit_int())], **kw)
    elif kind == "values":
        q = r.ValuesQuery([g.lit_int(), g.field()], **kw)
    elif kind == "table":
        q = r.TableQuery(r.Table(g.name("t")), **kw)
    else:
        q = set_query(g, kind, simple_query(g, "select"), simple_query(g, "values"), **kw)
    check(ctx, q)


def h_relations(ctx):
    """every relation in every position, two levels (thorough three)"""
    g = Gen(ctx)
    g.small = True
    k = REL + RLEAF
    rel = relation(g, [k, k, k] if ctx.thorough else [k, k])
    check(ctx, g.r.SelectQuery([g.field()], from_=rel) if ctx.flag("query") else rel)


def h_groups(ctx):
    g = Gen(ctx)
    n = 1 + ctx.choose("n", 3)
    check(ctx, g.g.GroupBy([element(g, ctx.pick("el", ELEMENTS)) for _ in range(n)]))


def h_nested(ctx):
    """queries in every place of a query"""
    g = Gen(ctx)
    x, r = g.x, g.r
    f = g.field
    inner = ZOO[ctx.pick("inner", [n for n in NAMES if n.startswith("query:")])](g)
    t = lambda: r.Table(g.name("t"))
    q = {
        "from": lambda: r.SelectQuery([f()], from_=inner),
        "alias": lambda: r.SelectQuery([f()], from_=r.AliasedRelation(inner, g.name("al"))),
        "with": lambda: r.SelectQuery([f()], with_=[r.AliasedRelation(inner, g.name("al"))]),
        "in": lambda: r.SelectQuery([f()], where=x.InQuery(f(), inner)),
        "operand": lambda: r.SelectQuery([f()], where=x.Equal(f(), inner)),
        "lateral": lambda: r.SelectQuery([f()], from_=r.Join(t(), r.Lateral(inner), r.JoinConfig(r.JoinType.CROSS))),
        "on": lambda: r.SelectQuery([f()], from_=r.Join(t(), t(), r.JoinConfig(r.JoinType.LEFT, criteria=r.JoinOnCriteria(x.InQuery(f(), inner))))),
        "order": lambda: r.SelectQuery([f()], orderby=[g.o.OrderTerm(x.Add(f(), inner))]),
        "group": lambda: r.SelectQuery([f()], groupby=g.g.GroupBy([g.g.Cube([x.Add(f(), inner)])])),
        "window": lambda: r.SelectQuery([f()], window={"w": g.w.Window(partitions=[x.Add(f(), inner)])}),
        "filter": lambda: r.SelectQuery([g.agg.Sum(f(), filter_=x.InQuery(f(), inner))]),
        "lambda": lambda: x.Lambda([x.Lambda.Variable("v")], x.InQuery(f(), inner)),
        "sample": lambda: r.TableSample(t(), r.SampleType.SYSTEM, x.Add(f(), inner)),
        "setleft": lambda: r.UnionQuery(inner, simple_query(g, "select")),
        "setright": lambda: r.ExceptQuery(simple_query(g, "select"), inner),
        "item": lambda: r.SelectQuery([x.AliasedValue(x.Add(inner, f()), g.name("al"))]),
        "unnest": lambda: r.SelectQuery([f()], from_=r.Unnest([f(), x.Add(inner, f())])),
        "bound": lambda: g.w.Window(frame_type=g.w.FrameType.ROWS, start_bound=g.w.BoundedFrameBound(g.w.BoundType.PRECEDING, x.Add(inner, f()))),
    }[ctx.pick("place", ["from", "alias", "with", "in", "operand", "lateral", "on", "order", "group", "window", "filter", "lambda", "sample", "setleft", "setright", "item", "unnest", "bound"])]()
    check(ctx, q)


def h_read(ctx):
    """a tree read from SQL is traversed like one built"""
    from treeno.builder.convert import query_from_sql

    g = Gen(ctx)
    q = ZOO[ctx.pick("query", [n for n in NAMES if n.startswith("query:") or n in ("rel:Query", "rel:Unnest2")])](g)
    if not isinstance(q, g.r.Query) or ctx.flag("wrap"):
        q = g.r.SelectQuery([g.field()], from_=q)
    check(ctx, query_from_sql(q.sql(g.T.base.PrintOptions())))


def h_stop(ctx):
    """a visitor that doesn't go below one kind sees everything else; the kinds below are seen only elsewhere"""
    g = Gen(ctx)
    tree = ZOO[ctx.pick("node", [n for n in NAMES if n.startswith("query:") or n in ("expr:Case", "fn:LISTAGG", "rel:LeftOn", "agg:SUM", "part:groupby")])](g)
    have = contained(tree)
    kinds = sorted({type(n).__name__ for _, n in have})
    stop = ctx.pick("stop", kinds)
    v, log = recorder(kinds, {stop})
    v.visit(tree)
    below = set()
    roots = [p for p, n in have if type(n).__name__ == stop]
    want = sorted(id(n) for p, n in have if not any(p != q and p.startswith(q) and p[len(q)] in ".[{<" for q in roots))
    got = sorted(id(n) for _, n in log)
    ctx.check(want == got, "children are visited through their parents only", lambda: "%s stopping at %s: %d nodes instead of %d" % (render(tree), stop, len(got), len(want)))


def h_long(ctx):
    check(ctx, any_place(Gen(ctx), long_sizes(ctx) if ctx.thorough else [1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 101], deep_sizes(ctx)))


def h_special(ctx):
    g, node = special_tree(ctx, [n for n in NAMES if n != "type" and (ctx.thorough or not n.startswith("fn:"))])
    check(ctx, node)


def h_shared(ctx):
    """one object in several places of a tree is visited in each of them"""
    g = Gen(ctx)
    x, r, o = g.x, g.r, g.o
    what = ctx.pick("what", ["expression", "relation", "node"])
    if what == "expression":
        k = ctx.pick("top", [k for k in KINDS if k.slots > 1])
        one = ctx.pick("one", [g.field, g.lit_int, lambda: x.Add(g.field(), g.lit_int()), lambda: g.agg.Sum(g.field())])()
        tree = k.build(g, [one] * k.slots)
        if ctx.flag("again"):
            tree = r.SelectQuery([tree, tree], where=tree, groupby=g.g.GroupBy([g.g.GroupingSet([tree])]), having=tree, orderby=[o.OrderTerm(tree)])
    elif what == "relation":
        k = ctx.pick("top", REL + SETOPS)
        t = r.Table(g.name("t"))
        one = ctx.pick("one", [lambda: t, lambda: r.AliasedRelation(t, g.name("al")), lambda: r.Join(t, t, r.JoinConfig(r.JoinType.CROSS)), lambda: r.TableQuery(t), lambda: r.SelectQuery([g.field()], from_=t), lambda: r.Unnest([g.field()])])()
        if k in SETOPS:
            ctx.assume(isinstance(one, r.Query))
        tree = set_query(g, k, one, one) if k in SETOPS else k.build(g, [one] * k.slots)
    else:
        # every field of a node is the same object
        f = g.field()
        g.field = lambda *a: f
        tree = ZOO[ctx.pick("node", [n for n in NAMES if n != "type"])](g)
    check(ctx, tree)


HARNESSES = [
    Harness("kinds", h_zoo, "every kind of node with every part populated"),
    Harness("expressions", h_expressions, "43 kinds of expression in every position of 43 kinds (thorough all 58)"),
    Harness("optional", h_optional, "every subset of the optional parts of LIKE, CASE, aggregates (5, thorough 42), LISTAGG, windows, COUNT, FROM_UNIXTIME, VALUES, NORMALIZE"),
    Harness("queries", h_queries, "every subset of the clauses of 6 kinds of queries"),
    Harness("relations", h_relations, "two (thorough three) levels of 21 relation kinds in every position"),
    Harness("groups", h_groups, "1..3 grouping elements of 12 shapes"),
    Harness("nested", h_nested, "every kind of query in 18 places"),
    Harness("read", h_read, "trees read from SQL"),
    Harness("stop", h_stop, "visitors that don't go below one kind, for every kind of node in 12 trees"),
    Harness("special", h_special, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) at every position of every node (quick: not of plain functions)"),
    Harness("shared", h_shared, "one expression, relation or field object in all places of every kind of expression, relation and node"),
    Harness("long", h_long, "58 places of trees; lists of 1..17 and 9 sizes up to 129 (thorough 1..134 and 10 sizes up to 513), chains of 1..8, 10, 12 (thorough 1..25), one name symbolic"),
]
