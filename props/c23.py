"""C23: trees that denote no SQL are rejected when they are built, and only those."""
from sx.api import Harness

from .c06 import AGGREGATES, SPEC, VARIADIC, cls_of
from .c09 import PLAIN, SCALAR, scalar
from .common import deep_eq, is_sym, leaf_eq, render, zand_all
from .gen import Gen, norm_sugar, simple_query
from .zoo import NAMES, ZOO, nodes, window


def build(f):
    """(what is built, None) or (None, the error)"""
    try:
        return f(), None
    except Exception as e:
        if type(e).__name__ in ("PathAbort", "PinFork", "Abort") or not isinstance(e, (AssertionError, ValueError, TypeError)):
            raise
        return None, e


def judge(ctx, f, valid, what):
    """building succeeds exactly if the tree denotes SQL"""
    node, e = build(f)
    if valid:
        ctx.check(e is None, "a tree that denotes SQL is built", lambda: "%s: %s: %s" % (what(), type(e).__name__, e))
    else:
        ctx.check(e is not None, "a tree that denotes no SQL is rejected", lambda: "%s is built: %s" % (what(), render(node)))
    return node


def h_joins(ctx):
    """join types, NATURAL and criteria"""
    g = Gen(ctx)
    r, x = g.r, g.x
    jt = ctx.pick("type", list(r.JoinType))
    natural = ctx.flag("natural")
    crit = ctx.pick("criteria", ["none", "on", "using"])
    c = {"none": lambda: None, "on": lambda: r.JoinOnCriteria(x.Equal(g.field(), g.field())), "using": lambda: r.JoinUsingCriteria([g.name("c") for i in range(1 + ctx.choose("n", 2))])}[crit]()
    bad = c is not None and (natural or jt is r.JoinType.CROSS)
    ctx.assume(not (jt is r.JoinType.CROSS and natural) and not (jt is not r.JoinType.CROSS and not natural and c is None) or bad)
    how = ctx.pick("how", ["keywords", "positions", "join"])
    ctx.sample(lambda: "%s natural=%s %s" % (jt, natural, crit))

    def f():
        if how == "positions":
            return r.JoinConfig(jt, natural, c)
        cfg = r.JoinConfig(join_type=jt, natural=natural, criteria=c)
        return cfg if how == "keywords" else r.Join(r.Table(g.name("t")), r.Table(g.name("t")), cfg)

    judge(ctx, f, not bad, lambda: "%s natural=%s %s" % (jt, natural, crit))


def h_tables(ctx):
    """catalog, schema and name of a table"""
    g = Gen(ctx)
    r = g.r
    name, schema, catalog = g.name("t"), None, None
    kw = {}
    if ctx.flag("schema"):
        schema = kw["schema"] = g.name("s")
    if ctx.flag("catalog"):
        catalog = kw["catalog"] = ctx.str("c", ctx.choose("c.len", 2))
    how = ctx.pick("how", ["keywords", "positions", "query"])
    f = {"keywords": lambda: r.Table(name=name, **kw), "positions": lambda: r.Table(name, schema, catalog), "query": lambda: r.TableQuery(r.Table(name, **kw))}[how]
    judge(ctx, f, schema is not None or catalog is None, lambda: "%s.%s.%s" % (catalog, schema, name))


COLUMNS = {  # kind of select item: (item, the type it has; None for unknown; "*" for any number of columns)
    "int": (lambda g: g.x.wrap_literal(7), "number"),
    "decimal": (lambda g: g.x.Cast(g.field(), data_type=g.dt.decimal(precision=3, scale=1)), "number"),
    "string": (lambda g: g.lit_str(1), "string"),
    "bool": (lambda g: g.x.IsNull(g.field()), "bool"),
    "field": (lambda g: g.field(), None),
    "star": (lambda g: g.x.Star(), "*"),
    "tstar": (lambda g: g.x.Star(g.name("t")), "*"),
    "astar": (lambda g: g.x.AliasedStar(g.x.Star(g.name("t")), [g.name("a")]), "*"),
    "null": (lambda g: g.x.NULL, None),
}


def operand(ctx, g, label):
    """a query and the types of its columns"""
    kind = ctx.pick(label, ["select1", "select2", "select3", "values", "table"])
    if kind == "table":
        return g.r.TableQuery(g.r.Table(g.name("t"))), ["*"]
    if kind == "values":
        n = 1 + ctx.choose(label + "_n", 2)
        row = ctx.flag(label + "_row") or n > 1
        cs = [ctx.pick(label + "_v", ["int", "string"]) for i in range(n)]
        mk = lambda: g.x.RowConstructor([COLUMNS[c][0](g) for c in cs]) if row else COLUMNS[cs[0]][0](g)
        return g.r.ValuesQuery([mk() for i in range(1 + ctx.choose(label + "_rows", 2))]), [COLUMNS[c][1] for c in cs]
    n = int(kind[-1])
    names = list(COLUMNS) if n == 1 or ctx.thorough else ["int", "string", "field", "star"] if n == 2 else ["int", "string", "tstar"]
    cs = [ctx.pick(label + "_c", names) for i in range(n)]
    return g.r.SelectQuery([COLUMNS[c][0](g) for c in cs], from_=g.r.Table(g.name("t"))), [COLUMNS[c][1] for c in cs]


def fits(a, b):
    if "*" in a or "*" in b:
        return True
    return len(a) == len(b) and all(s is None or t is None or s == t for s, t in zip(a, b))


def h_sets(ctx):
    """set operations: quantifiers, and operands whose columns match"""
    g = Gen(ctx)
    r = g.r
    op = ctx.pick("op", ["UnionQuery", "IntersectQuery", "ExceptQuery"])
    Q = r.SetQuantifier
    if ctx.flag("quantifiers"):
        quant = ctx.pick("quantifier", [None, Q.DISTINCT, Q.ALL])
        a, b = simple_query(g, ctx.pick("a", ["select", "values", "table"])), simple_query(g, ctx.pick("b", ["select", "values", "table"]))
        how = ctx.pick("how", ["keyword", "position", "text"])
        kw = {} if quant is None else {"set_quantifier": quant}
        if how == "text":
            from treeno.builder.convert import query_from_sql

            sql = "TABLE " + "a" + " " + op[:-5].upper() + " " + ("" if quant is None else quant.name) + " TABLE b"
            judge(ctx, lambda: query_from_sql(sql), not (quant is Q.ALL and op != "UnionQuery"), lambda: sql)
            return
        if how == "position":
            ctx.assume(quant is not None)
            f = lambda: getattr(r, op)(a, b, quant)
        else:
            f = lambda: getattr(r, op)(left_query=a, right_query=b, **kw)
        judge(ctx, f, not (quant is Q.ALL and op != "UnionQuery"), lambda: "%s %s" % (op, quant))
        return
    if not ctx.thorough:
        ctx.assume(op != "ExceptQuery")
    a, s = operand(ctx, g, "left")
    b, t = operand(ctx, g, "right")
    ctx.assume(fits(s, t))  # whether queries that do not match are rejected is not fixed
    node = judge(ctx, lambda: getattr(r, op)(a, b), True, lambda: "%s %s %s" % (render(a), op, render(b)))
    if node is not None and ctx.flag("three"):
        judge(ctx, lambda: r.UnionQuery(node, b), True, lambda: "%s %s" % (render(node), render(b)))


LISTS = {
    "select": lambda g, v: g.r.SelectQuery(v),
    "select_from": lambda g, v: g.r.SelectQuery(select=v, from_=g.r.Table(g.name("t")), limit=g.ctx.int("limit", 0, 3)),
    "array": lambda g, v: g.x.Array(v),
    "in": lambda g, v: g.x.InList(g.field(), v),
    "row": lambda g, v: g.x.RowConstructor(v),
    "cube": lambda g, v: g.g.Cube(v),
    "rollup": lambda g, v: g.g.Rollup(v),
    "sets": lambda g, v: g.g.GroupingSetList([g.g.GroupingSet([i]) for i in v]),
    "groupby": lambda g, v: g.g.GroupBy([g.g.GroupingSet([i]) for i in v]),
    "case": lambda g, v: g.x.Case(branches=[g.x.When(g.field(), i) for i in v]),
    "case_value": lambda g, v: g.x.Case([g.x.When(g.field(), i) for i in v], value=g.field(), else_=g.x.Else(g.field())),
    "unnest": lambda g, v: g.r.Unnest(v),
    "unnest_ord": lambda g, v: g.r.Unnest(arrays=v, with_ordinality=True),
    "values": lambda g, v: g.r.ValuesQuery(v),
    "using": lambda g, v: g.r.JoinUsingCriteria([i.name for i in v]),
    "astar": lambda g, v: g.x.AliasedStar(g.x.Star(g.name("t")), [i.name for i in v]),
}
MAY_BE_EMPTY = {
    "set": lambda g, v: g.g.GroupingSet(v),
    "sets_empty": lambda g, v: g.g.GroupingSetList([g.g.GroupingSet([]), g.g.GroupingSet(v)]),
    "groupby_empty": lambda g, v: g.g.GroupBy([g.g.GroupingSet(v)]),
    "window": lambda g, v: g.w.Window(partitions=v),
    "orderby": lambda g, v: g.r.SelectQuery([g.field()], orderby=[g.o.OrderTerm(i) for i in v]),
    "with": lambda g, v: g.r.SelectQuery([g.field()], with_=[g.r.AliasedRelation(g.select(), i.name) for i in v]),
    "named": lambda g, v: g.r.SelectQuery([g.field()], window={i.name: g.w.Window(partitions=[i]) for i in v}),
    "lambda": lambda g, v: g.x.Lambda([], g.field()),
    "concat": lambda g, v: g.fcommon.Concatenate(values=v + [g.field(), g.field()]),
}


def h_empty(ctx):
    """lists that must not be empty, and lists that may be"""
    g = Gen(ctx)
    what = ctx.pick("what", list(LISTS) + list(MAY_BE_EMPTY))
    n = ctx.choose("n", 4 if ctx.thorough else 3)
    f = {**LISTS, **MAY_BE_EMPTY}[what]
    items = [g.field() for i in range(n)]
    judge(ctx, lambda: f(g, items), n > 0 or what in MAY_BE_EMPTY, lambda: "%s of %d" % (what, n))


def h_lambda(ctx):
    """parameters of a lambda have different names"""
    g = Gen(ctx)
    x = g.x
    n = ctx.choose("n", 5 if ctx.thorough else 4)
    width = 1 + ctx.choose("width", 2)
    names = [g.ctx.str("p", width, [(97, 122)]) for i in range(n)]
    how = ctx.pick("how", ["node", "generic", "text"])
    distinct = True
    for i in range(n):
        for j in range(i):
            if names[i] == names[j]:
                distinct = False
    V = x.Lambda.Variable
    if how == "node":
        f = lambda: x.Lambda([V(v) for v in names], x.Add(V(names[0]) if n else g.field(), g.field()))
    elif how == "generic":
        f = lambda: x.Lambda.from_generic_expr([V(v) for v in names], x.Add(g.field(), g.field()))
    else:
        from treeno.builder.convert import expression_from_sql

        sql = "("
        for i, v in enumerate(names):
            sql = sql + (", " if i else "") + '"' + v + '"'
        sql = sql + ") -> 1"
        f = lambda: expression_from_sql(sql)
    judge(ctx, f, distinct, lambda: "(%s) -> ..." % ", ".join(str(v) for v in names))


def h_aliases(ctx):
    """a star has no alias; everything else may have one"""
    g = Gen(ctx)
    x = g.x
    what = ctx.pick("what", ["star", "tstar", "vstar", "zoo"])
    if what == "zoo":
        v = ZOO[ctx.pick("node", [n for n in NAMES if n.startswith(("expr:", "fn:", "agg:")) and n not in ("expr:Star", "expr:AliasedStar", "expr:AliasedValue")])](g)
        if not isinstance(v, x.Value) or isinstance(v, (x.Star, x.AliasedStar, x.AliasedValue)):
            return
    else:
        v = {"star": lambda: x.Star(), "tstar": lambda: x.Star(g.name("t")), "vstar": lambda: x.Star(x.RowConstructor([g.field()]))}[what]()
    a = g.name("a")
    f = (lambda: x.AliasedValue(v, a)) if ctx.flag("positions") else (lambda: x.AliasedValue(value=v, alias=a))
    judge(ctx, f, what == "zoo", lambda: "%s AS %s" % (render(v), a))


def h_qualified(ctx):
    """the table of a field or a star is a name or a value other than a field"""
    g = Gen(ctx)
    x = g.x
    what = ctx.pick("what", ["none", "name", "field", "tfield", "row", "subscript", "call"])
    t = {
        "none": lambda: None,
        "name": lambda: g.name("t"),
        "field": lambda: g.field(),
        "tfield": lambda: x.Field(g.name("f"), g.name("t")),
        "row": lambda: x.RowConstructor([g.field(), g.field()]),
        "subscript": lambda: x.Subscript(g.field(), x.wrap_literal(1)),
        "call": lambda: g.agg.Max(g.field()),
    }[what]()
    n = g.name("c")
    f = {"field": lambda: x.Field(n, t), "field_kw": lambda: x.Field(name=n, table=t), "star": lambda: x.Star(t), "star_kw": lambda: x.Star(table=t)}[ctx.pick("node", ["field", "field_kw", "star", "star_kw"])]
    judge(ctx, f, what not in ("field", "tfield"), lambda: "table %s" % render(t))


def h_casts(ctx):
    """a cast has a type"""
    g = Gen(ctx)
    x = g.x
    cls = getattr(x, ctx.pick("cast", ["Cast", "TryCast"]))
    what = ctx.pick("type", ["missing", "unknown", "own_unknown"] + [t for t in PLAIN + SCALAR if t != "UNKNOWN"])
    kw = {"missing": lambda: {}, "unknown": lambda: {"data_type": g.dt.unknown()}, "own_unknown": lambda: {"data_type": g.T.datatypes.types.DataType("UNKNOWN") if hasattr(g.T.datatypes, "types") else g.dt.unknown()}}.get(what, lambda: {"data_type": scalar(g, what)[0]})()
    v = g.field() if ctx.flag("field") else x.wrap_literal(ctx.int("n", 0, 9))
    judge(ctx, lambda: cls(v, **kw), what not in ("missing", "unknown", "own_unknown"), lambda: "%s as %s" % (cls.__name__, what))


UNITS = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]


def h_intervals(ctx):
    """the units of an interval"""
    g = Gen(ctx)
    x = g.x
    where = ctx.pick("where", ["from", "to", "both"])

    def word(label):
        return g.ctx.str(label, ctx.choose(label + "_n", 7), [(65, 90)])

    start = word("u") if where == "from" else ctx.pick("from", UNITS)
    end = word("v") if where == "to" else ctx.pick("end", [None] + UNITS) if where == "both" else None
    valid = any([bool(start == u) for u in UNITS])
    if end is not None:
        valid = valid and any([bool(end == u) for u in UNITS])
    f = (lambda: x.Interval("1", start, end)) if end is not None or ctx.flag("none") else (lambda: x.Interval(value="1", from_interval=start))
    judge(ctx, f, valid, lambda: "INTERVAL '1' %s TO %s" % (start, end))


NOTHING = {"None": lambda g: None, "list": lambda g: [1, 2], "empty": lambda g: [], "tuple": lambda g: (1,), "set": lambda g: {1}, "dict": lambda g: {1: 2}, "nodes": lambda g: [g.field()]}
PLAINS = {"int": lambda g: g.ctx.int("n", -9, 9), "str": lambda g: g.ctx.str("s", 1, [(97, 122)]), "bool": lambda g: True, "node": lambda g: g.field()}
# class -> its arguments: v = an operand, o = an optional operand, anything else is given as it is
OPERANDS = {
    "And": ("left", "right"), "Or": ("left", "right"), "Add": ("left", "right"), "Minus": ("left", "right"), "Multiply": ("left", "right"), "Divide": ("left", "right"), "Modulus": ("left", "right"),
    "Equal": ("left", "right"), "NotEqual": ("left", "right"), "GreaterThan": ("left", "right"), "GreaterThanOrEqual": ("left", "right"), "LessThan": ("left", "right"), "LessThanOrEqual": ("left", "right"),
    "DistinctFrom": ("left", "right"), "Not": ("value",), "Positive": ("value",), "Negative": ("value",), "IsNull": ("value",), "Between": ("value", "lower", "upper"), "Like": ("value", "pattern"),
}


def given(ctx, g, names, fields):
    """keyword arguments with one strange value, and whether they are valid"""
    which = ctx.pick("which", list(names))
    strange = ctx.pick("strange", list(NOTHING) + list(PLAINS))
    kw = {n: g.field() for n in names}
    kw[which] = {**NOTHING, **PLAINS}[strange](g)
    optional = fields[which].default is None
    return kw, strange in PLAINS or strange == "None" and optional, which, strange


def h_operands(ctx):
    """None and containers are no operands"""
    import attr

    g = Gen(ctx)
    name = ctx.pick("node", list(OPERANDS))
    cls = getattr(g.x, name)
    kw, valid, which, strange = given(ctx, g, OPERANDS[name], attr.fields_dict(cls))
    judge(ctx, lambda: cls(**kw), valid, lambda: "%s %s=%s" % (name, which, strange))


def h_functions(ctx):
    """None and containers are no arguments of functions, except that optional arguments may be left out"""
    import attr

    g = Gen(ctx)
    fn = ctx.pick("function", [f for f in SPEC if any(SPEC[f][2])])
    cls = cls_of(fn)
    sig = ctx.pick("signature", [s for s in SPEC[fn][2] if s])
    if fn == "LISTAGG":
        return
    strange = ctx.pick("strange", list(NOTHING) + (["int"] if not ctx.thorough else list(PLAINS)))
    which = ctx.pick("which", sig)
    kw = {n: g.field() for n in sig}
    kw[which] = {**NOTHING, **PLAINS}[strange](g)
    fields = attr.fields_dict(cls)
    if strange == "None" and fields[which].default is None:
        return  # left out: FROM_UNIXTIME has a harness of its own
    judge(ctx, lambda: cls(**kw), strange in PLAINS, lambda: "%s %s=%s" % (fn, which, strange))


def h_literals(ctx):
    """literals have types"""
    g = Gen(ctx)
    x = g.x
    what = ctx.pick("value", ["int", "str", "bool", "node", "None"])
    v = {**PLAINS, **NOTHING}[what](g)
    ctx.assume(what != "node")
    typed = ctx.pick("type", ["no", "unknown", "yes"])
    kw = {"no": {}, "unknown": {"data_type": g.dt.unknown()}, "yes": {"data_type": g.dt.varchar(max_chars=1) if what == "str" else g.dt.boolean() if what == "bool" else g.dt.bigint()}}[typed]
    judge(ctx, lambda: x.Literal(v, **kw), what == "None" or typed == "yes", lambda: "Literal(%s) %s" % (what, typed))


def h_count(ctx):
    """COUNT(*) has neither order nor null treatment"""
    g = Gen(ctx)
    x = g.x
    arg = ctx.pick("arg", ["star", "tstar", "field", "literal", "distinct"])
    ctx.assume(arg != "distinct")
    v = {"star": lambda: x.Star(), "tstar": lambda: x.Star(g.name("t")), "field": lambda: g.field(), "literal": lambda: ctx.int("n", 0, 9)}[arg]()
    N = g.agg.NullTreatment
    kw, bad = {}, False
    orderby = ctx.pick("orderby", [None, 0, 1, 2])
    if orderby is not None:
        kw["orderby"] = [g.o.OrderTerm(g.field()) for i in range(orderby)]
        bad = orderby > 0
    nulls = ctx.pick("nulls", [None, N.IGNORE, N.RESPECT])
    if nulls is not None:
        kw["null_treatment"] = nulls
        bad = bad or nulls is not N.default()
    if ctx.flag("filter"):
        kw["filter_"] = x.IsNull(g.field())
    if ctx.flag("window"):
        kw["window"] = g.w.Window(partitions=[g.field()])
    f = (lambda: g.agg.Count(v, **kw)) if ctx.flag("node") else (lambda: g.agg.Count.from_args(v, **kw))
    judge(ctx, f, not (bad and arg in ("star", "tstar")), lambda: "COUNT(%s) %s" % (arg, sorted(kw)))


def h_listagg(ctx):
    """LISTAGG has an order and neither FILTER, OVER nor null treatment"""
    g = Gen(ctx)
    x = g.x
    N = g.agg.NullTreatment
    kw, bad = {}, False
    orderby = ctx.pick("orderby", [None, 0, 1, 2])
    if orderby is not None:
        kw["orderby"] = [g.o.OrderTerm(g.field()) for i in range(orderby)]
    bad = not orderby
    nulls = ctx.pick("nulls", [None, N.IGNORE, N.RESPECT])
    if nulls is not None:
        kw["null_treatment"] = nulls
        bad = bad or nulls is not N.default()
    if ctx.flag("filter"):
        kw["filter_"] = x.IsNull(g.field())
        bad = True
    if ctx.flag("window"):
        kw["window"] = window(g) if ctx.flag("full") else g.w.Window()
        bad = True
    if ctx.flag("separator"):
        kw["separator"] = ctx.str("sep", 1, [(33, 126)])
    if ctx.flag("overflow"):
        kw["overflow_filler"] = g.agg.OverflowFiller(ctx.pick("count", list(g.agg.CountIndication)))
    judge(ctx, lambda: g.agg.ListAgg(g.field(), **kw), not bad, lambda: "LISTAGG %s" % sorted(kw))


def h_unixtime(ctx):
    """FROM_UNIXTIME has a zone or hours and minutes"""
    g = Gen(ctx)
    kw = {}
    for n in ("zone", "hours", "minutes"):
        how = ctx.pick(n, ["absent", "None", "node", "plain"])
        if how != "absent":
            kw[n] = {"None": lambda: None, "node": lambda: g.field(), "plain": lambda: ctx.int("n", 0, 3)}[how]()
    have = [n for n in kw if kw[n] is not None]
    judge(ctx, lambda: g.fdate.FromUnixtime(g.field(), **kw), have in ([], ["zone"], ["hours", "minutes"]), lambda: "FROM_UNIXTIME with %s" % have)


def h_unixtime_args(ctx):
    """FROM_UNIXTIME by positions"""
    g = Gen(ctx)
    n = ctx.choose("n", 6)
    judge(ctx, lambda: g.fdate.FromUnixtime.from_args(*[g.field() for i in range(n)]), 1 <= n <= 3, lambda: "%d arguments" % n)


def h_arguments(ctx):
    """functions take no strange keyword arguments, and as many positional ones as they have"""
    g = Gen(ctx)
    fn = ctx.pick("function", list(SPEC))
    cls = cls_of(fn)
    sigs = SPEC[fn][2]
    n = ctx.choose("n", 5)
    strange = ctx.pick("keyword", [None, "nonsense", "orderby", "data_type_"])
    kw = {} if strange is None else {strange: [g.o.OrderTerm(g.field())]}
    valid = any(len(s) == n for s in sigs) and (strange is None or strange == "orderby" and fn in AGGREGATES)
    if fn == "LISTAGG" or fn in VARIADIC:
        return
    if not valid and strange in (None, "orderby") and 0 < n < max(len(s) for s in sigs):
        return  # fewer arguments than the longest form: C06
    judge(ctx, lambda: cls.from_args(*[g.field() for i in range(n)], **kw), valid, lambda: "%s with %d arguments, %s" % (fn, n, strange))


def h_zoo(ctx):
    """every kind of node with every part is built, and printed"""
    g = Gen(ctx)
    name = ctx.pick("node", NAMES)
    node = judge(ctx, lambda: ZOO[name](g), True, lambda: name)
    if node is None:
        return
    for n, _ in nodes(node) if callable(nodes) else []:
        pass
    P = g.T.base
    if name.startswith(("expr:", "fn:", "agg:", "query:", "rel:")):
        judge(ctx, lambda: node.sql(P.PrintOptions()), True, lambda: "printing " + name)


HARNESSES = [
    Harness("joins", h_joins, "5 join types x NATURAL x 3 kinds of criteria x 3 ways of building"),
    Harness("tables", h_tables, "every presence of schema and catalog, symbolic names"),
    Harness("sets", h_sets, "3 operations x quantifiers x 3 ways; operands of 1..3 columns of 9 kinds (stars included), VALUES, TABLE"),
    Harness("empty", h_empty, "25 lists of 0..2 (thorough 3) elements"),
    Harness("lambda", h_lambda, "0..3 (thorough 4) parameters with symbolic names of 1..2 letters, 3 ways of building"),
    Harness("aliases", h_aliases, "3 stars and every kind of value"),
    Harness("qualified", h_qualified, "7 kinds of tables of fields and stars"),
    Harness("casts", h_casts, "both casts x every type and none"),
    Harness("intervals", h_intervals, "units of 0..6 symbolic letters on either side, all pairs of units"),
    Harness("operands", h_operands, "20 nodes x operands x 7 invalid and 4 valid values"),
    Harness("functions", h_functions, "every function x argument x 7 invalid values"),
    Harness("literals", h_literals, "4 kinds of values x 3 kinds of types"),
    Harness("count", h_count, "4 arguments x clauses"),
    Harness("listagg", h_listagg, "every presence of clauses"),
    Harness("unixtime", h_unixtime, "every presence of zone, hours and minutes"),
    Harness("unixtime_args", h_unixtime_args, "0..5 positional arguments"),
    Harness("arguments", h_arguments, "every function x 0..4 arguments x 4 keywords"),
    Harness("zoo", h_zoo, "every kind of node with every part"),
]
