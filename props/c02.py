"""C02: strings and identifiers survive printing and reading with any characters."""
from sx.api import Harness
from sx.core import SymStr, hex_to_int

from .common import deep_eq, modules, render
from .gen import Gen
from .harvest import fragments

ASSUMPTIONS = ["Characters are Unicode scalar values (no lone surrogates)."]


def opts(g, mode="DEFAULT"):
    return g.T.base.PrintOptions(mode=g.T.base.PrintMode[mode])


def mode_of(ctx):
    return ctx.pick("mode", ["DEFAULT", "PRETTY"])


def text(ctx, label, lo=0):
    n = lo + ctx.choose(label + ".len", ctx.params["n"] + 1 - lo)
    return ctx.str(label, n)


def ident(ctx, label):
    return text(ctx, label)


def check_expr(ctx, g, node):
    from treeno.builder.convert import expression_from_sql

    sql = node.sql(opts(g, mode_of(ctx)))
    ctx.sample(lambda: repr(str(sql)))
    back = expression_from_sql(sql)
    ctx.check(deep_eq(node, back), "same expression", lambda: "%r reads as %s" % (sql, render(back)))


def check_query(ctx, g, node):
    from treeno.builder.convert import query_from_sql

    sql = node.sql(opts(g, mode_of(ctx)))
    ctx.sample(lambda: repr(str(sql)))
    back = query_from_sql(sql)
    ctx.check(deep_eq(node, back), "same query", lambda: "%r reads as %s" % (sql, render(back)))


def h_strings(ctx):
    """a string in every place that holds a string value"""
    g = Gen(ctx)
    x = g.x
    s = text(ctx, "s")
    place = ctx.pick(
        "place",
        ["literal", "typed", "interval", "separator", "filler", "like", "escape", "arg", "array", "case", "cast", "subscript"],
    )
    f = x.Field("f")
    lit = x.wrap_literal(s)
    if place == "interval":
        # a leading + is dropped while reading: '+1' and '1' are the same interval
        if len(s):
            ctx.assume(s[0] != "+")
        node = x.Interval(s, "DAY")
    else:
        node = {
            "literal": lambda: lit,
            "typed": lambda: x.TypeConstructor(s, "JSON"),
            "separator": lambda: g.agg.ListAgg(f, separator=s, orderby=[g.o.OrderTerm(f)]),
            "filler": lambda: g.agg.ListAgg(
                f, overflow_filler=g.agg.OverflowFiller(g.agg.CountIndication.WITH_COUNT, s), orderby=[g.o.OrderTerm(f)]
            ),
            "like": lambda: x.Like(f, lit),
            "escape": lambda: x.Like(f, f, lit),
            "arg": lambda: g.fstring.Lower(lit),
            "array": lambda: x.Array([lit, f]),
            "case": lambda: x.Case([x.When(f, lit)], x.Else(f), value=lit),
            "cast": lambda: x.Cast(lit, data_type=g.dt.json()),
            "subscript": lambda: x.Subscript(f, lit),
        }[place]()
    check_expr(ctx, g, node)


def h_two_strings(ctx):
    """strings next to strings and identifiers: the end of one must not swallow the other"""
    g = Gen(ctx)
    x = g.x
    a, b = text(ctx, "a"), text(ctx, "b")
    kind = ctx.pick("kind", ["ss", "si", "is"])
    lit = lambda s: x.wrap_literal(s)
    if kind == "ss":
        node = g.fcommon.Concatenate(values=[lit(a), lit(b)])
    else:
        node = x.Equal(lit(a), x.Field(b)) if kind == "si" else x.Equal(x.Field(a), lit(b))
    check_expr(ctx, g, node)


def h_ident_expr(ctx):
    g = Gen(ctx)
    x = g.x
    i = ident(ctx, "i")
    place = ctx.pick("place", ["field", "table", "deref", "star", "lambda", "parent_window"])
    f = x.Field("f")
    node = {
        "field": lambda: x.Field(i),
        "table": lambda: x.Field("c", table=i),
        "deref": lambda: x.Field(i, table=x.Subscript(f, f)),
        "star": lambda: g.agg.Count(x.Star(i)),
        "lambda": lambda: x.Lambda([x.Lambda.Variable(i)], x.Lambda.Variable(i)),
        "parent_window": lambda: g.agg.Sum(f, window=g.w.Window(parent_window=i)),
    }[place]()
    check_expr(ctx, g, node)


def h_ident_query(ctx):
    g = Gen(ctx)
    x, r = g.x, g.r
    i = ident(ctx, "i")
    place = ctx.pick(
        "place",
        ["table", "schema", "schema3", "catalog", "alias", "value_alias", "column_alias", "star", "star_alias", "using", "window", "with", "with_column", "table_query"],
    )
    f = x.Field("f")
    t = r.Table("t")

    def sel(select=None, **kw):
        kw.setdefault("from_", t)
        return r.SelectQuery(select or [f], **kw)

    node = {
        "table": lambda: sel(from_=r.Table(i)),
        "schema": lambda: sel(from_=r.Table("t", i)),
        "schema3": lambda: sel(from_=r.Table("t", i, "c")),
        "catalog": lambda: sel(from_=r.Table("t", "s", i)),
        "alias": lambda: sel(from_=r.AliasedRelation(t, i)),
        "value_alias": lambda: sel([x.AliasedValue(f, i)]),
        "column_alias": lambda: sel(from_=r.AliasedRelation(t, "a", ["x", i])),
        "star": lambda: sel([x.Star(i)]),
        "star_alias": lambda: sel([x.AliasedStar(x.Star("t"), [i, "y"])]),
        "using": lambda: sel(from_=r.Join(t, r.Table("u"), r.JoinConfig(r.JoinType.INNER, criteria=r.JoinUsingCriteria([i, "k"])))),
        "window": lambda: sel(window={i: g.w.Window(partitions=[f])}),
        "with": lambda: sel(with_=[r.AliasedRelation(sel(), i)]),
        "with_column": lambda: sel(with_=[r.AliasedRelation(sel(), "w", [i])]),
        "table_query": lambda: r.TableQuery(r.Table(i)),
    }[place]()
    check_query(ctx, g, node)


def h_string_in_query(ctx):
    """strings inside laid out clauses, in particular with line breaks"""
    g = Gen(ctx)
    x, r = g.x, g.r
    s = text(ctx, "s", 1)
    lit = x.wrap_literal(s)
    f = x.Field("f")
    place = ctx.pick("place", ["select", "where", "sub", "with", "on", "case", "values", "window"])
    t = r.Table("t")
    w = x.Equal(f, lit)
    node = {
        "select": lambda: r.SelectQuery([f, x.AliasedValue(lit, "a")], from_=t),
        "where": lambda: r.SelectQuery([f], from_=t, where=x.And(w, w)),
        "sub": lambda: r.SelectQuery([f], from_=r.AliasedRelation(r.SelectQuery([lit], where=w), "q")),
        "with": lambda: r.SelectQuery([f], with_=[r.AliasedRelation(r.SelectQuery([f], where=w), "w")]),
        "on": lambda: r.SelectQuery([f], from_=r.Join(t, t, r.JoinConfig(r.JoinType.LEFT, criteria=r.JoinOnCriteria(w)))),
        "case": lambda: r.SelectQuery([x.Case([x.When(w, lit)], x.Else(lit))]),
        "values": lambda: r.ValuesQuery([x.RowConstructor([lit, f]), x.RowConstructor([f, lit])]),
        "window": lambda: r.SelectQuery([g.agg.Sum(f, filter_=w, window=g.w.Window(partitions=[lit]))], from_=t),
    }[place]()
    check_query(ctx, g, node)


def h_read_string(ctx):
    """a quoted string of the SQL text is read as the characters it denotes"""
    g = Gen(ctx)
    from treeno.builder.convert import expression_from_sql

    n = ctx.choose("len", ctx.params["n"] + 1)
    raw, val = "'", ""
    for k in range(n):
        if ctx.flag("quote"):
            raw, val = raw + "''", val + "'"
        else:
            c = ctx.str("c", 1)
            ctx.assume(c != "'")
            raw, val = raw + c, val + c
    raw = raw + "'"
    form = ctx.pick("form", ["plain", "paren", "neighbour"])
    sql = {"plain": raw, "paren": "(" + raw + ")", "neighbour": raw + "||" + '"z"'}[form]
    ctx.sample(lambda: repr(str(sql)))
    e = expression_from_sql(sql)
    if form == "neighbour":
        ctx.check(type(e) is g.fcommon.Concatenate and len(e.values) == 2, "concatenation")
        e = e.values[0]
    ctx.check(type(e) is g.x.Literal, "literal")
    ctx.check(deep_eq(e, g.x.Literal(val, data_type=g.dt.varchar(max_chars=n))), "value denoted by the text", lambda: "%r reads as %s" % (sql, render(e)))


HEX = [(48, 57), (65, 70), (97, 102)]


def code_point(h):
    """the character denoted by hexadecimal digits"""
    if isinstance(h, SymStr):
        from sx.core import mkstr, Ch

        n = hex_to_int(h)
        return mkstr([Ch(n.z, n.s)])
    return chr(int(h, 16))


def h_read_unicode(ctx):
    """U&'...' with the default or a given escape character"""
    g = Gen(ctx)
    from treeno.builder.convert import expression_from_sql

    esc = "\\"
    suffix = ""
    if ctx.flag("uescape"):
        esc = ctx.pick("esc", ["!", "#", "$", "|"])
        suffix = " UESCAPE '%s'" % esc
    raw, val = "", ""
    n = ctx.choose("len", ctx.params["u"] + 1)
    for k in range(n):
        form = ctx.pick("form", ["char", "hex4", "hex6", "esc", "quote"])
        if form == "char":
            c = ctx.str("c", 1, [(32, 0xD7FF)])
            ctx.assume(c != "'")
            ctx.assume(c != esc)
            raw, val = raw + c, val + c
        elif form == "hex4":
            h = "0" + ctx.str("h4", 3, HEX)
            raw, val = raw + esc + h, val + code_point(h)
        elif form == "hex6":
            h = "00" + ctx.str("h6", 3, HEX) + "F"
            # surrogates can't be written, which is C17's
            ctx.assume(code_point(h) < "\ud800" or code_point(h) > "\udfff")
            raw, val = raw + esc + "+" + h, val + code_point(h)
        elif form == "esc":
            raw, val = raw + esc + esc, val + esc
        else:
            raw, val = raw + "''", val + "'"
    sql = ctx.pick("prefix", ["U&", "u&"] if False else ["U&"]) + "'" + raw + "'" + suffix
    ctx.sample(lambda: repr(str(sql)))
    e = expression_from_sql(sql)
    ctx.check(deep_eq(e, g.x.Literal(val, data_type=g.dt.varchar(max_chars=len(val)))), "value denoted by the text", lambda: "%r reads as %s" % (sql, render(e)))


def h_read_ident(ctx):
    """quoted and unquoted identifiers of the SQL text"""
    g = Gen(ctx)
    from treeno.builder.convert import expression_from_sql, query_from_sql

    quoted = ctx.flag("quoted")
    n = ctx.choose("len", 1 + ctx.params["n"]) if quoted else 1 + ctx.choose("len", ctx.params["n"])
    if quoted:
        raw, val = '"', ""
        for k in range(n):
            if ctx.flag("quote"):
                raw, val = raw + '""', val + '"'
            else:
                c = ctx.str("c", 1)
                ctx.assume(c != '"')
                raw, val = raw + c, val + c
        raw = raw + '"'
    else:
        # a leading z: no keyword of the grammar starts with "z" and a digit or underscore
        val = "z" + ctx.str("c", n, [(48, 57), (65, 90), (95, 95), (97, 122)])
        ctx.assume(val.upper() != "ZONE")
        raw = val
    place = ctx.pick("place", ["field", "table", "relation", "alias"])
    x, r = g.x, g.r
    if place == "field":
        sql, want = raw, x.Field(val)
        got = expression_from_sql(sql)
    elif place == "table":
        sql, want = raw + ".c", x.Field("c", table=val)
        got = expression_from_sql(sql)
    elif place == "relation":
        sql, want = "SELECT c FROM a." + raw, r.SelectQuery([x.Field("c")], from_=r.Table(val, "a"))
        got = query_from_sql(sql)
    else:
        sql, want = "SELECT c " + raw + " FROM t", r.SelectQuery([x.AliasedValue(x.Field("c"), val)], from_=r.Table("t"))
        got = query_from_sql(sql)
    ctx.sample(lambda: repr(str(sql)))
    ctx.check(deep_eq(got, want), "identifier denoted by the text", lambda: "%r reads as %s" % (sql, render(got)))


def h_fragments(ctx):
    """texts that the code treats specially (collected from its source), too long for a symbolic string to take"""
    g = Gen(ctx)
    x, r = g.x, g.r
    s = ctx.pick("text", fragments())
    if ctx.thorough:
        s = {"alone": lambda: s, "before": lambda: ctx.str("c", 1) + s, "after": lambda: s + ctx.str("c", 1), "twice": lambda: s + s}[ctx.pick("around", ["alone", "before", "after", "twice"])]()
    f, lit = x.Field("f"), x.wrap_literal("z")
    i = x.Field(s)
    leaf = ctx.pick("leaf", ["string", "identifier", "qualifier", "dereference"] if ctx.thorough else ["string", "identifier"])
    n = {"string": lambda: x.wrap_literal(s), "identifier": lambda: i, "qualifier": lambda: x.Field("c", table=s), "dereference": lambda: x.Field(s, table=x.Subscript(f, f))}[leaf]()
    if ctx.thorough:
        places = ["left", "right", "both", "add", "unary", "like", "between", "in", "case", "call", "concat", "array", "filter", "over", "query", "alias"]
    else:
        places = ["both", "add", "unary", "like", "case", "call", "concat", "query"]
    place = ctx.pick("place", places)
    sub = lambda: r.SelectQuery([n], from_=r.Table("t"), where=x.Equal(n, f))
    node = {
        "left": lambda: x.Equal(n, lit),
        "right": lambda: x.Equal(lit, n),
        "both": lambda: x.And(x.Equal(n, f), x.Equal(f, n)),
        "add": lambda: x.Add(x.Add(n, f), x.Add(f, n)),
        "unary": lambda: x.Not(x.IsNull(n)),
        "like": lambda: x.Like(n, n, n),
        "between": lambda: x.Between(n, n, f),
        "in": lambda: x.InList(n, [f, n]),
        "case": lambda: x.Case([x.When(n, f), x.When(f, n)], x.Else(n)),
        "call": lambda: g.fstring.Lower(n),
        "concat": lambda: g.fcommon.Concatenate(values=[f, n, f]),
        "array": lambda: x.Array([n, f]),
        "filter": lambda: g.agg.Sum(n, filter_=x.Equal(n, f)),
        "over": lambda: g.agg.Sum(f, window=g.w.Window(partitions=[n], orderby=[g.o.OrderTerm(n)])),
        "query": lambda: x.InQuery(n, sub()),
        "alias": lambda: x.InQuery(f, r.SelectQuery([x.AliasedValue(n, "q")], from_=r.AliasedRelation(r.Table("t"), "u"))),
    }[place]()
    check_expr(ctx, g, node)


def h_long(ctx):
    """long texts with a few arbitrary characters in them"""
    g = Gen(ctx)
    x, r = g.x, g.r
    sizes = [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257] + ([n for n in range(1, 140)] + [511, 512, 513, 1000, 1024, 2000] if ctx.thorough else [20, 40, 50, 78, 79, 80, 81, 99, 100, 101, 120])
    n = ctx.pick("size", sizes)
    at = ctx.pick("at", ["start", "middle", "end"])
    k = {"start": 0, "middle": n // 2, "end": n}[at]
    fill = "abcdefghi " * (n // 10 + 1) if ctx.flag("blanks") else "x" * n
    s = fill[:k] + ctx.str("any", 2 if ctx.thorough else 1) + fill[k:n]
    f = x.Field("f")
    place = ctx.pick("place", ["literal", "like", "in", "call", "field", "table", "alias", "relation", "with", "using"])
    expr = {"literal": lambda: x.wrap_literal(s), "like": lambda: x.Like(f, x.wrap_literal(s)), "in": lambda: x.InList(f, [x.wrap_literal(s), f]), "call": lambda: g.fstring.Lower(x.wrap_literal(s)), "field": lambda: x.Field(s), "table": lambda: x.Field("c", table=s)}
    if place in expr:
        return check_expr(ctx, g, expr[place]())
    check_query(ctx, g, {
        "alias": lambda: r.SelectQuery([x.AliasedValue(f, s), f]),
        "relation": lambda: r.SelectQuery([f], from_=r.AliasedRelation(r.Table("t"), s)),
        "with": lambda: r.SelectQuery([f], with_=[r.AliasedRelation(r.SelectQuery([f]), s)]),
        "using": lambda: r.SelectQuery([f], from_=r.Join(r.Table("t"), r.Table("u"), r.JoinConfig(r.JoinType.INNER, criteria=r.JoinUsingCriteria([s, "k"])))),
    }[place]())


N = {"n": 4, "u": 2}
TH = {"n": 8, "u": 4}
HARNESSES = [
    Harness("strings", h_strings, "strings of length 0..4 (thorough 0..8) over all Unicode scalars in 12 places, both print modes", N, TH),
    Harness("two_strings", h_two_strings, "two strings/identifiers of length 0..4 (thorough 0..6) side by side", N, {"n": 6}),
    Harness("identifiers_in_expressions", h_ident_expr, "identifiers of length 0..4 (8) over all Unicode scalars in 6 places", N, TH),
    Harness("identifiers_in_queries", h_ident_query, "identifiers of length 0..4 (8) over all Unicode scalars in 14 places", N, TH),
    Harness("strings_in_queries", h_string_in_query, "strings of length 1..4 (8) in laid out clauses, both print modes", N, TH),
    Harness("read_string", h_read_string, "quoted strings of 0..4 (8) characters, each any character or a doubled quote", N, TH),
    Harness("read_unicode_string", h_read_unicode, "U& strings of 0..2 (4) elements: character, 4 or 6 digit escape with 3 symbolic digits of either case, escaped escape, doubled quote; 5 escape characters", N, TH),
    Harness("read_identifier", h_read_ident, "identifiers of 1..4 (8) characters, quoted (or empty) or not, in 4 places", N, TH),
    Harness("fragments", h_fragments, "every format field, and every argument of replace, split, startswith, comparisons, ... in the source of the package, as string or identifier in 8 places (thorough: also next to any character, as qualifier and dereference, in 16 places)"),
    Harness("long", h_long, "texts of 25 (thorough 160) lengths up to 257 (2000), with 1 (2) arbitrary characters at the start, in the middle or at the end, in 10 places, both print modes"),
]
