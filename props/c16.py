"""C16: query text is read with every clause in its place."""
from sx.api import Harness

from .c04 import subset
from .c08 import ELEMENTS, element
from .common import deep_eq, render
from .gen import ITEMS, REL, RLEAF, SETOPS, SIMPLE, Gen, constraints, from_clause, norm_sugar, order_terms, relation, select_items, set_query, simple_query
from .spell import STYLES, I, K, O, W, commas, join, text
from .zoo import ZOO, window
from .special import tree as special_tree
from .long import GROUP_LISTS, QUERY_CHAINS, QUERY_LISTS, REL_CHAINS, REL_LISTS, DEEP_QUICK, deep, expr_place, grouped, in_query, lists, name_place

ALLSTYLES = list(STYLES)


def reads_as(ctx, g, sql, want, label="every clause in its place"):
    from treeno.builder.convert import query_from_sql

    ctx.sample(lambda: str(sql))
    try:
        got = query_from_sql(sql)
    except Exception as e:
        ctx.check(False, "SQL of the grammar is read", lambda: "%s: %s: %s" % (sql, type(e).__name__, str(e)[:200]))
        return
    ctx.check(deep_eq(got, want, norm=norm_sugar(g)), label, lambda: "%s reads as %s, expected %s" % (sql, render(got), render(want)))


def is_rejected(ctx, sql, label="text outside of the grammar is rejected"):
    from treeno.builder.convert import query_from_sql

    ctx.sample(lambda: str(sql))
    try:
        got = query_from_sql(sql)
    except Exception:
        ctx.check(True, label)
        return
    ctx.check(False, label, lambda: "%s reads as %s" % (sql, render(got)))


def styled(ctx, g, query, styles=None):
    style = ctx.pick("style", styles or ALLSTYLES)
    reads_as(ctx, g, text(g, query, style, "query"), query)


def h_clauses(ctx):
    g = Gen(ctx)
    x, r = g.x, g.r
    Q = g.T.base.SetQuantifier
    cl = subset(ctx, "clauses", ["from", "where", "groupby", "having", "window", "orderby", "offset", "limit", "with"])
    kw = constraints(g, cl)
    if "from" in cl:
        kw["from_"] = r.AliasedRelation(r.Table(g.name("t")), g.name("al"))
    if "where" in cl:
        kw["where"] = x.Equal(g.field(), g.field())
    if "groupby" in cl:
        kw["groupby"] = g.g.GroupBy([g.g.GroupingSet([g.field()])])
    if "having" in cl:
        kw["having"] = x.IsNull(g.field())
    if "window" in cl:
        kw["window"] = {g.name("w"): g.w.Window(partitions=[g.field()])}
    if "with" in cl:
        kw["with_"] = [r.AliasedRelation(simple_query(g, "select"), g.name("cte"))]
    quant = ctx.pick("quantifier", [Q.ALL, Q.DISTINCT])
    styled(ctx, g, r.SelectQuery([x.AliasedValue(g.field(), g.name("al")), g.field()], select_quantifier=quant, **kw), None if ctx.thorough else ["full", "sugar"])


def h_items(ctx):
    g = Gen(ctx)
    items = select_items(g, ctx.pick("items", ITEMS))
    if ctx.flag("more"):
        items = items + select_items(g, ctx.pick("items2", ITEMS))
    query = g.r.SelectQuery(items, from_=from_clause(g, ctx.pick("from", [None, "table", "alias", "join", "sub"] if ctx.thorough else [None, "alias"])))
    styled(ctx, g, query, None if ctx.thorough else ["plain", "sugar", "tight", "lines"])


def h_relations(ctx):
    g = Gen(ctx)
    g.small = not ctx.thorough
    rel = relation(g, [REL + RLEAF, REL + RLEAF])
    styled(ctx, g, g.r.SelectQuery([g.field()], from_=rel), None if ctx.thorough else ["plain", "full", "sugar", "comments"])


def h_relations3(ctx):
    g = Gen(ctx)
    g.small = True
    core = [k for k in REL if "core" in k.tags]
    k = REL if ctx.thorough else core
    rel = relation(g, [k, k, (REL + RLEAF) if ctx.thorough else core + RLEAF[:5]])
    styled(ctx, g, g.r.SelectQuery([g.field()], from_=rel), ["full", "sugar"] if ctx.thorough else ["sugar"])


# ---------------------------------------------------------------- flat texts, grouped by parsers of our own
class Bad(Exception):
    pass


class Tokens:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, *words):
        p = self.peek()
        if isinstance(p, str) and p in words:
            self.i += 1
            return p

    def want(self, w):
        if not self.take(w):
            raise Bad()

    def node(self):
        p = self.peek()
        if p is None or isinstance(p, str):
            raise Bad()
        self.i += 1
        return p[1]

    def end(self, v):
        if self.i != len(self.t):
            raise Bad()
        return v


def words(parts):
    """flat parts (words and (tokens, node) pairs) as tokens of the text, and for the parser"""
    out, toks = [], []
    for p in parts:
        if isinstance(p, str):
            for w in p.split():
                out += K(w) if w.isalpha() else O(w)
                toks.append(w)
        else:
            out += p[0]
            toks.append(p)
    return out, toks


class Joins(Tokens):
    def __init__(self, g, toks):
        super().__init__(toks)
        self.g, self.r = g, g.r

    def all(self):
        return self.end(self.rel())

    def rel(self):
        r = self.r
        T = r.JoinType
        v = self.prim()
        while True:
            save = self.i
            if self.take("CROSS"):
                self.want("JOIN")
                v = r.Join(v, self.prim(), r.JoinConfig(T.CROSS))
                continue
            natural = self.take("NATURAL")
            w = self.take("INNER", "LEFT", "RIGHT", "FULL")
            if w in ("LEFT", "RIGHT", "FULL"):
                self.take("OUTER")
            if not self.take("JOIN"):
                if self.i != save:
                    raise Bad()
                return v
            typ = {None: T.INNER, "INNER": T.INNER, "LEFT": T.LEFT, "RIGHT": T.RIGHT, "FULL": T.OUTER}[w]
            if natural:
                v = r.Join(v, self.prim(), r.JoinConfig(typ, natural=True))
                continue
            right = self.rel()
            if self.take("ON"):
                c = r.JoinOnCriteria(self.node())
            else:
                self.want("USING")
                c = r.JoinUsingCriteria(self.node())
            v = r.Join(v, right, r.JoinConfig(typ, criteria=c))

    def prim(self):
        if self.take("("):
            v = self.rel()
            self.want(")")
            return v
        return self.node()


def table(g):
    n = g.name("t")
    return (I(n), g.r.Table(n))


def on(g):
    a, b = g.name("f"), g.name("f")
    return (I(a) + O("=") + I(b), g.x.Equal(g.x.Field(a), g.x.Field(b)))


def using(g):
    a = g.name("c")
    return (O("(") + I(a) + O(")"), [a])


def check_joins(ctx, g, parts, style="plain"):
    out, toks = words(parts)
    try:
        want = Joins(g, toks).all()
    except Bad:
        want = None
    sql = join(K("SELECT") + W("1") + K("FROM") + out, STYLES[style])
    if want is None:
        is_rejected(ctx, sql)
    else:
        reads_as(ctx, g, sql, g.r.SelectQuery([g.x.wrap_literal(1)], from_=want), "joins grouped left to right")


JOINS = ["CROSS JOIN", "JOIN", "LEFT JOIN", "NATURAL JOIN", "FULL OUTER JOIN"]


def h_join_chain(ctx):
    """tables and join operators in a row, each with its criteria right behind or after the following ones"""
    g = Gen(ctx)
    n = ctx.params["n"]
    kinds = [ctx.pick("join", JOINS if i < 2 or ctx.thorough else JOINS[:2]) for i in range(n)]
    lo = ctx.choose("lo", n + 1)
    hi = lo + ctx.choose("len", n + 1 - lo)
    late = ctx.flag("late")  # criteria of all joins at the end, innermost first
    parts, pending = [], []
    for i in range(n + 1):
        if i == lo:
            parts.append("(")
        parts.append(table(g))
        if i and "CROSS" not in kinds[i - 1] and "NATURAL" not in kinds[i - 1]:
            crit = ["ON", on(g)] if i % 2 else ["USING", using(g)]
            if late:
                pending = crit + pending
            else:
                parts += crit
        if i == hi:
            parts.append(")")
        if i < n:
            parts.append(kinds[i])
    check_joins(ctx, g, parts + pending)


def h_join_words(ctx):
    """every way to spell a join operator, with and without criteria"""
    g = Gen(ctx)
    w1 = ctx.pick("natural", ["", "NATURAL"])
    w2 = ctx.pick("type", ["", "INNER", "LEFT", "RIGHT", "FULL", "CROSS", "LEFT OUTER", "RIGHT OUTER", "FULL OUTER", "OUTER", "INNER OUTER"])
    crit = ctx.pick("criteria", [[], "on", "using", "using2", "both"])
    parts = [table(g), w1, w2, "JOIN", table(g)]
    if crit in ("on", "both"):
        parts += ["ON", on(g)]
    if crit in ("using", "both"):
        parts += ["USING", using(g)]
    if crit == "using2":
        a, b = g.name("c"), g.name("c")
        parts += ["USING", (O("(") + I(a) + O(",") + I(b) + O(")"), [a, b])]
    check_joins(ctx, g, parts, ctx.pick("style", ALLSTYLES))


class Sets(Tokens):
    def __init__(self, g, toks):
        super().__init__(toks)
        self.g, self.r = g, g.r

    def all(self):
        return self.end(self.query())

    def quant(self, ops):
        Q = self.g.T.base.SetQuantifier
        w = self.take("ALL", "DISTINCT")
        if w == "ALL" and ops != "UNION":
            raise Bad()
        return Q.ALL if w == "ALL" else Q.DISTINCT

    def query(self):
        v = self.term()
        while True:
            w = self.take("UNION", "EXCEPT")
            if not w:
                return v
            cls = self.r.UnionQuery if w == "UNION" else self.r.ExceptQuery
            s = self.quant(w)
            v = cls(v, self.term(), s)

    def term(self):
        v = self.prim()
        while self.take("INTERSECT"):
            s = self.quant("INTERSECT")
            v = self.r.IntersectQuery(v, self.prim(), s)
        return v

    def prim(self):
        if self.take("("):
            v = self.query()
            self.want(")")
            return v
        return self.node()


def operand(ctx, g, kind="select"):
    r, x = g.r, g.x
    if kind == "select":
        a = g.name("f")
        return (K("SELECT") + I(a), r.SelectQuery([x.Field(a)]))
    if kind == "from":
        a, t = g.name("f"), g.name("t")
        return (K("SELECT") + I(a) + K("FROM") + I(t), r.SelectQuery([x.Field(a)], from_=r.Table(t)))
    if kind == "table":
        t = g.name("t")
        return (K("TABLE") + I(t), r.TableQuery(r.Table(t)))
    if kind == "values":
        n = ctx.int("n", 0, 9)
        return (K("VALUES") + W(n.__str__()), r.ValuesQuery([x.wrap_literal(n)]))
    if kind == "limited":
        a, n = g.name("f"), ctx.int("n", 0, 9)
        return (O("(") + K("SELECT") + I(a) + K("LIMIT") + W(n.__str__()) + O(")"), r.SelectQuery([x.Field(a)], limit=n))
    raise ValueError(kind)


TRAILS = ["", "order", "limit", "offset", "fetch", "order limit", "order offset fetch"]


def trail(ctx, g, what):
    out, kw = [], {}
    if "order" in what:
        a = g.name("o")
        out += K("ORDER BY") + I(a) + K("DESC")
        kw["orderby"] = [g.o.OrderTerm(g.x.Field(a), g.o.OrderType.DESC)]
    if "offset" in what:
        n = ctx.int("off", 0, 9)
        out += K("OFFSET") + W(n.__str__()) + K("ROWS")
        kw["offset"] = n
    if "limit" in what:
        n = ctx.int("lim", 0, 9)
        out += K("LIMIT") + W(n.__str__())
        kw["limit"] = n
    if "fetch" in what:
        n = ctx.int("lim", 0, 9)
        out += K("FETCH NEXT") + W(n.__str__()) + K("ROWS ONLY")
        kw["limit"] = n
    return out, kw


def with_clauses(g, query, kw):
    """clauses outside of parentheses apply after the ones inside"""
    if not kw:
        return query
    if query.orderby is not None or query.offset is not None or query.limit is not None:
        query = g.r.SelectQuery([g.x.Star()], from_=query)
    for k, v in kw.items():
        setattr(query, k, v)
    return query


OPS = ["UNION", "UNION ALL", "INTERSECT", "EXCEPT", "UNION DISTINCT", "INTERSECT DISTINCT", "EXCEPT DISTINCT", "INTERSECT ALL", "EXCEPT ALL"]


def h_sets(ctx):
    """operands and set operations in a row, parentheses around any run, clauses at the end"""
    g = Gen(ctx)
    n = ctx.params["n"]
    ops = [ctx.pick("op", OPS if ctx.thorough else OPS[:4]) for _ in range(n)]
    lo = ctx.choose("lo", n + 1)
    hi = lo + ctx.choose("len", n + 1 - lo)
    deep = ctx.choose("deep", 2) if not ctx.thorough else ctx.choose("deep", 3)
    ctx.assume(deep or (lo == 0 and hi == 0))
    parts = []
    for i in range(n + 1):
        if i == lo:
            parts += ["("] * deep
        parts.append(operand(ctx, g, "select"))
        if i == hi:
            parts += [")"] * deep
        if i < n:
            parts.append(ops[i])
    check_sets(ctx, g, parts, ctx.pick("trail", TRAILS if ctx.thorough else ["", "order limit"]))


def check_sets(ctx, g, parts, trailing, style="plain"):
    out, toks = words(parts)
    tout, kw = trail(ctx, g, trailing)
    try:
        want = Sets(g, toks).all()
    except Bad:
        want = None
    sql = join(out + tout, STYLES[style])
    if want is None:
        is_rejected(ctx, sql)
    else:
        reads_as(ctx, g, sql, with_clauses(g, want, kw), "INTERSECT first, then left to right")


def h_set_kinds(ctx):
    """operands of every kind, every operator and quantifier, clauses of every kind at the end, every style"""
    g = Gen(ctx)
    kinds = ["select", "from", "table", "values", "limited"]
    part = ctx.pick("part", ["operands", "clauses"])
    op = ctx.pick("op", OPS)
    if part == "operands":
        parts = [operand(ctx, g, ctx.pick("left", kinds)), op, operand(ctx, g, ctx.pick("right", kinds))]
        check_sets(ctx, g, parts, ctx.pick("trail", ["", "limit"]), ctx.pick("style", ["plain", "sugar"] if not ctx.thorough else ALLSTYLES))
    else:
        k = ctx.pick("kind", kinds)
        parts = [operand(ctx, g, k), op, operand(ctx, g, "from")]
        if ctx.flag("alone"):
            ctx.assume(op == "UNION")
            parts = parts[:1]
        check_sets(ctx, g, parts, ctx.pick("trail", TRAILS), ctx.pick("style", ["tight", "comments"]))


def h_trees(ctx):
    """trees of set operations with clauses of their own, spelled in several styles"""
    g = Gen(ctx)
    op = ctx.pick("op", SETOPS)
    inner = set_query(g, ctx.pick("inner", SETOPS), simple_query(g, ctx.pick("a", SIMPLE if ctx.thorough else ["select", "select_limit", "values"])), simple_query(g, "table"), **constraints(g, ctx.pick("clauses", [[], ["limit"], ["orderby"]])))
    other = simple_query(g, ctx.pick("b", ["select", "values_limit", "table_order"]))
    l, r = (inner, other) if ctx.flag("left") else (other, inner)
    query = set_query(g, op, l, r, **constraints(g, ctx.pick("outer", [[], ["offset", "limit", "orderby"]])))
    styled(ctx, g, query, None if ctx.thorough else ["plain", "full"])


# ---------------------------------------------------------------- single clauses
def h_limits(ctx):
    """every spelling of OFFSET, LIMIT and FETCH FIRST after every kind of query"""
    g = Gen(ctx)
    r = g.r
    toks, query = operand(ctx, g, ctx.pick("kind", ["select", "from", "table", "values"]))
    off = ctx.pick("offset", ["", "n", "n ROW", "n ROWS"])
    lim = ctx.pick("limit", ["", "LIMIT n", "LIMIT ALL", "FETCH FIRST n ROWS ONLY", "FETCH NEXT n ROW ONLY", "FETCH FIRST ROW ONLY", "FETCH NEXT ROWS ONLY"])
    if ctx.flag("order"):
        a = g.name("o")
        toks = toks + K("ORDER BY") + I(a)
        query.orderby = [g.o.OrderTerm(g.x.Field(a))]
    big = 10**9 if ctx.thorough else 99
    if off:
        n = ctx.int("o", 0, big)
        toks = toks + K("OFFSET") + W(n.__str__()) + K(off[1:])
        query.offset = n
    if lim:
        n = ctx.int("l", 0, big)
        for w in lim.split():
            toks = toks + (W(n.__str__()) if w == "n" else K(w))
        query.limit = n if " n" in lim else None if "ALL" in lim else 1
    reads_as(ctx, g, join(toks, STYLES[ctx.pick("style", ["plain", "sugar"] if not ctx.thorough else ALLSTYLES)]), query, "limits as written")


def h_aliases(ctx):
    """names given with and without AS, to values, stars, tables, subqueries, and lists of columns"""
    g = Gen(ctx)
    x, r = g.x, g.r
    as_ = K("AS") if ctx.flag("as") else []
    a, al, c1, c2 = g.name("a"), g.name("al"), g.name("c"), g.name("c")
    cols = O("(") + I(c1) + O(",") + I(c2) + O(")")
    what = ctx.pick("what", ["value", "expr", "star", "tstar", "astar", "table", "cols", "sub", "unnest", "lateral", "sample", "sampled", "join", "case", "call"])
    sel, frm, items, rel = I(a), [], [x.Field(a)], None
    t = g.name("t")
    tab, T = I(t), r.Table(t)
    style = ctx.pick("style", ALLSTYLES)
    if what == "value":
        sel, items = I(a) + as_ + I(al), [x.AliasedValue(x.Field(a), al)]
    elif what == "expr":
        sel, items = I(a) + O("+") + W("1") + as_ + I(al), [x.AliasedValue(x.Add(x.Field(a), x.wrap_literal(1)), al)]
    elif what == "case":
        sel = K("CASE WHEN") + I(a) + K("THEN") + W("1") + K("END") + as_ + I(al)
        items = [x.AliasedValue(x.Case([x.When(x.Field(a), x.wrap_literal(1))]), al)]
    elif what == "call":
        sel, items = [("F", "SUM")] + O("(") + I(a) + O(")") + as_ + I(al), [x.AliasedValue(g.agg.Sum(x.Field(a)), al)]
    elif what == "star":
        sel, items = O("*"), [x.Star()]
    elif what == "tstar":
        sel, items = I(a) + O(".") + O("*"), [x.Star(a)]
    elif what == "astar":
        sel, items = I(a) + O(".") + O("*") + K("AS") + cols, [x.AliasedStar(x.Star(a), [c1, c2])]
    elif what == "table":
        frm, rel = tab + as_ + I(al), r.AliasedRelation(T, al)
    elif what == "cols":
        frm, rel = tab + as_ + I(al) + cols, r.AliasedRelation(T, al, [c1, c2])
    elif what == "sub":
        frm, rel = O("(") + K("TABLE") + tab + O(")") + as_ + I(al) + cols, r.AliasedRelation(r.TableQuery(T), al, [c1, c2])
    elif what == "unnest":
        o = ctx.flag("ord")
        frm = K("UNNEST") + O("(") + I(a) + O(")") + (K("WITH ORDINALITY") if o else []) + as_ + I(al) + cols
        rel = r.AliasedRelation(r.Unnest([x.Field(a)], with_ordinality=o), al, [c1, c2])
    elif what == "lateral":
        frm, rel = K("LATERAL") + O("(") + K("SELECT") + I(a) + O(")") + as_ + I(al), r.AliasedRelation(r.Lateral(r.SelectQuery([x.Field(a)])), al)
    elif what == "sample":
        frm, rel = tab + as_ + I(al) + K("TABLESAMPLE SYSTEM") + O("(") + W("5") + O(")"), r.TableSample(r.AliasedRelation(T, al), r.SampleType.SYSTEM, x.wrap_literal(5))
    elif what == "sampled":
        frm = O("(") + tab + K("TABLESAMPLE BERNOULLI") + O("(") + W("5") + O(")") + O(")") + as_ + I(al)
        rel = r.AliasedRelation(r.TableSample(T, r.SampleType.BERNOULLI, x.wrap_literal(5)), al)
    else:
        frm = tab + as_ + I(al) + K("CROSS JOIN") + tab + as_ + I(c1)
        rel = r.Join(r.AliasedRelation(T, al), r.AliasedRelation(r.Table(t), c1), r.JoinConfig(r.JoinType.CROSS))
    toks = K("SELECT") + sel + O(",") + W("7") + (K("FROM") + frm if frm else [])
    reads_as(ctx, g, join(toks, STYLES[style]), r.SelectQuery(items + [x.wrap_literal(7)], from_=rel), "names where they were given")


def h_with(ctx):
    """named queries in order, with or without columns, before every kind of query, also nested ones"""
    g = Gen(ctx)
    r = g.r
    n = 1 + ctx.choose("n", ctx.params["n"])
    entries, named = [], []
    for _ in range(n):
        toks, query = operand(ctx, g, ctx.pick("q", ["select", "table", "limited"] if ctx.thorough else ["select", "limited"]))
        nm = g.name("cte")
        k = ctx.choose("cols", 3)
        cols = [g.name("c") for _ in range(k)]
        entries.append(I(nm) + (O("(") + commas([I(c) for c in cols]) + O(")") if k else []) + K("AS") + O("(") + toks + O(")"))
        named.append(r.AliasedRelation(query, nm, cols or None))
    toks, query = operand(ctx, g, ctx.pick("main", ["select", "from", "values", "table"]))
    toks = K("WITH") + commas(entries) + toks
    if not ctx.flag("union"):
        query.with_ = named
    else:
        t2, q2 = operand(ctx, g, "select")
        toks, query = toks + K("UNION") + t2, r.UnionQuery(query, q2, with_=named)
    place = ctx.pick("place", ["top", "from", "in", "with"] if n == 1 or ctx.thorough else ["top"])
    f = g.name("f")
    head = K("SELECT") + I(f)
    F = lambda: [g.x.Field(f)]
    if place == "from":
        toks, query = head + K("FROM") + O("(") + toks + O(")"), r.SelectQuery(F(), from_=query)
    elif place == "in":
        toks, query = head + K("WHERE") + I(f) + K("IN") + O("(") + toks + O(")"), r.SelectQuery(F(), where=g.x.InQuery(g.x.Field(f), query))
    elif place == "with":
        toks, query = K("WITH") + I(f) + K("AS") + O("(") + toks + O(")") + head, r.SelectQuery(F(), with_=[r.AliasedRelation(query, f)])
    reads_as(ctx, g, join(toks, STYLES["plain"]), query, "named queries in place")


def h_parens(ctx):
    """redundant parentheses around queries and relations, wherever these stand"""
    g = Gen(ctx)
    r, x = g.r, g.x
    kind = ctx.pick("kind", ["select", "values", "table", "limited", "union", "with"])
    if kind == "union":
        a, b = operand(ctx, g), operand(ctx, g)
        toks, query = a[0] + K("UNION") + b[0], r.UnionQuery(a[1], b[1])
    elif kind == "with":
        a, b, nm = operand(ctx, g), operand(ctx, g), g.name("n")
        toks, query = K("WITH") + I(nm) + K("AS") + O("(") + a[0] + O(")") + b[0], b[1]
        query.with_ = [r.AliasedRelation(a[1], nm)]
    else:
        toks, query = operand(ctx, g, kind)
    place = ctx.pick("place", ["top", "from", "alias", "join", "in", "operand", "with", "lateral", "setleft", "setright"])
    n = ctx.choose("n", 3 if not ctx.thorough else 4)
    # WITH is no part of what may stand in further parentheses, except around a relation
    wrap = lambda t, k: O("(") * k + t + O(")") * k
    if kind == "with" and (place in ("top", "setleft", "setright") or place in ("in", "operand", "with", "lateral")):
        ctx.assume(n == 0 and place not in ("setleft", "setright"))
    f, al, t = g.name("f"), g.name("al"), g.name("t")
    head = K("SELECT") + I(f)
    F = lambda: [x.Field(f)]
    if place == "top":
        # clauses outside of parentheses are a different matter: see "set_kinds"
        toks, want = wrap(toks, n), query
    elif place == "from":
        toks, want = head + K("FROM") + wrap(toks, n + 1), r.SelectQuery(F(), from_=query)
    elif place == "alias":
        toks, want = head + K("FROM") + wrap(wrap(toks, n + 1) + I(al), n), r.SelectQuery(F(), from_=r.AliasedRelation(query, al))
    elif place == "join":
        toks = head + K("FROM") + wrap(wrap(I(t), n) + K("CROSS JOIN") + wrap(toks, n + 1), n)
        want = r.SelectQuery(F(), from_=r.Join(r.Table(t), query, r.JoinConfig(r.JoinType.CROSS)))
    elif place == "in":
        ctx.assume(n == 0 and kind != "limited")
        toks, want = head + K("WHERE") + I(f) + K("IN") + wrap(toks, 1), r.SelectQuery(F(), where=x.InQuery(x.Field(f), query))
    elif place == "operand":
        toks, want = head + K("WHERE") + I(f) + O("=") + wrap(toks, n + 1), r.SelectQuery(F(), where=x.Equal(x.Field(f), query))
    elif place == "with":
        toks, want = K("WITH") + I(al) + K("AS") + wrap(toks, n + 1) + head, r.SelectQuery(F(), with_=[r.AliasedRelation(query, al)])
    elif place == "lateral":
        toks, want = head + K("FROM LATERAL") + wrap(toks, n + 1), r.SelectQuery(F(), from_=r.Lateral(query))
    else:
        o = operand(ctx, g)
        inner = wrap(toks, n + 1)
        if place == "setleft":
            toks, want = inner + K("EXCEPT") + o[0], r.ExceptQuery(query, o[1])
        else:
            toks, want = o[0] + K("EXCEPT") + inner, r.ExceptQuery(o[1], query)
    reads_as(ctx, g, join(toks, STYLES[ctx.pick("style", ["plain", "tight"])]), want, "redundant parentheses make no difference")


def h_groups(ctx):
    g = Gen(ctx)
    n = 1 + ctx.choose("n", 2)
    els = [element(g, ctx.pick("el", ELEMENTS)) for _ in range(n)]
    Q = g.T.base.SetQuantifier
    query = g.r.SelectQuery([g.field()], from_=g.r.Table(g.name("t")), groupby=g.g.GroupBy(els, ctx.pick("quantifier", [Q.ALL, Q.DISTINCT])), having=g.field() if n == 1 else None)
    styled(ctx, g, query, None if ctx.thorough or n == 1 else ["full", "tight"])


def h_windows(ctx):
    g = Gen(ctx)
    w = g.w
    B = w.BoundType
    parts = subset(ctx, "parts", ["parent", "partition", "order"])
    kw = {}
    if "parent" in parts:
        kw["parent_window"] = g.name("w")
    if "partition" in parts:
        kw["partitions"] = [g.field(), g.field()]
    if "order" in parts:
        kw["orderby"] = order_terms(g)
    frame = ctx.pick("frame", ["none", "start", "both"])
    if frame != "none":
        kw["frame_type"] = ctx.pick("unit", list(w.FrameType))
        kw["start_bound"] = ctx.pick("start", [w.UnboundedFrameBound(B.PRECEDING), w.BoundedFrameBound(B.PRECEDING, g.lit_int(0, 9)), w.CurrentFrameBound()])
        if frame == "both":
            kw["end_bound"] = ctx.pick("end", [w.UnboundedFrameBound(B.FOLLOWING), w.BoundedFrameBound(B.FOLLOWING, g.lit_int(0, 9)), w.BoundedFrameBound(B.PRECEDING, g.lit_int(0, 9))])
    win = w.Window(**kw)
    if ctx.flag("over"):
        query = g.r.SelectQuery([g.agg.Sum(g.field(), window=win)])
    else:
        query = g.r.SelectQuery([g.field()], window={"w1": win, "w2": w.Window()})
    styled(ctx, g, query, None if ctx.thorough else ["full", "sugar"] if len(parts) < 2 else ["tight"])


def h_nested(ctx):
    """a query with clauses of its own inside of another, in every place"""
    g = Gen(ctx)
    x, r = g.x, g.r
    place = ctx.pick("place", ["from", "alias", "with", "in", "operand", "lateral", "join", "list"])
    inner = simple_query(g, ctx.pick("inner", SIMPLE))
    f = g.field
    t = lambda: r.Table(g.name("t"))
    own = dict(constraints(g, ctx.pick("outer", [[], ["limit"], ["orderby", "offset"]])), having=None)
    cross = r.JoinConfig(r.JoinType.CROSS)
    query = {
        "from": lambda: r.SelectQuery([f()], from_=inner, **own),
        "alias": lambda: r.SelectQuery([f()], from_=r.AliasedRelation(inner, g.name("al")), where=f(), **own),
        "with": lambda: r.SelectQuery([f()], with_=[r.AliasedRelation(inner, g.name("al"))], **own),
        "in": lambda: r.SelectQuery([f()], where=x.InQuery(f(), inner), **own),
        "operand": lambda: r.SelectQuery([f()], where=x.Equal(f(), inner), **own),
        "lateral": lambda: r.SelectQuery([f()], from_=r.Join(t(), r.Lateral(inner), cross), **own),
        "join": lambda: r.SelectQuery([f()], from_=r.Join(t(), inner, r.JoinConfig(r.JoinType.INNER, criteria=r.JoinOnCriteria(f()))), **own),
        "list": lambda: r.SelectQuery([x.Add(inner, f()), f()], from_=t(), **own),
    }[place]()
    styled(ctx, g, query, None if ctx.thorough else ["full", "comments", "tight"])


def h_zoo(ctx):
    """every kind of query with every clause populated, in every style; every expression as an item"""
    g = Gen(ctx)
    name = ctx.pick("node", [n for n in ZOO if n.startswith("query:")])
    query = ZOO[name](g)
    styled(ctx, g, query)


def h_case(ctx):
    """each keyword in upper or lower case on its own"""
    g = Gen(ctx)
    r, x = g.r, g.x
    a, b = g.name("a"), g.name("b")
    A, B = x.Field(a), x.Field(b)
    T = r.Table(a)
    one = [x.wrap_literal(1)]
    Q = g.T.base.SetQuantifier
    J = lambda t, **k: r.SelectQuery(one, from_=r.Join(T, r.Table(b), r.JoinConfig(t, **k)))
    S = lambda **k: r.SelectQuery(one, from_=T, **k)
    forms = [
        (["SELECT", "DISTINCT", "1", "FROM", a, "WHERE", b, "HAVING", b], S(where=B, having=B, select_quantifier=Q.DISTINCT)),
        (["SELECT", "ALL", "1", "FROM", a, "ORDER", "BY", b, "DESC", "NULLS", "FIRST"], S(orderby=[g.o.OrderTerm(B, g.o.OrderType.DESC, g.o.NullOrder.FIRST)])),
        (["SELECT", "1", "FROM", a, "ORDER", "BY", b, "ASC", "NULLS", "LAST", "LIMIT", "ALL"], S(orderby=[g.o.OrderTerm(B)])),
        (["SELECT", "1", "FROM", a, "OFFSET", "2", "ROWS", "FETCH", "FIRST", "3", "ROW", "ONLY"], S(offset=2, limit=3)),
        (["SELECT", "1", "FROM", a, "OFFSET", "2", "ROW", "FETCH", "NEXT", "ROWS", "ONLY"], S(offset=2, limit=1)),
        (["SELECT", "1", "FROM", a, "NATURAL", "LEFT", "OUTER", "JOIN", b], J(r.JoinType.LEFT, natural=True)),
        (["SELECT", "1", "FROM", a, "FULL", "JOIN", b, "USING", "(", a, ")"], J(r.JoinType.OUTER, criteria=r.JoinUsingCriteria([a]))),
        (["SELECT", "1", "FROM", a, "INNER", "JOIN", b, "ON", "TRUE"], J(r.JoinType.INNER, criteria=r.JoinOnCriteria(x.wrap_literal(True)))),
        (["SELECT", "1", "FROM", a, "CROSS", "JOIN", b], J(r.JoinType.CROSS)),
        (["SELECT", "1", "FROM", a, "RIGHT", "JOIN", b, "ON", a], J(r.JoinType.RIGHT, criteria=r.JoinOnCriteria(A))),
        (["SELECT", "1", "FROM", a, "TABLESAMPLE", "SYSTEM", "(", "1", ")"], r.SelectQuery(one, from_=r.TableSample(T, r.SampleType.SYSTEM, one[0]))),
        (["SELECT", "1", "FROM", a, "AS", b, "TABLESAMPLE", "BERNOULLI", "(", "1", ")"], r.SelectQuery(one, from_=r.TableSample(r.AliasedRelation(T, b), r.SampleType.BERNOULLI, one[0]))),
        (["SELECT", "1", "FROM", "UNNEST", "(", a, ")", "WITH", "ORDINALITY"], r.SelectQuery(one, from_=r.Unnest([A], with_ordinality=True))),
        (["SELECT", "1", "FROM", "LATERAL", "(", "TABLE", a, ")"], r.SelectQuery(one, from_=r.Lateral(r.TableQuery(T)))),
        (["WITH", a, "AS", "(", "VALUES", "1", ")", "TABLE", b], r.TableQuery(r.Table(b), with_=[r.AliasedRelation(r.ValuesQuery(one), a)])),
        (["TABLE", a, "UNION", "ALL", "TABLE", b], r.UnionQuery(r.TableQuery(T), r.TableQuery(r.Table(b)), Q.ALL)),
        (["TABLE", a, "INTERSECT", "DISTINCT", "TABLE", b], r.IntersectQuery(r.TableQuery(T), r.TableQuery(r.Table(b)))),
        (["TABLE", a, "EXCEPT", "TABLE", b, "UNION", "DISTINCT", "TABLE", a], r.UnionQuery(r.ExceptQuery(r.TableQuery(T), r.TableQuery(r.Table(b))), r.TableQuery(r.Table(a)))),
        (["SELECT", "1", "FROM", a, "GROUP", "BY", "DISTINCT", "CUBE", "(", a, ")", ",", "ROLLUP", "(", b, ")"], S(groupby=g.g.GroupBy([g.g.Cube([A]), g.g.Rollup([B])], Q.DISTINCT))),
        (["SELECT", "1", "FROM", a, "GROUP", "BY", "ALL", "GROUPING", "SETS", "(", "(", ")", ")"], S(groupby=g.g.GroupBy([g.g.GroupingSetList([g.g.GroupingSet([])])]))),
        (["SELECT", "1", "FROM", a, "WINDOW", b, "AS", "(", "PARTITION", "BY", a, ")"], S(window={b: g.w.Window(partitions=[A])})),
    ]
    toks, want = forms[ctx.choose("form", len(forms))]
    out = ""
    for t in toks:
        if isinstance(t, str) and len(t) > 1 and t.isalpha():
            t = ctx.pick("case", [t, t.lower()])
        elif t is a or t is b:
            t = '"' + t + '"'
        out = out + " " + t
    reads_as(ctx, g, out, want, "letter case of keywords makes no difference")


def h_long(ctx):
    """long lists and deep nesting as written by hand"""
    g = Gen(ctx)
    sizes = lists(ctx) if ctx.thorough else [1, 2, 3, 5, 8, 9, 11, 16, 17, 33, 65]
    depths = deep(ctx) if ctx.thorough else [1, 2, 3, 5, 8]
    kind = ctx.pick("kind", ["group", "rel", "rel_chain", "query", "query_chain"])
    if kind == "group":
        tree = grouped(g, expr_place(g, GROUP_LISTS, sizes=sizes))
    elif kind == "rel":
        tree = in_query(g, name_place(g, REL_LISTS, sizes=sizes))
    elif kind == "rel_chain":
        tree = in_query(g, name_place(g, REL_CHAINS, sizes=depths))
    elif kind == "query":
        tree = name_place(g, QUERY_LISTS, sizes=sizes)
    else:
        tree = name_place(g, QUERY_CHAINS, sizes=depths)
    styled(ctx, g, tree, ALLSTYLES if ctx.thorough else ["plain"])


def h_special(ctx):
    """special values at every position of the full queries and of relations"""
    from .long import in_query

    g, n = special_tree(ctx, [n for n in ZOO if n.startswith("query:") or n.startswith("rel:")])
    styled(ctx, g, n if isinstance(n, g.r.Query) else in_query(g, n), [s for s in STYLES if STYLES[s]["row"] == "ROW"] if ctx.thorough else ["full"])


HARNESSES = [
    Harness("clauses", h_clauses, "all 512 subsets of the optional clauses x ALL/DISTINCT x 2 (thorough 6) styles of spelling"),
    Harness("items", h_items, "1..2 groups of 7 kinds of select items x 2 (thorough 5) kinds of FROM x 4 (6) styles"),
    Harness("relations", h_relations, "21 relation kinds in every position of 13, in 4 (thorough 6) styles"),
    Harness("relations3", h_relations3, "5 x 5 x 10 (thorough 13 x 13 x 21) relation kinds in every position, in 1 (2) styles"),
    Harness("join_chain", h_join_chain, "3 (thorough 4) join operators of 5 kinds in a row, parentheses around any run of tables, criteria in place or all at the end", {"n": 3}, {"n": 4}),
    Harness("join_words", h_join_words, "22 spellings of a join operator x 5 forms of criteria x 6 styles, ungrammatical ones rejected"),
    Harness("sets", h_sets, "3 set operations of 4 (thorough 4 of 9) in a row, parentheses around any run of operands, clauses at the end", {"n": 3}, {"n": 4}),
    Harness("set_kinds", h_set_kinds, "9 operators x 5 x 5 kinds of operands, and 7 kinds of clauses behind, in 2..6 styles"),
    Harness("set_trees", h_trees, "set operations nested on either side with own clauses, in 2 (thorough 6) styles"),
    Harness("limits", h_limits, "4 spellings of OFFSET x 7 of LIMIT x 4 kinds of queries, numbers 0..99 (thorough 0..10^9)"),
    Harness("aliases", h_aliases, "15 places for a name, with and without AS, in 6 styles"),
    Harness("with", h_with, "1..2 (thorough 1..3) named queries with 0..2 columns, 4 kinds of queries, 4 places", {"n": 2}, {"n": 3}),
    Harness("parens", h_parens, "0..2 (thorough 0..3) redundant parentheses around 6 kinds of queries in 10 places"),
    Harness("groups", h_groups, "1..2 grouping elements of 12 shapes, in 2..6 styles"),
    Harness("windows", h_windows, "8 sets of parts x 3 frame forms x 3 units x bounds, in 1..6 styles"),
    Harness("nested", h_nested, "8 kinds of queries in 8 places, in 3 (thorough 6) styles"),
    Harness("full", h_zoo, "every kind of query with every clause populated, in 6 styles"),
    Harness("case", h_case, "21 forms with every keyword in upper or lower case independently"),
    Harness("special", h_special, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) at every position of the full queries and relations, spelled in full (thorough: in every style that says ROW)"),
    Harness("long", h_long, "36 places of queries; lists of 1..65 (thorough 513) entries, chains of 1..8 (25) levels, in 1 (6) styles, one name symbolic"),
]
