"""C21: reading, printing, comparing and resolving leave no trace."""
from enum import Enum

import attr

from sx.api import Harness

from .common import SKIP_FIELDS, deep_eq, is_sym, leaf_eq, render, zand_all
from .gen import KINDS, REL, RLEAF, SIMPLE, BYNAME, Gen, simple_query
from .zoo import NAMES, ZOO


class Twin:
    """a ctx whose choices and leaves can be had a second time"""

    def __init__(self, ctx):
        self.ctx, self.log, self.i = ctx, [], None

    def again(self):
        self.i = 0
        return self

    def _do(self, f):
        if self.i is None or self.i >= len(self.log):
            self.log.append(f())
            if self.i is not None:
                self.i += 1
            return self.log[-1]
        self.i += 1
        return self.log[self.i - 1]

    def name(self, *a, **k):
        return self._do(lambda: self.ctx.name(*a, **k))

    def str(self, *a, **k):
        return self._do(lambda: self.ctx.str(*a, **k))

    def int(self, *a, **k):
        return self._do(lambda: self.ctx.int(*a, **k))

    def choose(self, label, n):
        return self._do(lambda: self.ctx.choose(label, n))

    def pick(self, label, options):
        options = list(options)
        return options[self.choose(label, len(options))]

    def flag(self, label):
        return bool(self.choose(label, 2))

    def assume(self, c):
        self.ctx.assume(c)

    @property
    def thorough(self):
        return self.ctx.thorough


def maker(ctx, build):
    """a function that builds the same tree afresh each time"""
    tw = Twin(ctx)
    g = Gen(tw)

    def make():
        tw.again()
        return build(g)

    build(g)
    return g, make


def parts(x, out=None, hidden=False):
    """every mutable object of a tree: nodes, lists, dicts"""
    if out is None:
        out = []
    if is_sym(x) or x is None or isinstance(x, (str, int, float, Enum)):
        return out
    if any(x is y for y in out):
        return out
    if isinstance(x, (list, set)):
        out.append(x)
        for y in x:
            parts(y, out, hidden)
    elif isinstance(x, tuple):
        for y in x:
            parts(y, out, hidden)
    elif isinstance(x, dict):
        out.append(x)
        for k, y in x.items():
            parts(y, out, hidden)
    elif attr.has(type(x)) and not isinstance(x, type):
        out.append(x)
        for f in attr.fields(type(x)):
            if hidden or f.name not in SKIP_FIELDS:
                parts(getattr(x, f.name), out, hidden)
    return out


def shared(g, a, b):
    """the mutable objects two trees have in common (the NULL of the library is one object, and meant to be)"""
    out = []
    mine = {id(p): p for p in parts(a, hidden=True)}
    null = {id(p) for p in parts(g.x.NULL, hidden=True)}
    for p in parts(b, hidden=True):
        if id(p) in mine and id(p) not in null:
            out.append(type(p).__name__)
    return out


class Photo:
    """what a tree looks like now: every object it consists of and what each holds"""

    def __init__(self, tree, hidden=False):
        self.tree, self.hidden = tree, hidden
        self.held = [(p, self._content(p)) for p in parts(tree, hidden=hidden)]

    def _content(self, p):
        if isinstance(p, (list, set)):
            return list(p)
        if isinstance(p, dict):
            return [y for kv in p.items() for y in kv]
        return [getattr(p, f.name) for f in attr.fields(type(p)) if self.hidden or f.name not in SKIP_FIELDS]

    def same(self):
        """nothing was replaced, added or removed: the same objects in the same places"""
        now = [(p, self._content(p)) for p in parts(self.tree, hidden=self.hidden)]
        if len(now) != len(self.held):
            return False
        for (p, a), (q, b) in zip(self.held, now):
            if p is not q or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if x is not y and not (is_leaf(x) and is_leaf(y) and type(x) is type(y) and not is_sym(x) and x == y):
                    return False
        return True


def is_leaf(x):
    return isinstance(x, (str, int, float, Enum)) or is_sym(x)


def spoil(g, tree):
    """change everything in a tree that can be changed"""
    null = {id(p) for p in parts(g.x.NULL, hidden=True)}
    for p in parts(tree, hidden=True):
        if id(p) in null:
            continue
        if isinstance(p, list):
            p.append("spoilt")
        elif isinstance(p, set):
            p.add("spoilt")
        elif isinstance(p, dict):
            p["spoilt"] = "spoilt"
        else:
            for f in attr.fields(type(p)):
                try:
                    object.__setattr__(p, f.name, "spoilt")
                except Exception:
                    pass


def few(ctx, quick_agg=("agg:SUM", "agg:MAX_BY")):
    return NAMES if ctx.thorough else [n for n in NAMES if not n.startswith("agg:") or n in quick_agg]


def printable(g, t):
    return hasattr(t, "sql") and type(t).__name__ not in ("JoinConfig", "When", "Else", "GroupingSetList")


def text(g, t, pretty=False, opts=None):
    P = g.T.base
    return t.sql(opts or P.PrintOptions(mode=P.PrintMode.PRETTY if pretty else P.PrintMode.DEFAULT))


def string(t):
    return t.__str__()


def try_(f):
    """the result of f, or the name of the exception it raises (some parts of trees can't be printed by themselves)"""
    try:
        return True, f()
    except Exception as e:
        return False, type(e).__name__


def same_result(a, b):
    if a[0] != b[0]:
        return False
    if is_leaf(a[1]) or is_leaf(b[1]) or a[1] is None:
        return leaf_eq(a[1], b[1]) if a[1] is not None and b[1] is not None else a[1] is b[1]
    return deep_eq(a[1], b[1])


OPS = ["print", "pretty", "str", "repr", "equals", "differs", "type", "identifier", "visit"]


def operate(g, op, t, other):
    from treeno.visitor import TreenoVisitor

    if op == "print":
        return text(g, t)
    if op == "pretty":
        return text(g, t, True)
    if op == "str":
        return string(t)
    if op == "repr":
        render(t)
        return None
    if op == "equals":
        return t.equals(t)
    if op == "differs":
        return bool(t.equals(other)) or bool(other.equals(t))
    if op == "type":
        return getattr(t, "data_type", None)
    if op == "identifier":
        return t.identifier() if hasattr(t, "identifier") else None
    if op == "visit":

        class V(TreenoVisitor):
            pass

        V().visit(t)
        return None
    raise ValueError(op)


def h_pure(ctx):
    """no operation changes the tree it is applied to, and its result is the same again after any other"""
    name = ctx.pick("node", few(ctx))
    g, make = maker(ctx, ZOO[name])
    t, other = make(), Gen(ctx).field()
    photo = Photo(t, True)
    ctx.sample(lambda: render(t))
    ops = [ctx.pick("op%d" % i, OPS if ctx.thorough or i == 0 else ["print", "pretty", "type"]) for i in range(2)]
    first = {}
    for op in ops + ops:
        r = try_(lambda: operate(g, op, t, other))
        ctx.check(photo.same(), "the tree is left as it was", lambda: "%s by %s" % (render(t), op))
        if op in first:
            ctx.check(same_result(first[op], r), "the same result again", lambda: "%s of %s: %s and then %s" % (op, render(t), first[op], r))
        else:
            first[op] = r


def h_fresh(ctx):
    """two trees built alike have no part in common, and spoiling one changes neither the other nor the ones built later"""
    name = ctx.pick("node", NAMES)
    g, make = maker(ctx, ZOO[name])
    a, b = make(), make()
    ctx.sample(lambda: render(a))
    ctx.check(not shared(g, a, b), "built separately, nothing is shared", lambda: "%s: %s" % (render(a), shared(g, a, b)))
    ta, tp = try_(lambda: text(g, a)), try_(lambda: text(g, a, True))
    photo = Photo(b, True)
    spoil(g, a)
    ctx.check(photo.same(), "the other tree is left alone", lambda: render(b))
    for t, what in ((b, "the other tree"), (make(), "a tree built later")):
        ctx.check(same_result(ta, try_(lambda: text(g, t))), what + " prints the same", lambda: "%s and %s" % (ta, try_(lambda: text(g, t))))
        ctx.check(same_result(tp, try_(lambda: text(g, t, True))), what + " prints the same, pretty", lambda: "%s" % (tp,))
    c = make()
    ctx.check(deep_eq(b, c), "trees built before and after are equal", lambda: "%s and %s" % (render(b), render(c)))


def bare(g):
    """nodes with every optional part left to its default"""
    x, r, w, o, b = g.x, g.r, g.w, g.o, g.g
    f = lambda: x.Field("f")
    t = lambda: r.Table("t")
    s = lambda: r.SelectQuery([f()])
    return {
        "Field": f,
        "Star": lambda: x.Star(),
        "Like": lambda: x.Like(f(), f()),
        "Case": lambda: x.Case([x.When(f(), f())]),
        "Interval": lambda: x.Interval("1", "DAY"),
        "Literal": lambda: x.wrap_literal(1),
        "If": lambda: g.cond.If(f(), f()),
        "Select": s,
        "SelectFrom": lambda: r.SelectQuery([f()], from_=t()),
        "Values": lambda: r.ValuesQuery([f()]),
        "TableQuery": lambda: r.TableQuery(t()),
        "Union": lambda: r.UnionQuery(s(), s()),
        "Intersect": lambda: r.IntersectQuery(s(), s()),
        "Except": lambda: r.ExceptQuery(s(), s()),
        "Table": t,
        "Alias": lambda: r.AliasedRelation(t(), "a"),
        "Join": lambda: r.Join(t(), t(), r.JoinConfig(r.JoinType.CROSS)),
        "Unnest": lambda: r.Unnest([f()]),
        "Lateral": lambda: r.Lateral(s()),
        "Sample": lambda: r.TableSample(t(), r.SampleType.SYSTEM, f()),
        "Window": lambda: w.Window(),
        "OrderTerm": lambda: o.OrderTerm(f()),
        "GroupBy": lambda: b.GroupBy([b.GroupingSet([f()])]),
        "Sum": lambda: g.agg.Sum(f()),
        "SumOver": lambda: g.agg.Sum(f(), window=w.Window()),
        "ListAgg": lambda: g.agg.ListAgg(f(), orderby=[o.OrderTerm(f())]),
        "Now": lambda: g.fdate.Now(),
        "Coalesce": lambda: g.cond.Coalesce(values=[f(), f()]),
        "Cast": lambda: x.Cast(f(), data_type=g.dt.varchar()),
        "varchar": lambda: g.dt.varchar(),
        "decimal": lambda: g.dt.decimal(),
        "timestamp": lambda: g.dt.timestamp(),
        "unknown": lambda: g.dt.unknown(),
        "row": lambda: g.dt.row(dtypes=[g.dt.bigint(), g.dt.bigint()]),
        "options": lambda: g.T.base.PrintOptions(),
        "schema": lambda: r.Schema.empty_schema(),
        "schema_of": lambda: r.Schema([], {"x"}),
    }


def h_defaults(ctx):
    """defaults of one node are no part of another"""
    g = Gen(ctx)
    makers = bare(g)
    name = ctx.pick("node", list(makers))
    other = ctx.pick("other", list(makers))
    a, b, z = makers[name](), makers[name](), makers[other]()
    ctx.check(not shared(g, a, b) and (name == other or not shared(g, a, z)), "nothing is shared", lambda: "%s: %s, %s" % (render(a), shared(g, a, b), shared(g, a, z)))
    spoil(g, a)
    c = makers[name]()
    y = makers[other]()
    ctx.check(deep_eq(b, c) and not (set(map(id, parts(c, hidden=True))) & set(map(id, parts(a, hidden=True))) - {id(p) for p in parts(g.x.NULL, hidden=True)}), "a later one has defaults of its own", lambda: "%s and %s" % (render(b), render(c)))
    ctx.check(deep_eq(y, z), "others neither", lambda: "%s and %s" % (render(y), render(z)))
    ctx.check("spoilt" not in repr(c) and "spoilt" not in repr(y), "no trace of a spoilt one", lambda: "%r %r" % (c, y))


READ = {
    "expression": [n for n in NAMES if n.startswith("expr:") and n not in ("expr:Subquery",)],
    "function": [n for n in NAMES if n.startswith("fn:")] + ["agg:SUM", "agg:MAP_AGG"],
    "query": [n for n in NAMES if n.startswith("query:")],
    "type": ["type"],
}


def reader(kind):
    from treeno.builder.convert import expression_from_sql, query_from_sql, type_from_sql

    return {"query": query_from_sql, "type": type_from_sql}.get(kind, expression_from_sql)


def h_read(ctx):
    """reading a text twice: equal, independent; spoiling one changes neither the other nor what is read later"""
    g = Gen(ctx)
    kind = ctx.pick("kind", list(READ))
    name = ctx.pick("node", READ[kind])
    sql = text(g, ZOO[name](g))
    read = reader(kind)
    a, b = read(sql), read(sql)
    ctx.sample(lambda: str(sql))
    ctx.check(deep_eq(a, b), "the same text reads as equal trees", lambda: "%s: %s and %s" % (sql, render(a), render(b)))
    ctx.check(not shared(g, a, b), "read separately, nothing is shared", lambda: "%s: %s" % (sql, shared(g, a, b)))
    photo = Photo(b, True)
    spoil(g, a)
    ctx.check(photo.same(), "the other tree is left alone", lambda: render(b))
    c = read(sql)
    ctx.check(deep_eq(b, c), "the same text later reads as an equal tree", lambda: "%s: %s and %s" % (sql, render(b), render(c)))


TEXTS = {
    "expression": lambda g, n: ("expression", '"' + n + '" + 1'),
    "lambda": lambda g, n: ("expression", '"' + n + '" -> "' + n + '"'),
    "case": lambda g, n: ("expression", 'CASE "' + n + '" WHEN 1 THEN 2 END'),
    "aggregate": lambda g, n: ("expression", 'SUM("' + n + '") FILTER (WHERE "x") OVER (PARTITION BY "y" ORDER BY "z" ROWS 2 PRECEDING)'),
    "query": lambda g, n: ("query", 'SELECT "' + n + '", 2 FROM "u" WHERE "x" ORDER BY 1 LIMIT 3'),
    "with": lambda g, n: ("query", 'WITH "' + n + '" AS (SELECT 1 "x") SELECT * FROM "' + n + '"'),
    "window": lambda g, n: ("query", 'SELECT SUM(1) OVER "' + n + '" FROM "t" WINDOW "' + n + '" AS (PARTITION BY 1)'),
    "group": lambda g, n: ("query", 'SELECT 1 FROM "' + n + '" GROUP BY DISTINCT CUBE ("a", "b"), ("c")'),
    "union": lambda g, n: ("query", 'TABLE "' + n + '" UNION ALL VALUES 1, 2 OFFSET 4'),
    "type": lambda g, n: ("type", "ROW(DECIMAL(5, 2), MAP(BIGINT, VARCHAR(3)))"),
    "time": lambda g, n: ("type", "TIMESTAMP(3) WITH TIME ZONE"),
    "bad": lambda g, n: ("expression", '"' + n + '" + '),
    "bad query": lambda g, n: ("query", 'SELECT "' + n + '" FROM'),
    "bad type": lambda g, n: ("type", "DECIMAL(99)"),
    "bad lambda": lambda g, n: ("expression", '("' + n + '","' + n + '") -> 1'),
    "refused": lambda g, n: ("expression", '"' + n + '" AT TIME ZONE 1'),
    "bad end": lambda g, n: ("expression", '"' + n + '" \''),
}


def h_histories(ctx):
    """what a text reads as and how it prints doesn't depend on what was read before"""
    g = Gen(ctx)
    mine = ctx.pick("mine", [n for n in TEXTS if not n.startswith(("bad", "refused"))])
    kind, sql = TEXTS[mine](g, g.name("n"))
    read = reader(kind)
    before = read(sql)
    out = text(g, before), text(g, before, True)
    photo = Photo(before, True)
    hist = []
    for i in range(ctx.params["steps"]):
        what = ctx.pick("step%d" % i, list(TEXTS) if ctx.thorough or i == 0 else ["lambda", "with", "bad query"])
        k, s = TEXTS[what](g, g.name("m"))
        hist.append(s)
        try:
            t = reader(k)(s)
            text(g, t, True)
        except Exception:
            pass
    ctx.sample(lambda: "%s after %s" % (sql, hist))
    after = read(sql)
    ctx.check(deep_eq(before, after), "reads as before", lambda: "%s after %s: %s and %s" % (sql, hist, render(before), render(after)))
    ctx.check(photo.same(), "the tree read before is left alone", lambda: "%s after %s: %s" % (sql, hist, render(before)))
    for t in (before, after):
        ctx.check(zand_all([leaf_eq(out[0], text(g, t)), leaf_eq(out[1], text(g, t, True))]), "prints as before", lambda: "%s after %s" % (sql, hist))


def h_options(ctx):
    """print options are only read; the same ones can be used for any number of trees"""
    g = Gen(ctx)
    P = g.T.base
    mode = ctx.pick("mode", list(P.PrintMode))
    spaces = ctx.pick("spaces", [2, 4])
    opts = P.PrintOptions(mode=mode, spaces=spaces)
    names = [ctx.pick("node%d" % i, ["query:select", "query:union", "fn:LISTAGG", "agg:SUM", "expr:Case", "rel:LeftOn", "expr:And", "query:values"]) for i in range(2)]
    trees = [ZOO[n](g) for n in names]
    alone = [try_(lambda: t.sql(P.PrintOptions(mode=mode, spaces=spaces))) for t in trees]
    together = [try_(lambda: t.sql(opts)) for t in trees]
    ctx.check(opts.mode is mode and opts.spaces == spaces, "the options stay as they are", lambda: repr(opts))
    for t, a, b in zip(trees, alone, together):
        ctx.check(same_result(a, b), "the same text with options used before", lambda: "%s and %s" % (a, b))
    # the mode of one print doesn't leak into the next
    other = [m for m in P.PrintMode if m is not mode][0]
    again = [try_(lambda: t.sql(P.PrintOptions(mode=other))) and try_(lambda: t.sql(P.PrintOptions(mode=mode, spaces=spaces))) for t in trees]
    for a, b in zip(alone, again):
        ctx.check(same_result(a, b), "the same text after printing in another mode", lambda: "%s and %s" % (a, b))
    s = [string(t) for t in trees if try_(lambda: string(t))[0]]
    d = [t.sql(P.PrintOptions()) for t in trees if try_(lambda: string(t))[0]]
    ctx.check(zand_all([leaf_eq(x, y) for x, y in zip(s, d)]), "str prints in the default mode", lambda: "%s and %s" % (s, d))


def h_build(ctx):
    """building a node leaves its parts as they were; sharing a part between two nodes is harmless"""
    name = ctx.pick("kind", [k.name for k in KINDS + REL])
    g = Gen(ctx)
    k = BYNAME.get(name) or [r for r in REL if r.name == name][0]
    rel = name in [r.name for r in REL]
    kids = [g.r.Table(g.name("t")) if rel else (g.x.Add(g.field(), g.field()) if k.name != "Deref" else g.x.Subscript(g.field(), g.field())) for _ in range(k.slots)]
    photos = [Photo(c, True) for c in kids]
    texts = [text(g, c) for c in kids]
    one = k.build(g, kids)
    first = text(g, one)
    two = k.build(g, kids)
    text(g, two, True)
    ctx.check(all(p.same() for p in photos), "the parts stay as they were", lambda: "%s: %s" % (render(one), [render(c) for c in kids]))
    ctx.check(leaf_eq(first, text(g, one)), "the first node prints as before", lambda: "%s and %s" % (first, text(g, one)))
    ctx.check(zand_all([leaf_eq(a, text(g, c)) for a, c in zip(texts, kids)]), "the parts print as before", lambda: render(kids))


def schema(g, cols):
    r = g.r
    out = r.Schema.empty_schema()
    for t, names in cols:
        table = r.Table(t)
        out = out.merge(r.Schema([r.SchemaField(n, table, d) for n, d in names], relation_ids={t}))
    return out


QUERIES = ["plain", "star", "alias", "join", "using", "with", "set", "nested", "unnest", "lateral", "table"]


def a_query(g, kind, t, c):
    r, x = g.r, g.x
    f = lambda: x.Field(c)
    T = lambda: r.Table(t)
    sel = lambda: r.SelectQuery([f()], from_=T())
    return {
        "plain": lambda: r.SelectQuery([f(), x.Add(f(), x.wrap_literal(1))], from_=T(), where=x.Equal(f(), f())),
        "star": lambda: r.SelectQuery([x.Star(), x.Star(t)], from_=T()),
        "alias": lambda: r.SelectQuery([x.Field("k", "al"), x.AliasedStar(x.Star("al"), ["q"])], from_=r.AliasedRelation(T(), "al", ["k"])),
        "join": lambda: r.SelectQuery([x.Field(c, t)], from_=r.Join(T(), r.Table("zz"), r.JoinConfig(r.JoinType.CROSS))),
        "using": lambda: r.SelectQuery([f()], from_=r.Join(T(), r.AliasedRelation(sel(), "al"), r.JoinConfig(r.JoinType.LEFT, criteria=r.JoinUsingCriteria([c])))),
        "with": lambda: r.SelectQuery([x.Star()], from_=r.Table("cte"), with_=[r.AliasedRelation(sel(), "cte")]),
        "set": lambda: r.UnionQuery(sel(), sel()),
        "nested": lambda: r.SelectQuery([f()], from_=r.AliasedRelation(sel(), "al"), orderby=[g.o.OrderTerm(f())]),
        "unnest": lambda: r.SelectQuery([x.Field("uu")], from_=r.Join(T(), r.AliasedRelation(r.Unnest([f()]), "al", ["uu"]), r.JoinConfig(r.JoinType.CROSS))),
        "lateral": lambda: r.SelectQuery([x.Field("vv")], from_=r.Join(T(), r.AliasedRelation(r.Lateral(r.SelectQuery([f()])), "al", ["vv"]), r.JoinConfig(r.JoinType.CROSS))),
        "table": lambda: r.TableQuery(T()),
    }[kind]()


def same_schema(a, b):
    return zand_all([len(a.fields) == len(b.fields)] + [zand_all([leaf_eq(p.name, q.name) if p.name is not None and q.name is not None else p.name is q.name, deep_eq(p.data_type, q.data_type)]) for p, q in zip(a.fields, b.fields)])


def h_resolve(ctx):
    """resolving a query changes neither its text nor the schema given nor any other query, and gives the same again"""
    g = Gen(ctx)
    kind = ctx.pick("kind", QUERIES)
    t, c = g.name("t"), g.name("c")
    dt = g.dt
    a_type = lambda l: dt.array(dtype=dt.varchar(max_chars=ctx.int(l, 1, 9))) if kind == "unnest" else dt.varchar(max_chars=ctx.int(l, 1, 9))
    t1, t2 = a_type("n1"), a_type("n2")
    s1 = schema(g, [(t, [(c, t1)])])
    s2 = schema(g, [(t, [(c, t2)])])
    empty = g.r.Schema.empty_schema()
    q, twin, other = (a_query(g, kind, t, c) for _ in range(3))
    texts = text(g, q), text(g, q, True)
    photo1, photo2, photo_twin = Photo(s1, True), Photo(s2, True), Photo(twin, True)
    one = q.resolve(s1)
    ctx.sample(lambda: "%s with %s" % (texts[0], render(s1.fields)))
    ctx.check(photo1.same(), "the schema given stays as it was", lambda: texts[0])
    ctx.check(zand_all([leaf_eq(texts[0], text(g, q)), leaf_eq(texts[1], text(g, q, True))]), "prints as before", lambda: "%s and %s" % (texts[0], text(g, q)))
    ctx.check(photo_twin.same(), "another query stays as it was", lambda: render(twin))
    again = q.resolve(s1)
    ctx.check(same_schema(one, again), "the same schema again", lambda: "%s: %s and %s" % (texts[0], one.fields, again.fields))
    two = twin.resolve(s2)
    ctx.check(photo2.same() and photo1.same(), "the schema given stays as it was (2)", lambda: texts[0])
    want = other.resolve(schema(g, [(t, [(c, t2)])]))
    ctx.check(same_schema(two, want), "the result doesn't depend on what was resolved before", lambda: "%s: %s and %s" % (texts[0], two.fields, want.fields))
    fresh = a_query(g, kind, t, c).resolve(empty)
    untouched = a_query(g, kind, t, c).resolve(g.r.Schema.empty_schema())
    ctx.check(not empty.fields and not empty.relation_ids and not empty.outer_fields, "an empty schema stays empty", lambda: render(empty.fields))
    ctx.check(same_schema(fresh, untouched), "nothing is remembered for another query", lambda: "%s and %s" % (fresh.fields, untouched.fields))
    for f in fresh.fields:
        ctx.check("VARCHAR" not in render(f.data_type), "no type without a schema", lambda: "%s: %s" % (texts[0], render(f.data_type)))


def h_compare(ctx):
    """comparing leaves both as they were"""
    g = Gen(ctx)
    names = few(ctx)
    n1 = ctx.pick("a", names)
    _, make = maker(ctx, ZOO[n1])
    a, b = make(), make()
    if ctx.flag("differ"):
        b = ZOO[ctx.pick("b", ["expr:Field", "expr:Add", "query:select", "type", "agg:SUM"])](g)
    pa, pb = Photo(a, True), Photo(b, True)
    r1 = a.equals(b)
    r2 = try_(lambda: a.assert_equals(b))[0]
    r3 = a.equals(b)
    ctx.check(pa.same() and pb.same(), "both stay as they were", lambda: "%s and %s" % (render(a), render(b)))
    ctx.check(bool(r1) == bool(r3) == r2, "the same answer again", lambda: "%s and %s: %s %s %s" % (render(a), render(b), r1, r2, r3))


HARNESSES = [
    Harness("pure", h_pure, "all kinds of nodes (aggregates: 2, thorough 42) with every part, sequences of 4 operations of 9 kinds"),
    Harness("fresh", h_fresh, "all kinds of nodes built twice and a third time after everything in the first was overwritten"),
    Harness("defaults", h_defaults, "37 nodes with defaults, all pairs"),
    Harness("read", h_read, "texts of all kinds of expressions, functions, queries and types, read twice and once after overwriting the first tree"),
    Harness("histories", h_histories, "12 texts, read before and after any 2 (thorough 3) of 17 texts, valid or not, with symbolic names", {"steps": 2}, {"steps": 3}),
    Harness("options", h_options, "2 trees of 8 kinds printed with shared options, both modes, two widths"),
    Harness("build", h_build, "all kinds of expressions and relations built twice on the same parts"),
    Harness("resolve", h_resolve, "11 forms of queries against two schemas with symbolic names and types"),
    Harness("compare", h_compare, "all kinds of nodes compared with a copy and with 5 others"),
]
