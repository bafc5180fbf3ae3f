"""C19: lambda parameters bind exactly the names they declare."""
import attr

from sx.api import Harness

from .common import SKIP_FIELDS, concrete_type, deep_eq, is_sym, leaf_eq, render, zand_all
from .gen import ALL, AZ, BYNAME, KINDS, LEAVES, Gen, norm_sugar, simple_query
from .spell import STYLES, text
from .zoo import NAMES, ZOO
from .long import EXPR_CHAINS, EXPR_LISTS, FUNC_LISTS, deep as deep_sizes, expr_place, lists as long_sizes, names as long_names


def bound(ctx, g, tree, params):
    """what a body means once `params` are parameters: the same tree with exactly the plain columns of those names turned
    into variables. A symbolic name is decided here, one way or the other, so that every coincidence is a path."""
    x, r = g.x, g.r

    def go(n):
        if n is None or is_sym(n):
            return n
        if isinstance(n, (list, tuple)):
            return [go(c) for c in n]
        if isinstance(n, dict):
            return {k: go(v) for k, v in n.items()}
        if hasattr(n, "type_name") and hasattr(n, "parameters") or isinstance(n, r.Query) or not attr.has(type(n)):
            return n
        if type(n) is x.Field and n.table is None:
            for p in params:
                if bool(leaf_eq(n.name, p)):
                    return x.Lambda.Variable(p)
            return n
        copy = object.__new__(type(n))
        for f in attr.fields(type(n)):
            v = getattr(n, f.name)
            object.__setattr__(copy, f.name, v if f.name in SKIP_FIELDS or f.name == "data_type" else go(v))
        return copy

    return go(tree)


def plain_eq(g, a, b):
    return deep_eq(a, b, data_types=False)


def q(name):
    return '"' + name + '"'


def head(ps, bare=False):
    """the parameters as they are written (concatenation keeps symbolic names symbolic)"""
    out = q(ps[0])
    for p in ps[1:]:
        out = out + ", " + q(p)
    return out if bare else "(" + out + ")"


def fill(template, names):
    """the template with each %s replaced by a quoted name"""
    parts = template.split("%s")
    assert len(parts) == len(names) + 1
    out = parts[0]
    for n, rest in zip(names, parts[1:]):
        out = out + q(n) + rest
    return out


def params(ctx, g, n, label="p"):
    ps = [g.name(label) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ps[i] != ps[j])
    return ps


def variables(g, ps):
    return [g.x.Lambda.Variable(p) for p in ps]


def judge(ctx, g, body, ps, got, how):
    want = bound(ctx, g, body, ps)
    ctx.sample(lambda: "%s -> %s" % (ps, render(body)))
    ctx.check(type(got) is g.x.Lambda, how + ": a lambda", lambda: render(got))
    if type(got) is not g.x.Lambda:
        return
    ctx.check(zand_all([len(got.inputs) == len(ps)] + [leaf_eq(v.name, p) for v, p in zip(got.inputs, ps)]), how + ": the parameters", lambda: "%s became %s" % (ps, render(got.inputs)))
    ctx.check(plain_eq(g, want, got.expr), how + ": exactly the parameters are bound", lambda: "%s -> %s became %s" % (ps, render(body), render(got.expr)))


def body_of(ctx, g, kinds=ALL):
    kind = ctx.pick("kind", kinds)
    return kind.build(g, [g.plain(kind) for _ in range(kind.slots)])


def h_generic(ctx):
    """Lambda.from_generic_expr over a body of every kind; the coincidences of names are symbolic"""
    g = Gen(ctx)
    n = 1 + ctx.choose("n", 2)
    kinds = [k for k in ALL if k.name not in ("Lambda1", "Lambda2", "Sum")] if not ctx.thorough else ALL
    body = body_of(ctx, g, kinds)
    ps = params(ctx, g, n)
    judge(ctx, g, body, ps, g.x.Lambda.from_generic_expr(variables(g, ps), body), "from_generic_expr")


def h_parts(ctx):
    """bodies with windows, order terms, filters, frames, groups: one name occurs in one place of the tree"""
    g = Gen(ctx)
    name = ctx.pick("node", [n for n in NAMES if n.startswith(("fn:", "agg:")) or n in ("expr:Sum", "expr:ListAgg", "expr:Case", "expr:CaseValue", "part:window", "part:orderterm", "part:alias")])
    # all plain columns get fixed distinct names except one, which may coincide with the parameter
    free = []
    plain = g.field

    def field():
        free.append("c%d" % len(free))
        return g.x.Field(free[-1])

    g.field = field
    body = ZOO[name](g)
    if not free:
        return
    p = ctx.pick("p", free + ["zz"])
    judge(ctx, g, body, [p], g.x.Lambda.from_generic_expr(variables(g, [p]), body), "from_generic_expr")


def h_depth(ctx):
    """two (thorough three) levels of nodes above one column that may be the parameter"""
    g = Gen(ctx)
    kinds = [k for k in KINDS if k.name not in ("Subquery", "InQueryBody")]
    p = g.name("p")
    leaf = g.x.Field(g.name("f"))
    other = lambda: g.x.Field("other")
    deep = leaf
    for lvl in range(3 if ctx.thorough else 2):
        kind = ctx.pick("k%d" % lvl, kinds if lvl < 2 else [k for k in kinds if "core" in k.tags])
        pos = ctx.choose("pos%d" % lvl, kind.slots)
        if kind.name == "Deref":
            ctx.assume(not isinstance(deep, g.x.Field))
        g.field = other
        deep = kind.build(g, [deep if i == pos else g.plain(kind) for i in range(kind.slots)])
    judge(ctx, g, deep, [p], g.x.Lambda.from_generic_expr(variables(g, [p]), deep), "from_generic_expr")


def h_qualified(ctx):
    """columns of tables, stars, dereferences, named windows and subqueries keep their names"""
    g = Gen(ctx)
    x, r = g.x, g.r
    f = g.field
    body = {
        "qualified": lambda: x.Field(g.name("f"), table=g.name("t")),
        "both": lambda: x.Add(x.Field(g.name("f"), table=g.name("t")), f()),
        "deref": lambda: x.Field(g.name("f"), table=x.Subscript(f(), x.wrap_literal(1))),
        "star": lambda: g.agg.Count(x.Star(g.name("t"))),
        "window": lambda: g.agg.Sum(f(), window=g.w.Window(parent_window=g.name("w"))),
        "string": lambda: x.Equal(f(), x.wrap_literal(ctx.str("s", 1, AZ))),
        "in": lambda: x.InQuery(f(), r.SelectQuery([f()], from_=r.Table(g.name("t")), where=x.Equal(f(), f()))),
        "operand": lambda: x.Add(f(), r.SelectQuery([f()], from_=r.Table(g.name("t")))),
        "table": lambda: x.InQuery(f(), r.TableQuery(r.Table(g.name("t")))),
        "values": lambda: x.InQuery(f(), r.ValuesQuery([f()])),
    }[ctx.pick("body", ["qualified", "both", "deref", "star", "window", "string", "in", "operand", "table", "values"])]()
    ps = params(ctx, g, 1 + ctx.choose("n", 2))
    judge(ctx, g, body, ps, x.Lambda.from_generic_expr(variables(g, ps), body), "from_generic_expr")


def h_read(ctx):
    """a lambda read from SQL, body of every kind, every style of spelling"""
    from treeno.builder.convert import expression_from_sql

    g = Gen(ctx)
    n = 1 + ctx.choose("n", 2)
    style = STYLES[ctx.pick("style", list(STYLES) if ctx.thorough else ["plain", "sugar"])]
    kinds = [k for k in ALL if k.name not in ("Sum", "Lambda1", "Lambda2", "Subquery")]
    body = body_of(ctx, g, kinds)
    ps = params(ctx, g, n)
    sql = head(ps, n == 1 and ctx.flag("bare")) + " -> " + text(g, body, style)
    norm = norm_sugar(g)
    got = expression_from_sql(sql)
    want = bound(ctx, g, body, ps)
    ctx.sample(lambda: str(sql))
    ctx.check(type(got) is g.x.Lambda, "read: a lambda", lambda: "%s: %s" % (sql, render(got)))
    ctx.check(zand_all([len(got.inputs) == len(ps)] + [leaf_eq(v.name, p) for v, p in zip(got.inputs, ps)]), "read: the parameters", lambda: "%s: %s" % (sql, render(got.inputs)))
    ctx.check(deep_eq(want, got.expr, False, norm), "read: exactly the parameters are bound", lambda: "%s became %s" % (sql, render(got.expr)))


def h_nested(ctx):
    """lambdas in lambdas, every pattern of coinciding names, in SQL text and built"""
    from treeno.builder.convert import expression_from_sql

    g = Gen(ctx)
    x = g.x
    V = x.Lambda.Variable
    outer = params(ctx, g, 1 + ctx.choose("n", 2), "o")
    inner = params(ctx, g, 1 + ctx.choose("m", 2), "i")
    a, b, c = g.name("a"), g.name("b"), g.name("c")
    # outer -> transform(a, inner -> b + b) + c: what stands outside the inner lambda sees the outer parameters only
    how = ctx.pick("how", ["text", "built", "built by printing"])
    heads = [head(outer), head(inner)]
    form = ctx.pick("form", ["beside", "inside", "deref"])
    if form == "beside":
        build = lambda: x.Add(x.Array([x.Field(a), x.Lambda.from_generic_expr(variables(g, inner), x.Minus(x.Field(b), x.wrap_literal(1)))]), x.Field(c))
        txt = fill("ARRAY[%s, ", [a]) + heads[1] + fill(" -> %s - 1] + %s", [b, c])
        shape = lambda ff, gg: x.Add(x.Array([ff(a), x.Lambda(variables(g, inner), x.Minus(gg(b), x.wrap_literal(1)))]), ff(c))
    elif form == "inside":
        build = lambda: x.Lambda.from_generic_expr(variables(g, inner), x.Array([x.Field(a), x.Field(b), x.Field(c, table=x.Subscript(x.Field(a), x.Field(c)))]))
        txt = heads[1] + fill(" -> ARRAY[%s, %s, %s[%s].%s]", [a, b, a, c, c])
        shape = lambda ff, gg: x.Lambda(variables(g, inner), x.Array([gg(a), gg(b), x.Field(c, table=x.Subscript(gg(a), gg(c)))]))
    else:
        build = lambda: x.Array([x.Lambda.from_generic_expr(variables(g, inner), x.Field(b, table=a)), x.Field(c)])
        txt = "ARRAY[" + heads[1] + fill(" -> %s.%s, %s]", [a, b, c])
        shape = lambda ff, gg: x.Array([x.Lambda(variables(g, inner), x.Field(b, table=a)), ff(c)])

    def has(n, ps):
        for p in ps:
            if bool(leaf_eq(n, p)):
                return True
        return False

    # a name is a variable where some lambda around it declares it
    want = shape(lambda n: V(n) if has(n, outer) else x.Field(n), lambda n: V(n) if has(n, inner) or has(n, outer) else x.Field(n))
    if how == "text":
        src = heads[0] + " -> " + txt
        got = expression_from_sql(src)
    else:
        got = x.Lambda.from_generic_expr(variables(g, outer), build())
        src = how
        if how == "built by printing":
            src = got.sql(g.T.base.PrintOptions(mode=ctx.pick("mode", list(g.T.base.PrintMode))))
            got = expression_from_sql(src)
    ctx.sample(lambda: str(src))
    ctx.check(zand_all([len(got.inputs) == len(outer)] + [leaf_eq(v.name, p) for v, p in zip(got.inputs, outer)]), "nested: the parameters", lambda: "%s: %s" % (src, render(got)))
    ctx.check(plain_eq(g, want, got.expr), "nested: each lambda binds its own names", lambda: "%s: %s instead of %s" % (src, render(got.expr), render(want)))


def h_siblings(ctx):
    """a lambda's parameters mean nothing beside it"""
    from treeno.builder.convert import expression_from_sql, query_from_sql

    g = Gen(ctx)
    x = g.x
    V = x.Lambda.Variable
    p, r_ = g.name("p"), g.name("r")
    a, b, c, d = (g.name(n) for n in "abcd")
    bv = lambda n, ps: V(n) if any(bool(leaf_eq(n, y)) for y in ps) else x.Field(n)
    one = lambda: x.Lambda(variables(g, [p]), bv(b, [p]))
    two = lambda: x.Lambda(variables(g, [r_]), bv(c, [r_]))
    where = ctx.pick("where", ["array", "call", "select", "twice", "in"])
    if where == "array":
        sql = fill("ARRAY[%s, %s -> %s, %s -> %s, %s]", [a, p, b, r_, c, d])
        want = x.Array([x.Field(a), one(), two(), x.Field(d)])
        got = expression_from_sql(sql)
    elif where == "call":
        sql = fill("COALESCE(%s, (%s) -> %s, %s -> %s, %s)", [a, p, b, r_, c, d])
        want = g.cond.Coalesce(values=[x.Field(a), one(), two(), x.Field(d)])
        got = expression_from_sql(sql)
    elif where == "select":
        sql = fill("SELECT %s, %s -> %s, %s -> %s FROM %s", [a, p, b, r_, c, d])
        want = g.r.SelectQuery([x.Field(a), one(), two()], from_=g.r.Table(d))
        got = query_from_sql(sql)
    elif where == "twice":
        first = fill("%s -> %s", [p, b])
        expression_from_sql(first)
        sql = fill("%s + %s", [a, c])
        want = x.Add(x.Field(a), x.Field(c))
        got = expression_from_sql(sql)
    else:
        sql = fill("%s -> %s IN (SELECT %s FROM %s)", [p, b, c, d])
        want = x.Lambda(variables(g, [p]), x.InQuery(bv(b, [p]), g.r.SelectQuery([x.Field(c)], from_=g.r.Table(d))))
        got = expression_from_sql(sql)
    ctx.sample(lambda: str(sql))
    ctx.check(plain_eq(g, want, got), "siblings: parameters mean nothing outside their lambda", lambda: "%s: %s instead of %s" % (sql, render(got), render(want)))


def h_roundtrip(ctx):
    """a lambda printed in either mode and read back keeps parameters and body"""
    from treeno.builder.convert import expression_from_sql

    g = Gen(ctx)
    # what stands in a subquery belongs to the subquery
    kinds = [k for k in ALL if k.name not in ("Subquery", "InQueryBody", "Sum")]
    ps = params(ctx, g, 1 + ctx.choose("n", 3))
    use = ctx.choose("use", len(ps))
    plain = g.field
    seen = []

    def field():
        seen.append(1)
        return g.x.Lambda.Variable(ps[use]) if len(seen) == 1 else g.x.Field("other%d" % len(seen))

    g.field = field
    lam = g.x.Lambda(variables(g, ps), body_of(ctx, g, kinds))
    opts = g.T.base.PrintOptions(mode=ctx.pick("mode", list(g.T.base.PrintMode)))
    sql = lam.sql(opts)
    ctx.sample(lambda: str(sql))
    got = expression_from_sql(sql)
    ctx.check(deep_eq(lam, got, False, norm_sugar(g)), "printed and read: the same lambda", lambda: "%s read as %s" % (sql, render(got)))


def h_inputs(ctx):
    """any number of parameters with any names: accepted exactly when they differ; the body given is left as it was"""
    from treeno.builder.convert import expression_from_sql

    g = Gen(ctx)
    x = g.x
    n = 1 + ctx.choose("n", 3)
    ps = [g.name("p") for _ in range(n)]
    fs = [x.Field(g.name("f")) for _ in range(2)]
    body = x.Add(fs[0], x.Array([fs[1]]))
    how = ctx.pick("how", ["generic", "plain", "text"])
    same = False
    for i in range(n):
        for j in range(i):
            if not same and bool(leaf_eq(ps[i], ps[j])):
                same = True
    try:
        if how == "generic":
            got = x.Lambda.from_generic_expr(variables(g, ps), body)
        elif how == "plain":
            got = x.Lambda(variables(g, ps), body)
        else:
            got = expression_from_sql(head(ps) + fill(" -> %s + ARRAY[%s]", [fs[0].name, fs[1].name]))
    except Exception:
        got = None
    ctx.check((got is None) == same, "accepted exactly when the parameters differ", lambda: "%s: %s" % (ps, render(got)))
    ctx.check(body.left is fs[0] and body.right.values[0] is fs[1] and type(fs[0]) is x.Field, "the body given stays as it was", lambda: render(body))
    if got is not None:
        ctx.check(plain_eq(g, body if how == "plain" else bound(ctx, g, body, ps), got.expr), "the body", lambda: "%s -> %s" % (ps, render(got.expr)))


def h_long(ctx):
    """lambdas of many parameters, long and deep bodies, read from text"""
    from treeno.builder.convert import expression_from_sql

    g = Gen(ctx)
    what = ctx.pick("what", ["params", "list", "func", "chain"])
    sizes = long_sizes(ctx) if ctx.thorough else [1, 2, 3, 9, 17, 33]
    if what == "params":
        n = ctx.pick("size", sizes)
        ps = ["c%d" % i for i in range(n)]
        ps[ctx.pick("where", sorted({0, n // 2, n - 1}))] = g.name("p")
        body = g.x.Array([g.x.Field(p) for p in reversed(ps)] + [g.x.Field(g.name("other"))])
    else:
        ps = params(ctx, g, 2)
        table, ss = {"list": (EXPR_LISTS, sizes), "func": (FUNC_LISTS, sizes), "chain": (EXPR_CHAINS, deep_sizes(ctx) if ctx.thorough else [1, 2, 3, 5, 9])}[what]
        ks = sorted(k for k in table if k != "in_queries" and not k.startswith("over_"))
        body = expr_place(g, {k: table[k] for k in ks}, sizes=ss)
    sql = text(g, g.x.Lambda(variables(g, ps), body), "plain", "expr")
    judge(ctx, g, body, ps, expression_from_sql(sql), "read")


WORDY = [(48, 57), (65, 90), (95, 95), (97, 122)]


def h_names(ctx):
    """names of several characters, letter case and prefixes: only equal names are bound"""
    from treeno.builder.convert import expression_from_sql

    g = Gen(ctx)
    most = 3 if ctx.thorough else 2
    name = lambda label: ctx.str(label, 1 + ctx.choose("len_" + label, most), WORDY)
    ps = [name("p%d" % i) for i in range(1 + ctx.choose("n", 2))]
    if len(ps) == 2:
        ctx.assume(ps[0] != ps[1])
    f = name("f")
    body = g.x.Add(g.x.Field(f), g.x.Field("zz"))
    how = ctx.pick("how", ["built", "read", "unquoted"])
    if how == "built":
        judge(ctx, g, body, ps, g.x.Lambda.from_generic_expr(variables(g, ps), body), "from_generic_expr")
        return
    if how == "read":
        sql = head(ps, False) + " -> " + q(f) + " + zz"
    else:
        ctx.assume(f[0] > "9")
        ctx.assume(f[0] != "_")
        if len(f) > 1:  # no two letters make a keyword together with a digit
            ctx.assume(f[1] < "A")
        sql = head(ps, False) + " -> " + f + " + zz"
    ctx.sample(lambda: str(sql))
    judge(ctx, g, body, ps, expression_from_sql(sql), "read")


HARNESSES = [
    Harness("generic", h_generic, "1..2 parameters, a body of 55 kinds (thorough 58), symbolic 1-letter names: every coincidence of parameters and columns"),
    Harness("parts", h_parts, "a body of every function and aggregate with every optional part; each of its columns (or none) is the parameter"),
    Harness("depth", h_depth, "two (thorough three) levels of 42 kinds in every position above a symbolic column"),
    Harness("qualified", h_qualified, "qualified columns, dereferences, stars, window names, strings, subqueries of 4 forms; 1..2 parameters"),
    Harness("read", h_read, "lambdas read from text, 1..2 parameters, a body of 54 kinds, 2 (thorough 6) styles"),
    Harness("nested", h_nested, "two nested lambdas of 1..2 parameters, three shapes, every coincidence of up to 7 names; read, built, printed and read"),
    Harness("siblings", h_siblings, "two lambdas and two columns side by side in 5 places, every coincidence of 6 names"),
    Harness("roundtrip", h_roundtrip, "1..3 parameters, a body of 56 kinds, both print modes"),
    Harness("inputs", h_inputs, "1..3 parameters, possibly equal, by three ways of construction"),
    Harness("names", h_names, "1..2 parameters and a column of 1..2 (thorough 3) letters of either case, digits or underscores each; built, read with and without quotes"),
    Harness("long", h_long, "1..33 (thorough 513) parameters; bodies of 6 lists, 4 functions, 30 kinds of nesting up to 9 (25) levels; symbolic parameters and one symbolic column"),
]
