"""C09: data types print, read and validate exactly."""
from sx.api import Harness

from .common import deep_eq, leaf_eq, params_eq, render, zand_all
from .gen import Gen
from .long import deep, lists, names

PLAIN = ["BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE", "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN"]
BUILDERS = {"BOOLEAN": "boolean", "INTEGER": "integer", "TINYINT": "tinyint", "SMALLINT": "smallint", "BIGINT": "bigint", "REAL": "real", "DOUBLE": "double", "VARBINARY": "varbinary", "JSON": "json", "DATE": "date", "IPADDRESS": "ip", "UUID": "uuid", "HYPERLOGLOG": "hll", "P4HYPERLOGLOG": "p4hll", "TDIGEST": "tdigest", "UNKNOWN": "unknown"}
SCALAR = ["decimal", "decimal_p", "decimal_0", "varchar", "varchar_n", "char", "char_n", "time", "time_p", "time_tz", "time_ptz", "timestamp", "timestamp_p", "timestamp_tz", "timestamp_ptz", "year_month", "day_second"]
NEST = ["array", "map_k", "map_v", "qdigest", "row1", "row2", "row3"]


def T():
    import treeno.datatypes.types as t

    return t


def scalar(g, kind):
    """(type, type name, every parameter it must have)"""
    b, ctx = g.dt, g.ctx
    big = 2**31 - 1
    if kind in PLAIN:
        return getattr(b, BUILDERS[kind])(), kind, {}
    if kind == "decimal":
        p = ctx.int("p", 1, 38)
        s = ctx.int("s", 0, 38)
        ctx.assume(s <= p)
        return b.decimal(precision=p, scale=s), "DECIMAL", {"precision": p, "scale": s}
    if kind == "decimal_p":
        p = ctx.int("p", 1, 38)
        return b.decimal(precision=p), "DECIMAL", {"precision": p, "scale": 0}
    if kind == "decimal_0":
        return b.decimal(), "DECIMAL", {"precision": 38, "scale": 0}
    if kind in ("varchar", "varchar_n", "char", "char_n"):
        f = b.varchar if kind.startswith("v") else b.char
        if kind.endswith("_n"):
            n = ctx.int("n", 1, big)
            return f(max_chars=n), kind[:-2].upper(), {"max_chars": n}
        return f(), kind.upper(), ({} if kind == "varchar" else {"max_chars": 1})
    if kind.startswith("time"):
        base, _, opt = kind.partition("_")
        kw = {}
        if opt.startswith("p"):
            kw["precision"] = ctx.int("p", 0, 12)
        if opt.endswith("tz"):
            kw["timezone"] = True
        return getattr(b, base)(**kw), base.upper(), dict(kw, timezone=opt.endswith("tz"))
    a, z = {"year_month": ("YEAR", "MONTH"), "day_second": ("DAY", "SECOND")}[kind]
    return b.interval(from_interval=a, to_interval=z), "INTERVAL", {"from_interval": a, "to_interval": z}


def nested(g, kind, inner, others):
    b = g.dt
    return {
        "array": lambda: b.array(dtype=inner),
        "map_k": lambda: b.map_(from_dtype=inner, to_dtype=others()),
        "map_v": lambda: b.map_(from_dtype=others(), to_dtype=inner),
        "qdigest": lambda: b.qdigest(dtype=inner),
        "row1": lambda: b.row(dtypes=[inner]),
        "row2": lambda: b.row(dtypes=[others(), inner]),
        "row3": lambda: b.row(dtypes=[inner, others(), others()]),
    }[kind]()


def check_text(ctx, g, t, both=True):
    from treeno.builder.convert import expression_from_sql, type_from_sql

    P = g.T.base
    for mode in P.PrintMode if both else [P.PrintMode.DEFAULT]:
        sql = t.sql(P.PrintOptions(mode=mode))
        ctx.sample(lambda: str(sql))
        back = type_from_sql(sql)
        ctx.check(deep_eq(t, back), "same type", lambda: "%r printed as %s reads as %r" % (t, sql, back))
    if t.type_name == "UNKNOWN":  # a cast needs a known type
        return
    how = ctx.pick("how", ["cast", "try_cast"]) if both else "cast"
    e = (g.x.Cast if how == "cast" else g.x.TryCast)(g.field(), data_type=t)
    text = e.sql(P.PrintOptions())
    back = expression_from_sql(text)
    ctx.check(zand_all([type(back) is type(e), deep_eq(getattr(back, "data_type", None), t)]), "same type in a cast", lambda: "%s reads as %r" % (text, getattr(back, "data_type", None)))


def h_scalars(ctx):
    g = Gen(ctx)
    kind = ctx.pick("kind", PLAIN + SCALAR)
    t, name, params = scalar(g, kind)
    ctx.check(zand_all([leaf_eq(t.type_name, name), params_eq(t.parameters, params)]), "type built with exactly its parameters", lambda: repr(t))
    check_text(ctx, g, t)


def h_nested(ctx):
    g = Gen(ctx)
    depth = 1 + ctx.choose("depth", ctx.params["depth"])
    kinds = [ctx.pick("nest", NEST) for _ in range(depth)]
    t, _, _ = scalar(g, ctx.pick("leaf", (["BIGINT", "DOUBLE", "decimal", "varchar", "varchar_n", "timestamp_ptz", "time_tz", "time", "day_second"] if ctx.thorough else ["DOUBLE", "decimal_p", "varchar", "timestamp_ptz", "time_tz", "day_second"]) if depth > 1 else PLAIN + SCALAR))
    leaves = ["TINYINT", "char_n" if ctx.thorough else "char", "timestamp_tz", "UUID"]
    n = [0]

    def other():
        n[0] += 1
        return scalar(g, leaves[n[0] % 4])[0]

    for k in kinds:
        t = nested(g, k, t, other)
    check_text(ctx, g, t, depth < 2 or ctx.thorough and depth < 3)


def h_read(ctx):
    """types as written in SQL, with the documented defaults and alternative spellings"""
    from treeno.builder.convert import type_from_sql

    g = Gen(ctx)
    p, s, n = ctx.int("p", 1, 38), ctx.int("s", 0, 9), ctx.int("n", 0, 12)
    ctx.assume(s <= p)
    S = lambda v: v.__str__()
    forms = {
        "DECIMAL": lambda: ("DECIMAL", {"precision": 38, "scale": 0}),
        "DECIMAL($p)": lambda: ("DECIMAL", {"precision": p, "scale": 0}),
        "DECIMAL( $p , $s )": lambda: ("DECIMAL", {"precision": p, "scale": s}),
        "VARCHAR": lambda: ("VARCHAR", {}),
        "VARCHAR($p)": lambda: ("VARCHAR", {"max_chars": p}),
        "CHAR": lambda: ("CHAR", {"max_chars": 1}),
        "CHAR($p)": lambda: ("CHAR", {"max_chars": p}),
        "DOUBLE PRECISION": lambda: ("DOUBLE", {}),
        "DOUBLE": lambda: ("DOUBLE", {}),
        "BIGINT ARRAY": lambda: ("ARRAY", {"dtype": g.dt.bigint()}),
        "DECIMAL($p,$s) ARRAY ARRAY": lambda: ("ARRAY", {"dtype": g.dt.array(dtype=g.dt.decimal(precision=p, scale=s))}),
        "ARRAY(CHAR($p))": lambda: ("ARRAY", {"dtype": g.dt.char(max_chars=p)}),
        "MAP(BIGINT, VARCHAR)": lambda: ("MAP", {"from_dtype": g.dt.bigint(), "to_dtype": g.dt.varchar()}),
        "MAP(VARCHAR($p), TIME($n))": lambda: ("MAP", {"from_dtype": g.dt.varchar(max_chars=p), "to_dtype": g.dt.time(precision=n)}),
        "ROW(BIGINT)": lambda: ("ROW", {"dtypes": [g.dt.bigint()]}),
        "ROW(CHAR($p), BIGINT, ROW(DATE))": lambda: ("ROW", {"dtypes": [g.dt.char(max_chars=p), g.dt.bigint(), g.dt.row(dtypes=[g.dt.date()])]}),
        "QDIGEST(REAL)": lambda: ("QDIGEST", {"dtype": g.dt.real()}),
        "INTERVAL YEAR TO MONTH": lambda: ("INTERVAL", {"from_interval": "YEAR", "to_interval": "MONTH"}),
        "INTERVAL DAY TO SECOND": lambda: ("INTERVAL", {"from_interval": "DAY", "to_interval": "SECOND"}),
    }
    for base in ("TIME", "TIMESTAMP"):
        forms[base] = lambda base=base: (base, {"timezone": False})
        forms[base + " WITHOUT TIME ZONE"] = lambda base=base: (base, {"timezone": False})
        forms[base + " WITH TIME ZONE"] = lambda base=base: (base, {"timezone": True})
        forms[base + "($n)"] = lambda base=base: (base, {"timezone": False, "precision": n})
        forms[base + "($n) WITHOUT TIME ZONE"] = lambda base=base: (base, {"timezone": False, "precision": n})
        forms[base + "($n) WITH TIME ZONE"] = lambda base=base: (base, {"timezone": True, "precision": n})
    for x in PLAIN:
        forms[x] = lambda x=x: (x, {})
    f = ctx.pick("form", list(forms))
    name, params = forms[f]()
    src = f.lower() if ctx.flag("lower") else f
    text = ""
    i = 0
    while i < len(src):
        if src[i] == "$":
            text = text + S({"p": p, "s": s, "n": n}[src[i + 1]])
            i += 2
        else:
            text = text + src[i]
            i += 1
    back = type_from_sql(text)
    ctx.check(zand_all([leaf_eq(back.type_name, name), params_eq(back.parameters, params)]), "type read as written", lambda: "%s reads as %r" % (text, back))


def builds(f):
    """does the construction succeed?"""
    try:
        f()
    except Exception:
        return False
    return True


def h_ranges(ctx):
    """legal precisions are accepted, those out of range are rejected, for every integer"""
    g = Gen(ctx)
    b = g.dt
    what = ctx.pick("what", ["decimal", "decimal_scale", "scale", "varchar", "char", "time", "timestamp", "time_tz", "timestamp_tz"])
    lo, hi = ctx.params["range"]
    p = ctx.int("p", lo, hi)
    if what == "scale":
        ok = builds(lambda: b.decimal(precision=38, scale=p))
        # a scale above the precision is neither required nor forbidden
        legal, illegal = (p >= 0) & (p <= 38), p < 0
    elif what in ("varchar", "char"):
        ok = builds(lambda: getattr(b, what)(max_chars=p))
        # so is a length of zero
        legal, illegal = p >= 1, p < 0
    elif what in ("decimal", "decimal_scale"):
        kw = {"precision": p}
        if what == "decimal_scale":
            kw["scale"] = ctx.int("s", 0, 38)
            ctx.assume(kw["scale"] <= p)
        ok = builds(lambda: b.decimal(**kw))
        # DECIMAL(0) is neither required nor forbidden
        legal, illegal = (p >= 1) & (p <= 38), (p < 0) | (p > 38)
    else:
        base, _, tz = what.partition("_")
        ok = builds(lambda: getattr(b, base)(precision=p, timezone=bool(tz)))
        legal, illegal = (p >= 0) & (p <= 12), (p < 0) | (p > 12)
    # ok is the outcome of this path; it must agree with the range for all its values
    if ok:
        ctx.check(~illegal if not isinstance(illegal, bool) else not illegal, "precision out of range is rejected", lambda: "%s %r accepted" % (what, p))
    else:
        ctx.check(~legal if not isinstance(legal, bool) else not legal, "precision in range is accepted", lambda: "%s %r rejected" % (what, p))


FIELDS = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]


def h_illegal(ctx):
    from treeno.builder.convert import type_from_sql

    g = Gen(ctx)
    t = T()
    D = t.DataType
    what = ctx.pick("what", ["interval", "surplus", "missing", "wrong_type", "name", "text", "plain_text"])
    if what == "interval":
        a, z = ctx.pick("from", FIELDS), ctx.pick("to", [None] + FIELDS)
        legal = (a, z) in (("YEAR", "MONTH"), ("DAY", "SECOND"))
        kw = {"from_interval": a}
        if z:
            kw["to_interval"] = z
        ctx.check(builds(lambda: g.dt.interval(**kw)) == legal, "interval fields validated", lambda: "%s TO %s" % (a, z))
        text = "INTERVAL " + a + (" TO " + z if z else "")
        ctx.check(builds(lambda: type_from_sql(text)) == legal, "interval text validated", lambda: text)
    elif what == "surplus":
        name = ctx.pick("type", PLAIN + ["DECIMAL", "VARCHAR", "CHAR", "TIME", "TIMESTAMP", "ARRAY", "MAP", "ROW", "QDIGEST", "INTERVAL"])
        need = {"ARRAY": {"dtype": g.dt.bigint()}, "QDIGEST": {"dtype": g.dt.bigint()}, "MAP": {"from_dtype": g.dt.bigint(), "to_dtype": g.dt.date()}, "ROW": {"dtypes": [g.dt.bigint()]}, "INTERVAL": {"from_interval": "DAY", "to_interval": "SECOND"}}.get(name, {})
        ctx.check(builds(lambda: D(name, dict(need))), "the type itself is accepted", lambda: name)
        extra = ctx.pick("extra", ["precision", "scale", "max_chars", "timezone", "dtype", "dtypes", "from_dtype", "other"])
        legal = {"DECIMAL": ["precision", "scale"], "VARCHAR": ["max_chars"], "CHAR": ["max_chars"], "TIME": ["precision", "timezone"], "TIMESTAMP": ["precision", "timezone"], "ARRAY": ["dtype"], "QDIGEST": ["dtype"], "MAP": ["from_dtype"], "ROW": ["dtypes"]}.get(name, [])
        if extra not in legal:
            v = {"precision": 3, "scale": 1, "max_chars": 4, "timezone": True, "dtype": g.dt.date(), "dtypes": [g.dt.date()], "from_dtype": g.dt.date(), "other": 1}[extra]
            ctx.check(not builds(lambda: D(name, dict(need, **{extra: v}))), "surplus parameter rejected", lambda: "%s %s" % (name, extra))
    elif what == "missing":
        name, kw = ctx.pick("type", [("ARRAY", {}), ("MAP", {}), ("MAP", {"from_dtype": 1}), ("MAP", {"to_dtype": 1}), ("ROW", {}), ("QDIGEST", {}), ("INTERVAL", {}), ("INTERVAL", {"from_interval": "DAY"}), ("INTERVAL", {"to_interval": "SECOND"})])
        kw = {k: (g.dt.bigint() if v == 1 else v) for k, v in kw.items()}
        ctx.check(not builds(lambda: D(name, kw)), "missing parameter rejected", lambda: "%s %s" % (name, kw))
    elif what == "wrong_type":
        name, kw = ctx.pick("type", [("DECIMAL", {"precision": "3"}), ("DECIMAL", {"precision": 3, "scale": "1"}), ("DECIMAL", {"precision": None}), ("DECIMAL", {"precision": True}), ("DECIMAL", {"precision": 3, "scale": True}), ("VARCHAR", {"max_chars": True}), ("CHAR", {"max_chars": True}), ("TIME", {"precision": True}), ("TIMESTAMP", {"precision": False}), ("TIME", {"timezone": 1}), ("ROW", {"dtypes": []}), ("VARCHAR", {"max_chars": "4"}), ("CHAR", {"max_chars": 1.5}), ("TIME", {"precision": "3"}), ("TIMESTAMP", {"timezone": "yes"}), ("ARRAY", {"dtype": "BIGINT"}), ("QDIGEST", {"dtype": 3}), ("MAP", {"from_dtype": "BIGINT", "to_dtype": 0}), ("MAP", {"from_dtype": 0, "to_dtype": "BIGINT"}), ("ROW", {"dtypes": ["BIGINT"]}), ("ROW", {"dtypes": 0}), ("INTERVAL", {"from_interval": 1, "to_interval": "SECOND"})])
        kw = {k: (g.dt.bigint() if v == 0 else v) for k, v in kw.items()}
        ctx.check(not builds(lambda: D(name, kw)), "parameter of the wrong kind rejected", lambda: "%s %s" % (name, kw))
    elif what == "name":
        k = 1 + ctx.choose("len", ctx.params["len"])
        nm = ctx.str("name", k, [(65, 90)])
        for x in t.ALLOWED_TYPES:
            if len(x) == k:
                ctx.assume(nm != x)
        ctx.check(not builds(lambda: D(nm)), "unknown type name rejected", lambda: str(nm))
    elif what == "plain_text":
        name = ctx.pick("type", PLAIN)
        text = name + "(" + ctx.int("n", 0, 99).__str__() + ")"
        ctx.check(not builds(lambda: type_from_sql(text)), "parameter of a plain type rejected", lambda: text)
    else:
        text = ctx.pick("text", ["DECIMAL(39)", "DECIMAL(3,1,1)", "DECIMAL(BIGINT)", "VARCHAR(1,2)", "VARCHAR(BIGINT)", "CHAR(1, 2)", "TIME(13)", "TIMESTAMP(13)", "TIMESTAMP(13) WITH TIME ZONE", "TIME(BIGINT)", "ARRAY", "ARRAY(3)", "ARRAY(BIGINT, BIGINT)", "MAP", "MAP(BIGINT)", "MAP(BIGINT, 3)", "MAP(3, BIGINT)", "MAP(BIGINT, BIGINT, BIGINT)", "ROW", "QDIGEST", "QDIGEST(3)", "DECIMAL()", "BIGINT()", "FOO", "BIGINT[3]", "BIGINT ARRAY[3]", "TIMESTAMP(3)(4)", "DECIMAL(3", "DECIMAL 3", "INTERVAL", "DECIMAL(-3)", "VARCHAR(1.5)", "BIGINT BIGINT", "ROW()", "ROW(3)", "ARRAY<BIGINT>", "MAP<BIGINT,BIGINT>", "TIME ZONE", "TIMESTAMP WITH", "TIMESTAMP WITH TIME", ""])
        ctx.check(not builds(lambda: type_from_sql(text)), "illegal type text rejected", lambda: "%r was read as %r" % (text, type_from_sql(text)))


def h_letter_case(ctx):
    from treeno.builder.convert import type_from_sql

    g = Gen(ctx)
    name = ctx.pick("type", PLAIN + ["DECIMAL", "VARCHAR", "CHAR", "ARRAY", "MAP", "QDIGEST"])
    text = ""
    for c in name:
        text = text + (ctx.str("c", 1, [(ord(c), ord(c)), (ord(c.lower()), ord(c.lower()))]) if c.isalpha() else c)
    tail, params = {"DECIMAL": ("(7,2)", {"precision": 7, "scale": 2}), "VARCHAR": ("(9)", {"max_chars": 9}), "CHAR": ("(9)", {"max_chars": 9}), "ARRAY": ("(DATE)", {"dtype": g.dt.date()}), "MAP": ("(DATE, UUID)", {"from_dtype": g.dt.date(), "to_dtype": g.dt.uuid()}), "QDIGEST": ("(REAL)", {"dtype": g.dt.real()})}.get(name, ("", {}))
    back = type_from_sql(text + tail)
    ctx.check(zand_all([leaf_eq(back.type_name, name), params_eq(back.parameters, params)]), "type names in any letter case", lambda: "%s reads as %r" % (text, back))
    t = T().DataType(text, dict(params))
    ctx.check(zand_all([leaf_eq(t.type_name, name), params_eq(t.parameters, params)]), "type names in any letter case when built", lambda: "%s builds %r" % (text, t))


def h_long(ctx):
    """rows of many types, deeply nested types"""
    g = Gen(ctx)
    b = g.dt
    place = ctx.pick("place", ["row", "row_same", "arrays", "rows", "maps", "mixed"])
    scal = [lambda i: b.bigint(), lambda i: b.varchar(max_chars=1 + i), lambda i: b.decimal(precision=1 + i % 38, scale=i % (1 + i % 38)), lambda i: b.timestamp(precision=i % 13, timezone=bool(i % 2)), lambda i: b.array(dtype=b.char(max_chars=i + 1))]
    sym = lambda: b.varchar(max_chars=ctx.int("len", 1, 9))
    if place in ("row", "row_same"):
        n = ctx.pick("size", lists(ctx))
        at = ctx.pick("at", sorted({0, n // 2, n - 1}))
        ts = [sym() if i == at else b.double() if place == "row_same" else scal[i % 5](i) for i in range(n)]
        t = b.row(dtypes=ts)
    else:
        n = ctx.pick("depth", deep(ctx))
        t = sym()
        for i in range(n):
            k = place if place != "mixed" else ["arrays", "rows", "maps"][i % 3]
            if k == "arrays":
                t = b.array(dtype=t)
            elif k == "rows":
                t = b.row(dtypes=[scal[i % 5](i), t])
            elif i % 2:
                t = b.map_(from_dtype=b.varchar(), to_dtype=t)
            else:
                t = b.map_(from_dtype=t, to_dtype=b.varchar())
    check_text(ctx, g, t)


HARNESSES = [
    Harness("scalars", h_scalars, "33 scalar types; precision 1..38, scale 0..precision, length 1..2^31-1, time precision 0..12, all symbolic; both print modes and inside casts"),
    Harness("nested", h_nested, "7 nesting positions to depth 1..3 (thorough 1..4) over 33 (6, thorough 9, from depth 2 on) leaf types with symbolic parameters", {"depth": 3}, {"depth": 4}),
    Harness("read", h_read, "47 spellings with symbolic parameters in either letter case"),
    Harness("ranges", h_ranges, "every precision, scale and length in -10^6..10^6", {"range": (-(10**6), 10**6)}),
    Harness("illegal", h_illegal, "every pair of interval fields, 8 surplus parameters of 26 types, missing and ill-typed parameters, every unknown name of 1..4 (thorough 1..9) letters, 41 illegal texts", {"len": 4}, {"len": 9}),
    Harness("letter_case", h_letter_case, "every letter of every type name upper or lower, symbolically"),
    Harness("long", h_long, "rows of 1..17 and 19 (thorough 1..134 and 10) more sizes, nesting up to 12 (25) levels, one length symbolic"),
]
