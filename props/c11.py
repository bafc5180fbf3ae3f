"""C11: inferred expression types follow the operand types."""
from decimal import Decimal

from sx.api import Harness

from .c06 import AGGREGATES, BARE, PRECISE, SPEC, cls_of, read
from .c09 import NEST, PLAIN, SCALAR, nested, scalar
from .c10 import INT, NUM, has_unknown, lub, mn, same
from .common import deep_eq, leaf_eq, render, zand_all
from .gen import Gen

BOOL = ("BOOLEAN", {})
BIG = ("BIGINT", {})
DBL = ("DOUBLE", {})
VARCHAR = ("VARCHAR", {})
VARBINARY = ("VARBINARY", {})
DATE = ("DATE", {})
UNKNOWN = ("UNKNOWN", {})
DAY_SECOND = ("INTERVAL", {"from_interval": "DAY", "to_interval": "SECOND"})
YEAR_MONTH = ("INTERVAL", {"from_interval": "YEAR", "to_interval": "MONTH"})


def array_of(t):
    return ("ARRAY", {"dtype": t})


def map_of(k, v):
    return ("MAP", {"from_dtype": k, "to_dtype": v})


def ts(precision, tz=True):
    return ("TIMESTAMP", {"precision": precision, "timezone": tz})


FEW = ["BIGINT", "INTEGER", "DOUBLE", "BOOLEAN", "DATE", "VARBINARY", "UNKNOWN", "decimal", "varchar", "varchar_n", "char_n", "timestamp_p", "timestamp_ptz", "time_p", "year_month", "day_second", "array", "map_v", "row2"]


def a_type(g, label, kinds):
    kind = g.ctx.pick(label, kinds)
    if kind in NEST:
        return nested(g, kind, scalar(g, "decimal_p")[0], lambda: g.dt.date())
    return scalar(g, kind)[0]


def typed(g, t):
    """an expression of type t"""
    f = g.x.Field(g.name("f"), data_type=t)
    if t.type_name == "UNKNOWN" or g.as_field:
        return f
    return g.x.Cast(g.field(), data_type=t)


def want_type(ctx, g, e, *wants, known_only=False):
    """e reports one of the wanted types, and so does what is read from its text"""
    t = e.data_type
    ctx.check(any_of([same(t, w) for w in wants]), "type that follows from the operands", lambda: "%s has the type %r, expected %s" % (render(e), t, wants))
    if g.as_field:
        return
    sql = e.sql(g.T.base.PrintOptions())
    ctx.sample(lambda: str(sql))
    back = read(sql)
    ctx.check(deep_eq(back.data_type, t), "same type when read", lambda: "%s reads with the type %r, built with %r" % (sql, back.data_type, t))


def any_of(conds):
    out = False
    for c in conds:
        if c is True:
            return True
        if c is False:
            continue
        out = c if out is False else out | c
    return out


def arithmetic(a, b):
    """the expected type of an arithmetic operation on two types, None if there is none"""
    if a.type_name == b.type_name or (a.type_name in NUM and b.type_name in NUM):
        return lub(a, b)
    return UNKNOWN


ARITH = ["Add", "Minus", "Multiply", "Divide", "Modulus"]
COMPARE = ["Equal", "NotEqual", "GreaterThan", "GreaterThanOrEqual", "LessThan", "LessThanOrEqual", "DistinctFrom", "And", "Or"]


def start(ctx):
    g = Gen(ctx)
    g.as_field = ctx.flag("fields")
    return g


def build(ctx, f, want):
    """the node, or None when its operands cannot be combined (and then there must be no type for it)"""
    try:
        return f()
    except Exception as e:
        ctx.check(want is None or has_unknown_want(want), "operands that have a common type are accepted", lambda: "%s: %s, expected %s" % (type(e).__name__, e, want))
        return None


def has_unknown_want(w):
    if isinstance(w, tuple):
        return w[0] == "UNKNOWN" or any(has_unknown_want(x) for x in w[1].values())
    if isinstance(w, list):
        return any(has_unknown_want(x) for x in w)
    return hasattr(w, "type_name") and has_unknown(w)


def h_binary(ctx):
    g = start(ctx)
    op = ctx.pick("op", ARITH)
    kinds = list(INT) + ["REAL", "DOUBLE", "decimal", "UNKNOWN", "DATE", "varchar_n", "timestamp_p", "timestamp_ptz", "time_p", "day_second", "year_month"] if op == "Minus" or ctx.thorough else ["TINYINT", "BIGINT", "REAL", "DOUBLE", "decimal", "UNKNOWN", "DATE", "time_p"]
    a, b = a_type(g, "a", kinds), a_type(g, "b", kinds)
    want = arithmetic(a, b)
    if op == "Minus" and {a.type_name, b.type_name} <= {"DATE", "TIMESTAMP"}:
        want = DAY_SECOND
    if op == "Minus" and a.type_name == b.type_name == "TIME":
        want = DAY_SECOND
    e = build(ctx, lambda: getattr(g.x, op)(typed(g, a), typed(g, b)), want)
    if e is not None:
        if want is None:
            ctx.check(has_unknown(e.data_type), "no type is made up", lambda: repr(e.data_type))
        else:
            want_type(ctx, g, e, want)


def h_boolean(ctx):
    g = start(ctx)
    x = g.x
    op = ctx.pick("op", COMPARE + ["Not", "IsNull", "Between", "Like", "LikeEscape", "InList", "InQuery"])
    a = a_type(g, "a", FEW)
    v = typed(g, a)
    if op in COMPARE:
        e = getattr(x, op)(*([v, g.field()] if ctx.flag("left") else [g.field(), v]))
    else:
        e = {
            "Not": lambda: x.Not(v),
            "IsNull": lambda: x.IsNull(v),
            "Between": lambda: x.Between(v, g.field(), v),
            "Like": lambda: x.Like(v, v),
            "LikeEscape": lambda: x.Like(g.field(), v, v),
            "InList": lambda: x.InList(v, [g.field(), v]),
            "InQuery": lambda: x.InQuery(v, g.r.SelectQuery([g.field()])),
        }[op]()
    want_type(ctx, g, e, BOOL)


def h_unary(ctx):
    """constructs whose type is that of their operand, or made from it"""
    g = start(ctx)
    x = g.x
    a = a_type(g, "a", FEW if not ctx.thorough else PLAIN + SCALAR + NEST)
    v = typed(g, a)
    what = ctx.pick("what", ["Positive", "Negative", "Array1", "Row1", "Row2", "Cast", "TryCast", "Case1", "CaseValue", "CaseNull", "Alias", "Lambda", "If2", "NullIf", "Try", "Subquery", "Subscript"])
    if what == "Alias":
        e = x.AliasedValue(v, g.name("al"))
        ctx.check(same(e.data_type, a), "an alias keeps the type", lambda: repr(e.data_type))
        return
    if what == "Subquery":
        q = g.r.SelectQuery([v, g.x.wrap_literal(True)] if ctx.flag("two") else [v])
        want = a if len(q.select) == 1 else ("ROW", {"dtypes": [a, BOOL]})
        ctx.check(same(q.data_type, want), "a query has the type of its columns", lambda: repr(q.data_type))
        return
    if what == "Subscript":
        e = x.Subscript(v, x.wrap_literal(1))
        elem = a.parameters.get("dtype", None) if a.type_name == "ARRAY" else None
        want_type(ctx, g, e, UNKNOWN, *([elem] if elem is not None else []), *([a.parameters["to_dtype"]] if a.type_name == "MAP" else []))
        return
    t2 = a_type(g, "b", ["BIGINT", "decimal", "timestamp_ptz"]) if what in ("Cast", "TryCast", "Row2") else None
    e, want = {
        "Positive": lambda: (x.Positive(v), a),
        "Negative": lambda: (x.Negative(v), a),
        "Array1": lambda: (x.Array([v]), array_of(a)),
        "Row1": lambda: (x.RowConstructor([v]), ("ROW", {"dtypes": [a]})),
        "Row2": lambda: (x.RowConstructor([v, typed(g, t2), g.x.wrap_literal(True)]), ("ROW", {"dtypes": [a, t2, BOOL]})),
        "Cast": lambda: (x.Cast(v, data_type=t2), t2),
        "TryCast": lambda: (x.TryCast(v, data_type=t2), t2),
        "Case1": lambda: (x.Case(branches=[x.When(g.field(), v)]), a),
        "CaseValue": lambda: (x.Case(branches=[x.When(g.field(), v), x.When(x.wrap_literal(1), v)], value=g.x.wrap_literal(3), else_=x.Else(v)), a),
        "CaseNull": lambda: (x.Case(branches=[x.When(g.field(), v)], else_=x.Else(x.NULL)), a),
        "Lambda": lambda: (x.Lambda([x.Lambda.Variable("zz")], v), None),
        "If2": lambda: (g.cond.If(g.field(), v), a),
        "NullIf": lambda: (g.cond.NullIf(v, g.x.wrap_literal("s")), a),
        "Try": lambda: (g.cond.Try(v), a),
    }[what]()
    if want is None:
        # the library gives lambdas no type of their own
        ctx.check(same(e.data_type, UNKNOWN) or same(e.data_type, a), "a lambda's type", lambda: repr(e.data_type))
        return
    want_type(ctx, g, e, want)


def h_common(ctx):
    """COALESCE, IF, CASE, ARRAY over several operands"""
    g = start(ctx)
    x = g.x
    what = ctx.pick("what", ["coalesce", "if", "coalesce3", "case", "array"])
    if what == "coalesce3":
        g.as_field = True
    wide = what in ("if", "coalesce") and (g.as_field or ctx.thorough)
    kinds = FEW if wide else ["BIGINT", "TINYINT", "DOUBLE", "decimal", "UNKNOWN", "varchar_n", "char_n", "timestamp_p", "timestamp_ptz", "DATE", "array"]
    a, b = a_type(g, "a", kinds), a_type(g, "b", kinds)
    if what in ("case", "array"):
        # (known-findings.json: the first element alone decides) operands of one type only
        ctx.assume(a.type_name == b.type_name)
        same_ab = deep_eq(a, b)
        ctx.assume(same_ab)
        va, vb = typed(g, a), typed(g, b)
        e = x.Array([va, vb, va]) if what == "array" else x.Case(branches=[x.When(g.field(), va), x.When(g.field(), vb)], else_=x.Else(vb))
        want_type(ctx, g, e, array_of(a) if what == "array" else a)
        return
    want = lub(a, b)
    if what == "if":
        f = lambda: g.cond.If(g.field(), typed(g, a), typed(g, b))
    elif what == "coalesce":
        f = lambda: g.cond.Coalesce(values=[typed(g, a), typed(g, b)])
    else:
        c = a_type(g, "c", ["UNKNOWN", "BIGINT", "decimal", "varchar_n", "timestamp_p"])
        if want is not None and isinstance(want, tuple):
            want = lub_want(g, want, c)
        f = lambda: g.cond.Coalesce(values=[typed(g, a), typed(g, b), typed(g, c)])
    e = build(ctx, f, want)
    if e is None:
        return
    if want is None:
        ctx.check(has_unknown(e.data_type), "no type is made up", lambda: repr(e.data_type))
    else:
        want_type(ctx, g, e, want)


class _W:
    """(name, parameters) seen as a type by lub"""

    def __init__(self, w):
        if isinstance(w, tuple):
            self.type_name, self.parameters = w[0], {k: _w(v) for k, v in w[1].items()}
        else:
            self.type_name, self.parameters = w.type_name, w.parameters


def _w(v):
    if isinstance(v, tuple):
        return _W(v)
    if isinstance(v, list):
        return [_w(x) for x in v]
    return v


def _unw(v):
    if isinstance(v, _W):
        return (v.type_name, {k: _unw(p) for k, p in v.parameters.items()})
    if isinstance(v, tuple):
        return (v[0], {k: _unw(p) for k, p in v[1].items()})
    if isinstance(v, list):
        return [_unw(x) for x in v]
    return v


def lub_want(g, w, c):
    r = lub(_W(w), c)
    return None if r is None else _unw(r)


def h_concat(ctx):
    g = start(ctx)
    fam = ctx.pick("family", ["string", "array", "binary", "unknown", "nested"])
    n = 2 + ctx.choose("n", 2 if fam != "nested" or ctx.thorough else 1)
    elem = ["BIGINT", "decimal", "varchar_n", "char_n", "timestamp_ptz"] if ctx.thorough or n == 2 else ["BIGINT", "decimal", "char_n"]
    if n == 3 and not ctx.thorough:
        g.as_field = True
    if fam == "string":
        ts_ = [a_type(g, "t", ["varchar", "varchar_n", "char", "char_n"]) for _ in range(n)]
        if any(t.type_name == "CHAR" for t in ts_):
            tot = 0
            for t in ts_:
                k = t.parameters.get("max_chars", 65536)
                tot = tot + (k if t.type_name == "CHAR" else mn(65536, k))
            want = ("CHAR", {"max_chars": mn(65536, tot)})
        else:
            want = VARCHAR
    elif fam == "binary":
        ts_ = [g.dt.varbinary() for _ in range(n)]
        want = VARBINARY
    elif fam == "unknown":
        ts_ = [a_type(g, "t", ["varchar", "UNKNOWN", "array", "VARBINARY"]) for _ in range(n)]
        ctx.assume(any(t.type_name == "UNKNOWN" for t in ts_))
        want = UNKNOWN
    else:
        # arrays and single elements of them
        es = [a_type(g, "t", elem) for _ in range(n)]
        isarr = [ctx.flag("arr") for _ in range(n)]
        ctx.assume(any(isarr))
        ctx.assume(all(e.type_name in NUM for e in es) or len({e.type_name for e in es} | {"CHAR"}) <= 2 and all(e.type_name in ("CHAR", "VARCHAR") for e in es) or len({e.type_name for e in es}) == 1)
        w = es[0]
        for e in es[1:]:
            w = lub(_W(w) if isinstance(w, tuple) else w, e)
            w = None if w is None else _unw(w)
        ctx.assume(w is not None)
        wrap = (lambda t: g.dt.array(dtype=t)) if fam == "nested" else (lambda t: t)
        ts_ = [g.dt.array(dtype=wrap(e)) if r else wrap(e) for e, r in zip(es, isarr)]
        want = array_of(array_of(w) if fam == "nested" else w)
    e = g.fcommon.Concatenate(values=[typed(g, t) for t in ts_])
    want_type(ctx, g, e, want)


# ------------------------------------------------------------------ functions
def result(name, sig, t):
    """the expected type(s) of a function given the types of its arguments"""
    v = t.get("value")
    if name in ("SUM", "ARBITRARY", "MAP_UNION"):
        return [v]
    if name in ("MAX", "MIN", "MAX_BY", "MIN_BY"):
        return [v] if "num_values" not in sig else [v, array_of(v), UNKNOWN]
    if name == "ARRAY_AGG":
        return [array_of(v)]
    if name in ("AVG", "GEOMETRIC_MEAN", "POWER", "TO_UNIXTIME", "CORR", "COVAR_POP", "COVAR_SAMP", "KURTOSIS", "REGR_INTERCEPT", "REGR_SLOPE"):
        return [DBL]
    if name in ("SKEWNESS", "STDDEV", "STDDEV_POP", "STDDEV_SAMP", "VARIANCE", "VAR_POP", "VAR_SAMP"):
        return [UNKNOWN, DBL]
    if name in ("BOOL_AND", "BOOL_OR", "EVERY", "LUHN_CHECK"):
        return [BOOL]
    if name in ("CHECKSUM", "TO_UTF8"):
        return [VARBINARY]
    if name in ("COUNT", "COUNT_IF", "BITWISE_AND_AGG", "BITWISE_OR_AGG", "APPROX_DISTINCT", "TO_MILLISECONDS", "DATE_DIFF", "LENGTH", "HAMMING_DISTANCE", "LEVENSHTEIN_DISTANCE"):
        return [BIG]
    if name in ("HISTOGRAM", "APPROX_MOST_FREQUENT"):
        return [map_of(v, BIG)]
    if name == "MAP_AGG":
        return [map_of(t["key"], v)]
    if name == "MULTIMAP_AGG":
        return [map_of(t["key"], array_of(v))]
    if name == "APPROX_PERCENTILE":
        p = t["percentage"].type_name
        return [array_of(v)] if p == "ARRAY" else [UNKNOWN] if p == "UNKNOWN" else [v]
    if name == "APPROX_SET":
        return [("HYPERLOGLOG", {})]
    if name == "MERGE":
        return [v] if v.type_name in ("TDIGEST", "QDIGEST") else [("HYPERLOGLOG", {})]
    if name == "NUMERIC_HISTOGRAM":
        return [map_of(DBL, DBL)]
    if name == "QDIGEST_AGG":
        return [("QDIGEST", {"dtype": v})]
    if name == "TDIGEST_AGG":
        return [("TDIGEST", {})]
    if name == "NULLIF":
        return [t["value1"]]
    if name == "TRY":
        return [t["expr"]]
    if name == "IF":
        if "false_value" not in sig:
            return [t["true_value"]]
        w = lub(t["true_value"], t["false_value"])
        return [w] if w is not None else None
    if name in ("DATE", "LAST_DAY_OF_MONTH", "FROM_ISO8601_DATE"):
        return [DATE]
    if name in ("FROM_ISO8601_TIMESTAMP", "NOW"):
        return [ts(3)]
    if name in ("FROM_ISO8601_TIMESTAMP_NANOS", "FROM_UNIXTIME_NANOS"):
        return [ts(9)]
    if name in ("AT_TIMEZONE", "WITH_TIMEZONE"):
        return [("TIMESTAMP", dict(v.parameters, timezone=True)) if v.type_name == "TIMESTAMP" else UNKNOWN]
    if name == "FROM_UNIXTIME":
        return [("TIMESTAMP", dict(v.parameters, timezone=True))] if v.type_name == "TIMESTAMP" else [UNKNOWN, ts(3)]
    if name == "DATE_TRUNC":
        return [v]
    if name == "DATE_ADD":
        return [t["timestamp"]]
    if name == "PARSE_DURATION":
        return [DAY_SECOND]
    if name == "CODEPOINT":
        return [("INTEGER", {})]
    if name in ("TO_ISO8601", "HUMAN_READABLE_SECONDS", "CHR", "LOWER", "LPAD", "LTRIM", "REPLACE", "REVERSE", "RPAD", "RTRIM", "SOUNDEX", "FROM_UTF8"):
        return [VARCHAR]
    raise KeyError(name)


SIGS = [(n, i) for n in SPEC for i in range(len(SPEC[n][2]))]


def h_functions(ctx):
    g = start(ctx)
    name, i = ctx.pick("fn", SIGS)
    sig = SPEC[name][2][i]
    g2 = FEW + ["TDIGEST"] if ctx.thorough else ["BIGINT", "UNKNOWN", "decimal_p", "varchar_n", "timestamp_p", "timestamp", "array", "TDIGEST", "qdigest"]
    types = {f: g.dt.unknown() for f in sig}
    main = {"DATE_ADD": "timestamp", "NULLIF": "value1", "IF": "true_value"}.get(name, "value" if "value" in sig else sig[0] if sig else None)
    if main:
        types[main] = a_type(g, "a", g2)
    others = [f for f in sig if f != main]
    if others:
        # another operand of another type must not matter (unless it is part of the result)
        f = ctx.pick("other", others)
        types[f] = a_type(g, "b", ["array", "BIGINT", "UNKNOWN"] if name == "APPROX_PERCENTILE" else ["DOUBLE", "array"] if name != "IF" else g2)
        if name == "APPROX_PERCENTILE" and f != "percentage":
            types["percentage"] = g.dt.double()
    wants = result(name, sig, types)
    kw = {f: typed(g, types[f]) for f in sig}
    cls = cls_of(name)
    make = lambda: cls(kw.pop("value"), **kw) if name == "APPROX_PERCENTILE" else cls(**kw)
    e = build(ctx, make, wants and wants[0])
    if e is None:
        return
    if wants is None:
        ctx.check(has_unknown(e.data_type), "no type is made up", lambda: repr(e.data_type))
        return
    want_type(ctx, g, e, *wants)


def h_special(ctx):
    """functions without argument types, typed literals, intervals"""
    g = start(ctx)
    g.as_field = False
    x = g.x
    what = ctx.pick("what", ["bare", "precise", "interval", "timestamp", "date", "decimal", "char", "plain_literal", "normalize", "listagg", "typed_read", "null", "boolean", "string"])
    if what == "bare":
        name = ctx.pick("fn", list(BARE))
        want_type(ctx, g, cls_of(name)(), DATE if name == "CURRENT_DATE" else VARCHAR)
    elif what == "precise":
        name = ctx.pick("fn", list(PRECISE))
        p = ctx.int("p", 0, 12)
        n = "TIME" if name in ("CURRENT_TIME", "LOCALTIME") else "TIMESTAMP"
        want_type(ctx, g, getattr(g.fdate, PRECISE[name])(p), (n, {"precision": p, "timezone": False}))
        want_type(ctx, g, getattr(g.fdate, PRECISE[name])(), (n, {"precision": 3, "timezone": False}))
    elif what == "interval":
        frm, to = ctx.pick("from", ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]), ctx.pick("to", [None, "MONTH", "HOUR", "SECOND"])
        e = x.Interval(ctx.str("iv", 1, [(48, 57)]), frm, to)
        want_type(ctx, g, e, YEAR_MONTH if frm in ("YEAR", "MONTH") else DAY_SECOND)
    elif what in ("timestamp", "typed_read"):
        tn = ctx.pick("tn", ["TIMESTAMP", "TIME"])
        k = ctx.choose("digits", ctx.params["digits"] + 1)
        base = "2001-02-03 04:05:06" if tn == "TIMESTAMP" else "04:05:06"
        v = base + ("." + ctx.str("d", k, [(48, 57)]) if k else "")
        want = (tn, {"precision": k, "timezone": False})
        if what == "timestamp":
            want_type(ctx, g, x.TypeConstructor(v, tn), want)
        else:
            e = read(ctx.pick("spell", [tn, tn.lower()]) + " '" + v + "'")
            ctx.check(same(e.data_type, want), "type of a typed literal", lambda: "%s has the type %r" % (v, e.data_type))
    elif what == "decimal":
        a, b = ctx.choose("int", 4), ctx.choose("frac", 4)
        ctx.assume(a + b > 0)
        v = ctx.str("a", a, [(48, 57)]) + ("." + ctx.str("b", b, [(48, 57)]) if b else "")
        # digits in front count from the first one that is not 0
        lead = 0
        while lead < a and v[lead] == "0":
            lead += 1
        prec = a - lead + b
        want_type(ctx, g, x.TypeConstructor(v, "DECIMAL"), ("DECIMAL", {"precision": prec if prec > 1 else 1, "scale": b}))
    elif what == "char":
        k = 1 + ctx.choose("len", 4)
        want_type(ctx, g, x.TypeConstructor(ctx.str("c", k), "CHAR"), ("CHAR", {"max_chars": k}))
    elif what == "date":
        n = ctx.pick("tn", ["DATE", "JSON", "UUID", "IPADDRESS", "BIGINT", "REAL", "DOUBLE", "BOOLEAN", "VARCHAR"])
        want_type(ctx, g, x.TypeConstructor(ctx.str("v", 2, [(97, 122)]), n), (n, {}))
    elif what == "plain_literal":
        n = ctx.int("n", -(2**63) + 1, 2**63 - 1)
        e = x.wrap_literal(n)
        small = (n >= -(2**31)) & (n <= 2**31 - 1)
        name = e.data_type.type_name
        ctx.check(small if name == "INTEGER" else (~small if not isinstance(small, bool) else not small) if name == "BIGINT" else False, "INTEGER within 32 bits, BIGINT beyond", lambda: "%s: %r" % (n, e.data_type))
    elif what == "normalize":
        want_type(ctx, g, g.fstring.Normalize(g.field(), ctx.pick("form", list(g.fstring.NormalForm))), VARCHAR)
    elif what == "listagg":
        want_type(ctx, g, g.agg.ListAgg(g.field(), orderby=[g.o.OrderTerm(g.field())]), VARCHAR)
    elif what == "null":
        want_type(ctx, g, x.NULL, UNKNOWN)
    elif what == "boolean":
        want_type(ctx, g, x.wrap_literal(ctx.flag("b")), BOOL)
    else:
        k = ctx.choose("len", 4)
        want_type(ctx, g, x.wrap_literal(ctx.str("s", k)), ("VARCHAR", {"max_chars": k}))


def h_nested_ops(ctx):
    """types through two levels of operators"""
    g = start(ctx)
    x = g.x
    kinds = ["TINYINT", "BIGINT", "REAL", "DOUBLE", "decimal"] if ctx.thorough else ["SMALLINT", "REAL", "decimal"]
    a, b, c = [a_type(g, n, kinds) for n in "abc"]
    o1, o2 = ctx.pick("ops", [(p, q) for p in ("Add", "Minus", "Multiply") for q in ("Add", "Divide", "Modulus")] if ctx.thorough else [("Add", "Modulus"), ("Minus", "Divide"), ("Multiply", "Add")])
    inner = lub(a, b)
    want = lub_want(g, inner, c)
    left = ctx.flag("left")
    i = getattr(x, o1)(typed(g, a), typed(g, b))
    if not ctx.thorough:
        g.as_field = True
    wrap = ctx.pick("wrap", ["none", "neg", "coalesce", "sum", "array"] if ctx.thorough else ["none", "neg"])
    if not ctx.thorough:
        ctx.assume(not (a.type_name == b.type_name == c.type_name == "DECIMAL"))
    if wrap == "neg":
        i = x.Negative(i)
    elif wrap == "coalesce":
        i = g.cond.Coalesce(values=[x.NULL, i])
    elif wrap == "sum":
        i = g.agg.Sum(i)
    e = getattr(x, o2)(*([i, typed(g, c)] if left else [typed(g, c), i]))
    if wrap == "array":
        e, want = x.Array([e]), array_of(want)
    want_type(ctx, g, e, want)


def h_queries(ctx):
    """a query reports the types of its columns"""
    g = Gen(ctx)
    g.as_field = True
    r = g.r
    n = 1 + ctx.choose("n", 3)
    ts_ = [a_type(g, "t", ["BIGINT", "decimal", "varchar_n", "timestamp_ptz", "array"]) for _ in range(n)]
    want = ts_[0] if n == 1 else ("ROW", {"dtypes": ts_})
    cols = [typed(g, t) for t in ts_]
    what = ctx.pick("what", ["select", "values", "aliased", "limited"])
    if what == "values":
        q = r.ValuesQuery([cols[0] if n == 1 else g.x.RowConstructor(cols)])
    elif what == "aliased":
        q = r.SelectQuery([g.x.AliasedValue(c, g.name("al")) for c in cols])
    else:
        q = r.SelectQuery(cols, from_=r.Table(g.name("t")), limit=3 if what == "limited" else None)
    ctx.check(same(q.data_type, want), "a query has the type of its columns", lambda: "%s: %r" % (render(q), q.data_type))
    if what != "values":
        i = g.x.InQuery(g.field(), q)
        ctx.check(same(i.data_type, BOOL), "IN is boolean", lambda: repr(i.data_type))


HARNESSES = [
    Harness("binary", h_binary, "5 arithmetic operators over all pairs of 15 (8 for all but minus; thorough 15 for all) types with symbolic parameters, as columns and as casts read back"),
    Harness("boolean", h_boolean, "16 predicates and connectives over 19 operand types"),
    Harness("unary", h_unary, "17 constructs over 19 (thorough 40) operand types"),
    Harness("common", h_common, "COALESCE and IF over all pairs of 19 types, COALESCE of three, CASE and ARRAY of operands of one type", outside="CASE and ARRAY over different types: see known-findings.json"),
    Harness("concat", h_concat, "2..3 operands: strings of symbolic length, binary, unknown, arrays and elements to two layers"),
    Harness("functions", h_functions, "all 92 signatures of 80 functions over 9 (thorough 20) types of the argument that decides and 2..3 of another"),
    Harness("special", h_special, "typed literals with 0..12 fraction digits, decimals up to 3+3 digits, all 64-bit integers, precision 0..12, intervals", {"digits": 12}),
    Harness("nested_ops", h_nested_ops, "3 (thorough 9) pairs of operators on either side and 5 wrappers over all triples of 3 (thorough 5) numeric types"),
    Harness("queries", h_queries, "1..3 columns of 5 types"),
]
