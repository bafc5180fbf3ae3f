"""C15: expression text is read the way SQL's precedence rules group it."""
from decimal import Decimal

from sx.api import Harness

from .c06 import BARE, PRECISE, q, read
from .common import deep_eq, render
from .gen import ALL, BYNAME, CORE, KINDS, LEAVES, OPS, Gen, expr, norm_sugar, ok_child
from .spell import STYLES, K, O, W, I, join, text
from .special import SPECIAL, tree as special_tree
from .zoo import ZOO
from .long import DEEP_QUICK, EXPR_CHAINS, EXPR_LISTS, FUNC_LISTS, deep, expr_place, lists


def reads_as(ctx, g, sql, want, label="read as the grammar groups it"):
    ctx.sample(lambda: str(sql))
    try:
        got = read(sql)
    except Exception as e:
        ctx.check(False, "SQL of the grammar is read", lambda: "%s: %s: %s" % (sql, type(e).__name__, str(e)[:200]))
        return
    ctx.check(deep_eq(got, want, norm=norm_sugar(g)), label, lambda: "%s reads as %s, expected %s" % (sql, render(got), render(want)))


# ---------------------------------------------------------------- flat texts, grouped by a parser of our own
class Bad(Exception):
    pass


class Parser:
    """precedence by recursive descent over a list of (kind, text or node)"""

    def __init__(self, g, toks):
        self.g, self.x, self.t, self.i = g, g.x, toks, 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) and self.t[self.i][0] != "N" else None

    def take(self, *words):
        if self.peek() in words:
            self.i += 1
            return self.t[self.i - 1][1]

    def want(self, w):
        if not self.take(w):
            raise Bad()

    def all(self):
        v = self.or_()
        if self.i != len(self.t):
            raise Bad()
        return v

    def or_(self):
        v = self.and_()
        while self.take("OR"):
            v = self.x.Or(v, self.and_())
        return v

    def and_(self):
        v = self.not_()
        while self.take("AND"):
            v = self.x.And(v, self.not_())
        return v

    def not_(self):
        if self.take("NOT"):
            return self.x.Not(self.not_())
        return self.pred()

    def pred(self):
        x = self.x
        v = self.concat()
        w = self.take("=", "<>", "!=", "<", "<=", ">", ">=")
        if w:
            cls = {"=": x.Equal, "<>": x.NotEqual, "!=": x.NotEqual, "<": x.LessThan, "<=": x.LessThanOrEqual, ">": x.GreaterThan, ">=": x.GreaterThanOrEqual}[w]
            return cls(v, self.concat())
        if self.take("IS"):
            neg = self.take("NOT")
            if self.take("NULL"):
                v = x.IsNull(v)
            else:
                self.want("DISTINCT")
                self.want("FROM")
                v = x.DistinctFrom(v, self.concat())
            return x.Not(v) if neg else v
        neg = self.take("NOT")
        w = self.take("BETWEEN", "LIKE", "IN")
        if w == "BETWEEN":
            lo = self.concat()
            self.want("AND")
            v = x.Between(v, lo, self.concat())
        elif w == "LIKE":
            p = self.concat()
            v = x.Like(v, p, self.concat() if self.take("ESCAPE") else None)
        elif w == "IN":
            self.want("(")
            vs = [self.or_()]
            while self.take(","):
                vs.append(self.or_())
            self.want(")")
            v = x.InList(v, vs)
        elif neg:
            raise Bad()
        return x.Not(v) if neg else v

    def concat(self):
        v = self.add()
        while self.take("||"):
            v = self.g.fcommon.Concatenate(values=[v, self.add()])
        return v

    def add(self):
        v = self.mul()
        while True:
            w = self.take("+", "-")
            if not w:
                return v
            v = (self.x.Add if w == "+" else self.x.Minus)(v, self.mul())

    def mul(self):
        v = self.unary()
        while True:
            w = self.take("*", "/", "%")
            if not w:
                return v
            v = {"*": self.x.Multiply, "/": self.x.Divide, "%": self.x.Modulus}[w](v, self.unary())

    def unary(self):
        w = self.take("+", "-")
        if w:
            v = self.unary()
            return self.x.Positive(v) if w == "+" else self.x.Negative(v)
        return self.postfix()

    def postfix(self):
        v = self.primary()
        while True:
            if self.take("["):
                i = self.concat()
                self.want("]")
                v = self.x.Subscript(v, i)
            elif self.take("."):
                f = self.primary()
                v = self.x.Field(f.name, v.name if isinstance(v, self.x.Field) else v)
            else:
                return v

    def primary(self):
        if self.take("("):
            v = self.or_()
            self.want(")")
            return v
        if self.i < len(self.t) and self.t[self.i][0] == "N":
            self.i += 1
            return self.t[self.i - 1][1][1]
        raise Bad()


INFIX = {
    "OR": ["OR"],
    "AND": ["AND"],
    "=": ["="],
    "<>": ["<>"],
    "!=": ["!="],
    "<": ["<"],
    ">=": [">="],
    "<=": ["<="],
    ">": [">"],
    "IS DISTINCT FROM": ["IS", "DISTINCT", "FROM"],
    "IS NOT DISTINCT FROM": ["IS", "NOT", "DISTINCT", "FROM"],
    "LIKE": ["LIKE"],
    "NOT LIKE": ["NOT", "LIKE"],
    "ESCAPE": ["ESCAPE"],
    "BETWEEN": ["BETWEEN"],
    "NOT BETWEEN": ["NOT", "BETWEEN"],
    "||": ["||"],
    "+": ["+"],
    "-": ["-"],
    "*": ["*"],
    "/": ["/"],
    "%": ["%"],
    "IS NULL AND": ["IS", "NULL", "AND"],
    "IS NOT NULL OR": ["IS", "NOT", "NULL", "OR"],
    "IN () AND": ["IN", "(", "1", ",", "2", ")", "AND"],
    "NOT IN () OR": ["NOT", "IN", "(", "1", ")", "OR"],
    "[] +": ["[", "1", "]", "+"],
    "[] *": ["[", "1", "]", "*"],
}
FEW = ["OR", "AND", "=", "BETWEEN", "||", "-", "/"]
PREFIX = ["", "NOT", "-", "+"]
WORDS = {"OR", "AND", "NOT", "IS", "NULL", "DISTINCT", "FROM", "LIKE", "ESCAPE", "BETWEEN", "IN"}


def flat(ctx, g, parts, style):
    """parts: words and nodes -> (sql, expected tree or None)"""
    toks, out = [], []
    for p in parts:
        if isinstance(p, tuple):
            toks.append(("N", p))
            out += p[0]
        elif p.isdigit():
            v = g.x.wrap_literal(int(p))
            toks.append(("N", (W(p), v)))
            out += W(p)
        else:
            toks.append(("w", p))
            out += K(p) if p in WORDS else O(p)
    sql = join(out, STYLES[style])
    try:
        want = Parser(g, toks).all()
    except Bad:
        want = None
    return sql, want


def check_flat(ctx, g, parts, style):
    sql, want = flat(ctx, g, parts, style)
    ctx.sample(lambda: str(sql))
    if want is None:
        try:
            got = read(sql)
        except Exception:
            ctx.check(True, "rejected")
            return
        ctx.check(False, "text outside of the grammar is rejected", lambda: "%s reads as %s" % (sql, render(got)))
        return
    reads_as(ctx, g, sql, want)


def operand(ctx, g, kind="f"):
    if kind == "f":
        n = g.name("f")
        return (I(n), g.x.Field(n))
    if kind == "i":
        n = ctx.int("n", 0, 9, 5)
        return (W(n.__str__()), g.x.wrap_literal(n))
    raise ValueError(kind)


def h_two(ctx):
    """three operands, two operators, prefixes before each"""
    g = Gen(ctx)
    full = ctx.thorough
    a, b = ctx.pick("op1", list(INFIX)), ctx.pick("op2", list(INFIX))
    where = ctx.choose("at", 3)
    pre = ctx.pick("pre", PREFIX)
    ctx.assume(pre or where == 0)
    parts = []
    for i in range(3):
        if i == where and pre:
            parts.append(pre)
        parts.append(operand(ctx, g, "f"))
        if i < 2:
            parts += INFIX[(a, b)[i]]
    check_flat(ctx, g, parts, ctx.pick("style", ["plain", "tight", "lines", "comments"] if full else ["tight" if len(a) > len(b) else "plain"]))


def h_three(ctx):
    """four operands, three operators (BETWEEN takes the next AND)"""
    g = Gen(ctx)
    ops = list(INFIX) if ctx.thorough else FEW
    a, b, c = [ctx.pick("op%d" % i, ops) for i in range(3)]
    parts = []
    for i in range(4):
        if i == 0 and ctx.flag("not"):
            parts.append("NOT")
        if i == 2 and ctx.flag("minus"):
            parts.append("-")
        parts.append(operand(ctx, g, "f"))
        if i < 3:
            parts += INFIX[(a, b, c)[i]]
    check_flat(ctx, g, parts, "plain")


def h_between(ctx):
    """BETWEEN, AND, OR, NOT in all orders"""
    g = Gen(ctx)
    ops = ["BETWEEN", "NOT BETWEEN", "AND", "OR", "="]
    n = ctx.params["n"]
    parts = []
    for i in range(n + 1):
        if ctx.flag("not%d" % i):
            parts.append("NOT")
        parts.append(operand(ctx, g, "f"))
        if i < n:
            parts += INFIX[ctx.pick("op%d" % i, ops)]
    check_flat(ctx, g, parts, "plain")


def h_parens(ctx):
    """parentheses around any part of a flat text"""
    g = Gen(ctx)
    ops = [ctx.pick("op%d" % i, list(INFIX) if ctx.thorough else ["OR", "AND", "=", "-", "/"]) for i in range(3)]
    lo = ctx.choose("lo", 4)
    hi = lo + ctx.choose("len", 4 - lo)
    deep = 1 + ctx.choose("deep", 2)
    parts = []
    pre = ctx.pick("pre", ["", "-", "NOT"])
    for i in range(4):
        if i == lo:
            if pre:
                parts.append(pre)
            parts += ["("] * deep
        parts.append(operand(ctx, g, "f"))
        if i == hi:
            parts += [")"] * deep
        if i < 3:
            parts += INFIX[ops[i]]
    check_flat(ctx, g, parts, ctx.pick("style", ["tight"] if not ctx.thorough else ["tight", "lines"]))


def h_unary(ctx):
    """runs of signs before names and numbers, between operators"""
    g = Gen(ctx)
    signs = [ctx.pick("s%d" % i, ["", "-", "+"]) for i in range(3)]
    kind = ctx.pick("operand", ["f", "i"])
    op = ctx.pick("op", ["+", "-", "*", "||", "=", ""])
    post = ctx.pick("post", ["", "[", "+1"])
    parts = []
    if op:
        parts += [operand(ctx, g, ctx.pick("left", ["f", "i"])), op]
    parts += [s for s in signs if s]
    ctx.assume(not (kind == "i" and post == "["))
    parts.append(operand(ctx, g, kind))
    parts += {"": [], "[": ["[", "1", "]"], "+1": ["+", "1"]}[post]
    # two minus signs in a row would start a comment
    check_flat(ctx, g, parts, "plain")


# ---------------------------------------------------------------- trees spelled in several styles
def h_kinds(ctx):
    """every kind below every position of every operator and predicate, spelled in every style"""
    g = Gen(ctx)
    top = ctx.pick("top", [k for k in KINDS if k.slots and "subquery" not in k.tags])
    pos = ctx.choose("pos", top.slots)
    inner = ctx.pick("inner", [k for k in ALL if "lambda" not in k.tags] if ctx.thorough else [BYNAME[n] for n in ("Or", "Not", "NotEqual", "IsNull", "Minus", "Negative", "Concat", "Subscript", "InQuery", "NegInt")])
    style = ctx.pick("style", list(STYLES) if ctx.thorough else ["plain", "sugar"])
    kids = []
    for i in range(top.slots):
        if i == pos:
            c = inner.build(g, [g.plain(inner) for _ in range(inner.slots)])
            ok_child(g, top, i, c)
            kids.append(c)
        else:
            kids.append(g.plain(top))
    ctx.assume(not (inner.name.startswith("Neg") and inner.slots == 0 and top.name in ("Subscript", "Deref", "Negative", "Positive")))
    e = top.build(g, kids)
    reads_as(ctx, g, text(g, e, style), e)


def h_styles(ctx):
    """every kind of expression, function and aggregate, each spelled in every style"""
    g = Gen(ctx)
    names = [n for n in ZOO if n.split(":")[0] in ("expr", "fn", "agg")]
    name = ctx.pick("expr", names)
    e = ZOO[name](g)
    # null treatment can be stated with OVER only
    if hasattr(e, "null_treatment"):
        ctx.assume(e.window is not None or e.null_treatment.name == "RESPECT")
    styles = list(STYLES) if ctx.thorough or not name.startswith("agg:") else ["sugar", "tight", "comments"]
    reads_as(ctx, g, text(g, e, ctx.pick("style", styles)), e)


def h_special(ctx):
    """special values (NULL, FALSE, zero, empty, negative ...) at every position of every kind of expression"""
    names = [n for n in ZOO if n.split(":")[0] in ("expr", "fn", "agg")]
    g, e = special_tree(ctx, names)
    if hasattr(e, "null_treatment"):
        ctx.assume(e.window is not None or e.null_treatment.name == "RESPECT")
    both = hasattr(e, "null_treatment") or len(g.values) < len(SPECIAL)
    style = ctx.pick("style", list(STYLES) if ctx.thorough else ["plain"] if both else ["plain", "full"])
    reads_as(ctx, g, text(g, e, style), e)


def h_interval(ctx):
    """intervals of several arbitrary characters, in every style, alone and below a sign or an operator"""
    g = Gen(ctx)
    x = g.x
    n = ctx.choose("length", 4 if not ctx.thorough else 6)
    s = ctx.str("iv", n, [(32, 126)])
    a, b = ctx.pick("fields", [("YEAR", None), ("DAY", "SECOND"), ("YEAR", "MONTH")])
    signed = ctx.pick("sign", ["", "-", "+"])
    if n:
        ctx.assume(s[0] != "+")
        if signed:
            ctx.assume(s[0] != "-")
    quoted = "'" + s.replace("'", "''") + "'"
    sql = "INTERVAL " + signed + quoted + " " + a + (" TO " + b if b else "")
    e = x.Interval("-" + s if signed == "-" else s, a, b)
    around = ctx.pick("around", ["alone", "minus", "negative", "between"])
    f = g.name("f")
    F = x.Field(f)
    sql, e = {
        "alone": lambda: (sql, e),
        "minus": lambda: (q(f) + " - " + sql, x.Minus(F, e)),
        "negative": lambda: ("- " + sql, x.Negative(e)),
        "between": lambda: (sql + " BETWEEN " + q(f) + " AND " + sql, x.Between(e, F, e)),
    }[around]()
    reads_as(ctx, g, sql, e)


def h_deep(ctx):
    """three levels of operators"""
    g = Gen(ctx)
    names = ["Or", "Not", "Equal", "Between", "Minus", "Divide", "Negative", "Subscript", "Case", "Row"]
    ks = [BYNAME[n] for n in names] + ([BYNAME["And"], BYNAME["InList"], BYNAME["Concat"]] if ctx.thorough else [])
    ks = ks if ctx.thorough else ks[:8]
    e = expr(g, [ks, ks, ks])
    reads_as(ctx, g, text(g, e, "plain" if not ctx.thorough else ctx.pick("style", ["plain", "sugar", "tight"])), e)


# ---------------------------------------------------------------- alternative spellings
SUGAR = [
    ("{a} != {b}", lambda g, x, a, b, c: x.NotEqual(a, b)),
    ("{a} <> {b}", lambda g, x, a, b, c: x.NotEqual(a, b)),
    ("NOT {a} = {b}", lambda g, x, a, b, c: x.Not(x.Equal(a, b))),
    ("{a} IS NOT NULL", lambda g, x, a, b, c: x.Not(x.IsNull(a))),
    ("NOT {a} IS NULL", lambda g, x, a, b, c: x.Not(x.IsNull(a))),
    ("{a} IS NOT DISTINCT FROM {b}", lambda g, x, a, b, c: x.Not(x.DistinctFrom(a, b))),
    ("{a} NOT IN ( {b} )", lambda g, x, a, b, c: x.Not(x.InList(a, [b]))),
    ("{a} NOT IN ( SELECT {b} )", lambda g, x, a, b, c: x.Not(x.InQuery(a, g.r.SelectQuery([b])))),
    ("{a} IN ( ( SELECT {b} ) )", lambda g, x, a, b, c: x.InList(a, [g.r.SelectQuery([b])])),
    ("{a} IN ( VALUES {b} , {c} )", lambda g, x, a, b, c: x.InQuery(a, g.r.ValuesQuery([b, c]))),
    ("{a} IN ( TABLE {b} )", lambda g, x, a, b, c: x.InQuery(a, g.r.TableQuery(g.r.Table(b.name)))),
    ("{a} NOT LIKE {b} ESCAPE {c}", lambda g, x, a, b, c: x.Not(x.Like(a, b, c))),
    ("{a} NOT BETWEEN {b} AND {c}", lambda g, x, a, b, c: x.Not(x.Between(a, b, c))),
    ("( ( {a} ) )", lambda g, x, a, b, c: a),
    ("( {a} , {b} )", lambda g, x, a, b, c: x.RowConstructor([a, b])),
    ("ROW ( {a} , {b} )", lambda g, x, a, b, c: x.RowConstructor([a, b])),
    ("ROW ( {a} )", lambda g, x, a, b, c: x.RowConstructor([a])),
    ("{a} || {b} || {c}", lambda g, x, a, b, c: g.fcommon.Concatenate(values=[g.fcommon.Concatenate(values=[a, b]), c])),
    ("CASE WHEN {a} THEN {b} END", lambda g, x, a, b, c: x.Case([x.When(a, b)])),
    ("CASE WHEN {a} THEN {b} WHEN {b} THEN {c} ELSE {a} END", lambda g, x, a, b, c: x.Case([x.When(a, b), x.When(b, c)], x.Else(a))),
    ("CASE {a} WHEN {b} THEN {c} END", lambda g, x, a, b, c: x.Case([x.When(b, c)], value=a)),
    ("CASE {a} WHEN {b} THEN {c} ELSE {b} END", lambda g, x, a, b, c: x.Case([x.When(b, c)], x.Else(b), a)),
    ("CAST ( {a} AS DOUBLE PRECISION )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.double())),
    ("CAST ( {a} AS DOUBLE )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.double())),
    ("TRY_CAST ( {a} AS BIGINT ARRAY )", lambda g, x, a, b, c: x.TryCast(a, data_type=g.dt.array(dtype=g.dt.bigint()))),
    ("CAST ( {a} AS ARRAY ( BIGINT ) )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.array(dtype=g.dt.bigint()))),
    ("CAST ( {a} AS MAP ( BIGINT , DATE ) )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.map_(from_dtype=g.dt.bigint(), to_dtype=g.dt.date()))),
    ("CAST ( {a} AS ROW ( BIGINT , DATE ) )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.row(dtypes=[g.dt.bigint(), g.dt.date()]))),
    ("CAST ( {a} AS TIMESTAMP )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.timestamp(timezone=False))),
    ("CAST ( {a} AS TIMESTAMP WITHOUT TIME ZONE )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.timestamp(timezone=False))),
    ("CAST ( {a} AS TIMESTAMP ( 3 ) WITH TIME ZONE )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.timestamp(precision=3, timezone=True))),
    ("CAST ( {a} AS TIME ( 6 ) WITHOUT TIME ZONE )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.time(precision=6, timezone=False))),
    ("CAST ( {a} AS TIME WITH TIME ZONE )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.time(timezone=True))),
    ("CAST ( {a} AS INTERVAL DAY TO SECOND )", lambda g, x, a, b, c: x.Cast(a, data_type=g.dt.interval(from_interval="DAY", to_interval="SECOND"))),
    ("DOUBLE PRECISION '1'", lambda g, x, a, b, c: x.TypeConstructor("1", "DOUBLE")),
    ("DATE '2001-02-03'", lambda g, x, a, b, c: x.TypeConstructor("2001-02-03", "DATE")),
    ("INTERVAL '1' DAY", lambda g, x, a, b, c: x.Interval("1", "DAY")),
    ("INTERVAL - '1' YEAR TO MONTH", lambda g, x, a, b, c: x.Interval("-1", "YEAR", "MONTH")),
    ("INTERVAL - '-1' HOUR", lambda g, x, a, b, c: x.Interval("1", "HOUR")),
    ("INTERVAL + '1' SECOND", lambda g, x, a, b, c: x.Interval("1", "SECOND")),
    ("INTERVAL '+1' MINUTE", lambda g, x, a, b, c: x.Interval("1", "MINUTE")),
    ("ARRAY [ {a} , {b} ]", lambda g, x, a, b, c: x.Array([a, b])),
    ("ARRAY [ {a} ] [ {b} ]", lambda g, x, a, b, c: x.Subscript(x.Array([a]), b)),
    ("{a} [ {b} ] [ {c} ]", lambda g, x, a, b, c: x.Subscript(x.Subscript(a, b), c)),
    ("{a} . {b}", lambda g, x, a, b, c: x.Field(b.name, a.name)),
    ("{a} . {b} [ {c} ]", lambda g, x, a, b, c: x.Subscript(x.Field(b.name, a.name), c)),
    ("ROW ( {a} , {b} ) . {c}", lambda g, x, a, b, c: x.Field(c.name, x.RowConstructor([a, b]))),
    ("{a} [ {b} ] . {c}", lambda g, x, a, b, c: x.Field(c.name, x.Subscript(a, b))),
    ("- {a} [ {b} ]", lambda g, x, a, b, c: x.Negative(x.Subscript(a, b))),
    ("- {a} . {b}", lambda g, x, a, b, c: x.Negative(x.Field(b.name, a.name))),
    ("{a} - - {b}", lambda g, x, a, b, c: x.Minus(a, x.Negative(b))),
    ("COUNT ( * )", lambda g, x, a, b, c: g.agg.Count(x.Star())),
    ("COUNT ( {a} . * )", lambda g, x, a, b, c: g.agg.Count(x.Star(a.name))),
    ("SUM ( {a} ) FILTER ( WHERE {b} )", lambda g, x, a, b, c: g.agg.Sum(a, filter_=b)),
    ("SUM ( {a} ) RESPECT NULLS OVER ( )", lambda g, x, a, b, c: g.agg.Sum(a, window=g.w.Window(), null_treatment=g.w.NullTreatment.RESPECT)),
    ("SUM ( {a} ) OVER {b}", lambda g, x, a, b, c: g.agg.Sum(a, window=g.w.Window(parent_window=b.name))),
    ("ARRAY_AGG ( {a} ORDER BY {b} , {c} DESC )", lambda g, x, a, b, c: g.agg.ArrayAgg(a, orderby=[g.o.OrderTerm(b), g.o.OrderTerm(c, g.o.OrderType.DESC)])),
    ("LISTAGG ( {a} ) WITHIN GROUP ( ORDER BY {b} )", lambda g, x, a, b, c: g.agg.ListAgg(a, orderby=[g.o.OrderTerm(b)])),
    ("LISTAGG ( {a} , ',' ON OVERFLOW ERROR ) WITHIN GROUP ( ORDER BY {b} )", lambda g, x, a, b, c: g.agg.ListAgg(a, separator=",", orderby=[g.o.OrderTerm(b)])),
    ("LISTAGG ( {a} ON OVERFLOW TRUNCATE '..' WITHOUT COUNT ) WITHIN GROUP ( ORDER BY {b} )", lambda g, x, a, b, c: g.agg.ListAgg(a, overflow_filler=g.agg.OverflowFiller(g.agg.CountIndication.WITHOUT_COUNT, ".."), orderby=[g.o.OrderTerm(b)])),
    ("NORMALIZE ( {a} , NFKC )", lambda g, x, a, b, c: g.fstring.Normalize(a, g.fstring.NormalForm.NFKC)),
    ("CURRENT_TIMESTAMP ( 3 )", lambda g, x, a, b, c: g.fdate.CurrentTimestamp(3)),
    ("LOCALTIME", lambda g, x, a, b, c: g.fdate.LocalTime()),
    ("( SELECT {a} ) + {b}", lambda g, x, a, b, c: x.Add(g.r.SelectQuery([a]), b)),
    ("{a} -> {b}", lambda g, x, a, b, c: None),
    ("TRUE AND FALSE OR NULL", lambda g, x, a, b, c: x.Or(x.And(x.wrap_literal(True), x.wrap_literal(False)), x.NULL)),
    ("1.50", lambda g, x, a, b, c: x.wrap_literal(Decimal("1.50"))),
    (".5", lambda g, x, a, b, c: x.wrap_literal(Decimal(".5"))),
    ("1.", lambda g, x, a, b, c: x.wrap_literal(Decimal("1."))),
    ("007", lambda g, x, a, b, c: x.wrap_literal(7)),
    ("1E2", lambda g, x, a, b, c: x.wrap_literal(100.0)),
    ("1.5E-2", lambda g, x, a, b, c: x.wrap_literal(0.015)),
    (".5E1", lambda g, x, a, b, c: x.wrap_literal(5.0)),
    ("'a''b'", lambda g, x, a, b, c: x.wrap_literal("a'b")),
    ("U&'\\0041b'", lambda g, x, a, b, c: x.wrap_literal("Ab")),
    ("U&'!0041!!' UESCAPE '!'", lambda g, x, a, b, c: x.wrap_literal("A!")),
]


def spelled(tmpl, names, style):
    from .spell import q

    out = []
    for w in tmpl.split(" "):
        if w.startswith("{"):
            out.append(("I", q(names[w[1]])))
        elif w == "NFKC":
            out.append(("W", w))  # normal forms are upper case only
        elif w.replace("_", "").isalpha() and w.isupper():
            out.append(("K", w))
        elif w[0] in "'U" and w[-1] == "'":
            out.append(("S", w))
        elif w[0].isdigit() or w[0] == "." and len(w) > 1:
            out.append(("W", w))
        else:
            out.append(("O", w))
    return join(out, STYLES[style])


def h_sugar(ctx):
    """every alternative spelling, in every style"""
    g = Gen(ctx)
    x = g.x
    tmpl, mk = ctx.pick("spelling", SUGAR)
    names = {k: g.name(k) for k in "abc"}
    a, b, c = (x.Field(names[k]) for k in "abc")
    want = mk(g, x, a, b, c)
    if want is None:
        if bool(names["a"] == names["b"]):
            want = x.Lambda([x.Lambda.Variable(names["a"])], x.Lambda.Variable(names["a"]))
        else:
            want = x.Lambda([x.Lambda.Variable(names["a"])], b)
    style = ctx.pick("style", list(STYLES))
    # within U&'..' letters count, and E of a number is written in upper case only
    reads_as(ctx, g, spelled(tmpl, names, style), want, "alternative spelling")


def h_comments(ctx):
    """comments of any characters and blanks of any kind between any two tokens"""
    g = Gen(ctx)
    x = g.x
    a, b, c = g.name("a"), g.name("b"), g.name("c")
    toks = [q(a), "+", q(b), "*", q(c), "IS", "NOT", "NULL", "AND", "COUNT", "(", "*", ")", "=", "7"]
    want = x.And(x.Not(x.IsNull(x.Add(x.Field(a), x.Multiply(x.Field(b), x.Field(c))))), x.Equal(g.agg.Count(x.Star()), x.wrap_literal(7)))
    at = ctx.choose("at", len(toks) + 1)
    kind = ctx.pick("kind", ["block", "block2", "line", "blank", "empty", "two"])
    if kind == "block":
        ch = ctx.str("ch", 1)
        gap = "/*" + ch + "*/"
    elif kind == "block2":
        s = ctx.str("ch", 2, [(42, 47)])
        ctx.assume(s != "*/")
        gap = "/*" + s + "*/"
    elif kind == "line":
        ch = ctx.str("ch", 1)
        ctx.assume(ch != "\n")
        ctx.assume(ch != "\r")
        gap = "--" + ch + ctx.pick("end", ["\n", "\r\n", "\r"])
    elif kind == "blank":
        gap = ctx.str("ch", 1, [(9, 10), (13, 13), (32, 32)])
    elif kind == "empty":
        gap = "/**/"
    else:
        gap = "/*a*/--b\n/*'*/"
    text_ = ""
    for i, t in enumerate(toks):
        if i == at:
            text_ = text_ + gap
        elif i:
            text_ = text_ + " "
        text_ = text_ + t
    if at == len(toks):
        text_ = text_ + gap
    reads_as(ctx, g, text_, want, "comments and blanks make no difference")


def h_case(ctx):
    """each keyword in upper or lower case on its own"""
    g = Gen(ctx)
    x = g.x
    a, b, c = g.name("a"), g.name("b"), g.name("c")
    A, B, C = x.Field(a), x.Field(b), x.Field(c)
    forms = [
        ([a, "AND", b, "OR", "NOT", c], x.Or(x.And(A, B), x.Not(C))),
        ([a, "IS", "NOT", "DISTINCT", "FROM", b], x.Not(x.DistinctFrom(A, B))),
        ([a, "NOT", "BETWEEN", b, "AND", c], x.Not(x.Between(A, B, C))),
        ([a, "NOT", "LIKE", b, "ESCAPE", c], x.Not(x.Like(A, B, C))),
        ([a, "IN", "(", "NULL", ",", "TRUE", ",", "FALSE", ")"], x.InList(A, [x.NULL, x.wrap_literal(True), x.wrap_literal(False)])),
        (["CASE", a, "WHEN", b, "THEN", c, "ELSE", "NULL", "END"], x.Case([x.When(B, C)], x.Else(x.NULL), A)),
        (["INTERVAL", "'1'", "YEAR", "TO", "MONTH", "+", a], x.Add(x.Interval("1", "YEAR", "MONTH"), A)),
        (["TRY_CAST", "(", a, "AS", "TIMESTAMP", "WITH", "TIME", "ZONE", ")"], x.TryCast(A, data_type=g.dt.timestamp(timezone=True))),
        (["ROW", "(", "CURRENT_DATE", ",", "ARRAY", "[", a, "]", ")"], x.RowConstructor([g.fdate.CurrentDate(), x.Array([A])])),
        (["CAST", "(", a, "AS", "DOUBLE", "PRECISION", ")", "IS", "NULL"], x.IsNull(x.Cast(A, data_type=g.dt.double()))),
    ]
    toks, want = forms[ctx.choose("form", len(forms))]
    out = ""
    for t in toks:
        if isinstance(t, str) and len(t) > 1 and t.replace("_", "").isalpha():
            t = ctx.pick("case", [t, t.lower()])
        elif t is a or t is b or t is c:
            t = q(t)
        out = out + " " + t
    reads_as(ctx, g, out, want, "letter case of keywords makes no difference")


def h_long(ctx):
    """many operators in a row, and long lists"""
    g = Gen(ctx)
    sizes = list(range(1, 26)) if ctx.thorough else [4, 5, 6, 8, 9, 16, 17, 33]
    n = ctx.pick("size", sizes)
    form = ctx.pick("form", sorted(INFIX) + ["bool", "mixed", "between", "compare"])
    cycle = {"bool": ["OR", "AND"], "mixed": ["-", "*", "+", "/", "%", "||"], "between": ["AND", "BETWEEN", "OR"], "compare": ["=", "AND", "<", "OR"]}.get(form, [form])
    at = ctx.pick("at", sorted({0, n // 2, n}))
    pre = ctx.pick("pre", ["", "NOT", "-"])
    parts = []
    for i in range(n + 1):
        if i == at:
            if pre:
                parts.append(pre)
            parts.append(operand(ctx, g, "f"))
        else:
            parts.append((I("c%d" % i), g.x.Field("c%d" % i)))
        if i < n:
            parts += INFIX[cycle[i % len(cycle)]]
    check_flat(ctx, g, parts, "plain")


def h_long_lists(ctx):
    g = Gen(ctx)
    kind = ctx.pick("kind", ["list", "func", "chain"])
    sizes = lists(ctx) if ctx.thorough else [1, 2, 3, 4, 5, 8, 9, 11, 16, 17, 33, 65]
    e = expr_place(g, {"list": EXPR_LISTS, "func": FUNC_LISTS, "chain": EXPR_CHAINS}[kind], sizes=sizes if kind != "chain" else deep(ctx) if ctx.thorough else [1, 2, 3, 5, 9])
    reads_as(ctx, g, text(g, e, STYLES[ctx.pick("style", list(STYLES)) if ctx.thorough else "plain"]), e)


HARNESSES = [
    Harness("two_operators", h_two, "all pairs of 28 operators and predicates between 3 symbolic columns, a NOT, - or + before any of them (thorough: in 4 styles)"),
    Harness("three_operators", h_three, "all triples of 7 (thorough 28) operators, NOT and - present or not"),
    Harness("between", h_between, "all sequences of 3 (thorough 4) of BETWEEN, NOT BETWEEN, AND, OR, = with NOT before any operand", {"n": 3}, {"n": 4}),
    Harness("parentheses", h_parens, "three operators of 5 (thorough 28), parentheses (once or twice) around any run of operands, with or without - or NOT before them"),
    Harness("signs", h_unary, "0..3 signs before a name or number 0..9 after 6 operators"),
    Harness("kinds", h_kinds, "every child position of 43 kinds x 10 (thorough all) kinds, in 2 (thorough 6) styles of spelling"),
    Harness("styles", h_styles, "every expression, function and aggregate with every optional part in 3..6 styles of spelling"),
    Harness("special", h_special, "every expression, function and aggregate with each of 15 special values at every position in 1 (thorough 6) styles"),
    Harness("intervals", h_interval, "INTERVAL with or without sign, 0..3 (thorough 0..5) arbitrary characters, alone or below -, BETWEEN"),
    Harness("deep", h_deep, "three levels of 8 (thorough 13) kinds"),
    Harness("spellings", h_sugar, "%d alternative spellings x 6 styles, symbolic names" % len(SUGAR)),
    Harness("comments", h_comments, "comments of any one character or any two of *+,-./, line comments with 3 line ends, any blank, at any of 16 places"),
    Harness("case", h_case, "10 forms with every keyword in upper or lower case independently"),
    Harness("long", h_long, "4..33 (thorough 1..25) operators in a row: each of 28 alone and 4 mixtures, NOT or - before one of them"),
    Harness("long_lists", h_long_lists, "6 lists and 7 functions of 1..65 (thorough 513) entries, 31 kinds of nesting up to 9 (25) levels, one name symbolic"),
]
