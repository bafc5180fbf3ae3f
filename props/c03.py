"""C03: number literals keep their exact value and type."""
from decimal import Decimal

from sx.api import Harness
from sx.core import SymStr, zand, zor

from .common import deep_eq, leaf_eq, modules, render
from .gen import Gen

DIG = [(48, 57)]
ASSUMPTIONS = [
    "Integers lie strictly inside the BIGINT range; -2^31 and -2^63 themselves are excluded (SQL has no negative literals, -2147483648 is a negated BIGINT).",
    "Decimals have at most 38 digits, floats at most 15 significant digits and are finite.",
    "Python's shortest float representation is modelled for values given with at most 15 significant digits (they print as themselves).",
]


def dec(text):
    if type(text) is SymStr:
        from sx.numeric import sym_decimal

        return sym_decimal(text)
    return Decimal(text)


def flt(text):
    if type(text) is SymStr:
        from sx.numeric import sym_float

        return sym_float(text)
    return float(text)


def both(ctx, g, node):
    """read the printed literal; the sign may be read as an operator"""
    from treeno.builder.convert import expression_from_sql

    sql = node.sql(g.T.base.PrintOptions())
    ctx.sample(lambda: str(sql))
    back = expression_from_sql(sql)
    return sql, back


def signed(g, e):
    """(negated?, literal)"""
    n = False
    while type(e) is g.x.Negative:
        n, e = not n, e.value
    return n, e


def has_type(ctx, dt, name, label, **params):
    ok = [leaf_eq(dt.type_name, name)]
    for k, v in params.items():
        ok.append(k in dt.parameters and (dt.parameters[k] == v))
    ctx.check(zand(ok), label, lambda: "%s is not %s %s" % (dt, name, params))


def h_int(ctx):
    g = Gen(ctx)
    n = ctx.int("n", -(2**63) + 1, 2**63 - 1, 5)
    ctx.assume(n != -(2**31))
    node = g.x.wrap_literal(n)
    small = bool(zand([n >= -(2**31), n <= 2**31 - 1]))
    has_type(ctx, node.data_type, "INTEGER" if small else "BIGINT", "type of the integer")
    sql, back = both(ctx, g, node)
    neg, lit = signed(g, back)
    ctx.check(type(lit) is g.x.Literal, "literal", lambda: render(back))
    v = -lit.value if neg else lit.value
    ctx.check(leaf_eq(v, n), "same value", lambda: "%s reads as %s" % (sql, render(back)))
    has_type(ctx, back.data_type, "INTEGER" if small else "BIGINT", "type of the integer read back")


def h_int_text(ctx):
    g = Gen(ctx)
    from treeno.builder.convert import expression_from_sql

    n = 1 + ctx.choose("len", 19)
    t = ctx.str("d", n, DIG)
    val = _int(t)
    ctx.assume(val <= 2**63 - 1)
    e = expression_from_sql(t)
    ctx.sample(lambda: str(t))
    ctx.check(type(e) is g.x.Literal and leaf_eq(e.value, val), "value of the digits", lambda: "%s reads as %s" % (t, render(e)))
    has_type(ctx, e.data_type, "INTEGER" if bool(val <= 2**31 - 1) else "BIGINT", "type of the integer")


def _int(t):
    if type(t) is SymStr:
        from sx.core import str_to_int

        return str_to_int(t)
    return int(t)


def stripped(t):
    """the digits without leading zeros"""
    i = 0
    while i < len(t) and bool(t[i] == "0"):
        i += 1
    return t[i:]


def h_decimal(ctx):
    g = Gen(ctx)
    k = 1 + ctx.choose("digits", ctx.params["k"])
    e = ctx.choose("exp", 2 * ctx.params["e"] + 1) - ctx.params["e"]
    t = ctx.str("d", k, DIG)
    neg = ctx.flag("neg")
    v = dec(("-" if neg else "") + t + "E%d" % e)
    node = g.x.wrap_literal(v)
    # what the value needs: digits before the point (without leading zeros) and after it
    if e >= 0:
        digs = stripped(t)
        zero = len(digs) == 0
        ip, sc = (0 if zero else len(digs) + e), 0
    else:
        t2 = t.rjust(-e, "0") if isinstance(t, str) and type(t) is str else ("0" * max(0, -e - k) + t)
        ip, sc = len(stripped(t2[: len(t2) + e])), -e
    has_type(ctx, node.data_type, "DECIMAL", "type of the decimal", precision=max(ip + sc, 1), scale=sc)
    sql, back = both(ctx, g, node)
    n, lit = signed(g, back)
    ctx.check(type(lit) is g.x.Literal and type(lit.value) is not float, "decimal literal", lambda: "%s reads as %s" % (sql, render(back)))
    got = lit.value.copy_negate() if n else lit.value
    # a decimal with a positive exponent has the same value and type as the one written out
    want = v if e <= 0 else dec(("-" if neg else "") + stripped_or_zero(t) + ("0" * e if len(stripped(t)) else ""))
    ctx.check(leaf_eq(got, want), "same value and scale", lambda: "%s printed as %s reads as %s" % (v, sql, render(back)))
    has_type(ctx, back.data_type, "DECIMAL", "type of the decimal read back", precision=max(ip + sc, 1), scale=sc)


def stripped_or_zero(t):
    s = stripped(t)
    return s if len(s) else "0"


def h_decimal_text(ctx):
    g = Gen(ctx)
    from treeno.builder.convert import expression_from_sql

    a = ctx.choose("int", ctx.params["k"] + 1)
    b = ctx.choose("frac", ctx.params["k"] + 1)
    if a + b == 0:
        ctx.assume(False)
    A, B = ctx.str("a", a, DIG), ctx.str("b", b, DIG)
    sign = ctx.pick("sign", ["", "-"])
    t = sign + A + "." + B
    e = expression_from_sql(t)
    ctx.sample(lambda: str(t))
    n, lit = signed(g, e)
    ctx.check(type(lit) is g.x.Literal, "literal", lambda: render(e))
    want = dec(sign + (A if a else "0") + ("." + B if b else ""))
    got = lit.value.copy_negate() if n else lit.value
    ctx.check(leaf_eq(got, want), "value of the digits", lambda: "%s reads as %s" % (t, render(e)))
    has_type(ctx, e.data_type, "DECIMAL", "type of the decimal", precision=max(len(stripped(A)) + b, 1), scale=b)


def h_double_text(ctx):
    g = Gen(ctx)
    from treeno.builder.convert import expression_from_sql

    a = ctx.choose("int", 4)
    b = ctx.choose("frac", 4)
    dot = True if b else ctx.flag("dot")
    if a + b == 0:
        ctx.assume(False)
    A, B = ctx.str("a", a, DIG), ctx.str("b", b, DIG)
    sign = ctx.pick("sign", ["", "-"])
    es = ctx.pick("esign", ["", "+", "-"])
    X = ctx.str("x", 1 + ctx.choose("elen", 2), DIG)
    t = sign + A + ("." if dot else "") + B + "E" + es + X
    e = expression_from_sql(t)
    ctx.sample(lambda: str(t))
    n, lit = signed(g, e)
    ctx.check(type(lit) is g.x.Literal, "literal", lambda: render(e))
    want = flt(t)
    got = -lit.value if n else lit.value
    ctx.check(leaf_eq(got, want), "value of the digits", lambda: "%s reads as %s" % (t, render(e)))
    has_type(ctx, e.data_type, "DOUBLE", "type of the double")


def h_float(ctx):
    """floats whose shortest representation has an exponent (the others print as decimals, see known-findings.json)"""
    g = Gen(ctx)
    a = 1 + ctx.choose("digits", ctx.params["f"])
    A = ctx.str("a", a, DIG)
    ctx.assume(A[0] != "0")
    e = ctx.pick("exp", [17, 30, 200, -20, -30, -200])
    sign = ctx.pick("sign", ["", "-"])
    v = flt(sign + A + "E%d" % e)
    node = g.x.wrap_literal(v)
    has_type(ctx, node.data_type, "DOUBLE", "type of the double")
    sql, back = both(ctx, g, node)
    n, lit = signed(g, back)
    got = -lit.value if n else lit.value
    ctx.check(type(lit) is g.x.Literal and leaf_eq(got, v), "same value", lambda: "%s printed as %s reads as %s" % (v, sql, render(back)))
    has_type(ctx, back.data_type, "DOUBLE", "type of the double read back")


def h_other(ctx):
    g = Gen(ctx)
    from treeno.builder.convert import expression_from_sql

    v = ctx.pick("v", [True, False, None])
    node = g.x.NULL if v is None else g.x.wrap_literal(v)
    has_type(ctx, node.data_type, "UNKNOWN" if v is None else "BOOLEAN", "type")
    sql, back = both(ctx, g, node)
    ctx.check(deep_eq(node, back) and back.value is v, "same value", lambda: render(back))
    case = ctx.pick("case", ["lower", "upper"])
    back = expression_from_sql(getattr({True: "true", False: "false", None: "null"}[v], case)())
    ctx.check(deep_eq(node, back) and back.value is v, "value of the keyword", lambda: render(back))


def h_in_expr(ctx):
    """numbers next to operators: signs, points and exponents must not merge with their surroundings"""
    g = Gen(ctx)
    x = g.x
    from .gen import norm_sugar
    from treeno.builder.convert import expression_from_sql

    def num(l):
        kind = ctx.pick(l, ["int", "negint", "dec", "negdec", "dbl"])
        if kind == "int":
            return x.wrap_literal(ctx.int("n", 0, 9))
        if kind == "negint":
            return x.wrap_literal(ctx.int("n", -9, -1))
        if kind == "dbl":
            return x.wrap_literal(flt(ctx.str("d", 1, [(49, 57)]) + "E%d" % ctx.pick("e", [20, -20])))
        return x.wrap_literal(dec(("-" if kind == "negdec" else "") + ctx.str("d", 1, DIG) + "." + ctx.str("d", 1, DIG)))

    a = num("left")
    op = ctx.pick("op", ["Add", "Minus", "Multiply", "Divide", "Modulus", "Equal", "Subscript", "Negative", "Positive", "Between", "NegNeg", "Deref"])
    if op in ("Negative", "Positive"):
        node = getattr(x, op)(a)
    elif op == "NegNeg":
        node = x.Negative(x.Negative(a))
    elif op == "Between":
        node = x.Between(x.Field("f"), a, num("right"))
    elif op == "Deref":
        node = x.Field("f", table=a)
    else:
        node = getattr(x, op)(a, num("right"))
    sql = node.sql(g.T.base.PrintOptions())
    ctx.sample(lambda: str(sql))
    back = expression_from_sql(sql)
    ctx.check(deep_eq(node, back, norm=norm_sugar(g)), "same expression", lambda: "%s printed as %s reads as %s" % (render(node), sql, render(back)))


HARNESSES = [
    Harness("integer", h_int, "all integers of 64 bits except -2^31 and -2^63"),
    Harness("integer_text", h_int_text, "all spellings of 1..19 digits within BIGINT"),
    Harness("decimal", h_decimal, "1..6 (thorough 12) symbolic digits, exponents -8..4 (-12..12), both signs", {"k": 6, "e": 6}, {"k": 10, "e": 12}),
    Harness("decimal_text", h_decimal_text, "0..5 (9) digits before and after the point, both signs", {"k": 5}, {"k": 9}),
    Harness("double_text", h_double_text, "0..3 digits before and after the point, 1..2 exponent digits, all signs"),
    Harness("float", h_float, "1..5 (12) significant digits, 6 exponents, both signs", {"f": 5}, {"f": 12}),
    Harness("other_literals", h_other, "TRUE, FALSE, NULL"),
    Harness("numbers_in_expressions", h_in_expr, "all pairs of 5 kinds of numbers around 12 operators, symbolic digits"),
]
