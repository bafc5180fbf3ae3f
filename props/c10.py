"""C10: the common type of two types is a consistent least upper bound."""
from sx.api import Harness

from .c09 import PLAIN, SCALAR, nested, scalar
from .common import deep_eq, leaf_eq, params_eq, render, zand_all
from .gen import Gen
from .long import lists as long_sizes

INT = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "BIGINT": 19}
FLOAT = ["REAL", "DOUBLE"]
NUM = list(INT) + FLOAT + ["DECIMAL"]


def mx(a, b):
    return a if a >= b else b


def mn(a, b):
    return a if a <= b else b


def lub(a, b):
    """The expected common supertype as (name, parameters), or None when there is none (written from the rules of Trino's
    type coercion, independently of conversions.py)."""
    na, nb = a.type_name, b.type_name
    pa, pb = a.parameters, b.parameters
    if na == "UNKNOWN":
        return nb, pb
    if nb == "UNKNOWN":
        return na, pa
    if na in NUM and nb in NUM:
        for f in ("DOUBLE", "REAL"):
            if f in (na, nb):
                return f, {}
        if "DECIMAL" in (na, nb):
            (p1, s1), (p2, s2) = [(INT[n], 0) if n in INT else (p["precision"], p["scale"]) for n, p in ((na, pa), (nb, pb))]
            scale = mx(s1, s2)
            return "DECIMAL", {"precision": mn(38, mx(p1 - s1, p2 - s2) + scale), "scale": scale}
        return (na if INT[na] >= INT[nb] else nb), {}
    if na in ("CHAR", "VARCHAR") and nb in ("CHAR", "VARCHAR"):
        if na == nb == "VARCHAR":
            if "max_chars" in pa and "max_chars" in pb:
                return "VARCHAR", {"max_chars": mx(pa["max_chars"], pb["max_chars"])}
            return "VARCHAR", {}
        la, lb = [p["max_chars"] if n == "CHAR" else mn(65536, p.get("max_chars", 65536)) for n, p in ((na, pa), (nb, pb))]
        return "CHAR", {"max_chars": mx(la, lb)}
    if {na, nb} == {"HYPERLOGLOG", "P4HYPERLOGLOG"}:
        return "HYPERLOGLOG", {}
    if na == nb and na in ("TIME", "TIMESTAMP"):
        out = {"timezone": pa["timezone"] or pb["timezone"]}
        if "precision" in pa and "precision" in pb:
            out["precision"] = mx(pa["precision"], pb["precision"])
        elif "precision" in pa and pa is pb:
            out["precision"] = pa["precision"]
        return na, out
    if {na, nb} in ({"DATE", "TIMESTAMP"}, {"TIME", "TIMESTAMP"}):
        return "TIMESTAMP", pa if na == "TIMESTAMP" else pb
    if na == nb:
        if na == "ARRAY":
            e = lub(pa["dtype"], pb["dtype"])
            return e and ("ARRAY", {"dtype": e})
        if na == "MAP":
            k, v = lub(pa["from_dtype"], pb["from_dtype"]), lub(pa["to_dtype"], pb["to_dtype"])
            return k and v and ("MAP", {"from_dtype": k, "to_dtype": v})
        if na == "ROW":
            if len(pa["dtypes"]) != len(pb["dtypes"]):
                return None
            es = [lub(x, y) for x, y in zip(pa["dtypes"], pb["dtypes"])]
            return None if any(e is None for e in es) else ("ROW", {"dtypes": es})
        eq = params_eq(pa, pb)
        if eq if isinstance(eq, bool) else bool(eq):
            return na, pa
    return None


def same(t, want):
    """the DataType t is the expected (name, parameters)"""
    if isinstance(want, tuple):
        name, params = want
        if t.type_name != name or set(t.parameters) != set(params):
            return False
        return zand_all([same(t.parameters[k], params[k]) for k in params])
    if isinstance(want, list):
        return isinstance(t, list) and len(t) == len(want) and zand_all([same(x, y) for x, y in zip(t, want)])
    return deep_eq(t, want)


def call(f, a, b):
    try:
        return f(a, b)
    except Exception:
        return None


def has_unknown(t):
    if t is None or t.type_name == "UNKNOWN":
        return True
    return any(has_unknown(x) for v in t.parameters.values() for x in (v if isinstance(v, list) else [v]) if hasattr(x, "type_name"))


def check_pair(ctx, a, b):
    from treeno.datatypes.conversions import common_supertype

    import copy

    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    want = lub(a, b)
    ab, ba = call(common_supertype, a, b), call(common_supertype, b, a)
    if want is None:
        ctx.check(has_unknown(ab) and has_unknown(ba), "no common supertype is made up", lambda: "%r and %r: %r, other way %r" % (a, b, ab, ba))
    else:
        ctx.check(ab is not None and same(ab, want), "least upper bound", lambda: "%r and %r give %r, expected %s" % (a, b, ab, want))
        ctx.check(ba is not None and same(ba, want), "the order of the two types does not matter", lambda: "%r and %r give %r, the other way %r" % (a, b, ab, ba))
    ctx.check(zand_all([deep_eq(a, a0), deep_eq(b, b0)]), "the types are left unchanged", lambda: "%r %r" % (a, b))
    return want, ab


def h_scalars(ctx):
    g = Gen(ctx)
    a, _, _ = scalar(g, ctx.pick("a", PLAIN + SCALAR))
    b, _, _ = scalar(g, ctx.pick("b", PLAIN + SCALAR))
    check_pair(ctx, a, b)


INNER = ["UNKNOWN", "BIGINT", "TINYINT", "DOUBLE", "BOOLEAN", "DATE", "decimal", "varchar", "varchar_n", "char_n", "timestamp_ptz", "timestamp_p", "time_tz", "day_second"]
FEW = ["UNKNOWN", "BIGINT", "BOOLEAN", "decimal_p", "varchar_n", "timestamp_ptz"]
NESTS = ["array", "map_k", "map_v", "row1", "row2", "row3", "qdigest"]


def h_nested(ctx):
    g = Gen(ctx)
    b1, b2 = [scalar(g, ctx.pick(n, INNER))[0] for n in ("a", "b")]
    nest = ctx.pick("nest", NESTS)
    n2 = ctx.pick("nest2", [nest] + (["row1", "array"] if nest not in ("row1", "array") else []))
    others = lambda: g.dt.integer()
    check_pair(ctx, nested(g, nest, b1, others), nested(g, n2, b2, lambda: g.dt.smallint()))


def h_deep(ctx):
    g = Gen(ctx)
    b1, b2 = [scalar(g, ctx.pick(n, FEW))[0] for n in ("a", "b")]
    for i in range(2 if not ctx.thorough else 3):
        nest = ctx.pick("nest", NESTS[:5])
        b1, b2 = nested(g, nest, b1, lambda: g.dt.integer()), nested(g, nest, b2, lambda: g.dt.smallint())
    check_pair(ctx, b1, b2)


def h_mixed(ctx):
    """composite types with scalars and with each other"""
    g = Gen(ctx)
    a = nested(g, ctx.pick("nest", NESTS), g.dt.bigint(), lambda: g.dt.date())
    if ctx.flag("both"):
        b = nested(g, ctx.pick("nest2", NESTS), g.dt.bigint(), lambda: g.dt.date())
    else:
        b = scalar(g, ctx.pick("b", PLAIN + ["decimal", "varchar_n", "char_n", "time_p", "timestamp_ptz", "day_second"]))[0]
    check_pair(ctx, a, b)


def h_triples(ctx):
    """associativity and absorption"""
    from treeno.datatypes.conversions import common_supertype

    g = Gen(ctx)
    fam = ctx.pick("family", ["integral", "float", "decimal", "varchar", "char", "timestamp", "time", "unknown"])
    members = {
        "integral": list(INT),
        "float": list(INT) + FLOAT,
        "decimal": ["decimal", "BIGINT", "TINYINT"],
        "varchar": ["varchar", "varchar_n"],
        "char": ["char_n", "varchar_n", "varchar"],
        "timestamp": ["timestamp_p", "timestamp_ptz", "timestamp", "DATE"],
        "time": ["time_p", "time_ptz", "time"],
        "unknown": ["UNKNOWN", "BOOLEAN", "DATE"],
    }[fam]
    ts = [scalar(g, ctx.pick("t", members))[0] for _ in range(3)]
    a, b, c = ts
    if fam == "unknown":
        ctx.assume(len({t.type_name for t in ts} - {"UNKNOWN"}) <= 1)
    ab, bc = common_supertype(a, b), common_supertype(b, c)
    ctx.check(deep_eq(common_supertype(a, ab), ab), "the common type absorbs its operands", lambda: "%r %r %r" % (a, b, ab))
    if fam == "decimal":
        # beyond 38 digits the type system cannot hold every value
        need = mx(mx(_int(a), _int(b)), _int(c)) + mx(mx(_scale(a), _scale(b)), _scale(c))
        ctx.assume(need <= 38)
    left, right = common_supertype(ab, c), common_supertype(a, bc)
    ctx.check(deep_eq(left, right), "associative", lambda: "%r, %r, %r: %r or %r" % (a, b, c, left, right))


def _scale(t):
    return t.parameters["scale"] if t.type_name == "DECIMAL" else 0


def _int(t):
    return t.parameters["precision"] - t.parameters["scale"] if t.type_name == "DECIMAL" else INT[t.type_name]


def h_fits(ctx):
    """every value of both decimals fits the common type"""
    from treeno.datatypes.conversions import common_supertype

    g = Gen(ctx)
    a, b = [scalar(g, ctx.pick(n, ["decimal", "BIGINT", "INTEGER", "SMALLINT", "TINYINT"]))[0] for n in ("a", "b")]
    ctx.assume("DECIMAL" in (a.type_name, b.type_name))
    r = common_supertype(a, b)
    p, s = r.parameters["precision"], r.parameters["scale"]
    for t in (a, b):
        ctx.check(_and(s >= _scale(t), _or(p - s >= _int(t), p == 38)), "digits fit", lambda: "%r and %r give %r" % (a, b, r))
    ctx.check(_and(p <= 38, s <= p), "legal type", lambda: repr(r))


def _and(a, b):
    return a & b if not (isinstance(a, bool) and isinstance(b, bool)) else a and b


def _or(a, b):
    return a | b if not (isinstance(a, bool) and isinstance(b, bool)) else a or b


def h_arithmetic(ctx):
    from treeno.datatypes.conversions import get_arithmetic_type

    g = Gen(ctx)
    kinds = list(INT) + FLOAT + ["decimal", "UNKNOWN", "BOOLEAN", "DATE", "varchar_n", "char_n", "timestamp_p", "time_p", "day_second", "year_month"]
    a, b = [scalar(g, ctx.pick(n, kinds))[0] for n in ("a", "b")]
    if a.type_name == b.type_name or (a.type_name in NUM and b.type_name in NUM):
        want = lub(a, b)
    else:
        want = ("UNKNOWN", {})
    ab, ba = call(get_arithmetic_type, a, b), call(get_arithmetic_type, b, a)
    if want is None:
        ctx.check(has_unknown(ab) and has_unknown(ba), "no type is made up")
    else:
        ctx.check(ab is not None and same(ab, want), "common numeric type", lambda: "%r and %r give %r, expected %s" % (a, b, ab, want))
        ctx.check(ba is not None and same(ba, want), "whatever the order", lambda: "%r and %r give %r, expected %s" % (b, a, ba, want))


def h_long(ctx):
    """rows of many types, many levels"""
    g = Gen(ctx)
    b = g.dt
    what = ctx.pick("what", ["row", "deep_array", "deep_row", "deep_map", "lengths"])
    sizes = long_sizes(ctx) if ctx.thorough else [1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65]
    n = ctx.pick("size", sizes if what in ("row", "lengths") else [n for n in sizes if n <= 17])
    p, q_ = ctx.int("p", 1, 100), ctx.int("q", 1, 100)
    one, two = b.varchar(max_chars=p), b.varchar(max_chars=q_)
    if what == "row":
        at = ctx.pick("at", sorted({0, n // 2, n - 1}))
        bad = ctx.pick("other", ["fits", "unrelated"])
        x, y = [b.bigint()] * n, [b.double()] * n
        x[at], y[at] = one, two if bad == "fits" else b.date()
        s, t = b.row(dtypes=x), b.row(dtypes=y)
    elif what == "lengths":
        s, t = b.row(dtypes=[b.bigint()] * n), b.row(dtypes=[b.bigint()] * (n + 1))
    else:
        s, t = one, two
        for i in range(n):
            if what == "deep_array":
                s, t = b.array(dtype=s), b.array(dtype=t)
            elif what == "deep_row":
                s, t = b.row(dtypes=[b.integer(), s]), b.row(dtypes=[b.smallint(), t])
            else:
                s, t = b.map_(from_dtype=b.date(), to_dtype=s), b.map_(from_dtype=b.date(), to_dtype=t)
    check_pair(ctx, s, t)


HARNESSES = [
    Harness("scalars", h_scalars, "all pairs of 33 scalar types; precision 1..38, scale 0..precision, length 1..2^31-1, time precision 0..12 symbolic on both sides"),
    Harness("nested", h_nested, "7 composite types over all pairs of 14 element types, equal and different nesting"),
    Harness("deep", h_deep, "5 x 5 (thorough 5 x 5 x 5) nestings over all pairs of 6 element types"),
    Harness("mixed", h_mixed, "7 composite types against 7 composite and 22 scalar types"),
    Harness("triples", h_triples, "triples within 8 families of types, all parameters symbolic"),
    Harness("fits", h_fits, "decimals and integers, all precisions and scales symbolic"),
    Harness("arithmetic", h_arithmetic, "all pairs of 17 types"),
    Harness("long", h_long, "rows of 1..65 (thorough 513) types that differ in one place or in number; 1..17 (134) levels of arrays, rows, maps; symbolic lengths"),
]
