"""Generation of SQL trees.  Structure comes from ctx.choose (every alternative is explored), leaves are symbolic.

A tree is grown along one spine: each node has one "deep" child, generated with depth-1, and the remaining children are
plain leaves; so every (kind, position, child kind) combination up to the depth is covered."""
from decimal import Decimal

from .common import modules

AZ = [(97, 122)]


class Kind:
    def __init__(self, name, slots, build, tags=()):
        self.name, self.slots, self.build, self.tags = name, slots, build, set(tags)


class Gen:
    def __init__(self, ctx):
        self.ctx = ctx
        self.small = False  # one variant per relation kind where the kind itself is what is varied
        self.T = modules()
        self.x = self.T.expression
        self.r = self.T.relation
        self.w = self.T.window
        self.o = self.T.orderby
        self.g = self.T.groupby
        self.dt = self.T.datatypes.builder
        import treeno.functions.aggregate as agg
        import treeno.functions.common as fcommon
        import treeno.functions.conditional as cond
        import treeno.functions.datetime as fdate
        import treeno.functions.math as fmath
        import treeno.functions.session as fsession
        import treeno.functions.string as fstring

        self.agg, self.fcommon, self.cond, self.fdate, self.fstring, self.fmath, self.fsession = agg, fcommon, cond, fdate, fstring, fmath, fsession

    # ------------------------------------------------------------------ leaves
    def name(self, label="id"):
        return self.ctx.name(label)

    def field(self):
        return self.x.Field(self.ctx.name("f"))

    def plain(self, kind):
        if kind.name == "Deref":
            return self.x.Subscript(self.field(), self.field())
        return self.field()

    def lit_int(self, lo=0, hi=300):
        return self.x.wrap_literal(self.ctx.int("n", lo, hi, 7))

    def lit_str(self, n=1):
        return self.x.wrap_literal(self.ctx.str("s", n, AZ))

    def select(self, from_=False):
        return self.r.SelectQuery([self.field()], from_=self.r.Table(self.name("t")) if from_ else None)


def _b(cls):
    return lambda g, k: getattr(g.x, cls)(*k)


def _cast(cls):
    def f(g, k):
        t = g.ctx.pick("type", [g.dt.bigint, g.dt.varchar, lambda: g.dt.decimal(precision=5, scale=2), lambda: g.dt.array(dtype=g.dt.double())])()
        return getattr(g.x, cls)(k[0], data_type=t)

    return f


def _case(g, k):
    return g.x.Case(branches=[g.x.When(k[0], k[1])], else_=g.x.Else(k[2]))


def _case2(g, k):
    return g.x.Case(branches=[g.x.When(k[1], k[2]), g.x.When(g.field(), g.field())], value=k[0])


def _lambda1(g, k):
    return g.x.Lambda([g.x.Lambda.Variable("zz")], k[0])


def _lambda2(g, k):
    return g.x.Lambda([g.x.Lambda.Variable("zz"), g.x.Lambda.Variable("yy")], k[0])


def _sum(g, k):
    return g.agg.Sum(k[0], filter_=k[1], orderby=[g.o.OrderTerm(k[2])], window=g.w.Window(partitions=[k[3]], orderby=[g.o.OrderTerm(k[4], g.o.OrderType.DESC)]))


def _listagg(g, k):
    return g.agg.ListAgg(k[0], separator="-", orderby=[g.o.OrderTerm(k[1])])


# every kind of expression with the number of child expressions it has
KINDS = [
    Kind("Positive", 1, _b("Positive"), ["op", "unary"]),
    Kind("Negative", 1, _b("Negative"), ["op", "unary"]),
    Kind("Add", 2, _b("Add"), ["op"]),
    Kind("Minus", 2, _b("Minus"), ["op", "core"]),
    Kind("Multiply", 2, _b("Multiply"), ["op", "core"]),
    Kind("Divide", 2, _b("Divide"), ["op"]),
    Kind("Modulus", 2, _b("Modulus"), ["op"]),
    Kind("Equal", 2, _b("Equal"), ["op", "pred", "core"]),
    Kind("NotEqual", 2, _b("NotEqual"), ["op", "pred"]),
    Kind("GreaterThan", 2, _b("GreaterThan"), ["op", "pred"]),
    Kind("GreaterThanOrEqual", 2, _b("GreaterThanOrEqual"), ["op", "pred"]),
    Kind("LessThan", 2, _b("LessThan"), ["op", "pred"]),
    Kind("LessThanOrEqual", 2, _b("LessThanOrEqual"), ["op", "pred"]),
    Kind("And", 2, _b("And"), ["op", "core"]),
    Kind("Or", 2, _b("Or"), ["op", "core"]),
    Kind("Not", 1, _b("Not"), ["op", "core"]),
    Kind("IsNull", 1, _b("IsNull"), ["op", "pred", "core"]),
    Kind("DistinctFrom", 2, _b("DistinctFrom"), ["op", "pred"]),
    Kind("Between", 3, _b("Between"), ["op", "pred", "core"]),
    Kind("Like", 2, _b("Like"), ["op", "pred"]),
    Kind("LikeEscape", 3, _b("Like"), ["op", "pred"]),
    Kind("InList", 3, lambda g, k: g.x.InList(k[0], [k[1], k[2]]), ["pred", "core"]),
    Kind("InList1", 2, lambda g, k: g.x.InList(k[0], [k[1]]), ["pred"]),
    Kind("InQuery", 1, lambda g, k: g.x.InQuery(k[0], g.select(True)), ["pred", "core"]),
    Kind("InQueryBody", 1, lambda g, k: g.x.InQuery(g.field(), g.r.SelectQuery([k[0]])), ["pred"]),
    Kind("Array", 2, lambda g, k: g.x.Array([k[0], k[1]]), []),
    Kind("Row", 2, lambda g, k: g.x.RowConstructor([k[0], k[1]]), ["core"]),
    Kind("Row1", 1, lambda g, k: g.x.RowConstructor([k[0]]), []),
    Kind("Cast", 1, _cast("Cast"), []),
    Kind("TryCast", 1, _cast("TryCast"), []),
    Kind("Subscript", 2, _b("Subscript"), ["op", "core"]),
    Kind("Case", 3, _case, []),
    Kind("CaseValue", 3, _case2, []),
    Kind("Lambda1", 1, _lambda1, ["lambda"]),
    Kind("Lambda2", 1, _lambda2, ["lambda"]),
    Kind("Deref", 1, lambda g, k: g.x.Field(g.name("fld"), table=k[0]), ["deref"]),
    Kind("Concat", 2, lambda g, k: g.fcommon.Concatenate(values=[k[0], k[1]]), []),
    Kind("Coalesce", 2, lambda g, k: g.cond.Coalesce(values=[k[0], k[1]]), []),
    Kind("If", 3, lambda g, k: g.cond.If(k[0], k[1], k[2]), []),
    Kind("Lower", 1, lambda g, k: g.fstring.Lower(k[0]), []),
    Kind("Normalize", 1, lambda g, k: g.fstring.Normalize(k[0]), []),
    Kind("Sum", 5, _sum, []),
    Kind("ListAgg", 2, _listagg, []),
    Kind("Subquery", 1, lambda g, k: g.r.SelectQuery([k[0]]), ["subquery"]),
]
LEAVES = [
    Kind("Field", 0, lambda g, k: g.field(), ["leaf"]),
    Kind("QField", 0, lambda g, k: g.x.Field(g.name("f"), table=g.name("t")), ["leaf"]),
    Kind("Int", 0, lambda g, k: g.lit_int(), ["leaf", "num"]),
    Kind("NegInt", 0, lambda g, k: g.lit_int(-300, -1), ["leaf", "num"]),
    Kind("Dec", 0, lambda g, k: g.x.wrap_literal(Decimal("1.5")), ["leaf", "num"]),
    Kind("NegDec", 0, lambda g, k: g.x.wrap_literal(Decimal("-0.25")), ["leaf", "num"]),
    Kind("Double", 0, lambda g, k: g.x.wrap_literal(1e20), ["leaf", "num"]),
    Kind("NegDouble", 0, lambda g, k: g.x.wrap_literal(-2.5e-7), ["leaf", "num"]),
    Kind("Str", 0, lambda g, k: g.lit_str(2), ["leaf"]),
    Kind("Bool", 0, lambda g, k: g.x.wrap_literal(g.ctx.flag("b")), ["leaf"]),
    Kind("Null", 0, lambda g, k: g.x.NULL, ["leaf"]),
    Kind("TypeCons", 0, lambda g, k: g.x.TypeConstructor("2001-02-03", g.ctx.pick("tc", ["DATE", "TIMESTAMP"])), ["leaf"]),
    Kind("Interval", 0, lambda g, k: g.x.Interval(g.ctx.str("iv", 1, [(48, 57)]), g.ctx.pick("from", ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]), g.ctx.pick("to", [None, "MONTH", "SECOND"])), ["leaf"]),
    Kind("CountStar", 0, lambda g, k: g.agg.Count(g.x.Star()), ["leaf"]),
    Kind("CurrentDate", 0, lambda g, k: g.fdate.CurrentDate(), ["leaf"]),
    Kind("LocalTime", 0, lambda g, k: g.fdate.LocalTime(g.ctx.int("p", 0, 12)), ["leaf"]),
    Kind("CurrentUser", 0, lambda g, k: g.fsession.CurrentUser(), ["leaf"]),
    Kind("Now", 0, lambda g, k: g.fdate.Now(), ["leaf"]),
]
BYNAME = {k.name: k for k in KINDS + LEAVES}
ALL = KINDS + LEAVES
CORE = [k for k in KINDS if "core" in k.tags]
OPS = [k for k in KINDS if "op" in k.tags]


def operand_slot(kind, i):
    """Is a subquery in this child position written in parentheses by the printer? (see known-findings.json)"""
    if kind.name in ("InList", "InList1") and i > 0:
        return False
    return "op" in kind.tags or ("pred" in kind.tags and kind.name != "InQueryBody") or kind.name in ("Deref",)


def expr(g, kinds_by_level, level=0):
    """One expression: kinds_by_level[level] are the kinds of this level; the last level holds the leaves."""
    ctx = g.ctx
    kind = ctx.pick("k%d" % level, kinds_by_level[level])
    if kind.slots == 0:
        return kind.build(g, [])
    if level + 1 >= len(kinds_by_level):
        return kind.build(g, [g.plain(kind) for _ in range(kind.slots)])
    deep = ctx.choose("pos%d" % level, kind.slots)
    kids = []
    for i in range(kind.slots):
        if i == deep:
            c = expr(g, kinds_by_level, level + 1)
            ok_child(g, kind, i, c)
            kids.append(c)
        else:
            kids.append(g.plain(kind))
    return kind.build(g, kids)


def ok_child(g, kind, i, c):
    """Assume away the combinations outside the domain (each is described in DESIGN.md)."""
    ctx = g.ctx
    if isinstance(c, g.r.Query):
        ctx.assume(operand_slot(kind, i))
    if kind.name == "Deref":
        # a.b.c isn't supported, and Field(x, table=Field) is rejected
        ctx.assume(not isinstance(c, g.x.Field))


def norm_sugar(g):
    """Differences in the tree that are no difference in meaning and that SQL text cannot express: -5 is a negative
    literal or a negated one, and NOT (a = b) is a <> b."""
    x = g.x
    unknown = g.dt.unknown

    def norm(n):
        if type(n) is x.Negative:
            v = norm(n.value)
            if type(v) is x.Literal and _is_num(v.value) and not _neg(v.value):
                return x.Literal(_flip(v.value), data_type=g.dt.json())
            return n
        if type(n) is x.Literal and _is_num(n.value) and (_neg(n.value) or _zero(n.value)):
            return x.Literal(n.value, data_type=g.dt.json())
        if type(n) is x.Not:
            v = norm(n.value)
            if type(v) is x.Equal:
                return x.NotEqual(v.left, v.right)
            if type(v) is x.NotEqual:
                return x.Equal(v.left, v.right)
        return n

    return norm


def _is_num(v):
    from sx.core import SymInt

    return not isinstance(v, bool) and (isinstance(v, (int, float, Decimal, SymInt)) or hasattr(v, "same"))


def _neg(v):
    if isinstance(v, Decimal):
        return v.is_signed()
    r = v < 0
    return bool(r)


def _zero(v):
    if hasattr(v, "is_zero"):
        return v.is_zero()
    return bool(v == 0)


def _flip(v):
    if isinstance(v, Decimal):
        return v.copy_negate()
    return -v


# ------------------------------------------------------------------ queries
def order_terms(g, n=1):
    o = g.o
    return [
        o.OrderTerm(g.field(), g.ctx.pick("order", [o.OrderType.ASC, o.OrderType.DESC]), g.ctx.pick("nulls", [o.NullOrder.FIRST, o.NullOrder.LAST]))
        for _ in range(n)
    ]


def count(g, label):
    return g.ctx.int(label, 0, 9, 3)


def constraints(g, which):
    """some of ORDER BY, OFFSET, LIMIT as keyword arguments"""
    kw = {}
    if "orderby" in which:
        kw["orderby"] = [g.o.OrderTerm(g.field())]
    if "offset" in which:
        kw["offset"] = count(g, "offset")
    if "limit" in which:
        kw["limit"] = count(g, "limit")
    return kw


def select_items(g, form):
    x = g.x
    return {
        "one": lambda: [g.field()],
        "two": lambda: [g.field(), g.x.wrap_literal(1)],
        "alias": lambda: [x.AliasedValue(g.field(), g.name("al")), x.AliasedValue(x.Add(g.field(), g.field()), g.name("al"))],
        "star": lambda: [x.Star()],
        "tstar": lambda: [x.Star(g.name("tb")), g.field()],
        "astar": lambda: [x.AliasedStar(x.Star(g.name("tb")), [g.name("al"), g.name("al")])],
        "agg": lambda: [g.agg.Count(x.Star()), x.AliasedValue(g.agg.Sum(g.field()), g.name("al"))],
    }[form]()


ITEMS = ["one", "two", "alias", "star", "tstar", "astar", "agg"]


def simple_query(g, kind):
    """a query with fixed structure and symbolic leaves"""
    r, x = g.r, g.x
    t = lambda: r.Table(g.name("t"))
    if kind == "select":
        return r.SelectQuery([g.field()], from_=t())
    if kind == "select_order":
        return r.SelectQuery([g.field()], from_=t(), orderby=[g.o.OrderTerm(g.field())])
    if kind == "select_limit":
        return r.SelectQuery([g.field()], limit=count(g, "limit"))
    if kind == "select_offset":
        return r.SelectQuery([g.field()], offset=count(g, "offset"))
    if kind == "values":
        return r.ValuesQuery([g.x.wrap_literal(1), g.x.wrap_literal(2)])
    if kind == "values_limit":
        return r.ValuesQuery([g.x.wrap_literal(1)], limit=count(g, "limit"))
    if kind == "table":
        return r.TableQuery(t())
    if kind == "table_order":
        return r.TableQuery(t(), orderby=[g.o.OrderTerm(g.field())])
    raise ValueError(kind)


SIMPLE = ["select", "select_order", "select_limit", "select_offset", "values", "values_limit", "table", "table_order"]
SETOPS = ["union", "union_all", "intersect", "except"]


def set_query(g, op, left, right, **kw):
    r = g.r
    Q = g.T.base.SetQuantifier
    cls = {"union": r.UnionQuery, "union_all": r.UnionQuery, "intersect": r.IntersectQuery, "except": r.ExceptQuery}[op]
    return cls(left, right, Q.ALL if op == "union_all" else Q.DISTINCT, **kw)


def from_clause(g, form):
    r = g.r
    t = lambda: r.Table(g.name("t"))
    return {
        None: lambda: None,
        "table": t,
        "alias": lambda: r.AliasedRelation(t(), g.name("al")),
        "join": lambda: r.Join(t(), t(), r.JoinConfig(r.JoinType.LEFT, criteria=r.JoinOnCriteria(g.x.Equal(g.field(), g.field())))),
        "sub": lambda: r.AliasedRelation(r.SelectQuery([g.field()], from_=t()), g.name("al")),
    }[form]()


# ------------------------------------------------------------------ relations
def _join(jt, crit):
    def f(g, k):
        r, x = g.r, g.x
        T = getattr(r.JoinType, jt)
        if crit == "on":
            c = r.JoinConfig(T, criteria=r.JoinOnCriteria(x.Equal(x.Field(g.name("f"), g.name("tb")), g.field())))
        elif crit == "using":
            c = r.JoinConfig(T, criteria=r.JoinUsingCriteria([g.name("col")]))
        elif crit == "using2":
            c = r.JoinConfig(T, criteria=r.JoinUsingCriteria([g.name("col"), g.name("col")]))
        elif crit == "natural":
            c = r.JoinConfig(T, natural=True)
        else:
            c = r.JoinConfig(T)
        return r.Join(k[0], k[1], c)

    return f


def _sample(g, k):
    kinds = [g.r.SampleType.BERNOULLI, g.r.SampleType.SYSTEM]
    return g.r.TableSample(k[0], kinds[0] if g.small else g.ctx.pick("sample", kinds), g.lit_int(0, 9))


REL = [
    Kind("Alias", 1, lambda g, k: g.r.AliasedRelation(k[0], g.name("al")), ["core"]),
    Kind("AliasCols", 1, lambda g, k: g.r.AliasedRelation(k[0], g.name("al"), [g.name("c"), g.name("c")]), []),
    Kind("Sample", 1, _sample, ["core"]),
    Kind("Cross", 2, _join("CROSS", None), ["core", "join"]),
    Kind("InnerOn", 2, _join("INNER", "on"), ["core", "join"]),
    Kind("InnerUsing", 2, _join("INNER", "using"), ["join"]),
    Kind("LeftOn", 2, _join("LEFT", "on"), ["join"]),
    Kind("RightUsing", 2, _join("RIGHT", "using2"), ["join"]),
    Kind("OuterOn", 2, _join("OUTER", "on"), ["join"]),
    Kind("NaturalInner", 2, _join("INNER", "natural"), ["join", "core"]),
    Kind("NaturalLeft", 2, _join("LEFT", "natural"), ["join"]),
    Kind("NaturalRight", 2, _join("RIGHT", "natural"), ["join"]),
    Kind("NaturalOuter", 2, _join("OUTER", "natural"), ["join"]),
]
RLEAF = [
    Kind("Table", 0, lambda g, k: g.r.Table(g.name("t"))),
    Kind("Table2", 0, lambda g, k: g.r.Table(g.name("t"), g.name("sch"))),
    Kind("Table3", 0, lambda g, k: g.r.Table(g.name("t"), g.name("sch"), g.name("cat"))),
    Kind("Query", 0, lambda g, k: simple_query(g, "select_limit" if g.small else g.ctx.pick("q", ["select", "select_limit", "values", "table"]))),
    Kind("SetQuery", 0, lambda g, k: set_query(g, "union", simple_query(g, "select"), simple_query(g, "values"))),
    Kind("Unnest", 0, lambda g, k: g.r.Unnest([g.field()], with_ordinality=g.small or g.ctx.flag("ord"))),
    Kind("Unnest2", 0, lambda g, k: g.r.Unnest([g.x.Array([g.field()]), g.field()], with_ordinality=g.small or g.ctx.flag("ord"))),
    Kind("Lateral", 0, lambda g, k: g.r.Lateral(simple_query(g, "select"))),
]


def relation(g, kinds_by_level, level=0):
    kind = g.ctx.pick("r%d" % level, kinds_by_level[level])
    if kind.slots == 0:
        return kind.build(g, [])
    deep = g.ctx.choose("rpos%d" % level, kind.slots)
    kids = []
    for i in range(kind.slots):
        if i == deep and level + 1 < len(kinds_by_level):
            kids.append(relation(g, kinds_by_level, level + 1))
        else:
            kids.append(g.r.Table(g.name("t")))
    return kind.build(g, kids)
