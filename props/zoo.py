"""One fully populated tree (every optional part present) for every kind of node."""
from .c06 import BARE, PRECISE, SPEC, VARIADIC, cls_of
from .gen import KINDS, LEAVES, REL, RLEAF, Gen, constraints, set_query, simple_query


def _fn(name, i):
    def f(g):
        sig = SPEC[name][2][i]
        kw = {s: g.field() for s in sig}
        cls = cls_of(name)
        return cls(kw.pop("value"), **kw) if name == "APPROX_PERCENTILE" else cls(**kw)

    return f


def _agg(name):
    def f(g):
        sig = SPEC[name][2][-1]
        kw = {s: g.field() for s in sig}
        o, w = g.o, g.w
        kw.update(
            orderby=[o.OrderTerm(g.field(), o.OrderType.DESC), o.OrderTerm(g.field())],
            filter_=g.x.IsNull(g.field()),
            window=window(g),
            null_treatment=w.NullTreatment.IGNORE,
        )
        cls = cls_of(name)
        return cls(kw.pop("value"), **kw) if name == "APPROX_PERCENTILE" else cls(**kw)

    return f


def window(g):
    w, o = g.w, g.o
    return w.Window(
        parent_window=g.name("pw"),
        partitions=[g.field(), g.x.Add(g.field(), g.field())],
        orderby=[o.OrderTerm(g.field(), o.OrderType.DESC, o.NullOrder.FIRST)],
        frame_type=w.FrameType.ROWS,
        start_bound=w.BoundedFrameBound(w.BoundType.PRECEDING, g.field()),
        end_bound=w.BoundedFrameBound(w.BoundType.FOLLOWING, g.lit_int(0, 9)),
    )


def groupby(g):
    b = g.g
    return b.GroupBy(
        [b.GroupingSet([g.field()]), b.GroupingSet([g.field(), g.field()]), b.GroupingSetList([b.GroupingSet([]), b.GroupingSet([g.field()])]), b.Cube([g.field(), g.field()]), b.Rollup([g.field()])],
        g.T.base.SetQuantifier.DISTINCT,
    )


def big_select(g, **kw):
    r, x = g.r, g.x
    return r.SelectQuery(
        [x.AliasedValue(g.field(), g.name("al")), x.Star(g.name("tb")), x.AliasedStar(x.Star(g.name("tb")), [g.name("al"), g.name("al")])],
        from_=r.Join(r.AliasedRelation(r.Table(g.name("t"), g.name("sch"), g.name("cat")), g.name("al"), [g.name("c")]), r.Table(g.name("t")), r.JoinConfig(r.JoinType.LEFT, criteria=r.JoinOnCriteria(x.Equal(g.field(), g.field())))),
        where=x.And(g.field(), g.field()),
        groupby=groupby(g),
        having=x.Not(g.field()),
        window={"w1": window(g), "w2": g.w.Window(partitions=[g.field()])},
        select_quantifier=g.T.base.SetQuantifier.DISTINCT,
        with_=[r.AliasedRelation(simple_query(g, "select"), g.name("cte"), [g.name("c")]), r.AliasedRelation(r.TableQuery(r.Table(g.name("t"))), g.name("cte"))],
        **dict(constraints(g, ["orderby", "offset", "limit"]), **kw)
    )


def _set(op):
    def f(g):
        return set_query(g, op, simple_query(g, "select"), simple_query(g, "values"), with_=[g.r.AliasedRelation(simple_query(g, "select"), g.name("cte"))], **constraints(g, ["orderby", "offset", "limit"]))

    return f


def _kind(k):
    return lambda g: k.build(g, [g.plain(k) for _ in range(k.slots)])


def _rel(k):
    return lambda g: k.build(g, [g.r.Table(g.name("t")) for _ in range(k.slots)])


def _listagg(g):
    A = g.agg
    return A.ListAgg(g.field(), separator=g.ctx.str("sep", 1), overflow_filler=A.OverflowFiller(A.CountIndication.WITH_COUNT, g.ctx.str("fill", 1)), orderby=[g.o.OrderTerm(g.field())])


def _from_unixtime(g):
    return g.fdate.FromUnixtime(g.field(), hours=g.field(), minutes=g.field())


def _types(g):
    from .c09 import nested, scalar

    return nested(g, "row2", nested(g, "map_v", scalar(g, "decimal")[0], lambda: scalar(g, "varchar_n")[0]), lambda: scalar(g, "timestamp_ptz")[0])


ZOO = {}
for _k in KINDS + LEAVES:
    ZOO["expr:" + _k.name] = _kind(_k)
for _n in SPEC:
    for _i in range(len(SPEC[_n][2])):
        ZOO["fn:%s/%d" % (_n, len(SPEC[_n][2][_i]))] = _fn(_n, _i)
for _n in SPEC:
    if SPEC[_n][0] == "aggregate":
        ZOO["agg:" + _n] = _agg(_n)
for _n in VARIADIC:
    ZOO["fn:" + _n] = lambda g, n=_n: cls_of(n)(values=[g.field(), g.field(), g.field()])
for _n in BARE:
    ZOO["fn:" + _n] = lambda g, n=_n: cls_of(n)()
for _n in PRECISE:
    ZOO["fn:" + _n] = lambda g, n=_n: getattr(g.fdate, PRECISE[n])(g.ctx.int("p", 0, 12))
ZOO["fn:LISTAGG"] = _listagg
ZOO["fn:NORMALIZE"] = lambda g: g.fstring.Normalize(g.field(), g.fstring.NormalForm.NFKD)
ZOO["fn:COUNT_STAR"] = lambda g: g.agg.Count(g.x.Star(g.name("tb")), filter_=g.field(), window=window(g))
for _k in REL + RLEAF:
    ZOO["rel:" + _k.name] = _rel(_k)
for _op in ("union", "union_all", "intersect", "except"):
    ZOO["query:" + _op] = _set(_op)
ZOO["query:select"] = big_select
ZOO["query:values"] = lambda g: g.r.ValuesQuery([g.x.RowConstructor([g.lit_int(), g.field()]), g.x.RowConstructor([g.lit_int(), g.field()])], with_=[g.r.AliasedRelation(simple_query(g, "select"), g.name("cte"))], **constraints(g, ["orderby", "offset", "limit"]))
ZOO["query:table"] = lambda g: g.r.TableQuery(g.r.Table(g.name("t"), g.name("s")), with_=[g.r.AliasedRelation(simple_query(g, "select"), g.name("cte"))], **constraints(g, ["orderby", "offset", "limit"]))
ZOO["part:groupby"] = groupby
ZOO["part:window"] = window
ZOO["part:star"] = lambda g: g.x.Star(g.name("tb"))
ZOO["part:alias"] = lambda g: g.x.AliasedValue(g.x.Add(g.field(), g.lit_int()), g.name("al"))
ZOO["part:aliasedstar"] = lambda g: g.x.AliasedStar(g.x.Star(g.name("tb")), [g.name("al"), g.name("al")])
ZOO["part:orderterm"] = lambda g: g.o.OrderTerm(g.field(), g.o.OrderType.DESC, g.o.NullOrder.FIRST)
ZOO["part:bounds"] = lambda g: g.w.Window(frame_type=g.w.FrameType.GROUPS, start_bound=g.w.UnboundedFrameBound(g.w.BoundType.PRECEDING), end_bound=g.w.CurrentFrameBound())
ZOO["part:using"] = lambda g: g.r.JoinConfig(g.r.JoinType.OUTER, criteria=g.r.JoinUsingCriteria([g.name("c"), g.name("c")]))
ZOO["part:natural"] = lambda g: g.r.JoinConfig(g.r.JoinType.RIGHT, natural=True)
ZOO["part:lambda"] = lambda g: g.x.Lambda([g.x.Lambda.Variable("vv"), g.x.Lambda.Variable("uu")], g.x.Add(g.x.Lambda.Variable("vv"), g.field()))
ZOO["type"] = _types
NAMES = list(ZOO)


def nodes(x, out=None, path=""):
    """every node of a tree with the path to it, found without the code under test's own traversal"""
    import attr

    from .common import SKIP_FIELDS, is_sym

    if out is None:
        out = []
    if is_sym(x):
        return out
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            nodes(y, out, "%s[%d]" % (path, i))
    elif isinstance(x, dict):
        for i, (k, y) in enumerate(x.items()):
            nodes(k, out, "%s<%d>" % (path, i))
            nodes(y, out, "%s{%d}" % (path, i))
    elif hasattr(x, "type_name") and hasattr(x, "parameters"):
        out.append((path, x))
        nodes(x.parameters, out, path + ".parameters")
    elif attr.has(type(x)):
        out.append((path, x))
        for f in attr.fields(type(x)):
            if f.name in SKIP_FIELDS:
                continue
            nodes(getattr(x, f.name), out, "%s.%s" % (path, f.name))
    return out
