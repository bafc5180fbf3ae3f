"""C07: windows, frames and ordering read back unchanged."""
from sx.api import Harness

from .c04 import roundtrip as qroundtrip
from .c06 import is_arg, q, read, roundtrip
from .common import deep_eq, leaf_eq, render, zand_all
from .gen import ALL, BYNAME, CORE, Gen, expr, ok_child
from .special import grow
from .long import WINDOW_LISTS, expr_place, lists

BOUNDS = ["up", "uf", "cur", "bp", "bf"]


def bound(g, kind, offset=None):
    w = g.w
    B = w.BoundType
    off = offset or (lambda: g.lit_int(0, 99 if g.ctx.thorough else 9))
    return {
        "up": lambda: w.UnboundedFrameBound(B.PRECEDING),
        "uf": lambda: w.UnboundedFrameBound(B.FOLLOWING),
        "cur": lambda: w.CurrentFrameBound(),
        "bp": lambda: w.BoundedFrameBound(B.PRECEDING, off()),
        "bf": lambda: w.BoundedFrameBound(B.FOLLOWING, off()),
    }[kind]()


def place(ctx, g, win):
    """the window in an OVER or in a WINDOW clause"""
    where = ctx.pick("where", ["over", "clause", "listed"])
    if where == "over":
        roundtrip(ctx, g, g.agg.Sum(g.field(), window=win))
    elif where == "clause":
        qroundtrip(ctx, g, g.r.SelectQuery([g.field()], window={g.name("w"): win}))
    else:
        qroundtrip(ctx, g, g.r.SelectQuery([g.agg.Sum(g.field(), window=g.w.Window(parent_window=g.name("w"))), g.field()], window={"a1": g.w.Window(partitions=[g.field()]), "a2": win}), False)


def term(ctx, g, value=None):
    o = g.o
    return o.OrderTerm(value or g.field(), ctx.pick("dir", [o.OrderType.ASC, o.OrderType.DESC]), ctx.pick("nulls", [o.NullOrder.FIRST, o.NullOrder.LAST]))


def h_frames(ctx):
    g = Gen(ctx)
    w = g.w
    kw = dict(frame_type=ctx.pick("unit", [w.FrameType.RANGE, w.FrameType.ROWS, w.FrameType.GROUPS]), start_bound=bound(g, ctx.pick("start", BOUNDS)), end_bound=bound(g, ctx.pick("end", BOUNDS)))
    extra = ctx.pick("extra", ["none", "order", "all"])
    if extra != "none":
        kw["orderby"] = [g.o.OrderTerm(g.field())]
    if extra == "all":
        kw["partitions"] = [g.field()]
        kw["parent_window"] = g.name("w")
    place(ctx, g, w.Window(**kw))


def h_parts(ctx):
    g = Gen(ctx)
    kw = {}
    if ctx.flag("parent"):
        kw["parent_window"] = ctx.str("pw", 1)
    n = ctx.choose("parts", 3)
    if n:
        kw["partitions"] = [g.field() for _ in range(n)]
    n = ctx.choose("terms", 3)
    if n:
        kw["orderby"] = [term(ctx, g) if i == 0 or ctx.thorough else g.o.OrderTerm(g.field(), g.o.OrderType.DESC) for i in range(n)]
    if ctx.flag("frame"):
        kw.update(frame_type=g.w.FrameType.ROWS, start_bound=bound(g, "bp"), end_bound=bound(g, "bf"))
    place(ctx, g, g.w.Window(**kw))


def h_expressions(ctx):
    """every kind of expression as partition, ordering and offset"""
    g = Gen(ctx)
    w = g.w
    kind = ctx.pick("kind", [k for k in ALL if "subquery" not in k.tags and "lambda" not in k.tags])
    e = kind.build(g, [g.plain(kind) for _ in range(kind.slots)])
    slot = ctx.pick("slot", ["partition", "partition2", "order", "order2", "start", "end", "queryorder", "aggorder"])
    unit = w.FrameType.ROWS
    if slot == "queryorder":
        qroundtrip(ctx, g, g.r.SelectQuery([g.field()], orderby=[term(ctx, g, e), g.o.OrderTerm(g.field())]), False)
        return
    if slot == "aggorder":
        roundtrip(ctx, g, g.agg.ArrayAgg(g.field(), orderby=[term(ctx, g, e), g.o.OrderTerm(g.field())]), False)
        return
    win = {
        "partition": lambda: w.Window(partitions=[e]),
        "partition2": lambda: w.Window(parent_window=g.name("w"), partitions=[g.field(), e], orderby=[g.o.OrderTerm(g.field())]),
        "order": lambda: w.Window(orderby=[term(ctx, g, e)]),
        "order2": lambda: w.Window(partitions=[g.field()], orderby=[g.o.OrderTerm(g.field()), term(ctx, g, e)]),
        "start": lambda: w.Window(frame_type=unit, start_bound=w.BoundedFrameBound(w.BoundType.PRECEDING, e), end_bound=bound(g, "bf")),
        "end": lambda: w.Window(frame_type=unit, start_bound=bound(g, "bp"), end_bound=w.BoundedFrameBound(w.BoundType.FOLLOWING, e)),
    }[slot]()
    roundtrip(ctx, g, g.agg.Sum(g.field(), window=win))


def h_terms(ctx):
    g = Gen(ctx)
    r = g.r
    n = 1 + ctx.choose("n", ctx.params["n"])
    terms = [term(ctx, g) for _ in range(n)]
    where = ctx.pick("where", ["query", "agg", "listagg", "window", "set", "values", "table"])
    both = n < 3
    if where == "query":
        qroundtrip(ctx, g, r.SelectQuery([g.field()], orderby=terms, limit=ctx.int("lim", 0, 9)), both)
    elif where == "agg":
        roundtrip(ctx, g, g.agg.ArrayAgg(g.field(), orderby=terms), both)
    elif where == "listagg":
        roundtrip(ctx, g, g.agg.ListAgg(g.field(), separator=",", orderby=terms), both)
    elif where == "window":
        roundtrip(ctx, g, g.agg.Sum(g.field(), window=g.w.Window(orderby=terms)), both)
    elif where == "set":
        qroundtrip(ctx, g, r.UnionQuery(r.SelectQuery([g.field()]), r.SelectQuery([g.field()]), orderby=terms), both)
    elif where == "values":
        qroundtrip(ctx, g, r.ValuesQuery([g.lit_int()], orderby=terms), both)
    else:
        qroundtrip(ctx, g, r.TableQuery(r.Table(g.name("t")), orderby=terms), both)


BTEXT = {"up": "UNBOUNDED PRECEDING", "uf": "UNBOUNDED FOLLOWING", "cur": "CURRENT ROW", "bp": "%s PRECEDING", "bf": "%s FOLLOWING"}


def h_read(ctx):
    """a window written in SQL: what is written is read, what is left out is the documented default"""
    g = Gen(ctx)
    w, o = g.w, g.o
    lower = ctx.flag("lower")
    kw = lambda s: s.lower() if lower else s
    text = ""
    parent = ctx.flag("parent")
    pn = g.name("w")
    if parent:
        text = text + q(pn) + " "
    parts = [g.name("p") for _ in range(ctx.choose("parts", 3))]
    for i, p in enumerate(parts):
        text = text + (kw("PARTITION BY ") if i == 0 else ", ") + q(p) + " "
    dirs = {"": o.OrderType.ASC, " ASC": o.OrderType.ASC, " DESC": o.OrderType.DESC}
    nulls = {"": o.NullOrder.LAST, " NULLS FIRST": o.NullOrder.FIRST, " NULLS LAST": o.NullOrder.LAST}
    terms = []
    if ctx.flag("order"):
        terms.append((g.name("o"), ctx.pick("dir", list(dirs)), ctx.pick("nulls", list(nulls))))
    for i, (a, d, n) in enumerate(terms):
        text = text + (kw("ORDER BY ") if i == 0 else ", ") + q(a) + kw(d) + kw(n) + " "
    frame = ctx.pick("frame", ["none", "start", "between"] if len(parts) < 2 and (not terms or terms[0][1:] == (" DESC", " NULLS FIRST")) or ctx.thorough else ["none"])
    unit, s, e = w.FrameType.RANGE, "up", "cur"
    so = eo = None
    if frame != "none":
        unit = ctx.pick("unit", [w.FrameType.RANGE, w.FrameType.ROWS, w.FrameType.GROUPS])
        s = ctx.pick("start", BOUNDS)
        so = ctx.int("so", 0, 99 if ctx.thorough else 9)
        st = BTEXT[s].replace("%s", "") if "%s" not in BTEXT[s] else None
        st = kw(st) if st else so.__str__() + kw(BTEXT[s][2:])
        text = text + kw(unit.value) + " "
        if frame == "between":
            e = ctx.pick("end", BOUNDS)
            eo = ctx.int("eo", 0, 99 if ctx.thorough else 9)
            et = kw(BTEXT[e]) if "%s" not in BTEXT[e] else eo.__str__() + kw(BTEXT[e][2:])
            text = text + kw("BETWEEN ") + st + kw(" AND ") + et
        else:
            text = text + st
    node = read("SUM(x) " + kw("OVER ") + "(" + text + ")").window

    def same_bound(b, k, off):
        B = w.BoundType
        if k == "cur":
            return type(b) is w.CurrentFrameBound
        typ = B.PRECEDING if k.endswith("p") else B.FOLLOWING
        if k in ("up", "uf"):
            return type(b) is w.UnboundedFrameBound and b.bound_type is typ
        return zand_all([type(b) is w.BoundedFrameBound, b.bound_type is typ, type(b.offset) is g.x.Literal, leaf_eq(b.offset.value, off)])

    ok = [
        leaf_eq(node.parent_window, pn) if parent else node.parent_window is None,
        len(node.partitions or []) == len(parts),
        zand_all([is_arg(g, a, b) for a, b in zip(node.partitions or [], parts)]),
        len(node.orderby or []) == len(terms),
        zand_all([zand_all([is_arg(g, a.value, b), a.order_type is dirs[d], a.null_order is nulls[n]]) for a, (b, d, n) in zip(node.orderby or [], terms)]),
        node.frame_type is unit,
        same_bound(node.start_bound, s, so),
        same_bound(node.end_bound, e, eo),
    ]
    ctx.check(zand_all(ok), "window read as written", lambda: "(%s) reads as %s" % (text, render(node)))


def h_names(ctx):
    """OVER name, and several named windows, each keeping its own contents"""
    g = Gen(ctx)
    n = 1 + ctx.choose("n", 3)
    names = [ctx.str("w", 1, [(97, 122)]) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(names[i] != names[j])
    wins = [[g.w.Window(partitions=[g.field()]), g.w.Window(orderby=[g.o.OrderTerm(g.field(), g.o.OrderType.DESC)]), g.w.Window(parent_window=names[0], frame_type=g.w.FrameType.ROWS)][(i + ctx.choose("rot", 3)) % 3 if i else 0] for i in range(n)]
    use = ctx.choose("use", n)
    query = g.r.SelectQuery([g.agg.Sum(g.field(), window=g.w.Window(parent_window=names[use]))], window={nm: wn for nm, wn in zip(names, wins)})
    qroundtrip(ctx, g, query)
    node = read("SUM(x) OVER " + q(names[use])).window
    ctx.check(deep_eq(node, g.w.Window(parent_window=names[use])), "OVER name is the named window", lambda: render(node))


def h_long(ctx):
    g = Gen(ctx)
    place(ctx, g, expr_place(g, WINDOW_LISTS, "what", sizes=lists(ctx)))


def h_special(ctx):
    """special values at every position of a full window"""
    from .zoo import window

    g, win = grow(ctx, "window", window)
    place(ctx, g, win)


HARNESSES = [
    Harness("frames", h_frames, "3 frame units x 5 start bounds x 5 end bounds (offsets symbolic 0..9, thorough 0..99) x 3 surroundings x 3 places x both print modes"),
    Harness("parts", h_parts, "parent name of any one character x 0..2 partitions x 0..2 order terms (direction x null placement) x frame x 3 places x both print modes"),
    Harness("expressions", h_expressions, "58 kinds of expression in 8 positions"),
    Harness("terms", h_terms, "1..3 (thorough 1..5) order terms with every direction and null placement in 7 clauses", {"n": 3}, {"n": 5}),
    Harness("read", h_read, "window specifications in SQL with every part present or absent, 30 frame forms per unit (with parent, partition, order present or absent), keywords in either letter case"),
    Harness("names", h_names, "1..3 named windows"),
    Harness("special", h_special, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) at every position of a window with every part"),
    Harness("long", h_long, "3 kinds of lists in windows in 3 places; lists of 1..17 and 19 sizes up to 129 (thorough 1..134 and 10 sizes up to 513) entries, one name symbolic"),
]
