"""C13: pretty and default printing differ only in layout."""
from sx.api import Harness
from sx.core import SymStr, zor

from .c12 import _Fixed
from .common import leaf_eq, modules, render, zand_all
from .gen import ALL, AZ, BYNAME, CORE, KINDS, LEAVES, REL, RLEAF, Gen, expr, relation, simple_query
from .zoo import NAMES as ALL_NAMES
from .zoo import ZOO
from .special import tree as special_tree
from .long import any_place, deep as deep_sizes, lists as long_sizes

# a join's configuration has no SQL of its own
NAMES = [n for n in ALL_NAMES if n not in ("part:using", "part:natural")]

TWO = ("<>", "<=", ">=", "||", "->", "!=", "--", "/*")


def is_(c, ch):
    r = c == ch
    return r if isinstance(r, bool) else bool(r)


def tokens(text):
    """the tokens of printed SQL: [(kind, text)]; whitespace separates, quoted text is kept as it is"""
    out = []
    n = len(text)
    i = 0
    newline = False
    while i < n:
        c = text[i]
        ch = c if isinstance(c, str) else None
        if is_(c, " ") or is_(c, "\t") or is_(c, "\r"):
            i += 1
        elif is_(c, "\n"):
            newline = True
            i += 1
        elif is_(c, "'") or is_(c, '"'):
            quote = "'" if is_(c, "'") else '"'
            j = i + 1
            while j < n:
                if is_(text[j], quote):
                    if j + 1 < n and is_(text[j + 1], quote):
                        j += 2
                        continue
                    break
                j += 1
            out.append(("q", text[i : j + 1]))
            i = j + 1
        elif ch is not None and (ch.isalnum() or ch in "_$@."):
            j = i
            while j < n and isinstance(text[j], str) and (text[j].isalnum() or text[j] in "_$@."):
                j += 1
            out.append(("w", text[i:j]))
            i = j
        elif i + 1 < n and isinstance(text[i : i + 2], str) and text[i : i + 2] in TWO:
            out.append(("o", text[i : i + 2]))
            i += 2
        else:
            out.append(("o", c))
            i += 1
    return out, newline


def same_tokens(a, b):
    if len(a) != len(b):
        return False
    return zand_all([ka == kb and leaf_eq(ta, tb) if not isinstance(leaf_eq(ta, tb), bool) else (ka == kb and leaf_eq(ta, tb)) for (ka, ta), (kb, tb) in zip(a, b)])


def compare(ctx, node, spaces=(4,), text=None):
    P = modules().base
    sp = ctx.pick("spaces", list(spaces))
    # the default mode has no use for the number of spaces
    one = node.sql(P.PrintOptions(spaces=4 if sp == 0 else 0))
    two = node.sql(P.PrintOptions(mode=P.PrintMode.PRETTY, spaces=sp))
    ctx.sample(lambda: str(two))
    t1, nl = tokens(one)
    t2, _ = tokens(two)
    ctx.check(same_tokens(t1, t2), "same tokens in the same order", lambda: "%s\n--- and pretty:\n%s" % (one, two))
    ctx.check(not nl, "default mode is a single line", lambda: str(one))
    if text is not None:
        # (the tokens of the other mode are the same)
        quoted = [q + text.replace(q, q + q) + q for q in ("'", '"')]
        ctx.check(zor([leaf_eq(t, w) for k, t in t2 if k == "q" for w in quoted]), "quoted text as it is in the tree", lambda: "%r in %s" % (text, two))


class Spot(Gen):
    """every leaf is concrete but the one at the given place, which is any characters"""

    def __init__(self, ctx, at, n):
        super().__init__(ctx)
        self.real, self.at, self.n, self.count = ctx, at, n, 0
        self.ctx = _SpotFixed(self)

    def text(self, plain):
        self.count += 1
        if self.count - 1 == self.at:
            self.spot = self.real.str("any", self.n)
            return self.spot
        return plain

    def name(self, label="id"):
        return self.text("a")

    def field(self):
        return self.x.Field(self.name())

    def lit_str(self, n=1):
        return self.x.wrap_literal(self.text("s"))


class _SpotFixed(_Fixed):
    def __init__(self, g):
        self.g = g

    def name(self, label="id"):
        return self.g.text("a")

    def str(self, label, n, ranges=None):
        return self.g.text("7" * n)


SPACES = (4, 0, 1, 79)


def h_nodes(ctx):
    """every kind of node with every optional part"""
    g = Gen(ctx)
    compare(ctx, ZOO[ctx.pick("node", NAMES)](g), SPACES)


def h_quoted(ctx):
    """any characters in any one string or identifier of every kind of node"""
    at = ctx.choose("at", ctx.params["at"])
    names = [n for n in NAMES if not n.startswith("agg:") or n in ("agg:SUM", "agg:MAX_BY")]
    node_name = ctx.pick("node", names)
    n = ctx.params["n"]
    g = Spot(ctx, at, n)
    node = ZOO[node_name](g)
    ctx.assume(g.count > at)
    compare(ctx, node, (4,) if not ctx.thorough else (4, 1), text=g.spot)


def h_nested_quotes(ctx):
    """strings with line breaks and quotes, several levels of indentation deep"""
    g = Gen(ctx)
    x, r = g.x, g.r
    s = ctx.str("any", ctx.params["n"])
    e = x.Equal(g.field(), x.wrap_literal(s)) if ctx.flag("literal") else x.Equal(x.Field(s), x.wrap_literal(1))
    for i in range(ctx.params["levels"]):
        place = ctx.pick("place", ["where", "from", "in", "filter", "with", "values", "case", "on", "listagg"])
        if place == "where":
            q = r.SelectQuery([g.field()], where=e, from_=r.Table(g.name("t")))
        elif place == "from":
            q = r.SelectQuery([x.Star()], from_=r.AliasedRelation(r.SelectQuery([e]), g.name("al")), where=e)
        elif place == "with":
            q = r.SelectQuery([e], with_=[r.AliasedRelation(r.SelectQuery([e]), g.name("al"))])
        elif place == "values":
            q = r.ValuesQuery([e, e])
        elif place == "in":
            q = r.SelectQuery([x.InList(g.field(), [e, g.field()])])
        elif place == "filter":
            q = r.SelectQuery([g.agg.Sum(e, filter_=e, window=g.w.Window(partitions=[e], orderby=[g.o.OrderTerm(e)]))])
        elif place == "case":
            q = r.SelectQuery([x.Case(branches=[x.When(e, e)], else_=x.Else(e))])
        elif place == "on":
            q = r.SelectQuery([g.field()], from_=r.Join(r.Table(g.name("t")), r.Table(g.name("t")), r.JoinConfig(r.JoinType.LEFT, criteria=r.JoinOnCriteria(e))))
        else:
            q = r.SelectQuery([g.agg.ListAgg(e, separator=s, orderby=[g.o.OrderTerm(e)])])
        e = x.InQuery(g.field(), q)
    compare(ctx, q, text=s)


def filler(g, n):
    return g.x.Field("x" * n)


def h_wrapping(ctx):
    """lists long enough to be wrapped, item lengths around the limit"""
    g = Gen(ctx)
    x, r = g.x, g.r
    sp = ctx.pick("spaces", [0, 4, 40])
    limit = 80 - sp
    lens = [1, limit // 2 - 3, limit // 2 - 2, limit - 4, limit - 3, limit - 2, limit + 5]
    n = 2 + ctx.choose("n", ctx.params["n"])
    items = [filler(g, ctx.pick("len", lens)) for _ in range(min(n, 3))] + [g.x.wrap_literal("a, b\n'c' ") for _ in range(n - 3)]
    where = ctx.pick("where", ["select", "call", "array", "row", "in", "group", "order", "values", "partition", "using", "cols", "concat", "cube", "unnest"])
    names = [i.name if isinstance(i, x.Field) else "y" for i in items]
    node = {
        "select": lambda: r.SelectQuery(items, from_=r.Table("t")),
        "call": lambda: g.cond.If(*(items + items)[:3]),
        "array": lambda: x.Array(items),
        "row": lambda: x.RowConstructor(items),
        "in": lambda: x.InList(g.field(), items),
        "group": lambda: r.SelectQuery([g.field()], groupby=g.g.GroupBy([g.g.GroupingSet([i]) for i in items])),
        "order": lambda: r.SelectQuery([g.field()], orderby=[g.o.OrderTerm(i) for i in items]),
        "values": lambda: r.ValuesQuery(items),
        "partition": lambda: g.agg.Sum(g.field(), window=g.w.Window(partitions=items, orderby=[g.o.OrderTerm(i) for i in items])),
        "using": lambda: r.SelectQuery([g.field()], from_=r.Join(r.Table("t"), r.Table("u"), r.JoinConfig(r.JoinType.INNER, criteria=r.JoinUsingCriteria(names)))),
        "cols": lambda: r.SelectQuery([g.field()], from_=r.AliasedRelation(r.Table("t"), "al", names)),
        "concat": lambda: g.fcommon.Concatenate(values=items),
        "cube": lambda: r.SelectQuery([g.field()], groupby=g.g.GroupBy([g.g.Cube(items), g.g.GroupingSet(items)])),
        "unnest": lambda: r.SelectQuery([g.field()], from_=r.Unnest(items)),
    }[where]()
    compare(ctx, node, (sp,))


def h_expressions(ctx):
    g = Gen(ctx)
    compare(ctx, expr(g, [KINDS, KINDS]))


def h_relations(ctx):
    g = Gen(ctx)
    g.small = True
    rel = relation(g, [REL, RLEAF + REL])
    e = g.r.SelectQuery([g.field()], from_=rel, where=g.field())
    compare(ctx, e, (4, 2))


def h_printers(ctx):
    """the layout functions themselves, on texts of any characters"""
    from treeno.printer import JoinPrinter, StatementPrinter, join_stmts, pad

    P = modules().base
    what = ctx.pick("what", ["join", "statement", "pad"])
    n = ctx.params["chars"]
    if what == "pad":
        s = ctx.str("s", n, [(10, 10), (32, 34), (39, 39), (97, 98)])
        k = ctx.pick("k", [0, 1, 4])
        out = pad(s, k)
        t1, t2 = tokens(s)[0], tokens(out)[0]
        ctx.check(same_tokens(t1, t2), "padding leaves the tokens alone", lambda: "%r becomes %r" % (s, out))
        # and every line outside of quotes is indented by k
        ctx.check(_indented(s, out, k), "every continued line is indented", lambda: "%r becomes %r" % (s, out))
    elif what == "join":
        m = ctx.choose("m", 4)
        stmts = ["x" * ctx.pick("len", [1, 37, 38, 75, 76, 77, 90]) for _ in range(m)]
        delim = ctx.pick("delim", [",", " ", " AND "])
        mode = ctx.pick("mode", list(P.PrintMode))
        out = join_stmts(list(stmts), P.PrintOptions(mode=mode), delimiter=delim)
        flat = out.replace("\n", "")
        ctx.check(flat == delim.join(stmts), "the pieces in order", lambda: "%r becomes %r" % (stmts, out))
        ctx.check(mode is P.PrintMode.PRETTY or "\n" not in out, "default mode is a single line", lambda: out)
    else:
        keys = ["A", "LONGER KEY", "B"][: 1 + ctx.choose("m", 3)]
        p = StatementPrinter(river=ctx.flag("river"))
        vals = []
        for k in keys:
            v = ctx.pick("v", ["", "v", "v\nw", "'v\nw'"])
            vals.append(v)
            p.add_entry(k, v)
        mode = ctx.pick("mode", list(P.PrintMode))
        out = p.to_string(P.PrintOptions(mode=mode))
        want = []
        for k, v in zip(keys, vals):
            want += [("w", w) for w in k.split()] + tokens(v)[0]
        ctx.check(same_tokens(tokens(out)[0], want), "every entry, in order", lambda: "%s %s becomes %r" % (keys, vals, out))


def _indented(s, out, k):
    """out is s with k spaces after every line break outside of quotes"""
    want = ""
    quote = None
    for i in range(len(s)):
        c = s[i]
        want = want + c
        if quote is not None:
            if is_(c, quote):
                quote = None
        elif is_(c, "'"):
            quote = "'"
        elif is_(c, '"'):
            quote = '"'
        elif is_(c, "\n"):
            want = want + " " * k
    return leaf_eq(out, want)


def h_long(ctx):
    g = Gen(ctx)
    compare(ctx, any_place(g, long_sizes(ctx) if ctx.thorough else [1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 16, 17, 33, 65, 101], deep_sizes(ctx)))


def h_special(ctx):
    """special values at every position of every node"""
    g, node = special_tree(ctx, [n for n in ALL_NAMES if n not in ("type", "part:using", "part:natural") and (ctx.thorough or not n.startswith("fn:"))])
    compare(ctx, node, SPACES if ctx.thorough else (4,))


HARNESSES = [
    Harness("nodes", h_nodes, "%d kinds of nodes with every optional part, indentation 0, 1, 4, 79" % len(NAMES)),
    Harness("quoted", h_quoted, "2 (thorough 3) arbitrary Unicode characters in any one of the first 12 (thorough 16) strings or identifiers of every node", {"n": 2, "at": 12}, {"n": 3, "at": 16}),
    Harness("nested_quotes", h_nested_quotes, "2 (thorough 3) arbitrary characters under 2 (thorough 3) levels of 9 enclosing constructs", {"n": 2, "levels": 2}, {"n": 3, "levels": 3}),
    Harness("wrapping", h_wrapping, "14 kinds of lists of 2..3 (thorough 2..5) items, 7 lengths around the limit, indentation 0, 4, 40", {"n": 2}, {"n": 4}),
    Harness("expressions", h_expressions, "every construct in every position of every construct"),
    Harness("relations", h_relations, "relations two levels deep"),
    Harness("printers", h_printers, "pad on all texts of 5 (thorough 7) characters out of line break, space, quotes and letters; lists of 0..3 pieces; statements of 1..3 clauses", {"chars": 5}, {"chars": 7}),
    Harness("special", h_special, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) at every position of every node (quick: not of plain functions)"),
    Harness("long", h_long, "58 places of trees; lists of 1..17 and 9 sizes up to 129 (thorough 1..134 and 10 sizes up to 513), chains of 1..8, 10, 12 (thorough 1..25), one name symbolic"),
]
