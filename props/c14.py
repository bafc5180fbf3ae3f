"""C14: resolved columns carry the type of the column they name.

The oracle is a small resolver of its own over scopes (lists of columns with name, relation and type); names are symbolic,
so every way in which column, table, alias and reference names can coincide is a path."""
from sx.api import Harness

from .c10 import mx
from .common import deep_eq, leaf_eq, render, zand_all
from .gen import Gen
from .zoo import ZOO, nodes
from .long import deep as deep_sizes, lists as long_sizes, names as long_names


class Reject(Exception):
    """SQL rejects this"""


class Col:
    def __init__(self, name, src, n, sure=True):
        # n: the length of the VARCHAR that is the column's type, None when it isn't known; sure: it must be found
        self.name, self.src, self.n, self.sure = name, src, n, sure

    def renamed(self, name, src):
        return Col(name, src, self.n, self.sure)


class Rel:
    def __init__(self, ident, complete=True):
        self.id, self.complete = ident, complete


class Scope:
    def __init__(self, cols, rels, may_reject=False):
        self.cols, self.rels, self.may_reject = cols, rels, may_reject

    @property
    def complete(self):
        return all(r.complete for r in self.rels)


class Entry:
    """something a table name can refer to"""

    def __init__(self, name, scope, schema=None, catalog=None, cte=False):
        self.name, self.scope, self.schema, self.catalog, self.cte = name, scope, schema, catalog, cte


def eq(a, b):
    if a is None or b is None:
        return a is b
    return bool(a == b)


def lookup(env, name, schema=None, catalog=None):
    """columns of the table of that name, None if unknown; and whether it must be known"""
    if schema is None:
        for e in reversed(env):
            if e.cte and eq(e.name, name):
                return e.scope, True
        for e in reversed(env):
            if not e.cte and eq(e.name, name):
                return e.scope, e.schema is None
        return None, False
    hidden = any(e.cte and eq(e.name, name) for e in env)
    for e in env:
        if not e.cte and eq(e.name, name) and eq(e.schema, schema) and eq(e.catalog, catalog):
            return e.scope, not hidden
    return None, False


def refer(scope, name, qual):
    """the column that a name refers to: a Col, or None when it isn't known"""
    cands = [c for c in scope.cols if c.name is not None and eq(c.name, name) and (qual is None or eq(c.src, qual))]
    if len(cands) > 1:
        raise Reject()
    if not cands:
        return None
    c = cands[0]
    if qual is None and not scope.complete:
        return Col(c.name, c.src, c.n, False)
    return c


def star(scope, qual):
    """the columns of a star in order, None when not all of them are known"""
    if qual is None:
        return list(scope.cols) if scope.complete else None
    cols = [c for c in scope.cols if eq(c.src, qual)]
    hits = [r for r in scope.rels if eq(r.id, qual)]
    if not hits or not all(r.complete for r in hits) or len(hits) > 1:
        return None
    return cols


def join(left, right, how, names=()):
    if how == "natural":
        names = []
        for c in left.cols:
            if c.name is not None and any(eq(c.name, d.name) for d in right.cols):
                names.append(c.name)
    common = []
    used = lambda c: any(eq(c.name, n) for n in names)
    for n in names:
        l, r = [c for c in left.cols if eq(c.name, n)], [c for c in right.cols if eq(c.name, n)]
        if len(l) == 1 and len(r) == 1 and l[0].n is not None and r[0].n is not None:
            common.append(Col(n, None, mx(l[0].n, r[0].n), l[0].sure and r[0].sure))
        else:
            common.append(Col(n, None, None))
    rest = [c for c in left.cols + right.cols if not used(c)]
    rels = []
    for r in left.rels + right.rels:
        # what qualifier.* stands for when columns were merged is left open
        merged = any(used(c) and eq(c.src, r.id) for c in left.cols + right.cols)
        rels.append(Rel(r.id, r.complete) if not merged else Merged(r.id, r.complete))
    return Scope(common + rest, rels, left.may_reject or right.may_reject)


class Merged(Rel):
    pass


class World:
    """builds relations of the code under test along with the scope they should have"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.g = Gen(ctx)
        self.r, self.x, self.dt = self.g.r, self.g.x, self.g.dt
        self.user = []  # entries the user gave
        self.fields, self.ids = [], set()
        self.own = False

    def n(self):
        return self.ctx.int("n", 1, 60, 1 + self.ctx._n.get("n", 0))

    def t(self, n):
        return self.dt.varchar(max_chars=n)

    def declare(self, name, cols, schema=None, catalog=None):
        """a table whose columns the user tells"""
        tbl = self.r.Table(name, schema, catalog)
        scope = []
        for c in cols:
            n = self.n()
            self.fields.append(self.r.SchemaField(c, tbl, self.t(n)))
            scope.append(Col(c, name, n))
        self.ids.add("".join([name]) if isinstance(name, str) else name)
        self.user.append(Entry(name, Scope(scope, [Rel(name)]), schema, catalog))

    def schema(self):
        return self.r.Schema(fields=list(self.fields), relation_ids=set(e.name for e in self.user))

    def table(self, env, name, schema=None, catalog=None):
        s, must = lookup(env, name, schema, catalog)
        tbl = self.r.Table(name, schema, catalog)
        if s is None:
            return tbl, Scope([], [Rel(name, False)])
        return tbl, Scope([Col(c.name, name, c.n, c.sure and must) for c in s.cols], [Rel(name, s.complete)])

    def known(self, name, cols):
        """a table that remembers its columns"""
        tbl = self.r.Table(name)
        fields, scope = [], []
        for c in cols:
            n = self.n()
            fields.append(self.r.SchemaField(c, tbl, self.t(n)))
            scope.append(Col(c, name, n))
        tbl._column_schema = self.r.Schema(fields=fields, relation_ids={name})
        return tbl, Scope(scope, [Rel(name)])

    def alias(self, rs, name, cols=None):
        rel, s = rs
        out = [c.renamed(c.name if cols is None else None, name) for c in s.cols]
        may = s.may_reject
        if cols is not None:
            if len(cols) == len(out):
                for c, a in zip(out, cols):
                    c.name = a
            else:
                out = [Col(a, name, None) for a in cols]
        return self.r.AliasedRelation(rel, name, cols), Scope(out, [Rel(name, s.complete or cols is not None)], may)

    def select(self, items, rs, **kw):
        """a query of the columns in `items`: (name, qualifier, alias) or ('*', qualifier, aliases)"""
        rel, s = rs
        vals, out, complete, may = [], [], True, s.may_reject
        x = self.x
        for name, qual, al in items:
            if name == "*":
                st = x.Star(qual)
                vals.append(st if al is None else x.AliasedStar(st, al))
                if qual is not None and any(isinstance(r, Merged) and eq(r.id, qual) for r in s.rels):
                    self.ctx.assume(False)
                cols = star(s, qual)
                if cols is None:
                    if al is not None:
                        out += [Col(z, None, None) for z in al]
                        continue
                    complete = False
                    out.append(None)
                    continue
                if al is not None:
                    if len(al) != len(cols):
                        raise Reject()
                    cols = [c.renamed(a, None) for a, c in zip(al, cols)]
                out += [c.renamed(c.name, None) for c in cols]
            else:
                f = x.Field(name, qual)
                vals.append(f if al is None else x.AliasedValue(f, al))
                c = refer(s, name, qual)
                out.append(Col(name if al is None else al, None, None if c is None else c.n, c is not None and c.sure))
        q = self.r.SelectQuery(vals, from_=rel, **kw)
        return q, Out(out, complete, may)

    def as_relation(self, qo):
        """a query used as a relation in FROM"""
        q, o = qo
        return q, Scope([c for c in o.cols if c is not None], [Rel(None, o.complete)], o.may_reject)


class Out:
    def __init__(self, cols, complete, may_reject=False):
        self.cols, self.complete, self.may_reject = cols, complete, may_reject


def type_ok(ctx, w, got, c):
    """the type is the one of column c"""
    unk = got.type_name == "UNKNOWN"
    if c is None or c.n is None:
        return unk
    if unk:
        return not c.sure
    return deep_eq(got, w.t(c.n))


def run(ctx, w, make):
    """make() gives (query, Out) or says Reject; the query is resolved against the user's schema"""
    rejected = False
    try:
        q, out = make()
    except Reject:
        rejected = True
        q = w.pending() if hasattr(w, "pending") else None
    ctx.assume(q is not None)
    text = str(q.sql(w.g.T.base.PrintOptions())) if not ctx.symbolic else q
    try:
        s = q.resolve(w.schema())
    except NotImplementedError:
        raise
    except Exception as e:
        ctx.check(rejected or out.may_reject, "a query that is valid resolves", lambda: "%s: %s: %s" % (describe(w, text), type(e).__name__, e))
        return
    ctx.check(not rejected, "a name with two meanings is rejected", lambda: "%s resolved to %s" % (describe(w, text), fields(s)))
    if rejected:
        return
    if not out.complete:
        # what is in front of the star that isn't known still is in its place
        front = out.cols[: [c is None for c in out.cols].index(True)] if None in out.cols else out.cols
        got = s.fields[: len(front)]
        ok = len(got) == len(front)
    else:
        front, got = out.cols, s.fields
        ok = len(got) == len(front)
    ctx.check(ok, "the columns of the query, in order", lambda: "%s has the columns %s" % (describe(w, text), fields(s)))
    if not ok:
        return
    for c, f in zip(front, got):
        same = (f.name is None) if c.name is None else (f.name is not None and leaf_eq(f.name, c.name))
        ctx.check(same, "column name", lambda: "%s has the columns %s" % (describe(w, text), fields(s)))
        ctx.check(type_ok(ctx, w, f.data_type, c), "type of the column", lambda: "%s: column %s has type %r, expected %s" % (describe(w, text), f.name, f.data_type, c.n))
        ctx.check(f.source is q, "column of the query itself", lambda: "%s" % describe(w, text))
    if out.complete and len(got):
        # the query as a value is a row of its columns, or the value of the only one
        types = [f.data_type for f in got]
        want = types[0] if len(types) == 1 else w.dt.row(dtypes=types)
        have = q.data_type
        partly = any(t.type_name == "UNKNOWN" for t in types) or stars(q)
        ok = deep_eq(have, want)
        ctx.check(ok if not partly else have.type_name == "UNKNOWN" or ok, "type of the query as a value", lambda: "%s has the type %r, its columns %s" % (describe(w, text), have, fields(s)))


def stars(q):
    """what the query selects isn't spelled out"""
    if hasattr(q, "left_query"):
        return stars(q.left_query) or stars(q.right_query)
    return any(type(v).__name__ in ("Star", "AliasedStar") for v in getattr(q, "select", []))


def fields(s):
    return [(f.name, repr(f.data_type)) for f in s.fields]


def describe(w, text):
    return "%s with %s" % (text if isinstance(text, str) else render(text), [("%s.%s.%s.%s" % (f.source.catalog, f.source.schema, f.source.name, f.name), repr(f.data_type)) for f in w.fields])


def distinct(ctx, names):
    for i, a in enumerate(names):
        for b in names[:i]:
            ctx.assume(a != b)


def two_tables(ctx, w, cols=2):
    """t(c..) and u(d..) known to the user"""
    t, u = w.g.name("t"), w.g.name("u")
    ctx.assume(t != u)
    cs, ds = [w.g.name("c") for _ in range(cols)], [w.g.name("d") for _ in range(cols)]
    distinct(ctx, cs)
    distinct(ctx, ds)
    w.declare(t, cs)
    w.declare(u, ds)
    return t, u, cs, ds


ITEMS = ["field", "qualified", "star", "qstar", "aliased", "aliased_star", "field_star"]


def some_items(ctx, w, s, kind=None):
    g = w.g
    kind = kind or ctx.pick("item", ITEMS)
    if kind == "field":
        return [(g.name("ref"), None, None)]
    if kind == "qualified":
        return [(g.name("ref"), g.name("qual"), None)]
    if kind == "star":
        return [("*", None, None)]
    if kind == "qstar":
        return [("*", g.name("qual"), None)]
    if kind == "aliased":
        return [(g.name("ref"), None, g.name("as"))]
    if kind == "field_star":
        return [(g.name("ref"), g.name("qual"), g.name("as")), ("*", None, None)]
    n = 1 + ctx.choose("aliases", 3)
    return [("*", g.name("qual"), [g.name("as") for _ in range(n)])]


def make_select(w, items, rs, **kw):
    """builds the query first, so that it is there when the reference resolver rejects it"""
    rel, s = rs

    def f():
        return w.select(items(s) if callable(items) else items, rs, **kw)

    return f


class Pending:
    pass


def check_query(ctx, w, items, rs, **kw):
    x = w.x
    vals = []
    for name, qual, al in items:
        if name == "*":
            st = x.Star(qual)
            vals.append(st if al is None else x.AliasedStar(st, al))
        else:
            f = x.Field(name, qual)
            vals.append(f if al is None else x.AliasedValue(f, al))
    w.pending = lambda: w.r.SelectQuery(vals, from_=rs[0], **kw)
    run(ctx, w, lambda: w.select(items, rs, **kw))


def h_table(ctx):
    """one table, every way to name it and its columns"""
    w = World(ctx)
    g = w.g
    kind = ctx.pick("declared", ["plain", "schema", "catalog", "two_schemas", "none"])
    t = g.name("t")
    cs = [g.name("c"), g.name("c")]
    distinct(ctx, cs)
    if kind == "plain":
        w.declare(t, cs)
    elif kind == "schema":
        w.declare(t, cs, g.name("s"))
    elif kind == "catalog":
        w.declare(t, cs, g.name("s"), g.name("k"))
    elif kind == "two_schemas":
        a, b = g.name("s"), g.name("s")
        ctx.assume(a != b)
        w.declare(t, cs[:1], a)
        w.declare(t, cs[1:], b)
    ref = ctx.pick("from", ["t", "s.t", "k.s.t"])
    if kind == "two_schemas":
        ctx.assume(ref != "t")  # which of them the session's schema has isn't known
    name = g.name("from")
    rs = w.table(w.user, name, g.name("fs") if ref != "t" else None, g.name("fk") if ref == "k.s.t" else None)
    check_query(ctx, w, some_items(ctx, w, rs[1]), rs)


def h_alias(ctx):
    """aliased relations, with and without column aliases"""
    w = World(ctx)
    g = w.g
    t = g.name("t")
    cs = [g.name("c"), g.name("c")]
    distinct(ctx, cs)
    w.declare(t, cs)
    over = ctx.pick("over", ["table", "unknown", "sample", "alias", "values", "subquery"])
    a = g.name("al")
    n = ctx.pick("columns", [None, 2, 1, 3] if over == "table" else [None, 2])
    cols = None if n is None else [g.name("col") for _ in range(n)]
    if cols:
        distinct(ctx, cols)
    if over == "table":
        rs = w.table(w.user, t)
    elif over == "unknown":
        o = g.name("o")
        ctx.assume(o != t)
        rs = w.table(w.user, o)
    elif over == "sample":
        rel, s = w.table(w.user, t)
        rs = w.r.TableSample(rel, w.r.SampleType.SYSTEM, g.lit_int(1, 9)), s
    elif over == "alias":
        rs = w.alias(w.table(w.user, t), g.name("inner"))
    elif over == "values":
        m1, m2 = w.n(), w.n()
        lit = lambda n: w.x.Literal("v", data_type=w.t(n))
        rs = w.r.ValuesQuery([w.x.RowConstructor([lit(m1), lit(m2)])]), Scope([Col(None, None, m1), Col(None, None, m2)], [Rel(None)])
    else:
        inner, s = w.known(g.name("k"), cs)
        rs = w.as_relation(w.select([("*", None, None)], (inner, s)))
    rs = w.alias(rs, a, cols)
    if over == "table" and ctx.flag("sampled"):
        rs = w.r.TableSample(rs[0], w.r.SampleType.BERNOULLI, g.lit_int(1, 9)), rs[1]
    check_query(ctx, w, some_items(ctx, w, rs[1]), rs)


JOINS = ["cross", "inner", "left", "full", "using", "using2", "natural", "natural_left"]


def a_join(ctx, w, left, right, kind, names=None):
    r, x, g = w.r, w.x, w.g
    T = r.JoinType
    if kind in ("using", "using2"):
        names = names or [g.name("using") for _ in range(1 if kind == "using" else 2)]
        distinct(ctx, names)
        s = join(left[1], right[1], "using", names)
        return r.Join(left[0], right[0], r.JoinConfig(T.INNER if kind == "using" else T.OUTER, criteria=r.JoinUsingCriteria(names))), s
    if kind.startswith("natural"):
        # the common columns aren't known when not all columns are
        ctx.assume(left[1].complete and right[1].complete)
        return r.Join(left[0], right[0], r.JoinConfig(T.LEFT if kind == "natural_left" else T.INNER, natural=True)), join(left[1], right[1], "natural")
    crit = None if kind == "cross" else r.JoinOnCriteria(x.Equal(g.field(), g.field()))
    t = {"cross": T.CROSS, "inner": T.INNER, "left": T.LEFT, "full": T.OUTER}[kind]
    return r.Join(left[0], right[0], r.JoinConfig(t, criteria=crit)), join(left[1], right[1], kind)


def h_join(ctx):
    """two relations joined in every way"""
    w = World(ctx)
    g = w.g
    sides = ctx.pick("sides", ["two", "self", "aliased", "unknown_right", "unknown_left", "subquery"])
    kind = ctx.pick("join", JOINS if ctx.thorough else ["cross", "inner", "left", "full", "using", "natural"] if sides == "two" else ["inner", "using", "natural"])
    t, u = g.name("t"), g.name("u")
    ctx.assume(t != u)
    c, d = [g.name("c")], [g.name("d")]
    if sides in ("two", "aliased") and (ctx.thorough or kind in ("using", "natural", "inner")):
        c.append(g.name("c"))
        distinct(ctx, c)
    w.declare(t, c)
    if sides not in ("unknown_right", "unknown_left"):
        w.declare(u, d)
    left = w.table(w.user, t)
    right = w.table(w.user, t if sides == "self" else u)
    if sides == "unknown_left":
        left, right = right, left
    if sides == "aliased":
        a, b = g.name("a"), g.name("b")
        left = w.alias(left, a)
        right = w.alias(w.table(w.user, t), b)
    if sides == "subquery":
        right = w.alias(w.as_relation(w.select([(d[0], None, None)], w.known(u, d))), g.name("b"))
    rs = a_join(ctx, w, left, right, kind)
    items = ["field", "qualified", "star", "qstar"] if not ctx.thorough else ITEMS
    check_query(ctx, w, some_items(ctx, w, rs[1], ctx.pick("item", items)), rs)


def h_joins(ctx):
    """three relations joined, joins aliased, joined with subqueries"""
    w = World(ctx)
    g = w.g
    shape = ctx.pick("shape", ["left", "right", "alias", "alias_cols", "sub_left"])
    k1 = ctx.pick("join1", ["cross", "using", "natural"])
    k2 = ctx.pick("join2", ["left", "using", "natural"] if ctx.thorough or shape in ("left", "alias") else ["using"])
    names = ["t", "u", "v"]
    cols = {n: [g.name("c" + n)] for n in names}
    if ctx.thorough:
        cols["t"].append("z")
        distinct(ctx, cols["t"])
    for n in names:
        w.declare(n, cols[n])
    t, u, v = [w.table(w.user, n) for n in names]
    if shape == "left":
        rs = a_join(ctx, w, a_join(ctx, w, t, u, k1), v, k2)
    elif shape == "right":
        rs = a_join(ctx, w, t, a_join(ctx, w, u, v, k1), k2)
    elif shape == "sub_left":
        q = w.as_relation(w.select([("*", None, None)], w.known("t", cols["t"])))
        rs = a_join(ctx, w, a_join(ctx, w, q, u, k1), v, k2)
    else:
        rs = a_join(ctx, w, t, u, k1)
        cs = [g.name("al") for _ in rs[1].cols] if shape == "alias_cols" else None
        if cs:
            distinct(ctx, cs)
        rs = a_join(ctx, w, w.alias(rs, "j", cs), v, k2)
    item = ctx.pick("item", ["field", "qualified", "star"])
    ref = [g.name("ref"), ctx.pick("qual", names + ["j"])] if item == "qualified" else None
    items = [(ref[0], ref[1], None)] if ref else some_items(ctx, w, rs[1], item)
    check_query(ctx, w, items, rs)


def h_subqueries(ctx):
    """columns of a query inside FROM, by the names it gives them"""
    w = World(ctx)
    g = w.g
    cs = [g.name("c"), g.name("c")]
    distinct(ctx, cs)
    w.declare("z", ["zz"])
    inner = ctx.pick("inner", ["field", "qualified", "star", "aliased", "aliased_star", "field_star", "swap", "table", "two"])
    base = w.known(ctx.pick("base", ["k", "z"]), cs)
    # a subquery doesn't see what is outside of it
    try:
        if inner == "table":
            q, o = w.r.TableQuery(base[0]), Out([c.renamed(c.name, None) for c in base[1].cols], True)
        elif inner == "swap":
            q, o = w.select([(cs[1], None, cs[0]), (cs[0], None, g.name("as"))], base)
        elif inner == "two":
            q, o = w.select([(cs[0], None, None)], base)
            q, o = w.select([("*", None, None)], w.alias(w.as_relation((q, o)), g.name("mid")))
        else:
            q, o = w.select(some_items(ctx, w, base[1], inner), base)
    except Reject:
        ctx.assume(False)
    rs = w.as_relation((q, o))
    if ctx.flag("named"):
        rs = w.alias(rs, g.name("al"))
    if ctx.flag("joined"):
        rs = a_join(ctx, w, rs, w.table(w.user, "z"), "cross")
    check_query(ctx, w, some_items(ctx, w, rs[1], ctx.pick("item", ["field", "qualified", "star", "qstar"])), rs)


def h_with(ctx):
    """named queries hide tables of the same name and see the ones before them"""
    w = World(ctx)
    g = w.g
    t = g.name("t")
    cs = [g.name("c")]
    w.declare(t, cs)
    env = list(w.user)
    with_ = []
    count = 1 + ctx.choose("count", 2)
    for i in range(count):
        name = g.name("cte")
        frm = t if i == 0 else g.name("frm")
        rs = w.table(env, frm)
        kind = ctx.pick("body", ["star", "field", "aliased"] if ctx.thorough or count == 1 else ["field"] if i == 0 else ["star", "aliased"])
        items = {"star": lambda: [("*", None, None)], "field": lambda: [(cs[0] if i == 0 else g.name("ref"), None, None)], "aliased": lambda: [(cs[0], None, g.name("as"))]}[kind]()
        try:
            q, o = w.select(items, rs)
        except Reject:
            ctx.assume(False)
        cols = ctx.pick("cols", [None, 1])
        cols = None if cols is None else [g.name("col")]
        rel, s = w.alias((q, w.as_relation((q, o))[1]), name, cols)
        with_.append(rel)
        env.append(Entry(name, s, cte=True))
    names = [e.name for e in env if e.cte]
    distinct(ctx, names)
    frm = g.name("from")
    how = ctx.pick("from", ["table", "alias", "join", "qualified"] if ctx.thorough or count == 1 else ["table", "qualified"])
    if how == "table":
        rs = w.table(env, frm)
    elif how == "alias":
        rs = w.alias(w.table(env, frm), g.name("al"))
    elif how == "qualified":
        rs = w.table(env, frm, "s")
    else:
        rs = a_join(ctx, w, w.table(env, frm), w.table(env, names[0]), "cross")
    item = ctx.pick("item", ["field", "star", "qualified"] if not ctx.thorough else ITEMS)
    check_query(ctx, w, some_items(ctx, w, rs[1], item), rs, with_=with_)


def body(ctx, w, env, kind, name, name2=None):
    """a query of what the names stand for, and its columns"""
    if kind == "table":
        t, s = w.table(env, name)
        return w.r.TableQuery(t), Out([c.renamed(c.name, None) for c in s.cols] if s.complete else [None], s.complete, s.may_reject)
    if kind == "star":
        return w.select([("*", None, None)], w.table(env, name))
    if kind == "alias":
        return w.select([("*", "al", None)], w.alias(w.table(env, name), "al"))
    if kind == "sub":
        # a query in FROM is told nothing of what is around it
        q, o = w.select([("*", None, None)], w.table([], name))
        return w.select([("*", None, None)], w.as_relation((q, o)))
    a, b = body(ctx, w, env, "star", name), body(ctx, w, env, "table", name2)
    q = w.r.UnionQuery(a[0], b[0])
    if not (a[1].complete and b[1].complete) or len(a[1].cols) != len(b[1].cols):
        return q, Out([c and Col(c.name, None, None) for c in a[1].cols], a[1].complete, True)
    return q, Out([Col(c.name, None, mx(c.n, d.n) if None not in (c.n, d.n) else None, c.sure and d.sure) for c, d in zip(a[1].cols, b[1].cols)], True)


def h_shadow(ctx):
    """WITH inside of WITH: a name means the nearest named query in front of it, wherever it is used"""
    w = World(ctx)
    g = w.g
    kinds = ["table", "star", "union"] + (["alias", "sub"] if ctx.thorough else [])
    w.declare("t", ["tc"])
    w.declare("u", ["uc", "ud"])

    def named(env, qo, name):
        q, o = qo
        ctx.assume(o.complete)
        rel, s = w.alias((q, Scope([c.renamed(c.name, None) for c in o.cols], [Rel(None, True)], o.may_reject)), name)
        return rel, env + [Entry(name, s, cte=True)]

    try:
        env = list(w.user)
        # the outer named query: one column, of t
        first, env1 = named(env, w.select([("tc", None, "a")], w.table(env, "t")), g.name("outer"))
        # the one inside of the next: two columns, of u, or what is called by some name
        source = ctx.pick("source", ["u", "name"])
        within = body(ctx, w, env1, "star", "u") if source == "u" else body(ctx, w, env1, ctx.pick("within", ["table", "star"] if ctx.thorough else ["table"]), g.name("ref"))
        inner, env2 = named(env1, within, g.name("inner"))
        kind = ctx.pick("second", kinds)
        q, o = body(ctx, w, env2, kind, g.name("ref"), g.name("ref") if kind == "union" else None)
        q.with_ = [inner]
        second, env3 = named(env1, (q, o), g.name("second"))
        ctx.assume(env3[-1].name != env3[-2].name)
        # the query itself doesn't see the inner one
        kind = ctx.pick("main", kinds if ctx.thorough else ["star"] if kind == "union" else ["table"])
        q, o = body(ctx, w, env3, kind, g.name("ref"), g.name("ref") if kind == "union" else None)
    except Reject:
        ctx.assume(False)
    q.with_ = [first, second]
    run(ctx, w, lambda: (q, o))


def h_set(ctx):
    """set operations: names of the left query, common types position by position"""
    w = World(ctx)
    g = w.g
    r = w.r
    t, u, cs, ds = two_tables(ctx, w)
    op = ctx.pick("op", [r.UnionQuery, r.IntersectQuery, r.ExceptQuery])

    def side(name, cols, label):
        rs = w.table(w.user, name)
        kind = ctx.pick(label, ["star", "fields", "swapped", "one", "unknown"])
        if kind == "unknown":
            o = g.name("o")
            ctx.assume(o != t)
            ctx.assume(o != u)
            return w.select([("*", None, None)], w.table(w.user, o))
        return w.select({"star": [("*", None, None)], "fields": [(c, None, None) for c in cols], "swapped": [(c, None, None) for c in reversed(cols)], "one": [(cols[0], name, None)]}[kind], rs)

    a, b = side(t, cs, "left"), side(u, ds, "right")
    q = op(a[0], b[0])
    if not (a[1].complete and b[1].complete) or len(a[1].cols) != len(b[1].cols):
        cols = [c and Col(c.name, None, None) for c in a[1].cols]
        out = Out(cols, a[1].complete, a[1].complete and b[1].complete)
    else:
        out = Out([Col(c.name, None, mx(c.n, d.n), c.sure and d.sure) for c, d in zip(a[1].cols, b[1].cols)], True)
    if ctx.flag("nested"):
        # the set operation is a relation of another query; its tables tell their columns only themselves
        ctx.assume(a[1].complete and b[1].complete and len(a[1].cols) == len(b[1].cols))
        for c in out.cols:
            c.sure = False
        rs = w.as_relation((q, out))
        if ctx.flag("named"):
            rs = w.alias(rs, "al")
        rs[1].rels = [Rel(rel.id, False) for rel in rs[1].rels]
        check_query(ctx, w, some_items(ctx, w, rs[1], ctx.pick("item", ["field", "qualified"])), rs)
        return
    run(ctx, w, lambda: (q, out))


def h_unknown(ctx):
    """columns of tables that nobody tells stay unknown, and nothing about them is rejected"""
    w = World(ctx)
    g = w.g
    w.declare("t", [g.name("c")])
    o = g.name("o")
    ctx.assume(o != "t")
    rel, s = w.table(w.user, o)
    for i in range(ctx.choose("depth", 3)):
        how = ctx.pick("how%d" % i, ["star", "named_star", "one", "aliases", "union"])
        x, r = w.x, w.r
        if how == "one":
            q = r.SelectQuery([x.Field(g.name("ref"), None)], from_=rel)
        elif how == "aliases":
            q = r.AliasedRelation(rel, "al", [g.name("as"), "second"])
        elif how == "union":
            q = r.UnionQuery(r.SelectQuery([x.Star()], from_=rel), r.SelectQuery([x.Field("p"), x.Field("q")], from_=w.r.Table("other")))
        else:
            q = r.SelectQuery([x.Star()], from_=rel)
        rel = r.AliasedRelation(q, "al%d" % i) if how == "named_star" else q
    if not isinstance(rel, w.r.AliasedRelation):
        rel = w.r.AliasedRelation(rel, "z")
    item = ctx.pick("item", ["field", "qualified", "star", "qstar", "aliased_star"])
    x = w.x
    name = g.name("ref")
    v = {"field": lambda: x.Field(name), "qualified": lambda: x.Field(name, rel.alias), "star": lambda: x.Star(), "qstar": lambda: x.Star(rel.alias), "aliased_star": lambda: x.AliasedStar(x.Star(rel.alias), [name, "b2"])}[item]()
    q = w.r.SelectQuery([v], from_=rel)
    try:
        got = q.resolve(w.schema())
    except Exception as e:
        # the number of columns is known after all when one or two of them are named
        known = w.r and any(isinstance(n, w.r.SelectQuery) and len(n.select) == 1 and isinstance(n.select[0], x.Field) for _, n in nodes(rel)) or any(isinstance(n, w.r.AliasedRelation) and n.column_aliases for _, n in nodes(rel))
        ctx.check(known and item == "aliased_star" or item in ("field", "qualified"), "nothing is rejected", lambda: "%s: %s" % (render(q), e))
        return
    for f in got.fields:
        ctx.check(f.data_type.type_name == "UNKNOWN", "no type is made up", lambda: "%s: %s" % (render(q), fields(got)))
    if item == "aliased_star":
        ctx.check(len(got.fields) == 2 and leaf_eq(got.fields[0].name, name), "the aliases name the columns", lambda: "%s: %s" % (render(q), fields(got)))


def h_set_of_known(ctx):
    """set operations inside FROM over tables that know their columns"""
    w = World(ctx)
    g = w.g
    r = w.r
    cs, ds = [g.name("c"), g.name("c")], [g.name("d"), g.name("d")]
    distinct(ctx, cs)
    distinct(ctx, ds)
    a = w.select([("*", None, None)], w.known("t", cs))
    b = w.select([(ds[1], None, None), (ds[0], None, None)] if ctx.flag("swapped") else [("*", None, None)], w.known("u", ds))
    q = ctx.pick("op", [r.UnionQuery, r.IntersectQuery, r.ExceptQuery])(a[0], b[0])
    out = Out([Col(c.name, None, mx(c.n, d.n)) for c, d in zip(a[1].cols, b[1].cols)], True)
    rs = w.as_relation((q, out))
    al = ctx.pick("alias", [None, "plain", "cols"])
    if al:
        cols = [g.name("col"), g.name("col")] if al == "cols" else None
        if cols:
            distinct(ctx, cols)
        rs = w.alias(rs, g.name("al"), cols)
    check_query(ctx, w, some_items(ctx, w, rs[1], ctx.pick("item", ["field", "qualified", "star"])), rs)


def h_correlated(ctx):
    """UNNEST and LATERAL see the relations to their left"""
    w = World(ctx)
    g = w.g
    r, x, dt = w.r, w.x, w.dt
    t, u = g.name("t"), g.name("u")
    ctx.assume(t != u)
    c, d = g.name("c"), g.name("d")
    n, m = w.n(), w.n()
    for name, col, ln in ((t, c, n), (u, d, m)):
        tbl = r.Table(name)
        w.fields.append(r.SchemaField(col, tbl, dt.array(dtype=w.t(ln))))
        w.user.append(Entry(name, None))
    ref, qual = g.name("ref"), ctx.pick("qual", [None, 1]) and g.name("qual")
    left = ctx.pick("left", ["t", "t_u", "alias"])
    if left == "t":
        rel, scope = r.Table(t), [Col(c, t, n)]
    elif left == "alias":
        al = g.name("al")
        rel, scope = r.AliasedRelation(r.Table(t), al), [Col(c, al, n)]
    else:
        rel, scope = r.Join(r.Table(t), r.Table(u), r.JoinConfig(r.JoinType.CROSS)), [Col(c, t, n), Col(d, u, m)]
    other = r.Table(u)
    known = Scope(scope, [Rel(z.src) for z in scope])
    cands = [z for z in scope if eq(z.name, ref) and (qual is None or eq(z.src, qual))]
    # it doesn't see relations that are only known to the user
    how = ctx.pick("how", ["unnest", "unnest_alias", "unnest_ordinality"])
    un = r.Unnest([x.Field(ref, qual)], with_ordinality=how == "unnest_ordinality")
    right = un if how != "unnest_alias" else r.AliasedRelation(un, "un", ["e"])
    q = r.SelectQuery([x.Star()] if how != "unnest_alias" else [x.Field("e", "un")], from_=r.Join(rel, right, r.JoinConfig(r.JoinType.CROSS)))
    try:
        s = q.resolve(w.schema())
    except Exception as e:
        ctx.check(len(cands) != 1, "a valid query resolves", lambda: "%s: %s" % (type(e).__name__, e))
        return
    got = s.fields[-2 if how == "unnest_ordinality" else -1].data_type
    if len(cands) == 1:
        ctx.check(deep_eq(got, w.t(cands[0].n)), "element type of the array it names", lambda: "%s: %s" % (render(q), fields(s)))
    elif len(cands) > 1:
        ctx.check(False, "a name with two meanings is rejected", lambda: "%s: %s" % (render(q), fields(s)))
    else:
        ctx.check(got.type_name == "UNKNOWN", "no type for what isn't there", lambda: "%s: %s" % (render(q), fields(s)))
    if how != "unnest_alias" and len(cands) == 1:
        want = [dt.array(dtype=w.t(z.n)) for z in scope] + [w.t(cands[0].n)] + ([dt.bigint()] if how == "unnest_ordinality" else [])
        ctx.check(len(want) == len(s.fields) and zand_all([deep_eq(f.data_type, y) for f, y in zip(s.fields, want)]), "star expands to all of them in order", lambda: "%s: %s" % (render(q), fields(s)))


def h_lateral(ctx):
    """the query of LATERAL refers to its own relations"""
    w = World(ctx)
    g = w.g
    r, x = w.r, w.x
    t, u, cs, ds = two_tables(ctx, w, 1)
    items = some_items(ctx, w, None, ctx.pick("inner", ["star", "field", "aliased"]))
    try:
        q, o = w.select(items, w.table(w.user, u))
    except Reject:
        ctx.assume(False)
    s = w.as_relation((q, o))[1]
    rs = w.r.Lateral(q), s
    if ctx.flag("named"):
        rs = w.alias(rs, g.name("al"))
    rs = a_join(ctx, w, w.table(w.user, t), rs, "cross")
    check_query(ctx, w, some_items(ctx, w, rs[1], ctx.pick("item", ["field", "qualified", "star"])), rs)


EXPRS = [n for n in ZOO if n.split(":")[0] in ("expr", "fn", "agg", "part") and n not in ("part:groupby", "part:window", "part:star", "part:aliasedstar", "part:orderterm", "part:bounds", "part:using", "part:natural", "fn:COUNT_STAR", "expr:Deref")]


class _Names(Gen):
    """all names are among few"""

    def __init__(self, g, names):
        super().__init__(g.ctx)
        self.names = list(names)
        self.i = 0

    def name(self, label="id"):
        return "zz"

    def field(self):
        self.i += 1
        return self.x.Field(self.names[self.i % len(self.names)])


def h_expressions(ctx):
    """every column reference anywhere in an expression is resolved, whatever the expression"""
    w = World(ctx)
    g = w.g
    x = w.x
    name = ctx.pick("expr", EXPRS if ctx.thorough else [e for e in EXPRS if not e.startswith("agg:") or e in ("agg:SUM", "agg:MIN_BY")])
    c, d = g.name("c"), g.name("d")
    ctx.assume(c != d)
    w.declare("t", [c, d])
    ref = g.name("ref")
    e = ZOO[name](_Names(g, [c, ref, d]))
    quals = [f for _, f in nodes(e) if isinstance(f, x.Field)]
    q = w.r.SelectQuery([x.AliasedValue(e, "al") if not isinstance(e, x.AliasedValue) else e], from_=w.r.Table("t"))
    before = type(e)
    try:
        s = q.resolve(w.schema())
    except Exception as err:
        ctx.check(False, "expressions resolve", lambda: "%s: %s: %s" % (render(e), type(err).__name__, err))
        return
    v = q.select[0].value
    ctx.check(type(v) is (before if not isinstance(e, x.AliasedValue) else type(e.value)), "the same expression", lambda: render(v))
    types = {id(f.data_type): None for f in w.fields}
    inside = set()
    for _, n in nodes(v):
        if isinstance(n, w.r.Query):
            inside.update(id(m) for _, m in nodes(n) if m is not n)
    count = 0
    for path, f in nodes(v):
        if not isinstance(f, x.Field) or id(f) in inside or f.table is not None:
            continue
        count += 1
        hit = [z for z in w.user[0].scope.cols if eq(z.name, f.name)]
        ok = deep_eq(f.data_type, w.t(hit[0].n)) if hit else f.data_type.type_name == "UNKNOWN"
        ctx.check(ok, "every reference has its column's type", lambda: "%s in %s: %r" % (path, render(v), f.data_type))
    # the expression has the type of one built of references of these types
    try:
        again = rebuild(v, x)
    except Exception:
        return
    ctx.check(deep_eq(v.data_type, again.data_type), "type of the expression follows", lambda: "%s: %r, expected %r" % (render(v), v.data_type, again.data_type))


class BigWorld(World):
    """the columns of long lists have types of fixed, different lengths"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.count = 0

    def n(self):
        self.count += 1
        return self.count


def h_long(ctx):
    """many columns, many relations, deep nesting"""
    w = BigWorld(ctx)
    g = w.g
    what = ctx.pick("what", ["star", "each", "reverse", "aliases", "alias_star", "using", "tables", "tables_qualified", "subqueries", "renamed", "ctes", "union", "set_chain"])
    chain = what in ("tables", "tables_qualified", "subqueries", "renamed", "ctes", "set_chain")
    # an alias of any other length than the columns is an error
    ns = long_names(g, ctx.pick("size", (deep_sizes(ctx) if chain else long_sizes(ctx)) if ctx.thorough else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10] if chain else [1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33]))
    n = len(ns)
    if what in ("star", "each", "reverse"):
        w.declare("t", ns)
        rs = w.table(w.user, "t")
        items = {"star": lambda: [("*", None, None)], "each": lambda: [(c, None, None) for c in ns], "reverse": lambda: [(c, "t", None) for c in reversed(ns)]}[what]()
        return check_query(ctx, w, items, rs)
    if what in ("aliases", "alias_star"):
        w.declare("t", ["x%d" % i for i in range(n)])
        if what == "alias_star":
            return check_query(ctx, w, [("*", "t", ns)], w.table(w.user, "t"))
        return check_query(ctx, w, [(c, None, None) for c in reversed(ns)] + [("*", "a", None)], w.alias(w.table(w.user, "t"), "a", ns))
    if what == "using":
        w.declare("t", ns + ["tt"])
        w.declare("u", ["uu"] + ns)
        rs = a_join(ctx, w, w.table(w.user, "t"), w.table(w.user, "u"), "using", ns)
        return check_query(ctx, w, [("*", None, None), (ns[-1], None, None), ("uu", None, None)], rs)
    if what in ("tables", "tables_qualified"):
        for i, c in enumerate(ns):
            w.declare("t%d" % i, [c])
        rs = w.table(w.user, "t0")
        for i in range(1, n):
            rs = a_join(ctx, w, rs, w.table(w.user, "t%d" % i), "cross")
        items = [("*", None, None)] if what == "tables" else [(c, "t%d" % i, None) for i, c in reversed(list(enumerate(ns)))]
        return check_query(ctx, w, items, rs)
    if what in ("subqueries", "renamed", "ctes"):
        w.declare("z", ["zz"])
        rs = w.known("k", [ns[0], "keep"])
        with_, env = [], list(w.user)
        for i, c in enumerate(ns):
            if what == "subqueries":
                q, o = w.select([("*", None, None)], rs)
                rs = w.alias((q, w.as_relation((q, o))[1]), c)
            elif what == "renamed":
                q, o = w.select([(ns[max(0, i - 1)], None, c), ("keep", None, None)], rs)
                rs = w.as_relation((q, o))
            else:
                q, o = w.select([(ns[0], None, None), ("keep", None, "keep")], rs if i == 0 else w.table(env, ns[i - 1]))
                rel, s = w.alias((q, w.as_relation((q, o))[1]), c)
                with_.append(rel)
                env.append(Entry(c, s, cte=True))
                rs = w.table(env, c)
        last = {"subqueries": ns[0], "renamed": ns[-1], "ctes": ns[0]}[what]
        kw = {"with_": with_} if with_ else {}
        return check_query(ctx, w, [(last, None, None), ("*", None, None)], rs, **kw)
    # set operations: the left names, the wider type
    x, r = w.x, w.r
    wide = lambda i: 3 + (i * 7) % 11
    side = lambda names, f: r.SelectQuery([x.AliasedValue(x.Cast(x.NULL, data_type=w.t(f(i))), c) for i, c in enumerate(names)])
    if what == "union":
        q = r.UnionQuery(side(ns, lambda i: i + 1), side(["o%d" % i for i in range(n)], wide))
        want = [(c, max(i + 1, wide(i))) for i, c in enumerate(ns)]
    else:
        q = side(ns[:1], lambda i: 1)
        for i, c in enumerate(ns[1:]):
            q = r.UnionQuery(q, side([c], lambda _: wide(i)))
        want = [(ns[0], max([1] + [wide(i) for i in range(n - 1)]))]
    s = q.resolve(r.Schema(fields=[], relation_ids=set()))
    ctx.check(len(s.fields) == len(want), "the columns of the query, in order", lambda: "%s has the columns %s" % (render(q), fields(s)))
    for f, (c, k) in zip(s.fields, want):
        ctx.check(zand_all([leaf_eq(f.name, c), deep_eq(f.data_type, w.t(k))]), "column name and type", lambda: "%s has the columns %s" % (render(q), fields(s)))


def rebuild(v, x):
    """the node built anew from its children, so that its type is inferred again"""
    import attr

    kw = {}
    for f in attr.fields(type(v)):
        if f.name in ("data_type", "_column_schema") or not f.init:
            continue
        kw[f.name.lstrip("_")] = getattr(v, f.name)
    if type(v).__name__ in ("Cast", "TryCast", "Literal", "Field", "Interval", "TypeConstructor"):
        return v
    return type(v)(**kw)


def h_supplied(ctx):
    """a table that was told its columns tells the type of a query of it from the start"""
    w = World(ctx)
    g = w.g
    n = 1 + ctx.choose("columns", 3)
    cs = [g.name("c") for _ in range(n)]
    w.declare("t", cs)
    w.declare("u", ["d"])
    t = w.r.Table("t")
    f = t.resolve(w.schema()).fields
    ctx.check(len(f) == n and all(leaf_eq(a.name, c) for a, c in zip(f, cs)), "the columns of the table", lambda: fields(t._column_schema))
    types = [w.t(c.n) for c in w.user[0].scope.cols]
    want = types[0] if n == 1 else w.dt.row(dtypes=types)
    q = w.r.TableQuery(t)
    ctx.sample(lambda: render(q))
    ctx.check(deep_eq(q.data_type, want), "type of the query", lambda: "%s has the type %r" % (render(q), q.data_type))
    u = w.r.UnionQuery(q, w.r.TableQuery(t))
    ctx.check(deep_eq(u.data_type, want), "type of a set query of it", lambda: "%s has the type %r" % (render(u), u.data_type))


def h_merge(ctx):
    """merging schemas: all fields of the one and then the other, a field that is in both only once"""
    w = World(ctx)
    g = w.g
    r = w.r
    tabs = [r.Table(g.name("t")), r.Table(g.name("t"))]
    pool = [r.SchemaField(g.name("c"), ctx.pick("src", tabs), w.t(w.n())) for _ in range(3)]
    left = [pool[i] for i in range(2) if ctx.flag("left")]
    right = [pool[i] for i in range(3) if ctx.flag("right")]
    outer = [r.SchemaField("o", tabs[0], w.t(3))] if ctx.flag("outer") else []
    a = r.Schema(list(left), {f.source.name for f in left}, list(outer))
    b = r.Schema(list(right), {f.source.name for f in right} | {"z"})
    c = a.merge(b)
    want = left + [f for f in right if not any(f is x for x in left)]
    ctx.check(len(c.fields) == len(want) and all(x is y for x, y in zip(c.fields, want)), "the fields of both in order", lambda: "%s and %s give %s" % (fields(a), fields(b), fields(c)))
    ctx.check(a.relation_ids | b.relation_ids == c.relation_ids, "the relations of both", lambda: "%s and %s give %s" % (a.relation_ids, b.relation_ids, c.relation_ids))
    ctx.check(len(c.outer_fields) == len(outer) and all(x is y for x, y in zip(c.outer_fields, outer)), "the outer fields stay", lambda: fields(c))
    same = len(a.fields) == len(left) and len(b.fields) == len(right) and "z" not in (a.relation_ids - {t.name for t in tabs})
    ctx.check(same, "the schemas themselves stay as they are", lambda: "%s and %s" % (fields(a), fields(b)))


HARNESSES = [
    Harness("merge", h_merge, "schemas of 0..3 fields of a pool of 3 of 2 tables, symbolic names"),
    Harness("supplied", h_supplied, "tables of 1..3 columns that were told them before the query is built, symbolic names and types"),
    Harness("table", h_table, "one table with 2 columns declared in 4 ways or not, named in 3 ways, 7 kinds of items; all names symbolic letters, VARCHAR lengths 1..60 symbolic"),
    Harness("alias", h_alias, "6 kinds of relations under an alias with no, as many, fewer or more column aliases, 7 kinds of items"),
    Harness("join", h_join, "6 pairs of sides x 6 (thorough 8) joins x 4 (7) kinds of items, all names symbolic"),
    Harness("joins", h_joins, "3 relations in 5 shapes, 3 x 3 kinds of joins, symbolic column names"),
    Harness("subqueries", h_subqueries, "9 kinds of inner queries, with or without alias and join, 4 kinds of items"),
    Harness("shadow", h_shadow, "WITH inside of WITH: named queries of tables or of named queries, inside and outside, read by TABLE, SELECT (thorough also of an alias), UNION of both (quick: 3 pairs of them; thorough also a query in FROM); symbolic names"),
    Harness("with", h_with, "1..2 named queries of 3 bodies with or without column aliases, used in 4 ways, symbolic names"),
    Harness("set", h_set, "3 set operations of 5 x 5 sides, on their own and inside FROM"),
    Harness("set_of_known", h_set_of_known, "set operations inside FROM over tables with known columns, aliased in 3 ways"),
    Harness("unknown", h_unknown, "tables nobody knows below 0..2 relations of 5 kinds, 5 kinds of items"),
    Harness("unnest", h_correlated, "UNNEST of a column of the relations to its left (table, alias, join), symbolic names"),
    Harness("lateral", h_lateral, "LATERAL queries of 3 kinds, with or without alias"),
    Harness("expressions", h_expressions, "every kind of expression with every optional part as a select item: every reference in it and its own type"),
    Harness("long", h_long, "1..33 (thorough 513) columns, USING names, column aliases; 1..10 (25) joined tables, nested queries, named queries, united queries; one name symbolic"),
]
