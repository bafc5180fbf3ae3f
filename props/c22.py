"""C22: the command line tools present the same SQL the library reads."""
from enum import Enum

import attr

from sx.api import Harness

from .c06 import SPEC
from .c09 import NEST, PLAIN, SCALAR, nested, scalar
from .c13 import tokens
from .common import concrete_type, deep_eq, is_sym, leaf_eq, render, zand_all
from .gen import ITEMS, SIMPLE, Gen, constraints, from_clause, norm_sugar, select_items, set_query, simple_query
from .spell import STYLES
from .spell import text as spell
from .zoo import NAMES, ZOO
from .special import tree as special_tree
from .long import any_place, deep as deep_sizes, lists as long_sizes, names as long_names


class Capture:
    """what the commands show: the text they echo, and the trees they draw (drawing itself is left to nltk)"""

    def __init__(self, draw=False):
        self.draw = draw

    def __enter__(self):
        import nltk.tree
        import typer

        self.out, self.trees, self.saved = [], [], []

        def echo(message="", *a, **k):
            self.out.append(message)

        def pretty_print(tree, *a, **k):
            self.trees.append(tree)
            stream = k.get("stream")
            if stream is not None:
                stream.write("drawn")

        self._set(typer, "echo", echo)
        self._set(typer, "secho", echo)
        if not self.draw:
            self._set(nltk.tree.Tree, "pretty_print", pretty_print)
        return self

    def _set(self, where, name, value):
        self.saved.append((where, name, getattr(where, name)))
        setattr(where, name, value)

    def __exit__(self, *a):
        for where, name, value in self.saved:
            setattr(where, name, value)


class Distinct:
    """the given context with names that differ from each other in their first letter, and fixed numbers if asked"""

    def __init__(self, ctx, still=False):
        self._ctx, self._i, self._still = ctx, 0, still

    def __getattr__(self, name):
        return getattr(self._ctx, name)

    def name(self, label, *a, **k):
        self._i += 1
        return "abcdefghijklmnopqrstuvwxyz"[self._i % 26] + "xyz"[self._i // 26 % 3] + self._ctx.name(label)

    def int(self, label, lo, hi, default=None):
        if self._still:
            return lo if default is None else default
        return self._ctx.int(label, lo, hi, default)


def cli():
    import treeno.cli

    return treeno.cli


def shown(cap):
    """everything echoed, one line after the other"""
    out = cap.out[0] if cap.out else ""
    for o in cap.out[1:]:
        out = out + "\n" + o
    return out


KINDS = {"query": "QUERY", "expression": "EXPRESSION", "type": "TYPE"}


def construct(kind):
    return cli().SqlConstruct(kind)


def reader(kind):
    from treeno.builder.convert import expression_from_sql, query_from_sql, type_from_sql

    return {"query": query_from_sql, "type": type_from_sql, "expression": expression_from_sql}[kind]


def a_text(ctx, g, kind, styles=tuple(STYLES)):
    """(SQL text, the tree it denotes)"""
    style = STYLES[ctx.pick("style", styles)]
    if kind == "type":
        b = g.dt
        t = scalar(g, ctx.pick("scalar", PLAIN + SCALAR))[0] if not ctx.flag("nest") else nested(g, ctx.pick("nested", NEST), scalar(g, ctx.pick("inner", ["decimal", "varchar_n", "timestamp_ptz"]))[0], lambda: scalar(g, "BIGINT")[0])
        return t.sql(g.T.base.PrintOptions()), t
    if kind == "expression":
        t = ZOO[ctx.pick("node", [n for n in NAMES if n.startswith(("expr:", "fn:")) and n != "expr:Subquery" or n in ("agg:SUM", "agg:MAP_AGG")])](g)
        return spell(g, t, style), t
    t = a_query(ctx, g)
    return spell(g, t, style, "query"), t


def a_query(ctx, g):
    what = ctx.pick("query", ["zoo", "simple", "items", "set", "clauses"])
    r, x = g.r, g.x
    if what == "zoo":
        return ZOO[ctx.pick("node", [n for n in NAMES if n.startswith("query:")])](g)
    if what == "simple":
        return simple_query(g, ctx.pick("kind", SIMPLE))
    if what == "items":
        return r.SelectQuery(select_items(g, ctx.pick("items", [i for i in ITEMS if i not in ("astar",)])), from_=from_clause(g, ctx.pick("from", ["table", "alias", "join", "sub"])))
    if what == "set":
        return set_query(g, ctx.pick("op", ["union", "union_all", "intersect", "except"]), simple_query(g, ctx.pick("left", ["select", "values", "table"])), simple_query(g, ctx.pick("right", ["select", "values", "table"])), **constraints(g, ctx.pick("con", [[], ["orderby"], ["limit", "offset"]])))
    return r.SelectQuery([g.field()], from_=r.Table(g.name("t")), where=x.Equal(g.field(), g.field()), groupby=g.g.GroupBy([g.g.GroupingSet([g.field()])]), having=x.IsNull(g.field()), window={"ww": g.w.Window(partitions=[g.field()])}, **constraints(g, ["orderby", "limit"]))


def h_format(ctx):
    """format prints SQL that reads as what was given"""
    g = Gen(Distinct(ctx))
    kind = ctx.pick("construct", list(KINDS))
    sql, want = a_text(ctx, g, kind)
    ctx.sample(lambda: str(sql))
    with Capture() as cap:
        try:
            cli().format(construct(kind), sql)
        except Exception as e:
            ctx.check(False, "format takes what the library reads", lambda: "%s: %s: %s" % (sql, type(e).__name__, e))
            return
    out = shown(cap)
    got = reader(kind)(out)
    ctx.check(deep_eq(reader(kind)(sql), got), "the text printed reads as the text given", lambda: "%s is printed as %s, which reads as %s" % (sql, out, render(got)))
    ctx.check(deep_eq(want, got, kind == "type", norm_sugar(g)), "the text printed denotes the same tree", lambda: "%s is printed as %s, which reads as %s" % (sql, out, render(got)))
    ctx.check(len(cap.out) == 1, "it is printed once", lambda: render(cap.out))


def is_type(x):
    return hasattr(x, "type_name") and hasattr(x, "parameters")


def may_skip(v):
    if v is None:
        return True
    if isinstance(v, (list, tuple, dict)) and not len(v):
        return True
    return isinstance(v, Enum) and hasattr(type(v), "default") and v is type(v).default()


def leaf_text(v):
    return v.__str__()


def matches(view, node, path, bad):
    """compare a drawn tree with the tree it shows; what differs goes to `bad`; returns conditions on symbolic leaves"""
    from nltk.tree import Tree

    if is_sym(node) or is_type(node) or isinstance(node, (str, int, float, Enum)) or not (isinstance(node, (list, tuple, dict)) or attr.has(type(node))):
        if isinstance(view, Tree):
            if len(view) or not is_type(node):
                bad.append("%s: a tree instead of a leaf" % path)
                return []
            view = view.label()
        return [leaf_eq(leaf_text(node), view)]
    if not isinstance(view, Tree):
        bad.append("%s: a leaf instead of a tree" % path)
        return []
    out = []
    kids = list(view)
    if isinstance(node, (list, tuple)):
        if len(kids) != len(node):
            bad.append("%s: %d of %d elements" % (path, len(kids), len(node)))
            return []
        for i, (k, n) in enumerate(zip(kids, node)):
            out += matches(k, n, "%s[%d]" % (path, i), bad)
        return out
    if isinstance(node, dict):
        if len(kids) != len(node):
            bad.append("%s: %d of %d entries" % (path, len(kids), len(node)))
            return []
        for k, (key, n) in zip(kids, node.items()):
            if not isinstance(k, Tree) or len(k) != 1:
                bad.append("%s: no entry" % path)
                continue
            out.append(leaf_eq(k.label(), key))
            out += matches(k[0], n, "%s{%s}" % (path, key), bad)
        return out
    if view.label() != type(node).__name__:
        bad.append("%s: %s instead of %s" % (path, view.label(), type(node).__name__))
    have = {}
    for k in kids:
        if not isinstance(k, Tree) or len(k) != 1 or k.label() in have:
            bad.append("%s: %s" % (path, k if not isinstance(k, Tree) else k.label()))
            continue
        have[k.label()] = k[0]
    names = [f.name for f in attr.fields(type(node)) if not f.name.startswith("_")]
    for n in have:
        if n not in names:
            bad.append("%s: strange %s" % (path, n))
    for n in names:
        v = getattr(node, n)
        if n in have:
            out += matches(have[n], v, path + "." + n, bad)
        elif not may_skip(v):
            bad.append("%s: %s is missing" % (path, n))
    return out


def check_tree(ctx, view, node, what):
    bad = []
    conds = matches(view, node, "", bad)
    ctx.check(not bad, "the tree view has the shape of the tree", lambda: "%s: %s" % (what, "; ".join(bad)))
    ctx.check(zand_all(conds), "every leaf is shown", lambda: "%s shown as %s" % (what, view))


def h_treeify(ctx):
    """the tree view of every kind of node"""
    g = Gen(ctx)
    node = ZOO[ctx.pick("node", NAMES)](g)
    ctx.sample(lambda: render(node))
    check_tree(ctx, cli().treeify(node), node, render(node))


def h_tree(ctx):
    """the tree command shows the tree of the text"""
    g = Gen(Distinct(ctx))
    kind = ctx.pick("construct", list(KINDS))
    sql, want = a_text(ctx, g, kind)
    ctx.sample(lambda: str(sql))
    with Capture() as cap:
        try:
            cli().tree(construct(kind), sql)
        except Exception as e:
            ctx.check(False, "tree takes what the library reads", lambda: "%s: %s: %s" % (sql, type(e).__name__, e))
            return
    ctx.check(len(cap.trees) == 1 and bool(cap.out), "one tree is shown", lambda: "%s: %d" % (sql, len(cap.trees)))
    if len(cap.trees) == 1:
        node = cli().get_sql_object(construct(kind), sql)
        ctx.check(deep_eq(reader(kind)(sql), node, data_types=False), "what is shown is what the library reads", lambda: "%s: %s" % (sql, render(node)))
        check_tree(ctx, cap.trees[0], node, sql)


def h_antlr(ctx):
    """the syntax tree shows every token of the text in order"""
    g = Gen(Distinct(ctx, still=True))
    kind = ctx.pick("construct", list(KINDS))
    if ctx.flag("special"):
        texts = {
            "expression": ["'('", "')'", "'(a b)'", "f(x)", "((1) + (2))", "'a\tb'", "\"a b\"", "\"(\"", "''", "''''", "ARRAY['[', ')']", "(SELECT ')')", "\"\"\"(\"", "(1, (2, 3))", "\"a\nb\""],
            "query": ["SELECT ')'", "SELECT (1)", "SELECT COUNT(*) FROM (VALUES (1), (2))", "(SELECT 1)", "SELECT '( )' \"(\"", "SELECT 1 LIMIT 2", "TABLE \"a)b\""],
            "type": ["DECIMAL(5, 2)", "ROW(BIGINT, ARRAY(MAP(DATE, DATE)))", "TIMESTAMP(3) WITH TIME ZONE", "INTERVAL DAY TO SECOND"],
        }
        sql = ctx.pick("text", texts[kind])
    else:
        sql, want = a_text(ctx, g, kind, ("plain", "full", "sugar", "tight"))
    ctx.sample(lambda: str(sql))
    with Capture() as cap:
        try:
            cli().antlr_tree(construct(kind), sql)
        except Exception as e:
            ctx.check(False, "antlr-tree takes what the library parses", lambda: "%s: %s: %s" % (sql, type(e).__name__, e))
            return
    ctx.check(len(cap.trees) == 1 and bool(cap.out), "one tree is shown", lambda: "%s: %d" % (sql, len(cap.trees)))
    if len(cap.trees) != 1:
        return
    got = ""
    for l in cap.trees[0].leaves():
        if not (isinstance(l, str) and l == "<EOF>"):
            got = got + l
    want = ""
    for k, t in tokens(sql)[0]:
        want = want + t
    plain = lambda s: s.replace("\\n", "").replace("\\t", "").replace("\\r", "").replace("\n", "").replace("\t", "").replace("\r", "")
    ctx.check(leaf_eq(plain(want), plain(got)), "the tokens of the text in order", lambda: "%s shown as %s" % (sql, got))


COLS = ["named", "alias", "literal", "cast", "typed", "unnamed"]


def h_schema(ctx):
    """schema lists the output columns in order with their types"""
    g = Gen(ctx)
    r, x, dt = g.r, g.x, g.dt
    n = 1 + ctx.choose("n", 3)
    items, want = [], []
    wrap = ctx.pick("wrap", ["plain", "sub", "with", "union", "star", "values"])
    nm = lambda: g.name("c")
    for i in range(n if wrap != "values" else 1):
        kind = ctx.pick("col", COLS if wrap in ("plain", "union") else ["alias", "cast"])
        if kind == "named":
            f = g.field()
            items.append(f)
            want.append((f.name, None))
        elif kind == "alias":
            a = nm()
            items.append(x.AliasedValue(x.wrap_literal(5), a))
            want.append((a, "INTEGER"))
        elif kind == "literal":
            items.append(x.wrap_literal(g.ctx.str("s", 2, [(97, 122)])))
            want.append((None, "VARCHAR(2)"))
        elif kind == "cast":
            a = nm()
            t, name = ctx.pick("type", [(dt.bigint(), "BIGINT"), (dt.decimal(precision=7, scale=2), "DECIMAL(7,2)"), (dt.array(dtype=dt.date()), "ARRAY(DATE)"), (dt.map_(from_dtype=dt.varchar(max_chars=9), to_dtype=dt.boolean()), "MAP(VARCHAR(9),BOOLEAN)")] if i == 0 else [(dt.double(), "DOUBLE")])
            items.append(x.AliasedValue(x.Cast(g.field(), data_type=t), a))
            want.append((a, name))
        elif kind == "typed":
            items.append(x.IsNull(g.field()))
            want.append((None, "BOOLEAN"))
        else:
            items.append(g.fcommon.Concatenate(values=[g.field(), g.field()]))
            want.append((None, None))
    q = r.SelectQuery(items)
    names = [w[0] for w in want]
    for i in range(len(names)):
        for j in range(i):
            if names[i] is not None and names[j] is not None and wrap in ("sub", "with"):
                ctx.assume(names[i] != names[j])
    if wrap == "sub":
        q = r.SelectQuery([x.Field(n) for n in reversed(names)], from_=q)
        want = want[::-1]
    elif wrap == "with":
        q = r.SelectQuery([x.Field(n, "cte") for n in names], from_=r.Table("cte"), with_=[r.AliasedRelation(q, "cte")])
    elif wrap == "union":
        q = r.UnionQuery(q, r.SelectQuery([x.AliasedValue(x.Cast(i.value if isinstance(i, x.AliasedValue) else i, data_type=i.data_type) if i.data_type.type_name != "UNKNOWN" else x.NULL, "other") for i in items]))
        # a column of unknown type has the type of its counterpart, which is unknown here as well
    elif wrap == "star":
        q = r.SelectQuery([x.Star()], from_=r.AliasedRelation(q, "al"))
    elif wrap == "values":
        q = r.SelectQuery([x.Star()], from_=r.AliasedRelation(r.ValuesQuery([x.RowConstructor([x.wrap_literal(1), x.wrap_literal("a")])]), "al", ["c1", "c2"]))
        want = [("c1", "INTEGER"), ("c2", "VARCHAR(1)")]
    sql = spell(g, q, STYLES["plain"], "query")
    judge_schema(ctx, sql, want)


def judge_schema(ctx, sql, want):
    ctx.sample(lambda: str(sql))
    with Capture() as cap:
        try:
            cli().schema(sql)
        except Exception as e:
            ctx.check(False, "schema takes what the library resolves", lambda: "%s: %s: %s" % (sql, type(e).__name__, e))
            return
    out = shown(cap)
    lines = out.split("\n")
    ctx.check(len(lines) == len(want), "one line for every column", lambda: "%s: %s" % (sql, out))
    for line, (name, t) in zip(lines, want):
        left, right = line.split(" - ") if len(line.split(" - ")) == 2 else ("", "")
        ctx.check(leaf_eq(plain_text(left), "<none>" if name is None else name), "the name of the column", lambda: "%s: %s instead of %s" % (sql, left, name))
        ctx.check(leaf_eq(plain_text(right), "<unknown>" if t is None else t), "the type of the column", lambda: "%s: %s instead of %s" % (sql, right, t))


def plain_text(s):
    """without colours"""
    for code in ("\x1b[31m", "\x1b[1m", "\x1b[0m"):
        s = s.replace(code, "")
    return s


BAD = {
    "query": ["SELECT", "SELECT 1 FROM", "1 + 1", "SELECT 1 1 1", "BIGINT", "SELECT 1 LIMIT x", "", ";", "SELECT (1", "SELECT 1; SELECT 2"],
    "expression": ["1 +", "SELECT 1", "(1", "a b", "", "CASE END", "x IN ()", "1 2", "a AT TIME ZONE b", "'a"],
    "type": ["DECIMAL(99)", "BIGINT BIGINT", "1", "ARRAY()", "", "FOO", "MAP(BIGINT)", "TIMESTAMP(13)", "VARCHAR('a')", "DECIMAL(1,2,3)"],
}


def h_reject(ctx):
    """text the library rejects is an error for every command, and nothing is shown"""
    kind = ctx.pick("construct", list(KINDS))
    command = ctx.pick("command", ["format", "tree", "antlr"] + (["schema"] if kind == "query" else []))
    sql = ctx.pick("text", BAD[kind])
    if ctx.flag("more"):
        sql = sql + ctx.str("c", 1, [(40, 41)])  # a parenthesis too many
    try:
        reader(kind)(sql)
        refused = False
    except Exception:
        refused = True
    if command == "antlr":  # reads the syntax only
        from treeno.grammar.parse import AST

        try:
            getattr(AST(sql), kind)()
            refused = False
        except Exception:
            refused = True
    with Capture() as cap:
        try:
            c = cli()
            {"format": c.format, "tree": c.tree, "antlr": c.antlr_tree}[command](construct(kind), sql) if command != "schema" else c.schema(sql)
            failed = False
        except Exception:
            failed = True
    ctx.check(not refused or failed, "rejected text is an error", lambda: "%s %s %r: %s" % (command, kind, sql, shown(cap)))
    ctx.check(not (refused and cap.out), "nothing is shown for rejected text", lambda: "%s %s %r: %s" % (command, kind, sql, shown(cap)))


def h_commands(ctx):
    """the commands as they are invoked: arguments, exit status, output"""
    from typer.testing import CliRunner

    command = ctx.pick("command", ["format", "tree", "antlr-tree", "schema"])
    kind = ctx.pick("construct", list(KINDS)) if command != "schema" else "query"
    good = ctx.flag("good")
    texts = {"query": ["SELECT a, 1 b FROM t", "VALUES 1, 2", "WITH x AS (SELECT 1) SELECT * FROM x"], "expression": ["1 + 2 * x", "f -> f", "CAST(x AS BIGINT)"], "type": ["BIGINT", "DECIMAL(5,2)", "ARRAY(DATE)"]}
    sql = ctx.pick("text", texts[kind] if good else BAD[kind])
    r = CliRunner().invoke(cli().app, [command] + ([kind] if command != "schema" else []) + ["--", sql])
    refused = not good
    if command == "antlr-tree" and not good:
        from treeno.grammar.parse import AST

        try:
            getattr(AST(sql), kind)()
            refused = False
        except Exception:
            refused = True
    ctx.check((r.exit_code != 0) == refused, "exit status", lambda: "%s %s %r: %s %s %r" % (command, kind, sql, r.exit_code, r.output, r.exception))
    if good:
        ctx.check(bool(r.output.strip()), "something is shown", lambda: "%s %s %r" % (command, kind, sql))
        if command == "format":
            ctx.check(deep_eq(reader(kind)(r.output), reader(kind)(sql)), "what is printed reads the same", lambda: "%s: %s" % (sql, r.output))


def h_long(ctx):
    """the tree view of long lists and deep nesting"""
    g = Gen(ctx)
    node = any_place(g, long_sizes(ctx) if ctx.thorough else [1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 101], deep_sizes(ctx))
    ctx.sample(lambda: render(node))
    check_tree(ctx, cli().treeify(node), node, render(node))


def h_schema_long(ctx):
    """schema of many columns"""
    g = Gen(ctx)
    x, r = g.x, g.r
    ns = long_names(g, ctx.pick("size", long_sizes(ctx)))
    wrap = ctx.pick("wrap", ["plain", "sub", "star"])
    t = lambda i: [g.dt.bigint(), g.dt.varchar(max_chars=i + 1), g.dt.double()][i % 3]
    q = r.SelectQuery([x.AliasedValue(x.Cast(g.x.NULL, data_type=t(i)), n) for i, n in enumerate(ns)])
    want = [(n, ["BIGINT", "VARCHAR(%d)" % (i + 1), "DOUBLE"][i % 3]) for i, n in enumerate(ns)]
    if wrap == "sub":
        q = r.SelectQuery([x.Field(n) for n in reversed(ns)], from_=q)
        want = want[::-1]
    elif wrap == "star":
        q = r.SelectQuery([x.Star()], from_=r.AliasedRelation(q, "al"))
    judge_schema(ctx, spell(g, q, STYLES["plain"], "query"), want)


def h_special(ctx):
    """the tree view of special values"""
    g, node = special_tree(ctx, [n for n in NAMES if n != "type" and (ctx.thorough or not n.startswith("fn:"))])
    check_tree(ctx, cli().treeify(node), node, render(node))


HARNESSES = [
    Harness("format", h_format, "all kinds of types, expressions, functions, queries in all spellings with symbolic names that differ from each other"),
    Harness("treeify", h_treeify, "all kinds of nodes with every part, symbolic leaves"),
    Harness("tree", h_tree, "the texts of format"),
    Harness("antlr", h_antlr, "the texts of format (4 spellings, no comments) with symbolic names and fixed numbers, 26 texts with parentheses and blanks in literals and names"),
    Harness("schema", h_schema, "1..3 columns of 6 kinds in 6 forms of queries, symbolic names"),
    Harness("reject", h_reject, "30 invalid texts, and with a symbolic parenthesis added, for every command"),
    Harness("commands", h_commands, "the commands invoked through the command line parser on 9 valid and 30 invalid texts"),
    Harness("special", h_special, "the tree view of each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) at every position of every node (quick: not of plain functions)"),
    Harness("long", h_long, "58 places of trees; lists of 1..17 and 9 sizes up to 129 (thorough 1..134 and 10 sizes up to 513), chains of 1..8, 10, 12 (thorough 1..25), one name symbolic"),
    Harness("schema_long", h_schema_long, "1..17 and 19 (thorough 1..134 and 10) more numbers of columns, one name symbolic"),
]
