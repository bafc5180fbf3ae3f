"""C17: text that is not a supported SQL construct is rejected, never half-read."""
from decimal import Decimal

from sx.api import Harness
from sx.core import ranges_cond, zor

from .common import SKIP_FIELDS, deep_eq, is_sym, leaf_eq, render, zand_all
from .gen import AZ, Gen
from .zoo import nodes


# ---------------------------------------------------------------- oracle: the generated parser under a listener of our own
class Rejected(Exception):
    pass


def _listener():
    from antlr4.error.ErrorListener import ErrorListener

    class L(ErrorListener):
        def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
            raise Rejected(msg)

    return L()


def lex(text):
    from antlr4 import CommonTokenStream
    from antlr4.InputStream import InputStream
    from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer

    lexer = SqlBaseLexer(InputStream(text))
    lexer.removeErrorListeners()
    lexer.addErrorListener(_listener())
    return CommonTokenStream(lexer)


def grammatical(kind, text):
    """the whole text is in the grammar"""
    from treeno.grammar.gen.SqlBaseParser import SqlBaseParser

    try:
        ts = lex(text)
        p = SqlBaseParser(ts)
        p.removeErrorListeners()
        p.addErrorListener(_listener())
        if kind == "query":
            p.query()
            if ts.LT(1).text == ";":
                ts.consume()
            return ts.LA(1) == -1
        p.standaloneExpression() if kind == "expr" else p.standaloneType()
        return True
    except Rejected:
        return False


def read(kind, text):
    """the tree, or None if the text is rejected"""
    from treeno.builder import convert as c

    f = {"query": c.query_from_sql, "expr": c.expression_from_sql, "type": c.type_from_sql}[kind]
    try:
        return f(text)
    except Exception:
        return None


def leaves(x):
    """the names, strings and numbers of a tree"""
    import attr

    out = []

    def add(v):
        if v is None or isinstance(v, bool):
            return
        if is_sym(v) or isinstance(v, (str, int, float, Decimal)):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            for y in v:
                add(y)
        elif isinstance(v, dict):
            for k, y in v.items():
                add(k)
                add(y)

    for _, n in nodes(x):
        if hasattr(n, "type_name") and hasattr(n, "parameters"):
            add(n.parameters)
            continue
        for f in attr.fields(type(n)):
            if f.name not in SKIP_FIELDS and f.name != "data_type":
                add(getattr(n, f.name))
    return out


def same_leaf(kind, t, v):
    if kind == "n":
        if is_sym(v) or isinstance(v, (str, bool)):
            return False
        return abs(Decimal(str(v))) == Decimal(t)
    if not is_sym(v) and not isinstance(v, str):
        return False
    if not is_sym(v) and isinstance(t, str):
        # the sign before an interval's string is part of its value
        return v in (t, "-" + t)
    return leaf_eq(v, t)


def kept(toks, tree):
    """every name, string and number of the text is in the tree, as often as in the text (bool | SymBool)"""
    have = leaves(tree)
    ok = []
    for k, t in set_of(toks):
        if k == "n":
            ok.append(sum(same_leaf(k, t, v) is True for v in have) >= sum(1 for a, b in toks if a == k and Decimal(b) == Decimal(t)))
        else:
            ok.append(zor([same_leaf(k, t, v) for v in have]) if have else False)
    return zand_all(ok)


def set_of(toks):
    seen, out = set(), []
    for k, t in toks:
        key = (k, t if isinstance(t, str) else id(t))
        if key not in seen:
            seen.add(key)
            out.append((k, t))
    return out


# ---------------------------------------------------------------- texts
QUERIES = [
    "SELECT a , b AS c FROM d WHERE a = 1",
    "SELECT DISTINCT a FROM b . c AS d ( e , f ) ORDER BY a DESC NULLS FIRST LIMIT 5",
    "SELECT * FROM a JOIN b ON c = d LEFT OUTER JOIN e USING ( f )",
    "SELECT a . * FROM a CROSS JOIN UNNEST ( b ) WITH ORDINALITY AS c ( d , e )",
    "SELECT a FROM b TABLESAMPLE BERNOULLI ( 10 ) GROUP BY a , CUBE ( a , c ) HAVING d",
    "SELECT a FROM ( SELECT b LIMIT 1 ) c NATURAL FULL JOIN d OFFSET 2 ROWS FETCH FIRST 3 ROWS ONLY",
    "WITH a ( b ) AS ( SELECT 4 ) , c AS ( TABLE d ) SELECT e FROM a",
    "SELECT 1 UNION ALL SELECT 2 INTERSECT ( VALUES 3 , 4 ) EXCEPT TABLE a",
    "SELECT a FROM b GROUP BY GROUPING SETS ( ( a , c ) , ( ) ) WINDOW d AS ( PARTITION BY a ORDER BY c )",
    "SELECT a IN ( SELECT b ) , ( SELECT c ) + 1 FROM LATERAL ( SELECT d )",
]
EXPRS = [
    "a + 1 * b",
    "NOT a AND b OR c",
    "a BETWEEN 1 AND b",
    "a NOT IN ( 1 , b )",
    "a LIKE 's' ESCAPE 't'",
    "a IS NOT DISTINCT FROM b",
    "CASE a WHEN 1 THEN b ELSE c END",
    "CAST ( a AS DECIMAL ( 5 , 2 ) )",
    "TRY_CAST ( a AS TIMESTAMP ( 6 ) WITH TIME ZONE )",
    "ARRAY [ a , 1 ] [ b ]",
    "( a , b ) -> a || b",
    "ROW ( a , 's' )",
    "SUM ( a ) FILTER ( WHERE b ) OVER ( PARTITION BY c ORDER BY d ROWS BETWEEN 1 PRECEDING AND CURRENT ROW )",
    "ARRAY_AGG ( a ORDER BY b DESC )",
    "MAX ( a ) IGNORE NULLS OVER b",
    "COUNT ( a . * )",
    "INTERVAL '1' DAY TO SECOND",
    "DATE '2001' + - a",
    "LISTAGG ( a , ',' ON OVERFLOW TRUNCATE '.' WITH COUNT ) WITHIN GROUP ( ORDER BY b )",
    "NORMALIZE ( a , NFC )",
    "CURRENT_TIMESTAMP ( 6 )",
    "IF ( a , b , NULL )",
    "a . b [ 1 ]",
    "COALESCE ( a , TRUE )",
]
TYPES = [
    "DECIMAL ( 5 , 2 )",
    "ROW ( BIGINT , VARCHAR ( 3 ) )",
    "MAP ( DATE , ARRAY ( DOUBLE ) )",
    "TIMESTAMP ( 6 ) WITH TIME ZONE",
    "INTERVAL YEAR TO MONTH",
    "TIME ( 9 ) WITHOUT TIME ZONE",
    "BIGINT ARRAY",
    "DOUBLE PRECISION",
    "CHAR ( 5 )",
]
TEXTS = [("query", t) for t in QUERIES] + [("expr", t) for t in EXPRS] + [("type", t) for t in TYPES]
WORDS = ["g", "7", "'u'", "(", ")", ",", "AS", "NOT", "DISTINCT", "ALL", "FROM", "NULL", "?", "*", "-", ".", "=", ";", "AT TIME ZONE 'UTC'", "LIMIT 8"]
MORE = ["SELECT", "WITH", "RECURSIVE", "ORDER BY", "->", "[", "]", "OVER", "FILTER", "INTERVAL", "END", "ROW", "IGNORE NULLS", "|", "AND", "ON", "USING", "TABLESAMPLE", "X'0A'", "ASC", "{", "1.5", "3E1", "UESCAPE", "U&'v'"]
# what makes no difference where it may be left out
NOISE = {"AS", "ALL", "ASC", "OUTER", "INNER", "ROW", "ROWS", "NULLS LAST", "RESPECT NULLS", "PRECISION", "WITHOUT TIME ZONE", ";", "DISTINCT", "FIRST", "NEXT"}


class Names:
    """single lower-case letters stand for names: any letter, followed by a digit of their own"""

    def __init__(self, ctx):
        self.ctx, self.names = ctx, {}

    def word(self, w):
        """(text, leaf or None)"""
        if len(w) == 1 and w.islower():
            if w not in self.names:
                self.names[w] = self.ctx.str(w, 1, AZ) + str(len(self.names))
            return '"' + self.names[w] + '"', ("s", self.names[w])
        if w[0] == "'":
            return w, ("s", w[1:-1])
        if w[0].isdigit() and "E" not in w:
            return w, ("n", w)
        return w, None

    def text(self, words):
        out, toks = "", []
        for w in words:
            for p in w.split(" "):
                t, leaf = self.word(p)
                out = out + t + " "
                if leaf:
                    toks.append(leaf)
        return out, toks


def judge(ctx, kind, text, toks=None):
    """reads the text; the tree, if it is read"""
    ctx.sample(lambda: str(text))
    tree = read(kind, text)
    if tree is None:
        ctx.check(True, "rejected")
        return None
    ok = grammatical(kind, text)
    ctx.check(ok, "only text that is wholly in the grammar is read", lambda: "%s reads as %s" % (text, render(tree)))
    if ok and toks is not None:
        ctx.check(kept(toks, tree), "nothing of the text is lost", lambda: "%s reads as %s" % (text, render(tree)))
    return tree


def differ(ctx, a, b, ta, tb):
    ctx.check(not_same(deep_eq(a, b)), "a part of the text that matters is not ignored", lambda: "%s and %s both read as %s" % (ta, tb, render(a)))


def not_same(r):
    from sx.core import znot

    return znot(r) if not isinstance(r, bool) else not r


def pick_text(ctx, kinds=("query", "expr", "type")):
    kind, t = ctx.pick("text", [x for x in TEXTS if x[0] in kinds])
    return kind, t.split(" ")


def h_whole(ctx):
    """the texts themselves are read, with and without what may surround them"""
    kind, words = pick_text(ctx)
    nm = Names(ctx)
    t, toks = nm.text(words)
    tree = judge(ctx, kind, t, toks)
    ctx.check(tree is not None, "the text is read", lambda: str(t))
    extra = ctx.pick("extra", [";", ";;", "; ;", ")", ",", "; SELECT 1", "x", "''", "\\", "\x00", "--", "/**/", "/*", "--\n;", "FROM", "AS", "`", "@", "#"])
    where = ctx.pick("where", ["after", "before"])
    t2 = t + extra if where == "after" else extra + " " + t
    judge(ctx, kind, t2)


def h_delete(ctx):
    """1..3 tokens left out"""
    kind, words = pick_text(ctx)
    i = ctx.choose("at", len(words))
    n = 1 + ctx.choose("n", min(3, len(words) - i))
    nm = Names(ctx)
    t0, _ = nm.text(words)
    cut = words[:i] + words[i + n :]
    ctx.assume(cut)
    t, toks = nm.text(cut)
    tree = judge(ctx, kind, t, toks)
    gone = " ".join(words[i : i + n])
    if tree is not None and gone not in NOISE:
        differ(ctx, tree, read(kind, t0), t, t0)


def h_insert(ctx):
    """a token of another kind added anywhere"""
    kind, words = pick_text(ctx)
    w = ctx.pick("word", WORDS + MORE if ctx.thorough else WORDS)
    i = ctx.choose("at", len(words) + 1)
    nm = Names(ctx)
    t0, _ = nm.text(words)
    t, toks = nm.text(words[:i] + [w] + words[i:])
    tree = judge(ctx, kind, t, toks)
    if tree is not None and w not in NOISE:
        differ(ctx, tree, read(kind, t0), t, t0)


def h_replace(ctx):
    """a token replaced by another"""
    kind, words = pick_text(ctx)
    w = ctx.pick("word", WORDS + MORE if ctx.thorough else ["g", "7", "(", ")", ",", "NOT", "DISTINCT", "NULL", "?", "*"])
    i = ctx.choose("at", len(words))
    ctx.assume(words[i] != w)
    nm = Names(ctx)
    nm.text(words)
    t, toks = nm.text(words[:i] + [w] + words[i + 1 :])
    judge(ctx, kind, t, toks)


def h_repeat(ctx):
    """1..3 tokens repeated, or swapped with the next, or the text cut off"""
    kind, words = pick_text(ctx)
    nm = Names(ctx)
    what = ctx.pick("what", ["repeat", "swap", "prefix", "suffix"])
    i = ctx.choose("at", len(words))
    if what == "repeat":
        n = 1 + ctx.choose("n", min(3, len(words) - i))
        w = words[: i + n] + words[i:]
    elif what == "swap":
        ctx.assume(i + 1 < len(words))
        w = words[:i] + [words[i + 1], words[i]] + words[i + 2 :]
    elif what == "prefix":
        w = words[: i + 1]
    else:
        w = words[i:]
    t, toks = nm.text(w)
    judge(ctx, kind, t, toks)


SHORT = [
    ("query", "SELECT a FROM b LIMIT 5"),
    ("query", 'SELECT"a"FROM"b""c"'),
    ("expr", "SUM(a) <= 'b''c' || 1.5"),
    ("expr", "a[1]->-b"),
    ("expr", "x BETWEEN 1 AND 2E3"),
    ("type", "DECIMAL(5,2)"),
    ("type", "TIME(3) WITH TIME ZONE"),
]


def h_chars(ctx):
    """any character added to, or put in place of one of, a text, also within a token"""
    kind, t = ctx.pick("text", SHORT if ctx.thorough else SHORT[1:6])
    i = ctx.choose("at", len(t) + 1)
    c = ctx.str("c", 1)
    if ctx.flag("instead"):
        ctx.assume(i < len(t))
        s = t[:i] + c + t[i + 1 :]
    else:
        s = t[:i] + c + t[i:]
    judge(ctx, kind, s)


def h_any(ctx):
    """any text of a few characters, as all of the text or behind a complete one"""
    n = ctx.params["n"]
    kind, base = ctx.pick("text", [("query", "TABLE x"), ("expr", "1"), ("type", "DATE"), ("expr", ""), ("type", "")])
    k = ctx.choose("n", n + 1)
    s = ctx.str("s", k, [(33, 47), (58, 64), (91, 96), (123, 126)])
    t = base + " " + s if base else s
    if not base:
        s2 = ctx.pick("end", ["", "1", "a"])
        t = t + s2
    judge(ctx, kind, t)


def h_unclosed(ctx):
    """quotes, comments and brackets that are never closed, with any contents"""
    kind, base = ctx.pick("text", [("query", "SELECT 1 FROM t "), ("expr", "a + b "), ("type", "DATE ")])
    mark = ctx.pick("mark", ["'", '"', "`", "/*", "U&'", "(", "[", "{", "X'"])
    n = ctx.choose("n", ctx.params["n"] + 1)
    s = ctx.str("s", n)
    for i in range(n):
        ctx.assume(s[i] != {"'": "'", '"': '"', "`": "`", "/*": "*", "U&'": "'", "X'": "'"}.get(mark, ")"))
    t = base + mark + s
    if ctx.flag("before"):
        t = mark + s + " " + base
    ctx.sample(lambda: str(t))
    tree = read(kind, t)
    ctx.check(tree is None, "unclosed text is rejected", lambda: "%s reads as %s" % (t, render(tree)))


HEXD = [(48, 57), (65, 70), (97, 102)]


def zin(c, ranges):
    """the character is in one of the ranges"""
    return ranges_cond(c.c[0] if is_sym(c) else ord(c), ranges)


def number(digits):
    from .c02 import hex_to_int

    return hex_to_int(digits) if is_sym(digits) else int(digits, 16)


def h_escapes(ctx):
    """U&'...' with any escape character and any characters behind it: it is read as what it denotes or rejected"""
    from treeno.builder.convert import expression_from_sql
    from .c02 import code_point

    g = Gen(ctx)
    given = ctx.pick("escape", ["default", 0, 1, 2])
    if given == "default":
        esc, suffix = "\\", ""
        n = ctx.pick("n", list(range(9 if ctx.thorough else 8)))
    else:
        e = ctx.str("e", given)
        raw = ""
        for i in range(given):
            raw = raw + ("''" if e[i] == "'" else e[i])
        esc, suffix = e, " UESCAPE '" + raw + "'"
        n = ctx.pick("n", [0, 4])
    if given == "default":
        s = ctx.str("s", n)
        for i in range(n):
            ctx.assume(s[i] != "'")
        text = "a" + esc + s
    else:
        text = ctx.pick("text", ["", "x", "0041"]) if given != 1 else ctx.pick("text", [lambda: "x", lambda: esc + "0041", lambda: esc + esc])()
        for c in text:
            ctx.assume(c != "'")
    valid = len(esc) == 1 and bool(zin(esc, [(33, 33), (35, 38), (40, 42), (44, 47), (58, 64), (71, 96), (103, 126)]))
    val, i = "", 0
    while valid and i < len(text):
        c = text[i]
        if not bool(c == esc):
            val, i = val + c, i + 1
            continue
        if i + 1 < len(text) and bool(text[i + 1] == esc):
            val, i = val + esc, i + 2
            continue
        a, b = (i + 2, i + 8) if i + 1 < len(text) and bool(text[i + 1] == "+") else (i + 1, i + 5)
        digits = text[a:b]
        valid = len(digits) == b - a and all(bool(zin(d, HEXD)) for d in digits)
        if valid:
            cp = number(digits)
            valid = bool(cp < 0xD800) or bool(cp > 0xDFFF) and bool(cp <= 0x10FFFF)
        if valid:
            val, i = val + code_point(digits), b
    sql = "U&'" + text + "'" + suffix
    ctx.sample(lambda: repr(str(sql)))
    try:
        tree = expression_from_sql(sql)
    except Exception:
        tree = None
    if not valid:
        ctx.check(tree is None, "an escape that denotes no character is rejected", lambda: "%r reads as %s" % (str(sql), render(tree)))
        return
    ctx.check(tree is not None, "a valid text is read", lambda: "%r is rejected" % str(sql))
    if tree is not None:
        ctx.check(deep_eq(tree, g.x.Literal(val, data_type=g.dt.varchar(max_chars=len(val)))), "value denoted by the text", lambda: "%r reads as %s" % (str(sql), render(tree)))


# grammatical, but without a node of their own: (text, what it would be if the particular part were ignored)
UNSUPPORTED = [
    ("a AT TIME ZONE 'UTC'", "a"),
    ("a AT TIME ZONE INTERVAL '1' HOUR", "a"),
    ("a = ALL ( SELECT b )", "a = ( SELECT b )"),
    ("a > ANY ( SELECT b )", "a > ( SELECT b )"),
    ("a <> SOME ( SELECT b )", "a <> ( SELECT b )"),
    ("?", None),
    ("a . b . c", "b . c"),
    ('"" . b . c', "b . c"),
    ('"" . "" . c', '"" . c'),
    ("a . b . c . d", "a . b"),
    ("a + ?", "a"),
    ("COUNT ( DISTINCT a )", "COUNT ( a )"),
    ("SUM ( DISTINCT a ) OVER ( )", "SUM ( a ) OVER ( )"),
    ("LISTAGG ( DISTINCT a , 's' ) WITHIN GROUP ( ORDER BY b )", "LISTAGG ( a , 's' ) WITHIN GROUP ( ORDER BY b )"),
    ("POSITION ( a IN b )", "a IN ( b )"),
    ("EXISTS ( SELECT a )", "( SELECT a )"),
    ("TRIM ( a )", "a"),
    ("TRIM ( LEADING a FROM b )", "b"),
    ("TRIM ( BOTH FROM b )", "b"),
    ("TRIM ( a , b )", "a"),
    ("SUBSTRING ( a FROM 1 FOR 2 )", "a"),
    ("EXTRACT ( YEAR FROM a )", "a"),
    ("GROUPING ( a )", "a"),
    ("JSON_EXISTS ( a , 'lax' )", "a"),
    ("JSON_VALUE ( a , 'lax' RETURNING BIGINT )", "a"),
    ("JSON_QUERY ( a , 'lax' WITH WRAPPER )", "a"),
    ("JSON_OBJECT ( 's' : a )", "a"),
    ("JSON_ARRAY ( a , b )", "a"),
    ("RUNNING SUM ( a )", "SUM ( a )"),
    ("FINAL SUM ( a )", "SUM ( a )"),
    ("RUNNING COUNT ( * )", "COUNT ( * )"),
    ("a OVER b", "a"),
    ("a OVER ( ORDER BY b )", "a"),
    ("c . SUM ( a )", "SUM ( a )"),
    ("NOSUCHFUNCTION ( a )", "a"),
    ("LENGTH ( a ORDER BY b )", "LENGTH ( a )"),
    ("LENGTH ( DISTINCT a )", "LENGTH ( a )"),
    ("LENGTH ( a ) FILTER ( WHERE b )", "LENGTH ( a )"),
    ("LENGTH ( a ) OVER ( )", "LENGTH ( a )"),
    ("CONCAT ( a , b ) OVER ( )", "CONCAT ( a , b )"),
    ("CAST ( a AS NOSUCHTYPE )", "a"),
    ("CAST ( a AS BIGINT ARRAY [ 3 ] )", "CAST ( a AS BIGINT ARRAY )"),
    ("CAST ( a AS VARCHAR ( BIGINT ) )", "CAST ( a AS VARCHAR )"),
    ("CAST ( a AS DECIMAL ( 99 , 2 ) )", "a"),
    ("SUM ( a ) OVER ( ROWS CURRENT ROW PATTERN ( b ) DEFINE b AS c )", "SUM ( a ) OVER ( ROWS CURRENT ROW )"),
    ("SUM ( a ) OVER ( MEASURES b AS c ROWS CURRENT ROW )", "SUM ( a ) OVER ( ROWS CURRENT ROW )"),
    ("SUM ( a ) OVER ( ROWS CURRENT ROW AFTER MATCH SKIP TO NEXT ROW )", "SUM ( a ) OVER ( ROWS CURRENT ROW )"),
    ("SUM ( a ) OVER ( ROWS CURRENT ROW INITIAL )", "SUM ( a ) OVER ( ROWS CURRENT ROW )"),
    ("SUM ( a ) OVER ( ROWS CURRENT ROW SUBSET b = ( c ) )", "SUM ( a ) OVER ( ROWS CURRENT ROW )"),
]
CONTEXTS = [
    ("expr", "%s"),
    ("expr", "( %s )"),
    ("expr", "d AND %s"),
    ("expr", "COALESCE ( d , %s )"),
    ("expr", "CASE WHEN d THEN %s END"),
    ("expr", "CASE %s WHEN d THEN e END"),
    ("expr", "CAST ( %s AS BIGINT )"),
    ("expr", "ARRAY [ d , %s ]"),
    ("expr", "ROW ( %s , d )"),
    ("expr", "( d ) -> %s"),
    ("expr", "d IN ( e , %s )"),
    ("expr", "d IN ( SELECT %s )"),
    ("expr", "SUM ( d ) FILTER ( WHERE %s )"),
    ("expr", "SUM ( d ) OVER ( PARTITION BY %s )"),
    ("expr", "SUM ( d ) OVER ( ORDER BY %s )"),
    ("expr", "ARRAY_AGG ( d ORDER BY %s )"),
    ("query", "SELECT %s"),
    ("query", "SELECT d , %s AS e FROM f"),
    ("query", "SELECT d FROM f WHERE %s"),
    ("query", "SELECT d FROM f GROUP BY %s"),
    ("query", "SELECT d FROM f GROUP BY d , CUBE ( %s )"),
    ("query", "SELECT d FROM f HAVING %s"),
    ("query", "SELECT d FROM f ORDER BY e , %s DESC"),
    ("query", "SELECT d FROM f JOIN e ON %s"),
    ("query", "SELECT d FROM UNNEST ( %s )"),
    ("query", "VALUES 9 , %s"),
    ("query", "WITH d AS ( SELECT %s ) TABLE d"),
    ("query", "TABLE d UNION SELECT %s"),
    ("query", "SELECT d FROM ( SELECT %s ) e"),
    ("query", "SELECT d WINDOW e AS ( ORDER BY %s )"),
    ("query", "SELECT d FROM f TABLESAMPLE SYSTEM ( %s )"),
]
QUNSUPPORTED = [
    ("SELECT 1 FROM a , b", "SELECT 1 FROM a"),
    ("SELECT 1 FROM a , b WHERE c", "SELECT 1 FROM b WHERE c"),
    ("SELECT 1 FROM a , LATERAL ( SELECT b )", "SELECT 1 FROM a"),
    ("WITH RECURSIVE a AS ( SELECT 1 ) TABLE a", "WITH a AS ( SELECT 1 ) TABLE a"),
    ("SELECT a FETCH FIRST 3 ROWS WITH TIES", "SELECT a LIMIT 3"),
    ("SELECT a FETCH FIRST ROW WITH TIES", "SELECT a LIMIT 1"),
    ("SELECT a LIMIT ?", "SELECT a"),
    ("SELECT a OFFSET ?", "SELECT a"),
    ("SELECT a FETCH NEXT ? ROWS ONLY", "SELECT a"),
    ("SELECT 1 FROM a FOR VERSION AS OF 3", "SELECT 1 FROM a"),
    ("SELECT 1 FROM a FOR TIMESTAMP AS OF b", "SELECT 1 FROM a"),
    ("SELECT 1 FROM a MATCH_RECOGNIZE ( PATTERN ( b ) DEFINE b AS c )", "SELECT 1 FROM a"),
    ("SELECT 1 FROM a MATCH_RECOGNIZE ( PATTERN ( b ) DEFINE b AS c ) AS d", "SELECT 1 FROM a AS d"),
    ("SELECT 1 FROM TABLE ( a ( b ) )", "SELECT 1 FROM a"),
    ("SELECT 1 FROM a . b . c . d", None),
    ("TABLE a . b . c . d", None),
    ("SELECT 1 EXCEPT ALL SELECT 2", "SELECT 1 EXCEPT SELECT 2"),
    ("SELECT 1 INTERSECT ALL SELECT 2", "SELECT 1 INTERSECT SELECT 2"),
    ("SELECT ROW ( a , b ) . * AS ( c , d )", "SELECT ROW ( a , b )"),
    ("SELECT ROW ( a , b ) . *", "SELECT ROW ( a , b )"),
    ("SELECT a . b . * FROM a", "SELECT b . * FROM a"),
    ('SELECT "" . b . * FROM a', "SELECT b . * FROM a"),
    ("SELECT 1 WINDOW a AS ( ORDER BY b ) , a AS ( ORDER BY c )", "SELECT 1 WINDOW a AS ( ORDER BY c )"),
    ("SELECT 1 WINDOW a AS ( ORDER BY b ) , c AS ( ) , a AS ( )", "SELECT 1 WINDOW c AS ( ) , a AS ( )"),
    ("INSERT INTO a SELECT 1", None),
    ("CREATE TABLE a AS SELECT 1", None),
    ("DELETE FROM a", None),
    ("SHOW TABLES", None),
    ("EXPLAIN SELECT 1", None),
    ("CALL a ( 1 )", None),
    ("DROP TABLE a", None),
    ("USE a", None),
    ("DESCRIBE a", None),
    ("COMMIT", None),
]
QCONTEXTS = [
    ("query", "%s"),
    ("query", "( %s )"),
    ("query", "SELECT d FROM ( %s ) AS e"),
    ("query", "WITH d AS ( %s ) TABLE e"),
    ("query", "TABLE d UNION ( %s )"),
    ("expr", "d IN ( %s )"),
    ("expr", "d = ( %s )"),
    ("query", "SELECT d FROM e CROSS JOIN LATERAL ( %s )"),
]
TUNSUPPORTED = [
    ("NOSUCHTYPE", None),
    ("BIGINT ARRAY [ 3 ]", "BIGINT ARRAY"),
    ("ARRAY ( BIGINT , DATE )", "ARRAY ( BIGINT )"),
    ("ARRAY ( 3 )", None),
    ("MAP ( BIGINT )", None),
    ("VARCHAR ( 3 , 4 )", "VARCHAR ( 3 )"),
    ("VARCHAR ( DATE )", "VARCHAR"),
    ("DECIMAL ( 3 , 2 , 1 )", "DECIMAL ( 3 , 2 )"),
    ("DECIMAL ( 39 , 2 )", None),
    ("BIGINT ( 3 )", "BIGINT"),
    ("DATE ( 3 )", "DATE"),
    ("DOUBLE ( 3 )", "DOUBLE"),
    ("TIMESTAMP ( 13 )", None),
    ("TIME ( DATE )", "TIME"),
    ("INTERVAL DAY TO MONTH", None),
    ("INTERVAL YEAR TO SECOND", None),
]
TCONTEXTS = [("type", "%s"), ("type", "ARRAY ( %s )"), ("type", "ROW ( DATE , %s )"), ("type", "MAP ( DATE , %s )"), ("type", "%s ARRAY"), ("expr", "CAST ( a AS %s )"), ("expr", "TRY_CAST ( a AS ROW ( %s ) )"), ("query", "SELECT CAST ( a AS %s ) FROM b")]


def unsupported(ctx, table, contexts):
    """a construct without a node of its own raises wherever it stands (or is represented in full)"""
    bad, base = ctx.pick("construct", table)
    kind, tmpl = ctx.pick("context", contexts)
    nm = Names(ctx)
    t, toks = nm.text((tmpl % bad).split(" "))
    ctx.sample(lambda: str(t))
    tree = read(kind, t)
    if tree is None:
        ctx.check(True, "rejected")
        return
    ctx.check(grammatical(kind, t), "only text that is wholly in the grammar is read", lambda: "%s reads as %s" % (t, render(tree)))
    ctx.check(kept(toks, tree), "nothing of the text is lost", lambda: "%s reads as %s" % (t, render(tree)))
    if base is not None:
        t0, _ = nm.text((tmpl % base).split(" "))
        plain = read(kind, t0)
        if plain is not None:
            differ(ctx, tree, plain, t, t0)


def h_unsupported(ctx):
    unsupported(ctx, UNSUPPORTED, CONTEXTS if ctx.thorough else CONTEXTS[::2] + CONTEXTS[17:20])


def h_queries(ctx):
    unsupported(ctx, QUNSUPPORTED, QCONTEXTS)


def h_types(ctx):
    unsupported(ctx, TUNSUPPORTED, TCONTEXTS)


HARNESSES = [
    Harness("whole", h_whole, "43 texts (10 queries, 24 expressions, 9 types) with 19 kinds of text before or after them"),
    Harness("delete", h_delete, "43 texts, any 1..3 neighbouring tokens left out, symbolic names"),
    Harness("insert", h_insert, "43 texts, one of 20 (thorough 45) tokens added anywhere, symbolic names"),
    Harness("replace", h_replace, "43 texts, any token replaced by one of 10 (thorough 45) others, symbolic names"),
    Harness("repeat", h_repeat, "43 texts, any 1..3 tokens repeated, two swapped, every prefix and suffix"),
    Harness("chars", h_chars, "5 (thorough 7) short texts, any Unicode character added or put in at any place"),
    Harness("any", h_any, "any 0..2 (thorough 0..3) of 32 punctuation characters behind 3 complete texts or as all of the text", {"n": 2}, {"n": 3}),
    Harness("unclosed", h_unclosed, "9 kinds of openings never closed, with any 0..1 (thorough 0..2) characters behind them", {"n": 1}, {"n": 2}),
    Harness("escapes", h_escapes, "U& strings: a backslash with any 0..7 (thorough 0..8) characters behind it, or any escape string of 0..2 characters in 3 texts"),
    Harness("unsupported", h_unsupported, "49 constructs of the grammar without a node of their own in 19 (thorough 31) contexts"),
    Harness("unsupported_queries", h_queries, "34 query constructs and statements in 8 contexts"),
    Harness("unsupported_types", h_types, "16 types in 8 contexts"),
]
