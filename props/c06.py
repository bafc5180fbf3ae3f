"""C06: every function call reads back with the same function and arguments."""
import json
import os
import subprocess

from sx.api import Harness
from sx.core import zor

from .common import concrete_type, deep_eq, leaf_eq, render, zand_all
from .gen import Gen, norm_sugar
from .long import FUNC_LISTS, expr_place, lists

REPO = os.environ.get("TREENO_REPO", "/repo")

# The functions and, for every number of arguments, which argument is which (in SQL order).
SPEC = {}


def _f(mod, text):
    for line in text.strip().splitlines():
        name, cls, *sigs = line.split()
        SPEC[name] = (mod, cls, [[] if s == "-" else s.split(",") for s in sigs])


_f("aggregate", """
SUM Sum value
ARBITRARY Arbitrary value
ARRAY_AGG ArrayAgg value
AVG Avg value
BOOL_AND BoolAnd value
BOOL_OR BoolOr value
CHECKSUM Checksum value
COUNT Count value
COUNT_IF CountIf value
EVERY Every value
GEOMETRIC_MEAN GeometricMean value
MAX Max value value,num_values
MAX_BY MaxBy value,max_by value,max_by,num_values
MIN Min value value,num_values
MIN_BY MinBy value,min_by value,min_by,num_values
BITWISE_AND_AGG BitwiseAndAgg value
BITWISE_OR_AGG BitwiseOrAgg value
HISTOGRAM Histogram value
MAP_AGG MapAgg key,value
MAP_UNION MapUnion value
MULTIMAP_AGG MultiMapAgg key,value
APPROX_DISTINCT ApproxDistinct key key,epsilon
APPROX_MOST_FREQUENT ApproxMostFrequent buckets,value,capacity
APPROX_PERCENTILE ApproxPercentile value,percentage value,weight,percentage
APPROX_SET ApproxSet value
MERGE Merge value
NUMERIC_HISTOGRAM NumericHistogram buckets,value buckets,value,weight
QDIGEST_AGG QDigestAgg value value,weight value,weight,accuracy
TDIGEST_AGG TDigestAgg value value,weight
CORR Corr y,x
COVAR_POP CovarPop y,x
COVAR_SAMP CovarSamp y,x
KURTOSIS Kurtosis y,x
REGR_INTERCEPT RegrIntercept y,x
REGR_SLOPE RegrSlope y,x
SKEWNESS Skewness value
STDDEV StdDev value
STDDEV_POP StdDevPop value
STDDEV_SAMP StdDevSamp value
VARIANCE Variance value
VAR_POP VarPop value
VAR_SAMP VarSamp value
""")
AGGREGATES = list(SPEC)
_f("conditional", """
IF If condition,true_value condition,true_value,false_value
NULLIF NullIf value1,value2
TRY Try expr
""")
_f("datetime", """
DATE Date value
LAST_DAY_OF_MONTH LastDayOfMonth value
FROM_ISO8601_TIMESTAMP FromISO8601Timestamp value
FROM_ISO8601_TIMESTAMP_NANOS FromISO8601TimestampNanos value
FROM_ISO8601_DATE FromISO8601Date value
AT_TIMEZONE AtTimezone value,zone
WITH_TIMEZONE WithTimezone value,zone
FROM_UNIXTIME FromUnixtime value value,zone value,hours,minutes
FROM_UNIXTIME_NANOS FromUnixtimeNanos value
NOW Now -
TO_ISO8601 ToISO8601 value
TO_MILLISECONDS ToMilliseconds value
TO_UNIXTIME ToUnixtime value
DATE_TRUNC DateTrunc unit,value
DATE_ADD DateAdd unit,value,timestamp
DATE_DIFF DateDiff unit,timestamp1,timestamp2
PARSE_DURATION ParseDuration value
HUMAN_READABLE_SECONDS HumanReadableSeconds value
""")
_f("math", "POWER Power x,p")
_f("string", """
CHR Chr number
CODEPOINT CodePoint string
HAMMING_DISTANCE HammingDistance string1,string2
LENGTH Length string
LEVENSHTEIN_DISTANCE LevenshteinDistance string1,string2
LOWER Lower string
LPAD LPad string,size,pad_string
LTRIM LTrim string
LUHN_CHECK LuhnCheck string
REPLACE Replace string,search string,search,replace
REVERSE Reverse string
RPAD RPad string,size,pad_string
RTRIM RTrim string
SOUNDEX Soundex string
TO_UTF8 ToUTF8 string
FROM_UTF8 FromUTF8 binary binary,replace
""")
VARIADIC = {"CONCAT": ("common", "Concatenate"), "COALESCE": ("conditional", "Coalesce")}
BARE = {"CURRENT_DATE": ("datetime", "CurrentDate"), "CURRENT_USER": ("session", "CurrentUser"), "CURRENT_CATALOG": ("session", "CurrentCatalog"), "CURRENT_SCHEMA": ("session", "CurrentSchema"), "CURRENT_PATH": ("session", "CurrentPath")}
PRECISE = {"CURRENT_TIME": "CurrentTime", "CURRENT_TIMESTAMP": "CurrentTimestamp", "LOCALTIME": "LocalTime", "LOCALTIMESTAMP": "LocalTimestamp"}
SIGS = [(n, i) for n in SPEC for i in range(len(SPEC[n][2]))]


def cls_of(name):
    import importlib

    mod, cls = (SPEC.get(name) or VARIADIC.get(name) or BARE.get(name))[:2]
    return getattr(importlib.import_module("treeno.functions." + mod), cls)


def read(text):
    from treeno.builder.convert import expression_from_sql

    return expression_from_sql(text)


def q(name):
    return '"' + name + '"'


def rejected(text):
    try:
        read(text)
    except Exception:
        return True
    return False


def is_arg(g, v, a):
    """v is the column called a"""
    return type(v) is g.x.Field and v.table is None and leaf_eq(v.name, a)


def same_args(g, node, name, sig, args):
    every = {a for s in SPEC[name][2] for a in s}
    out = [type(node) is cls_of(name)]
    if not out[0]:
        return False
    out += [is_arg(g, getattr(node, f), a) for f, a in zip(sig, args)]
    out += [getattr(node, f) is None for f in every - set(sig)]
    return zand_all(out)


def no_clauses(g, node):
    if not isinstance(node, g.agg.AggregateFunction):
        return True
    return not node.orderby and node.filter_ is None and node.window is None and node.null_treatment is g.w.NullTreatment.RESPECT


def h_positions(ctx):
    """a call in SQL text gives each argument its own place"""
    g = Gen(ctx)
    name, i = ctx.pick("fn", SIGS)
    sig = SPEC[name][2][i]
    args = [g.name("arg") for _ in sig]
    text = ctx.pick("case", [name, name.lower()]) + "("
    for j, a in enumerate(args):
        text = text + (", " if j else "") + q(a)
    node = read(text + ")")
    ctx.check(zand_all([no_clauses(g, node), same_args(g, node, name, sig, args)]), "each argument in its place", lambda: "%s) reads as %s" % (text, render(node)))


def leaf(g, kind):
    x = g.x
    return {
        "field": g.field,
        "zero": lambda: g.lit_int(0, 3),
        "neg": lambda: g.lit_int(-9, -1),
        "str": lambda: g.lit_str(1),
        "null": lambda: x.NULL,
        "false": lambda: x.wrap_literal(False),
        "op": lambda: x.Or(g.field(), g.field()),
        "arith": lambda: x.Minus(g.field(), x.Negative(g.field())),
        "cast": lambda: x.Cast(g.field(), data_type=g.dt.bigint()),
        "call": lambda: g.fstring.Lower(g.field()),
        "lambda": lambda: x.Lambda([x.Lambda.Variable("zz")], x.Add(x.Lambda.Variable("zz"), g.field())),
    }[kind]()


LEAF = ["field", "zero", "neg", "str", "null", "false", "op", "arith", "cast", "call", "lambda"]


def roundtrip(ctx, g, e, both=True):
    M = g.T.base.PrintMode
    mode = ctx.pick("mode", [M.DEFAULT, M.PRETTY]) if both else M.DEFAULT
    sql = e.sql(g.T.base.PrintOptions(mode=mode))
    ctx.sample(lambda: str(sql))
    back = read(sql)
    ctx.check(deep_eq(e, back, norm=norm_sugar(g)), "same call", lambda: "%s  printed as  %s  reads as  %s" % (render(e), sql, render(back)))


def h_roundtrip(ctx):
    """built by keyword, so that no constructor order matters"""
    g = Gen(ctx)
    name, i = ctx.pick("fn", SIGS)
    sig = SPEC[name][2][i]
    pos = ctx.choose("pos", max(1, len(sig)))
    kind = ctx.pick("leaf", LEAF) if sig else "field"
    kw = {f: leaf(g, kind if j == pos else "field") for j, f in enumerate(sig)}
    cls = cls_of(name)
    node = cls(kw.pop("value"), **kw) if name == "APPROX_PERCENTILE" else cls(**kw)
    roundtrip(ctx, g, node)


def h_variadic(ctx):
    g = Gen(ctx)
    name = ctx.pick("fn", list(VARIADIC))
    n = 2 + ctx.choose("n", ctx.params["n"] - 1)
    pos = ctx.choose("pos", n)
    kind = ctx.pick("leaf", [k for k in LEAF if k not in ("lambda",)])
    values = [leaf(g, kind if j == pos else "field") for j in range(n)]
    node = cls_of(name)(values=values)
    roundtrip(ctx, g, node)
    args = [g.name("arg") for _ in range(n)]
    text = name + "("
    for j, a in enumerate(args):
        text = text + (", " if j else "") + q(a)
    back = read(text + ")")
    ok = type(back) is cls_of(name) and len(back.values) == n
    ctx.check(ok and zand_all([is_arg(g, v, a) for v, a in zip(back.values, args)]), "arguments in order", lambda: "%s) reads as %s" % (text, render(back)))


def agg_clauses(ctx, g, name):
    """every combination of the clauses of an aggregate"""
    o, w = g.o, g.w
    kw = {}
    n = ctx.choose("orderby", 3)
    if n:
        kw["orderby"] = [o.OrderTerm(g.field(), o.OrderType.DESC if j else o.OrderType.ASC) for j in range(n)]
    if ctx.flag("filter"):
        kw["filter_"] = leaf(g, ctx.pick("cond", ["field", "op", "false"]))
    win = ctx.pick("window", [None, "empty", "part", "order", "named"])
    if win:
        kw["window"] = {
            "empty": lambda: w.Window(),
            "part": lambda: w.Window(partitions=[g.field(), g.field()]),
            "order": lambda: w.Window(orderby=[o.OrderTerm(g.field(), o.OrderType.DESC, o.NullOrder.FIRST)]),
            "named": lambda: w.Window(parent_window=g.name("w"), orderby=[o.OrderTerm(g.field())]),
        }[win]()
        kw["null_treatment"] = ctx.pick("nulls", [w.NullTreatment.RESPECT, w.NullTreatment.IGNORE])
    return kw


def h_aggregates(ctx):
    g = Gen(ctx)
    name = ctx.pick("fn", AGGREGATES)
    sig = SPEC[name][2][-1]
    kw = {f: g.field() for f in sig}
    if name not in ("SUM", "MAX_BY", "APPROX_PERCENTILE", "CORR") and not ctx.thorough:
        # all printers are shared: the full product is explored for one class of each shape, the rest get one of each clause
        which = ctx.pick("which", ["orderby", "filter", "window", "all"])
        o, w = g.o, g.w
        if which in ("orderby", "all"):
            kw["orderby"] = [o.OrderTerm(g.field(), o.OrderType.DESC)]
        if which in ("filter", "all"):
            kw["filter_"] = g.field()
        if which in ("window", "all"):
            kw["window"] = w.Window(partitions=[g.field()])
            kw["null_treatment"] = w.NullTreatment.IGNORE
    else:
        kw.update(agg_clauses(ctx, g, name))
    cls = cls_of(name)
    node = cls(kw.pop("value"), **kw) if name == "APPROX_PERCENTILE" else cls(**kw)
    roundtrip(ctx, g, node)


def h_clauses_read(ctx):
    """an aggregate's clauses in SQL text end up in their own fields"""
    g = Gen(ctx)
    name = ctx.pick("fn", ["SUM", "count", "MAX"])
    a, o1, f1, p1 = names = [g.name(n) for n in ("arg", "ord", "fil", "par")]
    qa, qo, qf, qp = [q(n) for n in names]
    order, fil, win, nulls = ctx.flag("order"), ctx.flag("filter"), ctx.flag("window"), ctx.pick("nulls", ["", " IGNORE NULLS", " RESPECT NULLS"])
    if not win:
        ctx.assume(nulls == "")
    text = name + "(" + qa + ((" ORDER BY " + qo + " DESC") if order else "") + ")" + ((" FILTER (WHERE " + qf + ")") if fil else "") + nulls + ((" OVER (PARTITION BY " + qp + ")") if win else "")
    n = read(text)
    N = g.w.NullTreatment
    ok = [
        type(n) is cls_of(name.upper()),
        is_arg(g, n.value, a),
        (len(n.orderby) == 1 and zand_all([is_arg(g, n.orderby[0].value, o1), n.orderby[0].order_type is g.o.OrderType.DESC])) if order else not n.orderby,
        is_arg(g, n.filter_, f1) if fil else n.filter_ is None,
        (n.window is not None and len(n.window.partitions) == 1 and is_arg(g, n.window.partitions[0], p1)) if win else n.window is None,
        n.null_treatment is (N.IGNORE if "IGNORE" in nulls else N.RESPECT),
    ]
    ctx.check(zand_all(ok), "clauses in their places", lambda: "%s reads as %s" % (text, render(n)))


def h_listagg(ctx):
    g = Gen(ctx)
    A = g.agg
    kw = {}
    if ctx.flag("sep"):
        kw["separator"] = ctx.str("sep", ctx.choose("seplen", 3))
    fill = ctx.pick("overflow", [None, "with", "without"])
    if fill:
        ind = A.CountIndication.WITH_COUNT if fill == "with" else A.CountIndication.WITHOUT_COUNT
        kw["overflow_filler"] = A.OverflowFiller(ind, ctx.str("fill", ctx.choose("filllen", 3))) if ctx.flag("filler") else A.OverflowFiller(ind)
    kw["orderby"] = [g.o.OrderTerm(g.field(), ctx.pick("dir", [g.o.OrderType.ASC, g.o.OrderType.DESC])) for _ in range(1 + ctx.choose("n", 2))]
    roundtrip(ctx, g, A.ListAgg(leaf(g, ctx.pick("leaf", ["field", "op", "str"])), **kw))


def h_special(ctx):
    g = Gen(ctx)
    what = ctx.pick("what", ["bare", "precise", "precise_read", "normalize", "count_star", "count_tstar", "normalize_read"])
    F = g.fdate
    if what == "bare":
        name = ctx.pick("fn", list(BARE))
        roundtrip(ctx, g, cls_of(name)())
        for t in (name, name.lower()):
            n = read(t)
            ctx.check(type(n) is cls_of(name), "right function", lambda: "%s reads as %s" % (t, render(n)))
    elif what == "precise":
        name = ctx.pick("fn", list(PRECISE))
        roundtrip(ctx, g, getattr(F, PRECISE[name])(ctx.int("p", 0, 12)))
    elif what == "precise_read":
        name = ctx.pick("fn", list(PRECISE))
        p = ctx.int("p", 0, 12)
        with_p = ctx.flag("with")
        n = read(ctx.pick("case", [name, name.lower()]) + (("(" + p.__str__() + ")") if with_p else ""))
        ctx.check(type(n) is getattr(F, PRECISE[name]) and leaf_eq(n.precision, p if with_p else 3), "right function and precision", lambda: render(n))
    elif what == "normalize":
        f = ctx.pick("form", list(g.fstring.NormalForm))
        roundtrip(ctx, g, g.fstring.Normalize(leaf(g, ctx.pick("leaf", ["field", "op", "str"])), f))
    elif what == "normalize_read":
        a = g.name("arg")
        f = ctx.pick("form", [None, "NFD", "NFC", "NFKD", "NFKC"])
        n = read("normalize(" + q(a) + (", " + f if f else "") + ")")
        ctx.check(type(n) is g.fstring.Normalize and (n.normal_form is None or n.normal_form.name == "NFC" if f is None else n.normal_form is not None and n.normal_form.name == f) and is_arg(g, n.string, a), "right form", lambda: render(n))
    else:
        t = g.name("tb") if what == "count_tstar" else None
        kw = {}
        if ctx.flag("filter"):
            kw["filter_"] = g.field()
        if ctx.flag("window"):
            kw["window"] = g.w.Window(partitions=[g.field()])
        roundtrip(ctx, g, g.agg.Count(g.x.Star(t) if t is not None else g.x.Star(), **kw))


def h_letter_case(ctx):
    """every letter of the name is symbolic: upper or lower"""
    g = Gen(ctx)
    name, i = ctx.pick("fn", [(n, len(SPEC[n][2]) - 1) for n in SPEC])
    sig = SPEC[name][2][i]
    text = ""
    for c in name:
        text = text + (ctx.str("c", 1, [(ord(c), ord(c)), (ord(c.lower()), ord(c.lower()))]) if c.isalpha() else c)
    text = text + "(" + ", ".join("x%d" % j for j in range(len(sig))) + ")"
    node = read(text)
    ctx.check(same_args(g, node, name, sig, ["x%d" % j for j in range(len(sig))]), "same function in any letter case", lambda: "%s reads as %s" % (text, render(node)))


def h_rejects(ctx):
    g = Gen(ctx)
    what = ctx.pick("what", ["arity", "unknown", "clause", "qualified", "distinct"])
    if what == "arity":
        name = ctx.pick("fn", list(SPEC))
        bad = [n for n in range(0, 6) if n not in [len(s) for s in SPEC[name][2]]]
        n = ctx.pick("n", bad)
        text = name + "(" + ", ".join("x%d" % j for j in range(n)) + ")"
        ctx.check(rejected(text), "wrong number of arguments is rejected", lambda: "%s was read as %s" % (text, render(read(text))))
    elif what == "unknown":
        k = 1 + ctx.choose("len", ctx.params["len"])
        nm = ctx.str("name", k, [(65, 90)])
        known = [x for x in list(SPEC) + list(VARIADIC) + list(BARE) + list(PRECISE) + ["LISTAGG", "NORMALIZE", "ROW"] if len(x) == k]
        for x in known:
            ctx.assume(nm != x)
        text = nm + "(a)"
        try:
            node = read(text)
        except Exception:
            node = None
        ctx.check(node is None or not isinstance(node, g.T.functions.base.Function), "unknown function is rejected", lambda: "%s was read as %s" % (text, render(node)))
        # NOT (a), ROW (a) and the like are not calls
    elif what == "clause":
        name = ctx.pick("fn", [n for n in SPEC if n not in AGGREGATES])
        text = name + "(" + ", ".join("x%d" % j for j in range(len(SPEC[name][2][0]))) + ctx.pick("clause", [" ORDER BY y)", ") FILTER (WHERE y)", ") OVER ()", ") IGNORE NULLS OVER ()"])
        ctx.check(rejected(text), "aggregate clause on a plain function is rejected", lambda: "%s was read as %s" % (text, render(read(text))))
    elif what == "qualified":
        text = g.name("q") + ".SUM(x)"
        ctx.check(rejected(text), "qualified function name is rejected", lambda: text)
    else:
        name = ctx.pick("fn", ["SUM", "COUNT", "MAX", "LOWER", "COALESCE"])
        text = name + "(DISTINCT x)"
        ctx.check(rejected(text), "DISTINCT is rejected, not dropped", lambda: text)


_FRESH = {}


def fresh(module):
    """The names of the calls that a process reads as a function when it has imported nothing of the library but this
    module (the functions of the other modules must be there all the same)."""
    if module not in _FRESH:
        texts = {n: n + "(" + ", ".join("x%d" % j for j in range(len(SPEC[n][2][-1]))) + ")" for n in SPEC}
        texts.update({n: n + "(a, b)" for n in VARIADIC})
        texts.update({n: n for n in list(BARE) + list(PRECISE)})
        code = (
            "import sys, json\nimport %s\nfrom treeno.builder.convert import expression_from_sql\nout = {}\n"
            "for n, t in json.load(sys.stdin).items():\n"
            "    try:\n        out[n] = type(expression_from_sql(t)).__name__\n"
            "    except Exception:\n        out[n] = None\n"
            "print(json.dumps(out))" % module
        )
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", "-c", code], input=json.dumps(texts), capture_output=True, text=True, env=env, timeout=200)
        _FRESH[module] = json.loads(r.stdout.strip().splitlines()[-1]) if r.returncode == 0 else {}
    return _FRESH[module]


def h_fresh(ctx):
    module = ctx.pick("module", ["treeno.builder.convert", "treeno.cli"])
    want = {n: SPEC[n][1] for n in SPEC}
    want.update({n: v[1] for n, v in list(VARIADIC.items()) + list(BARE.items())})
    want.update(PRECISE)
    got = fresh(module)
    k = ctx.pick("len", sorted({len(n) for n in want}))
    nm = ctx.str("name", k, [(65, 90), (48, 57), (95, 95)])
    ctx.assume(zor([leaf_eq(nm, n) for n in want if len(n) == k]))
    known = [n for n in want if len(n) == k and got.get(n) == want[n]]
    ctx.check(zor([leaf_eq(nm, n) for n in known]), "known in a process that imports nothing else", lambda: "after import %s, %s is no function" % (module, nm))


def h_long(ctx):
    g = Gen(ctx)
    roundtrip(ctx, g, expr_place(g, FUNC_LISTS, sizes=lists(ctx)))


def h_special_values(ctx):
    """special values at every position of every function and aggregate"""
    from .special import SPECIAL, tree
    from .zoo import ZOO

    g, e = tree(ctx, [n for n in ZOO if n.startswith("agg:") or ctx.thorough and n.startswith("fn:")])
    if hasattr(e, "null_treatment"):
        ctx.assume(e.window is not None or e.null_treatment.name == "RESPECT")
    roundtrip(ctx, g, e, ctx.thorough)


HARNESSES = [
    Harness("positions", h_positions, "80 functions, every legal number of arguments, symbolic argument names"),
    Harness("roundtrip", h_roundtrip, "80 functions x every number of arguments x every position x 11 kinds of argument x both print modes"),
    Harness("variadic", h_variadic, "CONCAT and COALESCE with 2..4 (thorough 2..6) arguments", {"n": 4}, {"n": 6}),
    Harness("aggregates", h_aggregates, "42 aggregates with their clauses: full product of 0..2 order terms x filter x window x null treatment for 4 classes (thorough: all)"),
    Harness("clauses_read", h_clauses_read, "aggregate calls as text with every subset of ORDER BY, FILTER, null treatment, OVER"),
    Harness("listagg", h_listagg, "separators of 0..2 and fillers of 0..2 arbitrary characters, count indication, 1..2 order terms"),
    Harness("special_forms", h_special, "functions with their own syntax, precision 0..12 symbolic"),
    Harness("letter_case", h_letter_case, "every letter of every function name upper or lower, symbolically"),
    Harness("rejections", h_rejects, "0..5 arguments outside the legal numbers, every unknown name of 1..3 (thorough 1..6) letters, clauses on plain functions", {"len": 3}, {"len": 6}),
    Harness("special_values", h_special_values, "each of 15 special values (NULL, FALSE, zero, empty, negative, typed, a row ...) at every position of every aggregate with all its clauses (thorough: every function)"),
    Harness("fresh_process", h_fresh, "every function name (symbolic text) x 2 modules imported first in a process of their own"),
    Harness("long", h_long, "7 kinds of lists in functions; lists of 1..17 and 19 sizes up to 129 (thorough 1..134 and 10 sizes up to 513) entries, one name symbolic"),
]
