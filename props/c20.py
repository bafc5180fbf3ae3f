"""C20: Python operators on expressions build the SQL they denote."""
import operator
from decimal import Decimal

from sx.api import Harness

from .c06 import SPEC, VARIADIC, cls_of
from .c10 import same
from .c13 import tokens
from .c15 import Parser
from .common import concrete_type, deep_eq, leaf_eq, node_fields, render, zand_all
from .gen import ALL, AZ, BYNAME, KINDS, LEAVES, Gen, norm_sugar

# Python operator: the node it denotes and the nodes' operand attributes
BINARY = {
    "+": (operator.add, "Add"),
    "-": (operator.sub, "Minus"),
    "*": (operator.mul, "Multiply"),
    "/": (operator.truediv, "Divide"),
    "%": (operator.mod, "Modulus"),
    "**": (operator.pow, "Power"),
    "==": (operator.eq, "Equal"),
    "!=": (operator.ne, "NotEqual"),
    ">": (operator.gt, "GreaterThan"),
    ">=": (operator.ge, "GreaterThanOrEqual"),
    "<": (operator.lt, "LessThan"),
    "<=": (operator.le, "LessThanOrEqual"),
    "&": (operator.and_, "And"),
    "|": (operator.or_, "Or"),
}
UNARY = {"~": (operator.invert, "Not"), "+": (operator.pos, "Positive"), "-": (operator.neg, "Negative")}
INPLACE = {"+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv, "%=": operator.imod, "**=": operator.ipow, "&=": operator.iand, "|=": operator.ior}
MIRROR = {"Equal": "Equal", "NotEqual": "NotEqual", "GreaterThan": "LessThan", "GreaterThanOrEqual": "LessThanOrEqual", "LessThan": "GreaterThan", "LessThanOrEqual": "GreaterThanOrEqual"}
SPELLED = {"AND": "And", "OR": "Or", "=": "Equal", ">": "GreaterThan", ">=": "GreaterThanOrEqual", "<": "LessThan", "<=": "LessThanOrEqual", "<>": "NotEqual", "!=": "NotEqual", "+": "Add", "-": "Minus", "*": "Multiply", "/": "Divide", "%": "Modulus"}


def node_class(g, name):
    return g.fmath.Power if name == "Power" else getattr(g.x, name)


def sides(node):
    return [getattr(node, n) for n in (("x", "p") if type(node).__name__ == "Power" else ("left", "right"))]


def some(ctx, g, label, kinds):
    kind = ctx.pick(label, kinds)
    return kind.build(g, [g.plain(kind) for _ in range(kind.slots)])


def literal_of(g, node, v, type_=None):
    """the node is the literal of exactly this value: bool | SymBool"""
    ok = [type(node) is g.x.Literal]
    if ok[0]:
        ok += [concrete_type(node.value) is concrete_type(v), leaf_eq(node.value, v)]
        if type_ is not None:
            ok.append(same(node.data_type, type_))
    return zand_all(ok)


def digits_of(d):
    """(precision, scale) of a Decimal in DECIMAL terms"""
    sign, digits, exp = d.as_tuple()
    if exp > 0:
        digits, exp = digits + (0,) * exp, 0
    digits = "".join(map(str, digits)).lstrip("0")
    scale = -exp
    whole = max(len(digits) - scale, 0)
    return max(whole + scale, 1), scale


def a_plain(ctx, g, label, kinds=None):
    """(value, its type)"""
    kind = ctx.pick(label, kinds or ["int", "big", "str", "empty", "bool", "float", "decimal"])
    if kind == "int":
        return ctx.int("n", -(2**31), 2**31 - 1, 5), ("INTEGER", {})
    if kind == "big":
        v = ctx.int("n", -(2**63), 2**63 - 1, 2**40)
        ctx.assume((v > 2**31 - 1) | (v < -(2**31)))
        return v, ("BIGINT", {})
    if kind == "str":
        n = 1 + ctx.choose("len", 3)
        return ctx.str("s", n), ("VARCHAR", {"max_chars": n})
    if kind == "empty":
        return "", None
    if kind == "bool":
        return ctx.flag("b"), ("BOOLEAN", {})
    if kind == "float":
        return ctx.pick("f", [0.0, -1.5, 1e20, 2.5e-7]), ("DOUBLE", {})
    d = Decimal(ctx.pick("d", ["1.5", "-0.25", "0", "100", "0.001", "1E+3"]))
    p, s = digits_of(d)
    return d, ("DECIMAL", {"precision": p, "scale": s})


def h_binary(ctx):
    """every operator on every kind of expression on either side"""
    g = Gen(ctx)
    op = ctx.pick("op", list(BINARY))
    fn, name = BINARY[op]
    few = [BYNAME[n] for n in ("Field", "Int", "Add", "Or", "Sum", "Subquery")]
    side = ctx.pick("side", ["left", "right", "same"])
    if side == "right":
        a, b = some(ctx, g, "left", few), some(ctx, g, "right", ALL)
    elif side == "same":
        a = b = some(ctx, g, "both", few)
    else:
        a, b = some(ctx, g, "left", ALL), some(ctx, g, "right", few)
    e = fn(a, b)
    ctx.sample(lambda: "%s %s %s" % (render(a), op, render(b)))
    cls = node_class(g, name)
    ok = type(e) is cls and sides(e)[0] is a and sides(e)[1] is b
    if not ok and name in MIRROR and type(b) is not type(a) and isinstance(b, type(a)):
        # Python asks the right operand first; the mirrored comparison means the same
        ok = type(e) is node_class(g, MIRROR[name]) and sides(e)[0] is b and sides(e)[1] is a
    ctx.check(ok, "the node of the operator with the operands in order", lambda: "%s %s %s gives %s" % (render(a), op, render(b), render(e)))


def h_unary(ctx):
    g = Gen(ctx)
    op = ctx.pick("op", list(UNARY))
    fn, name = UNARY[op]
    a = some(ctx, g, "operand", ALL)
    e = fn(a)
    ctx.sample(lambda: "%s %s" % (op, render(a)))
    ctx.check(type(e) is getattr(g.x, name) and e.value is a, "the node of the operator with its operand", lambda: "%s %s gives %s" % (op, render(a), render(e)))


def h_inplace(ctx):
    """x += y makes a new tree out of the old one"""
    g = Gen(ctx)
    op = ctx.pick("op", list(INPLACE))
    a = some(ctx, g, "left", [BYNAME[n] for n in ("Field", "Add", "Int", "Or")])
    before = [getattr(a, n) for n in node_fields(a)]
    v, t = a_plain(ctx, g, "v", ["int", "str"])
    e = INPLACE[op](a, v)
    ctx.check(type(e) is node_class(g, BINARY[op[:-1]][1]) and sides(e)[0] is a, "the operator's node on the old tree", lambda: render(e))
    ctx.check(literal_of(g, sides(e)[1], v, t), "the literal", lambda: render(e))
    ctx.check(all(x is y for x, y in zip(before, [getattr(a, n) for n in node_fields(a)])), "the old tree is left alone", lambda: render(a))


def h_plain(ctx):
    """expression op plain value"""
    g = Gen(ctx)
    op = ctx.pick("op", list(BINARY))
    fn, name = BINARY[op]
    a = some(ctx, g, "left", [BYNAME[n] for n in ("Field", "Int", "Add", "Not", "Case")])
    v, t = a_plain(ctx, g, "v")
    e = fn(a, v)
    ctx.sample(lambda: "%s %s %r" % (render(a), op, v))
    ctx.check(type(e) is node_class(g, name) and sides(e)[0] is a, "the node of the operator", lambda: "%s %s %r gives %s" % (render(a), op, v, render(e)))
    ctx.check(literal_of(g, sides(e)[1], v, t), "the value as a literal of its type", lambda: "%s %s %r gives %s of type %r" % (render(a), op, v, render(e), sides(e)[1].data_type))


def h_plain_left(ctx):
    """plain value op expression: what Python accepts means what was written"""
    g = Gen(ctx)
    op = ctx.pick("op", list(BINARY))
    name = BINARY[op][1]
    a = some(ctx, g, "right", [BYNAME[n] for n in ("Field", "Int", "Add", "Not", "Case")])
    v, t = a_plain(ctx, g, "v", ["int", "big", "str", "bool", "float", "decimal"])
    ctx.assume(not (concrete_type(v) is str and op == "%"))  # formats the string and never reaches the expression
    try:
        e = reflected(a, op, v)
    except TypeError:
        ctx.check(name not in MIRROR, "comparisons take a plain value on the left", lambda: "%r %s %s" % (v, op, render(a)))
        return
    if name in MIRROR and type(e) is getattr(g.x, MIRROR[name]) and sides(e)[0] is a:
        ctx.check(literal_of(g, sides(e)[1], v, t), "the literal of the mirrored comparison", lambda: render(e))
        return
    ctx.check(type(e) is node_class(g, name) and sides(e)[1] is a, "the operands in the written order", lambda: "%r %s %s gives %s" % (v, op, render(a), render(e)))
    ctx.check(literal_of(g, sides(e)[0], v, t), "the literal", lambda: render(e))


REFLECT = {"+": "__radd__", "-": "__rsub__", "*": "__rmul__", "/": "__rtruediv__", "%": "__rmod__", "**": "__rpow__", "&": "__rand__", "|": "__ror__", "==": "__eq__", "!=": "__ne__", ">": "__lt__", ">=": "__le__", "<": "__gt__", "<=": "__ge__"}


def reflected(a, op, v):
    """what Python does for a plain v on the left, whose own operator knows nothing of expressions"""
    m = getattr(type(a), REFLECT[op], None)
    e = NotImplemented if m is None else m(a, v)
    if e is NotImplemented:
        raise TypeError(op)
    return e


class Reader(Parser):
    """the grouping parser of C15, with POWER"""

    def primary(self):
        if self.take("POWER"):
            self.want("(")
            a = self.or_()
            self.want(",")
            b = self.or_()
            self.want(")")
            return self.g.fmath.Power(a, b)
        return super().primary()


def parse(g, sql):
    toks = []
    for kind, s in tokens(sql)[0]:
        if kind == "q":
            toks.append(("N", (None, g.x.Field(s[1:-1]))))
        elif kind == "w" and isinstance(s, str) and s.isdigit():
            toks.append(("N", (None, g.x.wrap_literal(int(s)))))
        else:
            toks.append(("O", s))
    return Reader(g, toks).all()


def grown(ctx, g, depth, ops):
    """an expression written with Python operators, and what it means, side by side"""
    cls = lambda n: node_class(g, n)
    f = g.x.Field(g.name("f"))
    e, want = f, g.x.Field(f.name)
    for i in range(depth):
        op = ctx.pick("op%d" % i, ops)
        if op.startswith("u"):
            fn, name = UNARY[op[1:]]
            e, want = fn(e), cls(name)(want)
            continue
        fn, name = BINARY[op]
        other = g.x.Field(g.name("o"))
        form = ctx.pick("form%d" % i, ["left", "right", "plain"])
        if form == "left":
            e, want = fn(e, other), cls(name)(want, other)
        elif form == "right":
            e, want = fn(other, e), cls(name)(other, want)
        else:
            e, want = fn(e, 7), cls(name)(want, g.x.wrap_literal(7))
    return e, want


def h_grouping(ctx):
    """the printed SQL groups as the Python expression did"""
    from treeno.builder.convert import expression_from_sql

    g = Gen(ctx)
    ops = list(BINARY) + ["u" + o for o in UNARY]
    if not ctx.thorough:
        few = ["-", "/", "**", "==", "<", "&", "|", "u~", "u-"]
    else:
        few = ops
    depth = ctx.params["depth"]
    e, want = grown(ctx, g, depth, few)
    ctx.check(deep_eq(e, want), "the tree of the Python expression", lambda: "%s instead of %s" % (render(e), render(want)))
    mode = ctx.pick("mode", list(g.T.base.PrintMode)) if ctx.thorough else g.T.base.PrintMode.DEFAULT
    sql = e.sql(g.T.base.PrintOptions(mode=mode))
    ctx.sample(lambda: str(sql))
    norm = norm_sugar(g)
    try:
        mine = parse(g, sql)
    except Exception as err:
        ctx.check(False, "the printed SQL is an expression", lambda: "%s prints as %s: %s" % (render(want), sql, type(err).__name__))
        return
    ctx.check(deep_eq(want, mine, False, norm), "the printed SQL groups as Python did", lambda: "%s prints as %s, which groups as %s" % (render(want), sql, render(mine)))
    back = expression_from_sql(sql)
    ctx.check(deep_eq(want, back, False, norm), "the printed SQL reads as it was built", lambda: "%s prints as %s, which reads as %s" % (render(want), sql, render(back)))


def h_shared(ctx):
    """the same objects and plain numbers used again and again: nothing is folded, merged or shared wrongly"""
    g = Gen(ctx)
    a, b = g.x.Field(g.name("f")), g.x.Field(g.name("f"))
    A, B = g.x.Field(a.name), g.x.Field(b.name)
    steps = 3 if ctx.thorough else 2
    ops = list(BINARY) + ["u" + o for o in UNARY]
    pool = [(a, A), (b, B)]
    r = pool[ctx.choose("start", 2)]
    for i in range(steps):
        op = ctx.pick("op%d" % i, ops)
        if op.startswith("u"):
            fn, name = UNARY[op[1:]]
            new = (fn(r[0]), node_class(g, name)(r[1]))
        else:
            fn, name = BINARY[op]
            with_ = ctx.pick("with%d" % i, ["a", "b", "self", "int", "older"])
            left = with_ != "self" and with_ != "int" and ctx.flag("left%d" % i)
            if with_ == "int":
                n = ctx.int("n%d" % i, -9, 9)
                o = (n, g.x.wrap_literal(n))
            elif with_ == "self":
                o = r
            else:
                if with_ == "older":
                    ctx.assume(len(pool) > 2)
                o = {"a": pool[0], "b": pool[1], "older": pool[-1]}[with_]
            x, y = (o, r) if left else (r, o)
            new = (fn(x[0], y[0]), node_class(g, name)(x[1], y[1]))
        if i:
            pool.append(r)
        r = new
    ctx.sample(lambda: render(r[1]))
    ctx.check(deep_eq(r[0], r[1]), "the tree of the Python expression", lambda: "%s instead of %s" % (render(r[0]), render(r[1])))
    for e, want in pool:
        ctx.check(deep_eq(e, want), "the operands are as they were", lambda: "%s instead of %s" % (render(e), render(want)))


def h_pairs(ctx):
    """all pairs of operators with the second on either side"""
    g = Gen(ctx)
    ops = list(BINARY) + ["u" + o for o in UNARY]
    e, want = grown(ctx, g, 2, ops)
    ctx.check(deep_eq(e, want), "the tree of the Python expression", lambda: "%s instead of %s" % (render(e), render(want)))
    sql = e.sql(g.T.base.PrintOptions(mode=ctx.pick("mode", list(g.T.base.PrintMode))))
    ctx.sample(lambda: str(sql))
    try:
        mine = parse(g, sql)
    except Exception as err:
        ctx.check(False, "the printed SQL is an expression", lambda: "%s prints as %s: %s" % (render(want), sql, type(err).__name__))
        return
    ctx.check(deep_eq(want, mine, False, norm_sugar(g)), "the printed SQL groups as Python did", lambda: "%s prints as %s, which groups as %s" % (render(want), sql, render(mine)))


def h_spelled(ctx):
    """operators spelled in SQL"""
    from treeno.builder.convert import apply_operator

    g = Gen(ctx)
    few = [BYNAME[n] for n in ("Field", "NegInt", "Add", "Or", "Subquery", "Case", "Sum")]
    op = ctx.pick("op", list(SPELLED) + ["unary +", "unary -"])
    a = some(ctx, g, "a", few)
    if op.startswith("unary"):
        e = apply_operator(op[-1], a)
        ctx.check(type(e) is {"+": g.x.Positive, "-": g.x.Negative}[op[-1]] and e.value is a, "the operator's node", lambda: "%s: %s" % (op, render(e)))
        return
    b = some(ctx, g, "b", few)
    e = apply_operator(op, a, b)
    ctx.sample(lambda: "%s of %s and %s" % (op, render(a), render(b)))
    ctx.check(type(e) is getattr(g.x, SPELLED[op]) and e.left is a and e.right is b, "the operator's node with the operands in order", lambda: "%s of %s, %s: %s" % (op, render(a), render(b), render(e)))


def h_unspelled(ctx):
    """any other text is no operator"""
    from treeno.builder.convert import apply_operator

    g = Gen(ctx)
    s = ctx.str("op", ctx.choose("n", 4), [(33, 126)])
    for known in SPELLED:
        if len(known) == len(s):
            ctx.assume(s != known)
    n = 1 + ctx.choose("args", 2)
    try:
        e = apply_operator(s, *[g.field() for _ in range(n)])
    except Exception:
        e = None
    ctx.check(e is None, "an unknown operator is rejected", lambda: "%r: %s" % (s, render(e)))


def h_wrap(ctx):
    """wrap_literal and wrap_literal_list"""
    g = Gen(ctx)
    x = g.x
    what = ctx.pick("what", ["value", "plain", "list", "none", "container", "other"])
    if what == "value":
        a = some(ctx, g, "a", ALL)
        ctx.check(x.wrap_literal(a) is a, "an expression stays what it is", lambda: render(a))
    elif what == "plain":
        v, t = a_plain(ctx, g, "v")
        e = x.wrap_literal(v)
        ctx.check(literal_of(g, e, v, t), "the literal of the value", lambda: "%r becomes %s of type %r" % (v, render(e), e.data_type))
    elif what == "list":
        n = ctx.choose("n", 4)
        vs = [ctx.pick("item", [lambda: (g.field(), None), lambda: a_plain(ctx, g, "v", ["int", "str", "bool"])])() for _ in range(n)]
        es = x.wrap_literal_list([v for v, _ in vs])
        ctx.check(len(es) == n, "as many literals", lambda: render(es))
        for (v, t), e in zip(vs, es):
            ctx.check(e is v if t is None else literal_of(g, e, v, t), "each in its place", lambda: "%s becomes %s" % (render(v), render(e)))
    else:
        v = {"none": lambda: None, "container": lambda: ctx.pick("c", [[], [1], (), (1, 2), {}, {"a": 1}, set(), {1}]), "other": lambda: ctx.pick("o", [object(), 1j, b"x", int])}[what]()
        how = ctx.pick("how", ["wrap", "right", "operand"])
        try:
            e = x.wrap_literal(v) if how == "wrap" else (g.field() + v if how == "right" else x.Between(g.field(), 1, v))
        except Exception:
            return
        ctx.check(False, "what is no SQL value isn't made one", lambda: "%r becomes %s" % (v, render(e)))


OPERANDS = [k for k in KINDS if k.slots and k.name not in ("Lambda1", "Lambda2", "Deref", "InQuery", "InQueryBody", "Subquery", "Sum", "ListAgg", "Row", "Row1")]


def h_operands(ctx):
    """plain values as operands of every kind of node are the literals of the values"""
    g = Gen(ctx)
    x = g.x
    names = {}

    def name(label="id"):
        return label

    g.name = name
    g.field = lambda: x.Field("f")
    what = ctx.pick("what", ["kind", "function", "variadic"])
    if what == "kind":
        kind = ctx.pick("kind", OPERANDS)
        slots, build = kind.slots, lambda k: kind.build(g, k)
        # (choices made while building are made once)
        memo = {}
        real = ctx.pick

        def build(k, kind=kind):
            saved = g.ctx
            g.ctx = Once(saved, memo)
            try:
                return kind.build(g, k)
            finally:
                g.ctx = saved

    elif what == "function":
        fname = ctx.pick("fn", [n for n in SPEC])
        sig = ctx.pick("sig", SPEC[fname][2])
        cls = cls_of(fname)
        slots = len(sig)

        def build(k):
            kw = dict(zip(sig, k))
            return cls(kw.pop("value"), **kw) if fname == "APPROX_PERCENTILE" else cls(**kw)

    else:
        fname = ctx.pick("fn", list(VARIADIC))
        slots = 3
        build = lambda k: cls_of(fname)(values=list(k))
    if not slots:
        return
    pos = ctx.choose("pos", slots)
    ctx.assume(not (what == "kind" and kind.name == "Subscript" and pos == 0))
    v, t = a_plain(ctx, g, "v", ["int", "str", "bool"])
    with_plain = build([v if i == pos else x.Field("a%d" % i) for i in range(slots)])
    with_lit = build([x.wrap_literal(v) if i == pos else x.Field("a%d" % i) for i in range(slots)])
    ctx.sample(lambda: render(with_plain))
    ctx.check(deep_eq(with_plain, with_lit), "a plain operand is the literal of its value", lambda: "%s instead of %s" % (render(with_plain), render(with_lit)))


class Once:
    """a ctx that makes each choice once and repeats it"""

    def __init__(self, ctx, memo):
        self.ctx, self.memo = ctx, memo

    def pick(self, label, options):
        if label not in self.memo:
            self.memo[label] = self.ctx.choose(label, len(options))
        return list(options)[self.memo[label]]

    def flag(self, label):
        return bool(self.pick(label, [0, 1]))


def h_long(ctx):
    """many Python operators in a row"""
    from treeno.builder.convert import expression_from_sql

    g = Gen(ctx)
    cls = lambda n: node_class(g, n)
    n = ctx.pick("size", list(range(1, 25)) if ctx.thorough else [4, 5, 8, 12])
    form = ctx.pick("form", list(BINARY) + ["u" + o for o in UNARY])
    cycle = [form] + ([ctx.pick("then", ["-", "&", "==", "u~", "**"])] if ctx.flag("two") else [])
    side = ctx.pick("side", ["left", "right", "both"])
    e, want = g.x.Field("c0"), g.x.Field("c0")
    at = ctx.pick("at", [1, n // 2 + 1, n] if n > 1 else [1])
    for i in range(1, n + 1):
        op = cycle[i % len(cycle)]
        other = g.x.Field(g.name("o") if i == at else "c%d" % i)
        if op.startswith("u"):
            fn, name = UNARY[op[1:]]
            e, want = fn(e), cls(name)(want)
        elif side == "left" or side == "both" and i % 2:
            fn, name = BINARY[op]
            e, want = fn(e, other), cls(name)(want, other)
        else:
            fn, name = BINARY[op]
            e, want = fn(other, e), cls(name)(other, want)
    ctx.check(deep_eq(e, want), "the tree of the Python expression", lambda: "%s instead of %s" % (render(e), render(want)))
    sql = e.sql(g.T.base.PrintOptions())
    ctx.sample(lambda: str(sql))
    norm = norm_sugar(g)
    mine = parse(g, sql)
    ctx.check(deep_eq(want, mine, False, norm), "the printed SQL groups as Python did", lambda: "%s prints as %s, which groups as %s" % (render(want), sql, render(mine)))
    back = expression_from_sql(sql)
    ctx.check(deep_eq(want, back, False, norm), "the printed SQL reads as it was built", lambda: "%s prints as %s, which reads as %s" % (render(want), sql, render(back)))


HARNESSES = [
    Harness("binary", h_binary, "14 operators, 61 kinds of expression on one side, 6 on the other, 6 kinds as the very same operand on both sides"),
    Harness("unary", h_unary, "3 operators on 61 kinds"),
    Harness("inplace", h_inplace, "8 assignment operators, 4 kinds, any 32-bit integer or string of 1..3 characters"),
    Harness("plain", h_plain, "14 operators, 5 kinds, any 64-bit integer, any string of up to 3 characters, booleans, 4 doubles, 6 decimals on the right"),
    Harness("plain_left", h_plain_left, "14 operators with a plain value on the left"),
    Harness("pairs", h_pairs, "all pairs of 17 operators, nested left and right, both print modes, symbolic names"),
    Harness("shared", h_shared, "two (thorough three) operators in a row out of all, each on the result so far with one of two columns, itself, an older result, or any integer -9..9"),
    Harness("grouping", h_grouping, "three levels of 9 (thorough 17) operators, nested left and right, symbolic names", {"depth": 3}, {"depth": 3}),
    Harness("spelled", h_spelled, "14 binary and 2 unary spellings, 7 kinds on each side"),
    Harness("unspelled", h_unspelled, "all printable texts of up to 3 characters"),
    Harness("wrap", h_wrap, "wrap_literal and wrap_literal_list on expressions, plain values, lists of up to 3, None, containers"),
    Harness("operands", h_operands, "a plain value in every operand position of 33 kinds of node and all functions (not: items of ROW, the base of a subscript, which take expressions only)"),
    Harness("long", h_long, "4, 5, 8, 12 (thorough 1..24) operators in a row: each alone and alternating with one of 5 others, growing to the left, the right or both"),
]
