"""A printer of its own for SQL: spells a tree of the code under test as tokens, in any of several styles.

Precedence, optional words and alternative spellings are written down here from the grammar of Trino's SQL, without use of
the code under test's printer."""
from decimal import Decimal

from .common import concrete_type

OR, AND, NOT, PRED, CONCAT, ADD, MUL, UNARY, PRIM = range(9)

# style: what to choose where SQL leaves a choice
PLAIN = dict(parens="min", neq="<>", notform=True, concat="fn", row="ROW", case="upper", sep=" ", as_=True, outer=True, asc=False, distinct=True, words=False, fetch=False, call="upper")
STYLES = {
    "plain": PLAIN,
    "full": dict(PLAIN, parens="full", neq="!=", notform=False, concat="fn", case="lower", as_=False, asc=True, words=True, fetch=True),
    "sugar": dict(PLAIN, neq="!=", concat="||", row="()", case="lower", sep="\n", as_=False, outer=False, distinct=False, call="lower"),
    "tight": dict(PLAIN, sep="", row="()", case="alternate", asc=True, words=True),
    "comments": dict(PLAIN, sep="/*x*/", notform=False, case="alternate", outer=False, fetch=True, call="mixed"),
    "lines": dict(PLAIN, sep=" --x\n", concat="||", parens="full", distinct=False),
}


def q(name):
    return '"' + name + '"'


def K(*words):
    return [("K", w) for ws in words for w in ws.split()]


def O(s):
    return [("O", s)]


def W(s):
    return [("W", s)]


def I(name):
    return [("I", q(name))]


def commas(lists):
    out = []
    for i, l in enumerate(lists):
        out += (O(",") if i else []) + l
    return out


def join(tokens, style):
    """the text of the tokens"""
    text = ""
    prev = None
    for i, (k, s) in enumerate(tokens):
        if k == "K":
            s = s.lower() if style["case"] == "lower" or style["case"] == "alternate" and i % 2 else s.upper()
        if k == "F":
            s = {"upper": s.upper(), "lower": s.lower(), "mixed": s[:1].upper() + s[1:].lower()}[style["call"]]
        if prev is not None:
            sep = style["sep"]
            if sep == "":
                word = lambda t: t[0] in ("K", "F", "W")
                sym = lambda t: t[0] == "O" and t[1] not in ("(", ")", "[", "]", ",")
                both = (word(prev) and word((k, s))) or (sym(prev) and sym((k, s))) or (prev[0] in "IS" and prev[0] == k)
                # 1.x or x.1 would be numbers
                sep = " " if both else ""
            text = text + sep
        text = text + s
        prev = (k, s)
    return text


class Speller:
    def __init__(self, g, style):
        self.g, self.s = g, style
        self.x, self.r, self.o, self.w = g.x, g.r, g.o, g.w

    def paren(self, t):
        return O("(") + t + O(")")

    # ------------------------------------------------------------------ expressions
    def e(self, n, level=OR):
        """the tokens of an expression in a place that takes what binds at least as tight as `level`"""
        lv, t = self.spell(n)
        simple = isinstance(n, (self.x.Field, self.x.Literal, self.x.Star)) and lv == PRIM
        if lv < level or (self.s["parens"] == "full" and not simple):
            return self.paren(t)
        return t

    def level_of(self, n):
        return self.spell(n)[0]

    def spell(self, n):
        x, e = self.x, self.e
        t = type(n)
        name = t.__name__
        binary = {"Or": (OR, "OR"), "And": (AND, "AND")}
        if name in binary:
            lv, w = binary[name]
            return lv, e(n.left, lv) + K(w) + e(n.right, lv + 1)
        cmp_ = {"Equal": "=", "NotEqual": self.s["neq"], "LessThan": "<", "LessThanOrEqual": "<=", "GreaterThan": ">", "GreaterThanOrEqual": ">="}
        if name in cmp_:
            return PRED, e(n.left, CONCAT) + O(cmp_[name]) + e(n.right, CONCAT)
        arith = {"Add": (ADD, "+"), "Minus": (ADD, "-"), "Multiply": (MUL, "*"), "Divide": (MUL, "/"), "Modulus": (MUL, "%")}
        if name in arith:
            lv, w = arith[name]
            return lv, e(n.left, lv) + O(w) + e(n.right, lv + 1)
        if name in ("Positive", "Negative"):
            return UNARY, O("+" if name == "Positive" else "-") + e(n.value, UNARY)
        if name == "Not":
            v = n.value
            if self.s["notform"] and type(v).__name__ in ("IsNull", "DistinctFrom", "Between", "Like", "InList", "InQuery"):
                return self.pred(v, True)
            return NOT, K("NOT") + e(v, NOT)
        if name in ("IsNull", "DistinctFrom", "Between", "Like", "InList", "InQuery"):
            return self.pred(n, False)
        return PRIM if not self.negative(n) else UNARY, self.primary(n)

    def negative(self, n):
        return isinstance(n, self.x.Literal) and self.sign(n.value)

    def sign(self, v):
        if isinstance(v, bool) or v is None or concrete_type(v) is str:
            return False
        if isinstance(v, Decimal):
            return v.is_signed()
        return bool(v < 0)

    def pred(self, n, negated):
        e = self.e
        name = type(n).__name__
        nt = K("NOT") if negated else []
        if name == "IsNull":
            return PRED, e(n.value, CONCAT) + K("IS") + nt + K("NULL")
        if name == "DistinctFrom":
            return PRED, e(n.left, CONCAT) + K("IS") + nt + K("DISTINCT FROM") + e(n.right, CONCAT)
        v = e(n.value, CONCAT) + nt
        if name == "Between":
            return PRED, v + K("BETWEEN") + e(n.lower, CONCAT) + K("AND") + e(n.upper, CONCAT)
        if name == "Like":
            return PRED, v + K("LIKE") + e(n.pattern, CONCAT) + ([] if n.escape is None else K("ESCAPE") + e(n.escape, CONCAT))
        if name == "InList":
            return PRED, v + K("IN") + self.paren(commas([e(y) for y in n.exprs]))
        return PRED, v + K("IN") + self.paren(self.query(n.query))

    def primary(self, n):
        x, e = self.x, self.e
        name = type(n).__name__
        if isinstance(n, self.r.Query):
            return self.paren(self.query(n))
        if name == "Field":
            if n.table is None:
                return I(n.name)
            if concrete_type(n.table) is str:
                return I(n.table) + O(".") + I(n.name)
            return e(n.table, PRIM) + O(".") + I(n.name)
        if name == "Variable":
            return I(n.name)
        if name == "Lambda":
            vs = commas([I(v.name) for v in n.inputs])
            if len(n.inputs) != 1 or self.s["parens"] == "full":
                vs = self.paren(vs)
            return vs + O("->") + e(n.expr)
        if name == "Literal":
            return self.literal(n.value)
        if name == "TypeConstructor":
            return K(n.type_name) + self.string(n.value)
        if name == "Interval":
            return K("INTERVAL") + self.string(n.value) + K(n.from_interval) + (K("TO", n.to_interval) if n.to_interval else [])
        if name == "Array":
            return K("ARRAY") + O("[") + commas([e(y) for y in n.values]) + O("]")
        if name == "RowConstructor":
            head = K("ROW") if self.s["row"] == "ROW" or len(n.values) == 1 else []
            return head + self.paren(commas([e(y) for y in n.values]))
        if name in ("Cast", "TryCast"):
            return K("CAST" if name == "Cast" else "TRY_CAST") + self.paren(e(n.expr) + K("AS") + self.type(n.data_type))
        if name == "Subscript":
            return e(n.value, PRIM) + O("[") + e(n.index, CONCAT) + O("]")
        if name == "Case":
            out = K("CASE") + (e(n.value) if n.value is not None else [])
            for b in n.branches:
                out = out + K("WHEN") + e(b.condition) + K("THEN") + e(b.value)
            if n.else_ is not None:
                out = out + K("ELSE") + e(n.else_.value)
            return out + K("END")
        if name == "Star":
            return (I(n.table) + O(".") if n.table is not None else []) + O("*")
        return self.call(n)

    def string(self, s):
        return [("S", "'" + s.replace("'", "''") + "'")]

    def literal(self, v):
        if v is None:
            return K("NULL")
        t = concrete_type(v)
        if t is bool:
            return K("TRUE" if v else "FALSE")
        if t is str:
            return self.string(v)
        if t is int:
            return (O("-") + W((-v).__str__())) if self.sign(v) else W(v.__str__())
        if t is float:
            m = repr(abs(v)).upper().replace("+", "")
            return (O("-") if v < 0 else []) + W(m)
        return (O("-") if v.is_signed() else []) + W(format(abs(v), "f"))

    def type(self, t):
        p = t.parameters
        args = {"DECIMAL": ["precision", "scale"], "VARCHAR": ["max_chars"], "CHAR": ["max_chars"], "ARRAY": ["dtype"], "MAP": ["from_dtype", "to_dtype"]}.get(t.type_name, [])
        vals = [p[a] for a in args if a in p]
        out = [("W", t.type_name.lower() if self.s["case"] == "lower" else t.type_name)]
        if vals:
            out += self.paren(commas([self.type(v) if hasattr(v, "type_name") else W(v.__str__()) for v in vals]))
        return out

    def call(self, n):
        from .c06 import BARE, PRECISE, SPEC, VARIADIC

        e, x = self.e, self.x
        cls = type(n).__name__
        F = lambda s: [("F", s)]
        if cls == "Concatenate":
            if self.s["concat"] == "||" and len(n.values) == 2:
                raise Concat()
            return F("CONCAT") + self.paren(commas([e(v) for v in n.values]))
        if cls == "Coalesce":
            return F("COALESCE") + self.paren(commas([e(v) for v in n.values]))
        for name, (mod, c) in BARE.items():
            if c == cls:
                return K(name)
        for name, c in PRECISE.items():
            if c == cls:
                return K(name) + (self.paren(W(n.precision.__str__())) if n.precision is not None else [])
        if cls == "Normalize":
            return K("NORMALIZE") + self.paren(e(n.string, CONCAT) + (O(",") + W(n.normal_form.name) if n.normal_form is not None else []))
        if cls == "ListAgg":
            out = e(n.value) + (O(",") + self.string(n.separator) if n.separator is not None else [])
            if n.overflow_filler is not None:
                f = n.overflow_filler
                out = out + K("ON OVERFLOW TRUNCATE") + self.string(f.filler) + K("WITH COUNT" if f.count_indication.name == "WITH_COUNT" else "WITHOUT COUNT")
            return K("LISTAGG") + self.paren(out) + K("WITHIN GROUP") + self.paren(K("ORDER BY") + commas([self.term(t) for t in n.orderby]))
        for name, (mod, c, sigs) in SPEC.items():
            if c == cls:
                args = [s for s in sigs if all(getattr(n, f) is not None for f in s)][-1]
                out = commas([e(getattr(n, f)) for f in args])
                if mod != "aggregate":
                    return F(name) + self.paren(out)
                if n.orderby:
                    out = out + K("ORDER BY") + commas([self.term(t) for t in n.orderby])
                out = F(name) + self.paren(out)
                if n.filter_ is not None:
                    out = out + K("FILTER") + self.paren(K("WHERE") + e(n.filter_))
                if n.window is not None:
                    if n.null_treatment.name == "IGNORE" or self.s["words"] and not isinstance(getattr(n, "value", None), x.Star):
                        out = out + K(n.null_treatment.name, "NULLS")
                    out = out + K("OVER") + self.paren(self.window(n.window))
                return out
        raise ValueError("no spelling of " + cls)

    # ------------------------------------------------------------------ parts
    def term(self, t):
        o = self.o
        out = self.e(t.value)
        if t.order_type is o.OrderType.DESC:
            out = out + K("DESC")
        elif self.s["asc"]:
            out = out + K("ASC")
        if t.null_order is o.NullOrder.FIRST:
            out = out + K("NULLS FIRST")
        elif self.s["asc"]:
            out = out + K("NULLS LAST")
        return out

    def bound(self, b):
        w = self.w
        if isinstance(b, w.CurrentFrameBound):
            return K("CURRENT ROW")
        if isinstance(b, w.UnboundedFrameBound):
            return K("UNBOUNDED", b.bound_type.name)
        return self.e(b.offset) + K(b.bound_type.name)

    def window(self, n):
        w = self.w
        out = []
        if n.parent_window is not None:
            out += I(n.parent_window)
        if n.partitions:
            out += K("PARTITION BY") + commas([self.e(p) for p in n.partitions])
        if n.orderby:
            out += K("ORDER BY") + commas([self.term(t) for t in n.orderby])
        default = n.frame_type is w.FrameType.RANGE and type(n.start_bound) is w.UnboundedFrameBound and n.start_bound.bound_type is w.BoundType.PRECEDING and type(n.end_bound) is w.CurrentFrameBound
        if not default or self.s["words"]:
            out += K(n.frame_type.name)
            if type(n.end_bound) is w.CurrentFrameBound and not self.s["words"]:
                out += self.bound(n.start_bound)
            else:
                out += K("BETWEEN") + self.bound(n.start_bound) + K("AND") + self.bound(n.end_bound)
        return out

    # ------------------------------------------------------------------ relations
    def name(self, t):
        parts = [p for p in (t.catalog, t.schema, t.name) if p is not None]
        out = []
        for i, p in enumerate(parts):
            out += (O(".") if i else []) + I(p)
        return out

    def as_(self):
        return K("AS") if self.s["as_"] else []

    def rel(self, n, place="from"):
        """place: from (anything), sampled (what TABLESAMPLE or an alias can be attached to), aliased"""
        r = self.r
        t = type(n)
        if t is r.Join:
            out = self.join_(n)
            return out if place == "from" else self.paren(out)
        if t is r.TableSample:
            out = self.rel(n.relation, "sampled") + K("TABLESAMPLE", n.sample_type.name) + self.paren(self.e(n.percentage))
            return out if place in ("from", "right") else self.paren(out)
        if t is r.AliasedRelation:
            out = self.rel(n.relation, "aliased") + self.as_() + I(n.alias)
            if n.column_aliases:
                out = out + self.paren(commas([I(c) for c in n.column_aliases]))
            return out if place in ("from", "right", "sampled") else self.paren(out)
        if isinstance(n, r.Query):
            return self.paren(self.query(n))
        if t is r.Table:
            out = self.name(n)
        elif t is r.Unnest:
            out = K("UNNEST") + self.paren(commas([self.e(a) for a in n.arrays])) + (K("WITH ORDINALITY") if n.with_ordinality else [])
        elif t is r.Lateral:
            out = K("LATERAL") + self.paren(self.query(n.subquery))
        else:
            raise ValueError(t)
        if self.s["parens"] == "full" and place != "from" and t is r.Table:
            out = self.paren(out)
        return out

    def join_(self, n):
        r = self.r
        c = n.config
        T = r.JoinType
        left = self.rel(n.left_relation, "from" if self.s["parens"] == "min" else "right")
        if c.join_type is T.CROSS:
            return left + K("CROSS JOIN") + self.rel(n.right_relation, "right")
        word = {T.INNER: "INNER" if self.s["words"] else "", T.LEFT: "LEFT", T.RIGHT: "RIGHT", T.OUTER: "FULL"}[c.join_type]
        if self.s["outer"] and c.join_type is not T.INNER:
            word += " OUTER"
        out = left + (K("NATURAL") if c.natural else []) + K(word, "JOIN") + self.rel(n.right_relation, "right")
        if isinstance(c.criteria, r.JoinUsingCriteria):
            out = out + K("USING") + self.paren(commas([I(x) for x in c.criteria.column_names]))
        elif c.criteria is not None:
            out = out + K("ON") + self.e(c.criteria.constraint)
        return out

    # ------------------------------------------------------------------ queries
    def query(self, n):
        out = []
        if n.with_:
            named = []
            for a in n.with_:
                t = I(a.alias)
                if a.column_aliases:
                    t = t + self.paren(commas([I(c) for c in a.column_aliases]))
                named.append(t + K("AS") + self.paren(self.query(a.relation)))
            out = K("WITH") + commas(named)
        out = out + self.body(n)
        if n.orderby:
            out = out + K("ORDER BY") + commas([self.term(t) for t in n.orderby])
        if n.offset is not None:
            out = out + K("OFFSET") + W(n.offset.__str__()) + (K("ROWS") if self.s["words"] else K("ROW") if self.s["fetch"] else [])
        if n.limit is not None:
            if self.s["fetch"]:
                out = out + K("FETCH FIRST" if self.s["words"] else "FETCH NEXT") + W(n.limit.__str__()) + K("ROWS ONLY" if self.s["words"] else "ROW ONLY")
            else:
                out = out + K("LIMIT") + W(n.limit.__str__())
        return out

    def own_clauses(self, n):
        return bool(n.with_ or n.orderby or n.offset is not None or n.limit is not None)

    def body(self, n):
        r = self.r
        t = type(n)
        if t is r.SelectQuery:
            return self.select(n)
        if t is r.ValuesQuery:
            return K("VALUES") + commas([self.e(v) for v in n.exprs])
        if t is r.TableQuery:
            return K("TABLE") + self.name(n.table)
        word = {r.UnionQuery: "UNION", r.ExceptQuery: "EXCEPT", r.IntersectQuery: "INTERSECT"}[t]
        Q = self.g.T.base.SetQuantifier
        tight = t is r.IntersectQuery
        left = self.operand(n.left_query, lambda c: c is r.IntersectQuery if tight else issubclass(c, r.SetQuery))
        right = self.operand(n.right_query, lambda c: not tight and c is r.IntersectQuery)
        quant = K("ALL") if n.set_quantifier is Q.ALL else K("DISTINCT") if self.s["distinct"] else []
        return left + K(word) + quant + right

    def operand(self, n, bare):
        """an operand of a set operation; bare says which set operations need no parentheses"""
        t = self.query(n)
        needs = self.own_clauses(n) or (isinstance(n, self.r.SetQuery) and not bare(type(n)))
        return self.paren(t) if needs or self.s["parens"] == "full" else t

    def item(self, n):
        name = type(n).__name__
        if name == "AliasedValue":
            return self.e(n.value) + self.as_() + I(n.alias)
        if name == "AliasedStar":
            # AS is not optional here
            return self.primary(n.star) + K("AS") + self.paren(commas([I(a) for a in n.aliases]))
        if name == "Star":
            return self.primary(n)
        return self.e(n)

    def select(self, n):
        Q = self.g.T.base.SetQuantifier
        out = K("SELECT")
        if n.select_quantifier is Q.DISTINCT:
            out = out + K("DISTINCT")
        elif self.s["words"]:
            out = out + K("ALL")
        out = out + commas([self.item(v) for v in n.select])
        if n.from_ is not None:
            out = out + K("FROM") + self.rel(n.from_)
        if n.where is not None:
            out = out + K("WHERE") + self.e(n.where)
        if n.groupby is not None:
            out = out + K("GROUP BY") + self.groupby(n.groupby)
        if n.having is not None:
            out = out + K("HAVING") + self.e(n.having)
        if n.window:
            out = out + K("WINDOW") + commas([I(k) + K("AS") + self.paren(self.window(v)) for k, v in n.window.items()])
        return out

    def groupby(self, n):
        Q = self.g.T.base.SetQuantifier
        quant = K("DISTINCT") if n.groupby_quantifier is Q.DISTINCT else K("ALL") if self.s["words"] else []
        return quant + commas([self.group(y) for y in n.groups])

    def group(self, y):
        name = type(y).__name__
        if name == "GroupingSet":
            vals = [self.e(v) for v in y.values]
            if len(vals) == 1 and self.s["parens"] == "min":
                return vals[0]
            return self.paren(commas(vals))
        if name == "GroupingSetList":
            return K("GROUPING SETS") + self.paren(commas([self.group(s) for s in y.groups]))
        return K("CUBE" if name == "Cube" else "ROLLUP") + self.paren(commas([self.e(v) for v in y.values]))


class Concat(Exception):
    pass


def _concat_spell(self, n):
    if type(n).__name__ == "Concatenate" and self.s["concat"] == "||" and len(n.values) == 2:
        return CONCAT, self.e(n.values[0], CONCAT) + O("||") + self.e(n.values[1], ADD)
    return _spell(self, n)


_spell = Speller.spell
Speller.spell = _concat_spell


def text(g, node, style, kind="expr"):
    s = Speller(g, STYLES[style] if isinstance(style, str) else style)
    t = {"expr": s.e, "query": s.query, "rel": s.rel}[kind](node)
    return join(t, s.s)
