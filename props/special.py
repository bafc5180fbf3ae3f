"""Trees whose leaves are special values.

A zoo tree is built once per shift: its k-th plain column becomes the (k + shift)-th entry of SPECIAL, so that over all
shifts every position of every kind of node holds every special value (negative, zero, empty, NULL, FALSE ...)."""
from decimal import Decimal

from .gen import AZ, Gen
from .zoo import ZOO

ASCII = [(32, 126)]

SPECIAL = [
    ("null", lambda g: g.x.NULL),
    ("false", lambda g: g.x.wrap_literal(False)),
    ("zero", lambda g: g.x.wrap_literal(0)),
    ("empty", lambda g: g.x.wrap_literal("")),
    ("negative", lambda g: g.lit_int(-9, -1)),
    ("qualified", lambda g: g.x.Field(g.name("f"), table=g.name("t"))),
    ("interval", lambda g: g.x.Interval(g.ctx.str("iv", 3, [(45, 45), (48, 57), (32, 32)]), "DAY", "SECOND")),
    ("double", lambda g: g.x.wrap_literal(-2.5e-7)),
    ("string", lambda g: g.x.wrap_literal(g.ctx.str("s", 1 + g.ctx.thorough, ASCII))),
    ("typed", lambda g: g.x.TypeConstructor("2001-02-03", "DATE")),
    ("true", lambda g: g.x.wrap_literal(True)),
    ("decimal", lambda g: g.x.wrap_literal(Decimal("0.50"))),
    ("row", lambda g: g.x.RowConstructor([g.x.NULL, g.x.Field(g.ctx.name("f"))])),
    ("bare", lambda g: g.fdate.CurrentDate()),
    ("one", lambda g: g.x.wrap_literal(1)),
]
# a negative number there is read as the operator applied to the rest
SIGNED = ("negative", "double")
TIGHT = ("expr:Subscript", "expr:Deref", "expr:Negative", "expr:Positive")


FEW = [SPECIAL[i] for i in (0, 1, 2, 3, 4)]


class Special(Gen):
    def __init__(self, ctx, name, values, shift, step=1):
        super().__init__(ctx)
        self.values, self.at, self.step, self.tight = values, shift, step, name in TIGHT

    def field(self):
        kind, make = self.values[self.at % len(self.values)]
        self.at += self.step
        if self.tight and (kind in SIGNED or kind == "qualified"):
            return super().field()
        return make(self)


def grow(ctx, name, build, values=None, shift=None):
    """(generator, tree); where the mixture of values is no well-typed tree, all places hold the same value"""
    if values is None:
        values = FEW if name.startswith("fn:") and not ctx.thorough else SPECIAL
    if shift is None:
        shift = ctx.choose("shift", len(values))
    g = Special(ctx, name, values, shift)
    try:
        return g, build(g)
    except (TypeError, AssertionError, ValueError):
        g = Special(ctx, name, values, shift, 0)
    try:
        return g, build(g)
    except (TypeError, AssertionError, ValueError):
        ctx.assume(False)


def tree(ctx, names, values=None):
    name = ctx.pick("node", names)
    return grow(ctx, name, ZOO[name], values)
