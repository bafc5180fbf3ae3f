"""Symbolic lexing: the real ANTLR lexer simulator runs on the shadow text; whenever it consumes (or looks ahead at) a
symbolic character, the alphabet is partitioned by the outgoing transitions of the lexer's current configuration set and
the block containing the shadow is recorded as a decision, every other block being an alternative to explore.
Within one block the simulator behaves identically, so one execution stands for all characters of the block."""
import z3
from antlr4 import InputStream
from antlr4.atn.LexerATNSimulator import LexerATNSimulator
from antlr4.atn.Transition import Transition
from antlr4.ParserRuleContext import ParserRuleContext
from antlr4.RuleContext import RuleContext
from antlr4.Token import Token

from . import core
from .core import ENG, MAXCP, SUR_HI, SUR_LO, SymStr, sx_join

_orig_exec = LexerATNSimulator.execATN
_orig_rc_gettext = RuleContext.getText

_PART = {}  # frozenset of (config state numbers) -> blocks (list of interval lists)


class SxInputStream(InputStream):
    __slots__ = ("_sx",)

    def __init__(self, data):
        self._sx = None
        if type(data) is SymStr:
            self._sx = data
            data = "".join(chr(c) if type(c) is int else chr(c.s) for c in data.c)
        InputStream.__init__(self, data)

    def getText(self, start, stop):
        if self._sx is None or start >= self._size:
            return InputStream.getText(self, start, stop)
        if stop >= self._size:
            stop = self._size - 1
        return core.mkstr(core.fix_chars(self._sx.c[start : stop + 1]))

    def __str__(self):
        return self.strdata


def _label_intervals(tr):
    t = tr.serializationType
    if t == Transition.WILDCARD:
        return [(0, MAXCP)], False
    if t == Transition.RANGE:
        return [(tr.start, tr.stop)], False
    if t in (Transition.ATOM,):
        return [(tr.label_, tr.label_)], False
    if t == Transition.SET:
        return [(i.start, i.stop - 1) for i in tr.label.intervals], False
    if t == Transition.NOT_SET:
        return [(i.start, i.stop - 1) for i in tr.label.intervals], True
    return [], False


def partition(s):
    key = frozenset(c.state.stateNumber for c in s.configs)
    r = _PART.get(key)
    if r is not None:
        return r
    sets = []
    seen = set()
    cuts = {0, SUR_LO, SUR_HI + 1, MAXCP + 1}
    for cfg in s.configs:
        if cfg.state.stateNumber in seen:
            continue
        seen.add(cfg.state.stateNumber)
        for tr in cfg.state.transitions:
            iv, neg = _label_intervals(tr)
            if not iv and not neg:
                continue
            sets.append((iv, neg))
            for lo, hi in iv:
                if hi >= 0:
                    cuts.add(max(lo, 0))
                    cuts.add(min(hi, MAXCP) + 1)
    cuts = sorted(cuts)
    groups = {}
    for a, b in zip(cuts, cuts[1:]):
        if a >= SUR_LO and a <= SUR_HI:
            continue
        sig = tuple((any(lo <= a <= hi for lo, hi in iv)) != neg for iv, neg in sets)
        g = groups.setdefault(sig, [])
        if g and g[-1][1] == a - 1:
            g[-1] = (g[-1][0], b - 1)
        else:
            g.append((a, b - 1))
    blocks = list(groups.values())
    # rejoin intervals split around the surrogate gap is unnecessary: surrogates are outside the alphabet
    _PART[key] = blocks
    return blocks


def _observe(input, s):
    i = input._index
    if i >= input._size:
        return
    c = input._sx.c[i]
    if type(c) is int or c.z.get_id() in ENG.fixed:
        return
    blocks = partition(s)
    if len(blocks) <= 1:
        return
    taken = None
    conds = []
    live = []
    for b in blocks:
        sb = core.ranges_cond(c, b)
        if sb is False:
            continue
        if sb is True:
            taken = b
            conds = []
            break
        live.append(b)
        if sb.s:
            taken = b
        conds.append(sb.z)
    if len(conds) == 2:
        # as one multi-way node: refine with the taken block itself
        ENG.multi2(conds, 0 if live[0] is taken else 1)
    elif conds:
        ENG.multi(conds, [x is taken for x in live].index(True))
    b = core.iv_and(ENG.rng.get(c.z.get_id(), taken), taken)
    if len(b) == 1 and b[0][0] == b[0][1]:
        ENG.fixed[c.z.get_id()] = b[0][0]
        ENG.keep.append(c.z)


def _new_exec(self, input, ds0):
    if getattr(input, "_sx", None) is None:
        return _orig_exec(self, input, ds0)
    if ds0.isAcceptState:
        self.captureSimState(self.prevAccept, input, ds0)
    s = ds0
    _observe(input, s)
    t = input.LA(1)
    while True:
        target = self.getExistingTargetState(s, t)
        if target is None:
            target = self.computeTargetState(input, s, t)
        if target == self.ERROR:
            break
        if t != Token.EOF:
            self.consume(input)
        if target.isAcceptState:
            self.captureSimState(self.prevAccept, input, target)
            if t == Token.EOF:
                break
        s = target
        _observe(input, s)
        t = input.LA(1)
    return self.failOrAccept(self.prevAccept, input, s.configs, t)


def _rc_gettext(self):
    n = self.getChildCount()
    if n == 0:
        return ""
    return sx_join("", [c.getText() for c in self.getChildren()])


def _escape(s, escapeSpaces):
    """antlr4.Utils.escapeWhitespace, which writes the characters to a StringIO"""
    out = s.replace(" ", "\u00b7") if escapeSpaces else s
    for c, by in (("\t", "\\t"), ("\n", "\\n"), ("\r", "\\r")):
        out = out.replace(c, by)
    return out


def install():
    import sys

    import antlr4.tree.Trees
    import antlr4.Utils

    antlr4.Utils.escapeWhitespace = _escape
    sys.modules["antlr4.tree.Trees"].escapeWhitespace = _escape

    import antlr4

    antlr4.InputStream = SxInputStream
    sys.modules["antlr4.InputStream"].InputStream = SxInputStream
    LexerATNSimulator.execATN = _new_exec
    RuleContext.getText = _rc_gettext
    if "getText" in ParserRuleContext.__dict__:
        ParserRuleContext.getText = _rc_gettext
