"""Regular expressions over symbolic strings: a backtracking matcher over the pattern's own parse tree (the one the
standard library builds), in which every test of a character is a decision of the path engine."""

import re
from re import _constants as K
from re import _parser as P

from . import core
from .core import SymStr, _cps, ch_eq, mkstr, predicate_ranges, ranges_cond, zor

PATTERN = type(re.compile(""))


class Unmodelled(Exception):
    pass


def _digit(x):
    return _D.match(x) is not None


def _space(x):
    return _S.match(x) is not None


def _word(x):
    return _W.match(x) is not None


_D, _S, _W = re.compile(r"\d"), re.compile(r"\s"), re.compile(r"\w")
_ASCII = {
    "digit": [(48, 57)],
    "space": [(9, 13), (32, 32)],
    "word": [(48, 57), (65, 90), (95, 95), (97, 122)],
}


def _complement(rs):
    out, lo = [], 0
    for a, b in sorted(rs):
        if a > lo:
            out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= core.MAXCP:
        out.append((lo, core.MAXCP))
    return out


def _category(cat, flags):
    name = str(cat).lower().replace("category_", "")
    neg = name.startswith("not_")
    name = name[4:] if neg else name
    if name not in _ASCII:
        raise Unmodelled(str(cat))
    if flags & re.A:
        rs = _ASCII[name]
    else:
        rs = predicate_ranges({"digit": _digit, "space": _space, "word": _word}[name])
    return _complement(rs) if neg else list(rs)


def _fold(rs, flags):
    """the ranges of a case-insensitive set; letters outside ASCII are only modelled where case does not matter"""
    if not flags & re.I:
        return rs
    out = list(rs)
    for a, b in rs:
        if b > 127 and (a, b) != (128, core.MAXCP):
            raise Unmodelled("IGNORECASE outside ASCII")
        for c in range(a, min(b, 127) + 1):
            ch = chr(c)
            if ch.isalpha():
                out.append((ord(ch.swapcase()),) * 2)
                if not flags & re.A:
                    if ch in "kK":
                        out.append((0x212A, 0x212A))
                    if ch in "sS":
                        out.append((0x17F, 0x17F))
    return out


def _set(items, flags):
    neg, rs = False, []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            rs += _fold([(av, av)], flags)
        elif op is K.RANGE:
            rs += _fold([tuple(av)], flags)
        elif op is K.CATEGORY:
            rs += _category(av, flags)
        else:
            raise Unmodelled(str(op))
    return _complement(rs) if neg else rs


class Matcher:
    def __init__(self, pattern, text):
        self.p = pattern
        self.flags = pattern.flags
        self.text = text
        self.c = _cps(text)
        self.tree = P.parse(pattern.pattern, pattern.flags & ~re.DEBUG)

    def test(self, i, rs):
        if i >= len(self.c):
            return False
        c = self.c[i]
        if type(c) is int:
            return any(a <= c <= b for a, b in rs)
        return bool(ranges_cond(c, rs))

    def seq(self, ops, i, g, flags):
        """generator of (position, groups) for the ways to match the list of nodes from position i, in priority order"""
        if not ops:
            yield i, g
            return
        rest = ops[1:]
        for j, h in self.one(ops[0], i, g, flags):
            yield from self.seq(rest, j, h, flags)

    def one(self, node, i, g, flags):
        op, av = node
        if op is K.LITERAL:
            if self.test(i, _fold([(av, av)], flags)):
                yield i + 1, g
        elif op is K.NOT_LITERAL:
            if self.test(i, _complement(_fold([(av, av)], flags))):
                yield i + 1, g
        elif op is K.IN:
            if self.test(i, _set(av, flags)):
                yield i + 1, g
        elif op is K.ANY:
            if self.test(i, [(0, core.MAXCP)] if flags & re.S else [(0, 9), (11, core.MAXCP)]):
                yield i + 1, g
        elif op is K.AT:
            if self.at(av, i, flags):
                yield i, g
        elif op is K.SUBPATTERN:
            group, add, rem, body = av
            for j, h in self.seq(list(body), i, g, (flags | add) & ~rem):
                if group is not None:
                    h = dict(h)
                    h[group] = (i, j)
                    h["last"] = group
                yield j, h
        elif op is K.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), i, g, flags)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, body = av
            yield from self.repeat(list(body), lo, hi, i, g, flags, op is K.MAX_REPEAT, 0, -1)
        elif op is K.POSSESSIVE_REPEAT:
            lo, hi, body = av
            for r in self.repeat(list(body), lo, hi, i, g, flags, True, 0, -1):
                yield r
                return
        elif op is K.ATOMIC_GROUP:
            for r in self.seq(list(av), i, g, flags):
                yield r
                return
        elif op in (K.ASSERT, K.ASSERT_NOT):
            direction, body = av
            start = i
            if direction < 0:
                lo, hi = body.getwidth()
                start = i - lo
            found = None
            if start >= 0:
                for j, h in self.seq(list(body), start, g, flags):
                    if direction > 0 or j == i:
                        found = h
                        break
            if op is K.ASSERT:
                if found is not None:
                    yield i, found
            elif found is None:
                yield i, g
        elif op is K.GROUPREF:
            if av in g and not flags & re.I:
                a, b = g[av]
                n = b - a
                if i + n <= len(self.c) and all(bool(ch_eq(x, y)) for x, y in zip(self.c[a:b], self.c[i : i + n])):
                    yield i + n, g
            elif av in g:
                raise Unmodelled("back reference ignoring case")
        else:
            raise Unmodelled(str(op))

    def repeat(self, body, lo, hi, i, g, flags, greedy, n, last):
        more = (hi is K.MAXREPEAT or n < hi) and (n < lo or i != last)
        if not greedy and n >= lo:
            yield i, g
        if more:
            for j, h in self.seq(body, i, g, flags):
                yield from self.repeat(body, lo, hi, j, h, flags, greedy, n + 1, i)
        if greedy and n >= lo:
            yield i, g

    def at(self, where, i, flags):
        n = len(self.c)
        name = str(where)
        if name == "AT_BEGINNING_STRING" or (name == "AT_BEGINNING" and not flags & re.M):
            return i == 0
        if name == "AT_BEGINNING":
            return i == 0 or self.test(i - 1, [(10, 10)])
        if name == "AT_END_STRING":
            return i == n
        if name == "AT_END":
            if i == n:
                return True
            return (flags & re.M or i == n - 1) and self.test(i, [(10, 10)])
        if name in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            w = _category(K.CATEGORY_WORD, flags)
            a = i > 0 and self.test(i - 1, w)
            b = i < n and self.test(i, w)
            return (a != b) == (name == "AT_BOUNDARY")
        raise Unmodelled(name)

    def match(self, i, full=False, advance=False):
        for j, g in self.seq(list(self.tree), i, {}, self.flags):
            if full and j != len(self.c):
                continue
            if advance and j == i:
                continue
            return SymMatch(self.p, self.text, i, j, g)
        return None

    def search(self, i, advance=False):
        for k in range(i, len(self.c) + 1):
            m = self.match(k, advance=advance and k == i)
            if m is not None:
                return m
        return None

    def every(self):
        i, adv = 0, False
        while True:
            m = self.search(i, adv)
            if m is None:
                return
            yield m
            i, adv = m.end(), m.end() == m.start()


class SymMatch:
    def __init__(self, pattern, text, i, j, g):
        self.re, self.string, self.pos, self.endpos = pattern, text, 0, len(text)
        self._g = dict(g)
        self.lastindex = self._g.pop("last", None)
        self._g[0] = (i, j)
        self.lastgroup = {v: k for k, v in pattern.groupindex.items()}.get(self.lastindex)

    def _id(self, k):
        if isinstance(k, str):
            k = self.re.groupindex.get(k, k)
        if not isinstance(k, int) or not 0 <= k <= self.re.groups:
            raise IndexError("no such group")
        return k

    def span(self, k=0):
        return self._g.get(self._id(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def __getitem__(self, k):
        s = self._g.get(self._id(k))
        return None if s is None else self.string[s[0] : s[1]]

    def group(self, *ks):
        if len(ks) < 2:
            return self[ks[0] if ks else 0]
        return tuple(self[k] for k in ks)

    def groups(self, default=None):
        return tuple(default if self[k] is None else self[k] for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: default if self[k] is None else self[k] for n, k in self.re.groupindex.items()}

    def expand(self, template):
        return _expand(template, self)

    def __copy__(self):
        return self


def _expand(template, m):
    if type(template) is SymStr:
        if bool("\\" in template) if False else SymStr.__contains__(template, "\\"):
            template = core.conc_str(template, "re template")
        else:
            return template
    out = []
    for part in P.parse_template(template, m.re):
        if isinstance(part, int):
            out.extend(_cps(m[part] or ""))
        else:
            out.extend(_cps(part))
    return mkstr(out)


def _flat(m):
    n = m.re.groups
    if n == 0:
        return m[0]
    if n == 1:
        return m[1] if m[1] is not None else ""
    return m.groups("")


def sub(p, repl, text, count=0, call=None):
    out, pos, n = [], 0, 0
    for m in Matcher(p, text).every():
        if count and n >= count:
            break
        out.extend(_cps(text[pos : m.start()]))
        r = call(repl, m) if callable(repl) else _expand(repl, m)
        out.extend(_cps(r))
        pos = m.end()
        n += 1
    out.extend(_cps(text[pos:]))
    return mkstr(out), n


def split(p, text, maxsplit=0):
    out, pos, n = [], 0, 0
    for m in Matcher(p, text).every():
        if maxsplit and n >= maxsplit:
            break
        out.append(text[pos : m.start()])
        out.extend(m.groups())
        pos = m.end()
        n += 1
    out.append(text[pos:])
    return out


def method(p, name, a, k, call):
    """pattern.name(*a, **k) with a symbolic string, or with a Python function as replacement; raises Unmodelled for what has no model"""
    k = dict(k)

    def arg(i, n, d=None):
        if i < len(a):
            return a[i]
        return k.get(n, d)

    if name in ("match", "fullmatch", "search", "findall", "finditer"):
        if len(a) > 1 or set(k) - {"string"}:
            raise Unmodelled("pos")
        m = Matcher(p, arg(0, "string"))
        if name == "match":
            return m.match(0)
        if name == "fullmatch":
            return m.match(0, full=True)
        if name == "search":
            return m.search(0)
        if name == "findall":
            return [_flat(x) for x in m.every()]
        return iter(list(m.every()))
    if name in ("sub", "subn"):
        r = sub(p, arg(0, "repl"), arg(1, "string"), arg(2, "count", 0), call)
        return r if name == "subn" else r[0]
    if name == "split":
        return split(p, arg(0, "string"), arg(1, "maxsplit", 0))
    raise Unmodelled(name)


def function(name, a, k, call):
    """re.name(pattern, ...)"""
    names = {"sub": ["repl", "string", "count", "flags"], "subn": ["repl", "string", "count", "flags"], "split": ["string", "maxsplit", "flags"]}.get(name, ["string", "flags"])
    if name not in ("sub", "subn", "split", "match", "fullmatch", "search", "findall", "finditer"):
        raise Unmodelled(name)
    args = dict(zip(["pattern"] + names, a))
    args.update(k)
    p, flags = args.pop("pattern"), args.pop("flags", 0)
    if type(p) is SymStr:
        p = core.conc_str(p, "re pattern")
    return method(re.compile(p, flags), name, (), args, call)
