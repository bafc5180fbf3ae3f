"""Concolic symbolic executor core.

A *path* is one execution of a harness over the real (instrumented) code.  Every symbolic input carries a concrete
shadow and a z3 expression; each decision that depends on a symbolic value is recorded as a branch node with all its
alternatives.  After the path ends, the solver decides for every not-taken alternative whether it is feasible under the
prefix, and new paths are created for the feasible ones; when no alternative is left, every input in the bounds belongs
to exactly one explored path.  On each path, the obligations are discharged as  path-condition AND NOT obligation = unsat.
"""
import sys
import time

import z3

MAXCP = 0x10FFFF
SUR_LO, SUR_HI = 0xD800, 0xDFFF


class PathAbort(BaseException):
    """The current path violates an assumption."""


class BudgetExceeded(BaseException):
    pass


class ReplayMismatch(Exception):
    pass


class Node:
    __slots__ = ("alts", "taken", "free", "kind", "nvars")

    def __init__(self, alts, taken, free=None, kind="branch"):
        self.alts = alts  # list of z3 conditions; exactly one holds for any assignment of the domain
        self.taken = taken
        self.free = free  # name of a fresh choice variable (alternatives need no solver)
        self.kind = kind
        self.nvars = len(ENG.vars)  # inputs that existed when the decision was taken


class Engine:
    """State of the path being executed in this process."""

    cur = None

    def __init__(self):
        self.reset({}, {})

    def reset(self, assignment, opts):
        self.assignment = assignment
        self.opts = opts
        self.nodes = []
        self.domain = []  # constraints on input variables (z3)
        self.vars = {}  # name -> z3 var
        self.values = {}  # name -> shadow value used on this path
        self.freevars = set()
        self.decided = {}
        self.keep = []
        self.rng = {}  # id of a character term -> intervals it lies in on this path
        self.rinfo = {}  # id of a condition -> (id of the character term, intervals)
        self.fixed = {}
        self.obligations = []  # (cond z3|bool, label, info)
        self.pins = {}
        self.notes = {}
        self.fresh = 0
        self.nbranch_limit = 20000
        self.reached = set()
        self.witness = 0

    # ---------------------------------------------------------------- inputs
    def new_int(self, name, lo, hi, default=None):
        if name in self.vars:
            raise RuntimeError("duplicate input " + name)
        v = z3.Int(name)
        val = self.assignment.get(name)
        if val is None:
            val = lo if default is None else default
            self.assignment[name] = val
        self.vars[name] = v
        self.values[name] = val
        self.domain.append(z3.And(v >= lo, v <= hi))
        self.rng[v.get_id()] = [(lo, hi)]
        return v, val

    def choose(self, name, n):
        if n <= 1:
            return 0
        if name in self.vars:
            raise RuntimeError("duplicate choice " + name)
        v = z3.Int(name)
        val = self.assignment.get(name)
        if val is None:
            val = self.opts.get("pref", {}).get(name, 0)
            self.assignment[name] = val
        if not (0 <= val < n):
            raise PathAbort()
        self.vars[name] = v
        self.values[name] = val
        self.nodes.append(Node([v == i for i in range(n)], val, free=name, kind="choice"))
        return val

    # -------------------------------------------------------------- branching
    def branch(self, cond, shadow):
        """Record the decision on `cond` (z3 Bool) and return its shadow truth."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        d = self.decided.get(k)
        if d is not None:
            return d
        if len(self.nodes) > self.nbranch_limit:
            raise BudgetExceeded()
        shadow = bool(shadow)
        self.refine(cond, shadow)
        nc = z3.Not(cond)
        self.nodes.append(Node([cond, nc], 0 if shadow else 1))
        self.decided[k] = shadow
        self.decided[nc.get_id()] = not shadow
        self.keep.append(cond)
        self.keep.append(nc)
        return shadow

    def refine(self, cond, truth):
        """Keep the interval set of a character in step with the decisions of this path."""
        i = self.rinfo.get(cond.get_id())
        if i is None:
            return
        R = self.rng.get(i[0])
        if R is None:
            return
        self.rng[i[0]] = iv_and(R, i[1]) if truth else iv_sub(R, i[1])

    def multi2(self, conds, taken):
        self.branch(conds[0], taken == 0)
        self.refine(conds[taken], True)

    def multi(self, conds, taken, key=None):
        if len(conds) == 1:
            return
        if len(conds) == 2:
            return self.multi2(conds, taken)
        k = conds[taken].get_id()
        if self.decided.get(k) is True:
            return
        if len(self.nodes) > self.nbranch_limit:
            raise BudgetExceeded()
        self.nodes.append(Node(list(conds), taken))
        self.refine(conds[taken], True)
        for i, c in enumerate(conds):
            self.decided[c.get_id()] = i == taken
            self.keep.append(c)

    def pin(self, expr, value, why):
        """The code needs a concrete value (an operation that is not modelled): fix it on this path."""
        self.pins[why] = self.pins.get(why, 0) + 1
        cond = expr == value
        if z3.is_true(cond):
            return
        k = cond.get_id()
        if self.decided.get(k) is True:
            return
        n = Node([cond, z3.Not(cond)], 0, kind="pin")
        if expr.get_id() in self.rng and type(value) is int:
            self.rng[expr.get_id()] = [(value, value)]
        self.nodes.append(n)
        self.decided[k] = True
        self.keep.append(cond)

    def assume(self, cond, shadow):
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        self.branch(cond, shadow)
        if not shadow:
            raise PathAbort()


ENG = Engine()


# ------------------------------------------------------------------ symbolic values
class SymBool:
    __slots__ = ("z", "s")

    def __init__(self, z, s):
        self.z = z
        self.s = bool(s)

    def __bool__(self):
        return ENG.branch(self.z, self.s)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.z, o.z), self.s and o.s)
        if isinstance(o, bool):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.z, o.z), self.s or o.s)
        if isinstance(o, bool):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z), not self.s)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    # a boolean as a number
    def __add__(self, o):
        return int(bool(self)) + o

    def __radd__(self, o):
        return o + int(bool(self))

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    def __rmul__(self, o):
        return o * int(bool(self))

    def __neg__(self):
        return -int(bool(self))

    def __xor__(self, o):
        return bool(self) ^ (bool(o) if isinstance(o, SymBool) else o)

    __rxor__ = __xor__

    def __lt__(self, o):
        return bool(self) < o

    def __le__(self, o):
        return bool(self) <= o

    def __gt__(self, o):
        return bool(self) > o

    def __ge__(self, o):
        return bool(self) >= o

    def __repr__(self):
        return repr(self.s)

    def __format__(self, spec):
        return format(bool(self), spec)


def zand(conds):
    """conds: iterable of bool | (z3, shadow) pairs | SymBool"""
    zs, sh = [], True
    for c in conds:
        if isinstance(c, SymBool):
            zs.append(c.z)
            sh = sh and c.s
        elif c is True:
            continue
        elif c is False:
            return False
        else:
            raise TypeError(type(c))
    if not zs:
        return True
    if len(zs) == 1:
        return SymBool(zs[0], sh)
    return SymBool(z3.And(zs), sh)


def zor(conds):
    zs, sh = [], False
    for c in conds:
        if isinstance(c, SymBool):
            zs.append(c.z)
            sh = sh or c.s
        elif c is False:
            continue
        elif c is True:
            return True
        else:
            raise TypeError(type(c))
    if not zs:
        return False
    if len(zs) == 1:
        return SymBool(zs[0], sh)
    return SymBool(z3.Or(zs), sh)


def znot(c):
    if isinstance(c, SymBool):
        return ~c
    return not c


def zimplies(a, b):
    return zor([znot(a), b])


class Ch:
    """A symbolic character: z3 Int expression over code points with a concrete shadow code point."""

    __slots__ = ("z", "s")

    def __init__(self, z, s):
        self.z = z
        self.s = s


def ch_eq(a, b):
    """a, b: int code point or Ch. Returns bool | SymBool"""
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        R = ENG.rng.get(a.z.get_id())
        if R is not None:
            if not any(lo <= b <= hi for lo, hi in R):
                return False
            if len(R) == 1 and R[0][0] == R[0][1]:
                return True
        r = SymBool(a.z == b, a.s == b)
        ENG.rinfo[r.z.get_id()] = (a.z.get_id(), [(b, b)])
        ENG.keep.append(r.z)
        return r
    if a is b or a.z.eq(b.z):
        return True
    return SymBool(a.z == b.z, a.s == b.s)


def ranges_cond(c, ranges):
    """c in union of closed intervals -> bool | SymBool"""
    if type(c) is int:
        return any(lo <= c <= hi for lo, hi in ranges)
    R = ENG.rng.get(c.z.get_id())
    if R is not None:
        inter = iv_and(R, ranges)
        if not inter:
            return False
        if iv_size(inter) == iv_size(R):
            return True
        if len(inter) < len(ranges):
            ranges = inter
    parts = []
    sh = False
    for lo, hi in ranges:
        if lo <= c.s <= hi:
            sh = True
        if lo == hi:
            parts.append(c.z == lo)
        elif lo <= 0:
            parts.append(c.z <= hi)
        elif hi >= MAXCP:
            parts.append(c.z >= lo)
        else:
            parts.append(z3.And(c.z >= lo, c.z <= hi))
    if not parts:
        return False
    r = SymBool(parts[0] if len(parts) == 1 else z3.Or(parts), sh)
    ENG.rinfo[r.z.get_id()] = (c.z.get_id(), ranges)
    ENG.keep.append(r.z)
    return r


def iv_and(a, b):
    """intersection of two sorted interval lists"""
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return out


def iv_sub(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for x, y in b:
            if y < cur or x > hi:
                continue
            if x > cur:
                out.append((cur, x - 1))
            cur = max(cur, y + 1)
        if cur <= hi:
            out.append((cur, hi))
    return out


def iv_size(a):
    return sum(hi - lo + 1 for lo, hi in a)


_RANGE_CACHE = {}


def predicate_ranges(name):
    """Interval set of the code points for which str.<name>() holds for the one-character string."""
    r = _RANGE_CACHE.get(name)
    if r is None:
        if callable(name):
            f = name
        else:
            f = getattr(str, name)
        r = []
        start = None
        for i in range(MAXCP + 2):
            ok = i <= MAXCP and f(chr(i))
            if ok and start is None:
                start = i
            elif not ok and start is not None:
                r.append((start, i - 1))
                start = None
        _RANGE_CACHE[name] = r
    return r


def _cps(s):
    if type(s) is SymStr:
        return s.c
    return [ord(x) for x in str.__str__(s)]


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymInt or t is SymBool or isinstance(x, SymBase)


class SymBase:
    """Mixin of the other symbolic value classes (decimals)."""

    __slots__ = ()


def mkstr(cps):
    """Build a string out of code points; plain str if everything is concrete."""
    for c in cps:
        if type(c) is not int:
            break
    else:
        return "".join(map(chr, cps))
    return SymStr(cps)


def fix_chars(cps):
    out = []
    for c in cps:
        if type(c) is not int:
            v = ENG.fixed.get(c.z.get_id())
            if v is not None:
                c = v
        out.append(c)
    return out


WS = None


def _ws():
    return predicate_ranges("isspace")


class SymStr(str):
    """str subclass: the str payload is the shadow; `c` the vector of (symbolic or concrete) code points."""

    def __new__(cls, cps):
        o = str.__new__(cls, "".join(chr(c) if type(c) is int else chr(c.s) for c in cps))
        o.c = list(cps)
        return o

    # -- comparisons
    def eq(self, o):
        oc = _cps(o)
        if len(oc) != len(self.c):
            return False
        return zand(ch_eq(a, b) for a, b in zip(self.c, oc))

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self.eq(o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return znot(self.eq(o))

    def __hash__(self):
        return str.__hash__(self)

    def _lt(self, o, orequal):
        a, b = self.c, _cps(o)
        for x, y in zip(a, b):
            if bool(ch_eq(x, y)):
                continue
            xz, xs = (x, x) if type(x) is int else (x.z, x.s)
            yz, ys = (y, y) if type(y) is int else (y.z, y.s)
            return ENG.branch(z3.simplify(xz < yz) if not isinstance(xz < yz, bool) else z3.BoolVal(xz < yz), xs < ys)
        return len(a) <= len(b) if orequal else len(a) < len(b)

    def __lt__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return not self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return not self._lt(o, False) if isinstance(o, str) else NotImplemented

    # -- building
    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.c + _cps(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(_cps(o) + self.c)

    def __mul__(self, n):
        n = conc_int(n, "str*int")
        return mkstr(self.c * n)

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(conc_int(x, "slice") if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)))
            return mkstr(self.c[i])
        return mkstr([self.c[conc_int(i, "index")]])

    def __iter__(self):
        for c in self.c:
            yield mkstr([c])

    def __str__(self):
        return self

    def __repr__(self):
        # repr is only used for messages
        return str.__repr__(str.__str__(self))

    def __format__(self, spec):
        if spec == "":
            return self
        return format(conc_str(self, "format spec"), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, (str.__str__(self),))

    def __reduce_ex__(self, p):
        return (str, (str.__str__(self),))

    # -- searching
    def _match_at(self, sub, i):
        return zand(ch_eq(a, b) for a, b in zip(self.c[i : i + len(sub)], sub))

    def _bounds(self, start, end):
        n = len(self.c)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = _cps(sub)
        s, e = self._bounds(start, end)
        for i in range(s, e - len(sub) + 1):
            if bool(self._match_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = _cps(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if bool(self._match_at(sub, i)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        sub = _cps(sub)
        if not sub:
            return True
        n = len(self.c)
        return bool(zor(self._match_at(sub, i) for i in range(0, n - len(sub) + 1)))

    def count(self, sub, start=None, end=None):
        sub = _cps(sub)
        s, e = self._bounds(start, end)
        if not sub:
            return max(0, e - s + 1)
        i, k = s, 0
        while i <= e - len(sub):
            if bool(self._match_at(sub, i)):
                k += 1
                i += len(sub)
            else:
                i += 1
        return k

    def startswith(self, p, start=None, end=None):
        s, e = self._bounds(start, end)
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        sub = _cps(p)
        if len(sub) > e - s:
            return False
        return bool(self._match_at(sub, s))

    def endswith(self, p, start=None, end=None):
        s, e = self._bounds(start, end)
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        sub = _cps(p)
        if len(sub) > e - s:
            return False
        return bool(self._match_at(sub, e - len(sub)))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        old, new = _cps(old), _cps(new)
        count = conc_int(count, "replace")
        out, i, n, k = [], 0, len(self.c), 0
        if not old:
            for j, c in enumerate(self.c):
                if count < 0 or k < count:
                    out.extend(new)
                    k += 1
                out.append(c)
            if count < 0 or k < count:
                out.extend(new)
            return mkstr(out)
        while i < n:
            if (count < 0 or k < count) and i + len(old) <= n and bool(self._match_at(old, i)):
                out.extend(new)
                i += len(old)
                k += 1
            else:
                out.append(self.c[i])
                i += 1
        return mkstr(out)

    def _in_set(self, c, chars):
        if chars is None:
            return bool(ranges_cond(c, _ws()))
        return bool(zor(ch_eq(c, x) for x in chars))

    def strip(self, chars=None):
        return sx_lstrip(sx_rstrip(self, chars), chars)

    def lstrip(self, chars=None):
        return sx_lstrip(self, chars)

    def rstrip(self, chars=None):
        return sx_rstrip(self, chars)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = conc_int(maxsplit, "split")
        if sep is None:
            out, cur = [], []
            i, n = 0, len(self.c)
            while i < n:
                if self._in_set(self.c[i], None):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                    i += 1
                    continue
                if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = sx_rstrip(mkstr(self.c[i:]), None)
                    out.append(rest)
                    return out
                cur.append(self.c[i])
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        sub = _cps(sep)
        if not sub:
            raise ValueError("empty separator")
        out, cur, i, n = [], [], 0, len(self.c)
        while i < n:
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sub) <= n and bool(self._match_at(sub, i)):
                out.append(mkstr(cur))
                cur = []
                i += len(sub)
            else:
                cur.append(self.c[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = conc_int(maxsplit, "rsplit")
        if maxsplit < 0:
            return self.split(sep)
        # split the reversed string from the left
        back = mkstr(self.c[::-1])
        if type(back) is not SymStr:
            return str.__str__(self).rsplit(sep, maxsplit)
        parts = back.split(None if sep is None else mkstr(_cps(sep)[::-1]), maxsplit)
        return [mkstr(_cps(x)[::-1]) for x in parts[::-1]]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep) :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep) :])

    def splitlines(self, keepends=False):
        out, cur, i, n = [], [], 0, len(self.c)
        while i < n:
            c = self.c[i]
            if bool(ranges_cond(c, LINE_BREAKS)):
                end = [c]
                if i + 1 < n and bool(ch_eq(c, 13)) and bool(ch_eq(self.c[i + 1], 10)):
                    end.append(self.c[i + 1])
                    i += 1
                out.append(mkstr(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def join(self, it):
        return sx_join(self, it)

    def format(self, *a, **k):
        return sx_format(conc_str(self, "format template"), a, k)

    def _case(self, name):
        out = []
        for c in self.c:
            if type(c) is int:
                out.extend(ord(x) for x in getattr(chr(c), name)())
                continue
            if bool(SymBool(c.z < 128, c.s < 128)):
                lo, hi, d = (97, 122, -32) if name == "upper" else (65, 90, 32)
                R = ENG.rng.get(c.z.get_id())
                inn = ranges_cond(c, [(lo, hi)])
                if inn is False:
                    out.append(c)
                elif R is None:
                    out.append(Ch(c.z + d, c.s + d) if bool(inn) else c)
                else:
                    # no fork: one term for both cases, with its own interval set
                    ins = iv_and(R, [(lo, hi)])
                    img = sorted([(a + d, b + d) for a, b in ins] + iv_sub(R, [(lo, hi)]))
                    rs = []
                    for a, b in img:
                        if rs and a <= rs[-1][1] + 1:
                            rs[-1] = (rs[-1][0], max(rs[-1][1], b))
                        else:
                            rs.append((a, b))
                    if len(rs) == 1 and rs[0][0] == rs[0][1]:
                        out.append(rs[0][0])
                        continue
                    z = c.z + d if inn is True else z3.If(inn.z, c.z + d, c.z)
                    sh = c.s + d if lo <= c.s <= hi else c.s
                    ENG.rng[z.get_id()] = rs
                    ENG.keep.append(z)
                    out.append(Ch(z, sh))
            elif bool(ranges_cond(c, predicate_ranges({"upper": _same_upper, "lower": _same_lower, "casefold": _same_folded}[name]))):
                out.append(c)
            else:
                v = conc_ch(c, "str." + name + " non-ascii")
                out.extend(ord(x) for x in getattr(chr(v), name)())
        return mkstr(out)

    def upper(self):
        return self._case("upper")

    def lower(self):
        return self._case("lower")

    def casefold(self):
        return self._case("casefold")

    def swapcase(self):
        out = []
        for c in self.c:
            if type(c) is int:
                out.extend(ord(x) for x in chr(c).swapcase())
            elif bool(ranges_cond(c, [(97, 122)])):
                out.append(Ch(c.z - 32, c.s - 32))
            elif bool(ranges_cond(c, [(65, 90)])):
                out.append(Ch(c.z + 32, c.s + 32))
            elif bool(ranges_cond(c, predicate_ranges(_same_swap))):
                out.append(c)
            else:
                out.extend(ord(x) for x in chr(conc_ch(c, "swapcase non-ascii")).swapcase())
        return mkstr(out)

    def title(self):
        out, prev = [], False
        for c in self.c:
            ch = mkstr([c])
            if bool(ranges_cond(c, predicate_ranges(_cased))) if type(c) is not int else _cased(chr(c)):
                if type(c) is not int and not bool(ranges_cond(c, [(0, 127)])):
                    return conc_str(self, "title non-ascii").title()
                out.extend(_cps(ch.lower() if prev else ch.title() if type(c) is int else ch.upper()))
                prev = True
            else:
                out.append(c)
                prev = False
        return mkstr(out)

    def capitalize(self):
        if any(type(c) is not int and not bool(ranges_cond(c, [(0, 127)])) for c in self.c):
            return conc_str(self, "capitalize non-ascii").capitalize()
        head = mkstr(self.c[:1])
        return (head.upper() if type(head) is SymStr else head.title()) + mkstr(self.c[1:]).lower()

    def _all(self, name):
        if not self.c:
            return False
        return bool(zand(ranges_cond(c, predicate_ranges(name)) for c in self.c))

    def isspace(self):
        return self._all("isspace")

    def isdigit(self):
        return self._all("isdigit")

    def isnumeric(self):
        return self._all("isnumeric")

    def isdecimal(self):
        return self._all("isdecimal")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isprintable(self):
        return not self.c or self._all("isprintable")

    def isascii(self):
        return bool(zand(ranges_cond(c, [(0, 127)]) for c in self.c))

    def _uniform(self, good, bad):
        r0, r1 = predicate_ranges(good), predicate_ranges(bad)
        if bool(zor(ranges_cond(c, r1) for c in self.c)):
            return False
        return bool(zor(ranges_cond(c, r0) for c in self.c))

    def isupper(self):
        return self._uniform("isupper", _lower_or_title)

    def islower(self):
        return self._uniform("islower", _upper_or_title)

    def istitle(self):
        return conc_str(self, "istitle").istitle()

    def isidentifier(self):
        if not self.c:
            return False
        r0 = predicate_ranges("isidentifier")
        r1 = predicate_ranges(_id_continue)
        return bool(zand([ranges_cond(self.c[0], r0)] + [ranges_cond(c, r1) for c in self.c[1:]]))

    def _pad(self, width, fill, left):
        width = conc_int(width, "just")
        n = width - len(self.c)
        if n <= 0:
            return self
        f = _cps(fill) * n
        return mkstr(f + self.c if left else self.c + f)

    def rjust(self, width, fill=" "):
        return self._pad(width, fill, True)

    def ljust(self, width, fill=" "):
        return self._pad(width, fill, False)

    def center(self, width, fill=" "):
        width = conc_int(width, "center")
        n = width - len(self.c)
        if n <= 0:
            return self
        left = n // 2 + (n & width & 1)
        f = _cps(fill)
        return mkstr(f * left + self.c + f * (n - left))

    def zfill(self, width):
        width = conc_int(width, "zfill")
        n = width - len(self.c)
        if n <= 0:
            return self
        c = self.c
        if c and bool(zor([ch_eq(c[0], 43), ch_eq(c[0], 45)])):
            return mkstr(c[:1] + [48] * n + c[1:])
        return mkstr([48] * n + c)

    def format_map(self, m):
        return sx_format(conc_str(self, "format template"), (), m)

    def translate(self, table):
        out = []
        for c in self.c:
            if type(c) is int:
                r = chr(c).translate(table)
                out.extend(_cps(r))
                continue
            if not isinstance(table, dict):
                out.extend(ord(x) for x in chr(conc_ch(c, "translate")).translate(table))
                continue
            for k, v in table.items():
                if bool(ch_eq(c, k)):
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(_cps(v))
                    break
            else:
                out.append(c)
        return mkstr(out)

    def encode(self, *a, **k):
        return conc_str(self, "encode").encode(*a, **k)

    def expandtabs(self, *a):
        return conc_str(self, "expandtabs").expandtabs(*a)

    def __mod__(self, args):
        return sx_mod(self, args)

    def __getnewargs__(self):
        return (str.__str__(self),)


def _same_upper(x):
    return x.upper() == x


def _same_lower(x):
    return x.lower() == x


def _same_folded(x):
    return x.casefold() == x


def _same_swap(x):
    return x.swapcase() == x


def _cased(x):
    return x.isupper() or x.islower() or x.istitle()


def _lower_or_title(x):
    return x.islower() or x.istitle() and not x.isupper()


def _upper_or_title(x):
    return x.isupper() or x.istitle() and not x.islower()


def _id_continue(x):
    return ("a" + x).isidentifier()


LINE_BREAKS = [(0x0A, 0x0D), (0x1C, 0x1E), (0x85, 0x85), (0x2028, 0x2029)]


def sx_lstrip(s, chars=None):
    if type(s) is not SymStr and not (chars is not None and type(chars) is SymStr):
        return str.lstrip(s, chars)
    c = _cps(s)
    cs = None if chars is None else _cps(chars)
    i = 0
    while i < len(c) and _inset(c[i], cs):
        i += 1
    return mkstr(c[i:])


def sx_rstrip(s, chars=None):
    if type(s) is not SymStr and not (chars is not None and type(chars) is SymStr):
        return str.rstrip(s, chars)
    c = _cps(s)
    cs = None if chars is None else _cps(chars)
    j = len(c)
    while j > 0 and _inset(c[j - 1], cs):
        j -= 1
    return mkstr(c[:j])


def _inset(c, cs):
    if cs is None:
        return bool(ranges_cond(c, _ws()))
    return bool(zor(ch_eq(c, x) for x in cs))


def conc_ch(c, why):
    if type(c) is int:
        return c
    ENG.pin(c.z, c.s, why)
    return c.s


def conc_str(s, why):
    if type(s) is SymStr:
        for c in s.c:
            if type(c) is not int:
                ENG.pin(c.z, c.s, why)
        return str.__str__(s) if False else "".join(chr(c) if type(c) is int else chr(c.s) for c in s.c)
    return s


def conc_int(n, why):
    if type(n) is SymInt:
        ENG.pin(n.z, int.__int__(n), why)
        return int.__int__(n)
    return n


class SymInt(int):
    def __new__(cls, z, s):
        o = int.__new__(cls, s)
        o.z = z
        return o

    @property
    def s(self):
        return int.__int__(self)

    def _bin(self, o, f, rev=False):
        if type(o) is bool:
            o = int(o)
        if type(o) is SymBool:
            o = int(o)
        if isinstance(o, SymInt):
            oz, os_ = o.z, o.s
        elif isinstance(o, int):
            oz, os_ = o, int(o)
        else:
            return NotImplemented
        if rev:
            return mkint(f(oz, self.z), f(os_, self.s))
        return mkint(f(self.z, oz), f(self.s, os_))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * conc_int(self, "sequence repeat")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.z, -self.s)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self < 0) else self

    def _cmp(self, o, f):
        if isinstance(o, SymInt):
            return SymBool(f(self.z, o.z), f(self.s, o.s))
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SymBool(f(self.z, int(o)), f(self.s, int(o)))
        if isinstance(o, float) or type(o).__name__ == "Decimal":
            if o == int(o):
                return SymBool(f(self.z, int(o)), f(self.s, int(o)))
            return f(conc_int(self, "int cmp float"), o)
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return int.__hash__(self)

    def __bool__(self):
        return ENG.branch(self.z != 0, self.s != 0)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.z / o, self.s // o)
        return conc_int(self, "//") // conc_int(o, "//")

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.z % o, self.s % o)
        return conc_int(self, "%") % conc_int(o, "%")

    def __rfloordiv__(self, o):
        return o // conc_int(self, "//")

    def __rmod__(self, o):
        if isinstance(o, str):
            return sx_mod(o, self)
        return o % conc_int(self, "%")

    def __truediv__(self, o):
        return conc_int(self, "/") / conc_int(o, "/")

    def __rtruediv__(self, o):
        return o / conc_int(self, "/")

    def __pow__(self, o, *m):
        return pow(conc_int(self, "**"), conc_int(o, "**"), *m)

    def __rpow__(self, o):
        return o ** conc_int(self, "**")

    def __index__(self):
        return conc_int(self, "__index__")

    def __int__(self):
        return self

    def __invert__(self):
        return mkint(-self.z - 1, -self.s - 1)

    def __rshift__(self, o):
        if type(o) is int and o >= 0:
            return self // (1 << o)
        return conc_int(self, ">>") >> conc_int(o, ">>")

    def __lshift__(self, o):
        if type(o) is int and o >= 0:
            return self * (1 << o)
        return conc_int(self, "<<") << conc_int(o, "<<")

    def __rrshift__(self, o):
        return o >> conc_int(self, ">>")

    def __rlshift__(self, o):
        return o << conc_int(self, "<<")

    def __and__(self, o):
        if type(o) is int and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        if type(o) is int and o < 0 and ~o & (~o + 1) == 0:
            return self - self % -o
        return conc_int(self, "&") & conc_int(o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return conc_int(self, "|") | conc_int(o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        return conc_int(self, "^") ^ conc_int(o, "^")

    __rxor__ = __xor__

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self if n is None or n >= 0 else round(conc_int(self, "round"), n)

    def __float__(self):
        return float(conc_int(self, "float"))

    def __rdivmod__(self, o):
        return divmod(o, conc_int(self, "divmod"))

    def conjugate(self):
        return self

    real = numerator = property(conjugate)

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)

    def bit_count(self):
        return conc_int(self, "bit_count").bit_count()

    def to_bytes(self, *a, **k):
        return conc_int(self, "to_bytes").to_bytes(*a, **k)

    def bit_length(self):
        if bool(self < 0):
            return (-self).bit_length()
        k = 0
        while bool(self >= (1 << k)):
            k += 1
        return k

    def __str__(self):
        return int_to_str(self)

    def __repr__(self):
        return int_to_str(self)

    def __format__(self, spec):
        if spec in ("", "d"):
            return int_to_str(self)
        return format(conc_int(self, "int format"), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        return (int, (self.s,))


def mkint(z, s):
    if isinstance(z, int):
        return z
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z, s)


def int_to_str(n):
    """Decimal digits of a symbolic integer: forks on sign and number of digits, digits are fresh variables."""
    cache = ENG.notes.setdefault("_i2s", {})
    k = n.z.get_id()
    if k in cache:
        return cache[k]
    neg = bool(n < 0)
    a = -n if neg else n
    nd = 1
    while bool(a >= 10**nd):
        nd += 1
    az, as_ = a.z, a.s
    digs = []
    tot = []
    sd = str(as_).rjust(nd, "0")
    for i in range(nd):
        ENG.fresh += 1
        v = z3.Int("dig!%d" % ENG.fresh)
        ENG.domain_local(z3.And(v >= 0, v <= 9))
        digs.append(Ch(v + 48, ord(sd[i])))
        ENG.rng[digs[-1].z.get_id()] = [(49 if i == 0 and nd > 1 else 48, 57)]
        ENG.keep.append(digs[-1].z)
        tot.append(v * 10 ** (nd - 1 - i))
    ENG.domain_local(z3.Sum(tot) == az if nd > 1 else tot[0] == az)
    r = mkstr(([45] if neg else []) + digs)
    cache[k] = r
    ENG.keep.append(n.z)
    return r


def _domain_local(self, c):
    # definition of auxiliary variables: always satisfiable extension, added as a one-alternative node
    self.nodes.append(Node([c], 0, kind="def"))


Engine.domain_local = _domain_local


def str_to_int(s):
    """int(SymStr). Python accepts surrounding whitespace, sign, underscores and Unicode digits; the symbolic model
    covers [+-]?[0-9]+ and pins everything else."""
    c = list(s.c)
    if not c:
        raise ValueError("invalid literal for int() with base 10: ''")
    neg = False
    i = 0
    if len(c) > 1:
        if bool(ch_eq(c[0], 45)):
            neg = True
            i = 1
        elif bool(ch_eq(c[0], 43)):
            i = 1
    digits = c[i:]
    if digits and bool(zand(ranges_cond(x, [(48, 57)]) for x in digits)):
        tot = 0
        sh = 0
        n = len(digits)
        for j, x in enumerate(digits):
            w = 10 ** (n - 1 - j)
            if type(x) is int:
                tot = tot + (x - 48) * w
                sh += (x - 48) * w
            else:
                d = z3.simplify(x.z - 48)
                tot = tot + d * w
                sh += (x.s - 48) * w
        if neg:
            tot, sh = -tot, -sh
        return mkint(tot, sh)
    return int(conc_str(s, "int(str)"))


def hex_to_int(s):
    """int(SymStr, 16) of plain hexadecimal digits; None for anything else"""
    tot, sh = 0, 0
    for x in s.c:
        if type(x) is int:
            try:
                d = ds = int(chr(x), 16)
            except ValueError:
                return None
        else:
            if not bool(ranges_cond(x, [(48, 57), (65, 70), (97, 102)])):
                return None
            d = z3.If(x.z <= 57, x.z - 48, z3.If(x.z <= 70, x.z - 55, x.z - 87))
            ds = int(chr(x.s), 16)
        tot, sh = tot * 16 + d, sh * 16 + ds
    return mkint(tot, sh) if s.c else None


# ------------------------------------------------------------------ string helper models
def sx_join(sep, it):
    parts = list(it)
    for p in parts:
        if not isinstance(p, str):
            raise TypeError("sequence item: expected str instance, %s found" % type(p).__name__)
    if type(sep) is not SymStr and not any(type(p) is SymStr for p in parts):
        return str.join(sep, parts)
    out = []
    sc = _cps(sep)
    for i, p in enumerate(parts):
        if i:
            out.extend(sc)
        out.extend(_cps(p))
    return mkstr(out)


def to_str(x):
    if isinstance(x, str):
        return x if type(x) is SymStr else str(x)
    if type(x) is SymInt:
        return int_to_str(x)
    return str(x)


def sym_repr(x):
    """repr(); strings the way Python writes them (quotes chosen by content, escapes)"""
    if type(x) is SymInt:
        return int_to_str(x)
    if type(x) is SymBool:
        return repr(bool(x))
    if type(x).__name__ == "SymDecimal":
        return mkstr([ord(c) for c in "Decimal('"] + list(_cps(x.__str__())) + [39, 41])
    if isinstance(x, SymBase):
        return repr(x.conc("repr")) if type(x).__repr__ is object.__repr__ else x.__repr__()
    if type(x) is not SymStr:
        return repr(x)
    quote = 34 if "'" in x and '"' not in x else 39
    out = [quote]
    plain = predicate_ranges("isprintable")
    for c in x.c:
        if type(c) is int:
            out.extend([92, c] if c in (quote, 92) else map(ord, repr(chr(c))[1:-1] if c not in (34, 39) else chr(c)))
            continue
        for ch, esc in ((quote, [92, quote]), (92, [92, 92]), (10, [92, 110]), (13, [92, 114]), (9, [92, 116])):
            if bool(ch_eq(c, ch)):
                out.extend(esc)
                break
        else:
            if bool(ranges_cond(c, plain)):
                out.append(c)
            else:
                out.extend(map(ord, repr(chr(conc_ch(c, "repr of an unprintable character")))[1:-1]))
    return mkstr(out + [quote])


def _fmt(x, conv, spec):
    if conv == "r":
        x = sym_repr(x)
    elif conv == "s":
        x = to_str(x)
    elif conv == "a":
        x = ascii(conc_any(x, "ascii"))
    if spec == "":
        if type(x) is SymStr:
            return x
        if type(x) is SymInt:
            return int_to_str(x)
        if isinstance(x, (str, int, float)) or x is None:
            return format(x, "")
        if type(x).__format__ is object.__format__:
            return to_str(x)
        return format(x, "")
    if type(x) is SymInt and spec in ("d",):
        return int_to_str(x)
    if type(x) is SymStr:
        import re as _re

        m = _re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?", spec, _re.S)
        if m and not (m.group(2) is None and (m.group(3) or "").startswith("0")):
            if m.group(4):
                x = mkstr(x.c[: int(m.group(4))])
            w = int(m.group(3) or 0)
            f = m.group(1) or " "
            n = max(0, w - len(x))
            left = {">": n, "^": n // 2}.get(m.group(2), 0)
            return mkstr(_cps(f) * left + _cps(x) + _cps(f) * (n - left))
    if type(x) is SymInt:
        m = _re_full(r"(?:(.)?([<>=^]))?(0?)(\d+)?d?", spec)
        if m and m.group(2) != "=":
            t = int_to_str(x)
            if m.group(3) and not m.group(2):
                return t.zfill(int(m.group(4) or 0)) if type(t) is SymStr else str.zfill(t, int(m.group(4) or 0))
            return _fmt(mkstr(_cps(t)), None, (m.group(1) or "") + (m.group(2) or ">") + (m.group(4) or "0"))
    if isinstance(x, SymBase):
        return x.__format__(spec)
    return format(conc_any(x, "format spec"), spec)


def _re_full(pattern, text):
    import re as _re

    return _re.fullmatch(pattern, text, _re.S)


def conc_any(x, why):
    if type(x) is SymStr:
        return conc_str(x, why)
    if type(x) is SymInt:
        return conc_int(x, why)
    if type(x) is SymBool:
        return bool(x)
    if isinstance(x, SymBase):
        return x.conc(why)
    return x


def sx_fstr(*parts):
    """parts: plain strings or (value, conv, spec) triples"""
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            s = _fmt(p[0], p[1], p[2])
        else:
            s = p
        if type(s) is SymStr:
            sym = True
        out.append(s)
    if not sym:
        return "".join(out)
    cps = []
    for s in out:
        cps.extend(_cps(s))
    return mkstr(cps)


import string as _string

_FORMATTER = _string.Formatter()


def sx_format(tmpl, args, kwargs, auto=None):
    parts = []
    auto = [0] if auto is None else auto
    for lit, field, spec, conv in _FORMATTER.parse(tmpl):
        if lit:
            parts.append(lit)
        if field is not None:
            if field == "" or field[0] in ".[":
                field = str(auto[0]) + field
                auto[0] += 1
            obj, _ = _FORMATTER.get_field(field, args, kwargs)
            if spec and "{" in spec:
                spec = conc_str(sx_format(spec, args, kwargs, auto), "format spec")
            parts.append((obj, conv, spec or ""))
    return sx_fstr(*parts)


def sx_mod(tmpl, args):
    import re as _re

    if not isinstance(tmpl, str):
        return tmpl % args
    tmpl = conc_str(tmpl, "% template")
    items = args if isinstance(args, tuple) else (args,)
    flat = list(args.values()) if isinstance(args, dict) else list(items)
    if not any(is_sym(a) or not isinstance(a, (str, int, float, type(None))) for a in flat):
        return tmpl % args
    out = []
    pos = 0
    k = 0

    def nxt():
        nonlocal k
        if k >= len(items):
            raise TypeError("not enough arguments for format string")
        k += 1
        return items[k - 1]

    for m in _re.finditer(r"%(?:\(([^)]*)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+)?)?[hlL]?(.)", tmpl, _re.S):
        out.append(tmpl[pos : m.start()])
        pos = m.end()
        name, flags, width, prec, kind = m.groups()
        if kind == "%":
            out.append("%")
            continue
        if width == "*":
            width = str(conc_int(nxt(), "% width"))
        if prec == "*":
            prec = str(conc_int(nxt(), "% precision"))
        v = args[name] if name is not None else nxt()
        spec = "%" + flags + (width or "") + ("." + (prec or "0") if "." in m.group(0) else "") + kind
        if kind == "r":
            v, kind = sym_repr(v), "s"
        if kind == "s":
            v = to_str(v)
        if type(v) is SymInt and kind in "diu":
            if flags.strip("-") or "." in m.group(0):
                v = conc_int(v, "% flags")
            else:
                v, kind = int_to_str(v), "s"
                if type(v) is not SymStr:
                    v = SymStr(_cps(v))
        if type(v) is SymStr and kind == "s":
            fs = ("<" if "-" in flags else ">") + (width or "0") + ("." + (prec or "0") if "." in m.group(0) else "")
            out.append((v, None, fs))
            continue
        if is_sym(v):
            v = conc_any(v, "% " + kind)
        out.append(spec % (v,) if kind != "s" else (spec[:-1] + "s") % (v,))
    if not isinstance(args, dict) and k < len(items):
        raise TypeError("not all arguments converted during string formatting")
    out.append(tmpl[pos:])
    return sx_fstr(*out)
