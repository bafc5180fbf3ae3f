"""Models of Decimal and float over symbolic text."""
import math
import operator
from decimal import Decimal

import z3

from . import core
from .core import ENG, Ch, SymBase, SymBool, SymInt, SymStr, ch_eq, conc_str, mkint, mkstr, ranges_cond, zand, znot


class SymDecimal(SymBase, Decimal):
    """Finite decimal: concrete sign and exponent, symbolic coefficient digits without leading zeros (or a single 0)."""

    concrete_type = Decimal

    def __new__(cls, neg, digits, exp):
        s = "".join(chr(c) if type(c) is int else chr(c.s) for c in digits)
        o = Decimal.__new__(cls, ("-" if neg else "") + s + "E" + str(exp))
        o.neg = neg
        o.digits = list(digits)
        o.exp = exp
        return o

    def conc(self, why):
        for c in self.digits:
            if type(c) is not int:
                ENG.pin(c.z, c.s, why)
        return Decimal(("-" if self.neg else "") + "".join(chr(c) if type(c) is int else chr(c.s) for c in self.digits) + "E" + str(self.exp))

    def is_zero(self):
        return len(self.digits) == 1 and bool(ch_eq(self.digits[0], 48))

    def __str__(self):
        # to-scientific-string of the General Decimal Arithmetic specification
        d, e = self.digits, self.exp
        adj = e + len(d) - 1
        sign = [45] if self.neg else []
        if e <= 0 and adj >= -6:
            if e == 0:
                return mkstr(sign + d)
            if -e < len(d):
                return mkstr(sign + d[:e] + [46] + d[e:])
            return mkstr(sign + [48, 46] + [48] * (-e - len(d)) + d)
        body = [d[0]] + ([46] + d[1:] if len(d) > 1 else [])
        return mkstr(sign + body + [ord(x) for x in "E%+d" % adj])

    def __repr__(self):
        return "Decimal('%s')" % str.__str__(core.conc_str(self.__str__(), "repr"))

    def __format__(self, spec):
        if spec == "":
            return self.__str__()
        if spec == "f":
            d, e = self.digits, self.exp
            sign = [45] if self.neg else []
            if e >= 0:
                if e and self.is_zero():
                    return mkstr(sign + [48])
                return mkstr(sign + d + [48] * e)
            if -e < len(d):
                return mkstr(sign + d[:e] + [46] + d[e:])
            return mkstr(sign + [48, 46] + [48] * (-e - len(d)) + d)
        return format(self.conc("Decimal format"), spec)

    def as_tuple(self):
        from decimal import DecimalTuple

        return DecimalTuple(
            1 if self.neg else 0,
            tuple((c - 48) if type(c) is int else mkint(z3.simplify(c.z - 48), c.s - 48) for c in self.digits),
            self.exp,
        )

    def __neg__(self):
        # unary minus rounds to the context precision (28 digits) and turns -0 into 0
        if len(self.digits) > 28:
            return -self.conc("Decimal neg over context precision")
        if self.is_zero():
            return SymDecimal(False, self.digits, self.exp)
        return SymDecimal(not self.neg, self.digits, self.exp)

    def __pos__(self):
        if len(self.digits) > 28:
            return +self.conc("Decimal pos over context precision")
        return self

    def normalize(self, context=None):
        if context is not None or len(self.digits) > 28:
            return self.conc("Decimal.normalize").normalize(context)
        if self.is_zero():
            return Decimal("-0" if self.neg else "0")
        d, e = list(self.digits), self.exp
        while bool(ch_eq(d[-1], 48)):
            d.pop()
            e += 1
        return mkdecimal(self.neg, d, e)

    def conjugate(self):
        return self

    def canonical(self):
        return self

    real = property(conjugate)

    def copy_negate(self):
        return SymDecimal(not self.neg, self.digits, self.exp)

    def __abs__(self):
        return -self if self.neg else self

    def copy_abs(self):
        return SymDecimal(False, self.digits, self.exp)

    def is_signed(self):
        return self.neg

    def is_finite(self):
        return True

    def is_nan(self):
        return False

    def is_infinite(self):
        return False

    def adjusted(self):
        return self.exp + len(self.digits) - 1

    def __bool__(self):
        return not self.is_zero()

    def __int__(self):
        return int(self.conc("int(Decimal)"))

    def _num(self):
        t = 0
        for c in self.digits:
            t = t * 10 + ((c - 48) if type(c) is int else (c.z - 48))
        return -t if self.neg else t

    def same(self, o):
        """Exact equality of sign, digits and exponent."""
        a = self
        if not isinstance(o, SymDecimal):
            if not isinstance(o, Decimal) or not o.is_finite():
                return False
            t = o.as_tuple()
            o = SymDecimal(bool(t.sign), [48 + x for x in t.digits], t.exponent)
        if a.neg != o.neg or a.exp != o.exp or len(a.digits) != len(o.digits):
            return False
        return zand(ch_eq(x, y) for x, y in zip(a.digits, o.digits))

    def __eq__(self, o):
        if isinstance(o, SymDecimal):
            m = min(self.exp, o.exp)
            az = self._num() * 10 ** (self.exp - m)
            bz = o._num() * 10 ** (o.exp - m)
            r = Decimal.__eq__(self, o)
            if isinstance(az == bz, bool):
                return az == bz
            return SymBool(az == bz, r)
        if isinstance(o, (int, Decimal)) and not core.is_sym(o):
            return self._ord(o, lambda x, y: x == y)
        return Decimal.__eq__(self, o)

    def _ord(self, o, f):
        """comparison of the values with a finite number"""
        if isinstance(o, SymInt):
            oz, os_, oe = o.z, Decimal(int.__int__(o)), 0
        elif isinstance(o, SymDecimal):
            oz, os_, oe = o._num(), Decimal(o), o.exp
        elif isinstance(o, int) or (isinstance(o, Decimal) and o.is_finite()):
            t = Decimal(o).as_tuple()
            os_, oe = Decimal(o), t.exponent
            oz = int("".join(map(str, t.digits))) * (-1 if t.sign else 1)
        else:
            return f(self.conc("Decimal comparison"), o)
        m = min(self.exp, oe)
        r = f(self._num() * 10 ** (self.exp - m), oz * 10 ** (oe - m))
        if isinstance(r, bool):
            return r
        return SymBool(r, f(Decimal(str(int("".join(chr(c) if type(c) is int else chr(c.s) for c in self.digits)))).scaleb(self.exp) * (-1 if self.neg else 1), os_))

    def __ne__(self, o):
        return znot(self.__eq__(o))

    def __hash__(self):
        return Decimal.__hash__(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __lt__(self, o):
        return self._ord(o, lambda x, y: x < y)

    def __gt__(self, o):
        return self._ord(o, lambda x, y: x > y)

    def __le__(self, o):
        return self._ord(o, lambda x, y: x <= y)

    def __ge__(self, o):
        return self._ord(o, lambda x, y: x >= y)


def strip_zeros(digits):
    d = list(digits)
    while len(d) > 1 and bool(ch_eq(d[0], 48)):
        d.pop(0)
    return d or [48]


def mkdecimal(neg, digits, exp):
    if all(type(c) is int for c in digits):
        return Decimal(("-" if neg else "") + "".join(map(chr, digits)) + "E" + str(exp))
    return SymDecimal(neg, digits, exp)


def scan_number(s):
    """[sign] digits [. digits] [E [sign] digits] over a symbolic string with concrete layout -> (neg, int, frac, exptext)
    or None when the layout is not of that shape on this path."""
    c = list(s.c)
    i, n = 0, len(c)
    neg = False
    if i < n and bool(ch_eq(c[i], 45)):
        neg = True
        i += 1
    elif i < n and bool(ch_eq(c[i], 43)):
        i += 1

    def digits(i):
        st = i
        while i < n and bool(ranges_cond(c[i], [(48, 57)])):
            i += 1
        return c[st:i], i

    ip, i = digits(i)
    fp = None
    if i < n and bool(ch_eq(c[i], 46)):
        fp, i = digits(i + 1)
    if not ip and not fp:
        return None
    ex = None
    if i < n and bool(ranges_cond(c[i], [(69, 69), (101, 101)])):
        st = i + 1
        i += 1
        if i < n and bool(ranges_cond(c[i], [(43, 43), (45, 45)])):
            i += 1
        ed, i = digits(i)
        if not ed:
            return None
        ex = c[st:i]
    if i != n:
        return None
    return neg, ip, fp, ex


def sym_decimal(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymDecimal):
            return x
        if type(x) is SymInt:
            neg = bool(x < 0)
            t = core.int_to_str(x)
            cs = core._cps(t)
            return mkdecimal(neg, cs[1:] if neg else cs, 0)
        if type(x) is SymStr:
            r = scan_number(x)
            if r is not None:
                neg, ip, fp, ex = r
                e = 0
                if ex is not None:
                    e = int(conc_str(mkstr(ex), "exponent"))
                return mkdecimal(neg, strip_zeros(ip + (fp or [])), e - len(fp or []))
            return Decimal(conc_str(x, "Decimal(text)"))
        return Decimal(x)
    return Decimal(*[core.conc_any(x, "Decimal") for x in a], **k)


class SymFloat(SymBase, float):
    """float parsed from symbolic text, kept as its text: only equality of the denoted real number is modelled, for
    texts short enough that distinct decimals with at most 15 significant digits denote distinct doubles."""

    concrete_type = float

    def __new__(cls, neg, digits, exp):
        t = ("-" if neg else "") + "".join(chr(c) if type(c) is int else chr(c.s) for c in digits) + "E" + str(exp)
        o = float.__new__(cls, t)
        o.neg, o.digits, o.exp = neg, list(digits), exp
        return o

    def conc(self, why):
        for c in self.digits:
            if type(c) is not int:
                ENG.pin(c.z, c.s, why)
        return float(("-" if self.neg else "") + "".join(chr(c) if type(c) is int else chr(c.s) for c in self.digits) + "E" + str(self.exp))

    def __neg__(self):
        return SymFloat(not self.neg, self.digits, self.exp)

    def __pos__(self):
        return self

    def __repr__(self):
        # shortest repr: strip trailing zeros of the coefficient, then Python's 'r' format (exact up to 15 digits)
        d, e = list(self.digits), self.exp
        while len(d) > 1 and bool(ch_eq(d[-1], 48)):
            d.pop()
            e += 1
        sign = [45] if self.neg else []
        if len(d) == 1 and bool(ch_eq(d[0], 48)):
            return mkstr(sign + [48, 46, 48])
        pt = len(d) + e  # position of the decimal point
        if -4 < pt <= 16:
            if pt <= 0:
                return mkstr(sign + [48, 46] + [48] * (-pt) + d)
            if pt >= len(d):
                return mkstr(sign + d + [48] * (pt - len(d)) + [46, 48])
            return mkstr(sign + d[:pt] + [46] + d[pt:])
        x = pt - 1
        body = [d[0]] + ([46] + d[1:] if len(d) > 1 else [])
        return mkstr(sign + body + [ord(ch) for ch in "e%s%02d" % ("-" if x < 0 else "+", abs(x))])

    __str__ = __repr__

    def __format__(self, spec):
        if spec == "":
            return self.__repr__()
        return format(self.conc("float format"), spec)

    def same(self, o):
        """the same double, with the sign of zero"""
        if isinstance(o, SymFloat):
            if self.neg == o.neg:
                return self.value_eq(o)
            return False  # (zeros of different sign are different, and so is everything else)
        if isinstance(o, float):
            x = self.conc("float ==")
            return x == o and math.copysign(1, x) == math.copysign(1, o)
        return False

    def value_eq(self, o):
        return SymDecimal(self.neg, self.digits, self.exp) == SymDecimal(o.neg, o.digits, o.exp)

    def _arith(self, o, name, swap):
        """0 and 1 are what code that only wants to set a sign computes with; anything else is computed concretely"""
        if not core.is_sym(o) and isinstance(o, (int, float)) and not isinstance(o, bool):
            zero = o == 0 and math.copysign(1, o) > 0
            if name == "add" and zero:
                return 0.0 if self.is_zero() else self
            if name == "sub" and zero:
                if not swap:
                    return self
                return 0.0 if self.is_zero() else -self
            if name == "mul" and o in (1, -1) or name == "truediv" and not swap and o in (1, -1):
                return self if o == 1 else -self
        x = self.conc("float arithmetic")
        y = core.conc_any(o, "float arithmetic") if core.is_sym(o) else o
        f = getattr(operator, name)
        return f(y, x) if swap else f(x, y)

    def __add__(self, o):
        return self._arith(o, "add", False)

    def __radd__(self, o):
        return self._arith(o, "add", True)

    def __sub__(self, o):
        return self._arith(o, "sub", False)

    def __rsub__(self, o):
        return self._arith(o, "sub", True)

    def __mul__(self, o):
        return self._arith(o, "mul", False)

    def __rmul__(self, o):
        return self._arith(o, "mul", True)

    def __truediv__(self, o):
        return self._arith(o, "truediv", False)

    def __rtruediv__(self, o):
        return self._arith(o, "truediv", True)

    def __abs__(self):
        return SymFloat(False, self.digits, self.exp)

    def __eq__(self, o):
        if isinstance(o, SymFloat):
            return self.value_eq(o)
        if isinstance(o, (int, float)) and not core.is_sym(o) and o == 0:
            return self.is_zero()
        return float.__eq__(self.conc("float =="), o)

    def is_zero(self):
        return bool(zand(ch_eq(c, 48) for c in self.digits))

    def _cmp0(self, o, zero, neg, pos, f):
        if isinstance(o, (int, float)) and not core.is_sym(o) and o == 0:
            return zero if self.is_zero() else (neg if self.neg else pos)
        return f(self.conc("float comparison"), o.conc("float comparison") if isinstance(o, SymFloat) else o)

    def __lt__(self, o):
        return self._cmp0(o, False, True, False, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp0(o, True, True, False, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp0(o, False, False, True, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp0(o, True, False, True, lambda x, y: x >= y)

    def __bool__(self):
        return not self.is_zero()

    def __ne__(self, o):
        return znot(self.__eq__(o))

    def __hash__(self):
        return float.__hash__(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def sym_float(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymFloat):
            return x
        if type(x) is SymStr:
            r = scan_number(x)
            if r is not None:
                neg, ip, fp, ex = r
                e = 0
                if ex is not None:
                    e = int(conc_str(mkstr(ex), "exponent"))
                d = strip_zeros(ip + (fp or []))
                e -= len(fp or [])
                if len(d) <= 15 and -280 < e < 280:
                    if all(type(c) is int for c in d):
                        return float(("-" if neg else "") + "".join(map(chr, d)) + "E" + str(e))
                    return SymFloat(neg, d, e)
            return float(conc_str(x, "float(text)"))
        if core.is_sym(x):
            return float(core.conc_any(x, "float"))
    return float(*a)


def _close(cls, base):
    """Whatever isn't modelled is computed with the concrete value, and the path is pinned to it."""
    own = set()
    for k in cls.__mro__:
        if k in (base, object):
            break
        own |= set(vars(k))
    for name in dir(base):
        attr = getattr(base, name)
        if name in own or name in dir(object) or name in ("imag", "from_float", "fromhex", "radix") or not callable(attr):
            continue
        if name.startswith("__get"):
            continue

        def method(self, *a, _attr=attr, _name=name, **k):
            a = [core.conc_any(x, _name) if core.is_sym(x) else x for x in a]
            return _attr(self.conc(base.__name__ + "." + _name), *a, **k)

        method.__name__ = name
        setattr(cls, name, method)


_close(SymDecimal, Decimal)
_close(SymFloat, float)
