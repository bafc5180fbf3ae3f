"""What harnesses are written against.  The same harness runs symbolically (SymCtx) and, for replaying a counterexample
on the unmodified code, concretely (ConcreteCtx)."""
from . import core
from .core import MAXCP, SUR_HI, SUR_LO, PathAbort, SymBool, SymInt, SymStr, zand, zimplies, znot, zor  # noqa


class Failure(Exception):
    pass


class BaseCtx:
    symbolic = False

    def __init__(self, tier="quick", params=None):
        self.tier = tier
        self.params = params or {}
        self._n = {}
        self.failures = []

    def _name(self, label):
        k = self._n.get(label, 0)
        self._n[label] = k + 1
        return "%s#%d" % (label, k)

    def pick(self, label, options):
        options = list(options)
        return options[self.choose(label, len(options))]

    def flag(self, label):
        return bool(self.choose(label, 2))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def name(self, label, lo=97, hi=122, n=1):
        """An identifier-like leaf: n symbolic letters."""
        return self.str(label, n, [(lo, hi)])


class SymCtx(BaseCtx):
    symbolic = True

    def choose(self, label, n):
        return core.ENG.choose(self._name(label), n)

    def int(self, label, lo, hi, default=None):
        if lo == hi:
            return lo
        v, s = core.ENG.new_int(self._name(label), lo, hi, default)
        return SymInt(v, s)

    def char(self, label, ranges=None):
        if ranges is None:
            ranges = [(0, SUR_LO - 1), (SUR_HI + 1, MAXCP)]
        lo, hi = ranges[0][0], ranges[-1][1]
        d = 97 if any(a <= 97 <= b for a, b in ranges) else lo
        v, s = core.ENG.new_int(self._name(label), lo, hi, d)
        if len(ranges) > 1:
            core.ENG.rng.pop(v.get_id(), None)
            c = core.ranges_cond(core.Ch(v, s), ranges)
            core.ENG.domain.append(c.z)
            core.ENG.rng[v.get_id()] = list(ranges)
            if not c.s:
                raise PathAbort()
        return core.Ch(v, s)

    def str(self, label, n, ranges=None):
        return core.mkstr([self.char("%s.%d" % (label, i), ranges) for i in range(n)])

    def assume(self, cond):
        if isinstance(cond, SymBool):
            core.ENG.assume(cond.z, cond.s)
        elif not cond:
            raise PathAbort()

    def check(self, cond, label, detail=None):
        core.ENG.obligations.append((cond, label, detail))
        core.ENG.reached.add(label)

    def reach(self, label):
        core.ENG.reached.add("reach:" + label)

    def sample(self, x):
        core.ENG.notes["sample"] = x


class ConcreteCtx(BaseCtx):
    def __init__(self, assignment, tier="quick", params=None):
        super().__init__(tier, params)
        self.a = assignment

    def choose(self, label, n):
        if n <= 1:
            return 0
        nm = self._name(label)
        return self.a.get(nm, 0)

    def int(self, label, lo, hi, default=None):
        if lo == hi:
            return lo
        nm = self._name(label)
        v = self.a.get(nm)
        if v is None:
            v = lo if default is None else default
        return v

    def str(self, label, n, ranges=None):
        out = []
        for i in range(n):
            nm = self._name("%s.%d" % (label, i))
            v = self.a.get(nm)
            if v is None:
                v = 97 if ranges is None or any(a <= 97 <= b for a, b in ranges) else ranges[0][0]
            out.append(chr(v))
        return "".join(out)

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, label, detail=None):
        if not cond:
            self.failures.append((label, detail() if callable(detail) else detail))

    def reach(self, label):
        pass

    def sample(self, x):
        pass


class Harness:
    def __init__(self, name, fn, bounds, params=None, thorough=None, outside=""):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.params = params or {}
        self.thorough_params = dict(self.params, **(thorough or {}))
        self.outside = outside


def stale(e):
    """True if a harness asked for a helper that the code no longer has under that name (not a defect of the code)."""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    where = tb.tb_frame.f_code.co_filename if tb is not None else ""
    if "/props/" not in where:
        return False
    return isinstance(e, ImportError) or isinstance(e, AttributeError) and str(e).startswith("module 'treeno")
