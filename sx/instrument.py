"""Load the code under test from the repository's current source with its operations routed through the symbolic models.

Every `treeno` module except the ANTLR-generated ones is parsed from /repo on each run, its AST is rewritten (f-strings,
calls, membership tests, subscripts, `%`, displays with computed keys) and compiled.  The rewriting does not encode
anything about the code: with concrete operands each rewritten operation is the original one.
"""
import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import io
import operator
import os
import re
import sys
import types
from decimal import Decimal

from . import core, rx
from .core import (
    ENG,
    SymBase,
    SymBool,
    SymInt,
    SymStr,
    conc_any,
    conc_int,
    conc_str,
    is_sym,
    sx_format,
    sx_fstr,
    sx_join,
    sx_mod,
    to_str,
)

REPO = os.environ.get("TREENO_REPO", "/repo")
FUNCS = {}  # functions defined in instrumented code -> first line
ENTERED = set()

BuiltinFn = type(len)
MethodDesc = type(str.join)
WrapDesc = type(str.__add__)
MethodWrap = type("".__add__)


# ------------------------------------------------------------------------ call handlers
def _hashsafe(keys):
    """Decide (by forking) all equalities between symbolic keys and the others, so that hashing by shadow is exact."""
    keys = list(keys)
    syms = [k for k in keys if _symkey(k)]
    for s in syms:
        for k in keys:
            if k is not s and type(k) is not type(None):
                _keyeq(s, k)
    return keys


def _symkey(k):
    return type(k) in (SymStr, SymInt) or (type(k) is tuple and any(_symkey(x) for x in k))


def _keyeq(a, b):
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all([_keyeq(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) and isinstance(b, str):
        return bool(a == b)
    if isinstance(a, int) and isinstance(b, int):
        return bool(a == b)
    return False


def _lookup(container, key):
    """Make a hash lookup of `key` in `container` exact on this path."""
    try:
        ks = list(container)
    except TypeError:
        return
    if _symkey(key):
        for k in ks:
            _keyeq(key, k)
    else:
        for k in ks:
            if _symkey(k):
                _keyeq(k, key)


def h_str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    return str(*[conc_any(x, "str(bytes)") for x in a], **k)


def h_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymStr:
            return core.str_to_int(x)
        if t is SymBool:
            return int(bool(x))
        if isinstance(x, SymBase):
            return x.__int__()
        return int(x)
    if set(k) == {"base"} and len(a) == 1:
        a, k = (a[0], k["base"]), {}
    if len(a) == 2 and not k and a[1] == 10:
        return h_int(a[0])
    if len(a) == 2 and not k and type(a[0]) is SymStr and a[1] == 16:
        r = core.hex_to_int(a[0])
        if r is not None:
            return r
    return int(*[conc_any(x, "int(x, base)") for x in a], **k)


def h_float(*a):
    from .numeric import sym_float

    return sym_float(*a)


def h_decimal(*a, **k):
    from .numeric import sym_decimal

    return sym_decimal(*a, **k)


def h_bool(*a):
    return bool(*a)


def h_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymStr:
            return str
        if t is SymInt:
            return int
        if t is SymBool:
            return bool
        if isinstance(a[0], SymBase):
            return a[0].concrete_type
        return t
    return type(*a)


def h_repr(x):
    return core.sym_repr(x)


def h_set(*a):
    if a:
        return set(_hashsafe(a[0]))
    return set()


def h_frozenset(*a):
    if a:
        return frozenset(_hashsafe(a[0]))
    return frozenset()


def h_dict(*a, **k):
    if a:
        x = a[0]
        if hasattr(x, "keys"):
            return dict(x, **k)
        x = list(x)
        x = [tuple(p) for p in x]
        _hashsafe([p[0] for p in x])
        return dict(x, **k)
    return dict(**k)


def h_isinstance(x, c):
    if type(x) is SymBool:
        return isinstance(True, c)
    return isinstance(x, c)


def h_hash(x):
    return hash(conc_any(x, "hash"))


def h_ord(c):
    if type(c) is SymStr:
        if len(c.c) != 1:
            return ord(str.__str__(c))
        ch = c.c[0]
        return ch if type(ch) is int else core.mkint(ch.z, ch.s)
    return ord(c)


def h_chr(n):
    if type(n) is SymInt:
        if not bool(core.zand([n >= 0, n <= core.MAXCP])):
            raise ValueError("chr() arg not in range(0x110000)")
        return core.mkstr([core.Ch(n.z, n.s)])
    return chr(n)


def h_len(x):
    return len(x)


def h_format(x, spec=""):
    if isinstance(x, SymBase) or type(x) in (SymStr, SymInt):
        return x.__format__(spec)
    return format(x, spec)


def h_print(*a, **k):
    return print(*a, **k)


def h_map(f, *its):
    return (sx_call(f, *xs) for xs in zip(*its))


def h_filter(f, it):
    return (x for x in it if (x if f is None else sx_call(f, x)))


def h_max(*a, **k):
    return max(*a, **k)


PASS = {
    builtins.len,
    builtins.getattr,
    builtins.setattr,
    builtins.hasattr,
    builtins.issubclass,
    builtins.iter,
    builtins.next,
    builtins.zip,
    builtins.enumerate,
    builtins.reversed,
    builtins.list,
    builtins.tuple,
    builtins.sorted,
    builtins.min,
    builtins.max,
    builtins.sum,
    builtins.any,
    builtins.all,
    builtins.abs,
    builtins.divmod,
    builtins.callable,
    builtins.id,
    builtins.print,
    builtins.vars,
    builtins.dir,
    builtins.object,
    builtins.property,
    builtins.staticmethod,
    builtins.classmethod,
    builtins.bool,
    builtins.slice,
    builtins.super,
}

HANDLERS = {
    str: h_str,
    int: h_int,
    float: h_float,
    Decimal: h_decimal,
    type: h_type,
    repr: h_repr,
    format: h_format,
    set: h_set,
    frozenset: h_frozenset,
    dict: h_dict,
    isinstance: h_isinstance,
    hash: h_hash,
    ord: h_ord,
    chr: h_chr,
    map: h_map,
    filter: h_filter,
}


def _sym_io(*a, **k):
    return SymIO(*a, **k)


HANDLERS[io.StringIO] = _sym_io

LIST_SAFE = {"append", "extend", "insert", "pop", "reverse", "clear", "copy", "sort", "popleft", "appendleft", "remove", "index", "count"}
DICT_KEYED = {"get", "pop", "setdefault", "__getitem__", "__setitem__", "__contains__", "__delitem__"}
SET_KEYED = {"add", "discard", "remove", "__contains__"}


def _any_sym(a, k):
    for x in a:
        if is_sym(x):
            return True
        if type(x) in (list, tuple) and any(is_sym(y) for y in x):
            return True
    for x in k.values():
        if is_sym(x):
            return True
    return False


def _conc_deep(x, why):
    if type(x) is list:
        return [_conc_deep(y, why) for y in x]
    if type(x) is tuple:
        return tuple(_conc_deep(y, why) for y in x)
    return conc_any(x, why)


def str_method(self, name, a, k):
    """Method `name` of str on (possibly symbolic) self and arguments."""
    if type(self) is SymStr:
        return getattr(self, name)(*a, **k)
    if name == "join":
        return sx_join(self, *a)
    if name == "format":
        return sx_format(self, a, k)
    if name == "format_map":
        return sx_format(self, (), a[0])
    if _any_sym(a, k):
        if hasattr(SymStr, name) and name in SymStr.__dict__:
            f = SymStr.__dict__[name]
            o = SymStr([ord(c) for c in self])
            r = f(o, *a, **k)
            return r
        a = tuple(_conc_deep(x, "str." + name) for x in a)
        k = {i: _conc_deep(x, "str." + name) for i, x in k.items()}
    return getattr(str, name)(self, *a, **k)


LRU = type(functools.lru_cache(lambda: None))


def memoised(f, a, k):
    """A function behind functools.cache: one store per path, keys compared by decided equality."""
    if core.ENG is None:
        return f(*a, **k)
    store = core.ENG.notes.setdefault("_lru", {}).setdefault(id(f), [])
    names = sorted(k)
    key = (a, tuple(names), tuple(k[n] for n in names))
    hash(key)  # (unhashable arguments are refused)
    for old, value in store:
        if len(old[0]) == len(a) and old[1] == key[1] and all(_samekey(x, y) for x, y in zip(old[0] + old[2], a + key[2])):
            return value
    value = f.__wrapped__(*a, **k)
    store.append((key, value))
    return value


def _samekey(x, y):
    if x is y:
        return True
    if is_sym(x) or is_sym(y):
        return _keyeq(x, y) if _symkey(x) or _symkey(y) else bool(x == y)
    return hash(x) == hash(y) and bool(x == y)


def h_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = sx_call(f, acc, x)
    return acc


_OPERATOR = {getattr(operator, n): n for n in ("or_", "and_", "xor", "sub", "ior", "iand", "ixor", "isub")}
_OPERATOR_CMP = {getattr(operator, n): n for n in ("eq", "ne", "lt", "le", "gt", "ge")}


def h_operator(f, a):
    if f is operator.contains:
        return sx_in(a[1], a[0])
    if f is operator.getitem:
        return sx_getitem(*a)
    if f is operator.mod:
        return sx_percent(*a)
    if f in _OPERATOR or f in _OPERATOR_CMP:
        _cross(*a)
        return f(*a)
    if f in (operator.countOf, operator.indexOf):
        return f(list(a[0]), a[1])
    return f(*a)


def regex(model, what, name, a, k, f):
    """a function or method of the re module"""
    syms = _any_sym(a, k)
    if not syms and not any(callable(x) for x in list(a[:2]) + list(k.values())):
        return f(*a, **k)
    try:
        if name is None:
            return model(what, a, k, sx_call)
        return model(what, name, a, k, sx_call)
    except rx.Unmodelled as e:
        if not syms:
            return f(*a, **k)
        why = "regular expression " + str(e)
        return f(*tuple(_conc_deep(x, why) for x in a), **{i: _conc_deep(x, why) for i, x in k.items()})


class SymIO:
    """io.StringIO over symbolic strings (append only, as long as nobody seeks)"""

    def __init__(self, initial="", newline="\n"):
        self.parts = []
        self.start = initial or ""
        self.closed = False

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected, got %r" % type(s).__name__)
        self.parts.append(s)
        return len(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def getvalue(self):
        text = core.sx_join("", self.parts)
        return text + self.start[len(text) :] if len(self.start) else text

    def tell(self):
        return sum(map(len, self.parts))

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


def sx_call(f, *a, **k):
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        fn = f if tf is types.FunctionType else f.__func__
        mod = getattr(fn, "__module__", None) or ""
        if mod.startswith("treeno") or "__sx_i__" in getattr(fn, "__globals__", ()):
            return f(*a, **k)
        if mod == "re" and fn is getattr(re, fn.__name__, None):
            return regex(rx.function, fn.__name__, None, a, k, f)
        if _any_sym(a, k):
            return lib_call(f, fn, mod, a, k)
        return f(*a, **k)
    if tf is functools.partial:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if tf is operator.methodcaller:
        _, margs = f.__reduce__()[:2]
        if isinstance(f.__reduce__()[0], functools.partial):  # (keyword arguments)
            part = f.__reduce__()[0]
            return sx_call(getattr(a[0], part.args[0]), *margs, **part.keywords)
        return sx_call(getattr(a[0], margs[0]), *margs[1:])
    if tf is operator.itemgetter:
        keys = f.__reduce__()[1]
        got = tuple(sx_getitem(a[0], key) for key in keys)
        return got if len(keys) > 1 else got[0]
    if tf is LRU:
        return memoised(f, a, k)
    if tf is BuiltinFn:  # builtin functions and bound builtin methods
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            h = HANDLERS.get(f)
            if h is not None:
                return h(*a, **k)
            if f in PASS:
                return f(*a, **k)
            if f is functools.reduce:
                return h_reduce(*a)
            if getattr(s, "__name__", "") == "_operator":
                return h_operator(f, a)
            if _any_sym(a, k):
                why = "builtin " + f.__name__
                a = tuple(_conc_deep(x, why) for x in a)
                k = {i: _conc_deep(x, why) for i, x in k.items()}
            return f(*a, **k)
        n = f.__name__
        if isinstance(s, str):
            return str_method(s, n, a, k)
        if type(s) is rx.PATTERN:
            return regex(rx.method, s, n, a, k, f)
        if isinstance(s, dict):
            if n in DICT_KEYED and a:
                _lookup(s, a[0])
            elif n == "update" and a:
                for kk in list(a[0]) if hasattr(a[0], "keys") else [p[0] for p in a[0]]:
                    _lookup(s, kk)
            elif n == "fromkeys" and a:
                ks = list(a[0])
                _hashsafe(ks)
                return f(ks, *a[1:], **k)
            return f(*a, **k)
        if isinstance(s, (set, frozenset)):
            if n in SET_KEYED and a:
                _lookup(s, a[0])
            elif a:
                a = tuple(list(x) if not isinstance(x, (set, frozenset)) else x for x in a)
                for x in a:
                    for y in x:
                        _lookup(s, y)
            return f(*a, **k)
        if isinstance(s, type) and s is dict and n == "fromkeys":
            ks = list(a[0])
            _hashsafe(ks)
            return f(ks, *a[1:], **k)
        if isinstance(s, (list,)) or n in LIST_SAFE:
            if n in ("pop", "insert") and a and type(a[0]) is SymInt:
                a = (conc_int(a[0], "list index"),) + a[1:]
            return f(*a, **k)
        if _any_sym(a, k):
            why = "%s.%s" % (type(s).__name__, n)
            a = tuple(_conc_deep(x, why) for x in a)
            k = {i: _conc_deep(x, why) for i, x in k.items()}
        return f(*a, **k)
    if isinstance(f, type):
        h = HANDLERS.get(f)
        if h is not None:
            return h(*a, **k)
        if f in (range, bytes, bytearray, complex) and _any_sym(a, k):
            return f(*[_conc_deep(x, f.__name__) for x in a])
        if issubclass(f, tuple(_C_CONC)) and _any_sym(a, k):
            return f(*[_conc_deep(x, f.__name__) for x in a], **{i: _conc_deep(x, f.__name__) for i, x in k.items()})
        if hasattr(f, "__members__") and a and is_sym(a[0]) and len(a) == 1:
            # enum by value: decide against every member value
            for m in f:
                if isinstance(m.value, str) == isinstance(a[0], str) and bool(m.value == a[0]):
                    return m
            return f(conc_any(a[0], "enum value"))
        return f(*a, **k)
    if tf is MethodDesc:
        if f.__objclass__ is str and a:
            return str_method(a[0], f.__name__, a[1:], k)
        return f(*a, **k)
    if tf is MethodWrap or tf is WrapDesc:
        return f(*a, **k)
    return f(*a, **k)


import datetime as _dt
import fractions as _fr

_C_CONC = [_dt.date, _dt.time, _dt.timedelta, _dt.tzinfo, _fr.Fraction]

LIB_PASS_MODULES = ("attr", "antlr4", "copy", "functools", "typing", "abc", "enum", "collections", "contextlib", "overrides", "itertools", "dataclasses", "types")


def lib_call(f, fn, mod, a, k):
    """A Python library function called with symbolic arguments: containers and attrs are transparent, anything else
    gets concrete values (recorded as a pin)."""
    root = mod.split(".")[0]
    if root in LIB_PASS_MODULES or root in ("sx", "props", ""):
        return f(*a, **k)
    why = "library %s.%s" % (mod, getattr(fn, "__name__", "?"))
    a = tuple(_conc_deep(x, why) for x in a)
    k = {i: _conc_deep(x, why) for i, x in k.items()}
    return f(*a, **k)


def sx_in(x, c):
    if type(c) is dict or isinstance(c, (dict, set, frozenset)):
        _lookup(c, x)
        return x in c
    if isinstance(c, str) and type(c) is not SymStr and type(x) is SymStr:
        return core.SymStr.__contains__(SymStr([ord(ch) for ch in c]), x) if c else x == ""
    if type(c).__name__ in ("dict_keys",):
        _lookup(c, x)
        return x in c
    if type(c) is range and type(x) is SymInt:
        if c.step < 0:
            c = c[::-1]
        inside = core.zand([x >= c.start, x < c.stop])
        return bool(core.zand([inside, (x - c.start) % c.step == 0]) if c.step > 1 else inside)
    return x in c


def sx_notin(x, c):
    return not sx_in(x, c)


def sx_getitem(o, k):
    if isinstance(o, dict):
        _lookup(o, k)
        return o[k]
    if type(k) is SymInt:
        k = conc_int(k, "index")
    elif type(k) is slice and (type(k.start) is SymInt or type(k.stop) is SymInt):
        k = slice(conc_int(k.start, "slice"), conc_int(k.stop, "slice"), k.step)
    elif isinstance(o, type) and hasattr(o, "__members__") and type(k) is SymStr:
        for n in o.__members__:
            if bool(k == n):
                return o[n]
        raise KeyError(conc_str(k, "enum name"))
    return o[k]


def sx_setitem(o, k, v):
    if isinstance(o, dict):
        _lookup(o, k)
    elif type(k) is SymInt:
        k = conc_int(k, "index")
    o[k] = v


def sx_mkdict(pairs):
    pairs = list(pairs)
    _hashsafe([p[0] for p in pairs])
    return dict(pairs)


def sx_mkset(it):
    return set(_hashsafe(it))


def _cross(a, b):
    """Decide all equalities between the elements of two sets (or dicts), so that combining them by hash is exact."""
    if isinstance(a, (set, frozenset, dict)) and isinstance(b, (set, frozenset, dict)):
        for x in list(b):
            _lookup(a, x)


_BINOPS = {"BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor, "Sub": operator.sub}
_IBINOPS = {"BitOr": operator.ior, "BitAnd": operator.iand, "BitXor": operator.ixor, "Sub": operator.isub}
_CMPS = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}


def sx_binop(op, a, b):
    _cross(a, b)
    return _BINOPS[op](a, b)


def sx_ibinop(op, a, b):
    _cross(a, b)
    return _IBINOPS[op](a, b)


def sx_cmp(op, a, b):
    if isinstance(a, (set, frozenset, dict, _KEYS)) and isinstance(b, (set, frozenset, dict, _KEYS)):
        for x in list(b):
            _lookup(a, x)
    return _CMPS[op](a, b)


_KEYS = type({}.keys())


def sx_percent(a, b):
    if isinstance(a, str):
        return sx_mod(a, b)
    return a % b


def sx_strfn(name):
    f = getattr(str, name)
    if name.startswith("__") or name == "maketrans":
        return f

    def wrapper(s, *a, **k):
        return str_method(s, name, a, k)

    wrapper.__name__ = name
    return wrapper


def sx_class(x):
    return h_type(x) if is_sym(x) else x.__class__


def sx_enter(name):
    ENTERED.add(name)


RUNTIME = {
    "__sx_call__": sx_call,
    "__sx_fstr__": sx_fstr,
    "__sx_in__": sx_in,
    "__sx_notin__": sx_notin,
    "__sx_getitem__": sx_getitem,
    "__sx_mod__": sx_percent,
    "__sx_binop__": sx_binop,
    "__sx_ibinop__": sx_ibinop,
    "__sx_cmp__": sx_cmp,
    "__sx_dict__": sx_mkdict,
    "__sx_set__": sx_mkset,
    "__sx_strfn__": sx_strfn,
    "__sx_enter__": sx_enter,
    "__sx_class__": sx_class,
    "__sx_i__": True,
}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # annotations and decorators are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _fn(self, node):
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        self.stack.append(node.name)
        q = self.mod + ":" + ".".join(self.stack)
        FUNCS[q] = node.lineno
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            i = 1
        node.body.insert(i, ast.Expr(ast.Call(_name("__sx_enter__"), [ast.Constant(q)], [])))
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(chr(v.conversion) if v.conversion and v.conversion > 0 else None)
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        return ast.Call(_name("__sx_fstr__"), parts, [])

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "exec", "eval"):
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        return ast.Call(_name("__sx_call__"), [node.func] + node.args, node.keywords)

    def visit_Attribute(self, node):
        if node.attr == "__class__" and isinstance(node.ctx, ast.Load):
            return ast.Call(_name("__sx_class__"), [self.visit(node.value)], [])
        if isinstance(node.value, ast.Name) and node.value.id == "str" and isinstance(node.ctx, ast.Load):
            return ast.Call(_name("__sx_strfn__"), [ast.Constant(node.attr)], [])
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__"
            return ast.Call(_name(n), [node.left, node.comparators[0]], [])
        if len(node.ops) == 1 and type(node.ops[0]).__name__ in _CMPS:
            return ast.Call(_name("__sx_cmp__"), [ast.Constant(type(node.ops[0]).__name__), node.left, node.comparators[0]], [])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(_name("__sx_getitem__"), [node.value, node.slice if not isinstance(node.slice, ast.Slice) else self._slice(node.slice)], [])
        if isinstance(node.ctx, ast.Store) and not isinstance(node.slice, ast.Slice):
            # evaluate the lookup first: __sx_getkey__(o, k) returns k
            return node
        return node

    def _slice(self, s):
        none = ast.Constant(None)
        return ast.Call(_name("slice"), [s.lower or none, s.upper or none, s.step or none], [])

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            val = self.visit(node.value)
            o = self.visit(t.value)
            k = self.visit(t.slice)
            return ast.Expr(ast.Call(_name("__sx_setitem__"), [o, k, val], []))
        node.value = self.visit(node.value)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(_name("__sx_mod__"), [node.left, node.right], [])
        if type(node.op).__name__ in _BINOPS:
            return ast.Call(_name("__sx_binop__"), [ast.Constant(type(node.op).__name__), node.left, node.right], [])
        return node

    def visit_AugAssign(self, node):
        op = type(node.op).__name__
        if isinstance(node.target, ast.Name) and op in _IBINOPS:
            value = self.visit(node.value)
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.Assign([node.target], ast.Call(_name("__sx_ibinop__"), [ast.Constant(op), load, value], []))
        node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.Call(_name("__sx_set__"), [ast.List(node.elts, ast.Load())], [])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(_name("__sx_set__"), [ast.ListComp(node.elt, node.generators)], [])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.Call(_name("__sx_dict__"), [ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)], [])

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(isinstance(k, (ast.Constant, ast.Name)) and (isinstance(k, ast.Constant)) for k in node.keys):
            return node
        return ast.Call(
            _name("__sx_dict__"),
            [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())],
            [],
        )


RUNTIME["__sx_setitem__"] = sx_setitem
UNINSTRUMENTED = []


def compile_source(path, modname):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    try:
        tree = Rewriter(modname).visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)
    except SyntaxError:
        raise
    except Exception as e:  # a construct the rewriter does not know: this module runs as it is
        UNINSTRUMENTED.append("%s: %s" % (modname, e))
        return compile(src, path, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return compile_source(self.path, fullname)

    def exec_module(self, module):
        module.__dict__.update(RUNTIME)
        code = self.get_code(module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if not (fullname == "treeno" or fullname.startswith("treeno.")):
            return None
        if fullname.startswith("treeno.grammar.gen"):
            return None
        rel = fullname.split(".")
        p = os.path.join(REPO, *rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f), submodule_search_locations=[p])
        f = p + ".py"
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))


def install():
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, Finder())
