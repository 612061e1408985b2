"""Mechanical extraction of the verified text.

The source of the code under verification is read from /repo on every run,
parsed, and re-compiled with a *syntactic* instrumentation that keeps every
statement and expression but routes the operations CPython would perform in C
(f-strings, `is`, `in`, calls, subscripts, `%`) through hooks that behave as
the originals on concrete operands and symbolically on symbolic ones.

Dropped by the extraction: docstrings, `if TYPE_CHECKING` bodies (as at run
time) and nothing else.
"""
from __future__ import annotations
import ast, builtins, enum, math, os, string, sys, types
from . import sym, models, symstr, cal
from .state import SymCache, SymDict
from .sym import (SymInt, SymBool, SymFloat, Unsupported, sb_and, sb_or, sb_not, ite, parts,
                  is_sym, sym_int_of, smin, smax)
from .symstr import SymStr, SymRegex, Token, norm, elems_of, raw_of, opaque, format_int, format_float, \
    parse_int, parse_float, to_str

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "pysrc", "whenever")
TOUCHED = set()   # qualified names of executed functions of the code under verification


# ---- shadows -----------------------------------------------------------------
class Shadow:
    """A builtin type whose values may be symbolic."""

    def __init__(self, real, sym_types, conv):
        self.real, self.sym_types, self.conv = real, sym_types, conv
        self.__name__ = real.__name__
        self.__qualname__ = real.__qualname__

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __getattr__(self, n):
        real = self.__dict__.get("real")
        if real is str and n in ("join", "isascii", "startswith", "endswith", "rstrip", "lstrip",
                                 "strip", "isdigit", "replace", "ljust", "rjust", "zfill", "split",
                                 "lower", "upper", "partition"):
            return lambda s, *a: call(getattr(s, n), *a)
        return getattr(real, n)

    def __or__(self, o):
        return types.UnionType if False else self

    __ror__ = __or__

    def __mro_entries__(self, bases):
        return (self.real,)

    def __instancecheck__(self, x):
        return isinstance_(x, self)

    def __class_getitem__(cls, k):
        return cls

    def __getitem__(self, k):
        return self

    def __hash__(self):
        return hash(self.real)

    def __eq__(self, o):
        return self is o or o is self.real

    def __repr__(self):
        return repr(self.real)


def c_int(x=0, *base):
    if base or is_native(x):
        return int(x, *base)
    if isinstance(x, SymStr):
        return parse_int(x)
    if isinstance(x, (SymInt, SymBool, SymFloat)):
        return sym_int_of(x)
    f = getattr(type(x), "__int__", None) or getattr(type(x), "__index__", None)
    if f is None:
        raise TypeError("int() argument must be a string or a number")
    return f(x)


def c_float(x=0.0):
    if is_native(x):
        return float(x)
    if isinstance(x, SymStr):
        return parse_float(x)
    if isinstance(x, (SymInt, SymBool, SymFloat)):
        return SymFloat.of(x)
    f = getattr(type(x), "__float__", None)
    if f is None:
        raise TypeError("float() argument must be a string or a number")
    return f(x)


def c_bool(x=False):
    if x.__class__ is SymBool:
        return x
    if x.__class__ is SymInt:
        return sb_not(x == 0)
    if isinstance(x, SymFloat):
        return x != 0
    if isinstance(x, SymStr):
        return x.truthy()
    f = getattr(type(x), "__bool__", None)
    if f is not None and not is_native(x):
        return getattr(f, "_undecided", f)(x)
    return bool(x)


def _deciding(f):
    """__bool__ as Python calls it: a symbolic answer is decided (both ways)."""
    def __bool__(self):
        r = f(self)
        return bool(r) if isinstance(r, SymBool) else r
    __bool__._undecided = f
    return __bool__


def c_str(x="", *a):
    if a:
        return str(x, *a)
    if is_native(x):
        return str(x)
    r = to_str(x)
    if r is not None:
        return r
    return type(x).__str__(x)


SH_INT = Shadow(int, (SymInt, SymBool), c_int)
SH_FLOAT = Shadow(float, (SymFloat,), c_float)
SH_BOOL = Shadow(bool, (SymBool,), c_bool)
SH_STR = Shadow(str, (SymStr,), c_str)
_SHADOW_OF = {int: SH_INT, float: SH_FLOAT, bool: SH_BOOL, str: SH_STR,
              SymInt: SH_INT, SymBool: SH_BOOL, SymFloat: SH_FLOAT, SymStr: SH_STR,
              models.SymBytes: bytes}


def is_native(x):
    return isinstance(x, (int, float, str, bytes, type(None), tuple, list, dict)) and not is_sym(x)


class _TypeShadow:
    __name__ = "type"

    def __call__(self, x, *rest, **k):
        if rest or k:
            return type(x, *rest, **k)
        return _SHADOW_OF.get(type(x), type(x))

    def __mro_entries__(self, bases):
        return (type,)

    def __getitem__(self, k):
        return self

    def __getattr__(self, n):
        return getattr(type, n)

    def __instancecheck__(self, x):
        return isinstance(x, type)


SH_TYPE = _TypeShadow()


def isinstance_(x, t):
    if isinstance(t, tuple):
        return any(isinstance_(x, u) for u in t)
    if isinstance(t, Shadow):
        return isinstance(x, (t.real,) + t.sym_types)
    if t is SH_TYPE:
        return isinstance(x, (type, Shadow))
    if t is bytes:
        return isinstance(x, (bytes, models.SymBytes))
    if isinstance(t, types.UnionType):
        return any(isinstance_(x, u) for u in t.__args__)
    return isinstance(x, t)


def issubclass_(x, t):
    x = x.real if isinstance(x, Shadow) else x
    if isinstance(t, tuple):
        return any(issubclass_(x, u) for u in t)
    t = t.real if isinstance(t, Shadow) else (type if t is SH_TYPE else t)
    return issubclass(x, t)


def abs_(x):
    return x.__abs__() if not is_native(x) else abs(x)


def _minmax(real, pick):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(is_sym(x) for x in xs):
            return real(xs, **k)
        if all(models.isint(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x)
            return r
        return real(xs)
    return f


def len_(x):
    if isinstance(x, SymStr):
        return x.length()
    return len(x)


def round_(x, n=None):
    if is_native(x):
        return round(x, n) if n is not None else round(x)
    if isinstance(x, (SymInt, SymBool)) and n is None:
        return sym_int_of(x)
    if isinstance(x, SymFloat) and n is None and x.err == 0 and isinstance(x.den, int):
        q, r = divmod(x.num * 2 + x.den, x.den * 2)   # floor(v + 1/2)
        tie = (r == 0)
        if bool(tie) and bool(q % 2 != 0):
            return q - 1
        return q
    f = getattr(type(x), "__round__", None)
    if f is None or is_sym(x):
        raise Unsupported("round()")
    return f(x, n) if n is not None else f(x)


def divmod_(a, b):
    return divmod(a, b)


def sum_(xs, start=0):
    for x in xs:
        start = start + x
    return start


class HashVal:
    """hash() of a value with symbolic content, kept as its structure: equal
    structures have equal hashes."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def same(self, o):
        return _struct_eq(self.k, o.k)

    def _op(name):
        def f(self, o):
            return HashVal((name, self.k, o.k if isinstance(o, HashVal) else ("int", o)))
        return f
    __xor__ = _op("xor")
    __add__ = _op("add")
    __mul__ = _op("mul")
    __rxor__ = _op("rxor")
    __radd__ = _op("radd")
    __rmul__ = _op("rmul")
    __sub__ = _op("sub")
    __mod__ = _op("mod")
    __and__ = _op("and")
    __or__ = _op("or")
    __neg__ = lambda self: HashVal(("neg", self.k))

    def __eq__(self, o):
        raise Unsupported("comparison of hashes in code")

    __hash__ = None


def _struct_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return sb_and(*[_struct_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        return a == b if isinstance(a, SymStr) else b == a
    if models.isint(a) and models.isint(b):
        return a == b
    return a == b if a is not b else True


def hash_key(x):
    if isinstance(x, HashVal):
        return ("int", x.k)
    if isinstance(x, (SymInt, SymBool)) or isinstance(x, int):
        return ("int", sym_int_of(x) if is_sym(x) else int(x))
    if isinstance(x, tuple):
        return ("tuple",) + tuple(hash_key(e) for e in x)
    if isinstance(x, SymFloat):
        raise Unsupported("hash of a symbolic float")
    h = getattr(x, "sym_hash", None)
    if h is not None:
        return h()
    if isinstance(x, SymStr):
        return ("str", x)
    if is_native(x):
        return ("native", hash(x))
    r = type(x).__hash__(x)
    return r.k if isinstance(r, HashVal) else ("native", r)


def hash_(x):
    if type(x).__hash__ is None:
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    return HashVal(hash_key(x))


def repr_(x):
    if is_native(x):
        try:
            return repr(x)
        except Unsupported:
            return opaque("repr")
    if isinstance(x, (SymInt,)):
        return to_str(x)
    return opaque("repr")


def format_(x, spec=""):
    return fmt1(x, None, spec)


def fmt1(v, conv, spec):
    if conv in ("r", "a"):
        return repr_(v)
    if conv == "s":
        v = c_str(v)
    if isinstance(spec, SymStr):
        raise Unsupported("symbolic format spec")
    if isinstance(v, (SymInt, SymBool)):
        if isinstance(v, SymBool) and not spec:
            return "True" if bool(v) else "False"
        if spec.endswith("f"):
            return format_float(SymFloat.of(v), spec)
        return format_int(v, spec)
    if isinstance(v, SymFloat):
        if not spec:
            return opaque("str of a symbolic float")
        return format_float(v, spec)
    if isinstance(v, SymStr):
        if not spec:
            return v
        import re
        m = re.fullmatch(r"(?:(.)?([<>]))?(\d+)?s?", spec)
        if not m:
            raise Unsupported(f"string format {spec!r}")
        f, al, w = m.groups()
        return (v.rjust if al == ">" else v.ljust)(int(w or 0), f or " ")
    if is_native(v):
        return format(v, spec)
    if isinstance(v, enum.Enum) or isinstance(v, (type, BaseException)):
        return format(v, spec)
    if spec:
        f = type(v).__format__
        if f is not object.__format__:
            return f(v, spec)
        raise Unsupported("format of an object")
    f = type(v).__format__
    return f(v, "") if f is not object.__format__ else type(v).__str__(v)


def fstr(*ps):
    """ps: literal str or (value, conversion, spec)."""
    if all(isinstance(p, str) or (is_native(p[0]) and isinstance(p[2], str)) for p in ps):
        return "".join(p if isinstance(p, str) else
                       format({"r": repr, "s": str, "a": ascii}.get(p[1], lambda x: x)(p[0]), p[2])
                       for p in ps)

    def force():
        out = []
        for p in ps:
            out.extend(raw_of(p if isinstance(p, str) else fmt1(*p)))
        return norm(out)
    return SymStr(thunk=force)


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, SymBool):
        if b is True:
            return a
        if b is False:
            return sb_not(a)
        return False
    if isinstance(b, SymBool):
        return is_(b, a)
    if isinstance(a, models.MTimezone) and isinstance(b, models.MTimezone):
        return a.same(b)
    if isinstance(a, Shadow) or isinstance(b, Shadow):
        return a == b
    if (isinstance(a, SymInt) or isinstance(b, SymInt)) and models.isint(a) and models.isint(b):
        raise Unsupported("identity of integers")
    return False


def in_(x, c):
    if type(c) is SymDict:
        return c.__contains__(x)
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(c, str) and isinstance(x, SymStr):
        return SymStr(list(c)).contains(x)
    if isinstance(x, (SymInt, SymStr)) and isinstance(c, (tuple, list, set, frozenset, dict)):
        return sb_or(*[e == x if not is_native(e) or not isinstance(x, SymStr) else x == e
                       for e in c if models.isint(e) == models.isint(x)])
    if isinstance(x, SymInt) and isinstance(c, range):
        r = sb_and(x >= min(c.start, c.stop), x < max(c.start, c.stop)) if c.step == 1 else None
        if r is None:
            raise Unsupported("in range with step")
        return r
    if isinstance(x, SymStr) and hasattr(c, "__contains__") and not is_native(c):
        return c.__contains__(x)
    return x in c


def getitem(o, k):
    if type(o) is SymDict:
        return o[k]
    if isinstance(k, (SymInt, SymBool)):
        k = sym_int_of(k)
        if not isinstance(k, int):
            if isinstance(o, (list, tuple, str)):
                n = len(o)
                for i in range(-n, n):
                    lo, hi = sym.P.interval(*parts(k))
                    if i < lo or i > hi:
                        continue
                    if bool(k == i):
                        return o[i]
                raise IndexError("index out of range")
            if isinstance(o, dict):
                for kk in o:
                    if models.isint(kk) and bool(k == kk):
                        return o[kk]
                raise KeyError(k)
    elif isinstance(k, SymStr) and isinstance(o, dict) and not k.has_token():
        for kk in o:
            if isinstance(kk, (str, SymStr)) and bool(k == kk):
                return o[kk]
        raise KeyError(k)
    return o[k]


def mod(a, b):
    if isinstance(a, str):
        args = list(b) if isinstance(b, tuple) else [b]
        if all(is_native(x) for x in args):
            return a % b
        return printf(a, args)
    if isinstance(a, SymStr):
        raise Unsupported("symbolic format string")
    return a % b


def printf(f, args):
    import re
    out = []
    pos = 0
    i = 0
    for m in re.finditer(r"%([-+0 ]*)(\d+)?([sdri%])", f):
        out.extend(f[pos:m.start()])
        pos = m.end()
        flags, w, kind = m.groups()
        if kind == "%":
            out.append("%")
            continue
        v = args[i]
        i += 1
        if kind in "di":
            if isinstance(v, SymFloat):
                v = v.trunc()
            if flags.strip("0+"):
                raise Unsupported("printf flags")
            out.extend(elems_of(fmt1(v, None, ("+" if "+" in flags else "")
                                     + ("0" if "0" in flags else "") + (w or "") + "d")))
        elif kind == "s":
            s = c_str(v)
            out.extend(elems_of(s.rjust(int(w)) if w else s))
        else:
            out.extend(elems_of(repr_(v)))
    if i != len(args):
        raise TypeError("not all arguments converted during string formatting")
    out.extend(f[pos:])
    return norm(out)


def str_format(f, args, kw):
    auto = 0
    ps = []
    for lit, name, spec, conv in string.Formatter().parse(f):
        if lit:
            ps.append(lit)
        if name is None:
            continue
        if name == "":
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        elif name.isidentifier():
            v = kw[name]
        else:
            raise Unsupported("str.format field")
        ps.append((v, conv, spec))
    return fstr(*ps)


_BM = type("".join)
_MW = type("".__ne__)


def call(f, *a, **k):
    t = type(f)
    if t is _BM or t is _MW:
        s = f.__self__
        if type(s) is str:
            n = f.__name__
            if n == "join":
                xs = list(a[0])
                if any(isinstance(x, SymStr) for x in xs):
                    for x in xs:
                        if not isinstance(x, (str, SymStr)):
                            raise TypeError("sequence item: expected str instance")
                    return symstr.join(s, xs)
                return s.join(xs)
            if n == "format":
                return str_format(s, a, k)
            if any(isinstance(x, (SymStr, SymInt, SymBool)) for x in a) or any(
                    isinstance(x, tuple) and any(isinstance(y, SymStr) for y in x) for x in a):
                if n == "__eq__":
                    return a[0] == s
                if n == "__ne__":
                    return a[0] != s
                if n == "__contains__":
                    return in_(a[0], s)
                return getattr(SymStr(list(s)), n)(*a, **k)
        elif type(s) is dict and n_is(f, ("get", "pop", "__getitem__", "__contains__")) and a and (
                isinstance(a[0], (SymInt, SymStr))):
            n = f.__name__
            if n == "__getitem__":
                return getitem(s, a[0])
            if n == "__contains__":
                return in_(a[0], s)
            if isinstance(a[0], SymStr) and a[0].has_token():
                return f(*a, **k)
            try:
                if n == "pop":
                    raise Unsupported("dict.pop with a symbolic key")
                return getitem(s, a[0])
            except KeyError:
                return a[1] if len(a) > 1 else None
    elif isinstance(f, enum.EnumMeta) and len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, (SymInt, SymStr)):
            for m in f:
                if models.isint(m.value) == models.isint(x) and bool(x == m.value):
                    return m
            raise ValueError("not a valid enum value")
    elif f is dict and not a and not k:
        return SymDict()
    elif t is type and getattr(f, "__module__", "") in ("datetime", "zoneinfo"):
        raise Unsupported("real stdlib class reached")
    elif f is object.__new__ and a and isinstance(a[0], Shadow):
        raise Unsupported("object.__new__ of a builtin")
    return f(*a, **k)


def n_is(f, names):
    return f.__name__ in names


def map_(f, *its):
    for args in zip(*its):
        yield call(f, *args)


def enter(name):
    TOUCHED.add(name)


# ---- modules -------------------------------------------------------------------
class FakeModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n} is not modelled")


def _mod(name, **kw):
    m = FakeModule(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def _math():
    kw = {n: getattr(math, n) for n in ("pi", "inf", "nan")}

    def wrap(n):
        real = getattr(math, n)

        def f(*a):
            if any(is_sym(x) for x in a):
                raise Unsupported(f"math.{n}")
            return real(*a)
        return f
    for n in ("gcd", "isnan", "isinf", "isfinite", "sqrt", "log10", "modf", "copysign", "fabs"):
        kw[n] = wrap(n)

    def floor(x):
        if isinstance(x, (SymInt, SymBool)):
            return x
        if isinstance(x, SymFloat):
            if x.err == 0 and isinstance(x.den, int):
                return x.num // x.den
            raise Unsupported("floor of an inexact float")
        return math.floor(x)

    def ceil(x):
        if isinstance(x, (SymInt, SymBool)):
            return x
        if isinstance(x, SymFloat):
            if x.err == 0 and isinstance(x.den, int):
                return -((-x.num) // x.den)
            raise Unsupported("ceil of an inexact float")
        return math.ceil(x)

    def fmod(a, b):
        if is_sym(a) or is_sym(b):
            return models.m_fmod(a, b)
        return math.fmod(a, b)

    def copysign(a, b):
        raise Unsupported("copysign") if is_sym(a) or is_sym(b) else None
    kw.update(floor=floor, ceil=ceil, trunc=lambda x: c_int(x), fmod=fmod)
    return _mod("math", **kw)


def _re():
    import re

    def compile_(p, flags=0):
        return p if isinstance(p, SymRegex) else SymRegex(p, flags)
    kw = dict(compile=compile_,
              match=lambda p, s, flags=0: compile_(p, flags).match(s),
              fullmatch=lambda p, s, flags=0: compile_(p, flags).fullmatch(s),
              search=lambda p, s, flags=0: compile_(p, flags).search(s),
              Pattern=SymRegex, Match=symstr.SymMatch, error=re.error, escape=re.escape)
    for n in ("ASCII", "A", "IGNORECASE", "I", "VERBOSE", "X", "DOTALL", "S", "UNICODE", "U",
              "MULTILINE", "M"):
        kw[n] = getattr(re, n)
    return _mod("re", **kw)


def same_key(x, y):
    """Whether a dict takes x for y, decided on the path."""
    if x is y:
        return True
    for z in (x, y):
        if type(z).__hash__ is None and not isinstance(z, (SymInt, SymBool, SymStr, SymFloat)):
            raise TypeError(f"unhashable type: '{type(z).__name__}'")
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_key(a, b) for a, b in zip(x, y))
    e = x == y
    return False if e is NotImplemented else bool(c_bool(e))


SymDict.same = staticmethod(same_key)


def _functools():
    import functools
    m = types.ModuleType("functools")
    m.__dict__.update(functools.__dict__)

    def eq(a, b):
        return all(same_key(x, y) for x, y in zip(a, b))

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize) and not isinstance(maxsize, int):
            return SymCache(maxsize, eq)
        return lambda f: SymCache(f, eq)
    m.lru_cache, m.cache = lru_cache, lambda f: SymCache(f, eq)
    return m


def make_modules():
    import struct, calendar
    dt = _mod("datetime", date=models.MDate, datetime=models.MDateTime, time=models.MTime,
              timedelta=models.MTimeDelta, timezone=models.MTimezone, tzinfo=models.MTzInfo,
              MINYEAR=1, MAXYEAR=9999, UTC=models.MTimezone.utc)
    mods = {
        "functools": _functools(),
        "datetime": dt,
        "re": _re(),
        "struct": _mod("struct", pack=models.m_pack, unpack=models.m_unpack, error=struct.error),
        "zoneinfo": _mod("zoneinfo", ZoneInfo=models.MZone, ZoneInfoNotFoundError=models.TzNotFound),
        "calendar": _mod("calendar", monthrange=models.m_monthrange, isleap=lambda y: cal.leap_sb(y)
                         if is_sym(y) else calendar.isleap(y)),
        "math": _math(),
        "time": _mod("time", time_ns=lambda: models.m_time_ns(),
                     time=lambda: _unsup("time.time"), monotonic_ns=lambda: _unsup("monotonic")),
    }
    return mods


def _unsup(m):
    raise Unsupported(m)


# ---- transformer -----------------------------------------------------------------
H = "_vc_"
NOCALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def name(self, n):
        return ast.Name(H + n, ast.Load())

    def hook(self, n, args):
        return ast.Call(self.name(n), args, [])

    def _body(self, node):
        b = node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(
                b[0].value.value, str):
            node.body = b[1:] or [ast.Pass()]

    def visit_FunctionDef(self, node):
        self._body(node)
        q = ".".join(self.stack[1:] + [node.name])
        node.args = self.visit(node.args)
        node.decorator_list = [d if isinstance(d, ast.Name) else self.visit(d)
                               for d in node.decorator_list]
        node.returns = None
        for a in ast.walk(node.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        self.stack.append(node.name)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r] if r is not None else [])
        self.stack.pop()
        node.body = [ast.Expr(self.hook("enter", [ast.Constant(q)]))] + body
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self._body(node)
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        node.annotation = ast.Constant(None)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        ps = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                ps.append(v)
            else:
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                ps.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return self.hook("fstr", ps)

    def visit_Dict(self, node):
        self.generic_visit(node)
        return node if node.keys else self.hook("SymDict", [])

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
        if not any(isinstance(o, special) for o in node.ops):
            return node
        if len(node.ops) > 1:
            return node
        op, l, r = node.ops[0], node.left, node.comparators[0]
        fn = "is_" if isinstance(op, (ast.Is, ast.IsNot)) else "in_"
        e = self.hook(fn, [l, r])
        if isinstance(op, (ast.IsNot, ast.NotIn)):
            e = self.hook("not_", [e])
        return e

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        return ast.Call(self.name("call"), [node.func] + node.args, node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.hook("getitem", [node.value, node.slice])
        return node

    def visit_Slice(self, node):
        self.generic_visit(node)
        none = lambda x: x if x is not None else ast.Constant(None)
        return ast.Call(self.name("slice"), [none(node.lower), none(node.upper), none(node.step)], [])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.hook("mod", [node.left, node.right])
        return node


class _SliceFix(ast.NodeTransformer):
    """Slices in store/del context keep their syntax."""


HOOKS = {"SymDict": SymDict, "fstr": fstr, "is_": is_, "in_": in_, "not_": sb_not, "call": call, "getitem": getitem,
         "slice": slice, "mod": mod, "enter": enter}


def make_builtins(mods, extra_import=None):
    b = dict(vars(builtins))
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in mods:
            return mods[name]
        if extra_import:
            r = extra_import(name, fromlist, level)
            if r is not None:
                return r
        if level == 0 and name.split(".")[0] in ("os", "socket", "urllib", "random"):
            return FakeModule(name)
        return real_import(name, globals, locals, fromlist, level)
    b.update(
        __import__=imp, int=SH_INT, float=SH_FLOAT, bool=SH_BOOL, str=SH_STR, type=SH_TYPE,
        isinstance=isinstance_, issubclass=issubclass_, abs=abs_, min=_minmax(min, smin),
        max=_minmax(max, smax), len=len_, round=round_, hash=hash_, repr=repr_, format=format_,
        sum=sum_, map=map_)
    return b


def compile_instrumented(path, modname, only=None):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src, path)
    if only is not None:
        tree = slice_module(tree, only)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True, optimize=0), src


def slice_module(tree, only):
    """Top-level statements needed for the names `only` (transitively)."""
    defs = {}
    for st in tree.body:
        names = []
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            names = [st.name]
        elif isinstance(st, ast.Assign):
            names = [n.id for t in st.targets for n in ast.walk(t) if isinstance(n, ast.Name)]
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            names = [(a.asname or a.name).split(".")[0] for a in st.names]
        for n in names:
            defs.setdefault(n, []).append(st)
    need, keep = list(only), []
    seen = set()
    while need:
        n = need.pop()
        if n in seen:
            continue
        seen.add(n)
        for st in defs.get(n, []):
            if st not in keep:
                keep.append(st)
                if not isinstance(st, (ast.Import, ast.ImportFrom)):
                    need += [x.id for x in ast.walk(st) if isinstance(x, ast.Name)]
    tree.body = [st for st in tree.body if st in keep]
    return tree


def load_file(path, modname, mods, only=None, extra_import=None, early=None, key=None):
    code, src = compile_instrumented(path, modname, only)
    m = types.ModuleType(modname)
    if early:
        early(key, m)       # known before it runs, for modules that import each other
    m.__file__ = path
    m.__dict__["__builtins__"] = make_builtins(mods, extra_import)
    for k, v in HOOKS.items():
        m.__dict__[H + k] = v
    exec(code, m.__dict__)
    for v in list(m.__dict__.values()):
        if isinstance(v, type) and isinstance(v.__dict__.get("__bool__"), types.FunctionType):
            v.__bool__ = _deciding(v.__dict__["__bool__"])
    return m


_EMAIL = None


def load_email(mods):
    """The stdlib's own RFC 2822 code, instrumented like the code under test."""
    import email.utils, email._parseaddr
    m = dict(mods)
    pa = load_file(email._parseaddr.__file__, "email._parseaddr", m,
                   only=["parsedate_tz", "mktime_tz", "parsedate", "_parsedate_tz"])
    m["email._parseaddr"] = pa
    eu = load_file(email.utils.__file__, "email.utils", m,
                   only=["format_datetime", "parsedate_to_datetime"])
    return eu


def load(with_init=False, native=None):
    """Fresh instrumented copy of whenever._pywhenever (and the package).
    native: what the package finds as its compiled extension."""
    mods = make_modules()
    try:
        mods["email.utils"] = load_email(mods)
    except (OSError, SyntaxError) as e:  # pragma: no cover
        mods["email.utils"] = _mod("email.utils")
    pkg = types.ModuleType("whenever")
    pkg.__path__ = [SRC]
    others = {}         # the package's other modules, instrumented when something imports them

    def extra(name, fromlist, level):
        if level == 0:
            if name != "whenever" and not name.startswith("whenever."):
                return None
            full, rel = name, name[9:]
        elif level == 1:
            full, rel = "whenever." + name, name
        else:
            return None
        if not rel:
            for n in fromlist or ():
                if not hasattr(pkg, n) and os.path.exists(os.path.join(SRC, n + ".py")):
                    extra(n, ("*",), 1)
            return pkg
        if rel == "_whenever":
            if native is not None:
                return native
            raise ModuleNotFoundError(full, name="whenever._whenever")
        if "." in rel:
            return None
        m = others.get(rel)
        if m is None:
            path = os.path.join(SRC, rel + ".py")
            if not os.path.exists(path):
                raise ModuleNotFoundError(f"No module named {full!r}", name=full)
            m = others[rel] = load_file(path, full, mods, extra_import=extra, early=others.__setitem__,
                                        key=rel)
            setattr(pkg, rel, m)
        return m if fromlist or level else pkg
    w = extra("_pywhenever", ("*",), 1)
    if with_init:
        p = load_file(os.path.join(SRC, "__init__.py"), "whenever", mods, extra_import=extra)
    w._vc_siblings = [m for k, m in others.items() if k != "_pywhenever"]
    return (w, p) if with_init else w
