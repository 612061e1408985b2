"""Models of the standard library the code under verification runs on.

Every model mirrors the documented (CPython 3.12) semantics for exactly the
operations used; anything else raises Unsupported (an engine signal the code
under verification cannot catch).  `tests/` style cross-checks against CPython
live in /verif/engine/crosscheck.py.
"""
from __future__ import annotations
import struct as _struct
import types
import z3
from fractions import Fraction
from . import sym, cal
from .sym import (SymInt, SymBool, SymFloat, Unsupported, Infeasible, Excluded, sb_and, sb_or,
                  sb_not, sb_implies, ite, parts, lin_key, to_z3, is_sym, smax, INF)
from .symstr import SymStr, SymChar, Token, Span, digits, norm, format_int, parse_int, elems_of, opaque
from .cal import MAXORD

MIN_LS = 86400
MAX_LS = 86400 * (MAXORD + 1) - 1
EPOCH_LS = 719163 * 86400
US = 1_000_000


def isint(x):
    return x.__class__ is SymInt or isinstance(x, int) or x.__class__ is SymBool


class Model:
    """Unknown attributes are engine errors, not AttributeErrors."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        for k in type(self).__mro__:
            real = _REAL.get(k.__name__)
            if real is not None and not hasattr(real, name):
                raise AttributeError(f"{real.__name__!r} object has no attribute {name!r}")
        raise Unsupported(f"{type(self).__name__}.{name}")


def _real():
    import datetime as d, zoneinfo
    return {"MTimeDelta": d.timedelta, "MTimezone": d.timezone, "MZone": zoneinfo.ZoneInfo,
            "MDateTime": d.datetime, "MTime": d.time}


_REAL = _real()


def _need_int(x):
    if isint(x):
        return x
    raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")


# ---- timedelta -------------------------------------------------------------
class MTimeDelta(Model):
    __slots__ = ("us", "_sec")

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0,
                hours=0, weeks=0):
        tot = 0
        for v, f in ((days, 86400 * US), (seconds, US), (microseconds, 1), (milliseconds, 1000),
                     (minutes, 60 * US), (hours, 3600 * US), (weeks, 7 * 86400 * US)):
            if isint(v):
                tot = tot + v * f
            elif isinstance(v, SymFloat):
                w = v
                if w.err == 0 and w.den == 1:
                    tot = tot + w.num * f
                elif w.err == 0 and isinstance(w.den, int) and f % w.den == 0:
                    tot = tot + w.num * (f // w.den)
                else:
                    raise Unsupported("timedelta from an inexact float")
            elif isinstance(v, float):
                fr = Fraction(v) * f
                if fr.denominator != 1:
                    raise Unsupported("timedelta from float")
                tot = tot + fr.numerator
            else:
                raise TypeError("unsupported type for timedelta component")
        return cls._mk(tot, check=True)

    @classmethod
    def _mk(cls, us, check=False):
        self = object.__new__(cls)
        self.us = us
        if check:
            lim = 86400 * US
            if not (us >= -999999999 * lim):
                raise OverflowError("days out of range for timedelta")
            if not (us <= 999999999 * lim + lim - 1):
                raise OverflowError("days out of range for timedelta")
        return self

    @property
    def days(self):
        return self.us // (86400 * US)

    @property
    def seconds(self):
        return (self.us % (86400 * US)) // US

    @property
    def microseconds(self):
        return self.us % US

    def total_seconds(self):
        if isint(self.us):
            q, r = divmod(self.us, US)
            if r == 0:
                return SymFloat.of(q) if is_sym(q) else float(q)
        f = SymFloat.of(self.us) / US
        return f

    def _bin(self, o):
        return o.us if isinstance(o, MTimeDelta) else None

    def __add__(self, o):
        if isinstance(o, MTimeDelta):
            return MTimeDelta._mk(self.us + o.us, True)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, MTimeDelta):
            return MTimeDelta._mk(self.us - o.us, True)
        return NotImplemented

    def __neg__(self):
        return MTimeDelta._mk(-self.us, True)

    def __pos__(self):
        return self

    def __abs__(self):
        return MTimeDelta._mk(abs(self.us), True)

    def __mul__(self, o):
        if isint(o):
            return MTimeDelta._mk(self.us * o, True)
        if isinstance(o, (SymFloat, float)):
            raise Unsupported("timedelta * float")
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, MTimeDelta):
            return self.us // o.us
        if isint(o):
            return MTimeDelta._mk(self.us // o, True)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, MTimeDelta):
            return SymFloat.of(self.us) / o.us
        if isint(o):
            raise Unsupported("timedelta / int")
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, MTimeDelta):
            return MTimeDelta._mk(self.us % o.us, True)
        return NotImplemented

    def __divmod__(self, o):
        if isinstance(o, MTimeDelta):
            q, r = divmod(self.us, o.us)
            return q, MTimeDelta._mk(r, True)
        return NotImplemented

    def __eq__(self, o):
        return self.us == o.us if isinstance(o, MTimeDelta) else NotImplemented

    def __ne__(self, o):
        return sb_not(self.us == o.us) if isinstance(o, MTimeDelta) else NotImplemented

    def __lt__(self, o):
        return self.us < o.us if isinstance(o, MTimeDelta) else NotImplemented

    def __le__(self, o):
        return self.us <= o.us if isinstance(o, MTimeDelta) else NotImplemented

    def __gt__(self, o):
        return self.us > o.us if isinstance(o, MTimeDelta) else NotImplemented

    def __ge__(self, o):
        return self.us >= o.us if isinstance(o, MTimeDelta) else NotImplemented

    def __bool__(self):
        return bool(self.us != 0)

    def sym_hash(self):
        return ("td", self.us)

    def __hash__(self):
        raise Unsupported("hash(timedelta) by C code")

    def __repr__(self):
        return f"MTimeDelta({self.us!r}us)"


MTimeDelta.min = MTimeDelta(days=-999999999)
MTimeDelta.max = MTimeDelta._mk(999999999 * 86400 * US + 86400 * US - 1)
MTimeDelta.resolution = MTimeDelta._mk(1)


# ---- tzinfo ----------------------------------------------------------------
class MTzInfo(Model):
    pass


class MTimezone(MTzInfo):
    __slots__ = ("off", "named")
    utc: "MTimezone"

    def __new__(cls, offset, name=None):
        if not isinstance(offset, MTimeDelta):
            raise TypeError("timezone() argument 1 must be datetime.timedelta")
        if not isint(offset.us):
            raise Unsupported("timezone of inexact offset")
        if not sb_and(offset.us > -86400 * US, offset.us < 86400 * US):
            raise ValueError("offset must be strictly between -24h and 24h")
        return cls._mk(offset.us, name is not None)

    @classmethod
    def _mk(cls, us, named=False):
        if not named and not is_sym(us) and us == 0 and hasattr(cls, "utc"):
            return cls.utc
        self = object.__new__(cls)
        self.off = us
        self.named = named
        return self

    def utcoffset(self, dt):
        return MTimeDelta._mk(self.off)

    def dst(self, dt):
        return None

    def fromutc(self, dt):
        return dt + MTimeDelta._mk(self.off)

    def same(self, o):
        """`self is o` for offsets without a name: utc is a singleton."""
        if self is o:
            return True
        if isinstance(o, MTimezone) and not self.named and not o.named:
            if self is MTimezone.utc or o is MTimezone.utc:
                return self.off == o.off
        return False

    def __eq__(self, o):
        if isinstance(o, MTimezone):
            return self.off == o.off
        return NotImplemented

    def sym_hash(self):
        return ("tz", self.off)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"MTimezone({self.off!r})"


MTimezone.utc = MTimezone._mk(0)


class TzNotFound(KeyError):
    """zoneinfo.ZoneInfoNotFoundError"""


class MZone(MTzInfo):
    """A zoneinfo.ZoneInfo with PEP 495 behaviour left uninterpreted.

    OFF(l, fold): offset in seconds at local second l;  UOFF(u)/UFOLD(u): offset
    and fold chosen by fromutc.  l and u count seconds from ordinal 0.
    """
    __slots__ = ("name", "key")

    def __new__(cls, key):
        P = sym.P
        if isinstance(key, SymStr):
            es = key.elems
            if len(es) == 1 and isinstance(es[0], Span):
                z = cls.lookup(es[0], key)
                if z is None:
                    how = sym.P.var(f"{es[0].name} lookup fails as", 0, 2)
                    if how == 0:
                        raise TzNotFound("No time zone found")
                    if how == 1:      # malformed keys
                        raise ValueError("malformed timezone key")
                    raise IsADirectoryError("timezone key is a directory")
                return z
            if len(es) == 1 and isinstance(es[0], Token):
                return cls._for(es[0].name, key)
            raise Unsupported("ZoneInfo of a symbolic text")
        if not isinstance(key, str):
            raise TypeError("ZoneInfo key must be a string")
        raise Unsupported(f"ZoneInfo of a literal key {key!r}")

    @classmethod
    def lookup(cls, span, key):
        """The timezone an arbitrary text names, or None; the same on every call."""
        reg = sym.P.hooks.setdefault("zoneof", {})
        if span.name not in reg:
            found = bool(sym.P.var(f"{span.name} is a timezone", 0, 1) == 1)
            reg[span.name] = cls._for(span.name, key) if found else None
        return reg[span.name]

    @classmethod
    def _for(cls, name, key):
        reg = sym.P.hooks.setdefault("zones", {})
        z = reg.get((cls, name))
        if z is None:
            z = object.__new__(cls)
            z.name, z.key = name, key
            reg[(cls, name)] = z
        return z

    @classmethod
    def no_cache(cls, key):
        z = object.__new__(cls)
        z.name, z.key = key.elems[0].name, key
        return z

    # --- rules -------------------------------------------------------------
    def offs(self, l):
        """(offset for fold=0, offset for fold=1) at local second l."""
        P = sym.P
        o0, new = P.uf(f"OFF0[{self.name}]", [l], -86399, 86399)
        o1, _ = P.uf(f"OFF1[{self.name}]", [l], -86399, 86399)
        if new:
            U = P.func(f"UOFF[{self.name}]", 1)
            F = P.func(f"UFOLD[{self.name}]", 1)
            zl, z0, z1 = to_z3(l), to_z3(o0), to_z3(o1)
            P.add(z3.If(
                z0 >= z1,
                # exists once or twice
                z3.And(U(zl - z0) == z0, F(zl - z0) == 0, U(zl - z1) == z1,
                       F(zl - z1) == z3.If(z0 == z1, 0, 1)),
                # gap: both readings land on the other side of the transition
                z3.And(U(zl - z0) == z1, U(zl - z1) == z0,
                       F(zl - z0) == 0, F(zl - z1) == 0,
                       # the readings the round trip produces exist exactly once
                       )))
            sym.P.hooks.setdefault("zl", []).append((self, l, o0, o1))
        return o0, o1

    def off(self, l, fold):
        o0, o1 = self.offs(l)
        if isinstance(fold, int):
            return o1 if fold else o0
        return ite(fold == 0, o0, o1)

    def uoff(self, u):
        """(offset, fold) at the UTC second u."""
        P = sym.P
        o, new = P.uf(f"UOFF[{self.name}]", [u], -86399, 86399)
        f, newf = P.uf(f"UFOLD[{self.name}]", [u], 0, 1)
        if ("zu", self.name, lin_key(u)) not in P.hooks:
            P.hooks[("zu", self.name, lin_key(u))] = True
            G0 = P.func(f"OFF0[{self.name}]", 1)
            G1 = P.func(f"OFF1[{self.name}]", 1)
            zu, zo, zf = to_z3(u), to_z3(o), to_z3(f)
            zl = zu + zo
            P.add(z3.If(zf == 0,
                        z3.And(G0(zl) == zo, G1(zl) <= zo),
                        z3.And(G1(zl) == zo, G0(zl) > zo)))
            sym.P.hooks.setdefault("zuo", []).append((self, u, o, f))
        return o, f

    # --- tzinfo API ----------------------------------------------------------
    def utcoffset(self, dt):
        if dt is None:
            return None
        return MTimeDelta._mk(self.off(dt.ls, dt.fold) * US)

    def fromutc(self, dt):
        o, f = self.uoff(dt.ls)
        ls = dt.ls + o
        _check_ls(ls)
        return type(dt)._mk(ls, dt.us, self, f)

    def dst(self, dt):
        raise Unsupported("dst")

    def tzname(self, dt):
        raise Unsupported("tzname")

    def __repr__(self):
        return f"MZone({self.name})"

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def sym_hash(self):
        return ("zone", id(self))


class OtherTz(MTzInfo):
    """A tzinfo of some other class: offset given by OFF of a private zone."""
    __slots__ = ("zone",)

    def __init__(self, zone):
        self.zone = zone

    def utcoffset(self, dt):
        return self.zone.utcoffset(dt)

    def fromutc(self, dt):
        raise Unsupported("fromutc of a foreign tzinfo")


class NoOffTz(MTzInfo):
    """A tzinfo whose utcoffset() is None."""
    __slots__ = ()

    def utcoffset(self, dt):
        return None

    def fromutc(self, dt):
        raise Unsupported("fromutc of a foreign tzinfo")


SYSTEM = ["SYS"]     # the name of the present system timezone


def system_zone():
    return MZone._for(SYSTEM[0], None)


def _check_ls(ls):
    if not (ls >= MIN_LS):
        raise OverflowError("date value out of range")
    if not (ls <= MAX_LS):
        raise OverflowError("date value out of range")


def _check_field(v, lo, hi, what):
    if not isint(v):
        raise TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer")
    if is_sym(v):
        if not sb_and(v >= lo, v <= hi):
            raise ValueError(f"{what} must be in {lo}..{hi}")
    elif not lo <= v <= hi:
        raise ValueError(f"{what} must be in {lo}..{hi}")


def _check_date(y, m, d):
    _check_field(y, 1, 9999, "year")
    _check_field(m, 1, 12, "month")
    if not isint(d):
        raise TypeError("integer required")
    if not sb_and(d >= 1, d <= cal.days_in_month(y, m)):
        raise ValueError("day is out of range for month")


def _four(y):
    return digits(y, 4)


def two(v):
    return digits(v, 2)


# ---- date -------------------------------------------------------------------
class MDate(Model):
    __slots__ = ("_n", "_y")

    def __new__(cls, year, month=None, day=None):
        if month is None or day is None:
            raise TypeError("function missing required argument")
        _check_date(year, month, day)
        self = object.__new__(cls)
        self._y = (year, month, day)
        self._n = None
        return self

    @classmethod
    def _of(cls, n):
        self = object.__new__(cls)
        self._n, self._y = n, None
        return self

    @property
    def n(self):
        if self._n is None:
            self._n = cal.ord_of(*self._y)
        return self._n

    @property
    def ymd(self):
        if self._y is None:
            self._y = cal.ymd_of(self._n)
        return self._y

    year = property(lambda s: s.ymd[0])
    month = property(lambda s: s.ymd[1])
    day = property(lambda s: s.ymd[2])

    def toordinal(self):
        return self.n

    @classmethod
    def fromordinal(cls, n):
        if not sb_and(n >= 1, n <= MAXORD):
            raise ValueError("ordinal out of range")
        return cls._of(n)

    def weekday(self):
        return cal.weekday(self.n)

    def isoweekday(self):
        return cal.weekday(self.n) + 1

    def replace(self, year=None, month=None, day=None):
        y, m, d = self.ymd
        return type(self)(y if year is None else year, m if month is None else month,
                          d if day is None else day)

    def isoformat(self):
        y, m, d = self.ymd
        return SymStr(thunk=lambda: norm(
            _four(y) + ["-"] + two(m) + ["-"] + two(d)))

    def __str__(self):
        return self.isoformat()

    @classmethod
    def fromisoformat(cls, s):
        if not isinstance(s, (str, SymStr)):
            raise TypeError("fromisoformat: argument must be str")
        es = elems_of(s)
        y, m, d = parse_iso_date(es)
        return cls(y, m, d)

    def timetuple(self):
        return MTimeTuple(self, (0, 0, 0), -1)

    def ctime(self):
        raise Unsupported("ctime")

    def strftime(self, f):
        raise Unsupported("strftime")

    def isocalendar(self):
        raise Unsupported("isocalendar")

    def __add__(self, o):
        if isinstance(o, MTimeDelta):
            n = self.n + o.days
            if not (n >= 1):
                raise OverflowError("date value out of range")
            if not (n <= MAXORD):
                raise OverflowError("date value out of range")
            return MDate._of(n)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, MTimeDelta):
            n = self.n - o.days
            if not sb_and(n >= 1, n <= MAXORD):
                raise OverflowError("date value out of range")
            return MDate._of(n)
        if isinstance(o, MDate) and not isinstance(o, MDateTime):
            return MTimeDelta._mk((self.n - o.n) * (86400 * US))
        return NotImplemented

    def _c(self, o):
        return isinstance(o, MDate) and not isinstance(o, MDateTime)

    def __eq__(self, o):
        if not self._c(o):
            return NotImplemented
        if self._n is None and o._n is None and sym.P is not None:
            a, b = self._y, o._y
            return sb_and(a[0] == b[0], a[1] == b[1], a[2] == b[2])
        return self.n == o.n

    def __ne__(self, o):
        return sb_not(self.__eq__(o)) if self._c(o) else NotImplemented

    def __lt__(self, o):
        return self.n < o.n if self._c(o) else NotImplemented

    def __le__(self, o):
        return self.n <= o.n if self._c(o) else NotImplemented

    def __gt__(self, o):
        return self.n > o.n if self._c(o) else NotImplemented

    def __ge__(self, o):
        return self.n >= o.n if self._c(o) else NotImplemented

    def sym_hash(self):
        return ("date", self.n)

    def __hash__(self):
        raise Unsupported("hash(date) by C code")

    def __repr__(self):
        return f"{type(self).__name__}(n={self._n!r}, ymd={self._y!r})"

    @classmethod
    def today(cls):
        raise Unsupported("today")


def parse_iso_date(es):
    """date.fromisoformat for texts of the forms with digits only; week dates
    are modelled as Unsupported unless excluded by the text itself."""
    from .symstr import digit_value, char_eq
    n = len(es)
    if any(isinstance(e, Token) for e in es):
        raise Unsupported("fromisoformat of opaque text")
    if n not in (7, 8, 10):
        raise ValueError("Invalid isoformat string")

    def dig(i):
        e = es[i]
        if isinstance(e, str):
            if not ("0" <= e <= "9"):
                raise ValueError("Invalid isoformat string")
            return ord(e) - 48
        lo, hi = sym.P.interval(*parts(e.code))
        if not (48 <= lo and hi <= 57):
            if not sb_and(e.code >= 48, e.code <= 57):
                raise ValueError("Invalid isoformat string")
        return e.code - 48

    def num(i, k):
        v = 0
        for j in range(i, i + k):
            v = v * 10 + dig(j)
        if isinstance(v, SymInt):
            w = sym.P.hooks.get("digsum", {}).get((v.co, v.k))
            if w is not None:
                return w
        return v

    def is_(i, ch):
        return bool(char_eq(es[i], ch))
    y = num(0, 4)
    if n == 10 and is_(4, "-") and not is_(5, "W"):
        m = num(5, 2)
        if not is_(7, "-"):
            raise ValueError("Invalid isoformat string")
        return y, m, num(8, 2)
    if n == 8 and not is_(4, "-") and not is_(4, "W"):
        return y, num(4, 2), num(6, 2)
    # week forms: YYYY-Www, YYYYWww, YYYY-Www-D, YYYYWwwD
    if n == 10 and is_(4, "-"):
        w = num(6, 2)
        if not is_(8, "-"):
            raise ValueError("Invalid isoformat string")
        raise Unsupported("ISO week date")
    if n == 8 and (is_(4, "-") or is_(4, "W")):
        raise Unsupported("ISO week date")
    if n == 7 and is_(4, "W"):
        raise Unsupported("ISO week date")
    raise ValueError("Invalid isoformat string")


class MTimeTuple(Model):
    def __init__(self, d, hms, isdst):
        self.d, self.hms = d, hms

    def _all(self):
        y, m, d = self.d.ymd
        return [y, m, d, *self.hms, ]

    def __getitem__(self, i):
        if isinstance(i, slice):
            idx = range(9)[i]
            return tuple(self[j] for j in idx)
        if i < 0:
            i += 9
        if i < 6:
            return self._all()[i]
        if i == 6:
            return cal.weekday(self.d.n)
        raise Unsupported("timetuple tail")

    def __iter__(self):
        for i in range(9):
            yield self[i]

    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])


# ---- time --------------------------------------------------------------------
class MTime(Model):
    __slots__ = ("_h", "_sod", "us", "tzinfo", "fold")

    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        _check_field(hour, 0, 23, "hour")
        _check_field(minute, 0, 59, "minute")
        _check_field(second, 0, 59, "second")
        _check_field(microsecond, 0, 999999, "microsecond")
        _check_tz(tzinfo)
        fold = _fold(fold)
        self = object.__new__(cls)
        self._h = (_pi(hour), _pi(minute), _pi(second))
        self._sod = None
        self.us, self.tzinfo, self.fold = _pi(microsecond), tzinfo, fold
        return self

    @classmethod
    def _of(cls, sod, us=0, tzinfo=None, fold=0, hms=None):
        self = object.__new__(cls)
        self._sod, self._h = sod, hms
        self.us, self.tzinfo, self.fold = us, tzinfo, fold
        return self

    @property
    def hms(self):
        if self._h is None:
            self._h = hms_of(self._sod)
        return self._h

    @property
    def sod(self):
        if self._sod is None:
            h, m, s = self._h
            self._sod = sod_of(h, m, s)
        return self._sod

    hour = property(lambda s: s.hms[0])
    minute = property(lambda s: s.hms[1])
    second = property(lambda s: s.hms[2])
    microsecond = property(lambda s: s.us)

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        h, m, s = self.hms
        return type(self)(h if hour is None else hour, m if minute is None else minute,
                          s if second is None else second,
                          self.us if microsecond is None else microsecond,
                          self.tzinfo if tzinfo is True else tzinfo,
                          fold=self.fold if fold is None else fold)

    def isoformat(self, timespec="auto"):
        if timespec != "auto":
            raise Unsupported("timespec")
        return SymStr(thunk=lambda: norm(time_chars(self.hms, self.us, "auto")
                                         + offset_chars(self)))

    def utcoffset(self):
        if self.tzinfo is None:
            return None
        if isinstance(self.tzinfo, MTimezone):
            return self.tzinfo.utcoffset(None)
        raise Unsupported("time.utcoffset")

    @classmethod
    def fromisoformat(cls, s):
        raise Unsupported("time.fromisoformat")

    def _naive(self, o):
        if self.tzinfo is not None or o.tzinfo is not None:
            raise Unsupported("aware time comparison")

    def __eq__(self, o):
        if not isinstance(o, MTime):
            return NotImplemented
        self._naive(o)
        return sb_and(self.sod == o.sod, self.us == o.us)

    def __ne__(self, o):
        e = self.__eq__(o)
        return e if e is NotImplemented else sb_not(e)

    def _tot(self):
        return self.sod * US + self.us

    def __lt__(self, o):
        if not isinstance(o, MTime):
            return NotImplemented
        self._naive(o)
        return self._tot() < o._tot()

    def __le__(self, o):
        if not isinstance(o, MTime):
            return NotImplemented
        self._naive(o)
        return self._tot() <= o._tot()

    def __gt__(self, o):
        if not isinstance(o, MTime):
            return NotImplemented
        self._naive(o)
        return self._tot() > o._tot()

    def __ge__(self, o):
        if not isinstance(o, MTime):
            return NotImplemented
        self._naive(o)
        return self._tot() >= o._tot()

    def sym_hash(self):
        if self.tzinfo is not None:
            raise Unsupported("hash of aware time")
        return ("time", self.sod, self.us)

    def __hash__(self):
        raise Unsupported("hash(time) by C code")

    def __repr__(self):
        return f"MTime({self._h!r},{self._sod!r},{self.us!r})"


def _pi(x):
    return x.as_int() if isinstance(x, SymBool) else (int(x) if isinstance(x, bool) else x)


def _fold(f):
    if isinstance(f, bool):
        return int(f)
    if isinstance(f, SymBool):
        return f.as_int()
    if isinstance(f, SymInt):
        if not sb_or(f == 0, f == 1):
            raise ValueError("fold must be either 0 or 1")
        return f
    if f not in (0, 1):
        raise ValueError("fold must be either 0 or 1")
    return f


def _check_tz(tz):
    if tz is not None and not isinstance(tz, MTzInfo):
        raise TypeError("tzinfo argument must be None or of a tzinfo subclass")


def sod_of(h, m, s):
    sod = h * 3600 + m * 60 + s
    if isinstance(sod, SymInt):
        sym.P.set_bounds(sod.co, 0 - sod.k, 86399 - sod.k)
    return sod


def hms_of(sod):
    """Fields of a second of day known to lie in 0..86399."""
    if isinstance(sod, int):
        return sod // 3600, sod // 60 % 60, sod % 60
    h = sod // 3600
    r = sod - h * 3600
    m = r // 60
    s = r - m * 60
    return h, m, s


def time_chars(hms, us, timespec="auto"):
    h, m, s = hms
    out = two(h) + [":"] + two(m) + [":"] + two(s)
    if bool(us != 0):
        out += ["."] + digits(us, 6)
    return out


def offset_chars(dt):
    off = dt.utcoffset()
    if off is None:
        return []
    return fmt_offset(off.us, ":")


def fmt_offset(us, sep):
    neg = bool(us < 0)
    a = -us if neg else us
    secs, micro = divmod(a, US)
    hh = secs // 3600
    mm = (secs - hh * 3600) // 60
    ss = secs - hh * 3600 - mm * 60
    out = ["-" if neg else "+"] + two(hh) + ([sep] if sep else []) + two(mm)
    has_us = bool(micro != 0) if is_sym(micro) else micro != 0
    if has_us or bool(ss != 0):
        out += ([sep] if sep else []) + two(ss)
    if has_us:
        out += ["."] + digits(micro, 6)
    return out


# ---- datetime ----------------------------------------------------------------
class MDateTime(MDate):
    __slots__ = ("_ls", "_d", "_t", "us", "tzinfo", "_fold_")

    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0,
                tzinfo=None, *, fold=0):
        if month is None or day is None:
            raise TypeError("function missing required argument")
        _check_date(year, month, day)
        _check_field(hour, 0, 23, "hour")
        _check_field(minute, 0, 59, "minute")
        _check_field(second, 0, 59, "second")
        _check_field(microsecond, 0, 999999, "microsecond")
        _check_tz(tzinfo)
        fold = _fold(fold)
        d = object.__new__(MDate)
        d._y, d._n = (_pi(year), _pi(month), _pi(day)), None
        return cls._from(d, (_pi(hour), _pi(minute), _pi(second)), _pi(microsecond), tzinfo, fold)

    @classmethod
    def _from(cls, d, hms, us, tzinfo, fold):
        self = object.__new__(cls)
        self._d, self._t, self._ls = d, hms, None
        self.us, self.tzinfo, self._fold_ = us, tzinfo, fold
        return self

    @classmethod
    def _mk(cls, ls, us=0, tzinfo=None, fold=0):
        self = object.__new__(cls)
        self._ls, self._d, self._t = ls, None, None
        self.us, self.tzinfo, self._fold_ = us, tzinfo, fold
        return self

    @property
    def fold(self):
        return self._fold_

    @property
    def ls(self):
        if self._ls is None:
            self._ls = self._d.n * 86400 + sod_of(*self._t)
            if isinstance(self._ls, SymInt):
                sym.P.set_bounds(self._ls.co, MIN_LS - self._ls.k, MAX_LS - self._ls.k)
        return self._ls

    @property
    def dpart(self):
        if self._d is None:
            n = self._ls // 86400
            if isinstance(n, SymInt):
                sym.P.set_bounds(n.co, 1 - n.k, MAXORD - n.k)
            self._d = MDate._of(n)
        return self._d

    @property
    def n(self):
        return self.dpart.n

    @property
    def ymd(self):
        return self.dpart.ymd

    @property
    def hms(self):
        if self._t is None:
            self._t = hms_of(self._ls - self.dpart.n * 86400)
        return self._t

    @property
    def sod(self):
        if self._t is not None:
            return sod_of(*self._t)
        return self._ls - self.dpart.n * 86400

    year = property(lambda s: s.ymd[0])
    month = property(lambda s: s.ymd[1])
    day = property(lambda s: s.ymd[2])
    hour = property(lambda s: s.hms[0])
    minute = property(lambda s: s.hms[1])
    second = property(lambda s: s.hms[2])
    microsecond = property(lambda s: s.us)

    def date(self):
        return self.dpart if type(self.dpart) is MDate else self.dpart

    def time(self):
        return MTime._of(None if self._t else self.sod, self.us, None, self.fold,
                         hms=self._t)

    def timetz(self):
        return MTime._of(None if self._t else self.sod, self.us, self.tzinfo, self.fold,
                         hms=self._t)

    @classmethod
    def combine(cls, date, time, tzinfo=True):
        if not isinstance(date, MDate):
            raise TypeError("combine() argument 1 must be datetime.date")
        if not isinstance(time, MTime):
            raise TypeError("combine() argument 2 must be datetime.time")
        tz = time.tzinfo if tzinfo is True else tzinfo
        _check_tz(tz)
        d = date.dpart if isinstance(date, MDateTime) else date
        if time._h is not None:
            return cls._from(d, time._h, time.us, tz, time.fold)
        r = cls._from(d, None, time.us, tz, time.fold)
        r._ls = d.n * 86400 + time.sod
        if isinstance(r._ls, SymInt):
            sym.P.set_bounds(r._ls.co, MIN_LS - r._ls.k, MAX_LS - r._ls.k)
        return r

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, tzinfo=True, *, fold=None):
        tz = self.tzinfo if tzinfo is True else tzinfo
        f = self.fold if fold is None else fold
        if all(x is None for x in (year, month, day, hour, minute, second)):
            _check_tz(tz)
            f = _fold(f)
            us = self.us if microsecond is None else microsecond
            _check_field(us, 0, 999999, "microsecond")
            r = type(self)._mk(self._ls, us, tz, f)
            r._d, r._t = self._d, self._t
            return r
        if year is None and month is None and day is None:
            _check_tz(tz)
            f = _fold(f)
            h, m, s = self.hms
            h = h if hour is None else hour
            m = m if minute is None else minute
            s = s if second is None else second
            us = self.us if microsecond is None else microsecond
            _check_field(h, 0, 23, "hour")
            _check_field(m, 0, 59, "minute")
            _check_field(s, 0, 59, "second")
            _check_field(us, 0, 999999, "microsecond")
            return type(self)._from(self.dpart, (_pi(h), _pi(m), _pi(s)), _pi(us), tz, f)
        y, mo, d = self.ymd
        h, m, s = self.hms
        return type(self)(y if year is None else year, mo if month is None else month,
                          d if day is None else day, h if hour is None else hour,
                          m if minute is None else minute, s if second is None else second,
                          self.us if microsecond is None else microsecond, tz, fold=f)

    def utcoffset(self):
        if self.tzinfo is None:
            return None
        return self.tzinfo.utcoffset(self)

    def offsec(self, flip=False):
        """Offset in microseconds."""
        if isinstance(self.tzinfo, MTimezone):
            return self.tzinfo.off
        return self.tzinfo.utcoffset(self).us

    # ---- conversions --------------------------------------------------------
    def astimezone(self, tz=None):
        _check_tz(tz)
        mytz = self.tzinfo
        if mytz is None:
            off = system_zone().off(self.ls, self.fold) * US
            _system_range(self.ls)
        else:
            if tz is not None and _same_tz(mytz, tz):
                return self
            off = self.tzinfo.utcoffset(self)
            if off is None:
                raise Unsupported("astimezone with utcoffset None")
            off = off.us
        q, r = divmod(off, US)
        u, us = self.ls - q, self.us
        if r != 0:     # decided: forks unless excluded by the path
            k, us = divmod(us - r, US)
            u = u + k
        _check_ls(u)
        if tz is None:
            _system_range(u)
            o, _ = system_zone().uoff(u)
            ls = u + o
            _check_ls(ls)
            return type(self)._mk(ls, us, MTimezone._mk(o * US, named=True), 0)
        if isinstance(tz, MTimezone):
            q, r = divmod(tz.off, US)
            ls = u + q
            if r != 0:     # decided: forks unless excluded by the path
                k, us = divmod(us + r, US)
                ls = ls + k
            _check_ls(ls)
            return type(self)._mk(ls, us, tz, 0)
        res = type(self)._mk(u, us, tz, 0)
        return tz.fromutc(res)

    def timestamp(self):
        if self.tzinfo is None:
            raise Unsupported("timestamp of a naive datetime")
        q, r = divmod(self.offsec(), US)
        if r != 0:     # decided: forks unless excluded by the path
            raise Unsupported("sub-second offset")
        return MTimeDelta._mk((self.ls - q - EPOCH_LS) * US + self.us).total_seconds()

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        _check_tz(tz)
        if isinstance(t, float):
            t = SymFloat.of(t)
        if isinstance(t, SymFloat):
            if t.err != 0 or t.den != 1:
                raise Unsupported("fromtimestamp of a fractional float")
            t = t.num
        if not isint(t):
            raise TypeError("an integer is required")
        ls = t + EPOCH_LS
        if not (ls >= MIN_LS):
            raise ValueError("year is out of range")
        if not (ls <= MAX_LS):
            raise ValueError("year is out of range")
        r = cls._mk(ls, 0, tz, 0)
        if tz is None:
            raise Unsupported("fromtimestamp without timezone")
        return tz.fromutc(r) if not isinstance(tz, MTimezone) else _fix_from(r, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        raise Unsupported("utcfromtimestamp")

    @classmethod
    def now(cls, tz=None):
        raise Unsupported("datetime.now")

    @classmethod
    def strptime(cls, s, f):
        # assumed contract: some naive or fixed-offset datetime (fold 0)
        known = sym.P.hooks.get("strptime")
        if known is None or known[0] is not s:
            raise Unsupported("strptime")
        return known[1]

    def strftime(self, f):
        if f == "%z":
            return self.utcoffset() is not None and SymStr(
                thunk=lambda: norm(fmt_offset(self.utcoffset().us, ""))) or ""
        raise Unsupported("strftime")

    def isoformat(self, sep="T", timespec="auto"):
        if timespec != "auto":
            raise Unsupported("timespec")
        y, m, d = self.ymd
        return SymStr(thunk=lambda: norm(
            _four(y) + ["-"] + two(m) + ["-"] + two(d) + [sep]
            + time_chars(self.hms, self.us) + offset_chars(self)))

    def __str__(self):
        return self.isoformat(" ")

    @classmethod
    def fromisoformat(cls, s):
        if not isinstance(s, (str, SymStr)):
            raise TypeError("fromisoformat: argument must be str")
        es = elems_of(s)
        if len(es) != 19 or any(isinstance(e, Token) for e in es):
            raise Unsupported("datetime.fromisoformat of another shape")
        from .symstr import digit_value, exactly
        for i in (4, 7):
            if exactly(es[i]) != "-":
                raise Unsupported("datetime.fromisoformat of another shape")
        for i in (13, 16):
            if exactly(es[i]) != ":":
                raise Unsupported("datetime.fromisoformat of another shape")
        # any separator character is accepted at position 10
        for i, e in enumerate(es):
            if i in (4, 7, 10, 13, 16):
                continue
            if not isinstance(e, str):
                lo, hi = sym.P.interval(*parts(e.code))
                if not (48 <= lo and hi <= 57):
                    raise Unsupported("datetime.fromisoformat of another shape")
            elif not "0" <= e <= "9":
                raise ValueError("Invalid isoformat string")

        def num(i, k):
            return parse_int(norm(es[i:i + k]))
        return cls(num(0, 4), num(5, 2), num(8, 2), num(11, 2), num(14, 2), num(17, 2))

    def timetuple(self):
        return MTimeTuple(self.dpart, self.hms, -1)

    def utctimetuple(self):
        raise Unsupported("utctimetuple")

    # ---- arithmetic ---------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, MTimeDelta):
            return NotImplemented
        return self._shift(o.us)

    __radd__ = __add__

    def _shift(self, us):
        s, rest = divmod(us, US)
        if not is_sym(rest) and rest == 0:
            nus, carry = self.us, 0
        else:
            carry, nus = divmod(self.us + rest, US)
        ls = self.ls + s + carry
        _check_ls(ls)
        return type(self)._mk(ls, nus, self.tzinfo, 0)

    def __sub__(self, o):
        if isinstance(o, MTimeDelta):
            return self._shift(-o.us)
        if not isinstance(o, MDateTime):
            return NotImplemented
        a, b = self.tzinfo, o.tzinfo
        base = (self.ls - o.ls) * US + (self.us - o.us)
        if a is b:
            return MTimeDelta._mk(base)
        if a is None or b is None:
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return MTimeDelta._mk(base - self.offsec() + o.offsec())

    def _cmp(self, o):
        """(difference in microseconds, same tzinfo) or None if naive/aware."""
        a, b = self.tzinfo, o.tzinfo
        base = (self.ls - o.ls) * US + (self.us - o.us)
        if a is b:
            return base, True
        if a is None or b is None:
            return None
        return base - self.offsec() + o.offsec(), False

    def _pep495(self):
        if isinstance(self.tzinfo, MTimezone) or self.tzinfo is None:
            return False
        z = self.tzinfo.zone if isinstance(self.tzinfo, OtherTz) else self.tzinfo
        o0, o1 = z.offs(self.ls)
        return sb_not(o0 == o1)

    def __eq__(self, o):
        if not isinstance(o, MDateTime):
            return NotImplemented
        c = self._cmp(o)
        if c is None:
            return False
        base, same = c
        if same:
            return sb_and(self.ls == o.ls, self.us == o.us)
        return sb_and(base == 0, sb_not(self._pep495()), sb_not(o._pep495()))

    def __ne__(self, o):
        e = self.__eq__(o)
        return e if e is NotImplemented else sb_not(e)

    def _ord(self, o, f):
        if not isinstance(o, MDateTime):
            if isinstance(o, MDate):
                raise TypeError("can't compare datetime.datetime to datetime.date")
            return NotImplemented
        c = self._cmp(o)
        if c is None:
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return f(c[0])

    def __lt__(self, o):
        return self._ord(o, lambda x: x < 0)

    def __le__(self, o):
        return self._ord(o, lambda x: x <= 0)

    def __gt__(self, o):
        return self._ord(o, lambda x: x > 0)

    def __ge__(self, o):
        return self._ord(o, lambda x: x >= 0)

    def sym_hash(self):
        if self.tzinfo is None:
            return ("dt", self.ls, self.us)
        if isinstance(self.tzinfo, MTimezone):
            off = self.tzinfo.off
        else:
            off = self.replace(fold=0).offsec()
        return ("td", (self.ls * US - off) + self.us)

    def __hash__(self):
        raise Unsupported("hash(datetime) by C code")

    def __repr__(self):
        return f"MDateTime(ls={self._ls!r}, d={self._d!r}, t={self._t!r}, tz={self.tzinfo!r}, fold={self.fold!r})"


def _fix_from(r, tz):
    q, rem = divmod(tz.off, US)
    if rem != 0:   # decided, as above
        raise Unsupported("sub-second offset")
    ls = r.ls + q
    _check_ls(ls)
    return type(r)._mk(ls, r.us, tz, 0)


def _same_tz(a, b):
    if a is b:
        return True
    if isinstance(a, MTimezone) and isinstance(b, MTimezone):
        s = a.same(b)
        # astimezone between equal fixed offsets gives an equal datetime either
        # way; only the identity of the tzinfo differs, which `same` decides
        return bool(s) if isinstance(s, SymBool) else s
    return False


def _system_range(ls):
    """CPython's local-time conversion near the ends of the range is out of
    scope: two days at each end are excluded from system-timezone contracts."""
    if not sb_and(ls >= MIN_LS + 2 * 86400, ls <= MAX_LS - 2 * 86400):
        raise Excluded("system timezone within two days of the range ends")


MDate.min, MDate.max = MDate._of(1), MDate._of(MAXORD)
MDate.resolution = MTimeDelta._mk(86400 * US)
MDateTime.min = MDateTime._mk(MIN_LS)
MDateTime.max = MDateTime._mk(MAX_LS, 999999)
MDateTime.resolution = MTimeDelta._mk(1)
MTime.min, MTime.max = MTime._of(0), MTime._of(86399, 999999)


class SubDate(MDate):
    __slots__ = ()


class SubDateTime(MDateTime):
    __slots__ = ()


class SubTime(MTime):
    __slots__ = ()


# ---- struct --------------------------------------------------------------------
_FIELDS = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True),
           "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def _layout(fmt):
    if not fmt or fmt[0] not in "<>=!":
        raise Unsupported("native struct layout")
    out, rep = [], ""
    for ch in fmt[1:]:
        if ch.isdigit():
            rep += ch
            continue
        if ch not in _FIELDS:
            raise Unsupported(f"struct code {ch}")
        out += [ch] * int(rep or 1)
        rep = ""
    return ("<" if fmt[0] in "<=" else ">"), out


class SymBytes(Model):
    def __init__(self, order, codes, values):
        self.order, self.codes, self.values = order, codes, values

    def size(self):
        return sum(_FIELDS[c][0] for c in self.codes)

    def __len__(self):
        return self.size()

    def __eq__(self, o):
        raise Unsupported("bytes comparison")

    def __hash__(self):
        raise Unsupported("bytes hash")


def m_pack(fmt, *values):
    order, codes = _layout(fmt)
    if len(values) != len(codes):
        raise _struct.error("pack expected different number of items")
    for c, v in zip(codes, values):
        if not isint(v):
            raise _struct.error("required argument is not an integer")
        n, signed = _FIELDS[c]
        lo = -(1 << (8 * n - 1)) if signed else 0
        hi = (1 << (8 * n - (1 if signed else 0))) - 1
        if not sb_and(v >= lo, v <= hi):
            raise _struct.error(f"'{c}' format requires {lo} <= number <= {hi}")
    return SymBytes(order, codes, [_pi(v) for v in values])


def m_unpack(fmt, data):
    order, codes = _layout(fmt)
    if not isinstance(data, SymBytes):
        if isinstance(data, (bytes, bytearray)):
            return _struct.unpack(fmt, data)
        raise TypeError("a bytes-like object is required")
    if sum(_FIELDS[c][0] for c in codes) != data.size():
        raise _struct.error("unpack requires a buffer of another size")
    if order != data.order and any(_FIELDS[c][0] > 1 for c in codes):
        return _repack(order, codes, data)
    if [_FIELDS[c][0] for c in codes] != [_FIELDS[c][0] for c in data.codes]:
        return _repack(order, codes, data)
    out = []
    for c, c0, v in zip(codes, data.codes, data.values):
        out.append(_resign(v, *_FIELDS[c0], _FIELDS[c][1]))
    return tuple(out)


def _resign(v, n, was, now):
    m = 1 << (8 * n)
    if was == now:
        return v
    if was and not now:
        return v if bool(v >= 0) else v + m
    return v if bool(v < m // 2) else v - m


def _repack(order, codes, data):
    bs = []
    for c, v in zip(data.codes, data.values):
        n, signed = _FIELDS[c]
        u = _resign(v, n, signed, False)
        b = []
        for _ in range(n):
            u, r = divmod(u, 256)
            b.append(r)
        bs += b if data.order == "<" else b[::-1]
    out, p = [], 0
    for c in codes:
        n, signed = _FIELDS[c]
        b = bs[p:p + n]
        p += n
        if order == ">":
            b = b[::-1]
        v = 0
        for x in reversed(b):
            v = v * 256 + x
        out.append(_resign(v, n, False, signed))
    return tuple(out)


# ---- misc ------------------------------------------------------------------------
def m_monthrange(year, month):
    if isint(month) and not sb_and(month >= 1, month <= 12):
        import calendar
        raise calendar.IllegalMonthError(0)
    # works for any year; only the length is given a meaning for year 1..9999
    if not isinstance(year, int) or not isinstance(month, int):
        if not sb_and(year >= 1, year <= 9999):
            return LazyWeekday(year, month), _dim_any(year, month)
    elif not 1 <= year <= 9999:
        import calendar
        return calendar.monthrange(year, month)
    return LazyWeekday(year, month), cal.days_in_month(year, month)


def _dim_any(y, m):
    """Month length outside years 1..9999: calendar.monthrange is total there
    up to datetime's range through a 400-year cycle; only bounds are assumed."""
    v, _ = sym.P.uf("DIMX", [cal.kidx(y, m)], 28, 31)
    return v


class LazyWeekday(Model):
    def __init__(self, y, m):
        pass


def m_fmod(a, b):
    if isinstance(b, int) and b > 0 and isint(a):
        lo, hi = sym.P.interval(*parts(a)) if is_sym(a) else (a, a)
        fa = SymFloat.of(a)
        if fa.err == 0:
            r = a % b if bool(a >= 0) else -((-a) % b)
            return SymFloat.of(r) if is_sym(r) else float(r)
        # the argument was rounded to a double first
        if fa.err is None:
            raise Unsupported("fmod of unbounded value")
        d = sym.P.fresh("fmoderr", -int(fa.err) - 1, int(fa.err) + 1)
        x = a + d
        sym.P.notes.append("fmod of a value beyond 2**53")
        r = x % b if bool(x >= 0) else -((-x) % b)
        return SymFloat.of(r)
    raise Unsupported("fmod")


class Clock:
    """Ghost real clock: nondecreasing nanosecond readings."""

    @staticmethod
    def read():
        P = sym.P
        log = P.hooks.setdefault("clock", [])
        t = P.var(f"clock{len(log)}", -62135596800 * 10**9 + 10**18, 253402300799 * 10**9 - 10**18)
        if log:
            P.assume_sb(t >= log[-1])
        elif P.hooks.get("clock from 1970"):
            P.assume_sb(t >= 0)
        P.inputs.append((f"clock{len(log)}", t))
        log.append(t)
        return t


def m_time_ns():
    return Clock.read()
