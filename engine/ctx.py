"""Contexts in which a contract is evaluated.

The same contract text is evaluated symbolically (obligations go to the
prover) and concretely against the real module (replay, bounded search).
"""
from __future__ import annotations
import datetime as _dt, math, os, random, time as _time, zoneinfo
from . import sym, models, cal, rep
from .sym import (sb_and, sb_or, sb_not, sb_implies, ite, is_sym, Infeasible, Excluded,
                  Unsupported, EngineSignal, parts, lin_key)
from .symstr import SymStr, Token
from .models import MIN_LS, MAX_LS, EPOCH_LS, MAXORD

G = 1_000_000_000
DAY_NS = 86400 * G
MAX_MONTHS = 9999 * 12
MAX_DAYS = 9999 * 366
MAX_NS = MAX_DAYS * DAY_NS
MIN_NS = MIN_LS * G
MAX_INSTANT_NS = MAX_LS * G + G - 1
RANGE_ERR = (ValueError, OverflowError, OSError)


class Reject(Exception):
    """Concrete input outside the precondition."""


class Violation(Exception):
    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail
        super().__init__(f"{label}: {detail}")


class Outcome:
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return f"raised {self.exc!r}" if self.exc is not None else f"returned {self.value!r}"


class OtherText:
    pass


_S = 9999 * 366 * 24 * 3600
NATIVE_MAX = dict(hours=_S // 3600, minutes=_S // 60, seconds=_S, milliseconds=_S * 10 ** 3,
                  microseconds=_S * 10 ** 6, nanoseconds=_S * 10 ** 9)


class Base:
    """Spec vocabulary shared by both modes."""
    _deferred = ()
    native = False      # the compiled extension

    def amount(self, k, lim, names):
        """The amount of a unit given by keyword. Among several, the extension refuses one that
        is out of range by itself even where the sum is not: such calls are left out there."""
        if self.native and len(names) > 1:
            lim = min(lim, NATIVE_MAX.get(k, 10 ** 8))
        return self.int(k, -lim, lim)

    def defer(self, fn):
        """Run fn when this run ends, however it ends (before the next run starts)."""
        self._deferred = self._deferred + (fn,)

    def end(self):
        for fn in reversed(self._deferred):
            try:
                fn()
            except BaseException:
                pass
        self._deferred = ()

    G = G
    and_ = staticmethod(sb_and)
    or_ = staticmethod(sb_or)
    not_ = staticmethod(sb_not)
    implies = staticmethod(sb_implies)
    ite = staticmethod(ite)

    def eqs(self, a, b):
        """Equality of spec values (ints, strings, tuples)."""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return sb_and(*[self.eqs(x, y) for x, y in zip(a, b)])
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return (a == b) if isinstance(a, SymStr) else (b == a)
        if a is None or b is None:
            return a is b
        return a == b

    def between(self, lo, x, hi):
        return sb_and(x >= lo, x <= hi)

    # ---- calendar spec -------------------------------------------------------
    def dim(self, y, m):
        return cal.days_in_month(y, m)

    def ord(self, y, m, d):
        return cal.ord_of(y, m, d)

    def ymd_of(self, n):
        return cal.ymd_of(n)

    def valid_date(self, y, m, d):
        """SymBool; usable only where y, m were decided to be in range."""
        return sb_and(d >= 1, d <= self.dim(y, m))

    def add_months(self, y, m, d, mos):
        """(ok, y', m', d'): month arithmetic with clamping; ok forks."""
        k = y * 12 + (m - 1) + mos
        y2, m2 = k // 12, k % 12 + 1
        if not sb_and(y2 >= 1, y2 <= 9999):
            return None
        return y2, m2, ite(d <= self.dim(y2, m2), d, self.dim(y2, m2))

    def shift_ord(self, y, m, d, mos, days):
        """Ordinal after months (clamped) then days; None when out of range."""
        r = self.add_months(y, m, d, mos)
        if r is None:
            return None
        n = self.ord(*r) + days
        if not self.between(1, n, MAXORD):
            return None
        return n

    def fail_types(self, out, excs, label):
        if out.exc is not None and not isinstance(out.exc, excs):
            self.check(False, f"{label}: raises only {_names(excs)} (got {type(out.exc).__name__})",
                       soft=True)

    def expect_valid(self, out, valid, label, excs=RANGE_ERR):
        """Returns iff `valid`; on failure only an allowed exception type."""
        if out.exc is None:
            self.check(valid, f"{label}: returns only when the result is in range/valid")
            return True
        self.fail_types(out, excs, label)
        self.check(sb_not(valid), f"{label}: raises only when there is no valid result "
                                  f"({type(out.exc).__name__})")
        return False

    def expect_raises(self, out, excs, label):
        if out.exc is None:
            self.check(False, f"{label}: must raise {_names(excs)}")
        else:
            self.check(isinstance(out.exc, excs),
                       f"{label}: raises {_names(excs)} (got {type(out.exc).__name__})", soft=True)

    def expect_value(self, out, label):
        if out.exc is not None:
            self.check(False, f"{label}: does not raise (got {type(out.exc).__name__})", soft=True)
            return False
        self.check(True, f"{label}: does not raise")
        return True

    # ---- classes -------------------------------------------------------------
    def cls(self, obj):
        return type(obj).__name__

    def is_a(self, obj, name):
        self.check(type(obj).__name__ == name, f"result is a {name}")

    def same(self, a, b):
        """Identical values: same class and same view."""
        if type(a) is not type(b):
            return False
        return self.eqs(self.view(a), self.view(b))

    def moment(self, obj):
        """Nanoseconds on the UTC timeline, counted from ordinal 0."""
        v = self.view(obj)
        if self.cls(obj) == "Instant":
            return v[0]
        return v[0] - v[1] * G

    def hash_same(self, a, b):
        ha, hb = self.hash(a), self.hash(b)
        if hasattr(ha, "same"):
            return ha.same(hb) if hasattr(hb, "same") else False
        return ha == hb


def _names(excs):
    if isinstance(excs, tuple):
        return "/".join(e.__name__ for e in excs)
    return excs.__name__


# ======================================================================
# symbolic
# ======================================================================
class SymZone:
    def __init__(self, z):
        self.z = z
        self.key = z.key

    def offs(self, l):
        return self.z.offs(l)

    def off(self, l, fold):
        return self.z.off(l, fold)

    def uoff(self, u):
        return self.z.uoff(u)


class SymCtx(Base):
    symbolic = True

    def __init__(self, path, W, pkg, sink, case):
        self.P, self.W, self.pkg, self.sink, self.case = path, W, pkg, sink, case
        self.frame = []
        self._zones = {}
        models.SYSTEM[0] = "SYS"

    # ---- inputs ----------------------------------------------------------------
    def int(self, name, lo, hi, kind=None):
        v = self.P.var(name, lo, hi)
        self.P.inputs.append((name, v))
        return v

    def float(self, name, shift, bits=53):
        """Any double that is k / 2**shift for an integer |k| <= 2**bits; and this k."""
        k = self.int(name, -2 ** bits, 2 ** bits)
        return sym.SymFloat(k, 2 ** shift), k

    def field(self, name, lo, hi):
        """Any integer offered for a field whose valid values are lo..hi."""
        return self.int(name, -10 ** 20, 10 ** 20)

    def choice(self, name, options):
        options = list(options)
        i = self.P.choose(len(options), name)
        self.P.inputs.append((name, i))
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def other_str(self, name, avoid=()):
        return SymStr([Token("other:" + name)])

    def assume(self, b):
        self.P.assume_sb(b)

    def note(self, msg):
        self.P.notes.append(msg)

    # ---- running the code ----------------------------------------------------------
    def run(self, thunk):
        from . import loader
        try:
            v = thunk()
            if v.__class__ is SymStr:
                v.raw
            return Outcome(v)
        except Exception as e:
            if isinstance(e, Violation):
                raise
            return Outcome(exc=e)

    def hash(self, x):
        from . import loader
        return loader.hash_(x)

    def truth(self, x):
        """bool(x) without deciding it."""
        from . import loader
        return loader.c_bool(x)

    def str(self, x):
        from . import loader
        return loader.c_str(x)

    def call(self, f, *a, **k):
        from . import loader
        return loader.call(f, *a, **k)

    def check(self, cond, label, soft=False):
        self.sink.obligation(self, cond, label, soft)

    # ---- builders -------------------------------------------------------------------
    def _reg(self, o, slots):
        self.frame.append((o, [(s, getattr(o, s)) for s in slots]))
        return o

    def _new(self, cls, **kw):
        C = getattr(self.W, cls)
        r = rep.of(self.W, cls)
        o = object.__new__(C)
        for k, v in r.extra.items():
            setattr(o, k, v)
        for k, v in kw.items():
            setattr(o, r.roles[k], v)
        return self._reg(o, [r.roles[k] for k in kw])

    def get(self, o, role):
        return getattr(o, rep.of(self.W, type(o).__name__).roles[role])

    def state_changed(self):
        """What the code has written to its modules, classes and caches, or None."""
        from . import explore
        return explore.state_of(self.W, self.pkg).changed()

    def fresh_state(self):
        from . import explore
        explore.state_of(self.W, self.pkg).restore()

    def near(self, prefix):
        pass

    def dummy(self, cls):
        return rep.of(self.W, cls).dummy

    def has(self, o, role):
        return role in rep.of(self.W, type(o).__name__).roles

    def _ymd(self, name):
        y = self.int(name + ".year", 1, 9999)
        m = self.int(name + ".month", 1, 12)
        d = self.int(name + ".day", 1, 31)
        self.assume(d <= cal.DIM(y, m))
        return y, m, d

    def mdate(self, name, by):
        if by == "ymd":
            md = object.__new__(models.MDate)
            md._n, md._y = None, self._ymd(name)
            return md
        return models.MDate._of(self.int(name + ".ord", 1, MAXORD))

    def date(self, name, by="ymd"):
        return self._new("Date", _py_date=self.mdate(name, by))

    def yearmonth(self, name):
        y = self.int(name + ".year", 1, 9999)
        m = self.int(name + ".month", 1, 12)
        md = object.__new__(models.MDate)
        md._n, md._y = None, (y, m, self.dummy("YearMonth"))
        return self._new("YearMonth", _py_date=md)

    def monthday(self, name):
        m = self.int(name + ".month", 1, 12)
        d = self.int(name + ".day", 1, 31)
        y = self.dummy("MonthDay")
        self.assume(d <= cal.DIM(y, m))
        md = object.__new__(models.MDate)
        md._n, md._y = None, (y, m, d)
        return self._new("MonthDay", _py_date=md)

    def _hms(self, name):
        return (self.int(name + ".hour", 0, 23), self.int(name + ".minute", 0, 59),
                self.int(name + ".second", 0, 59))

    def hidden_fold(self, name):
        """The fold a value may have kept from a standard library one; never observable."""
        return self.int(name + ".fold", 0, 1)

    def mtime(self, name, by):
        f = self.hidden_fold(name)
        if by == "hms":
            return models.MTime._of(None, hms=self._hms(name), fold=f)
        return models.MTime._of(self.int(name + ".sod", 0, 86399), fold=f)

    def nanos(self, name):
        return self.int(name + ".ns", 0, G - 1)

    def time(self, name, by="sod"):
        return self._new("Time", _py_time=self.mtime(name, by), _nanos=self.nanos(name))

    def mdt(self, name, by, tz=None, fold=0):
        """A model datetime; by: 'ls', 'ymd' (ymd + second of day) or 'hms'."""
        if by == "ls":
            return models.MDateTime._mk(self.int(name + ".ls", MIN_LS, MAX_LS), 0, tz, fold)
        md = self.mdate(name, "ord" if by in ("ord",) else "ymd")
        if by == "hms":
            return models.MDateTime._from(md, self._hms(name), 0, tz, fold)
        sod = self.int(name + ".sod", 0, 86399)
        r = models.MDateTime._from(md, models.hms_of(sod), 0, tz, fold)
        r._ls = md.n * 86400 + sod
        self.P.set_bounds(r._ls.co, MIN_LS - r._ls.k, MAX_LS - r._ls.k)
        return r

    def local(self, name, by="ls"):
        return self._new("LocalDateTime", _py_dt=self.mdt(name, by, None, self.hidden_fold(name)),
                         _nanos=self.nanos(name))

    def instant(self, name, by="ls"):
        return self._new("Instant", _py_dt=self.mdt(name, by, models.MTimezone.utc, self.hidden_fold(name)),
                         _nanos=self.nanos(name))

    def _utc_ok(self, ls, off):
        u = ls - off
        self.assume(u >= MIN_LS)
        self.assume(u <= MAX_LS)
        if is_sym(u):
            self.P.set_bounds(u.co, MIN_LS - u.k, MAX_LS - u.k)

    def offset_secs(self, name, minutes=False):
        if minutes:
            return self.int(name, -1439, 1439) * 60
        return self.int(name, -86399, 86399)

    def offset(self, name, by="ls", minutes=False):
        off = self.offset_secs(name + ".off", minutes)
        tz = models.MTimezone._mk(off * models.US)
        dt = self.mdt(name, by, tz, self.hidden_fold(name))
        self._utc_ok(dt.ls, off)
        return self._new("OffsetDateTime", _py_dt=dt, _nanos=self.nanos(name))

    def zone(self, name):
        """A timezone key; different names may or may not be the same zone."""
        z = self._zones.get(name)
        if z is None:
            tok = SymStr([Token(name)])
            z = self._zones[name] = SymZone(models.MZone._for(name, tok))
            self.P.hooks.setdefault("zonekeys", []).append(name)
        return z

    def zone_like(self, name, other):
        """A zone that is either `other` or a different one."""
        if self.bool(name + ".same_zone"):
            return other
        return self.zone(name)

    def zoned(self, name, zone, by="ls", fold=None):
        f = self.int(name + ".fold", 0, 1) if fold is None else fold
        dt = self.mdt(name, by, zone.z, f)
        o0, o1 = zone.offs(dt.ls)
        self.assume(o0 >= o1)          # the local time exists
        off = zone.off(dt.ls, f)
        self._utc_ok(dt.ls, off)
        return self._new("ZonedDateTime", _py_dt=dt, _nanos=self.nanos(name))

    def syszone(self):
        return SymZone(models.system_zone())

    def switch_system(self, n):
        """The system timezone becomes another (2), or the first again (1)."""
        models.SYSTEM[0] = "SYS" if n == 1 else f"SYS{n}"

    def system(self, name, by="ls"):
        """Any fixed offset: a system datetime keeps the offset it was given."""
        off = self.offset_secs(name + ".off")
        tz = models.MTimezone._mk(off * models.US, named=True)
        dt = self.mdt(name, by, tz, self.hidden_fold(name))
        self._utc_ok(dt.ls, off)
        return self._new("SystemDateTime", _py_dt=dt, _nanos=self.nanos(name))

    def timedelta(self, name, lim=MAX_NS):
        return self._new("TimeDelta", _total_ns=self.int(name + ".ns", -lim, lim))

    def datedelta(self, name):
        m = self.int(name + ".months", -MAX_MONTHS, MAX_MONTHS)
        d = self.int(name + ".days", -MAX_DAYS, MAX_DAYS)
        self.assume(sb_or(sb_and(m >= 0, d >= 0), sb_and(m <= 0, d <= 0)))
        return self._new("DateDelta", _months=m, _days=d)

    def datetimedelta(self, name):
        m = self.int(name + ".months", -MAX_MONTHS, MAX_MONTHS)
        d = self.int(name + ".days", -MAX_DAYS, MAX_DAYS)
        n = self.int(name + ".ns", -MAX_NS, MAX_NS)
        self.assume(sb_or(sb_and(m >= 0, d >= 0, n >= 0), sb_and(m <= 0, d <= 0, n <= 0)))
        return self._new("DateTimeDelta", _date_part=self._new("DateDelta", _months=m, _days=d),
                         _time_part=self._new("TimeDelta", _total_ns=n))

    # ---- text --------------------------------------------------------------------
    def fmt(self, v, width):
        """Decimal digits of 0 <= v < 10**width, zero padded."""
        from .symstr import digits, norm
        return norm(digits(v, width))

    def num(self, v):
        """Decimal digits of v >= 0 without leading zeros."""
        from .symstr import natural
        return natural(v)

    def cat(self, *xs):
        from .symstr import raw_of, norm
        es = []
        for x in xs:
            es += raw_of(x)
        return norm(es)

    def is_quotient(self, x, num, den):
        """x is the float nearest to num / den (den != 0)."""
        if isinstance(x, sym.SymFloat):
            if x.cr is None:
                if x.err == 0:
                    return x.num * den == num * x.den
                return False
            return x.cr[0] * den == num * x.cr[1]
        return isinstance(x, float) and sym.is_sym(num) is False and x == num / den

    def anychar(self, name, avoid=None):
        """Any Unicode character."""
        from .symstr import SymStr, SymChar
        return SymStr([SymChar(self.int(name, 0, 0x10FFFF))])

    def text(self, name, gen):
        """Any text whatever (gen: makes typical ones, for concrete evaluation)."""
        from .symstr import SymStr, Tail
        n = self.P.var(f"len({name})", 0)
        s = SymStr([Tail(name, n)])
        self.P.inputs.append((name, s))
        return s

    def cursor(self, s):
        from .symstr import Cursor
        return Cursor(s)

    def named_zone(self, key):
        """The timezone a text names, or None."""
        z = models.MZone.lookup(key.raw[0], key)
        return None if z is None else SymZone(z)

    def anytext(self, name, n):
        """Any text of n characters."""
        from .symstr import SymStr, SymChar
        return SymStr([SymChar(self.int(f"{name}[{i}]", 0, 0x10FFFF)) for i in range(n)])

    def code(self, s, i):
        """Code point of character i of a text."""
        from .symstr import elems_of, code_of
        return code_of(elems_of(s)[i])

    def length(self, s):
        return s.length() if isinstance(s, SymStr) else len(s)

    # ---- standard library values ----------------------------------------------------
    def pytz(self, kind, zone=None, off_us=None):
        if kind == "naive":
            return None
        if kind == "utc":
            return models.MTimezone.utc
        if kind == "fixed":
            return models.MTimezone._mk(off_us)
        if kind == "zone":
            return zone.z
        if kind == "none":
            return models.NoOffTz()
        return models.OtherTz(zone.z)

    def pydt(self, name, tz=None, fold=None, sub=False, zone=None):
        cls = models.SubDateTime if sub else models.MDateTime
        f = self.int(name + ".fold", 0, 1) if fold is None else fold
        ls = self.int(name + ".ls", MIN_LS, MAX_LS)
        return cls._mk(ls, self.int(name + ".us", 0, 999999), tz, f)

    def strptime_args(self, d):
        """(text, format) for which the standard library's strptime gives d."""
        t = SymStr([Token("strptime")])
        self.P.hooks["strptime"] = (t, d)
        return t, "%fmt"

    def pydate(self, name, sub=False):
        n = self.int(name + ".ord", 1, MAXORD)
        d = object.__new__(models.SubDate if sub else models.MDate)
        d._n, d._y = n, None
        return d

    def pytime(self, name, tz=None, sub=False, fold=0):
        cls = models.SubTime if sub else models.MTime
        return cls._of(self.int(name + ".sod", 0, 86399), self.int(name + ".us", 0, 999999), tz, fold)

    def pytimedelta(self, name):
        lim = 999999999 * 86400 * 10 ** 6
        return models.MTimeDelta._mk(self.int(name + ".us", -lim, lim))

    def pyview(self, d):
        """datetime -> (local second, microsecond); date -> (ordinal,); time; timedelta -> (us,)"""
        if isinstance(d, models.MDateTime):
            return (d.ls, d.us)
        if isinstance(d, models.MDate):
            return (d.n,)
        if isinstance(d, models.MTime):
            return (d.sod, d.us)
        return (d.us,)

    def is_py(self, d):
        return isinstance(d, (models.MDate, models.MTime, models.MTimeDelta))

    def pyoff_(self, d):
        return self.pyoff(d) if isinstance(d, models.MDateTime) else None

    def pyoff(self, d):
        """utcoffset in microseconds, or None."""
        o = d.tzinfo.utcoffset(d) if d.tzinfo is not None else None
        return None if o is None else o.us

    def pytype(self, d):
        """'date', 'datetime', ... when exactly of that type, else 'sub'."""
        return {models.MDate: "date", models.MDateTime: "datetime", models.MTime: "time",
                models.MTimeDelta: "timedelta"}.get(type(d), "sub")

    def pyzone(self, d):
        """The key of the ZoneInfo of d, or None."""
        return d.tzinfo.key if isinstance(d.tzinfo, models.MZone) else None

    def use_clock(self):
        pass

    def clock(self):
        """Readings of the real clock so far, oldest first."""
        return self.P.hooks.setdefault("clock", [])

    # ---- pickling and copying -------------------------------------------------------
    def pickled(self, a):
        """(after pickling and unpickling,) for each way of pickling; what the pickle module
        does with the reduction is assumed."""
        from . import loader
        cls = type(a)
        if cls.__reduce_ex__ is not object.__reduce_ex__:
            r = loader.call(a.__reduce_ex__, 4)
        elif cls.__reduce__ is not object.__reduce__:
            r = loader.call(a.__reduce__)
        else:
            raise Unsupported(f"default pickling of {cls.__name__}")
        if type(r) is not tuple or not 2 <= len(r) <= 6:
            raise TypeError("__reduce__ must return a tuple")
        if len(r) > 2 and any(x is not None for x in r[2:]):
            raise Unsupported("pickled state")
        f, args = r[:2]
        if type(args) is not tuple:
            raise TypeError("second item of the tuple returned by __reduce__ must be a tuple")
        mod = self.pkg if f.__module__ == "whenever" else self.W
        g = mod
        for n in f.__qualname__.split("."):
            g = getattr(g, n)
        import pickle
        if g != f:
            raise pickle.PicklingError("not the same object as " + f.__qualname__)
        return [loader.call(f, *args)]

    def copied(self, a):
        from . import loader
        out = []
        for n, args in (("__copy__", ()), ("__deepcopy__", ({},))):
            m = getattr(type(a), n, None)
            out += self.pickled(a) if m is None else [loader.call(m, a, *args)]
        return out

    # ---- views -----------------------------------------------------------------------
    def ymd(self, d):
        return self.get(d, "_py_date").ymd if self.has(d, "_py_date") else self.get(d, "_py_dt").ymd

    def sod(self, o):
        t = self.get(o, "_py_time") if self.has(o, "_py_time") else self.get(o, "_py_dt")
        return t.sod

    def ordinal(self, o):
        return self.get(o, "_py_date").n if self.has(o, "_py_date") else self.get(o, "_py_dt").n

    def zone_of(self, z):
        return SymZone(self.get(z, "_py_dt").tzinfo)

    def fold_of(self, z):
        return self.get(z, "_py_dt").fold

    def view(self, o):
        n = type(o).__name__
        if n == "Date":
            return (self.get(o, "_py_date").n,)
        if n == "YearMonth":
            return self.get(o, "_py_date").ymd[:2]
        if n == "MonthDay":
            return self.get(o, "_py_date").ymd[1:]
        if n == "Time":
            return (self.get(o, "_py_time").sod * G + self.get(o, "_nanos"),)
        if n in ("LocalDateTime", "Instant"):
            return (self.get(o, "_py_dt").ls * G + self.get(o, "_nanos"),)
        if n in ("OffsetDateTime", "SystemDateTime"):
            return (self.get(o, "_py_dt").ls * G + self.get(o, "_nanos"), self._off(o))
        if n == "ZonedDateTime":
            return (self.get(o, "_py_dt").ls * G + self.get(o, "_nanos"), self._off(o), self.get(o, "_py_dt").tzinfo.key)
        if n == "TimeDelta":
            return (self.get(o, "_total_ns"),)
        if n == "DateDelta":
            return (self.get(o, "_months"), self.get(o, "_days"))
        if n == "DateTimeDelta":
            return (self.get(self.get(o, "_date_part"), "_months"), self.get(self.get(o, "_date_part"), "_days"), self.get(self.get(o, "_time_part"), "_total_ns"))
        raise Unsupported(f"view of {n}")

    def _off(self, o):
        us = self.get(o, "_py_dt").offsec()
        q, r = divmod(us, models.US)
        return q

    def invariant(self, o, label):
        """Representation invariant of the value classes."""
        n = type(o).__name__
        ck = lambda b, m, soft=False: self.check(b, f"{label}: invariant of {n}: {m}", soft=soft)
        if self.has(o, "_nanos"):
            ns = self.get(o, "_nanos")
            ck(models.isint(ns), "integer nanoseconds")
            ck(self.between(0, ns, G - 1), "0 <= nanosecond < 10**9")
        if self.has(o, "_py_dt"):
            dt = self.get(o, "_py_dt")
            ck(type(dt) is models.MDateTime, "plain datetime", soft=True)
            ck(dt.us == 0, "no microseconds kept in the datetime", soft=True)
            if n == "LocalDateTime":
                ck(dt.tzinfo is None, "naive", soft=True)
            elif n == "Instant":
                ck(dt.tzinfo is not None and isinstance(dt.tzinfo, models.MTimezone), "aware", soft=True)
                ck(dt.tzinfo.off == 0, "in UTC", soft=True)
            else:
                if n == "ZonedDateTime":
                    ck(isinstance(dt.tzinfo, models.MZone), "has a zone")
                    o0, o1 = dt.tzinfo.offs(dt.ls)
                    ck(o0 >= o1, "the local time exists in its zone")
                else:
                    ck(isinstance(dt.tzinfo, models.MTimezone), "fixed offset")
                    ck(dt.offsec() % models.US == 0, "whole-second offset")
                u = dt.ls - self._off(o)
                ck(self.between(MIN_LS, u, MAX_LS), "moment within the range of instants")
        if n == "Time":
            ck(self.get(o, "_py_time").us == 0, "no microseconds kept in the time", soft=True)
            ck(self.get(o, "_py_time").tzinfo is None, "naive time", soft=True)
        if n == "YearMonth":
            ck(self.get(o, "_py_date").ymd[2] == self.dummy("YearMonth"), "the filler day", soft=True)
        if n == "MonthDay":
            ck(self.get(o, "_py_date").ymd[0] == self.dummy("MonthDay"), "the filler year", soft=True)
        if n == "TimeDelta":
            ck(self.between(-MAX_NS, self.get(o, "_total_ns"), MAX_NS), "within range")
        if n == "DateDelta":
            m, d = self.get(o, "_months"), self.get(o, "_days")
            ck(sb_and(self.between(-MAX_MONTHS, m, MAX_MONTHS),
                      self.between(-MAX_DAYS, d, MAX_DAYS)), "within range")
            ck(sb_or(sb_and(m >= 0, d >= 0), sb_and(m <= 0, d <= 0)), "one sign")
        if n == "DateTimeDelta":
            m, d, t = self.view(o)
            self.invariant(self.get(o, "_date_part"), label)
            self.invariant(self.get(o, "_time_part"), label)
            ck(sb_or(sb_and(m >= 0, d >= 0, t >= 0), sb_and(m <= 0, d <= 0, t <= 0)), "one sign")

    def check_frame(self):
        for o, slots in self.frame:
            if all(getattr(o, s, None) is v for s, v in slots):
                continue
            was = object.__new__(type(o))       # the operand as it was built
            for s, v in slots:
                object.__setattr__(was, s, v)
            self.check(self.eqs(self.view(o), self.view(was)),
                       f"frame: the {type(o).__name__} operand is unchanged")


# ======================================================================
# concrete
# ======================================================================
ZONES = ["Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Pacific/Apia",
         "America/Toronto", "Africa/Monrovia", "Europe/Dublin", "Asia/Kathmandu",
         "Antarctica/Troll", "America/St_Johns", "Africa/Casablanca", "Asia/Tehran", "UTC",
         "Pacific/Kiritimati", "America/Sao_Paulo", "Europe/London", "Asia/Tokyo",
         "Africa/Cairo", "America/Scoresbysund", "Atlantic/Azores", "America/Havana",
         "Pacific/Kwajalein", "Asia/Manila", "America/Juneau", "Asia/Beirut"]
SYS_ZONES = ["America/New_York", "Europe/Amsterdam", "Australia/Lord_Howe", "UTC",
             "America/St_Johns", "Asia/Kathmandu"]
_TRANS = {}
UTC = _dt.timezone.utc
EPOCH_ORD = 719163


def u_to_dt(u):
    """UTC seconds from ordinal 0 -> aware datetime."""
    d, s = divmod(u, 86400)
    return _dt.datetime.fromordinal(d).replace(tzinfo=UTC) + _dt.timedelta(seconds=s)


def ls_to_naive(ls):
    d, s = divmod(ls, 86400)
    return _dt.datetime.fromordinal(d) + _dt.timedelta(seconds=s)


def naive_to_ls(d):
    return d.toordinal() * 86400 + d.hour * 3600 + d.minute * 60 + d.second


def transitions(key):
    """UTC seconds (from ordinal 0) of the offset changes 1850-2100."""
    r = _TRANS.get(key)
    if r is None:
        z = zoneinfo.ZoneInfo(key)

        def off(u):
            return u_to_dt(u).astimezone(z).utcoffset()
        r = []
        lo = _dt.date(1850, 1, 1).toordinal() * 86400
        hi = _dt.date(2060, 1, 1).toordinal() * 86400
        step = 86400 * 20
        a, oa = lo, off(lo)
        while a < hi:
            b = a + step
            ob = off(b)
            if ob != oa:
                x, y = a, b
                while y - x > 1:
                    m = (x + y) // 2
                    if off(m) == oa:
                        x = m
                    else:
                        y = m
                r.append(y)
                # re-scan from the transition
                a, oa = y, off(y)
                continue
            a, oa = b, ob
        _TRANS[key] = r
    return r


class SubDT(_dt.datetime):
    """A user's subclass of datetime."""


class SubD(_dt.date):
    pass


class SubT(_dt.time):
    pass


class WrapTz(_dt.tzinfo):
    """Some other tzinfo implementation with PEP 495 support."""

    def __init__(self, zi=None):
        self.zi = zi

    def utcoffset(self, dt):
        return None if dt is None else dt.replace(tzinfo=self.zi).utcoffset()

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "Wrapped"


class NoOffTz(_dt.tzinfo):
    def utcoffset(self, dt):
        return None

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "NoOff"


class ConcZone:
    def __init__(self, key):
        self.key = key
        self.zi = zoneinfo.ZoneInfo(key)

    def offs(self, l):
        n = _naive(l).replace(tzinfo=self.zi)
        return tuple(_secs(n.replace(fold=f).utcoffset()) for f in (0, 1))

    def off(self, l, fold):
        return self.offs(l)[1 if fold else 0]

    def uoff(self, u):
        if not MIN_LS <= u <= MAX_LS:
            raise Reject()
        try:
            d = u_to_dt(u).astimezone(self.zi)
        except (OverflowError, ValueError):
            # the local time is out of range: read the offset a little earlier/later
            d = u_to_dt(u).replace(tzinfo=self.zi)
            return _secs(d.utcoffset()), d.fold
        return _secs(d.utcoffset()), d.fold

    def trans(self):
        return transitions(self.key) if not self.key.startswith("Vfy/") else []


class ConcSysZone:
    key = None

    def offs(self, l):
        n = _naive(l)
        try:
            return tuple(l - naive_to_ls(n.replace(fold=f).astimezone(UTC)) for f in (0, 1))
        except (OverflowError, ValueError):
            raise Reject()

    def off(self, l, fold):
        return self.offs(l)[1 if fold else 0]

    def uoff(self, u):
        if not MIN_LS + 2 * 86400 <= u <= MAX_LS - 2 * 86400:
            raise Reject()
        d = u_to_dt(u).astimezone()
        o = _secs(d.utcoffset())
        o0, o1 = self.offs(u + o)
        return o, int(o0 != o1 and o == o1)

    def trans(self):
        k = os.environ.get("TZ", "")
        return transitions(k) if k in SYS_ZONES else []


def _naive(l):
    if not MIN_LS <= l <= MAX_LS:
        raise Reject()
    return ls_to_naive(l)


def _secs(td):
    return td.days * 86400 + td.seconds


class ConcCtx(Base):
    symbolic = False

    def __init__(self, W, pkg, case, rng=None, values=None, zone_map=None):
        self.W, self.pkg, self.case = W, pkg, case
        self.native = getattr(W, "_EXTENSION_LOADED", False)
        self.rng = rng
        self.values = values        # replay values, or None for random ones
        self.zone_map = zone_map or {}
        self.log = {}
        self._zones = {}
        self.frame = []
        self.nchecks = 0
        self.last_zone = None
        self.prefix = None

    # ---- inputs ------------------------------------------------------------------
    def state_changed(self):
        return "unknown"

    def fresh_state(self):
        from . import concrete
        concrete.fresh()

    def near(self, prefix):
        """Inputs whose name starts with prefix are often those of the name without it."""
        self.prefix = prefix, self.rng.choice([0, .5, .9, 1]) if self.rng else 0

    def _given(self, name):
        if self.values is None:
            if self.prefix and self.prefix[0] in name:
                old = self.log.get(name.replace(self.prefix[0], "", 1))
                if old is not None and self.rng.random() < self.prefix[1]:
                    return old
            return None
        v = self.values.get(name)
        if v is None and self.rng is None:
            raise Reject()
        return v

    def _rec(self, name, v):
        self.log[name] = v
        return v

    def int(self, name, lo, hi, kind=None):
        v = self._given(name)
        if v is None or self.values is None and not lo <= v <= hi:
            v = self._gen(name, lo, hi, kind)
        return self._rec(name, v)

    def float(self, name, shift, bits=53):
        k = self.int(name, -2 ** bits, 2 ** bits)
        return math.ldexp(k, -shift), k

    def field(self, name, lo, hi):
        v = self._given(name)
        if v is None:
            r = self.rng
            p = r.random()
            if p < .04:
                v = r.choice([lo - 1, hi + 1, 0, -1, lo - 100, hi + 100, 2 ** 31, -2 ** 31 - 1,
                              2 ** 63, 10 ** 20, -10 ** 20])
            elif p < .3:
                v = r.choice([lo, hi, lo + 1, hi - 1])
            else:
                v = r.randint(lo, hi)
        return self._rec(name, v)

    def _gen(self, name, lo, hi, kind):
        r = self.rng
        if hi - lo <= 12:
            return r.randint(lo, hi)
        p = r.random()
        if p < 0.12:
            return r.choice([lo, hi, lo + 1, hi - 1])
        if p < 0.45:
            c = [x for x in (0, 1, -1, 2, 59, 60, 999, 1000, 999_999_999, 500_000_000, 499_999_999,
                             500_000_001, 1_000_000_000, -1_000_000_000, 999_999, 1_000_000, 23,
                             24, 3599, 3600, 86399, 86400, 12, -12, 28, 29, 30, 31, 365, 366, 1500,
                             2500, 3, 5, 7, 100, 1900, 2000, 2024, 2023)
                 if lo <= x <= hi]
            if c:
                return r.choice(c)
        if p < 0.75:
            # log-uniform magnitude
            m = max(abs(lo), abs(hi))
            for _ in range(20):
                x = int(2 ** r.uniform(0, m.bit_length()))
                if r.random() < .5 and lo < 0:
                    x = -x
                if lo <= x <= hi:
                    return x
            return r.randint(lo, hi)
        return r.randint(lo, hi)

    def choice(self, name, options):
        options = list(options)
        i = self._given(name)
        if i is None:
            i = self.rng.randrange(len(options))
        if i >= len(options):
            raise Reject()
        self._rec(name, i)
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def other_str(self, name, avoid=()):
        pool = ["", "x", "Compatible", "foo", "days", "utc", "none", "half", "earlier ", "round"]
        i = self._given(name)
        if i is None:
            i = self.rng.randrange(len(pool))
        self._rec(name, i)
        s = pool[i % len(pool)]
        if s in avoid:
            raise Reject()
        return s

    def assume(self, b):
        if not b:
            raise Reject()

    def note(self, msg):
        pass

    # ---- running ----------------------------------------------------------------
    def run(self, thunk):
        try:
            return Outcome(thunk())
        except (Reject, Violation):
            raise
        except Exception as e:
            return Outcome(exc=e)

    def hash(self, x):
        return hash(x)

    def truth(self, x):
        return bool(x)

    def str(self, x):
        return str(x)

    def call(self, f, *a, **k):
        return f(*a, **k)

    def check(self, cond, label, soft=False):
        self.nchecks += 1
        if not cond:
            raise Violation(label)

    # ---- builders -----------------------------------------------------------------
    def _reg(self, o):
        self.frame.append((o, self.view(o)))
        return o

    def _ymd(self, name):
        if self.values is not None and name + ".ord" in self.values:
            d = _dt.date.fromordinal(self.values[name + ".ord"])
            return d.year, d.month, d.day
        y = self.int(name + ".year", 1, 9999)
        m = self.int(name + ".month", 1, 12)
        n = cal.dim_py(y, m)
        d = self._given(name + ".day")
        if d is None:
            d = self.rng.choice([1, n, n, n - 1, self.rng.randint(1, n), self.rng.randint(1, n), 28])
        self._rec(name + ".day", d)
        if d > n:
            raise Reject()
        return y, m, d

    def date(self, name, by="ymd"):
        if by == "ord":
            n = self.int(name + ".ord", 1, MAXORD)
            d = _dt.date.fromordinal(n)
            return self._reg(self.W.Date(d.year, d.month, d.day))
        return self._reg(self.W.Date(*self._ymd(name)))

    def yearmonth(self, name):
        return self._reg(self.W.YearMonth(self.int(name + ".year", 1, 9999),
                                          self.int(name + ".month", 1, 12)))

    def monthday(self, name):
        m = self.int(name + ".month", 1, 12)
        d = self.int(name + ".day", 1, 31)
        if d > cal.dim_py(4, m):
            raise Reject()
        return self._reg(self.W.MonthDay(m, d))

    def _hms(self, name):
        return (self.int(name + ".hour", 0, 23), self.int(name + ".minute", 0, 59),
                self.int(name + ".second", 0, 59))

    def nanos(self, name):
        return self.int(name + ".ns", 0, G - 1)

    def _sod(self, name):
        s = self.int(name + ".sod", 0, 86399)
        return s // 3600, s // 60 % 60, s % 60

    def time(self, name, by="sod"):
        hms = self._hms(name) if by == "hms" else self._sod(name)
        t = _dt.time(*hms, fold=self.hidden_fold(name))
        return self._reg(self._subsec(self.W.Time.from_py_time(t), name))

    def _ls(self, name, by, zone=None, lo=MIN_LS, hi=MAX_LS):
        """Fields of a local datetime; near a transition of `zone` if given."""
        if by != "ls" and zone is not None and self.values is None:
            # pick a local second, then record the fields the contract names
            ls = self._near(zone, lo, hi)
            if not MIN_LS <= ls <= MAX_LS:
                raise Reject()
            n = ls_to_naive(ls)
            if by == "ord":
                self._rec(name + ".ord", n.toordinal())
            else:
                for k in ("year", "month", "day"):
                    self._rec(f"{name}.{k}", getattr(n, k))
            if by == "hms":
                for k in ("hour", "minute", "second"):
                    self._rec(f"{name}.{k}", getattr(n, k))
            else:
                self._rec(name + ".sod", ls % 86400)
            return ls
        if by == "ls":
            v = self._given(name + ".ls")
            if v is None:
                v = self._near(zone, lo, hi) if zone is not None else self._any_ls()
            self._rec(name + ".ls", v)
            if not MIN_LS <= v <= MAX_LS:
                raise Reject()
            return v
        if by == "ord":
            n = self.int(name + ".ord", 1, MAXORD)
        else:
            n = _dt.date(*self._ymd(name)).toordinal()
        h, m, s = self._hms(name) if by == "hms" else self._sod(name)
        return n * 86400 + h * 3600 + m * 60 + s

    def _any_ls(self):
        r = self.rng
        p = r.random()
        if p < 0.2:
            return r.choice([MIN_LS, MAX_LS]) + r.choice([0, 1, -1, 3600, -3600, 86399, -86399,
                                                          86400, -86400, r.randint(-200000, 200000)])
        if p < 0.35:
            return EPOCH_LS + r.choice([0, 1, -1, 59, -86400, 86400, r.randint(-10**6, 10**6)])
        if p < 0.6:
            n = r.randint(1, MAXORD)
            return n * 86400 + r.choice([0, 86399, 43200, 1, 3600, 86398])
        return r.randint(MIN_LS, MAX_LS)

    def _near(self, zone, lo=MIN_LS, hi=MAX_LS):
        r = self.rng
        tr = zone.trans()
        p = r.random()
        if not tr or p < 0.12:
            return self._any_ls()
        t = r.choice(tr)
        before = zone.uoff(t - 1)[0]
        after = zone.uoff(t)[0]
        a, b = t + before, t + after   # local seconds on both sides
        p = r.random()
        if p < 0.45:
            lo, hi = min(a, b), max(a, b)
            return r.choice([lo, hi, lo - 1, hi - 1, hi + 1, lo + 1, r.randint(lo, hi),
                             (lo + hi) // 2])
        if p < 0.6:
            return min(a, b) // 86400 * 86400 + r.choice([0, 86399, 43200, 1, 86400, -1, 1800])
        if p < 0.8:
            return r.choice([a, b]) + r.choice([-1, 1]) * r.choice(
                [3600, 7200, 1800, 900, 86400, 2 * 86400, 7 * 86400, 60])
        if p < 0.9:
            return r.choice([a, b]) + r.randint(-3 * 86400, 3 * 86400)
        return r.choice([a, b]) + r.choice([-1, 1]) * r.choice([28, 29, 30, 31, 365, 366]) * 86400

    def _dtargs(self, ls):
        if not MIN_LS <= ls <= MAX_LS:
            raise Reject()
        n = ls_to_naive(ls)
        return n.year, n.month, n.day, n.hour, n.minute, n.second

    def local(self, name, by="ls"):
        ls = self._ls(name, by, self.last_zone if self.values is None else None)
        return self._from_py("LocalDateTime", ls, None, name)

    def hidden_fold(self, name):
        v = self._given(name + ".fold") if self.values is None or name + ".fold" in self.values else 0
        return self._rec(name + ".fold", int(self.rng.random() < .2) if v is None else v)

    def _subsec(self, o, name):
        """The value with sub-second part from the input; keeps all else."""
        ns = self.nanos(name)
        if not ns:
            return o
        if not hasattr(o, "_nanos"):            # another representation: public means only
            n = type(o).__name__
            try:
                r = (o.add(nanoseconds=ns) if n == "Instant" else
                     o.replace(nanosecond=ns, ignore_dst=True) if n == "OffsetDateTime" else
                     o.replace(nanosecond=ns))
            except (ValueError, OverflowError):
                raise Reject()
            v, w = self.view(o), self.view(r)
            if (v[0] + ns,) + v[1:] != w:
                raise Reject()
            return r
        x = object.__new__(type(o))
        for k in type(o).__mro__:
            for a in getattr(k, "__slots__", ()):
                if hasattr(o, a):
                    setattr(x, a, getattr(o, a))
        x._nanos = ns
        return x

    def _from_py(self, cls, ls, tz, name):
        if not MIN_LS <= ls <= MAX_LS:
            raise Reject()
        d = ls_to_naive(ls).replace(tzinfo=tz, fold=self.hidden_fold(name))
        return self._reg(self._subsec(getattr(self.W, cls).from_py_datetime(d), name))

    def instant(self, name, by="ls"):
        ls = self._ls(name, by)
        return self._from_py("Instant", ls, UTC, name)

    def offset_secs(self, name, minutes=False):
        if minutes:
            v = self.int(name, -1439, 1439)
            return v * 60
        v = self._given(name)
        if v is None:
            r = self.rng
            v = r.choice([0, 3600, -3600, 19800, 5400, 86399, -86399, 1, -1, 45, -45, 60, -60,
                          r.randint(-86399, 86399), r.randint(-23, 23) * 3600,
                          r.randint(-1439, 1439) * 60])
        return self._rec(name, v)

    def _chk_utc(self, ls, off):
        if not MIN_LS <= ls - off <= MAX_LS:
            raise Reject()

    def offset(self, name, by="ls", minutes=False):
        off = self.offset_secs(name + ".off", minutes)
        ls = self._ls(name, by)
        self._chk_utc(ls, off)
        return self._from_py("OffsetDateTime", ls, _dt.timezone(_dt.timedelta(seconds=off)), name)

    def zone(self, name):
        z = self._zones.get(name)
        if z is None:
            key = self.zone_map.get(name)
            if key is None:
                i = self._given("zone:" + name)
                if i is None:
                    i = self.rng.randrange(len(ZONES))
                self._rec("zone:" + name, i)
                key = ZONES[i % len(ZONES)]
            else:
                self._rec("zone:" + name, key)
            z = self._zones[name] = ConcZone(key)
        self.last_zone = z
        return z

    def zone_like(self, name, other):
        if self.bool(name + ".same_zone"):
            return other
        z = self.zone(name)
        if z.key == other.key:
            raise Reject()
        return z

    def zoned(self, name, zone, by="ls", fold=None):
        f = self.int(name + ".fold", 0, 1) if fold is None else fold
        ls = self._ls(name, by, zone)
        o0, o1 = zone.offs(ls)
        if o0 < o1:
            raise Reject()
        self._chk_utc(ls, o1 if f else o0)
        ns = self.nanos(name)
        return self._reg(self.W.ZonedDateTime(
            *self._dtargs(ls), nanosecond=ns, tz=zone.key,
            disambiguate="later" if f else "earlier"))

    def syszone(self):
        return ConcSysZone()

    def switch_system(self, n):
        if n == 1:
            set_tz(self.log["TZ"])
            return
        name = f"SYS{n}"
        tz = self.zone_map.get(name)
        if tz is None:
            i = self._given("zone:" + name)
            if i is None:
                i = self.rng.randrange(len(SYS_ZONES))
            self._rec("zone:" + name, i)
            tz = SYS_ZONES[i % len(SYS_ZONES)]
        set_tz(tz)

    def system(self, name, by="ls"):
        z = self.syszone()
        v = self._given(name + ".off")
        if v is None:
            r = self.rng
            if r.random() < 0.85:
                ls = self._ls(name, by, z)
                o = r.choice(z.offs(ls))
                v = o
            else:
                v = r.choice([0, 3600, -18000, r.randint(-86399, 86399)])
                ls = self._ls(name, by)
        else:
            ls = self._ls(name, by)
        self._rec(name + ".off", v)
        self._chk_utc(ls, v)
        return self._from_py("SystemDateTime", ls, _dt.timezone(_dt.timedelta(seconds=v)), name)

    def timedelta(self, name, lim=MAX_NS):
        return self._reg(self.W.TimeDelta(nanoseconds=self.int(name + ".ns", -lim, lim)))

    def datedelta(self, name):
        m = self.int(name + ".months", -MAX_MONTHS, MAX_MONTHS)
        d = self.int(name + ".days", -MAX_DAYS, MAX_DAYS)
        if self.values is None and ((m < 0 < d) or (d < 0 < m)):
            d = -d
            self._rec(name + ".days", d)
        if (m < 0 < d) or (d < 0 < m):
            raise Reject()
        return self._reg(self.W.DateDelta(months=m, days=d))

    def datetimedelta(self, name):
        m = self.int(name + ".months", -MAX_MONTHS, MAX_MONTHS)
        d = self.int(name + ".days", -MAX_DAYS, MAX_DAYS)
        n = self.int(name + ".ns", -MAX_NS, MAX_NS)
        if self.values is None:
            s = self.rng.choice([1, -1])
            m, d, n = s * abs(m), s * abs(d), s * abs(n)
            self._rec(name + ".months", m)
            self._rec(name + ".days", d)
            self._rec(name + ".ns", n)
        if min(m, d, n) < 0 < max(m, d, n):
            raise Reject()
        return self._reg(self.W.DateTimeDelta(months=m, days=d, nanoseconds=n))

    # ---- text --------------------------------------------------------------------
    def fmt(self, v, width):
        s = str(v).rjust(width, "0")
        assert len(s) == width
        return s

    def num(self, v):
        assert v >= 0
        return str(v)

    def cat(self, *xs):
        return "".join(xs)

    def is_quotient(self, x, num, den):
        return type(x) is float and x == num / den

    CHARS = ("0123456789-+:.,TtZzPpHhMmSsYyWwDd [] _/abcXKJ\n\t\x00\u0660\u0669\u09ea\uff10\uff19"
             "\u00b2\u2212\u2013\u00e9\U0001d7d8(\"'")

    def _anycode(self, name):
        v = self._given(name)
        if v is None:
            v = ord(self.rng.choice(self.CHARS))
        self._rec(name, v)
        if 0xD800 <= v <= 0xDFFF:
            return v
        return v

    def anychar(self, name, avoid=None):
        return chr(self._anycode(name))

    def text(self, name, gen):
        v = self._given(name)
        if v is None:
            r = self.rng
            v = gen(r)
            while r.random() < 0.45:
                i = r.randint(0, len(v))
                k = r.randrange(5)
                if k == 0:
                    v = v[:i] + r.choice(self.CHARS) + v[i:]
                elif k == 1:
                    v = v[:i] + v[i + 1:]
                elif k == 2:
                    v = v[:i] + r.choice(self.CHARS) + v[i + 1:]
                elif k == 3:
                    v = v[:i] + str(r.randint(0, 9)) + v[i + 1:]
                else:
                    j = min(len(v), i + r.randint(1, 3))
                    v = v[:j] + v[i:j] + v[j:] if r.random() < .7 else v[:i]
        self._rec(name, v)
        if isinstance(v, list):
            v = "".join(x if isinstance(x, str) else self.zone(x["zone"]).key for x in v)
        return v

    def cursor(self, s):
        return ConcCursor(s)

    def named_zone(self, key):
        import zoneinfo
        try:
            zoneinfo.ZoneInfo(key)
        except Exception:
            return None
        return ConcZone(key)

    def anytext(self, name, n):
        return "".join(chr(self._anycode(f"{name}[{i}]")) for i in range(n))

    def code(self, s, i):
        return ord(s[i])

    def length(self, s):
        return len(s)

    # ---- standard library values ----------------------------------------------------
    def pytz(self, kind, zone=None, off_us=None):
        if kind == "naive":
            return None
        if kind == "utc":
            return UTC
        if kind == "fixed":
            return _dt.timezone(_dt.timedelta(microseconds=off_us))
        if kind == "zone":
            return zone.zi
        if kind == "none":
            return NoOffTz()
        return WrapTz(zone.zi)

    def pydt(self, name, tz=None, fold=None, sub=False, zone=None):
        cls = SubDT if sub else _dt.datetime
        f = self.int(name + ".fold", 0, 1) if fold is None else fold
        ls = self._ls(name, "ls", zone)
        n = ls_to_naive(ls)
        return cls(n.year, n.month, n.day, n.hour, n.minute, n.second,
                   self.int(name + ".us", 0, 999999), tz, fold=f)

    def strptime_args(self, d):
        t = d.isoformat(" ", "microseconds")
        f = "%Y-%m-%d %H:%M:%S.%f" + ("" if d.tzinfo is None else "%z")
        assert _dt.datetime.strptime(t, f) == d
        return t, f

    def pydate(self, name, sub=False):
        d = _dt.date.fromordinal(self.int(name + ".ord", 1, MAXORD))
        return SubD(d.year, d.month, d.day) if sub else d

    def pytime(self, name, tz=None, sub=False, fold=0):
        cls = SubT if sub else _dt.time
        s = self.int(name + ".sod", 0, 86399)
        return cls(s // 3600, s // 60 % 60, s % 60, self.int(name + ".us", 0, 999999), tz, fold=fold)

    def pytimedelta(self, name):
        lim = 999999999 * 86400 * 10 ** 6
        return _dt.timedelta(microseconds=self.int(name + ".us", -lim, lim))

    def pyview(self, d):
        if isinstance(d, _dt.datetime):
            return naive_to_ls(d), d.microsecond
        if isinstance(d, _dt.date):
            return (d.toordinal(),)
        if isinstance(d, _dt.time):
            return d.hour * 3600 + d.minute * 60 + d.second, d.microsecond
        return ((d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds,)

    def is_py(self, d):
        return isinstance(d, (_dt.date, _dt.time, _dt.timedelta))

    def pyoff_(self, d):
        return self.pyoff(d) if isinstance(d, _dt.datetime) else None

    def pyoff(self, d):
        o = d.utcoffset()
        return None if o is None else _secs(o) * 10 ** 6 + o.microseconds

    def pytype(self, d):
        return {_dt.date: "date", _dt.datetime: "datetime", _dt.time: "time",
                _dt.timedelta: "timedelta"}.get(type(d), "sub")

    def pyzone(self, d):
        return d.tzinfo.key if isinstance(d.tzinfo, zoneinfo.ZoneInfo) else None

    # ---- the real clock: readings chosen by the contract's inputs -------------------
    _readings = None

    def use_clock(self):
        if not hasattr(self.W, "time_ns"):      # the extension reads the clock itself
            raise Reject()
        self._readings = []

        def time_ns():
            i = len(self._readings)
            lo = -62135596800 * 10**9 + 10**18
            hi = 253402300799 * 10**9 - 10**18
            v = self._given(f"clock{i}")
            if v is None:
                if i:
                    v = self._readings[-1] + self.rng.choice([0, 1, 999, 10**9, self.rng.randint(0, 10**12)])
                else:
                    v = self.rng.randint(lo, hi)
            if (i and v < self._readings[-1]) or not lo <= v <= hi:
                raise Reject()
            self._rec(f"clock{i}", v)
            self._readings.append(v)
            return v
        self._saved = (_time.time_ns, self.W.time_ns)
        _time.time_ns = time_ns
        self.W.time_ns = time_ns

    def clock(self):
        return self._readings

    def cleanup(self):
        if self._readings is not None:
            _time.time_ns = self._saved[0]
            self.W.time_ns = self._saved[0]
            self._readings = None

    # ---- pickling and copying -------------------------------------------------------
    def pickled(self, a):
        import pickle
        return [pickle.loads(pickle.dumps(a, p)) for p in range(pickle.HIGHEST_PROTOCOL + 1)]

    def copied(self, a):
        import copy
        return [copy.copy(a), copy.deepcopy(a), copy.deepcopy([a])[0]]

    # ---- views -------------------------------------------------------------------
    def _fields(self, o):
        return o.py_datetime() if type(o).__name__ == "Instant" else o

    def ymd(self, d):
        d = self._fields(d)
        return d.year, d.month, d.day

    def sod(self, o):
        o = self._fields(o)
        return o.hour * 3600 + o.minute * 60 + o.second

    def ordinal(self, o):
        o = self._fields(o)
        return _dt.date(o.year, o.month, o.day).toordinal()

    def zone_of(self, z):
        return ConcZone(z.tz)

    def fold_of(self, z):
        return z.py_datetime().fold

    def _lns(self, o):
        return (self.ordinal(o) * 86400 + self.sod(o)) * G + o.nanosecond

    def view(self, o):
        try:
            return self._view(o)
        except (Reject, Violation):
            raise
        except Exception as e:
            raise Violation(f"reading the {type(o).__name__}: {type(e).__name__}: {e}")

    def _view(self, o):
        n = type(o).__name__
        if n == "Date":
            return (self.ordinal(o),)
        if n == "YearMonth":
            return o.year, o.month
        if n == "MonthDay":
            return o.month, o.day
        if n == "Time":
            return (self.sod(o) * G + o.nanosecond,)
        if n == "LocalDateTime":
            return (self._lns(o),)
        if n == "Instant":
            return (o.timestamp_nanos() + EPOCH_LS * G,)
        if n in ("OffsetDateTime", "SystemDateTime"):
            return self._lns(o), o.offset.in_nanoseconds() // G
        if n == "ZonedDateTime":
            return self._lns(o), o.offset.in_nanoseconds() // G, o.tz
        if n == "TimeDelta":
            return (o.in_nanoseconds(),)
        if n == "DateDelta":
            return o.in_months_days()
        if n == "DateTimeDelta":
            return o.date_part().in_months_days() + (o.time_part().in_nanoseconds(),)
        raise Reject()

    def rebuilt(self, o, v):
        """The same value through the public constructors."""
        n, C = type(o).__name__, type(o)
        if n in ("Date", "LocalDateTime", "OffsetDateTime", "ZonedDateTime"):
            f = self.ymd(o)
        if n == "Date":
            return C(*f)
        if n in ("YearMonth", "MonthDay"):
            return C(*v)
        t = lambda x: (x // G // 3600 % 24, x // G // 60 % 60, x // G % 60)
        if n == "Time":
            return C(*t(v[0]), nanosecond=v[0] % G)
        if n == "Instant":
            return C.from_timestamp_nanos(v[0] - EPOCH_LS * G)
        if n in ("LocalDateTime", "OffsetDateTime"):
            k = {"offset": self.W.TimeDelta(seconds=v[1])} if n == "OffsetDateTime" else {}
            return C(*f, *t(v[0]), nanosecond=v[0] % G, **k)
        if n == "ZonedDateTime":
            for d in ("earlier", "later"):
                try:
                    r = C(*f, *t(v[0]), nanosecond=v[0] % G, tz=v[2], disambiguate=d)
                except (ValueError, OverflowError):
                    continue
                if r.offset.in_nanoseconds() == v[1] * G:
                    return r
        if n == "TimeDelta":
            return C(nanoseconds=v[0])
        if n == "DateDelta":
            return C(months=v[0], days=v[1])
        if n == "DateTimeDelta":
            return C(months=v[0], days=v[1], nanoseconds=v[2])

    def invariant(self, o, label):
        n = type(o).__name__
        ck = lambda b, m: self.check(b, f"{label}: invariant of {n}: {m}")
        v = self.view(o)
        self._invariant(o, n, v, ck)
        try:
            r = self.rebuilt(o, v)
            if r is None:
                return
            same = r == o and o == r and hash(r) == hash(o) and self.view(r) == v
            same = same and str(r) == str(o)
            if "__le__" in dir(type(o)) and n not in ("DateDelta", "DateTimeDelta"):
                same = same and r <= o and not r < o
        except (Reject, Violation):
            raise
        except Exception as e:
            ck(False, f"usable like a newly built one ({type(e).__name__}: {e})")
        ck(same, "equal to a newly built one")

    def _invariant(self, o, n, v, ck):
        if n in ("Time", "LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"):
            ck(isinstance(o.nanosecond, int) and 0 <= o.nanosecond < G, "0 <= nanosecond < 10**9")
        if n == "Instant":
            ck(MIN_NS <= v[0] <= MAX_INSTANT_NS, "in UTC")
        if n in ("OffsetDateTime", "ZonedDateTime", "SystemDateTime"):
            ck(MIN_LS <= (v[0] // G) - v[1] <= MAX_LS, "moment within the range of instants")
            ck(o.offset.in_nanoseconds() % G == 0, "whole-second offset")
            if n == "ZonedDateTime":
                o0, o1 = ConcZone(o.tz).offs(v[0] // G)
                ck(o0 >= o1, "the local time exists in its zone")
        if n == "TimeDelta":
            ck(abs(v[0]) <= MAX_NS, "within range")
        if n == "DateDelta":
            ck(abs(v[0]) <= MAX_MONTHS and abs(v[1]) <= MAX_DAYS, "within range")
            ck(v[0] * v[1] >= 0, "one sign")
        if n == "DateTimeDelta":
            ck(abs(v[0]) <= MAX_MONTHS and abs(v[1]) <= MAX_DAYS and abs(v[2]) <= MAX_NS,
               "within range")
            ck(not (min(v) < 0 < max(v)), "one sign")

    def check_frame(self):
        for o, v in self.frame:
            if self.view(o) != v:
                self.check(False, f"frame: {type(o).__name__} unchanged")


def set_tz(key):
    os.environ["TZ"] = key
    _time.tzset()


class ConcCursor:
    def __init__(self, s):
        self.s, self.i = s, 0

    def end(self):
        return self.i >= len(self.s)

    def lit(self, chars):
        c = self.s[self.i:self.i + 1]
        if c and c in chars:
            self.i += 1
            return c
        return None

    def skip(self):
        self.i += 1
        return self.i <= len(self.s)

    def digit(self):
        c = self.lit("0123456789")
        return None if c is None else int(c)

    def number(self, n):
        t = 0
        for _ in range(n):
            d = self.digit()
            if d is None:
                return None
            t = t * 10 + d
        return t

    def digits(self, atmost):
        j = self.i
        while self.lit("0123456789") is not None:
            pass
        w = self.i - j
        if 1 <= w <= atmost:
            return int(self.s[j:self.i]), w
        self.i = j
        return None

    def at_digit(self):
        return self.s[self.i:self.i + 1] in set("0123456789")

    def span(self, no, atmost):
        j = self.i
        while not self.end() and self.s[self.i] not in no:
            self.i += 1
        t = self.s[j:self.i]
        return t if 1 <= len(t) <= atmost else None
