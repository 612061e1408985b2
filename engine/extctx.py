"""The context in which the contracts are evaluated on the compiled extension's code.

The contracts are the ones the Python implementation is held to; only how a value is built
and read differs: a value of the extension is the crate's own struct.
"""
from __future__ import annotations
from . import sym, models, cal
from .ctx import (SymCtx, SymZone, Outcome, Violation, G, MIN_LS, MAX_LS, MAX_NS, MAX_MONTHS,
                  MAX_DAYS)
from .sym import sb_and, sb_or, sb_not, ite, is_sym, Unsupported, Infeasible
from .symstr import SymStr
from .mir import Agg, HashInt, Panic
from . import ffi

ROLES = {
    "Date": ("_py_date",), "YearMonth": ("_py_date",), "MonthDay": ("_py_date",),
    "Time": ("_py_time", "_nanos"), "LocalDateTime": ("_py_dt", "_nanos"),
    "Instant": ("_py_dt", "_nanos"), "OffsetDateTime": ("_py_dt", "_nanos"),
    "ZonedDateTime": ("_py_dt", "_nanos"), "SystemDateTime": ("_py_dt", "_nanos"),
    "TimeDelta": ("_total_ns",), "DateDelta": ("_months", "_days"),
    "DateTimeDelta": ("_date_part", "_time_part"),
}
STRUCT = {
    "Date": ("date::Date", ["year", "month", "day"]),
    "YearMonth": ("yearmonth::YearMonth", ["year", "month"]),
    "MonthDay": ("monthday::MonthDay", ["month", "day"]),
    "Time": ("time::Time", ["hour", "minute", "second", "nanos"]),
    "DateDelta": ("date_delta::DateDelta", ["months", "days"]),
    "TimeDelta": ("time_delta::TimeDelta", ["secs", "nanos"]),
    "DateTimeDelta": ("datetime_delta::DateTimeDelta", ["ddelta", "tdelta"]),
    "Instant": ("instant::Instant", ["secs", "nanos"]),
    "LocalDateTime": ("local_datetime::DateTime", ["date", "time"]),
    "OffsetDateTime": ("offset_datetime::OffsetDateTime", ["date", "time", "offset_secs"]),
    "SystemDateTime": ("offset_datetime::OffsetDateTime", ["date", "time", "offset_secs"]),
    "ZonedDateTime": ("zoned_datetime::ZonedDateTime", ["date", "time", "offset_secs", "zoneinfo"]),
}


def check_layout(prog):
    for n, (tag, fields) in STRUCT.items():
        if prog.structs.get(tag) != fields:
            raise Unsupported(f"the fields of {tag} are not the ones the contracts know")


def struct(cls, *xs):
    return Agg(STRUCT[cls][0], None, tuple(xs))


class ExtCtx(SymCtx):
    """W is the module the extension builds when it is initialised; vm runs its code."""
    native = True

    def __init__(self, path, ext, sink, case):
        super().__init__(path, ext.W, ext.pkg, sink, case)
        self.ext, self.vm = ext, ext.vm
        path.hooks["clock from 1970"] = True    # std reads the clock as a time since then

    # ---- running ------------------------------------------------------------------
    def run(self, thunk):
        try:
            return super().run(thunk)
        except Panic as e:
            self.check(False, f"the extension does not abort the process ({e})")
            raise Infeasible()

    def hash(self, x):
        f = getattr(type(x), "_ext_hash", None)
        return f(x) if f is not None else super().hash(x)

    def other_str(self, name, avoid=()):
        if not avoid:
            return super().other_str(name)
        t = self.text(name, None)
        for a in avoid:
            self.assume(sb_not(t == a))
        return t

    # ---- building -----------------------------------------------------------------
    def _date(self, md):
        return struct("Date", *md.ymd)

    def _time(self, t, nanos):
        return struct("Time", *t.hms, nanos)

    def _data(self, cls, kw):
        g = kw.get
        if cls == "Date":
            return self._date(g("_py_date"))
        if cls == "YearMonth":
            return struct(cls, *g("_py_date").ymd[:2])
        if cls == "MonthDay":
            return struct(cls, *g("_py_date").ymd[1:])
        if cls == "Time":
            return self._time(g("_py_time"), g("_nanos"))
        if cls == "TimeDelta":
            n = g("_total_ns")
            return struct(cls, n // G, n % G)
        if cls == "DateDelta":
            return struct(cls, g("_months"), g("_days"))
        if cls == "DateTimeDelta":
            return struct(cls, g("_date_part").data, g("_time_part").data)
        dt, ns = g("_py_dt"), g("_nanos")
        if cls == "Instant":
            return struct(cls, dt.ls, ns)
        d, t = struct("Date", *dt.ymd), struct("Time", *dt.hms, ns)
        if cls == "LocalDateTime":
            return struct(cls, d, t)
        off = dt.offsec() // models.US
        if cls == "ZonedDateTime":
            return struct(cls, d, t, off, ffi.P(dt.tzinfo))
        return struct(cls, d, t, off)

    def _new(self, cls, **kw):
        C = getattr(self.W, cls)
        o = self.vm.new(C, self._data(cls, kw))
        self.frame.append((o, o.data))
        return o

    def dummy(self, cls):
        return 1 if cls == "YearMonth" else 2004

    def has(self, o, role):
        r = ROLES.get(type(o).__name__)
        if r is None or not isinstance(o, ffi.ExtObj):
            raise Unsupported("representation of " + type(o).__name__)
        return role in r

    # ---- reading ------------------------------------------------------------------
    def _md(self, y, m, d):
        md = object.__new__(models.MDate)
        md._n, md._y = None, (y, m, d)
        return md

    def get(self, o, role):
        n = type(o).__name__
        if not self.has(o, role):
            raise Unsupported(f"{role} of {n}")
        f = o.data.f
        if n == "Date":
            return self._md(*f)
        if n == "YearMonth":
            return self._md(f[0], f[1], 1)
        if n == "MonthDay":
            return self._md(2004, f[0], f[1])
        if n == "Time":
            return f[3] if role == "_nanos" else models.MTime._of(None, hms=f[:3])
        if n == "TimeDelta":
            return f[0] * G + f[1]
        if n == "DateDelta":
            return f[0] if role == "_months" else f[1]
        if n == "DateTimeDelta":
            return self.vm.new(self.W.DateDelta, f[0]) if role == "_date_part" else \
                self.vm.new(self.W.TimeDelta, f[1])
        if n == "Instant":
            if role == "_nanos":
                return f[1]
            return models.MDateTime._mk(f[0], 0, models.MTimezone.utc, 0)
        if role == "_nanos":
            return f[1].f[3]
        tz, fold = None, 0
        if n == "ZonedDateTime":
            tz = f[3].o
        elif n != "LocalDateTime":
            tz = models.MTimezone._mk(f[2] * models.US)
        dt = models.MDateTime._from(self._md(*f[0].f), f[1].f[:3], 0, tz, 0)
        if n == "ZonedDateTime":
            dt._fold_ = self.fold_of(o, dt)
        return dt

    def ymd(self, d):
        n = type(d).__name__
        if n in ("Date",):
            return d.data.f
        if n in ("LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"):
            return d.data.f[0].f
        return super().ymd(d)

    def fold_of(self, o, dt=None):
        f = o.data.f
        if type(o).__name__ != "ZonedDateTime":
            raise Unsupported("fold of " + type(o).__name__)
        if dt is None:
            dt = models.MDateTime._from(self._md(*f[0].f), f[1].f[:3], 0, f[3].o, 0)
        f[3].o.uoff(dt.ls - f[2])
        o0, o1 = f[3].o.offs(dt.ls)
        return ite(sb_and(f[2] == o1, o1 < o0), 1, 0)

    def _off(self, o):
        if type(o).__name__ == "Instant":
            return 0
        return o.data.f[2]

    def invariant(self, o, label):
        n = type(o).__name__
        if not isinstance(o, ffi.ExtObj):
            raise Unsupported("invariant of " + n)
        ck = lambda b, m: self.check(b, f"{label}: invariant of {n}: {m}")

        def date(d):
            y, m, k = d.f
            ck(sb_and(self.between(1, y, 9999), self.between(1, m, 12)), "a year and month")
            ck(self.between(1, k, cal.DIM(y, m)), "a day of the month")

        def time(t):
            h, mi, s, ns = t.f
            ck(sb_and(self.between(0, h, 23), self.between(0, mi, 59), self.between(0, s, 59)),
               "a clock time")
            ck(self.between(0, ns, G - 1), "0 <= nanosecond < 10**9")
        f = o.data.f
        if n == "Date":
            date(o.data)
        elif n == "YearMonth":
            ck(sb_and(self.between(1, f[0], 9999), self.between(1, f[1], 12)), "a year and month")
        elif n == "MonthDay":
            ck(self.between(1, f[0], 12), "a month")
            ck(self.between(1, f[1], cal.DIM(2004, f[0])), "a day of the month")
        elif n == "Time":
            time(o.data)
        elif n == "Instant":
            ck(self.between(MIN_LS, f[0], MAX_LS), "within the range of instants")
            ck(self.between(0, f[1], G - 1), "0 <= nanosecond < 10**9")
        elif n in ("LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"):
            date(f[0])
            time(f[1])
            if n != "LocalDateTime":
                ck(self.between(-86399, f[2], 86399), "an offset under a day")
                dt = self.get(o, "_py_dt")
                ck(self.between(MIN_LS, dt.ls - f[2], MAX_LS),
                   "moment within the range of instants")
                if n == "ZonedDateTime":
                    ck(isinstance(f[3].o, models.MZone), "has a zone")
                    o0, o1 = f[3].o.offs(dt.ls)
                    ck(sb_and(o0 >= o1, sb_or(f[2] == o0, f[2] == o1)),
                       "the local time exists in its zone, at this offset")
        elif n == "TimeDelta":
            ck(self.between(0, f[1], G - 1), "whole seconds and nanoseconds")
            ck(self.between(-MAX_NS, f[0] * G + f[1], MAX_NS), "within range")
        elif n == "DateDelta":
            m, d = f
            ck(sb_and(self.between(-MAX_MONTHS, m, MAX_MONTHS),
                      self.between(-MAX_DAYS, d, MAX_DAYS)), "within range")
            ck(sb_or(sb_and(m >= 0, d >= 0), sb_and(m <= 0, d <= 0)), "one sign")
        elif n == "DateTimeDelta":
            m, d, t = self.view(o)
            self.invariant(self.get(o, "_date_part"), label)
            self.invariant(self.get(o, "_time_part"), label)
            ck(sb_or(sb_and(m >= 0, d >= 0, t >= 0), sb_and(m <= 0, d <= 0, t <= 0)), "one sign")

    def state_changed(self):
        if self.vm.cell.v is not self.vm.init:
            return "the extension's state"
        return self.ext.pystate.changed()

    def fresh_state(self):
        self.ext.restore()

    def check_frame(self):
        for o, v in self.frame:
            if o.data is not v:
                self.check(False, f"frame: the {type(o).__name__} operand is unchanged")
