"""P37: results do not depend on earlier calls.

The frame argument: an operation, on any operands, writes nothing to the package's modules, classes
and caches; so no sequence of such operations changes what a later one does. Where something is
written (a cache), the outcome is compared instead: any operation alone, and the same operation
after this one on any other operands (for operations that read the system timezone: made while it
was another).
"""
from . import contract
from .c_frame import OPS, SYS_EXTRA, D, num, kwr
from .c_pickle import value
from engine.ctx import SymCtx

NAMED = {"int", "field", "choice", "bool", "date", "yearmonth", "monthday", "time", "local",
         "instant", "offset", "offset_secs", "zone", "zoned", "system", "timedelta", "datedelta",
         "datetimedelta"}


class Again:
    """The context, giving the same operand whenever the same name is asked for; with a prefix,
    operands of their own."""

    def __init__(self, c, prefix="", kind=None, op=None):
        self._c, self._p, self._seen = c, prefix, {}
        self.case = dict(c.case, kind=kind or c.case["kind"], op=op or c.case["op"])

    def __getattr__(self, n):
        f = getattr(self._c, n)
        if n not in NAMED:
            return f

        def build(name, *a, **k):
            key = n, name
            if key not in self._seen and n == "zone" and self._p:
                self._seen[key] = self._c.zone_like(self._p + name, self._c.zone(name))
            elif key not in self._seen:
                self._seen[key] = f(self._p + name, *a, **k)
            return self._seen[key]
        return build


def same_result(c, x, y):
    if c.cls(x) != c.cls(y):
        return False
    if isinstance(x, (tuple, list)):
        return len(x) == len(y) and c.and_(*[same_result(c, a, b) for a, b in zip(x, y)])
    if x is None or x is y:
        return True
    if isinstance(getattr(c.W, c.cls(x), None), type) and type(x) is getattr(c.W, c.cls(x)):
        if c.cls(x) not in ("Weekday",):
            return c.eqs(c.view(x), c.view(y))
    if c.is_py(x):
        return c.eqs((c.pyview(x), c.pyoff_(x)), (c.pyview(y), c.pyoff_(y)))
    if isinstance(x, float) or c.cls(x) == "SymFloat":
        return c.truth(x == y)
    return c.eqs(x, y)


def rounded(*how):
    return lambda c, a: c.call(a.round, *how, **kwr(c))


def fields(c, a):
    return dict(hour=c.field("h", 0, 23), second=c.field("s", 0, 59),
                nanosecond=c.field("ns", 0, 10 ** 9 - 1))


# the operations of the frame contracts, and those that make values
ALL = {k: dict(v) for k, v in OPS.items()}
for k in ("time", "instant", "offset", "zoned", "local", "timedelta", "system"):
    ALL[k]["round 7 hours"] = rounded("hour", 7, "half_even")
    ALL[k]["round 15 minutes"] = rounded("minute", 15, "floor")
for k, t in dict(date="Date", yearmonth="YearMonth", monthday="MonthDay", time="Time", local="LocalDateTime",
                 instant="Instant", offset="OffsetDateTime", zoned="ZonedDateTime").items():
    ALL[k]["reparse"] = lambda c, a: c.call(type(a).parse_common_iso, c.call(a.format_common_iso))
ALL["date"]["zoned"] = lambda c, a: c.call(
    c.W.ZonedDateTime, a.year, a.month, a.day, **fields(c, a), tz=c.zone("tz").key,
    disambiguate=c.choice("dis", ["compatible", "earlier", "later", "raise"]))
ALL["date"]["local"] = lambda c, a: c.call(c.W.LocalDateTime, a.year, a.month, a.day, **fields(c, a))
ALL["date"]["instant"] = lambda c, a: c.call(c.W.Instant.from_utc, a.year, a.month, a.day, **fields(c, a))
ALL["date"]["offset"] = lambda c, a: c.call(
    c.W.OffsetDateTime, a.year, a.month, a.day, **fields(c, a), offset=c.int("off", -30, 30))
ALL["date"]["from_py_date"] = lambda c, a: c.call(c.W.Date.from_py_date, c.call(a.py_date))
ALL["timedelta"]["offset"] = lambda c, a: c.call(
    c.W.OffsetDateTime, 2020, 2, c.field("d", 1, 31), offset=a)
ALL["timedelta"]["from_py_timedelta"] = lambda c, a: c.call(c.W.TimeDelta.from_py_timedelta, c.call(a.py_timedelta))
ALL["timedelta"]["constructor"] = lambda c, a: c.call(
    c.W.TimeDelta, hours=num(c, "h"), milliseconds=num(c, "ms"), nanoseconds=num(c, "ns"))
ALL["datedelta"]["constructor"] = lambda c, a: c.call(
    c.W.DateDelta, years=num(c, "y"), months=num(c, "m"), weeks=num(c, "w"), days=num(c, "d"))
ALL["instant"]["from_timestamp"] = lambda c, a: c.call(c.W.Instant.from_timestamp, num(c))
ALL["instant"]["zoned from_timestamp"] = lambda c, a: c.call(
    c.W.ZonedDateTime.from_timestamp_nanos, num(c), tz=c.zone("tz").key)
ALL["instant"]["offset from_timestamp"] = lambda c, a: c.call(
    c.W.OffsetDateTime.from_timestamp_millis, num(c), offset=c.int("off", -30, 30), ignore_dst=True)
for k in ("instant", "offset", "zoned", "local"):
    ALL[k]["from_py_datetime"] = lambda c, a: c.call(type(a).from_py_datetime, c.call(a.py_datetime))
ALL["system"]["from_timestamp"] = lambda c, a: c.call(c.W.SystemDateTime.from_timestamp, num(c))
ALL["system"]["constructor"] = lambda c, a: c.call(
    c.W.SystemDateTime, a.year, a.month, a.day, **fields(c, a),
    disambiguate=c.choice("dis", ["compatible", "earlier", "later", "raise"]))
QUIET = {"copy", "pickle", "str", "le", "gt", "ge", "ne"}   # alike to others where a history matters


def later_ops(kind, op, system):
    """The operations that may come after: the same on any kind, and all on the same kind."""
    if system:
        return [("system", o) for o in ALL["system"] if o not in QUIET] + \
            [(k, o) for k, o in SYS_EXTRA.items()]
    l = [(k, o) for k in ALL if k != "system" for o in ALL[k]
         if (o == op or k == kind) and o not in QUIET]
    return [(kind, op)] + [x for x in l if x != (kind, op)]


def operation(kind, op):
    if kind != "system" and SYS_EXTRA.get(kind) == op:
        return lambda c, a: c.call(getattr(a, op), **(D if kind == "local" else {}))
    return ALL[kind][op]


def history_of(c, system):
    kind, op = c.case["kind"], c.case["op"]
    other = Again(c, "2:")
    sym = isinstance(c, SymCtx)
    then = later_ops(kind, op, system)

    def earlier():
        c.fresh_state()
        if system:
            c.switch_system(2)
        b, _ = value(other, kind)
        c.run(lambda: operation(kind, op)(other, b))
        if system:
            c.switch_system(1)
        return c.state_changed()

    if sym and earlier() is None:
        c.check(True, f"{kind} {op}: nothing is written")
        return
    k, o = c.choice("then", then)
    what = f"{k} {o} after {kind} {op}" + " in another system timezone" * system
    first = Again(c, "", k, o)
    a, _ = value(first, k)
    c.near("2:")
    if not sym:
        earlier()
    later = c.run(lambda: operation(k, o)(first, a))
    c.fresh_state()
    alone = c.run(lambda: operation(k, o)(first, a))
    c.fresh_state()
    if alone.exc is not None or later.exc is not None:
        c.check(type(alone.exc) is type(later.exc), f"{what}: fails or not as before")
        return
    c.check(same_result(c, alone.value, later.value), f"{what}: the same result")


@contract("P37", [dict(kind=k, op=o) for k in ALL if k != "system" for o in ALL[k]])
def history(c):
    history_of(c, False)


@contract("P37", [dict(kind="system", op=o) for o in ALL["system"]]
          + [dict(kind=k, op=o) for k, o in SYS_EXTRA.items()], sys=True)
def system_history(c):
    history_of(c, True)
