"""P34: operations never change their operands.

Every contract of the other properties already ends with a frame check on all operands it built;
here each public operation of each type is listed once more, with the hash, the equality with
itself and the class constants compared as well.
"""
import operator as op
from . import contract
from .c_pickle import value

CONSTS = [(t, n) for t, ns in dict(
    Date="MIN MAX", YearMonth="MIN MAX", MonthDay="MIN MAX", Time="MIDNIGHT NOON MAX",
    Instant="MIN MAX", LocalDateTime="MIN MAX", DateDelta="ZERO", TimeDelta="ZERO MIN MAX",
    DateTimeDelta="ZERO").items() for n in ns.split()]
CONSENT = dict(ignore_dst=True)
D = dict(disambiguate="compatible")


def num(c, n="n"):
    return c.int(n, -10 ** 18, 10 ** 18)


def attrs(*names):
    return {n: (lambda n: lambda c, a: getattr(a, n))(n) for n in names}


def noargs(*names):
    return {n + "()": (lambda n: lambda c, a: c.call(getattr(a, n)))(n) for n in names}


def inplace(*pairs):
    """Augmented assignment must rebind, not change the operand."""
    f = {"+=": op.iadd, "-=": op.isub, "*=": op.imul, "//=": op.ifloordiv, "%=": op.imod,
         "+": op.add, "-": op.sub, "*": op.mul, "//": op.floordiv, "%": op.mod, "/": op.truediv}
    return {o + " " + k: (lambda o, k: lambda c, a: f[o](a, operand(c, k)))(o, k)
            for o, k in pairs}


def operand(c, k):
    if k == "int":
        return num(c)
    return value(c, k, "b")[0] if k != "zoned" else c.zoned("b", c.zone("tz"))


COMMON = {
    "==": lambda c, a: c.truth(a == a),
    "str": lambda c, a: c.str(a),
    "format_common_iso()": lambda c, a: c.call(a.format_common_iso),
    "copy": lambda c, a: c.copied(a),
    "pickle": lambda c, a: c.pickled(a),
}
ORDER = {o.__name__: (lambda o: lambda c, a: c.truth(o(a, operand(c, c.case["kind"]))))(o)
         for o in (op.lt, op.le, op.gt, op.ge, op.eq, op.ne)}
DATEF = attrs("year", "month", "day")
TIMEF = attrs("hour", "minute", "second", "nanosecond")
EXACT = {
    **noargs("timestamp", "timestamp_millis", "timestamp_nanos", "py_datetime"),
    "to_fixed_offset()": lambda c, a: c.call(a.to_fixed_offset),
    "to_fixed_offset(n)": lambda c, a: c.call(a.to_fixed_offset, c.int("h", -30, 30)),
    "to_tz": lambda c, a: c.call(a.to_tz, c.zone("to").key),
    "difference": lambda c, a: c.call(a.difference, operand(c, "instant")),
    "exact_eq": lambda c, a: c.call(a.exact_eq, operand(c, c.case["kind"])),
    "- instant": lambda c, a: a - operand(c, "instant"),
}
LOCALF = {
    **DATEF, **TIMEF, **noargs("date", "time"),
    "replace_date": lambda c, a: c.call(a.replace_date, c.date("x"), **kw(c)),
    "replace_time": lambda c, a: c.call(a.replace_time, c.time("x"), **kw(c)),
    "replace": lambda c, a: c.call(a.replace, day=c.field("d", 1, 31),
                                   nanosecond=c.field("ns", 0, 10 ** 9 - 1), **kw(c)),
    "add(units)": lambda c, a: c.call(a.add, months=num(c), nanoseconds=num(c, "ns"), **kw(c)),
    "subtract(units)": lambda c, a: c.call(a.subtract, years=num(c), hours=num(c, "h"), **kw(c)),
    "add(delta)": lambda c, a: c.call(a.add, c.datetimedelta("b"), **kw(c)),
    "subtract(delta)": lambda c, a: c.call(a.subtract, c.timedelta("b"), **kw(c)),
    "round": lambda c, a: c.call(a.round, "minute", 15, "half_even", **kwr(c)),
    "round day": lambda c, a: c.call(a.round, "day", **kwr(c)),
}


def kw(c):
    k = c.case["kind"]
    return D if k in ("zoned", "system") else CONSENT if k == "offset" else \
        CONSENT if k == "local" and c.case["op"][:3] in ("add", "sub") else {}


def kwr(c):
    return CONSENT if c.case["kind"] == "offset" else {}


KNOWS = {"offset": attrs("offset"), "zoned": attrs("offset", "tz"), "system": attrs("offset")}
OPS = {
    "date": {**COMMON, **ORDER, **DATEF, **noargs("year_month", "month_day", "py_date"),
             "day_of_week": lambda c, a: c.call(a.day_of_week),
             "add": lambda c, a: c.call(a.add, months=c.int("n", -10 ** 6, 10 ** 6), days=c.int("d", -10 ** 7, 10 ** 7)),
             "subtract": lambda c, a: c.call(a.subtract, c.datedelta("b")),
             "days_until": lambda c, a: c.call(a.days_until, c.date("b")),
             "days_since": lambda c, a: c.call(a.days_since, c.date("b")),
             "at": lambda c, a: c.call(a.at, c.time("t")),
             "replace": lambda c, a: c.call(a.replace, day=c.field("d", 1, 31)),
             **inplace(("+=", "datedelta"), ("-=", "datedelta"), ("-=", "date"))},
    "yearmonth": {**COMMON, **ORDER, **attrs("year", "month"),
                  "on_day": lambda c, a: c.call(a.on_day, c.field("d", 1, 31)),
                  "replace": lambda c, a: c.call(a.replace, month=c.field("m", 1, 12))},
    "monthday": {**COMMON, **ORDER, **attrs("day", "month"), **noargs("is_leap"),
                 "in_year": lambda c, a: c.call(a.in_year, c.field("y", 1, 9999)),
                 "replace": lambda c, a: c.call(a.replace, month=c.field("m", 1, 12))},
    "time": {**COMMON, **ORDER, **TIMEF, **noargs("py_time"),
             "on": lambda c, a: c.call(a.on, c.date("d")),
             "replace": lambda c, a: c.call(a.replace, nanosecond=c.field("ns", 0, 10 ** 9 - 1)),
             "round": lambda c, a: c.call(a.round, "second", 10, "ceil")},
    "instant": {**COMMON, **ORDER, **EXACT, **noargs("format_rfc3339", "format_rfc2822"),
                "add": lambda c, a: c.call(a.add, hours=num(c), nanoseconds=num(c, "ns")),
                "subtract": lambda c, a: c.call(a.subtract, seconds=num(c)),
                "round": lambda c, a: c.call(a.round, "hour", 6, "ceil"),
                **inplace(("+=", "timedelta"), ("-=", "timedelta"), ("-=", "instant"))},
    "offset": {**COMMON, **ORDER, **EXACT, **LOCALF, **attrs("offset"),
               **noargs("instant", "local", "format_rfc3339", "format_rfc2822")},
    "zoned": {**COMMON, **ORDER, **EXACT, **LOCALF, **attrs("offset", "tz"),
              **noargs("instant", "local", "is_ambiguous", "start_of_day", "day_length"),
              **inplace(("+=", "datetimedelta"), ("-=", "datetimedelta"), ("-=", "zoned"))},
    "system": {**COMMON, **ORDER, **EXACT, **LOCALF, **attrs("offset"),
               **noargs("instant", "local", "is_ambiguous", "start_of_day", "day_length"),
               **inplace(("+=", "datetimedelta"), ("-=", "timedelta"), ("-=", "system"))},
    "local": {**COMMON, **ORDER, **LOCALF, **noargs("py_datetime", "assume_utc"),
              "assume_fixed_offset": lambda c, a: c.call(a.assume_fixed_offset, c.int("h", -30, 30)),
              "assume_tz": lambda c, a: c.call(a.assume_tz, c.zone("to").key, disambiguate="raise"),
              "difference": lambda c, a: c.call(a.difference, c.local("b"), ignore_dst=True),
              **inplace(("+=", "datedelta"), ("-=", "datedelta"))},
    "timedelta": {**COMMON, **ORDER, **noargs(
        "in_days_of_24h", "in_hours", "in_minutes", "in_seconds", "in_milliseconds",
        "in_microseconds", "in_nanoseconds", "in_hrs_mins_secs_nanos", "py_timedelta"),
        "neg": lambda c, a: -a, "pos": lambda c, a: +a, "abs": lambda c, a: abs(a),
        "bool": lambda c, a: c.truth(a),
        "round": lambda c, a: c.call(a.round, "hour", 7, "half_ceil"),
        **inplace(("+=", "timedelta"), ("-=", "timedelta"), ("*=", "int"), ("//=", "timedelta"),
                  ("%=", "timedelta"), ("/", "int"), ("+=", "datedelta"), ("-=", "datetimedelta"))},
    "datedelta": {**COMMON, **noargs("in_months_days", "in_years_months_days"),
                  "neg": lambda c, a: -a, "pos": lambda c, a: +a, "abs": lambda c, a: abs(a),
                  "bool": lambda c, a: c.truth(a),
                  **inplace(("+=", "datedelta"), ("-=", "datedelta"), ("*=", "int"),
                            ("+=", "timedelta"), ("-=", "datetimedelta"))},
    "datetimedelta": {**COMMON, **noargs("in_months_days_secs_nanos", "date_part", "time_part"),
                      "neg": lambda c, a: -a, "pos": lambda c, a: +a, "abs": lambda c, a: abs(a),
                      "bool": lambda c, a: c.truth(a),
                      **inplace(("+=", "datetimedelta"), ("-=", "datetimedelta"), ("*=", "int"),
                                ("+=", "timedelta"), ("-=", "datedelta"))},
}
del OPS["offset"]["round day"], OPS["local"]["round day"]
SYS_EXTRA = {"instant": "to_system_tz", "offset": "to_system_tz", "zoned": "to_system_tz",
             "local": "assume_system_tz"}


def constants(c):
    return [(t, n, o, c.view(o)) for t, n in CONSTS
            for o in [getattr(getattr(c.W, t), n, None)] if o is not None]


def untouched(c, kind, what, f):
    a, _ = value(c, kind)
    v, h, k = c.view(a), c.hash(a), constants(c)
    c.run(lambda: f(c, a))
    c.check(c.eqs(c.view(a), v), f"{what}: the operand keeps its value")
    h2 = c.hash(a)
    c.check(h.same(h2) if hasattr(h, "same") else h == h2, f"{what}: the operand keeps its hash")
    c.check(c.truth(a == a), f"{what}: the operand equals itself")
    for t, n, o, w in k:
        c.check(getattr(getattr(c.W, t), n) is o and c.eqs(c.view(o), w), f"{what}: {t}.{n} is unchanged")


@contract("P34", [dict(kind=k, op=o) for k in OPS if k != "system" for o in OPS[k]])
def operands(c):
    k, o = c.case["kind"], c.case["op"]
    untouched(c, k, f"{k} {o}", OPS[k][o])


@contract("P34", [dict(kind="system", op=o) for o in OPS["system"]]
          + [dict(kind=k, op=o) for k, o in SYS_EXTRA.items()], sys=True)
def system_operands(c):
    k, o = c.case["kind"], c.case["op"]
    f = OPS[k].get(o) or (lambda c, a: c.call(getattr(a, o), **(D if k == "local" else {})))
    untouched(c, k, f"{k} {o}", f)
