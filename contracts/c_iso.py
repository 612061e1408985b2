"""P21: the common ISO format of dates, times and datetimes; P26: RFC 3339."""
from . import contract, product
from engine.ctx import RANGE_ERR, MIN_LS, MAX_LS
G = 1_000_000_000


# ---- specification of the texts -------------------------------------------------
def frac(c, ns):
    """'' or '.' and 1-9 digits without trailing zeros."""
    t = c.fmt(ns, 9)
    n = 9
    while n and c.code(t, n - 1) == 48:
        n -= 1
    return [".", t[:n]] if n else []


def date_text(c, x):
    y, m, d = c.ymd(x)
    return [c.fmt(y, 4), "-", c.fmt(m, 2), "-", c.fmt(d, 2)]


def clock_text(c, s):
    return [c.fmt(s // 3600, 2), ":", c.fmt(s // 60 % 60, 2), ":", c.fmt(s % 60, 2)]


def time_text(c, x):
    """Clock time and fraction of anything with a time of day."""
    return clock_text(c, c.sod(x)) + frac(c, c.view(x)[0] % G)


def offset_text(c, off):
    if off < 0:
        sg, a = "-", -off
    else:
        sg, a = "+", off
    t = [sg, c.fmt(a // 3600, 2), ":", c.fmt(a // 60 % 60, 2)]
    if a % 60 != 0:
        t += [":", c.fmt(a % 60, 2)]
    return t


def canonical(c, x, kind, z=None):
    if kind == "Date":
        return c.cat(*date_text(c, x))
    if kind == "Time":
        return c.cat(*time_text(c, x))
    t = date_text(c, x) + ["T"] + time_text(c, x)
    if kind == "Instant":
        t.append("Z")
    elif kind != "LocalDateTime":
        t += offset_text(c, c.view(x)[1])
    if kind == "ZonedDateTime":
        t += ["[", z.key, "]"]
    return c.cat(*t)


# ---- P21 --------------------------------------------------------------------------
def build(c, kind, name="a"):
    z = None
    if kind == "Date":
        x = c.date(name)
    elif kind == "Time":
        x = c.time(name, "hms")
    elif kind == "LocalDateTime":
        x = c.local(name, "hms")
    elif kind == "Instant":
        x = c.instant(name, "hms")
    elif kind == "OffsetDateTime":
        x = c.offset(name, "hms")
    elif kind == "SystemDateTime":
        x = c.system(name, "hms")
    elif kind == "ZonedDateTime":
        z = c.zone("tz")
        x = c.zoned(name, z, "hms")
    return x, z


def round_trip(c, x, kind, text, fmt="format_common_iso", parse="parse_common_iso"):
    out = c.run(lambda: c.call(getattr(x, fmt)))
    if not c.expect_value(out, fmt):
        return
    s = out.value
    c.check(c.eqs(s, text), f"{fmt}: the documented text")
    if fmt == "format_common_iso":
        out = c.run(lambda: c.str(x))
        if c.expect_value(out, "str()"):
            c.check(c.eqs(out.value, text), "str() is the ISO text")
    out = c.run(lambda: c.call(getattr(getattr(c.W, kind), parse), s))
    if c.expect_value(out, f"{parse} of the formatted text"):
        r = out.value
        c.is_a(r, kind)
        c.check(c.eqs(c.view(r), c.view(x)), f"{parse}({fmt}(x)) is x")
        c.invariant(r, "parsed value")


KINDS = ["Date", "Time", "LocalDateTime", "Instant", "OffsetDateTime", "ZonedDateTime"]


@contract("P21", product(kind=KINDS))
def iso_round_trip(c):
    kind = c.case["kind"]
    x, z = build(c, kind)
    round_trip(c, x, kind, canonical(c, x, kind, z))


@contract("P21", sys=True)
def iso_round_trip_system(c):
    x, _ = build(c, "SystemDateTime")
    round_trip(c, x, "SystemDateTime", canonical(c, x, "SystemDateTime"))


@contract("P21")
def iso_round_trip_yearmonth(c):
    x = c.yearmonth("a")
    y, m = c.view(x)
    round_trip(c, x, "YearMonth", c.cat(c.fmt(y, 4), "-", c.fmt(m, 2)))


@contract("P21")
def iso_round_trip_monthday(c):
    x = c.monthday("a")
    m, d = c.view(x)
    round_trip(c, x, "MonthDay", c.cat("--", c.fmt(m, 2), "-", c.fmt(d, 2)))


# ---- P26 ----------------------------------------------------------------------------
@contract("P26", product(kind=["Instant", "OffsetDateTime"]))
def rfc3339_round_trip(c):
    kind = c.case["kind"]
    if kind == "Instant":
        x = c.instant("a", "hms")
        tail = ["Z"]
    else:
        x = c.offset("a", "hms", minutes=True)
        tail = offset_text(c, c.view(x)[1])
    t = c.cat(*date_text(c, x), "T", *time_text(c, x), *tail)
    out = c.run(lambda: c.call(x.format_rfc3339))
    if not c.expect_value(out, "format_rfc3339"):
        return
    s = out.value
    t2 = c.cat(*date_text(c, x), " ", *time_text(c, x), *tail)
    c.check(c.or_(c.eqs(s, t), c.eqs(s, t2)), "format_rfc3339: the RFC 3339 text")
    out = c.run(lambda: c.call(getattr(c.W, kind).parse_rfc3339, s))
    if c.expect_value(out, "parse_rfc3339 of the formatted text"):
        c.is_a(out.value, kind)
        c.check(c.eqs(c.view(out.value), c.view(x)), "parse_rfc3339(format_rfc3339(x)) is x")
        c.invariant(out.value, "parsed value")
