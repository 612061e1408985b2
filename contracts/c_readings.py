"""P35: weekday, leap day and the constants of the types."""
from . import contract, product
from engine.ctx import MIN_LS, MAX_LS, MAX_NS
G = 1_000_000_000
DAYNAMES = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]


@contract("P35", product(by=["ymd", "ord"]))
def weekday(c):
    d = c.date("a", c.case["by"])
    out = c.run(lambda: c.call(d.day_of_week))
    if not c.expect_value(out, "day_of_week()"):
        return
    n = c.view(d)[0]                   # ordinal 1 is Monday, January 1st of the year 1
    for k, name in enumerate(DAYNAMES):
        if (n + 6) % 7 == k:
            c.check(out.value is getattr(c.W.Weekday, name), "day_of_week(): the right day")
            c.check(out.value is getattr(c.W, name), "day_of_week(): the exported constant")


@contract("P35", product(by=["ymd", "ord"]))
def week_later(c):
    """Seven days later is the same day of the week; one day later is the next one."""
    d = c.date("a", c.case["by"])
    w = c.run(lambda: c.call(d.day_of_week))
    out = c.run(lambda: c.call(d.add, days=7))
    if out.ok and c.expect_value(w, "day_of_week()"):
        c.check(c.call(out.value.day_of_week) is w.value, "a week later is the same day of the week")


@contract("P35")
def weekday_values(c):
    for i, n in enumerate(DAYNAMES):
        c.check(getattr(c.W.Weekday, n).value == i + 1, "weekdays count from Monday = 1")


@contract("P35")
def leap_day(c):
    a = c.monthday("a")
    out = c.run(lambda: c.call(a.is_leap))
    if c.expect_value(out, "is_leap()"):
        m, d = c.view(a)
        c.check(c.eqs(c.truth(out.value), c.and_(m == 2, d == 29)),
                "is_leap(): exactly February 29th")


def view_of(c, t, n):
    return c.view(getattr(getattr(c.W, t), n))


EXTREMES = [("Date", "date"), ("YearMonth", "yearmonth"), ("MonthDay", "monthday"),
            ("Instant", "instant"), ("LocalDateTime", "local"), ("TimeDelta", "timedelta"),
            ("Time", "time")]


@contract("P35", [dict(t=t, kind=k) for t, k in EXTREMES])
def extremes(c):
    """Every value lies between MIN and MAX (Time: MIDNIGHT and MAX)."""
    T = getattr(c.W, c.case["t"])
    a = getattr(c, c.case["kind"])("a")
    lo, hi = getattr(T, "MIN", None) or T.MIDNIGHT, T.MAX
    for f, lab in ((lambda: lo <= a, "MIN <= value"), (lambda: a <= hi, "value <= MAX"),
                   (lambda: not (a < lo), "not value < MIN"), (lambda: not (hi < a), "not MAX < value")):
        out = c.run(f)
        if c.expect_value(out, lab):
            c.check(c.truth(out.value), f"{c.case['t']}: {lab}")


@contract("P35")
def constants(c):
    """The documented values."""
    DAY = 86400 * G
    want = {
        ("Date", "MIN"): (1,), ("Date", "MAX"): (3652059,),
        ("YearMonth", "MIN"): (1, 1), ("YearMonth", "MAX"): (9999, 12),
        ("MonthDay", "MIN"): (1, 1), ("MonthDay", "MAX"): (12, 31),
        ("Time", "MIDNIGHT"): (0,), ("Time", "NOON"): (DAY // 2,), ("Time", "MAX"): (DAY - 1,),
        ("Instant", "MIN"): (MIN_LS * G,), ("Instant", "MAX"): (MAX_LS * G + G - 1,),
        ("LocalDateTime", "MIN"): (MIN_LS * G,), ("LocalDateTime", "MAX"): (MAX_LS * G + G - 1,),
        ("TimeDelta", "ZERO"): (0,), ("TimeDelta", "MIN"): (-MAX_NS,), ("TimeDelta", "MAX"): (MAX_NS,),
        ("DateDelta", "ZERO"): (0, 0), ("DateTimeDelta", "ZERO"): (0, 0, 0),
    }
    for (t, n), v in want.items():
        c.check(c.eqs(view_of(c, t, n), v), f"{t}.{n} is the documented value")
