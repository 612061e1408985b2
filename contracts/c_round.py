"""P15, P17: rounding of times, deltas, instants, local and fixed-offset datetimes."""
from . import contract, product
from .c_zform import rounded, PAIRS, FEW, MODES, UNIT_NS, NEXT
from .c_exact import in_range
from .c_offset import check_offset
from .c_order import make_exact
from engine.ctx import RANGE_ERR, MAX_NS
G = 1_000_000_000
DAY_NS = 86400 * G

ALL = [dict(unit=u, inc=i, mode=m) for u, i in PAIRS for m in MODES]
SOME = [dict(unit=u, inc=i, mode=m) for u, i in FEW for m in MODES]
REST = [x for x in ALL if x not in SOME]
DAYS = [dict(unit="day", inc=1, mode=m) for m in MODES]


def inc_ns(c):
    u, i = c.case["unit"], c.case["inc"]
    return DAY_NS if u == "day" else UNIT_NS[u] * i


def args(c):
    return c.case["unit"], c.case["inc"], c.case["mode"]


def lab(c, t):
    return f"{t}.round({c.case['unit']!r}, {c.case['inc']}, {c.case['mode']!r})"


def time_round(c):
    a = c.time("a")
    want = rounded(c, c.view(a)[0], inc_ns(c), c.case["mode"])
    out = c.run(lambda: c.call(a.round, *args(c)))
    L = lab(c, "Time")
    if c.expect_value(out, L):
        c.is_a(out.value, "Time")
        c.check(c.view(out.value)[0] == c.ite(want == DAY_NS, 0, want),
                f"{L}: the multiple the mode prescribes, wrapping at midnight")
        c.invariant(out.value, L)


def sym_rounded(c, ns, inc, mode):
    """`rounded`, for any sign (q, r from floor division)."""
    return rounded(c, ns, inc, mode)


def delta_round(c):
    a = c.timedelta("a")
    want = rounded(c, c.view(a)[0], inc_ns(c), c.case["mode"])
    out = c.run(lambda: c.call(a.round, *args(c)))
    L = lab(c, "TimeDelta")
    if c.expect_valid(out, c.between(-MAX_NS, want, MAX_NS), L):
        c.is_a(out.value, "TimeDelta")
        c.check(c.view(out.value)[0] == want, f"{L}: the multiple the mode prescribes")
        c.invariant(out.value, L)


def dt_round(c, t):
    """Rounds the time of day (which starts at a multiple of every increment)."""
    a = {"LocalDateTime": c.local, "Instant": c.instant, "OffsetDateTime": c.offset}[t]("a")
    v = c.view(a)
    day = v[0] // DAY_NS
    want = day * DAY_NS + rounded(c, v[0] % DAY_NS, inc_ns(c), c.case["mode"])
    kw = dict(ignore_dst=True) if t == "OffsetDateTime" else {}
    out = c.run(lambda: c.call(a.round, *args(c), **kw))
    L = lab(c, t)
    if t == "OffsetDateTime":
        return check_offset(c, out, want, v[1], L)
    if c.expect_valid(out, in_range(c, want), L):
        c.is_a(out.value, t)
        c.check(c.view(out.value)[0] == want,
                f"{L}: the multiple the mode prescribes, carrying into the next day")
        c.invariant(out.value, L)


@contract("P15", ALL)
def round_time(c):
    time_round(c)


HOURS = [25, 30, 36, 47, 48, 100, 125, 168, 719, 720, 999, 1000]


@contract("P15", ALL + [dict(unit="hour", inc=i, mode=m) for i in HOURS + [5, 7, 9, 10, 11]
                        for m in MODES])
def round_timedelta(c):
    delta_round(c)


@contract("P15", [dict(unit="hour", inc=i, mode=m) for i in range(1, 1001)
                  if i not in HOURS + [5, 7, 9, 10, 11] and 24 % i for m in MODES], thorough=True)
def round_timedelta_hours(c):
    delta_round(c)


@contract("P15", SOME + DAYS)
def round_local(c):
    dt_round(c, "LocalDateTime")


@contract("P15", SOME)
def round_instant(c):
    dt_round(c, "Instant")


@contract("P15", SOME + DAYS)
def round_offset(c):
    dt_round(c, "OffsetDateTime")


@contract("P15", REST, thorough=True)
def round_local_rest(c):
    dt_round(c, "LocalDateTime")


@contract("P15", REST, thorough=True)
def round_instant_rest(c):
    dt_round(c, "Instant")


@contract("P15", REST, thorough=True)
def round_offset_rest(c):
    dt_round(c, "OffsetDateTime")


@contract("P15", product(t=["Time", "TimeDelta", "LocalDateTime", "Instant", "OffsetDateTime",
                            "ZonedDateTime", "SystemDateTime"]), sys=True)
def round_defaults(c):
    """round() is round('second', 1, 'half_even')."""
    t = c.case["t"]
    a = receiver(c, t)
    kw = dict(ignore_dst=True) if t == "OffsetDateTime" else {}
    x = c.run(lambda: c.call(a.round, **kw))
    y = c.run(lambda: c.call(a.round, "second", increment=1, mode="half_even", **kw))
    if x.ok and y.ok:
        c.check(c.same(x.value, y.value), f"{t}.round() rounds to the second, ties to even")
    else:
        c.check(x.ok == y.ok, f"{t}.round() rounds to the second (same outcome)")


# ---- P17 ---------------------------------------------------------------------
TYPES = ["Time", "TimeDelta", "LocalDateTime", "Instant", "OffsetDateTime", "ZonedDateTime",
         "SystemDateTime"]


def receiver(c, t):
    if t in ("Time", "TimeDelta", "LocalDateTime"):
        return {"Time": c.time, "TimeDelta": c.timedelta, "LocalDateTime": c.local}[t]("a")
    return make_exact(c, t, "a")


def reject(c, a, t, ar, what, native=(), **kw):
    """native: what else the extension may raise, which takes the increment as a machine integer."""
    if t == "OffsetDateTime":
        kw["ignore_dst"] = True
    out = c.run(lambda: c.call(a.round, *ar, **kw))
    # (the last day of the range has no length: that may be noticed first)
    excs = RANGE_ERR if ar[0] == "day" and t in ("ZonedDateTime", "SystemDateTime") else ValueError
    if native and c.native:
        excs = (*(excs if isinstance(excs, tuple) else (excs,)), native)
    c.expect_raises(out, excs, f"{t}.round: {what} is rejected")


def valid(t, u, i):
    if u == "day":
        return i == 1 and t not in ("Time", "TimeDelta", "Instant")
    if u == "hour" and t == "TimeDelta":
        return 1 <= i <= 1000
    return NEXT[u] % i == 0


@contract("P17", product(t=TYPES, unit=["day"] + list(UNIT_NS), block=list(range(8))), sys=True)
def bad_increment_listed(c):
    """Every increment from 1 to 1000 that is not valid."""
    t, u = c.case["t"], c.case["unit"]
    a = receiver(c, t)
    for i in range(1 + 125 * c.case["block"], 126 + 125 * c.case["block"]):
        if not valid(t, u, i):
            reject(c, a, t, (u, i), "an increment that does not divide the next unit")
    c.check(True, "reached")


@contract("P17", product(t=TYPES, unit=["day"] + list(UNIT_NS), side=["<1", ">1000"]), sys=True)
def bad_increment_range(c):
    t, u = c.case["t"], c.case["unit"]
    a = receiver(c, t)
    i = c.int("inc", -10 ** 30, 0) if c.case["side"] == "<1" else c.int("inc", 1001, 10 ** 30)
    reject(c, a, t, (u, i), "an increment out of range", native=OverflowError)


@contract("P17", product(t=TYPES, unit=["day"] + list(UNIT_NS)), sys=True)
def fractional_increment(c):
    """Fractional increments divide nothing, even where a remainder comes out as zero."""
    t, u = c.case["t"], c.case["unit"]
    a = receiver(c, t)
    for i in (0.5, 1.5, 2.5, 7.5, 0.25, 62.5):
        reject(c, a, t, (u, i), "a fractional increment", native=TypeError)
    c.check(True, "reached")


@contract("P17", product(t=TYPES, unit=["day"] + list(UNIT_NS)), sys=True)
def bad_mode(c):
    t, u = c.case["t"], c.case["unit"]
    a = receiver(c, t)
    reject(c, a, t, (u, 1, c.other_str("mode", MODES)), "an unknown mode")


@contract("P17", product(t=TYPES), sys=True)
def bad_unit(c):
    t = c.case["t"]
    a = receiver(c, t)
    m = c.choice("mode", MODES)
    reject(c, a, t, (c.other_str("unit", ["day"] + list(UNIT_NS)),), "an unknown unit", mode=m)
    if t in ("Time", "TimeDelta", "Instant"):
        reject(c, a, t, ("day", 1, m), "rounding to days without a day length")
    for u in ("days", "Hour", "hours", "", "week", "month", "year"):
        reject(c, a, t, (u, 1, m), "an unknown unit")
