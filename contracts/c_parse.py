"""P23: each parser accepts exactly the texts of its grammar, and reads their value.

The text is arbitrary and of any length.  The grammars below are written as
left-to-right readers, independently of the regular expressions in the code."""
from . import contract, product
from .zspec import u_ok
from engine.ctx import RANGE_ERR
G = 1_000_000_000
HUGE = 4300           # CPython's limit on the digits of an int text
MAX_DELTA_NS = 9999 * 366 * 86400 * G
MAX_MONTHS, MAX_DAYS = 9999 * 12, 9999 * 366


# ---- readers: None = not in the grammar ---------------------------------------------
def two(c, r, hi):
    """Two digits with a value of at most hi."""
    v = r.number(2)
    return v if v is not None and v <= hi else None


def date(c, r):
    """YYYY-MM-DD -> ordinal."""
    y = r.number(4)
    if y is None or y == 0 or r.lit("-") is None:
        return None
    m = two(c, r, 12)
    if m is None or m == 0 or r.lit("-") is None:
        return None
    d = two(c, r, 31)
    if d is None or not c.valid_date(y, m, d):
        return None
    return c.ord(y, m, d)


def fraction(c, r):
    """Optional point and 1-9 digits -> nanoseconds."""
    if r.lit(".") is None:
        return 0
    p = r.digits(9)
    if p is None:
        return None
    return scaled(c, *p)


def scaled(c, v, w):
    """The w digits v after the decimal point, in billionths."""
    r = v
    for k in range(8, 0, -1):
        r = c.ite(w == k, v * 10 ** (9 - k), r)
    return r


def clock(c, r):
    """HH:MM:SS[.f] -> nanosecond of the day."""
    h = two(c, r, 23)
    if h is None or r.lit(":") is None:
        return None
    m = two(c, r, 59)
    if m is None or r.lit(":") is None:
        return None
    s = two(c, r, 59)
    if s is None:
        return None
    f = fraction(c, r)
    if f is None:
        return None
    return (h * 3600 + m * 60 + s) * G + f


def datetime(c, r, sep="T"):
    """-> nanosecond of the local time line."""
    n = date(c, r)
    if n is None or r.lit(sep) is None:
        return None
    t = clock(c, r)
    if t is None:
        return None
    return n * 86400 * G + t


def offset(c, r, zulu="Z", seconds=True):
    """Z or +-HH:MM[:SS] with a size below 24 hours -> seconds."""
    if r.lit(zulu) is not None:
        return 0
    sg = r.lit("+-")
    if sg is None:
        return None
    h = two(c, r, 23)
    if h is None or r.lit(":") is None:
        return None
    m = two(c, r, 59)
    if m is None:
        return None
    s = 0
    if seconds and r.lit(":") is not None:
        s = two(c, r, 59)
        if s is None:
            return None
    v = h * 3600 + m * 60 + s
    return -v if sg == "-" else v


def Date(c, r):
    n = date(c, r)
    return None if n is None or not r.end() else (n,)


def YearMonth(c, r):
    y = r.number(4)
    if y is None or y == 0 or r.lit("-") is None:
        return None
    m = two(c, r, 12)
    return None if m is None or m == 0 or not r.end() else (y, m)


def MonthDay(c, r):
    if r.lit("-") is None or r.lit("-") is None:
        return None
    m = two(c, r, 12)
    if m is None or m == 0 or r.lit("-") is None:
        return None
    d = two(c, r, 31)
    if d is None or not c.valid_date(2000, m, d) or not r.end():
        return None
    return m, d


def Time(c, r):
    t = clock(c, r)
    return None if t is None or not r.end() else (t,)


def LocalDateTime(c, r):
    t = datetime(c, r)
    return None if t is None or not r.end() else (t,)


def Instant(c, r):
    t = datetime(c, r)
    if t is None:
        return None
    return utc(c, r, t, "Z", "+", c.native)


def utc(c, r, t, zulu, signs, seconds=False):
    """seconds: an offset of +00:00:00 is taken too (by the extension)."""
    if r.lit(zulu) is None:
        if r.lit(signs) is None:
            return None
        for ch in "00:00":
            if r.lit(ch) is None:
                return None
        if seconds and not r.end():
            for ch in ":00":
                if r.lit(ch) is None:
                    return None
    return (t,) if r.end() else None


def Instant_rfc3339(c, r):
    t = datetime(c, r, "T t_")
    return None if t is None else utc(c, r, t, "zZ", "+-")


def with_offset(c, r, sep="T", zulu="Z", seconds=True):
    t = datetime(c, r, sep)
    if t is None:
        return None
    o = offset(c, r, zulu, seconds)
    return None if o is None or not u_ok(c, t // G - o) else (t, o)


def OffsetDateTime(c, r):
    v = with_offset(c, r)
    return None if v is None or not r.end() else v


def OffsetDateTime_rfc3339(c, r):
    v = with_offset(c, r, "T t_", "zZ", False)
    return None if v is None or not r.end() else v


UNKNOWN_ZONE = "?"


def ZonedDateTime(c, r):
    t = datetime(c, r)
    if t is None:
        return None
    o = offset(c, r)
    if o is None or r.lit("[") is None:
        return None
    key = r.span("]", 255)
    if key is None or r.lit("]") is None or not r.end():
        return None
    z = c.named_zone(key)
    if z is None:
        return UNKNOWN_ZONE
    if not u_ok(c, t // G - o):
        return None
    o0, o1 = z.offs(t // G)
    if o0 < o1 or not c.or_(o == o0, o == o1):
        return None
    return t, o, key


def sign_p(c, r):
    sg = r.lit("+-")
    if r.lit("P") is None:
        return None
    return -1 if sg == "-" else 1


def amounts(c, r, units, atmost, frac=False, got=None):
    """{unit: value}, or None.  Reads to a 'T' or to the end of the text."""
    got, rest = {} if got is None else got, units
    while not r.end():
        p = r.digits(atmost)
        if p is None and atmost == HUGE:    # cases: a number beyond CPython's limit, or not
            got["huge"] = r.at_digit()
            c.assume(not got["huge"] or c.case["huge"])
        if p is None:
            if not frac and r.lit("T") is not None:
                got["T"] = True
                return got
            return None
        f = None
        if frac and "S" in rest and r.lit(".") is not None:
            q = r.digits(9)
            if q is None:
                return None
            f = 0
            for k in range(1, 10):
                if q[1] == k:
                    f = q[0] * 10 ** (9 - k)
        u = r.lit(rest if f is None else "S")
        if u is None:
            return None
        got[u] = p[0] * G + (f or 0) if u == "S" and frac else p[0]
        rest = rest[rest.index(u) + 1:]
    return got


def hms(g):
    return (g.get("H", 0) * 3600 + g.get("M", 0) * 60) * G + g.get("S", 0)


def TimeDelta(c, r):
    sg = sign_p(c, r)
    if sg is None or r.lit("T") is None:
        return None
    g = amounts(c, r, "HMS", 35, frac=True)
    if not g:
        return None
    n = hms(g)
    return (sg * n,) if n <= MAX_DELTA_NS else None


def DateDelta(c, r):
    sg = sign_p(c, r)
    if sg is None:
        return None
    g = amounts(c, r, "YMWD", 8)
    if not g or "T" in g:
        return None
    return date_units(c, sg, g)


def date_units(c, sg, g):
    mo = g.get("Y", 0) * 12 + g.get("M", 0)
    d = g.get("W", 0) * 7 + g.get("D", 0)
    return (sg * mo, sg * d) if c.and_(mo <= MAX_MONTHS, d <= MAX_DAYS) else None


def DateTimeDelta(c, r):
    sg = sign_p(c, r)
    if sg is None:
        return None
    seen = {}
    # (the extension takes as many digits as in the other deltas)
    g = amounts(c, r, "YMWD", 8 if c.native else HUGE, got=seen)
    huge = seen.pop("huge", False)
    for u in "YMD":                       # the cases: which date units come first
        if u in c.case:
            c.assume((u in seen) == c.case[u])
    if not g:
        c.assume(huge == c.case["huge"])
        return None
    n = 0
    if g.pop("T", False):
        seen = {}
        t = amounts(c, r, "HMS", 35 if c.native else HUGE, frac=True, got=seen)
        huge = seen.pop("huge", False)
        c.assume(huge == c.case["huge"])
        if not t:
            return None
        n = hms(t)
        if n > MAX_DELTA_NS:
            return None
    v = date_units(c, sg, g)
    return None if v is None else v + (sg * n,)


# ---- typical texts, for evaluation on concrete inputs --------------------------------
def g_date(r):
    y = r.choice([1, 9999, 2024, 1900, 2000, r.randint(0, 9999)])
    return f"{y:04}-{r.randint(0, 13):02}-{r.choice([1, 28, 29, 30, 31, r.randint(0, 32)]):02}"


def g_time(r):
    s = f"{r.choice([0, 23, 24, r.randint(0, 29)]):02}:{r.choice([0, 59, 60, 7]):02}:{r.choice([0, 59, 60, 8]):02}"
    if r.random() < .5:
        s += "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 3, 6, 9, 9, 10])))
    return s


def g_off(r):
    if r.random() < .25:
        return r.choice(["Z", "z", "+00:00", "-00:00"])
    s = f"{r.choice('+-')}{r.choice([0, 1, 5, 23, 24, r.randint(0, 30)]):02}:{r.choice([0, 30, 59, 60]):02}"
    return s + (f":{r.choice([0, 1, 59, 60]):02}" if r.random() < .3 else "")


def g_dt(sep="T"):
    return lambda r: g_date(r) + r.choice(sep) + g_time(r)


def g_odt(sep="T"):
    return lambda r: g_dt(sep)(r) + g_off(r)


ZONES = [("Europe/Amsterdam", ["2023-03-26T02:30:00", "2023-10-29T02:30:00", "2020-01-01T00:00:00"],
          ["+01:00", "+02:00", "Z", "+01:30"]),
         ("America/New_York", ["2023-03-12T02:30:00", "2023-11-05T01:30:00"], ["-05:00", "-04:00"]),
         ("UTC", ["2023-03-12T02:30:00", "9999-12-31T23:59:59", "0001-01-01T00:00:00"], ["Z", "+00:00", "+01:00"]),
         ("Asia/Kolkata", ["9999-12-31T23:59:59", "0001-01-01T00:00:00"], ["+05:30", "+05:53:28"]),
         ("Nowhere", ["2020-01-01T00:00:00"], ["Z"])]


def g_zoned(r):
    z, ts, os = r.choice(ZONES)
    return f"{r.choice(ts)}{r.choice(os)}[{z}]"


def g_num(r):
    return str(r.choice([0, 1, 5, 12, r.randint(0, 130), r.randint(0, 4 * 10 ** 6), r.randint(0, 10 ** 9)])).zfill(r.choice([1, 1, 8]))


def g_part(units):
    def g(r):
        s = "".join(g_num(r) + u for u in units if r.random() < .4)
        if s.endswith("S") and r.random() < .5:
            s = s[:-1] + "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 3, 9, 10]))) + "S"
        return s
    return g


def g_sg(r):
    return r.choice(["", "", "-", "+"]) + "P"


TEXTS = {
    "Date": g_date, "YearMonth": lambda r: g_date(r)[:7], "MonthDay": lambda r: "--" + g_date(r)[5:],
    "Time": g_time, "LocalDateTime": g_dt(), "Instant": lambda r: g_dt()(r) + r.choice(["Z", "Z", "z", "+00:00", "-00:00"]),
    "Instant_rfc3339": lambda r: g_dt("T t_")(r) + r.choice(["Z", "Z", "z", "+00:00", "-00:00"]),
    "OffsetDateTime": g_odt(), "OffsetDateTime_rfc3339": g_odt("T t_"), "SystemDateTime": g_odt(),
    "ZonedDateTime": g_zoned,
    "TimeDelta": lambda r: g_sg(r) + "T" + g_part("HMS")(r), "DateDelta": lambda r: g_sg(r) + g_part("YMWD")(r),
    "DateTimeDelta": lambda r: g_sg(r) + g_part("YMWD")(r) + r.choice(["", "T", "T"]) + g_part("HMS")(r),
}
GRAMMARS = {f.__name__: f for f in (
    Date, YearMonth, MonthDay, Time, LocalDateTime, Instant, Instant_rfc3339, OffsetDateTime,
    OffsetDateTime_rfc3339, ZonedDateTime, TimeDelta, DateDelta, DateTimeDelta)}
GRAMMARS["SystemDateTime"] = OffsetDateTime


def parser_contract(c):
    which = c.case["parser"]
    kind, _, fmt = which.partition("_")
    s = c.text("s", TEXTS[which])
    parse = getattr(getattr(c.W, kind), "parse_" + (fmt or "common_iso"))
    want = GRAMMARS[which](c, c.cursor(s))
    out = c.run(lambda: c.call(parse, s))
    if out.ok:
        c.check(want is not None and want is not UNKNOWN_ZONE, f"{which}: returns only for a text of the grammar")
        if want is None or want is UNKNOWN_ZONE:
            return
        c.is_a(out.value, kind)
        c.check(c.eqs(c.view(out.value), want), f"{which}: the value the text denotes")
        c.invariant(out.value, "parsed value")
        return
    if want is UNKNOWN_ZONE:
        c.fail_types(out, (ValueError, KeyError, OSError), f"{which}: an unknown timezone")
        return
    c.fail_types(out, ValueError, f"{which}: a malformed text")
    c.check(want is None, f"{which}: accepts every text of the grammar")


@contract("P23", product(parser=[k for k in TEXTS if k not in ("SystemDateTime", "DateTimeDelta")])
          + product(parser=["DateTimeDelta"], Y=[False, True], M=[False, True], D=[False, True],
                    huge=[False]),
          weight=3, seconds=400)
def strict_parser(c):
    parser_contract(c)


@contract("P23", product(parser=["DateTimeDelta"], Y=[False, True], M=[False, True],
                         D=[False, True], huge=[True]), weight=3, seconds=400, thorough=True)
def strict_parser_huge_numbers(c):
    parser_contract(c)


@contract("P23", product(parser=["SystemDateTime"]), sys=True)
def strict_parser_system(c):
    parser_contract(c)


@contract("P23", product(start=["P1D", "-P2W3D", "P1Y2M3D", "+P4M0D", "P0D", "P3Y1D"],
                         n=["any", 1, 2, 3, 4]))
def after_days(c):
    """After its days a date and time delta ends, or goes on with a T."""
    t = c.text("t", lambda r: r.choice(["5", "12345678901", "X3H", "x", "\u00e9", "1H", "t1H", " ", "D", "1D", "3S"]))
    r = c.cursor(t)
    c.assume(not r.end() and r.lit("T") is None)
    if c.case["n"] != "any":
        c.assume(all(r.skip() for _ in range(c.case["n"])) and r.end())
    s = c.case["start"] + t
    out = c.run(lambda: c.call(c.W.DateTimeDelta.parse_common_iso, s))
    c.expect_raises(out, ValueError, "DateTimeDelta: a malformed text")
