"""P28, P29: replacing fields, taking apart and putting together, constructors, accessors."""
from . import contract, product
from .c_pickle import value
from .c_zoned import make, zone_for, CLS, replace_fields, replace_dt
from .zspec import resolve, check_resolved
from engine.ctx import RANGE_ERR, MIN_LS, MAX_LS, MAX_NS, MAX_INSTANT_NS, MIN_NS
from engine.models import MAXORD
G = 1_000_000_000
DAY = 86400
ERR = RANGE_ERR
VALID = {"year": (1, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59),
         "second": (0, 59), "nanosecond": (0, G - 1)}
DATE = ["year", "month", "day"]
TIME = ["hour", "minute", "second", "nanosecond"]


def subsets(names):
    out = [""]
    for n in names:
        out += [(s + " " + n).strip() for s in out]
    return out


def given(c, names):
    return {k: c.field("new." + k, *VALID[k]) for k in names}


def in_range(c, f):
    return c.and_(True, *[c.between(VALID[k][0], f[k], VALID[k][1]) for k in f if f[k] is not None])


def date_ok(c, y, m, d):
    """Decides whether this is a calendar date (fields in range)."""
    return c.and_(c.between(1, y, 9999), c.between(1, m, 12), c.between(1, d, 31)) \
        and c.valid_date(y, m, d)


def tns(f):
    return ((f["hour"] * 60 + f["minute"]) * 60 + f["second"]) * G + f["nanosecond"]


def check_view(c, out, ok, cls, view, label):
    """Returns exactly when ok, then a `cls` with that view (a thunk)."""
    if c.expect_valid(out, ok, label, ERR):
        c.is_a(out.value, cls)
        c.check(c.eqs(c.view(out.value), view()), f"{label}: exactly these fields")
        c.invariant(out.value, label)


def date_fields(c, a):
    y, m, d = c.ymd(a)
    return dict(year=y, month=m, day=d)


def time_fields(c, a, ns):
    s = c.sod(a)
    return dict(hour=s // 3600, minute=s // 60 % 60, second=s % 60, nanosecond=ns)


# ---- P28: replace ----------------------------------------------------------------------
@contract("P28", product(fields=subsets(DATE)))
def date_replace(c):
    a = c.date("a")
    f = date_fields(c, a)
    kw = given(c, c.case["fields"].split())
    f.update(kw)
    out = c.run(lambda: c.call(a.replace, **kw))
    ok = date_ok(c, **{"y": f["year"], "m": f["month"], "d": f["day"]})
    check_view(c, out, ok, "Date", lambda: (c.ord(f["year"], f["month"], f["day"]),),
               f"Date.replace({c.case['fields']})")


@contract("P28", product(fields=subsets(["year", "month"])))
def yearmonth_replace(c):
    a = c.yearmonth("a")
    f = dict(zip(("year", "month"), c.view(a)))
    kw = given(c, c.case["fields"].split())
    f.update(kw)
    out = c.run(lambda: c.call(a.replace, **kw))
    check_view(c, out, in_range(c, f), "YearMonth", lambda: (f["year"], f["month"]),
               f"YearMonth.replace({c.case['fields']})")


@contract("P28", product(fields=subsets(["month", "day"])))
def monthday_replace(c):
    a = c.monthday("a")
    f = dict(zip(("month", "day"), c.view(a)))
    kw = given(c, c.case["fields"].split())
    f.update(kw)
    out = c.run(lambda: c.call(a.replace, **kw))
    ok = date_ok(c, 4, f["month"], f["day"])
    check_view(c, out, ok, "MonthDay", lambda: (f["month"], f["day"]),
               f"MonthDay.replace({c.case['fields']})")


@contract("P28", product(fields=subsets(TIME)))
def time_replace(c):
    a = c.time("a", "hms")
    f = time_fields(c, a, c.view(a)[0] % G)
    kw = given(c, c.case["fields"].split())
    f.update(kw)
    out = c.run(lambda: c.call(a.replace, **kw))
    check_view(c, out, in_range(c, f), "Time", lambda: (tns(f),),
               f"Time.replace({c.case['fields']})")


SOME = ["", "year", "month", "day", "hour", "minute", "second", "nanosecond", "year day",
        "month day", "year month", "year month day", "hour nanosecond", "hour minute second",
        "day hour", "hour minute second nanosecond",
        "year month day hour minute second nanosecond"]


@contract("P28", product(fields=SOME))
def local_replace(c):
    a = c.local("a", "hms")
    f = date_fields(c, a)
    f.update(time_fields(c, a, c.view(a)[0] % G))
    kw = given(c, c.case["fields"].split())
    f.update(kw)
    out = c.run(lambda: c.call(a.replace, **kw))
    ok = in_range(c, {k: f[k] for k in TIME}) and date_ok(c, f["year"], f["month"], f["day"])
    check_view(c, out, ok, "LocalDateTime",
               lambda: (c.ord(f["year"], f["month"], f["day"]) * DAY * G + tns(f),),
               f"LocalDateTime.replace({c.case['fields']})")


@contract("P28", product(what=["date", "time"]))
def local_replace_date_time(c):
    a = c.local("a")
    v = c.view(a)[0]
    D = DAY * G
    if c.case["what"] == "date":
        d = c.date("d", "ord")
        out = c.run(lambda: c.call(a.replace_date, d))
        want = c.ordinal(d) * D + v % D
    else:
        t = c.time("t")
        out = c.run(lambda: c.call(a.replace_time, t))
        want = v // D * D + c.view(t)[0]
    check_view(c, out, True, "LocalDateTime", lambda: (want,), f"replace_{c.case['what']}")


@contract("P28", product(fields=SOME, strategy=[None, "raise"]))
def zoned_replace_keeps(c):
    replace_fields(c, "zoned")


@contract("P28", product(what=["date", "time"], strategy=[None, "raise"]))
def zoned_replace_date_time_keeps(c):
    replace_dt(c, "zoned")


@contract("P28", product(fields=SOME, strategy=[None, "raise"]), sys=True)
def system_replace_keeps(c):
    replace_fields(c, "system")


@contract("P28", product(what=["date", "time"], strategy=[None, "raise"]), sys=True)
def system_replace_date_time_keeps(c):
    replace_dt(c, "system")


FORBIDDEN = {"date": ["hour", "tzinfo", "nanosecond"], "yearmonth": ["day", "tzinfo"],
             "monthday": ["year", "hour"],
             "time": ["tzinfo", "fold", "microsecond", "year"],
             "local": ["tzinfo", "fold", "microsecond", "tz"],
             "offset": ["tzinfo", "fold", "microsecond", "tz"],
             "zoned": ["tzinfo", "fold", "microsecond", "offset"]}


@contract("P28", [dict(kind=k, field=f) for k in FORBIDDEN for f in FORBIDDEN[k]])
def forbidden_fields(c):
    """Fields that the type doesn't have can't be replaced."""
    a, _ = value(c, c.case["kind"])
    kw = {c.case["field"]: {"tzinfo": None, "fold": 1, "microsecond": 5, "tz": "UTC",
                            "offset": 1}.get(c.case["field"], 1)}
    if c.case["kind"] == "offset":
        kw["ignore_dst"] = True
    out = c.run(lambda: c.call(a.replace, **kw))
    c.expect_raises(out, (TypeError,), f"replace({c.case['field']}=...)")


# ---- P28: apart and together -------------------------------------------------------------
def apart(c, kind):
    z = None
    if kind == "system":
        a = c.system("a")
    else:
        a, z = value(c, kind)
    v = c.view(a)[0]
    D = DAY * G
    out = c.run(lambda: (c.call(a.date), c.call(a.time)))
    if not c.expect_value(out, "date(), time()"):
        return
    d, t = out.value
    c.is_a(d, "Date")
    c.is_a(t, "Time")
    c.check(c.eqs(c.view(d), (v // D,)), "date(): the date fields")
    c.check(c.eqs(c.view(t), (v % D,)), "time(): the time fields, to the nanosecond")
    c.invariant(t, "time()")
    for lab, th in (("date.at(time)", lambda: c.call(d.at, t)),
                    ("time.on(date)", lambda: c.call(t.on, d))):
        o = c.run(th)
        if c.expect_value(o, lab):
            c.is_a(o.value, "LocalDateTime")
            c.check(c.eqs(c.view(o.value), (v,)), f"{lab}: the local datetime again")
            c.invariant(o.value, lab)
    if kind != "local":
        o = c.run(lambda: c.call(a.local))
        if c.expect_value(o, "local()"):
            c.is_a(o.value, "LocalDateTime")
            c.check(c.eqs(c.view(o.value), (v,)), "local(): the same fields")


@contract("P28", product(kind=["local", "offset", "zoned"]))
def apart_and_together(c):
    apart(c, c.case["kind"])


@contract("P28", sys=True)
def system_apart_and_together(c):
    apart(c, "system")


@contract("P28")
def at_and_on(c):
    """Any date with any time, and back."""
    d, t = c.date("d", "ord"), c.time("t")
    want = c.ordinal(d) * DAY * G + c.view(t)[0]
    for lab, th in (("date.at(time)", lambda: c.call(d.at, t)),
                    ("time.on(date)", lambda: c.call(t.on, d))):
        o = c.run(th)
        if not c.expect_value(o, lab):
            continue
        c.is_a(o.value, "LocalDateTime")
        c.check(c.eqs(c.view(o.value), (want,)), f"{lab}: the given date and time")
        o = c.run(lambda: (c.call(o.value.date), c.call(o.value.time)))
        if c.expect_value(o, "date(), time()"):
            c.check(c.same(o.value[0], d), f"{lab}.date(): the date again")
            c.check(c.same(o.value[1], t), f"{lab}.time(): the time again")


@contract("P28")
def date_parts(c):
    """year_month/month_day and on_day/in_year."""
    a = c.date("a")
    y, m, d = c.ymd(a)
    o = c.run(lambda: (c.call(a.year_month), c.call(a.month_day)))
    if not c.expect_value(o, "year_month(), month_day()"):
        return
    ym, md = o.value
    c.is_a(ym, "YearMonth")
    c.is_a(md, "MonthDay")
    c.check(c.eqs(c.view(ym), (y, m)), "year_month(): year and month")
    c.check(c.eqs(c.view(md), (m, d)), "month_day(): month and day")
    c.invariant(ym, "year_month()")
    c.invariant(md, "month_day()")
    for lab, th in (("on_day", lambda: c.call(ym.on_day, d)), ("in_year", lambda: c.call(md.in_year, y))):
        o = c.run(th)
        if c.expect_value(o, lab):
            c.check(c.same(o.value, a), f"{lab}: the date again")


@contract("P28", product(what=["on_day", "in_year"]))
def put_together(c):
    if c.case["what"] == "on_day":
        a = c.yearmonth("a")
        y, m = c.view(a)
        d = c.field("day", 1, 31)
        out = c.run(lambda: c.call(a.on_day, d))
    else:
        a = c.monthday("a")
        m, d = c.view(a)
        y = c.field("year", 1, 9999)
        out = c.run(lambda: c.call(a.in_year, y))
    check_view(c, out, date_ok(c, y, m, d), "Date", lambda: (c.ord(y, m, d),), c.case["what"])


# ---- P29: constructors ----------------------------------------------------------------------
def fields(c, names):
    return {k: c.field(k, *VALID[k]) for k in names}


@contract("P29", product(how=["positional", "keywords"]))
def date_constructor(c):
    f = fields(c, DATE)
    out = construct(c, c.W.Date, f, 3)
    check_view(c, out, date_ok(c, f["year"], f["month"], f["day"]), "Date",
               lambda: (c.ord(f["year"], f["month"], f["day"]),), "Date(...)")


def construct(c, cls, f, npos, **kw):
    if c.case["how"] == "positional":
        v = list(f.values())
        k = dict(list(f.items())[npos:])
        return c.run(lambda: c.call(cls, *v[:npos], **k, **kw))
    return c.run(lambda: c.call(cls, **f, **kw))


@contract("P29", product(how=["positional", "keywords"]))
def yearmonth_constructor(c):
    f = fields(c, DATE[:2])
    out = construct(c, c.W.YearMonth, f, 2)
    check_view(c, out, in_range(c, f), "YearMonth", lambda: tuple(f.values()), "YearMonth(...)")


@contract("P29", product(how=["positional", "keywords"]))
def monthday_constructor(c):
    f = fields(c, DATE[1:])
    out = construct(c, c.W.MonthDay, f, 2)
    check_view(c, out, date_ok(c, 4, f["month"], f["day"]), "MonthDay",
               lambda: tuple(f.values()), "MonthDay(...)")


@contract("P29", product(how=["positional", "keywords"], given=subsets(TIME)))
def time_constructor(c):
    f = dict(hour=0, minute=0, second=0, nanosecond=0)
    g = fields(c, c.case["given"].split())
    if c.case["how"] == "positional":
        pos = [k for k in TIME[:3]]
        while pos and pos[-1] not in g:
            pos.pop()
        g = {k: g.get(k, 0) for k in pos} | {k: v for k, v in g.items() if k not in pos}
        out = construct(c, c.W.Time, g, len(pos))
    else:
        out = construct(c, c.W.Time, g, 3)
    f.update(g)
    check_view(c, out, in_range(c, f), "Time", lambda: (tns(f),), "Time(...)")


def datetime_fields(c):
    """(given kwargs, all fields, valid)"""
    g = fields(c, DATE + [k for k in TIME if k in c.case["given"].split()])
    f = dict(hour=0, minute=0, second=0, nanosecond=0)
    f.update(g)
    ok = in_range(c, {k: f[k] for k in TIME}) and date_ok(c, f["year"], f["month"], f["day"])
    return g, f, ok


GIVEN = ["", "hour", "nanosecond", "hour minute", "hour minute second",
         "hour minute second nanosecond"]


def npos(g):
    return len([k for k in g if k != "nanosecond"])


@contract("P29", product(cls=["LocalDateTime", "Instant"], how=["positional", "keywords"], given=GIVEN))
def datetime_constructor(c):
    g, f, ok = datetime_fields(c)
    n = c.case["cls"]
    cls = getattr(c.W, n)
    out = construct(c, cls.from_utc if n == "Instant" else cls, g, npos(g))
    check_view(c, out, ok, n,
               lambda: (c.ord(f["year"], f["month"], f["day"]) * DAY * G + tns(f),), f"{n}(...)")


@contract("P29", product(how=["positional", "keywords"], given=GIVEN))
def offset_datetime_constructor(c):
    g, f, ok = datetime_fields(c)
    off = c.field("offset", -23, 23)
    out = construct(c, c.W.OffsetDateTime, g, npos(g), offset=off)
    if ok:
        l = c.ord(f["year"], f["month"], f["day"]) * DAY + tns(f) // G
        ok = c.and_(c.between(-23, off, 23), c.between(MIN_LS, l - off * 3600, MAX_LS))
    check_view(c, out, ok, "OffsetDateTime", lambda: (l * G + f["nanosecond"], off * 3600),
               "OffsetDateTime(...)")


def zoned_ctor(c, kind):
    z = zone_for(c, kind)
    g, f, ok = datetime_fields(c)
    kw = dict(tz=z.key) if kind == "zoned" else {}
    out = construct(c, getattr(c.W, CLS[kind]), g, npos(g), **kw)
    if not ok:
        return c.expect_valid(out, False, f"{CLS[kind]}(...)", ERR)
    l = c.ord(f["year"], f["month"], f["day"]) * DAY + tns(f) // G
    check_resolved(c, out, resolve(c, z, l, "compatible"), f["nanosecond"], f"{CLS[kind]}(...)",
                   z, CLS[kind])


@contract("P29", product(how=["positional", "keywords"], given=GIVEN))
def zoned_datetime_constructor(c):
    zoned_ctor(c, "zoned")


@contract("P29", product(how=["positional", "keywords"], given=GIVEN), sys=True)
def system_datetime_constructor(c):
    zoned_ctor(c, "system")


@contract("P29")
def no_instant_constructor(c):
    c.expect_raises(c.run(lambda: c.call(c.W.Instant)), TypeError, "Instant()")


# ---- P29: the fields read back -----------------------------------------------------------------
NAMES = {"date": DATE, "yearmonth": DATE[:2], "monthday": DATE[1:], "time": TIME}


def read_back(c, kind):
    z = None
    if kind == "system":
        a = c.system("a", "hms")
    else:
        a, z = value(c, kind, by={"date": "ymd", "time": "hms", "local": "hms", "offset": "hms",
                                  "zoned": "hms"}.get(kind))
    v = c.view(a)
    f = {}
    if kind in ("yearmonth", "monthday"):
        f = dict(zip(NAMES[kind], v))
    else:
        if kind != "time":
            f.update(date_fields(c, a))
        if kind != "date":
            f.update(time_fields(c, a, v[0] % G))
    for k, want in f.items():
        out = c.run(lambda: getattr(a, k))
        if c.expect_value(out, f"{c.cls(a)}.{k}"):
            c.check(c.eqs(out.value, want), f"{c.cls(a)}.{k} reads the field")
    if kind in ("offset", "zoned", "system"):
        out = c.run(lambda: a.offset)
        if c.expect_value(out, "offset"):
            c.is_a(out.value, "TimeDelta")
            c.check(c.eqs(c.view(out.value), (v[1] * G,)), "offset reads the UTC offset")
    if kind == "zoned":
        out = c.run(lambda: a.tz)
        if c.expect_value(out, "tz"):
            c.check(c.eqs(out.value, z.key), "tz reads the timezone")


@contract("P29", product(kind=["date", "yearmonth", "monthday", "time", "local", "offset", "zoned"]))
def accessors(c):
    read_back(c, c.case["kind"])


@contract("P29", sys=True)
def system_accessors(c):
    read_back(c, "system")


@contract("P29")
def delta_parts(c):
    a = c.datetimedelta("a")
    m, d, n = c.view(a)
    out = c.run(lambda: (c.call(a.date_part), c.call(a.time_part)))
    if c.expect_value(out, "date_part(), time_part()"):
        c.is_a(out.value[0], "DateDelta")
        c.is_a(out.value[1], "TimeDelta")
        c.check(c.eqs(c.view(out.value[0]), (m, d)), "date_part(): months and days")
        c.check(c.eqs(c.view(out.value[1]), (n,)), "time_part(): the exact time")


# ---- P29: the constants at the ends of the range ---------------------------------------------
CONST = [("Date", "MIN", (1,)), ("Date", "MAX", (MAXORD,)), ("YearMonth", "MIN", (1, 1)),
         ("YearMonth", "MAX", (9999, 12)), ("MonthDay", "MIN", (1, 1)), ("MonthDay", "MAX", (12, 31)),
         ("Time", "MIDNIGHT", (0,)), ("Time", "NOON", (12 * 3600 * G,)),
         ("Time", "MAX", (DAY * G - 1,)), ("Instant", "MIN", (MIN_NS,)),
         ("Instant", "MAX", (MAX_INSTANT_NS,)), ("LocalDateTime", "MIN", (MIN_NS,)),
         ("LocalDateTime", "MAX", (MAX_INSTANT_NS,)), ("TimeDelta", "ZERO", (0,)),
         ("TimeDelta", "MAX", (MAX_NS,)), ("TimeDelta", "MIN", (-MAX_NS,)),
         ("DateDelta", "ZERO", (0, 0)), ("DateTimeDelta", "ZERO", (0, 0, 0))]


@contract("P29", [dict(cls=a, name=b) for a, b, _ in CONST])
def constants(c):
    want = {(a, b): v for a, b, v in CONST}[c.case["cls"], c.case["name"]]
    out = c.run(lambda: getattr(getattr(c.W, c.case["cls"]), c.case["name"]))
    lab = f"{c.case['cls']}.{c.case['name']}"
    if c.expect_value(out, lab):
        c.is_a(out.value, c.case["cls"])
        c.check(c.eqs(c.view(out.value), want), f"{lab} is the documented value")
        c.invariant(out.value, lab)
