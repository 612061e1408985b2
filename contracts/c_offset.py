"""P12, P13, P14: fixed-offset datetimes, local arithmetic, DST gating."""
from . import contract, product
from .c_exact import UNITS, in_range, MIN_NS, MAX_INSTANT_NS
from .c_zoned import replaced, FIELDS, REPL
from engine.ctx import RANGE_ERR, MAX_NS, MIN_LS, MAX_LS, EPOCH_LS
G = 1_000_000_000
DAY = 86400
BIG = 10 ** 24
SIGN = {"add": 1, "subtract": -1}


def check_offset(c, out, lns, off, label, valid=True, must=True):
    """An OffsetDateTime with that local time and offset, within range."""
    ok = c.and_(valid, in_range(c, lns), in_range(c, lns - off * G))
    if out.ok:
        c.check(ok, f"{label}: returns only when the result is in range/valid")
        r = out.value
        c.is_a(r, "OffsetDateTime")
        c.check(c.view(r)[1] == off, f"{label}: the offset")
        c.check(c.view(r)[0] == lns, f"{label}: the local time")
        c.invariant(r, label)
    else:
        c.fail_types(out, RANGE_ERR, label)
        c.check(c.not_(c.and_(ok, must)), f"{label}: raises only when there is no valid result")


def offset_arg(c, how, name="offset"):
    """(argument, valid, seconds)"""
    if how == "hours":
        h = c.int(name, -50, 50)
        return h, c.between(-23, h, 23), h * 3600
    d = c.timedelta(name, 3 * DAY * G)
    ns = c.view(d)[0]
    return d, c.and_(ns % G == 0, c.between(-86399, ns // G, 86399)), ns // G


def fields_of(c):
    """Any fields: (values, valid, local second, nanosecond)"""
    v = {k: c.int(k, *FIELDS[k]) for k in FIELDS}
    ok = c.and_(c.between(1, v["year"], 9999), c.between(1, v["month"], 12),
                c.between(1, v["day"], 31),
                c.between(0, v["hour"], 23), c.between(0, v["minute"], 59),
                c.between(0, v["second"], 59), c.between(0, v["nanosecond"], G - 1))
    if not ok or not c.valid_date(v["year"], v["month"], v["day"]):
        return v, False, None, None
    l = (c.ord(v["year"], v["month"], v["day"]) * DAY + v["hour"] * 3600 + v["minute"] * 60
         + v["second"])
    return v, True, l, v["nanosecond"]


@contract(["P12", "P29"], product(offset=["hours", "delta"]))
def offset_constructor(c):
    v, ok, l, ns = fields_of(c)
    o, ook, off = offset_arg(c, c.case["offset"])
    out = c.run(lambda: c.call(c.W.OffsetDateTime, **v, offset=o))
    lab = "OffsetDateTime(...)"
    if not ok:
        return c.expect_valid(out, False, lab)
    check_offset(c, out, l * G + ns, off, lab, ook)


@contract("P12", product(bad=["none", "str", "float"]))
def offset_type(c):
    """An offset of another type is rejected."""
    x = c.local("x")
    bad = {"none": None, "str": "+01:00", "float": 1.5}[c.case["bad"]]
    c.expect_raises(c.run(lambda: c.call(c.W.OffsetDateTime, 2020, 1, 1, offset=bad)), TypeError,
                    "OffsetDateTime(offset=<other type>)")
    c.expect_raises(c.run(lambda: c.call(x.assume_fixed_offset, bad)), TypeError,
                    "assume_fixed_offset(<other type>)")
    i = c.instant("i")
    if bad is not None:
        c.expect_raises(c.run(lambda: c.call(i.to_fixed_offset, bad)), TypeError,
                        "to_fixed_offset(<other type>)")


@contract("P12", product(offset=["hours", "delta"]))
def assume_fixed_offset(c):
    x = c.local("x")
    o, ook, off = offset_arg(c, c.case["offset"])
    out = c.run(lambda: c.call(x.assume_fixed_offset, o))
    check_offset(c, out, c.view(x)[0], off, "assume_fixed_offset", ook)


@contract(["P12", "P28"], product(fields=REPL, offset=["keep", "hours", "delta"]))
def offset_replace(c):
    a = c.offset("a", "hms")
    kw, ok, l, ns = replaced(c, a, c.case["fields"].split())
    off, ook = c.view(a)[1], True
    if c.case["offset"] != "keep":
        kw["offset"], ook, off = offset_arg(c, c.case["offset"])
    out = c.run(lambda: c.call(a.replace, **kw, ignore_dst=True))
    lab = f"OffsetDateTime.replace({c.case['fields']})"
    if not ok:
        return c.expect_valid(out, False, lab)
    check_offset(c, out, l * G + ns, off, lab, ook)


@contract(["P12", "P28"], product(what=["date", "time"]))
def offset_replace_date_time(c):
    a = c.offset("a")
    lns, off = c.view(a)
    if c.case["what"] == "date":
        d = c.date("d", "ord")
        out = c.run(lambda: c.call(a.replace_date, d, ignore_dst=True))
        want = c.ordinal(d) * DAY * G + lns % (DAY * G)
    else:
        t = c.time("t")
        out = c.run(lambda: c.call(a.replace_time, t, ignore_dst=True))
        want = lns // (DAY * G) * (DAY * G) + c.view(t)[0]
    check_offset(c, out, want, off, f"replace_{c.case['what']}")


KW = ["years", "months", "weeks", "days", "hours", "nanoseconds", "months days",
      "years months weeks days", "days hours",
      "hours minutes seconds milliseconds microseconds nanoseconds",
      "years months weeks days hours minutes seconds milliseconds microseconds nanoseconds"]


def kwargs(c, names, lim=BIG, dlim=10 ** 7):
    """(kwargs, months, days, nanoseconds)"""
    kw = {}
    mos = days = dns = 0
    for k in names:
        v = kw[k] = c.amount(k, lim if k in UNITS else dlim, names)
        if k in UNITS:
            dns = dns + v * UNITS[k]
        elif k in ("years", "months"):
            mos = mos + v * (12 if k == "years" else 1)
        else:
            days = days + v * (7 if k == "weeks" else 1)
    return kw, mos, days, dns


def delta(c, t, name="d"):
    """(delta, months, days, nanoseconds)"""
    d = {"TimeDelta": c.timedelta, "DateDelta": c.datedelta,
         "DateTimeDelta": c.datetimedelta}[t](name)
    v = c.view(d)
    return (d,) + {"TimeDelta": lambda: (0, 0, v[0]), "DateDelta": lambda: (v[0], v[1], 0),
                   "DateTimeDelta": lambda: v}[t]()


def td_ok(c, ns):
    return c.between(-MAX_NS, ns, MAX_NS)


def shifted(c, a, mos, days):
    """Local nanoseconds after the calendar step, or None."""
    y, m, d = c.ymd(a)
    n = c.shift_ord(y, m, d, mos, days)
    return None if n is None else n * DAY * G + c.view(a)[0] % (DAY * G)


def offset_shift(c, out, a, mos, days, dns, label, also=True):
    off = c.view(a)[1]
    mid = shifted(c, a, mos, days)
    if mid is None:
        return c.expect_valid(out, False, label)
    # the moment after the calendar step has to be in range as well
    check_offset(c, out, mid + dns, off, label, also, must=in_range(c, mid - off * G))


@contract("P12", product(op=["add", "subtract"], kw=KW))
def offset_shift_kwargs(c):
    a = c.offset("a", "ymd")
    kw, mos, days, dns = kwargs(c, c.case["kw"].split())
    s = SIGN[c.case["op"]]
    out = c.run(lambda: c.call(getattr(a, c.case["op"]), **kw, ignore_dst=True))
    offset_shift(c, out, a, s * mos, s * days, s * dns, f"OffsetDateTime.{c.case['op']}",
                 td_ok(c, dns))


@contract("P12", product(op=["add", "subtract"], delta=["TimeDelta", "DateDelta", "DateTimeDelta"]))
def offset_shift_delta(c):
    a = c.offset("a", "ymd")
    d, mos, days, dns = delta(c, c.case["delta"])
    s = SIGN[c.case["op"]]
    out = c.run(lambda: c.call(getattr(a, c.case["op"]), d, ignore_dst=True))
    offset_shift(c, out, a, s * mos, s * days, s * dns, f"OffsetDateTime.{c.case['op']}(delta)")


@contract("P12", product(how=["none", "mixed"]))
def offset_shift_args(c):
    a = c.offset("a")
    for op in ("add", "subtract"):
        if c.case["how"] == "none":
            out = c.run(lambda: c.call(getattr(a, op), ignore_dst=True))
            if c.expect_value(out, f"{op}()"):
                c.check(c.same(out.value, a), f"{op}() without arguments changes nothing")
        else:
            d = c.timedelta(op + ".d")
            out = c.run(lambda: c.call(getattr(a, op), d, hours=1, ignore_dst=True))
            c.expect_raises(out, TypeError, f"{op}(delta, hours=1)")


@contract("P12", product(cls=["OffsetDateTime", "LocalDateTime"],
                         tz=["naive", "utc", "fixed"]))
def strptime(c):
    """Whatever datetime the standard library parses."""
    k = c.case["tz"]
    off_us = c.int("off_us", -86399999999, 86399999999) if k == "fixed" else None
    d = c.pydt("d", c.pytz(k, None, off_us), fold=0)
    text, fmt = c.strptime_args(d)
    out = c.run(lambda: c.call(getattr(c.W, c.case["cls"]).strptime, text, fmt))
    ls, us = c.pyview(d)
    lns = ls * G + us * 1000
    lab = f"{c.case['cls']}.strptime"
    if c.case["cls"] == "LocalDateTime":
        if c.expect_valid(out, k == "naive", lab):
            c.is_a(out.value, "LocalDateTime")
            c.check(c.view(out.value)[0] == lns, f"{lab}: the parsed fields")
            c.invariant(out.value, lab)
        return
    if k == "naive":
        return c.expect_valid(out, False, lab)
    o = 0 if k == "utc" else off_us
    check_offset(c, out, lns, o // 10 ** 6, lab, o % 10 ** 6 == 0)


# ---- P13 ---------------------------------------------------------------------
def check_local(c, out, lns, label, also=True):
    if lns is None:
        return c.expect_valid(out, False, label)
    if c.expect_valid(out, c.and_(also, in_range(c, lns)), label):
        c.is_a(out.value, "LocalDateTime")
        c.check(c.view(out.value)[0] == lns,
                f"{label}: calendar units on the date, then the exact time")
        c.invariant(out.value, label)


@contract("P13", product(op=["add", "subtract"], kw=KW))
def local_shift_kwargs(c):
    a = c.local("a", "ymd")
    kw, mos, days, dns = kwargs(c, c.case["kw"].split())
    s = SIGN[c.case["op"]]
    out = c.run(lambda: c.call(getattr(a, c.case["op"]), **kw, ignore_dst=True))
    mid = shifted(c, a, s * mos, s * days)
    check_local(c, out, None if mid is None else mid + s * dns, f"LocalDateTime.{c.case['op']}",
                td_ok(c, dns))


@contract("P13", product(op=["add", "subtract"], kw=["years", "months", "weeks", "days",
                                                     "years months weeks days"]))
def local_shift_date_kwargs(c):
    """Calendar units need no consent."""
    a = c.local("a", "ymd")
    kw, mos, days, dns = kwargs(c, c.case["kw"].split())
    s = SIGN[c.case["op"]]
    out = c.run(lambda: c.call(getattr(a, c.case["op"]), **kw))
    check_local(c, out, shifted(c, a, s * mos, s * days), f"LocalDateTime.{c.case['op']}")


@contract("P13", product(op=["add", "subtract"], how=["method", "operator"],
                         delta=["TimeDelta", "DateDelta", "DateTimeDelta"]))
def local_shift_delta(c):
    a = c.local("a", "ymd")
    t = c.case["delta"]
    if c.case["how"] == "operator" and t != "DateDelta":
        return gated(c, c.run((lambda: a + delta(c, t)[0]) if c.case["op"] == "add" else
                              (lambda: a - delta(c, t)[0])), f"LocalDateTime {c.case['op']} {t}")
    d, mos, days, dns = delta(c, t)
    s = SIGN[c.case["op"]]
    mid = shifted(c, a, s * mos, s * days)
    if c.case["how"] == "operator":
        out = c.run((lambda: a + d) if s == 1 else (lambda: a - d))
    else:
        out = c.run(lambda: c.call(getattr(a, c.case["op"]), d, ignore_dst=True))
    check_local(c, out, None if mid is None else mid + s * dns,
                f"LocalDateTime {c.case['op']} {t} ({c.case['how']})")


@contract("P13")
def local_difference(c):
    a, b = c.local("a"), c.local("b")
    out = c.run(lambda: c.call(a.difference, b, ignore_dst=True))
    if c.expect_value(out, "difference"):
        c.is_a(out.value, "TimeDelta")
        c.check(c.view(out.value)[0] == c.view(a)[0] - c.view(b)[0],
                "difference: exactly the nanoseconds between")
        c.invariant(out.value, "difference")
        back = c.run(lambda: c.call(b.add, out.value, ignore_dst=True))
        if c.expect_value(back, "b + (a - b)"):
            c.check(c.same(back.value, a), "b.add(a.difference(b)) is a")


@contract("P13", product(how=["none", "mixed"]))
def local_shift_args(c):
    a = c.local("a")
    for op in ("add", "subtract"):
        if c.case["how"] == "none":
            out = c.run(lambda: c.call(getattr(a, op)))
            if c.expect_value(out, f"{op}()"):
                c.check(c.same(out.value, a), f"{op}() without arguments changes nothing")
        else:
            d = c.timedelta(op + ".d")
            out = c.run(lambda: c.call(getattr(a, op), d, hours=1, ignore_dst=True))
            c.expect_raises(out, TypeError, f"{op}(delta, hours=1)")


# ---- P14 ---------------------------------------------------------------------
CONSENT = ["omitted", "False", "None", "1", "text", "True"]


def consent(c):
    k = c.case["consent"]
    if k == "omitted":
        return {}
    return dict(ignore_dst={"False": False, "None": None, "1": 1, "text": "True", "True": True}[k])


def gated(c, out, label, also=()):
    """Must raise the implicitly-ignoring-DST error."""
    # (the extension refuses a consent that is not True with a plain TypeError)
    also += (TypeError,) * (c.native and c.case.get("consent") != "omitted")
    c.expect_raises(out, (c.W.ImplicitlyIgnoringDST,) + also, label)


def free(c, out, label):
    """Never that error."""
    c.check(out.ok or not isinstance(out.exc, c.W.ImplicitlyIgnoringDST),
            f"{label}: no DST error", soft=not out.ok)


def gate(c, out, label, also=()):
    if c.case["consent"] == "True":
        free(c, out, f"{label} with consent")
    else:
        gated(c, out, f"{label} without consent", also)


OFFSET_OPS = ["add none", "add kwargs", "add TimeDelta", "add DateDelta", "add DateTimeDelta",
              "subtract kwargs", "subtract TimeDelta", "subtract DateDelta",
              "subtract DateTimeDelta", "replace", "replace offset", "replace none",
              "replace_date", "replace_time", "round", "round hour", "now", "now delta",
              "from_timestamp", "from_timestamp_millis", "from_timestamp_nanos"]


@contract("P14", product(op=OFFSET_OPS, consent=CONSENT))
def offset_gate(c):
    a = c.offset("a", "ymd")
    kw = consent(c)
    op, *arg = c.case["op"].split()
    arg = arg[0] if arg else ""
    W = c.W
    if op in ("add", "subtract"):
        if arg == "none":
            th = lambda: c.call(getattr(a, op), **kw)
        elif arg == "kwargs":
            kws = kwargs(c, ["months", "days", "hours", "nanoseconds"])[0]
            th = lambda: c.call(getattr(a, op), **kws, **kw)
        else:
            d = delta(c, arg)[0]
            th = lambda: c.call(getattr(a, op), d, **kw)
    elif op == "replace":
        kws = {} if arg == "none" else dict(offset=c.int("hours", -23, 23)) if arg else \
            dict(hour=c.int("hour", 0, 23))
        th = lambda: c.call(a.replace, **kws, **kw)
    elif op == "replace_date":
        d = c.date("d", "ord")
        th = lambda: c.call(a.replace_date, d, **kw)
    elif op == "replace_time":
        t = c.time("t")
        th = lambda: c.call(a.replace_time, t, **kw)
    elif op == "round":
        ar = (arg,) if arg else ()
        th = lambda: c.call(a.round, *ar, **kw)
    elif op == "now":
        c.use_clock()
        o = c.int("hours", -23, 23)
        th = lambda: c.call(W.OffsetDateTime.now, o, **kw)
    else:
        i = c.int("i", -10 ** 20, 10 ** 20)
        th = lambda: c.call(getattr(W.OffsetDateTime, op), i, offset=c.int("hours", -23, 23), **kw)
    gate(c, c.run(th), f"OffsetDateTime.{c.case['op']}")


@contract("P14", product(delta=["TimeDelta", "DateDelta", "DateTimeDelta"]))
def offset_operators(c):
    a = c.offset("a")
    d = delta(c, c.case["delta"])[0]
    gated(c, c.run(lambda: a - d), "OffsetDateTime - delta")
    c.expect_raises(c.run(lambda: a + d), TypeError, "OffsetDateTime + delta")


@contract("P14", product(consent=CONSENT))
def local_difference_gate(c):
    a, b = c.local("a"), c.local("b")
    kw = consent(c)
    gate(c, c.run(lambda: c.call(a.difference, b, **kw)), "LocalDateTime.difference")


@contract("P14")
def local_operators(c):
    a, b = c.local("a"), c.local("b")
    gated(c, c.run(lambda: a - b), "LocalDateTime - LocalDateTime")
    for t in ("TimeDelta", "DateTimeDelta"):
        d = delta(c, t, "d" + t)[0]
        gated(c, c.run(lambda: a + d), f"LocalDateTime + {t}")
        gated(c, c.run(lambda: a - d), f"LocalDateTime - {t}")
    d = c.datedelta("dd")
    free(c, c.run(lambda: a + d), "LocalDateTime + DateDelta")
    free(c, c.run(lambda: a - d), "LocalDateTime - DateDelta")


@contract("P14", product(op=["add", "subtract"], consent=CONSENT,
                         how=["TimeDelta", "DateDelta", "DateTimeDelta", "kwargs date",
                              "hours", "minutes", "seconds", "milliseconds", "microseconds",
                              "nanoseconds", "days hours", "months nanoseconds"]))
def local_shift_gate(c):
    a = c.local("a", "ymd")
    kw = consent(c)
    how = c.case["how"]
    if how in ("TimeDelta", "DateDelta", "DateTimeDelta"):
        d, mos, days, dns = delta(c, how)
        out = c.run(lambda: c.call(getattr(a, c.case["op"]), d, **kw))
    else:
        names = ["years", "months", "weeks", "days"] if how == "kwargs date" else how.split()
        kws, mos, days, dns = kwargs(c, names)
        out = c.run(lambda: c.call(getattr(a, c.case["op"]), **kws, **kw))
    lab = f"LocalDateTime.{c.case['op']}({how})"
    if c.case["consent"] == "True":
        return free(c, out, f"{lab} with consent")
    if dns != 0:                     # decides
        # (out of range may be noticed first)
        gated(c, out, f"{lab}: time units without consent", RANGE_ERR)
        if c.and_(mos == 0, days == 0, td_ok(c, dns)):
            gated(c, out, f"{lab}: time units alone without consent")
    else:
        free(c, out, f"{lab}: no time units")


@contract("P14", product(op=["replace", "replace_date", "replace_time", "round", "assume_utc",
                             "assume_fixed_offset", "assume_tz"]))
def local_free(c):
    a = c.local("a")
    op = c.case["op"]
    z = c.zone("tz")
    d, t = c.date("d", "ord"), c.time("t")
    th = {"replace": lambda: c.call(a.replace, hour=c.int("h", 0, 23)),
          "replace_date": lambda: c.call(a.replace_date, d),
          "replace_time": lambda: c.call(a.replace_time, t),
          "round": lambda: c.call(a.round, "hour"),
          "assume_utc": lambda: c.call(a.assume_utc),
          "assume_fixed_offset": lambda: c.call(a.assume_fixed_offset, c.int("o", -23, 23)),
          "assume_tz": lambda: c.call(a.assume_tz, z.key)}[op]
    free(c, c.run(th), f"LocalDateTime.{op}")


@contract("P14", product(op=["add", "subtract", "+", "-", "round", "replace_time", "now",
                             "difference"], t=["Instant", "ZonedDateTime", "SystemDateTime"]),
          sys=True)
def exact_free(c):
    """Exact and timezone-aware types are DST-safe."""
    from .c_order import make_exact
    t, op = c.case["t"], c.case["op"]
    a = make_exact(c, t, "a")
    d = c.timedelta("d")
    if op in ("add", "subtract"):
        th = lambda: c.call(getattr(a, op), hours=c.int("h", -10 ** 9, 10 ** 9))
    elif op in "+-":
        th = (lambda: a + d) if op == "+" else (lambda: a - d)
    elif op == "round":
        th = lambda: c.call(a.round, "hour")
    elif op == "replace_time":
        if t == "Instant":
            th = lambda: c.call(a.to_fixed_offset, c.int("o", -23, 23))
        else:
            tm = c.time("t")
            th = lambda: c.call(a.replace_time, tm)
    elif op == "now":
        c.use_clock()
        z = c.zone("tz")
        ar = (z.key,) if t == "ZonedDateTime" else ()
        th = lambda: c.call(getattr(c.W, t).now, *ar)
    else:
        b = c.offset("b")
        th = lambda: c.call(a.difference, b)
    free(c, c.run(th), f"{t}.{op}")
