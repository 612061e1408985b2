"""P09, P30, P16: well-formed zoned values, day boundaries, rounding."""
from . import contract, product
from .zspec import resolve, resolve_prev, check_resolved, Spec, STRATEGIES, u_ok, both_ok, G
from .c_zoned import make, zone_for, CLS, replaced, near_date
from engine.ctx import RANGE_ERR, MIN_LS, MAX_LS, MAX_NS, EPOCH_LS
from engine.models import MAXORD
DAY = 86400
PARSE_ERR = RANGE_ERR + (KeyError,)


# ---- P09 ---------------------------------------------------------------------
def well_formed(c, r, z, label):
    """The local time exists with that offset, and the instant leads back to the value."""
    c.is_a(r, "ZonedDateTime")
    v = c.view(r)
    c.check(c.eqs(v[2], z.key), f"{label}: in its timezone")
    o0, o1 = z.offs(v[0] // G)
    c.check(o0 >= o1, f"{label}: the local time exists in the timezone")
    c.check(c.or_(v[1] == o0, v[1] == o1), f"{label}: an offset of the timezone at that local time")
    c.invariant(r, label)
    out = c.run(lambda: c.call(r.instant))
    if not c.expect_value(out, f"{label}: instant()"):
        return
    out = c.run(lambda: c.call(out.value.to_tz, z.key))
    if c.expect_value(out, f"{label}: back to the timezone"):
        c.check(c.eqs(c.view(out.value), v), f"{label}: the instant converts back to the same value")


def sources(c, z):
    """name -> thunk giving a ZonedDateTime, for every way of obtaining one."""
    case = c.case["op"]
    W = c.W
    st = c.case.get("strategy")
    kw = {} if st is None else dict(disambiguate=st)
    key = z.key
    if case == "constructor":
        x = c.local("x", "hms")
        y, m, d = c.ymd(x)
        s = c.sod(x)
        ns = c.view(x)[0] % G
        return lambda: c.call(W.ZonedDateTime, y, m, d, s // 3600, s // 60 % 60, s % 60,
                              nanosecond=ns, tz=key, **kw)
    if case == "assume_tz":
        x = c.local("x")
        return lambda: c.call(x.assume_tz, key, **kw)
    if case.startswith("to_tz:"):
        t = case[6:]
        a = {"Instant": c.instant, "OffsetDateTime": c.offset}[t]("a")
        return lambda: c.call(a.to_tz, key)
    if case.startswith("from_timestamp"):
        i = c.int("i", -10 ** 21, 10 ** 21)
        return lambda: c.call(getattr(W.ZonedDateTime, case), i, tz=key)
    if case == "now":
        c.use_clock()
        return lambda: c.call(W.ZonedDateTime.now, key)
    if case == "from_py_datetime":
        d = c.pydt("d", c.pytz("zone", z), zone=z, sub=c.bool("sub"))
        return lambda: c.call(W.ZonedDateTime.from_py_datetime, d)
    if case == "parse":
        text = zoned_text(c, z)
        return lambda: c.call(W.ZonedDateTime.parse_common_iso, text)
    by = "ymd" if case.startswith("add") else "hms" if case == "replace" else "ls"
    a = c.zoned("a", z, by)
    if case == "replace_date":
        d = near_date(c, z, "d")
        return lambda: c.call(a.replace_date, d, **kw)
    if case == "replace_time":
        t = c.time("t")
        return lambda: c.call(a.replace_time, t, **kw)
    if case == "replace":
        k2, ok, l, ns = replaced(c, a, c.case["fields"].split())
        return lambda: c.call(a.replace, **k2, **kw)
    if case == "add_date":
        d = c.datedelta("d")
        return lambda: c.call(a.add, d, **kw)
    if case == "add_time":
        d = c.timedelta("d")
        return lambda: c.call(a.add, d)
    if case == "add_datetime":
        d = c.datetimedelta("d")
        return lambda: a + d
    if case == "start_of_day":
        return lambda: c.call(a.start_of_day)
    if case == "round_day":
        return lambda: c.call(a.round, "day", mode=c.case["mode"])
    if case == "round":
        return lambda: c.call(a.round, c.case["unit"], c.case["inc"], c.case["mode"])
    if case == "pickle":
        return lambda: unpickle(c, a)
    raise AssertionError(case)


def unpickle(c, a):
    f, args = c.call(a.__reduce__)[:2]
    return c.call(f, *args)


def zoned_text(c, z):
    """An ISO text with in-range fields and any offset."""
    x = c.local("x", "hms")
    y, m, d = c.ymd(x)
    s = c.sod(x)
    oh, om, os_ = c.int("oh", 0, 23), c.int("om", 0, 59), c.int("os", 0, 59)
    sg = c.choice("osign", ["+", "-"])
    tail = ["", "Z"][0]
    parts = [c.fmt(y, 4), "-", c.fmt(m, 2), "-", c.fmt(d, 2), "T", c.fmt(s // 3600, 2), ":",
             c.fmt(s // 60 % 60, 2), ":", c.fmt(s % 60, 2)]
    if c.bool("frac"):
        parts += [".", c.fmt(c.view(x)[0] % G, 9)]
    how = c.choice("offset form", ["hh:mm", "hh:mm:ss", "Z"])
    if how == "Z":
        parts.append("Z")
    else:
        parts += [sg, c.fmt(oh, 2), ":", c.fmt(om, 2)]
        if how == "hh:mm:ss":
            parts += [":", c.fmt(os_, 2)]
    return c.cat(*parts, "[", z.key, "]")


WF = (product(op=["constructor", "assume_tz", "replace_date", "replace_time", "add_date"],
              strategy=[None, "compatible", "earlier", "later", "raise"])
      + product(op=["replace"], fields=["hour", "day", "year month day hour minute second"],
                strategy=[None, "earlier", "later"])
      + product(op=["to_tz:Instant", "to_tz:OffsetDateTime", "from_timestamp",
                    "from_timestamp_millis", "from_timestamp_nanos", "now", "from_py_datetime",
                    "parse", "add_time", "add_datetime", "start_of_day", "pickle"])
      + product(op=["round_day"], mode=["floor", "ceil", "half_even"])
      + [dict(op="round", unit=u, inc=i, mode=m) for u, i, m in
         [("hour", 1, "floor"), ("hour", 6, "ceil"), ("minute", 15, "half_even"),
          ("second", 1, "half_ceil"), ("millisecond", 100, "half_floor")]])


@contract("P09", WF)
def zoned_well_formed(c):
    z = c.zone("tz")
    th = sources(c, z)
    out = c.run(th)
    lab = c.case["op"]
    if out.ok:
        well_formed(c, out.value, z, lab)
    else:
        ok = RANGE_ERR + (c.W.RepeatedTime, c.W.SkippedTime)
        c.fail_types(out, ok, lab)


@contract("P09", product(op=["none", "empty shift"]))
def zoned_identity(c):
    """The builder's own values: every zoned value is well-formed."""
    z = c.zone("tz")
    a = c.zoned("a", z)
    if c.case["op"] == "none":
        return well_formed(c, a, z, "value")
    out = c.run(lambda: c.call(a.add))
    if c.expect_value(out, "add()"):
        well_formed(c, out.value, z, "add()")


# ---- P30 ---------------------------------------------------------------------
def midnight_of(c, z, n):
    """(ok, local second, offset) of the first/compatible midnight of day n."""
    return resolve(c, z, n * DAY, "compatible")


def day_boundaries(c, kind):
    z = zone_for(c, kind)
    a = make(c, kind, "a", z)
    v = c.view(a)
    n = c.ordinal(a)
    sp = midnight_of(c, z, n)
    out = c.run(lambda: c.call(a.start_of_day))
    check_resolved(c, out, sp, 0, "start_of_day", z, CLS[kind])
    out = c.run(lambda: c.call(a.day_length))
    if not n + 1 <= MAXORD:
        return c.expect_valid(out, False, "day_length")
    sp2 = midnight_of(c, z, n + 1)
    lim = c.and_(sp.must, sp2.must)
    if out.ok:
        c.is_a(out.value, "TimeDelta")
        c.check(c.view(out.value)[0] == ((sp2.l - sp2.off) - (sp.l - sp.off)) * G,
                "day_length: exact time between this and the next local midnight")
    else:
        c.fail_types(out, RANGE_ERR, "day_length")
        c.check(c.not_(lim), "day_length: raises only at the ends of the range")


def ambiguous(c, kind):
    z = zone_for(c, kind)
    a = make(c, kind, "a", z)
    l = c.view(a)[0] // G
    o0, o1 = z.offs(l)
    if kind == "system":
        c.assume(c.and_(u_ok(c, l - o0), u_ok(c, l - o1)))
        c.assume(o0 >= o1)
    out = c.run(lambda: c.call(a.is_ambiguous))
    if c.expect_value(out, "is_ambiguous"):
        c.check(c.truth(out.value) == (o0 != o1), "ambiguous exactly when the local time occurs twice")


@contract("P30", product(kind=["zoned"]))
def zoned_day(c):
    day_boundaries(c, "zoned")


@contract("P30", product(kind=["system"]), sys=True)
def system_day(c):
    day_boundaries(c, "system")


@contract("P30", product(kind=["zoned"]))
def zoned_ambiguous(c):
    ambiguous(c, "zoned")


@contract("P30", product(kind=["system"]), sys=True)
def system_ambiguous(c):
    ambiguous(c, "system")


# ---- P16 ---------------------------------------------------------------------
MODES = ["floor", "ceil", "half_floor", "half_ceil", "half_even"]


def rounded(c, ns, inc, mode):
    """The multiple of inc that the mode prescribes for ns >= 0."""
    q, r = ns // inc, ns % inc
    if mode == "floor":
        up = False
    elif mode == "ceil":
        up = r > 0
    elif mode == "half_floor":
        up = r * 2 > inc
    elif mode == "half_ceil":
        up = r * 2 >= inc
    else:
        up = c.or_(r * 2 > inc, c.and_(r * 2 == inc, q % 2 == 1))
    return c.ite(up, q + 1, q) * inc


def round_day(c, kind):
    z = zone_for(c, kind)
    a = make(c, kind, "a", z)
    mode = c.case["mode"]
    n, sod = c.ordinal(a), c.sod(a)
    tns = sod * G + c.view(a)[0] % G
    out = c.run(lambda: c.call(a.round, "day", mode=mode))
    lab = f"round('day', mode={mode!r})"
    sp0 = midnight_of(c, z, n)
    if not n + 1 <= MAXORD:
        if out.ok:
            check_resolved(c, out, sp0, 0, lab, z, CLS[kind])
        else:
            c.fail_types(out, RANGE_ERR, lab)
        return
    sp1 = midnight_of(c, z, n + 1)
    length = ((sp1.l - sp1.off) - (sp0.l - sp0.off)) * G
    up = {"floor": False, "ceil": tns > 0, "half_floor": tns * 2 > length,
          "half_even": tns * 2 > length, "half_ceil": tns * 2 >= length}[mode]
    both = c.and_(sp0.must, sp1.must)
    if not both:
        if not out.ok:
            return c.fail_types(out, RANGE_ERR, lab)
    check_resolved(c, out, sp1 if up else sp0, 0, lab, z, CLS[kind])


UNIT_NS = {"hour": 3600 * G, "minute": 60 * G, "second": G, "millisecond": 10 ** 6,
           "microsecond": 1000, "nanosecond": 1}
NEXT = {"hour": 24, "minute": 60, "second": 60, "millisecond": 1000, "microsecond": 1000,
        "nanosecond": 1000}
PAIRS = [(u, i) for u in UNIT_NS for i in range(1, NEXT[u] + 1) if NEXT[u] % i == 0]
FEW = [(u, i) for u, i in PAIRS if i in (1, 2, 3, 5, 15, 24, 125, NEXT[u])]


def round_unit(c, kind):
    z = zone_for(c, kind)
    a = make(c, kind, "a", z)
    u, i, mode = c.case["unit"], c.case["inc"], c.case["mode"]
    v = c.view(a)
    n = c.ordinal(a)
    tns = c.sod(a) * G + v[0] % G
    r = rounded(c, tns, UNIT_NS[u] * i, mode)
    out = c.run(lambda: c.call(a.round, u, i, mode))
    lab = f"round({u!r}, {i}, {mode!r})"
    lns = n * DAY * G + r
    if not lns // G <= MAX_LS:
        return c.expect_valid(out, False, lab)
    sp = resolve_prev(c, z, lns // G, v[1])
    check_resolved(c, out, sp, lns % G, lab, z, CLS[kind])


@contract("P16", product(mode=MODES))
def zoned_round_day(c):
    round_day(c, "zoned")


@contract("P16", product(mode=MODES), sys=True)
def system_round_day(c):
    round_day(c, "system")


@contract("P16", [dict(unit=u, inc=i, mode=m) for u, i in FEW for m in MODES])
def zoned_round(c):
    round_unit(c, "zoned")


@contract("P16", [dict(unit=u, inc=i, mode=m) for u, i in FEW for m in MODES], sys=True)
def system_round(c):
    round_unit(c, "system")
