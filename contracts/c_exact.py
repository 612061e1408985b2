"""P05, P06, P07: exact-time arithmetic, conversions, timestamps."""
from . import contract, product
from .c_order import make_exact, EXACT
from engine.ctx import MIN_LS, MAX_LS, EPOCH_LS, MAX_NS, MIN_NS, MAX_INSTANT_NS, RANGE_ERR
G = 1_000_000_000
UNITS = {"hours": 3600 * G, "minutes": 60 * G, "seconds": G, "milliseconds": 10 ** 6,
         "microseconds": 1000, "nanoseconds": 1}
BIG = 10 ** 24


def in_range(c, ns):
    return c.between(MIN_NS, ns, MAX_INSTANT_NS)


def check_instant(c, out, want, label, also=True):
    """Returns an Instant at `want` iff that (and the amount) is in range."""
    if c.expect_valid(out, c.and_(in_range(c, want), also), label):
        c.is_a(out.value, "Instant")
        c.check(c.view(out.value)[0] == want, f"{label}: moves by exactly the delta")
        c.invariant(out.value, label)


@contract("P05", product(op=["+", "-"]))
def instant_shift(c):
    a = c.instant("a")
    d = c.timedelta("d")
    if c.case["op"] == "+":
        out, want = c.run(lambda: a + d), c.view(a)[0] + c.view(d)[0]
    else:
        out, want = c.run(lambda: a - d), c.view(a)[0] - c.view(d)[0]
    check_instant(c, out, want, f"Instant {c.case['op']} TimeDelta")


@contract("P05", product(op=["add", "subtract"]))
def instant_shift_kwargs(c):
    a = c.instant("a")
    kw = {k: c.amount(k, BIG, list(UNITS)) for k in UNITS}
    tot = sum(kw[k] * UNITS[k] for k in UNITS)
    s = 1 if c.case["op"] == "add" else -1
    out = c.run(lambda: c.call(getattr(a, c.case["op"]), **kw))
    check_instant(c, out, c.view(a)[0] + s * tot, f"Instant.{c.case['op']}(...)")


@contract("P05", product(op=["add", "subtract"], kw=list(UNITS)))
def instant_shift_one(c):
    a = c.instant("a")
    k = c.case["kw"]
    v = c.int("amount", -BIG, BIG)
    s = 1 if c.case["op"] == "add" else -1
    out = c.run(lambda: c.call(getattr(a, c.case["op"]), **{k: v}))
    check_instant(c, out, c.view(a)[0] + s * v * UNITS[k], f"Instant.{c.case['op']}({k})")


@contract("P05", product(a=EXACT, b=EXACT, how=["-", "difference"]), sys=True)
def difference(c):
    ta, tb = c.case["a"], c.case["b"]
    za = c.zone("a.tz") if ta == "ZonedDateTime" else None
    a = make_exact(c, ta, "a", za)
    zb = None
    if tb == "ZonedDateTime":
        zb = c.zone_like("b.tz", za) if za is not None else c.zone("b.tz")
    b = make_exact(c, tb, "b", zb)
    lab = f"{ta} - {tb}"
    out = c.run((lambda: a - b) if c.case["how"] == "-" else lambda: c.call(a.difference, b))
    if not c.expect_value(out, lab):
        return
    d = out.value
    c.is_a(d, "TimeDelta")
    c.check(c.view(d)[0] == c.moment(a) - c.moment(b), f"{lab}: exactly the nanoseconds between")
    c.invariant(d, lab)
    if tb == "Instant":
        back = c.run(lambda: b + d)
        if c.expect_value(back, "b + (a - b)"):
            c.check(c.view(back.value)[0] == c.moment(a), "b + (a - b) is a")


# ---- P06 ---------------------------------------------------------------------
def tz_ok(c, z, u):
    """(ok, offset, fold) of moment second u in zone z; ok: local time in range."""
    o, f = z.uoff(u)
    return c.between(MIN_LS, u + o, MAX_LS), o, f


def check_zoned(c, out, z, m_ns, label, also=True):
    """The value denotes moment m_ns in zone z, or raises when out of range."""
    u = m_ns // G
    if not c.and_(u >= MIN_LS, u <= MAX_LS, also):
        c.expect_valid(out, False, label)
        return
    ok, o, f = tz_ok(c, z, u)
    if c.expect_valid(out, ok, label):
        r = out.value
        v = c.view(r)
        if c.cls(r) == "ZonedDateTime":
            c.check(c.eqs(v[2], z.key), f"{label}: in the requested timezone")
        c.check(v[1] == o, f"{label}: has the offset of the timezone at that moment")
        c.check(v[0] == m_ns + o * G, f"{label}: local fields are the moment plus the offset")
        c.check(c.moment(r) == m_ns, f"{label}: same moment")
        c.invariant(r, label)


@contract("P06", product(src=EXACT), sys=True)
def to_tz(c):
    t = c.case["src"]
    za = c.zone("a.tz") if t == "ZonedDateTime" else None
    a = make_exact(c, t, "a", za)
    z = c.zone_like("tz", za) if za is not None else c.zone("tz")
    out = c.run(lambda: c.call(a.to_tz, z.key))
    if out.ok:
        c.is_a(out.value, "ZonedDateTime")
    check_zoned(c, out, z, c.moment(a), "to_tz")


@contract("P06", product(src=EXACT), sys=True)
def to_system_tz(c):
    a = make_exact(c, c.case["src"], "a")
    z = c.syszone()
    out = c.run(lambda: c.call(a.to_system_tz))
    if out.ok:
        c.is_a(out.value, "SystemDateTime")
    check_zoned(c, out, z, c.moment(a), "to_system_tz")


@contract("P06", product(src=EXACT, arg=["none", "hours", "delta"]), sys=True)
def to_fixed_offset(c):
    t = c.case["src"]
    a = make_exact(c, t, "a")
    m = c.moment(a)
    how = c.case["arg"]
    ok = True
    if how == "none":
        out = c.run(lambda: c.call(a.to_fixed_offset))
        o = 0 if t == "Instant" else c.view(a)[1]
    elif how == "hours":
        h = c.int("hours", -30, 30)
        o = h * 3600
        ok = c.between(-23, h, 23)
        out = c.run(lambda: c.call(a.to_fixed_offset, h))
    else:
        d = c.timedelta("delta", 2 * 86400 * G)
        ns = c.view(d)[0]
        o = ns // G
        ok = c.and_(ns % G == 0, c.between(-86399, o, 86399))
        out = c.run(lambda: c.call(a.to_fixed_offset, d))
    lab = f"to_fixed_offset({how})"
    lns = m + o * G
    if c.expect_valid(out, c.and_(ok, c.between(MIN_LS, lns // G, MAX_LS)), lab):
        r = out.value
        c.is_a(r, "OffsetDateTime")
        c.check(c.view(r)[1] == o, f"{lab}: has the requested offset")
        c.check(c.view(r)[0] == lns, f"{lab}: local fields are the moment plus the offset")
        c.invariant(r, lab)


@contract("P06", product(src=EXACT[1:]), sys=True)
def to_instant_and_local(c):
    t = c.case["src"]
    a = make_exact(c, t, "a")
    v = c.view(a)
    out = c.run(lambda: c.call(a.instant))
    if c.expect_value(out, "instant()"):
        c.is_a(out.value, "Instant")
        c.check(c.view(out.value)[0] == c.moment(a), "instant(): same moment")
        c.invariant(out.value, "instant()")
    out = c.run(lambda: c.call(a.local))
    if c.expect_value(out, "local()"):
        c.is_a(out.value, "LocalDateTime")
        c.check(c.view(out.value)[0] == v[0], "local(): the same local fields")
        c.invariant(out.value, "local()")
    out = c.run(lambda: a.offset)
    if c.expect_value(out, "offset"):
        c.is_a(out.value, "TimeDelta")
        c.check(c.view(out.value)[0] == v[1] * G, "offset: local time minus UTC")


@contract("P06")
def assume_utc(c):
    a = c.local("a")
    out = c.run(lambda: c.call(a.assume_utc))
    if c.expect_value(out, "assume_utc"):
        c.is_a(out.value, "Instant")
        c.check(c.view(out.value)[0] == c.view(a)[0], "assume_utc keeps the fields")
        c.invariant(out.value, "assume_utc")


# ---- P07 ---------------------------------------------------------------------
TS = {"timestamp": G, "timestamp_millis": 10 ** 6, "timestamp_nanos": 1}


@contract("P07", product(src=EXACT, fn=list(TS)), sys=True)
def reading(c):
    a = make_exact(c, c.case["src"], "a")
    f = c.case["fn"]
    out = c.run(lambda: c.call(getattr(a, f)))
    if c.expect_value(out, f):
        ns = c.moment(a) - EPOCH_LS * G
        c.check(out.value == ns // TS[f], f"{f}: exact floor of the distance to the epoch")


@contract("P07", product(cls=EXACT, fn=list(TS)), sys=True)
def creating(c):
    t, f = c.case["cls"], c.case["fn"]
    unit = TS[f]
    lim = 3 * MAX_NS // unit
    i = c.int("i", -lim, lim)
    cls = getattr(c.W, t)
    mk = getattr(cls, "from_" + f)
    want = i * unit + EPOCH_LS * G
    lab = f"{t}.from_{f}"
    z = None
    if t == "ZonedDateTime":
        z = c.zone("tz")
        out = c.run(lambda: c.call(mk, i, tz=z.key))
    elif t == "SystemDateTime":
        z = c.syszone()
        out = c.run(lambda: c.call(mk, i))
    elif t == "OffsetDateTime":
        o = c.offset_secs("off")
        d = c.W.TimeDelta(seconds=o) if not c.symbolic else c._new("TimeDelta", _total_ns=o * G)
        out = c.run(lambda: c.call(mk, i, offset=d, ignore_dst=True))
    else:
        out = c.run(lambda: c.call(mk, i))
    if z is not None:
        check_zoned(c, out, z, want, lab)
    elif t == "OffsetDateTime":
        valid = c.and_(in_range(c, want), in_range(c, want + o * G))
        if c.expect_valid(out, valid, lab):
            c.check(c.eqs(c.view(out.value), (want + o * G, o)), f"{lab}: that moment, that offset")
            c.invariant(out.value, lab)
    else:
        check_instant(c, out, want, lab)
    if out.ok:
        c.is_a(out.value, t)
        back = c.run(lambda: c.call(getattr(out.value, f)))
        if c.expect_value(back, f"{lab} then {f}"):
            c.check(back.value == i, f"{lab} then {f} is the same integer")


SHIFTS = [0, 1, 9, 20, 23, 30, 40, 52, 53, 54, 60, 200, 1074]


@contract("P07", product(cls=EXACT, shift=SHIFTS), sys=True)
def creating_float(c):
    """All doubles that are a multiple of 2**-shift, with |k| <= 2**53."""
    t, j = c.case["cls"], c.case["shift"]
    x, k = c.float("x", j)
    mk = getattr(c.W, t).from_timestamp
    lab = f"{t}.from_timestamp of a float"
    z = None
    if t == "ZonedDateTime":
        z = c.zone("tz")
        out = c.run(lambda: c.call(mk, x, tz=z.key))
    elif t == "SystemDateTime":
        z = c.syszone()
        out = c.run(lambda: c.call(mk, x))
    elif t == "OffsetDateTime":
        o = c.offset_secs("off")
        d = c.W.TimeDelta(seconds=o) if not c.symbolic else c._new("TimeDelta", _total_ns=o * G)
        out = c.run(lambda: c.call(mk, x, offset=d, ignore_dst=True))
    else:
        out = c.run(lambda: c.call(mk, x))
    sec = k // 2 ** j
    want = (sec + EPOCH_LS) * G
    if out.ok:
        want = c.moment(out.value)
        n = want - EPOCH_LS * G
        c.check(n // G == sec, f"{lab}: in the second the float lies in")
        e = (n * 2 ** j - k * G) * 2 ** 52 * 1000
        tol = 2 ** j * 2 ** 52 * 1001
        # 1 ns, plus the precision of the float itself
        c.check(c.and_(e <= tol + abs(k) * G * 1000, -e <= tol + abs(k) * G * 1000),
                f"{lab}: the float's value to the nanosecond")
    if z is not None:
        check_zoned(c, out, z, want, lab)
    elif t == "OffsetDateTime":
        if c.expect_valid(out, c.and_(in_range(c, want), in_range(c, want + o * G)), lab):
            c.check(c.view(out.value)[1] == o, f"{lab}: has the given offset")
            c.invariant(out.value, lab)
    elif c.expect_valid(out, in_range(c, want), lab):
        c.is_a(out.value, "Instant")
        c.invariant(out.value, lab)


@contract("P07", product(cls=EXACT, fn=["timestamp_millis", "timestamp_nanos"],
                         bad=["float", "str", "none"]), sys=True)
def creating_types(c):
    t, f = c.case["cls"], c.case["fn"]
    v = c.choice("given", {"float": [0.5, 2.0, -3.0], "str": ["5", ""], "none": [None]}[c.case["bad"]])
    kw = {"ZonedDateTime": lambda: dict(tz=c.zone("tz").key),
          "OffsetDateTime": lambda: dict(offset=1, ignore_dst=True)}.get(t, dict)()
    out = c.run(lambda: c.call(getattr(getattr(c.W, t), "from_" + f), v, **kw))
    c.expect_raises(out, TypeError, f"{t}.from_{f} of a non-integer")
