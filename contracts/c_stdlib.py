"""P25: conversions to and from the standard library's types."""
from . import contract, product
from .c_pickle import value
from .c_zoned import CLS
from engine.ctx import RANGE_ERR, MIN_LS, MAX_LS, MIN_NS, MAX_INSTANT_NS
G = 1_000_000_000
US = 10 ** 6
DAY = 86400
PYCLS = {"local": "LocalDateTime", "instant": "Instant", "offset": "OffsetDateTime",
         "zoned": "ZonedDateTime", "system": "SystemDateTime"}


# ---- to the standard library ------------------------------------------------------
@contract("P25")
def date_to_py(c):
    a = c.date("a")
    out = c.run(lambda: c.call(a.py_date))
    if c.expect_value(out, "py_date"):
        c.check(c.pytype(out.value) == "date", "py_date: exactly a date")
        c.check(c.eqs(c.pyview(out.value), c.view(a)), "py_date: the same day")


@contract("P25")
def time_to_py(c):
    a = c.time("a")
    v = c.view(a)[0]
    out = c.run(lambda: c.call(a.py_time))
    if c.expect_value(out, "py_time"):
        c.check(c.pytype(out.value) == "time", "py_time: exactly a time")
        c.check(out.value.tzinfo is None, "py_time: naive")
        c.check(c.eqs(c.pyview(out.value), (v // G, v % G // 1000)),
                "py_time: the same fields, truncated to microseconds")


def to_py(c, kind):
    a = c.system("a") if kind == "system" else value(c, kind)[0]
    v = c.view(a)
    out = c.run(lambda: c.call(a.py_datetime))
    if not c.expect_value(out, "py_datetime"):
        return
    d = out.value
    c.check(c.pytype(d) == "datetime", "py_datetime: exactly a datetime")
    c.check(c.eqs(c.pyview(d), (v[0] // G, v[0] % G // 1000)),
            "py_datetime: the same local time, truncated to microseconds")
    if kind == "local":
        c.check(d.tzinfo is None, "py_datetime: naive")
        return
    c.check(d.tzinfo is not None, "py_datetime: aware")
    c.check(c.eqs(c.pyoff(d), 0 if kind == "instant" else v[1] * US), "py_datetime: the same offset")
    if kind == "zoned":
        c.check(c.eqs(c.pyzone(d), v[2]), "py_datetime: in the same timezone")


@contract("P25", product(kind=["local", "instant", "offset", "zoned"]))
def to_py_datetime(c):
    to_py(c, c.case["kind"])


@contract("P25", sys=True)
def system_to_py_datetime(c):
    to_py(c, "system")


# ---- from the standard library -----------------------------------------------------
@contract("P25", product(what=["date", "subclass", "datetime", "aware", "datetime subclass"]))
def date_from_py(c):
    w = c.case["what"]
    if w in ("date", "subclass"):
        d = c.pydate("d", sub=w == "subclass")
        n = c.pyview(d)[0]
    else:
        d = c.pydt("d", c.pytz("utc") if w == "aware" else None, sub="subclass" in w)
        n = c.pyview(d)[0] // DAY
    out = c.run(lambda: c.call(c.W.Date.from_py_date, d))
    if c.expect_value(out, "from_py_date"):
        c.is_a(out.value, "Date")
        c.check(c.eqs(c.view(out.value), (n,)), "from_py_date: the same day")
        back = c.run(lambda: c.call(out.value.py_date))
        if c.expect_value(back, "py_date"):
            c.check(c.pytype(back.value) == "date", "from_py_date keeps no subclass")


@contract("P25", product(tz=["naive", "utc", "fixed", "zone", "other", "none"], sub=[False, True]))
def time_from_py(c):
    k = c.case["tz"]
    z = c.zone("z") if k in ("zone", "other") else None
    off = c.int("off_us", -86399999999, 86399999999) if k == "fixed" else None
    t = c.pytime("t", c.pytz(k, z, off), sub=c.case["sub"], fold=c.int("t.fold", 0, 1))
    v = c.pyview(t)
    out = c.run(lambda: c.call(c.W.Time.from_py_time, t))
    if k != "naive":
        return c.expect_raises(out, ValueError, "from_py_time of an aware time")
    if c.expect_value(out, "from_py_time"):
        c.is_a(out.value, "Time")
        c.check(c.eqs(c.view(out.value), (v[0] * G + v[1] * 1000,)), "from_py_time: the same fields")
        c.invariant(out.value, "from_py_time")
        back = c.run(lambda: c.call(out.value.py_time))
        if c.expect_value(back, "py_time"):
            c.check(c.pytype(back.value) == "time", "from_py_time keeps no subclass")
            c.check(c.eqs(c.pyview(back.value), v), "py_time gives the same fields back")


@contract("P25", product(what=["date", "time"]))
def wrong_type(c):
    """Other objects are a TypeError."""
    if c.case["what"] == "date":
        out = c.run(lambda: c.call(c.W.Date.from_py_date, c.time("t")))
    else:
        out = c.run(lambda: c.call(c.W.Time.from_py_time, c.date("t")))
    c.expect_raises(out, (TypeError,), "from_py_* of another type")


def from_py(c, kind):
    k = c.case["tz"]
    z = c.zone("z") if k in ("zone", "other") else None
    off_us = c.int("off_us", -86399999999, 86399999999) if k == "fixed" else None
    d = c.pydt("d", c.pytz(k, z, off_us), sub=c.case["sub"], zone=z)
    l, us = c.pyview(d)
    out = c.run(lambda: c.call(getattr(c.W, PYCLS[kind]).from_py_datetime, d))
    lab = f"from_py_datetime ({k})"
    if kind == "local":
        if k != "naive":
            return c.expect_raises(out, ValueError, lab)
        if c.expect_value(out, lab):
            finish(c, out.value, kind, lab)
            c.check(c.eqs(c.view(out.value), (l * G + us * 1000,)), f"{lab}: the same fields")
        return
    if k in ("naive", "none") or kind == "zoned" and k != "zone":
        return c.expect_raises(out, ValueError, lab)
    off = c.pyoff(d)                       # microseconds
    u = l * US + us - off                  # the moment, in microseconds
    ok = c.between(MIN_LS * US, u, MAX_LS * US + US - 1)
    if kind == "instant":
        if c.expect_valid(out, ok, lab):
            finish(c, out.value, kind, lab)
            c.check(c.eqs(c.view(out.value), (u * 1000,)), f"{lab}: the same moment")
        return
    if kind == "zoned":
        if out.ok:
            r = out.value
            finish(c, r, kind, lab)
            c.check(ok, f"{lab}: returns only in range")
            c.check(c.eqs(c.moment(r), u * 1000), f"{lab}: the same moment")
            o0, o1 = z.offs(l)
            v = c.view(r)
            c.check(c.eqs(v[2], z.key), f"{lab}: the same timezone")
            c.check(c.or_(o0 < o1, c.and_(v[0] == l * G + us * 1000, v[1] * US == off)),
                    f"{lab}: the same local time and offset, unless the time is skipped")
        else:
            c.fail_types(out, RANGE_ERR, lab)
            o0, o1 = z.offs(l)
            # a skipped time is shifted by the gap and may leave the range
            c.check(c.not_(c.and_(ok, c.between(MIN_LS, l + o1 - o0, MAX_LS),
                                  c.between(MIN_LS, l - o1 + o0, MAX_LS))),
                    f"{lab}: raises only out of range")
        return
    # offset and system: the offset is a whole number of seconds
    if c.expect_valid(out, c.and_(ok, off % US == 0), lab):
        finish(c, out.value, kind, lab)
        v = c.view(out.value)
        c.check(v[0] == l * G + us * 1000, f"{lab}: the same local time")
        c.check(v[1] * US == off, f"{lab}: the same offset")


def finish(c, r, kind, lab):
    c.is_a(r, PYCLS[kind])
    c.invariant(r, lab)
    back = c.run(lambda: c.call(r.py_datetime))
    if c.expect_value(back, "py_datetime"):
        c.check(c.pytype(back.value) == "datetime", f"{lab}: keeps no subclass")


TZ = ["naive", "utc", "fixed", "zone", "other", "none"]


@contract("P25", product(kind=["local", "instant", "offset", "zoned"], tz=TZ, sub=[False, True]))
def from_py_datetime(c):
    from_py(c, c.case["kind"])


@contract("P25", product(tz=TZ, sub=[False, True]), sys=True)
def system_from_py_datetime(c):
    from_py(c, "system")


# ---- there and back -------------------------------------------------------------------
def back(c, kind):
    a = c.system("a") if kind == "system" else value(c, kind)[0]
    cls = getattr(c.W, c.cls(a))
    to, fro = {"date": ("py_date", "from_py_date"), "time": ("py_time", "from_py_time"),
               }.get(kind, ("py_datetime", "from_py_datetime"))
    out = c.run(lambda: c.call(getattr(cls, fro), c.call(getattr(a, to))))
    if not c.expect_value(out, "there and back"):
        return
    v, w = c.view(a), c.view(out.value)
    c.is_a(out.value, c.cls(a))
    if kind != "date":
        v = (v[0] // 1000 * 1000,) + v[1:]
    c.check(c.eqs(w, v), "there and back: the same value, truncated to microseconds")


@contract("P25", product(kind=["date", "time", "local", "instant", "offset", "zoned"]))
def there_and_back(c):
    back(c, c.case["kind"])


@contract("P25", sys=True)
def system_there_and_back(c):
    back(c, "system")
