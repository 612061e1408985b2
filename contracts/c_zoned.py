"""P08, P11 (disambiguation part): local times in a timezone."""
from . import contract, product
from .zspec import (resolve, resolve_prev, resolve_any, check_resolved, STRATEGIES, strategy, G,
                    Spec)
from engine.ctx import RANGE_ERR, MIN_LS, MAX_LS
SYS = {"zoned": False, "system": True}


def make(c, kind, n, zone, by="ls"):
    return c.zoned(n, zone, by) if kind == "zoned" else c.system(n, by)


def zone_for(c, kind, n="tz"):
    return c.zone(n) if kind == "zoned" else c.syszone()


CLS = {"zoned": "ZonedDateTime", "system": "SystemDateTime"}


def rejects_strategy(c, out, label):
    if out.ok:
        c.check(False, f"{label}: an unknown strategy is rejected")
    else:
        c.check(isinstance(out.exc, RANGE_ERR), f"{label}: an unknown strategy is a ValueError",
                soft=True)


def ctor(c, kind):
    """The constructor, with calendar-valid fields."""
    z = zone_for(c, kind)
    st = strategy(c, c.case["strategy"])
    if not c.symbolic and kind == "system":
        c.last_zone = z
    x = c.local("x", "hms")
    y, m, d = c.ymd(x)
    l = c.view(x)[0] // G
    ns = c.view(x)[0] % G
    h, mi, s = hms(c, x)
    kw = dict(nanosecond=ns)
    if kind == "zoned":
        kw["tz"] = z.key
    if st is not None:
        kw["disambiguate"] = st
    out = c.run(lambda: c.call(getattr(c.W, CLS[kind]), y, m, d, h, mi, s, **kw))
    lab = f"{CLS[kind]}(...)"
    if c.case["strategy"] == "other":
        return rejects_strategy(c, out, lab)
    sp = resolve(c, z, l, st or "compatible")
    check_resolved(c, out, sp, ns, lab, z, CLS[kind])


def hms(c, o):
    s = c.sod(o)
    return s // 3600, s // 60 % 60, s % 60


def assume(c, kind):
    z = zone_for(c, kind)
    st = strategy(c, c.case["strategy"])
    if not c.symbolic and kind == "system":
        c.last_zone = z
    x = c.local("x")
    l, ns = c.view(x)[0] // G, c.view(x)[0] % G
    kw = {} if st is None else dict(disambiguate=st)
    if kind == "zoned":
        out = c.run(lambda: c.call(x.assume_tz, z.key, **kw))
    else:
        out = c.run(lambda: c.call(x.assume_system_tz, **kw))
    lab = "assume_tz" if kind == "zoned" else "assume_system_tz"
    if c.case["strategy"] == "other":
        return rejects_strategy(c, out, lab)
    check_resolved(c, out, resolve(c, z, l, st or "compatible"), ns, lab, z, CLS[kind])


def replace_dt(c, kind):
    """replace_date / replace_time"""
    z = zone_for(c, kind)
    a = make(c, kind, "a", z)
    v = c.view(a)
    st = strategy(c, c.case["strategy"])
    kw = {} if st is None else dict(disambiguate=st)
    l0, ns = v[0] // G, v[0] % G
    if c.case["what"] == "date":
        d = near_date(c, z, "d")
        l = c.ordinal(d) * 86400 + l0 % 86400
        out = c.run(lambda: c.call(a.replace_date, d, **kw))
    else:
        t = c.time("t")
        tv = c.view(t)[0]
        l = l0 // 86400 * 86400 + tv // G
        ns = tv % G
        out = c.run(lambda: c.call(a.replace_time, t, **kw))
    lab = f"{CLS[kind]}.replace_{c.case['what']}"
    if c.case["strategy"] == "other":
        return rejects_strategy(c, out, lab)
    check_resolved(c, out, resolve_any(c, z, l, st, v[1]), ns, lab, z, CLS[kind])


def near_date(c, z, name):
    """A date; in the concrete search one close to a transition of z."""
    if not c.symbolic and c.values is None and c.rng.random() < .8:
        n = c._near(z) // 86400
        if 1 <= n <= 3652059:
            c.values = {name + ".ord": n}
            try:
                return c.date(name, "ord")
            finally:
                c.values = None
    return c.date(name, "ord")


FIELDS = {"year": (-5, 10005), "month": (-2, 15), "day": (-2, 35), "hour": (-2, 26),
          "minute": (-2, 63), "second": (-2, 63), "nanosecond": (-5, G + 5)}
REPL = ["year", "month", "day", "hour", "minute", "second", "nanosecond",
        "year month day", "hour minute second nanosecond",
        "year month day hour minute second nanosecond", "month minute", "day hour", ""]


def replaced(c, a, names, prefix="new."):
    """(kwargs, valid, local second, nanosecond) after replacing fields of a."""
    y, m, d = c.ymd(a)
    h, mi, s = hms(c, a)
    ns = c.view(a)[0] % G
    cur = dict(year=y, month=m, day=d, hour=h, minute=mi, second=s, nanosecond=ns)
    kw = {}
    ok = True
    for k in names:
        lo, hi = FIELDS[k]
        kw[k] = cur[k] = c.int(prefix + k, lo, hi)
    y, m, d = cur["year"], cur["month"], cur["day"]
    if not c.and_(c.between(1, y, 9999), c.between(1, m, 12), c.between(1, d, 31),
                  c.between(0, cur["hour"], 23), c.between(0, cur["minute"], 59),
                  c.between(0, cur["second"], 59), c.between(0, cur["nanosecond"], G - 1)):
        return kw, False, None, None
    if not c.valid_date(y, m, d):
        return kw, False, None, None
    l = (c.ord(y, m, d) * 86400 + cur["hour"] * 3600 + cur["minute"] * 60 + cur["second"])
    return kw, True, l, cur["nanosecond"]


def replace_fields(c, kind):
    z = zone_for(c, kind)
    a = make(c, kind, "a", z, "hms")
    names = c.case["fields"].split()
    st = strategy(c, c.case["strategy"])
    kw, ok, l, ns = replaced(c, a, names)
    prev = c.view(a)[1]
    if st is not None:
        kw["disambiguate"] = st
    out = c.run(lambda: c.call(a.replace, **kw))
    lab = f"{CLS[kind]}.replace({c.case['fields']})"
    if c.case["strategy"] == "other":
        return rejects_strategy(c, out, lab)
    if not ok:
        return c.expect_valid(out, False, lab)
    check_resolved(c, out, resolve_any(c, z, l, st, prev), ns, lab, z, CLS[kind])


STRATS = [None] + STRATEGIES + ["other"]


@contract("P08", product(strategy=STRATS))
def zoned_constructor(c):
    ctor(c, "zoned")


@contract("P08", product(strategy=STRATS))
def assume_tz(c):
    assume(c, "zoned")


@contract("P08", product(what=["date", "time"], strategy=STRATS))
def zoned_replace_date_time(c):
    replace_dt(c, "zoned")


@contract("P08", product(fields=["hour", "day", "year month day",
                                 "year month day hour minute second nanosecond"],
                         strategy=STRATS))
def zoned_replace(c):
    replace_fields(c, "zoned")


@contract("P08", product(strategy=STRATS, fields=["", "hour", "day"]))
def zoned_replace_tz(c):
    """replace(tz=...): in another timezone the default is 'compatible'."""
    z = c.zone("a.tz")
    z2 = c.zone_like("tz", z)
    a = c.zoned("a", z, "hms")
    st = strategy(c, c.case["strategy"])
    kw, ok, l, ns = replaced(c, a, c.case["fields"].split())
    kw["tz"] = z2.key
    if st is not None:
        kw["disambiguate"] = st
    prev = c.view(a)[1]
    out = c.run(lambda: c.call(a.replace, **kw))
    lab = "ZonedDateTime.replace(tz=...)"
    if c.case["strategy"] == "other":
        return rejects_strategy(c, out, lab)
    if not ok:
        return c.expect_valid(out, False, lab)
    if st is None and z2.key is not z.key:
        st = "compatible"
    check_resolved(c, out, resolve_any(c, z2, l, st, prev), ns, lab, z2)


@contract(["P11"], product(strategy=STRATS), sys=True)
def system_constructor(c):
    ctor(c, "system")


@contract("P11", product(strategy=STRATS), sys=True)
def assume_system_tz(c):
    assume(c, "system")


@contract("P11", product(what=["date", "time"], strategy=STRATS), sys=True)
def system_replace_date_time(c):
    replace_dt(c, "system")


@contract("P11", product(fields=["hour", "day", "year month day",
                                 "year month day hour minute second nanosecond"],
                         strategy=STRATS), sys=True)
def system_replace(c):
    replace_fields(c, "system")
