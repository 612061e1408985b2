"""Compares what the verifier assumes with what CPython and the time zone database do.

usage: python3-vt tools/crosscheck.py [seconds per part, default 60] [seed]

1. calendar    the exact definitions and the derived axioms of engine/cal.py, for every date
2. zones       the axioms of MZone, for every zone of the database, around every offset change
               1850..2060 and at random seconds
3. models      every operation of engine/models.py and engine/symstr.py listed below, run with
               *symbolic* operands pinned to random values: each path must give CPython's result
"""
import sys, os, random, time, datetime as dt, calendar, struct, re, zoneinfo
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import loader, explore, models, cal, sym, symstr, ctx as ctxmod
from engine.ctx import ls_to_naive, naive_to_ls, u_to_dt
import contracts

SECS = float(sys.argv[1]) if len(sys.argv) > 1 else 60
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
bad = 0


def report(part, n, fails):
    global bad
    bad += len(fails)
    print(f"{part}: {n} comparisons, {len(fails)} differences")
    for f in fails[:20]:
        print("   ", f)


# ---- 1 ---------------------------------------------------------------------------
def calendar_part():
    fails, n = [], 0
    prev = None
    for k in range(12, 12 * 10000):
        y, m = k // 12, k % 12 + 1
        first, dim = dt.date(y, m, 1).toordinal(), calendar.monthrange(y, m)[1]
        dbm = first - 1
        n += 4
        if cal.dim_py(y, m) != dim or cal.dbm_py(y, m) != dbm:
            fails.append(("month", y, m))
        if not 28 <= dim <= 31:
            fails.append(("length", y, m))
        if not (30 * (k - 12) + (k - 12) // 3 - 1 <= dbm <= 31 * (k - 12)):
            fails.append(("coarse position", y, m))
        if prev is not None and prev[0] + prev[1] != dbm:
            fails.append(("next month", y, m))
        prev = dbm, dim
    for o in range(1, cal.MAXORD + 1):
        x = dt.date.fromordinal(o)
        n += 2
        if cal.dbm_py(x.year, x.month) + x.day != o or (o + 6) % 7 != x.weekday():
            fails.append(("ordinal", o))
    report("calendar", n, fails)


# ---- 2 ---------------------------------------------------------------------------
def zone_part():
    rng = random.Random(SEED)
    t0 = time.time()
    fails, n = [], 0
    keys = sorted(zoneinfo.available_timezones())
    rng.shuffle(keys)
    done = 0
    for key in keys:
        if time.time() - t0 > SECS:
            break
        done += 1
        z = zoneinfo.ZoneInfo(key)

        def offs(ls):
            d = ls_to_naive(ls).replace(tzinfo=z)
            o0, o1 = d.utcoffset(), d.replace(fold=1).utcoffset()
            return round(o0.total_seconds()), round(o1.total_seconds())

        def uoff(u):
            d = u_to_dt(u).astimezone(z)
            return round(d.utcoffset().total_seconds()), d.fold
        pts = [rng.randrange(ctxmod.MIN_LS + 2 * 86400, ctxmod.MAX_LS - 2 * 86400) for _ in range(60)]
        for t in ctxmod.transitions(key):
            for d in (-90000, -7200, -3601, -3600, -1, 0, 1, 1799, 1800, 3599, 3600, 7200, 90000,
                      rng.randrange(-90000, 90000)):
                pts.append(t + d)
        for p in pts:
            n += 2
            o0, o1 = offs(p)
            if o0 >= o1:
                ok = uoff(p - o0) == (o0, 0) and uoff(p - o1) == (o1, 0 if o0 == o1 else 1)
            else:
                ok = uoff(p - o0) == (o1, 0) and uoff(p - o1) == (o0, 0)
            if not ok:
                fails.append((key, "local", str(ls_to_naive(p)), o0, o1))
            o, f = uoff(p)
            l0, l1 = offs(p + o)
            if not ((l0 == o and l1 <= o) if f == 0 else (l1 == o and l0 > o)):
                fails.append((key, "utc", str(u_to_dt(p)), o, f))
            if max(abs(o0), abs(o1), abs(o)) > 86399:
                fails.append((key, "range", p))
    report(f"zones ({done} of {len(keys)})", n, fails)


# ---- 3 ---------------------------------------------------------------------------
class RealNS:
    date, time, datetime, timedelta, timezone = dt.date, dt.time, dt.datetime, dt.timedelta, dt.timezone
    pack, unpack = staticmethod(struct.pack), staticmethod(struct.unpack)
    dim = staticmethod(lambda y, m: calendar.monthrange(y, m)[1])
    chars = staticmethod(lambda *cs: "".join(map(chr, cs)))
    fmt = staticmethod(lambda v, spec: format(v, spec))
    call = staticmethod(lambda f, *a, **k: f(*a, **k))
    int = int
    fullmatch = staticmethod(lambda p, s: re.fullmatch(p, s, re.ASCII))


class SymNS:
    date, time, datetime = models.MDate, models.MTime, models.MDateTime
    timedelta, timezone = models.MTimeDelta, models.MTimezone
    pack, unpack = staticmethod(models.m_pack), staticmethod(models.m_unpack)
    dim = staticmethod(lambda y, m: models.m_monthrange(y, m)[1])
    chars = staticmethod(lambda *cs: symstr.SymStr([symstr.SymChar(x) for x in cs]))
    fmt = staticmethod(lambda v, spec: symstr.SymStr(symstr.format_int(v, spec).elems)
                       if spec else symstr.to_str(v))
    call = staticmethod(loader.call)
    int = staticmethod(loader.c_int)
    fullmatch = staticmethod(lambda p, s: symstr.SymRegex(p, re.ASCII).fullmatch(s))


def norm(x):
    if isinstance(x, (tuple, list)):
        return tuple(norm(e) for e in x)
    if isinstance(x, models.MDateTime):
        return ("dt", x.ls, x.us, x.fold, None if x.tzinfo is None else x.offsec())
    if isinstance(x, models.MDate):
        return ("date", x.n)
    if isinstance(x, models.MTime):
        return ("time", x.sod, x.us, x.fold)
    if isinstance(x, models.MTimeDelta):
        return ("td", x.us)
    if isinstance(x, models.MTimezone):
        return ("tz", x.off)
    us = lambda d: (d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds
    if isinstance(x, dt.datetime):
        return ("dt", naive_to_ls(x), x.microsecond, x.fold, None if x.tzinfo is None else us(x.utcoffset()))
    if isinstance(x, dt.date):
        return ("date", x.toordinal())
    if isinstance(x, dt.time):
        return ("time", (x.hour * 60 + x.minute) * 60 + x.second, x.microsecond, x.fold)
    if isinstance(x, dt.timedelta):
        return ("td", us(x))
    if isinstance(x, dt.timezone):
        return ("tz", us(x.utcoffset(None)))
    return x


def gi(lo, hi, *special):
    def g(r):
        if special and r.random() < .3:
            return r.choice(special)
        if r.random() < .15:
            return r.choice([lo, hi])
        return r.randint(lo, hi)
    return (g, min([lo, *special]), max([hi, *special]))


Y, MO, D = gi(0, 10000, 1, 4, 1900, 2000, 2023, 2024, 9999), gi(0, 13, 2), gi(0, 32, 28, 29, 30, 31)
YV, DV = gi(1, 9999, 4, 1900, 2000, 2024), gi(1, 28)
H, MI, S, US = gi(-1, 24), gi(-1, 60), gi(-1, 60), gi(-1, 10 ** 6, 0, 1)
HV, SV, UV = gi(0, 23), gi(0, 59), gi(0, 999999, 0)
N = gi(0, cal.MAXORD + 1)
NV = gi(1, cal.MAXORD)
OFF = gi(-86401, 86401, 0, 3600, -1)
OV = gi(-86399, 86399, 0, 3600)
F = gi(0, 1)
TD = gi(-4 * 10 ** 14, 4 * 10 ** 14, 0, 1, -1, 86400 * 10 ** 6)
CH = gi(32, 126, *map(ord, "0123456789-:T+PZ.,"))
DG = gi(48, 57)


def ldt(ns, n, h, m, s, us, off=None, fold=0):
    d = ns.date.fromordinal(n)
    tz = None if off is None else ns.timezone(ns.timedelta(seconds=off))
    return ns.datetime.combine(d, ns.time(h, m, s, us, fold=fold), tzinfo=tz)


DT = [NV, HV, SV, SV, UV]
td = lambda ns, us: ns.timedelta(microseconds=us)
OPS = {}


def op(*gens):
    def deco(f):
        OPS[f.__name__] = (gens, f)
        return f
    return deco


@op(Y, MO, D)
def date_new(ns, y, m, d): return ns.date(y, m, d)
@op(N)
def date_ordinal(ns, n):
    d = ns.date.fromordinal(n)
    return d.year, d.month, d.day, d.weekday(), d.isoweekday(), d.toordinal()
@op(NV, Y, MO, D, gi(0, 7))
def date_replace(ns, n, y, m, d, which):
    x = ns.date.fromordinal(n)
    k = [{}, dict(year=y), dict(month=m), dict(day=d), dict(year=y, month=m), dict(year=y, day=d),
         dict(month=m, day=d), dict(year=y, month=m, day=d)]
    for i in range(8):
        if which == i:
            return x.replace(**k[i])
@op(NV, TD)
def date_shift(ns, n, u): return ns.date.fromordinal(n) + td(ns, u)
@op(NV, TD)
def date_shift_back(ns, n, u): return ns.date.fromordinal(n) - td(ns, u)
@op(NV, NV)
def date_pair(ns, a, b):
    x, y = ns.date.fromordinal(a), ns.date.fromordinal(b)
    return x - y, x == y, x != y, x < y, x <= y, x > y, x >= y
@op(NV)
def date_text(ns, n): return ns.date.fromordinal(n).isoformat()
@op(*[CH] * 10)
def date_parse(ns, *cs): return ns.date.fromisoformat(ns.chars(*cs))
@op(*[DG] * 8)
def date_parse_digits(ns, *c):
    return ns.date.fromisoformat(ns.chars(*c[:4], 45, *c[4:6], 45, *c[6:]))
@op(*[DG] * 8)
def date_parse_basic(ns, *c): return ns.date.fromisoformat(ns.chars(*c))
@op(H, MI, S, US, gi(-1, 2))
def time_new(ns, h, m, s, u, f): return ns.time(h, m, s, u, fold=f)
@op(HV, SV, SV, UV, F)
def time_read(ns, h, m, s, u, f):
    t = ns.time(h, m, s, u, fold=f)
    return t.hour, t.minute, t.second, t.microsecond, t.fold, t.isoformat()
@op(HV, SV, SV, UV, F, H, MI, S, US, gi(0, 4))
def time_replace(ns, h, m, s, u, f, h2, m2, s2, u2, which):
    t = ns.time(h, m, s, u, fold=f)
    k = [{}, dict(hour=h2), dict(minute=m2, second=s2), dict(microsecond=u2), dict(second=s2)]
    for i in range(5):
        if which == i:
            return t.replace(**k[i])
@op(HV, SV, SV, UV, HV, SV, SV, UV)
def time_pair(ns, *v):
    x, y = ns.time(*v[:4]), ns.time(*v[4:])
    return x == y, x != y, x < y, x <= y, x > y, x >= y
@op(Y, MO, D, H, MI, S, US)
def datetime_new(ns, *v): return ns.datetime(*v)
@op(*DT, F)
def datetime_read(ns, n, h, m, s, u, f):
    x = ldt(ns, n, h, m, s, u, None, f)
    return (x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, x.fold, x.date(),
            x.time(), x.timetz(), x.weekday(), x.toordinal())
@op(*DT)
def datetime_text(ns, *v): return ldt(ns, *v).isoformat()
@op(*DT, OV)
def datetime_text_aware(ns, *v): return ldt(ns, *v).isoformat(" ")
@op(*DT, OV)
def datetime_z(ns, *v): return ldt(ns, *v).strftime("%z")
@op(*[DG] * 14)
def datetime_parse(ns, *c):
    return ns.datetime.fromisoformat(ns.chars(*c[:4], 45, *c[4:6], 45, *c[6:8], 84, *c[8:10], 58,
                                              *c[10:12], 58, *c[12:]))
@op(*DT, TD)
def datetime_shift(ns, *v): return ldt(ns, *v[:5]) + td(ns, v[5])
@op(*DT, TD)
def datetime_shift_back(ns, *v): return ldt(ns, *v[:5]) - td(ns, v[5])
@op(*DT, *DT)
def datetime_pair(ns, *v):
    x, y = ldt(ns, *v[:5]), ldt(ns, *v[5:])
    return x - y, x == y, x != y, x < y, x <= y, x > y, x >= y
@op(*DT, OV, *DT, OV)
def datetime_pair_aware(ns, *v):
    x, y = ldt(ns, *v[:6]), ldt(ns, *v[6:])
    return x - y, x == y, x != y, x < y, x <= y, x > y, x >= y
@op(*DT, OV, OV)
def datetime_equal_moment(ns, n, h, m, s, u, a, b):
    x = ldt(ns, n, h, m, s, u, a)
    y = x.astimezone(ns.timezone(ns.timedelta(seconds=b)))
    return y, x == y, x < y, x - y
@op(*DT, OV)
def datetime_mixed_eq(ns, *v): return ldt(ns, *v) == ldt(ns, *v[:5])
@op(*DT, OV)
def datetime_mixed_lt(ns, *v): return ldt(ns, *v) < ldt(ns, *v[:5])
@op(*DT, OV)
def datetime_mixed_sub(ns, *v): return ldt(ns, *v) - ldt(ns, *v[:5])
@op(*DT, OV)
def datetime_offset(ns, *v):
    x = ldt(ns, *v)
    return x.utcoffset(), x.replace(tzinfo=None), x.replace(fold=1)
@op(*DT, Y, MO, D, H, US, gi(0, 6))
def datetime_replace(ns, n, h, m, s, u, y2, m2, d2, h2, u2, which):
    x = ldt(ns, n, h, m, s, u)
    k = [{}, dict(year=y2), dict(month=m2), dict(day=d2), dict(hour=h2), dict(microsecond=u2),
         dict(year=y2, month=m2, day=d2, hour=h2)]
    for i in range(7):
        if which == i:
            return x.replace(**k[i])
@op(gi(-63 * 10 ** 9, 254 * 10 ** 9, 0, -62135596800, 253402300799), OV)
def from_timestamp(ns, t, o):
    return ns.datetime.fromtimestamp(t, ns.timezone(ns.timedelta(seconds=o)))
@op(*DT[:4], OV)
def to_timestamp(ns, n, h, m, s, o): return int_of(ldt(ns, n, h, m, s, 0, o).timestamp())
@op(OFF)
def timezone_new(ns, o): return ns.timezone(ns.timedelta(seconds=o))
@op(OV, OV)
def timezone_pair(ns, a, b):
    return ns.timezone(ns.timedelta(seconds=a)) == ns.timezone(ns.timedelta(seconds=b))
@op(TD, TD)
def timedelta_pair(ns, a, b):
    x, y = td(ns, a), td(ns, b)
    return (x + y, x - y, -x, abs(x), x == y, x != y, x < y, x <= y, x > y, x >= y, x.days, x.seconds,
            x.microseconds)
@op(TD, gi(-1000, 1000, 0))
def timedelta_int(ns, a, k): return td(ns, a) * k, k * td(ns, a)
@op(TD, gi(1, 10 ** 9))
def timedelta_div(ns, a, b):
    x, y = td(ns, a), td(ns, b)
    return x // y, x % y, divmod(x, y), x // b
@op(*[gi(-10 ** 5, 10 ** 5)] * 7)
def timedelta_new(ns, *v): return ns.timedelta(*v)
@op(gi(-10 ** 9 - 2, 10 ** 9 + 2, -999999999, 999999999, 10 ** 9))
def timedelta_range(ns, d): return ns.timedelta(days=d)
@op(YV, gi(0, 13))
def month_length(ns, y, m): return ns.dim(y, m)
@op(gi(-2 ** 31 - 1, 2 ** 32), gi(-1, 256), gi(-40000, 70000))
def struct_sizes(ns, a, b, c): return ns.unpack("<iBh", ns.pack("<iBh", a, b, c))
@op(gi(0, 2 ** 32 - 1), gi(0, 255), gi(-2 ** 63, 2 ** 63 - 1))
def struct_signs(ns, a, b, c): return ns.unpack("<ibq", ns.pack("<IBq", a, b, c))
@op(gi(0, 2 ** 32 - 1), gi(0, 2 ** 16 - 1))
def struct_layout(ns, a, b): return ns.unpack("<HI", ns.pack("<IH", a, b))
@op(gi(0, 99999))
def fmt_two(ns, v): return ns.fmt(v, "02")
@op(gi(0, 10 ** 9 - 1, 0, 1, 100000000))
def fmt_nine(ns, v): return ns.fmt(v, "09")
@op(gi(-10 ** 6, 10 ** 6, 0))
def fmt_plain(ns, v): return ns.fmt(v, "")
@op(gi(0, 10 ** 9 - 1, 0, 100, 120000000, 500000000))
def strip_zeros(ns, v): return ns.call(ns.fmt(v, "09").rstrip, "0")
@op(*[CH] * 4)
def int_text(ns, *c): return ns.int(ns.chars(*c))
@op(*[DG] * 5)
def int_digits(ns, *c): return ns.int(ns.chars(*c))
@op(*[CH] * 4)
def text_tests(ns, *c):
    s = ns.chars(*c)
    k = ns.call
    return k(s.isdigit), k(s.isascii), k(s.startswith, "-"), k(s.endswith, "Z"), k(s.find, "T"), s[0] == "P"
@op(*[CH] * 5)
def text_cut(ns, *c):
    s = ns.chars(*c)
    return s[1:3], s[::1][-2:], ns.call(s.partition, "T"), ns.call(s.replace, ",", ".")
@op(*[CH] * 4)
def text_ljust(ns, *c): return ns.call(ns.chars(*c).ljust, 9, "0"), ns.call(ns.chars(*c).split, ":")
@op(*[CH] * 6)
def regex(ns, *c):
    m = ns.fullmatch(r"([+-])(\d{2}):?(\d{2})|(Z)([0-9.,]*)", ns.chars(*c))
    return m and tuple(x or "" for x in m.groups())
@op(*[DG] * 4)
def regex_digits(ns, *c):
    m = ns.fullmatch(r"([+-])(\d{2}):?(\d{2})", ns.chars(43, *c[:2], 58, *c[2:]))
    return tuple(m.groups())


def int_of(x):
    return x.num if isinstance(x, sym.SymFloat) else int(x)


EXC = (ValueError, OverflowError, TypeError, ArithmeticError)


def kind(e):
    for t in (OverflowError, ValueError, TypeError):
        if isinstance(e, t):
            return t.__name__
    return "struct.error" if isinstance(e, struct.error) else type(e).__name__


def pinned(name, vals):
    """An ad hoc contract: operands pinned to vals, the outcome is CPython's."""
    gens, f = OPS[name]
    try:
        want = norm(f(RealNS, *vals))
        exc = None
    except Exception as e:
        want, exc = None, kind(e)

    def fn(c):
        xs = []
        for i, ((g, lo, hi), v) in enumerate(zip(gens, vals)):
            x = c.int(f"x{i}", lo, hi)
            sym.P.add(sym.to_z3(x) == v)
            xs.append(x)
        out = c.run(lambda: f(SymNS, *xs))
        if out.exc is not None:
            c.check(exc is not None and kind(out.exc) == exc,
                    f"{name}{tuple(vals)}: CPython {exc or want}, model {type(out.exc).__name__}: {out.exc}")
        else:
            c.check(exc is None, f"{name}{tuple(vals)}: CPython raises {exc}, model returns")
            if exc is None:
                c.check(same(c, norm(out.value), want), f"{name}{tuple(vals)}: CPython {want}")
    return fn


def same(c, a, b):
    if isinstance(b, tuple):
        if not isinstance(a, tuple) or len(a) != len(b):
            return False
        return c.and_(*[same(c, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return c.eqs(a, b)


class Con:
    sys, symbolic, name, cases, seconds = False, True, "crosscheck", [{}], None

    def __init__(self, fn):
        self.fn = fn


def model_part():
    W, pkg = loader.load(with_init=True)
    rng = random.Random(SEED)
    fails, n, unsup, per = [], 0, {}, {}
    t0 = time.time()
    names = list(OPS)
    while time.time() - t0 < SECS:
        for name in names:
            vals = [g(rng) for g, lo, hi in OPS[name][0]]
            r = explore.run_job(W, pkg, Con(pinned(name, vals)), {}, 10)
            n += 1
            if r.error:
                fails.append((name, vals, r.error[-400:]))
            for f in r.failures:
                if f["kind"] == "refuted":
                    fails.append(f["label"][:300])
                else:
                    unsup[name, "undecided"] = unsup.get((name, "undecided"), 0) + 1
            for u in r.unsupported:
                unsup[name, u] = unsup.get((name, u), 0) + 1
            per[name] = per.get(name, 0) + 1
    report(f"models ({len(names)} operations)", n, fails)
    for k, v in sorted(unsup.items()):
        print("    not modelled:", *k, "x", v)


if __name__ == "__main__":
    calendar_part()
    zone_part()
    model_part()
    sys.exit(1 if bad else 0)
