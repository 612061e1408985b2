"""P03, P04, P32: order, equality, hash."""
import operator as op
from . import contract, product

OPS = {"<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}
G = 1_000_000_000


def make_local(c, t, n):
    return getattr(c, {"Date": "date", "YearMonth": "yearmonth", "MonthDay": "monthday",
                       "Time": "time", "LocalDateTime": "local"}[t])(n)


def key(c, t, o):
    """The fields in lexicographic order."""
    if t in ("Date", "YearMonth", "MonthDay"):
        y, m, d = c.ymd(o) if t == "Date" else (None, None, None)
        return (y, m, d) if t == "Date" else c.view(o)
    v = c.view(o)[0]
    return (v // G, v % G)


def lex(c, a, b):
    """(equal, less) of two tuples."""
    eq = c.eqs(a, b)
    lt, pre = False, True
    for x, y in zip(a, b):
        lt = c.or_(lt, c.and_(pre, x < y))
        pre = c.and_(pre, x == y)
    return eq, lt


def check_order(c, a, b, eq, lt, lab):
    out = c.run(lambda: a == b)
    if c.expect_value(out, f"{lab}: =="):
        c.check(out.value == eq, f"{lab}: == means equal")
    out = c.run(lambda: a != b)
    if c.expect_value(out, f"{lab}: !="):
        c.check(out.value == c.not_(eq), f"{lab}: != is the opposite of ==")
    want = {"<": lt, "<=": c.or_(lt, eq), ">": c.not_(c.or_(lt, eq)), ">=": c.not_(lt)}
    for o, f in OPS.items():
        out = c.run(lambda: f(a, b))
        if c.expect_value(out, f"{lab}: {o}"):
            c.check(out.value == want[o], f"{lab}: {o} follows the order")


def check_hash(c, a, b, eq, lab):
    if eq:                       # decides: the path on which they are equal
        c.check(c.hash_same(a, b), f"{lab}: equal values hash equally")


LOCAL = ["Date", "YearMonth", "MonthDay", "Time", "LocalDateTime"]


@contract("P03", product(t=LOCAL))
def order(c):
    t = c.case["t"]
    a, b = make_local(c, t, "a"), make_local(c, t, "b")
    eq, lt = lex(c, key(c, t, a), key(c, t, b))
    check_order(c, a, b, eq, lt, t)
    check_hash(c, a, b, eq, t)


@contract("P03", product(t=LOCAL))
def reflexive(c):
    """A value equals itself and an identical copy, and hashes stably."""
    a = make_local(c, c.case["t"], "a")
    check_order(c, a, a, True, False, c.case["t"])
    c.check(c.hash_same(a, a), "stable hash")


def foreign(c, W, t):
    """Values of unrelated types."""
    opts = ["int", "None", "str", "tuple", "Date", "YearMonth", "MonthDay", "Time",
            "LocalDateTime", "TimeDelta", "DateDelta", "Instant"]
    opts = [o for o in opts if o != t]
    o = c.choice("foreign", opts)
    if o == "int":
        return c.int("f.int", -10 ** 9, 10 ** 9)
    if o == "None":
        return None
    if o == "str":
        return "2020-01-01"
    if o == "tuple":
        return (2020, 1, 1)
    if o == "Instant":
        return c.instant("f")
    if o == "TimeDelta":
        return c.timedelta("f")
    if o == "DateDelta":
        return c.datedelta("f")
    return make_local(c, o, "f")


@contract("P03", product(t=LOCAL))
def unrelated(c):
    t = c.case["t"]
    a = make_local(c, t, "a")
    b = foreign(c, c.W, t)
    for x, y in ((a, b), (b, a)):
        out = c.run(lambda: x == y)
        if c.expect_value(out, "== with an unrelated type"):
            c.check(out.value == False, "never equal to an unrelated type")  # noqa: E712
        out = c.run(lambda: x != y)
        if c.expect_value(out, "!= with an unrelated type"):
            c.check(out.value == True, "always different from an unrelated type")  # noqa: E712
        for o, f in OPS.items():
            c.expect_raises(c.run(lambda: f(x, y)), TypeError, f"{o} with an unrelated type")


# ---- exact types -----------------------------------------------------------
EXACT = ["Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"]


def make_exact(c, t, n, zone=None, by="ls"):
    if t == "Instant":
        return c.instant(n, by)
    if t == "OffsetDateTime":
        return c.offset(n, by)
    if t == "ZonedDateTime":
        return c.zoned(n, zone if zone is not None else c.zone(n + ".tz"), by)
    return c.system(n, by)


@contract("P04", product(a=EXACT, b=EXACT), sys=True)
def order_exact(c):
    ta, tb = c.case["a"], c.case["b"]
    za = c.zone("a.tz") if ta == "ZonedDateTime" else None
    a = make_exact(c, ta, "a", za)
    zb = None
    if tb == "ZonedDateTime":
        zb = c.zone_like("b.tz", za) if za is not None else c.zone("b.tz")
    b = make_exact(c, tb, "b", zb)
    ma, mb = c.moment(a), c.moment(b)
    eq, lt = ma == mb, ma < mb
    check_order(c, a, b, eq, lt, f"{ta} vs {tb}")
    check_hash(c, a, b, eq, f"{ta} vs {tb}")


@contract("P04", product(t=EXACT), sys=True)
def unrelated_exact(c):
    a = make_exact(c, c.case["t"], "a")
    b = foreign(c, c.W, "Instant")
    for x, y in ((a, b), (b, a)):
        out = c.run(lambda: x == y)
        if c.expect_value(out, "== with an unrelated type"):
            c.check(out.value == False, "never equal to an unrelated type")  # noqa: E712
        for o, f in OPS.items():
            c.expect_raises(c.run(lambda: f(x, y)), TypeError, f"{o} with an unrelated type")


@contract("P32", product(t=EXACT), sys=True)
def exact_eq(c):
    t = c.case["t"]
    za = c.zone("a.tz") if t == "ZonedDateTime" else None
    a = make_exact(c, t, "a", za)
    zb = c.zone_like("b.tz", za) if za is not None else None
    b = make_exact(c, t, "b", zb)
    out = c.run(lambda: c.call(a.exact_eq, b))
    if c.expect_value(out, "exact_eq"):
        want = c.eqs(c.view(a), c.view(b))
        c.check(c.truth(out.value) == want,
                "exact_eq is equality of moment, local time, offset and timezone")
    out = c.run(lambda: c.call(a.exact_eq, a))
    if c.expect_value(out, "exact_eq"):
        c.check(c.truth(out.value), "exact_eq is reflexive")


@contract("P32", product(a=EXACT, b=EXACT + ["LocalDateTime", "int", "None"]), sys=True)
def exact_eq_types(c):
    if c.case["a"] == c.case["b"]:
        a = make_exact(c, c.case["a"], "a")
        out = c.run(lambda: c.call(a.exact_eq, a))
        c.expect_value(out, "exact_eq of the same type")
        return
    a = make_exact(c, c.case["a"], "a")
    t = c.case["b"]
    b = 3 if t == "int" else None if t == "None" else make_local(c, t, "b") \
        if t == "LocalDateTime" else make_exact(c, t, "b")
    c.expect_raises(c.run(lambda: c.call(a.exact_eq, b)), TypeError,
                    "exact_eq of different types")
