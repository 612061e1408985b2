"""P18, P19, P20: time deltas and calendar deltas."""
from . import contract, product
from .c_exact import UNITS
from .c_order import check_order, check_hash, foreign
from engine.ctx import RANGE_ERR, MAX_NS, MAX_MONTHS, MAX_DAYS
G = 1_000_000_000
BIG = 10 ** 26
SIGNS = {"+": 1, "-": -1}


def td_ok(c, ns):
    return c.between(-MAX_NS, ns, MAX_NS)


def check_td(c, out, ns, label, also=True):
    if c.expect_valid(out, c.and_(td_ok(c, ns), also), label):
        c.is_a(out.value, "TimeDelta")
        c.check(c.view(out.value)[0] == ns, f"{label}: exact nanoseconds")
        c.invariant(out.value, label)


# ---- P18 ---------------------------------------------------------------------
@contract("P18", product(kw=list(UNITS) + [" ".join(UNITS), "hours nanoseconds",
                                           "minutes seconds milliseconds"]))
def td_constructor(c):
    names = c.case["kw"].split()
    kw = {k: c.amount(k, BIG, names) for k in names}
    out = c.run(lambda: c.call(c.W.TimeDelta, **kw))
    check_td(c, out, sum(v * UNITS[k] for k, v in kw.items()), "TimeDelta(...)")


@contract("P18", product(fn=list(UNITS)))
def td_helper(c):
    i = c.int("i", -BIG, BIG)
    f = c.case["fn"]
    out = c.run(lambda: c.call(getattr(c.W, f), i))
    check_td(c, out, i * UNITS[f], f"{f}(i)")


FLOATS = [0, 1, 8, 20, 31, 45, 52, 60, 300, 1074]


@contract("P18", product(unit=[u for u in UNITS if u != "nanoseconds"], shift=FLOATS,
                         how=["constructor", "helper"]))
def td_float(c):
    """A float amount (k / 2**shift) is its value to the nanosecond, and the float's precision."""
    u, j = c.case["unit"], c.case["shift"]
    x, k = c.float("x", j)
    if c.case["how"] == "constructor":
        out = c.run(lambda: c.call(c.W.TimeDelta, **{u: x}))
    else:
        out = c.run(lambda: c.call(getattr(c.W, u), x))
    lab = f"TimeDelta({u}=float)"
    exact = k * UNITS[u]            # divided by 2 ** j
    slack = 2 ** (j + 16)
    if c.and_(exact <= MAX_NS * 2 ** j - slack, -exact <= MAX_NS * 2 ** j - slack):
        c.expect_value(out, lab)
    elif c.or_(exact > MAX_NS * 2 ** j + slack, -exact > MAX_NS * 2 ** j + slack):
        c.expect_valid(out, False, lab)
    if not out.ok:
        return
    c.is_a(out.value, "TimeDelta")
    e = (c.view(out.value)[0] * 2 ** j - exact) * 2 ** 52 * 1000
    tol = 2 ** j * 2 ** 52 * 1001 + abs(exact) * 1000
    c.check(c.and_(e <= tol, -e <= tol), f"{lab}: the float's value to the nanosecond")
    c.invariant(out.value, lab)


@contract("P18", product(op=["+", "-"]))
def td_sum(c):
    a, b = c.timedelta("a"), c.timedelta("b")
    s = SIGNS[c.case["op"]]
    out = c.run((lambda: a + b) if s == 1 else (lambda: a - b))
    check_td(c, out, c.view(a)[0] + s * c.view(b)[0], f"TimeDelta {c.case['op']} TimeDelta")


@contract("P18", product(op=["neg", "pos", "abs"]))
def td_unary(c):
    a = c.timedelta("a")
    n = c.view(a)[0]
    op = c.case["op"]
    out = c.run({"neg": lambda: -a, "pos": lambda: +a, "abs": lambda: abs(a)}[op])
    check_td(c, out, {"neg": -n, "pos": n, "abs": c.ite(n < 0, -n, n)}[op], op)


@contract("P18", product(side=["left", "right"]))
def td_mul(c):
    a = c.timedelta("a")
    k = c.int("k", -BIG, BIG)
    out = c.run((lambda: a * k) if c.case["side"] == "left" else (lambda: k * a))
    check_td(c, out, c.view(a)[0] * k, "TimeDelta * int")


@contract("P18", product(side=["left", "right"], k=[-1000, -60, -3, -1, 0, 1, 2, 7, 24, 10 ** 9]))
def td_mul_by(c):
    a = c.timedelta("a")
    k = c.case["k"]
    out = c.run((lambda: a * k) if c.case["side"] == "left" else (lambda: k * a))
    check_td(c, out, c.view(a)[0] * k, "TimeDelta * int")


def trunc_div(c, n, k):
    """n / k truncated toward zero."""
    q, r = n // k, n % k
    # the floor is below the quotient exactly when there is a remainder
    neg = c.or_(c.and_(n < 0, k > 0), c.and_(n > 0, k < 0))
    return c.ite(c.and_(neg, r != 0), q + 1, q)


@contract("P18", product(k=[-1000, -60, -7, -3, -2, -1, 1, 2, 3, 7, 24, 60, 10 ** 9, 10 ** 30, 0]))
def td_div_by(c):
    a = c.timedelta("a")
    k = c.case["k"]
    out = c.run(lambda: a / k)
    if k == 0:
        return c.expect_raises(out, ZeroDivisionError, "TimeDelta / 0")
    check_td(c, out, trunc_div(c, c.view(a)[0], k), "TimeDelta / int")


@contract("P18", product(sign=["+", "-"]))
def td_div(c):
    a = c.timedelta("a")
    k = c.int("k", 1, BIG) if c.case["sign"] == "+" else c.int("k", -BIG, -1)
    n = c.view(a)[0]
    out = c.run(lambda: a / k)
    if c.expect_value(out, "TimeDelta / int"):
        c.is_a(out.value, "TimeDelta")
        q = c.view(out.value)[0]
        # |q| = floor(|n| / |k|), and q has the sign of the exact quotient
        m, d = c.ite(n < 0, -n, n), c.ite(k < 0, -k, k)
        neg = c.or_(c.and_(n < 0, k > 0), c.and_(n > 0, k < 0))
        f = m // d
        c.check(q == c.ite(neg, -f, f), "TimeDelta / int: truncated exact quotient")
        c.invariant(out.value, "TimeDelta / int")


@contract("P18", product(op=["//", "%"], sign=["+", "-", "0"]))
def td_floordiv_mod(c):
    a = c.timedelta("a")
    b = c.timedelta("b")
    n, d = c.view(a)[0], c.view(b)[0]
    c.assume({"+": d > 0, "-": d < 0, "0": d == 0}[c.case["sign"]])
    op = c.case["op"]
    out = c.run((lambda: a // b) if op == "//" else (lambda: a % b))
    if c.case["sign"] == "0":
        return c.expect_raises(out, ZeroDivisionError, f"{op} by a zero delta")
    if not c.expect_value(out, f"TimeDelta {op} TimeDelta"):
        return
    if op == "//":
        c.check(out.value == n // d, "TimeDelta // TimeDelta: integer floor division")
    else:
        c.is_a(out.value, "TimeDelta")
        c.check(c.view(out.value)[0] == n % d, "TimeDelta % TimeDelta: integer modulo")
        c.invariant(out.value, "modulo")


@contract("P18")
def td_compare(c):
    a, b = c.timedelta("a"), c.timedelta("b")
    x, y = c.view(a)[0], c.view(b)[0]
    check_order(c, a, b, x == y, x < y, "TimeDelta")
    check_hash(c, a, b, x == y, "TimeDelta")
    out = c.run(lambda: c.truth(a))
    if c.expect_value(out, "bool"):
        c.check(out.value == (x != 0), "true exactly when not zero")


@contract("P18")
def td_unrelated(c):
    a = c.timedelta("a")
    b = foreign(c, c.W, "TimeDelta")
    for x, y in ((a, b), (b, a)):
        out = c.run(lambda: x == y)
        if c.expect_value(out, "== with an unrelated type"):
            c.check(out.value == False, "never equal to an unrelated type")  # noqa: E712
        for o in ("<", "<=", ">", ">="):
            from .c_order import OPS
            c.expect_raises(c.run(lambda: OPS[o](x, y)), TypeError, f"{o} with an unrelated type")


@contract("P18")
def td_constants(c):
    T = c.W.TimeDelta
    c.check(c.view(T.ZERO)[0] == 0, "ZERO")
    c.check(c.view(T.MAX)[0] == MAX_NS, "MAX")
    c.check(c.view(T.MIN)[0] == -MAX_NS, "MIN")


# ---- P19 ---------------------------------------------------------------------
@contract("P19")
def hrs_mins_secs_nanos(c):
    a = c.timedelta("a")
    n = c.view(a)[0]
    out = c.run(lambda: c.call(a.in_hrs_mins_secs_nanos))
    if c.expect_value(out, "in_hrs_mins_secs_nanos"):
        h, m, s, ns = out.value
        check_parts(c, n, (h, m, s, ns), (3600 * G, 60 * G, G, 1), (None, 60, 60, G),
                    "in_hrs_mins_secs_nanos")


def check_parts(c, total, vals, weights, limits, lab):
    c.check(sum(v * w for v, w in zip(vals, weights)) == total, f"{lab}: adds up to the whole")
    for v, lim in zip(vals, limits):
        c.check(c.implies(total >= 0, v >= 0), f"{lab}: one sign")
        c.check(c.implies(total <= 0, v <= 0), f"{lab}: one sign")
        if lim is not None:
            c.check(c.and_(v > -lim, v < lim), f"{lab}: within the range of the unit")


@contract("P19")
def years_months_days(c):
    a = c.datedelta("a")
    mos, days = c.view(a)
    out = c.run(lambda: c.call(a.in_years_months_days))
    if c.expect_value(out, "in_years_months_days"):
        y, m, d = out.value
        check_parts(c, mos, (y, m), (12, 1), (None, 12), "in_years_months_days")
        c.check(d == days, "in_years_months_days: the days")
    out = c.run(lambda: c.call(a.in_months_days))
    if c.expect_value(out, "in_months_days"):
        c.check(c.eqs(tuple(out.value), (mos, days)), "in_months_days")


@contract("P19")
def months_days_secs_nanos(c):
    a = c.datetimedelta("a")
    mos, days, n = c.view(a)
    out = c.run(lambda: c.call(a.in_months_days_secs_nanos))
    if c.expect_value(out, "in_months_days_secs_nanos"):
        m, d, s, ns = out.value
        c.check(c.and_(m == mos, d == days), "in_months_days_secs_nanos: months and days")
        check_parts(c, n, (s, ns), (G, 1), (None, G), "in_months_days_secs_nanos")
    for f, cls, want in (("date_part", "DateDelta", (mos, days)), ("time_part", "TimeDelta", (n,))):
        out = c.run(lambda: c.call(getattr(a, f)))
        if c.expect_value(out, f):
            c.is_a(out.value, cls)
            c.check(c.eqs(c.view(out.value), want), f"{f}: the components")


READ = {"in_days_of_24h": 86400 * G, "in_hours": 3600 * G, "in_minutes": 60 * G, "in_seconds": G,
        "in_milliseconds": 10 ** 6, "in_microseconds": 1000}


@contract("P19", product(fn=list(READ)))
def single_unit(c):
    a = c.timedelta("a")
    f = c.case["fn"]
    out = c.run(lambda: c.call(getattr(a, f)))
    if c.expect_value(out, f):
        c.check(c.is_quotient(out.value, c.view(a)[0], READ[f]), f"{f}: correctly rounded quotient")
    out = c.run(lambda: c.call(a.in_nanoseconds))
    if c.expect_value(out, "in_nanoseconds"):
        c.check(out.value == c.view(a)[0], "in_nanoseconds: exact")


@contract("P19")
def ratio(c):
    a, b = c.timedelta("a"), c.timedelta("b")
    n, d = c.view(a)[0], c.view(b)[0]
    out = c.run(lambda: a / b)
    if d == 0:
        return c.expect_raises(out, ZeroDivisionError, "division by a zero delta")
    if c.expect_value(out, "TimeDelta / TimeDelta"):
        c.check(c.is_quotient(out.value, n, d), "TimeDelta / TimeDelta: correctly rounded quotient")


@contract(["P19", "P25"])
def to_py_timedelta(c):
    a = c.timedelta("a")
    out = c.run(lambda: c.call(a.py_timedelta))
    if c.expect_value(out, "py_timedelta"):
        c.check(c.pytype(out.value) == "timedelta", "py_timedelta: a timedelta")
        c.check(c.pyview(out.value)[0] == c.view(a)[0] // 1000, "py_timedelta: floor to microseconds")


@contract(["P19", "P25"])
def from_py_timedelta(c):
    d = c.pytimedelta("d")
    out = c.run(lambda: c.call(c.W.TimeDelta.from_py_timedelta, d))
    check_td(c, out, c.pyview(d)[0] * 1000, "from_py_timedelta")


# ---- P20 ---------------------------------------------------------------------
def dd_ok(c, m, d):
    return c.and_(c.between(-MAX_MONTHS, m, MAX_MONTHS), c.between(-MAX_DAYS, d, MAX_DAYS),
                  c.not_(c.and_(m > 0, d < 0)), c.not_(c.and_(m < 0, d > 0)))


def dtd_ok(c, m, d, n):
    neg, pos = c.or_(m < 0, d < 0), c.or_(m > 0, d > 0)
    return c.and_(dd_ok(c, m, d), td_ok(c, n), c.not_(c.and_(neg, n > 0)),
                  c.not_(c.and_(pos, n < 0)))


def check_delta(c, out, want, label):
    """want: (months, days) or (months, days, ns)"""
    if len(want) == 2:
        ok, cls = dd_ok(c, *want), "DateDelta"
    else:
        ok, cls = dtd_ok(c, *want), "DateTimeDelta"
    if c.expect_valid(out, ok, label):
        c.is_a(out.value, cls)
        c.check(c.eqs(c.view(out.value), want), f"{label}: component-wise")
        c.invariant(out.value, label)


DKW = ["years", "months", "weeks", "days", "years months", "weeks days", "months days",
       "years months weeks days"]


def date_kw(c, names, more=()):
    kw, m, d = {}, 0, 0
    for k in names:
        v = kw[k] = c.amount(k, 10 ** 12, [*names, *more])
        if k in ("years", "months"):
            m = m + v * (12 if k == "years" else 1)
        else:
            d = d + v * (7 if k == "weeks" else 1)
    return kw, m, d


@contract("P20", product(kw=DKW + [""]))
def dd_constructor(c):
    kw, m, d = date_kw(c, c.case["kw"].split())
    out = c.run(lambda: c.call(c.W.DateDelta, **kw))
    check_delta(c, out, (m, d), "DateDelta(...)")


@contract("P20", product(fn=["years", "months", "weeks", "days"]))
def dd_helper(c):
    f = c.case["fn"]
    i = c.int("i", -10 ** 12, 10 ** 12)
    out = c.run(lambda: c.call(getattr(c.W, f), i))
    k = {"years": (12, 0), "months": (1, 0), "weeks": (0, 7), "days": (0, 1)}[f]
    check_delta(c, out, (i * k[0], i * k[1]), f"{f}(i)")


@contract("P20", product(kw=["", "months days", "years months weeks days"],
                         tkw=["", "hours", "nanoseconds", "hours minutes seconds", " ".join(UNITS)]))
def dtd_constructor(c):
    dates, times = c.case["kw"].split(), c.case["tkw"].split()
    kw, m, d = date_kw(c, dates, times)
    n = 0
    for k in times:
        v = kw[k] = c.amount(k, BIG, dates + times)
        n = n + v * UNITS[k]
    out = c.run(lambda: c.call(c.W.DateTimeDelta, **kw))
    check_delta(c, out, (m, d, n), "DateTimeDelta(...)")


DT = ["DateDelta", "TimeDelta", "DateTimeDelta"]


def make_delta(c, t, n):
    return {"DateDelta": c.datedelta, "TimeDelta": c.timedelta, "DateTimeDelta": c.datetimedelta}[t](n)


def full(c, o):
    v = c.view(o)
    return {1: lambda: (0, 0, v[0]), 2: lambda: (v[0], v[1], 0), 3: lambda: v}[len(v)]()


@contract("P20", [x for x in product(a=DT, b=DT, op=["+", "-"])
                  if not x["a"] == x["b"] == "TimeDelta"])
def delta_sum(c):
    ta, tb = c.case["a"], c.case["b"]
    a, b = make_delta(c, ta, "a"), make_delta(c, tb, "b")
    s = SIGNS[c.case["op"]]
    out = c.run((lambda: a + b) if s == 1 else (lambda: a - b))
    want = tuple(x + s * y for x, y in zip(full(c, a), full(c, b)))
    if ta == tb == "DateDelta":
        want = want[:2]
    check_delta(c, out, want, f"{ta} {c.case['op']} {tb}")


@contract("P20", product(t=["DateDelta", "DateTimeDelta"], op=["neg", "pos", "abs"]))
def delta_unary(c):
    t, op = c.case["t"], c.case["op"]
    a = make_delta(c, t, "a")
    out = c.run({"neg": lambda: -a, "pos": lambda: +a, "abs": lambda: abs(a)}[op])
    f = {"neg": lambda x: -x, "pos": lambda x: x, "abs": lambda x: c.ite(x < 0, -x, x)}[op]
    check_delta(c, out, tuple(f(x) for x in c.view(a)), f"{op} {t}")


@contract("P20", product(t=["DateDelta", "DateTimeDelta"], side=["left", "right"],
                         k=["any", -7, -1, 0, 1, 2, 12, 1000]))
def delta_mul(c):
    t = c.case["t"]
    a = make_delta(c, t, "a")
    # (the extension takes a factor of 32 bits, as any that leaves a delta of days nonzero is)
    lim = 2 ** 31 - 1 if c.native else 10 ** 12
    k = c.int("k", -lim, lim) if c.case["k"] == "any" else c.case["k"]
    out = c.run((lambda: a * k) if c.case["side"] == "left" else (lambda: k * a))
    check_delta(c, out, tuple(x * k for x in c.view(a)), f"{t} * int")


@contract("P20", product(t=["DateDelta", "DateTimeDelta"]))
def delta_equality(c):
    t = c.case["t"]
    a, b = make_delta(c, t, "a"), make_delta(c, t, "b")
    eq = c.eqs(c.view(a), c.view(b))
    out = c.run(lambda: a == b)
    if c.expect_value(out, "=="):
        c.check(c.truth(out.value) == eq, "== compares the components")
    out = c.run(lambda: a != b)
    if c.expect_value(out, "!="):
        c.check(c.truth(out.value) == c.not_(eq), "!= is the opposite of ==")
    check_hash(c, a, b, eq, t)
    out = c.run(lambda: c.truth(a))
    if c.expect_value(out, "bool"):
        c.check(out.value == c.or_(*[x != 0 for x in c.view(a)]), "true exactly when not zero")


@contract("P20", product(t=["DateDelta", "DateTimeDelta"]))
def delta_unrelated(c):
    t = c.case["t"]
    a = make_delta(c, t, "a")
    b = foreign(c, c.W, t)
    for x, y in ((a, b), (b, a)):
        out = c.run(lambda: x == y)
        if c.expect_value(out, "== with an unrelated type"):
            c.check(out.value == False, "never equal to an unrelated type")  # noqa: E712


@contract("P20", product(t=["DateDelta", "DateTimeDelta"]))
def delta_zero(c):
    z = getattr(c.W, c.case["t"]).ZERO
    c.check(c.eqs(c.view(z), (0, 0, 0)[:len(c.view(z))]), "ZERO")
