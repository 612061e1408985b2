"""P01, P02: calendar arithmetic on Date."""
from . import contract, product
RANGE_ERR = (ValueError, OverflowError)
SIGN = {"add": 1, "subtract": -1}


def shift_spec(c, d, mos, days):
    """Ordinal of the shifted date, or None."""
    y, m, dd = c.ymd(d)
    return c.shift_ord(y, m, dd, mos, days)


def check_date(c, out, n, label):
    if c.expect_valid(out, n is not None, label):
        if n is None:
            return
        c.is_a(out.value, "Date")
        c.check(c.eqs(c.view(out.value), (n,)), f"{label}: months with clamp, then days")
        c.invariant(out.value, label)


@contract("P01", product(op=["add", "subtract"]))
def shift_kwargs(c):
    """Date.add/subtract(years=, months=, weeks=, days=)"""
    d = c.date("d")
    L = 10 ** 7
    y, m, w, dd = (c.int(n, -L, L) for n in ("years", "months", "weeks", "days"))
    s = SIGN[c.case["op"]]
    n = shift_spec(c, d, s * (12 * y + m), s * (7 * w + dd))
    out = c.run(lambda: c.call(getattr(d, c.case["op"]), years=y, months=m, weeks=w, days=dd))
    check_date(c, out, n, f"Date.{c.case['op']}(years, months, weeks, days)")


@contract("P01", product(op=["add", "subtract"], kw=["years", "months", "weeks", "days"]))
def shift_one_kwarg(c):
    d = c.date("d")
    k = c.case["kw"]
    v = c.int("amount", -10 ** 7, 10 ** 7)
    s = SIGN[c.case["op"]]
    mos = s * v * {"years": 12, "months": 1}.get(k, 0)
    days = s * v * {"weeks": 7, "days": 1}.get(k, 0)
    n = shift_spec(c, d, mos, days)
    out = c.run(lambda: c.call(getattr(d, c.case["op"]), **{k: v}))
    check_date(c, out, n, f"Date.{c.case['op']}({k})")


@contract("P01", product(op=["add", "subtract"], how=["method", "operator"]))
def shift_delta(c):
    d = c.date("d")
    x = c.datedelta("delta")
    mos, days = c.view(x)
    s = SIGN[c.case["op"]]
    n = shift_spec(c, d, s * mos, s * days)
    if c.case["how"] == "method":
        out = c.run(lambda: c.call(getattr(d, c.case["op"]), x))
        lab = f"Date.{c.case['op']}(delta)"
    elif c.case["op"] == "add":
        out, lab = c.run(lambda: d + x), "Date + DateDelta"
    else:
        out, lab = c.run(lambda: d - x), "Date - DateDelta"
    check_date(c, out, n, lab)


@contract("P02")
def difference(c):
    a, b = c.date("a"), c.date("b")
    out = c.run(lambda: a - b)
    if not c.expect_value(out, "Date - Date"):
        return
    r = out.value
    c.is_a(r, "DateDelta")
    c.invariant(r, "Date - Date")
    mos, days = c.view(r)
    na, nb = c.ordinal(a), c.ordinal(b)
    yb, mb, db = c.ymd(b)
    back = c.shift_ord(yb, mb, db, mos, days)
    c.check(back is not None, "b + (a - b) is a date")
    c.check(back == na, "b + (a - b) == a")
    c.check(c.implies(na >= nb, c.and_(mos >= 0, days >= 0)), "later minus earlier is not negative")
    c.check(c.implies(na <= nb, c.and_(mos <= 0, days <= 0)), "earlier minus later is not positive")
    c.check(c.and_(days > -31, days < 31), "fewer remaining days than a month")
    # as many whole months as possible: one more month overshoots
    if na > nb:
        r = c.add_months(yb, mb, db, mos + 1)
        if r is not None:
            c.check(c.ord(*r) > na, "as many whole months as possible (forward)")
    elif na < nb:
        r = c.add_months(yb, mb, db, mos - 1)
        if r is not None:
            c.check(c.ord(*r) < na, "as many whole months as possible (backward)")


@contract("P02")
def day_counts(c):
    a, b = c.date("a", "ord"), c.date("b", "ord")
    n = c.ordinal(a) - c.ordinal(b)
    out = c.run(lambda: c.call(a.days_since, b))
    if c.expect_value(out, "days_since"):
        c.check(out.value == n, "a.days_since(b) is the exact day count")
    out = c.run(lambda: c.call(a.days_until, b))
    if c.expect_value(out, "days_until"):
        c.check(out.value == -n, "a.days_until(b) is the exact day count")
