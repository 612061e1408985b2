"""P33: the calendar functions of the compiled extension that its callers see by contract.

Everything else P33 claims is the contracts of the other properties, on the extension's code
(engine/extsuite.py)."""
from . import contract, product
from engine import cal, concrete
from engine.ctx import SymCtx
from engine.sym import Unsupported
import datetime

PARTS = 24


@contract("P33", product(month=list(range(1, 13))))
def calendar_days_in_month(c):
    y, m = c.int("y", 1, 9999), c.case["month"]
    if isinstance(c, SymCtx):
        n = c.ext.body("date::days_in_month", y, m)
    else:
        n = 28
        while n < 31 and c.run(lambda: c.W.Date(y, m, n + 1)).exc is None:
            n += 1
    c.check(c.eqs((n,), (cal.DIM(y, m),)), "days_in_month gives the length of the month")


@contract("P33", product(month=list(range(1, 13))))
def calendar_ord(c):
    """Date::ord: days since the year 1, by the Gregorian rules."""
    y, m, d = c.int("y", 1, 9999), c.case["month"], c.int("d", 1, 31)
    c.assume(d <= cal.DIM(y, m))
    if isinstance(c, SymCtx):
        from engine.mir import Agg
        n = c.ext.body("date::Date::ord", Agg("date::Date", None, (y, m, d)))
    else:
        n = c.W.Instant.from_utc(y, m, d).timestamp() // 86400 + 719163
    c.check(c.eqs((n,), (cal.DBM(y, m) + d,)), "Date::ord is the ordinal of the day")


@contract("P33", product(part=list(range(PARTS))))
def calendar_from_ord(c):
    """Date::from_ord_unchecked, on every one of its 3652059 inputs, on the built extension."""
    D = getattr(concrete.real_module()[0], "Date", None)
    if D is None:
        raise Unsupported("the extension could not be built")
    k = c.case["part"]
    first, ref, ok = D(1, 1, 1), datetime.date.fromordinal, True
    for n in range(cal.MAXORD * k // PARTS, cal.MAXORD * (k + 1) // PARTS):
        r = first.add(days=n)
        e = ref(n + 1)
        if r.year != e.year or r.month != e.month or r.day != e.day:
            ok = False
            break
    c.check(ok, "Date::from_ord_unchecked is the inverse of Date::ord")
