"""P22: the ISO format of deltas."""
from . import contract, product
from .c_iso import frac
G = 1_000_000_000


def time_parts(c, n):
    """Components of n >= 0 nanoseconds, largest first, zero ones left out."""
    h, m, s, ns = n // (3600 * G), n // (60 * G) % 60, n // G % 60, n % G
    t = []
    if h != 0:
        t += [c.num(h), "H"]
    if m != 0:
        t += [c.num(m), "M"]
    f = frac(c, ns)
    if s != 0 or f:
        t += [c.num(s), *f, "S"]
    return t


def date_parts(c, months, days):
    y, m = months // 12, months % 12
    t = []
    for v, u in ((y, "Y"), (m, "M"), (days, "D")):
        if v != 0:
            t += [c.num(v), u]
    return t


def text_of(c, kind, v):
    months, days, n = {"TimeDelta": (0, 0) + v, "DateDelta": v + (0,)}.get(kind, v)
    neg = c.or_(months < 0, days < 0, n < 0)
    sg = "-" if neg else ""
    if neg:
        months, days, n = -months, -days, -n
    d, t = date_parts(c, months, days), time_parts(c, n)
    if kind == "TimeDelta":
        return c.cat(sg, "PT", *(t or ["0S"]))
    if kind == "DateDelta":
        return c.cat(sg, "P", *(d or ["0D"]))
    return c.cat(sg, "P", *(d or ([] if t else ["0D"])), *(["T"] if t else []), *t)


# the cases of DateTimeDelta partition the domain (neg: some component is negative)
CASES = (product(kind=["TimeDelta", "DateDelta"])
         + product(kind=["DateTimeDelta"], neg=[False, True], years=[False, True],
                   days=[False, True]))


@contract("P22", CASES, weight=3)
def delta_round_trip(c):
    kind = c.case["kind"]
    x = getattr(c, kind.lower())("x")
    if kind == "DateTimeDelta":
        m, d, n = c.view(x)
        neg, years, days = (c.case[k] for k in ("neg", "years", "days"))
        c.assume(c.or_(m < 0, d < 0, n < 0) if neg else c.and_(m >= 0, d >= 0, n >= 0))
        c.assume(c.or_(m >= 12, m <= -12) if years else c.between(-11, m, 11))
        c.assume(d != 0 if days else d == 0)
    text = text_of(c, kind, c.view(x))
    for name, f in (("format_common_iso", lambda: c.call(x.format_common_iso)),
                    ("str()", lambda: c.str(x))):
        out = c.run(f)
        if not c.expect_value(out, name):
            return
        c.check(c.eqs(out.value, text), f"{name}: the documented text")
    out = c.run(lambda: c.call(getattr(c.W, kind).parse_common_iso, out.value))
    if c.expect_value(out, "parse_common_iso of the formatted text"):
        c.is_a(out.value, kind)
        c.check(c.eqs(c.view(out.value), c.view(x)), "parse_common_iso(format_common_iso(x)) is x")
        c.invariant(out.value, "parsed value")
