"""P27: RFC 2822 format and parse."""
from . import contract, product
from engine.ctx import MIN_LS, MAX_LS
G = 1_000_000_000
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def domain(c, kind):
    """A value with a year from 1000 on and a whole-minute offset."""
    a = c.instant("a", "hms") if kind == "instant" else c.offset("a", "hms", minutes=True)
    y, m, d = fields(c, a)[0]
    c.assume(y >= 1000)
    return a


def fields(c, a):
    v = c.view(a)
    n, sod = v[0] // G // 86400, v[0] // G % 86400
    return c.ymd(a), (sod // 3600, sod // 60 % 60, sod % 60), n, v


def pick(c, names, i):
    """names[i], one case per name."""
    for k, s in enumerate(names):
        if i == k:
            return s


def shape(c, kind, a):
    (y, m, d), (H, M, S), n, v = fields(c, a)
    wd = pick(c, DAYS, (n + 6) % 7)
    mon = pick(c, MONTHS, m - 1)
    if kind == "instant":
        zone = "GMT"
    else:
        off = v[1]
        mins = c.ite(off < 0, -off, off) // 60
        neg = off < 0
        zone = c.cat("-" if neg else "+", c.fmt(mins // 60, 2), c.fmt(mins % 60, 2))
    return c.cat(wd, ", ", c.fmt(d, 2), " ", mon, " ", c.fmt(y, 4), " ", c.fmt(H, 2), ":",
                 c.fmt(M, 2), ":", c.fmt(S, 2), " ", zone)


KINDS = product(kind=["instant", "offset"])


@contract("P27", KINDS)
def rfc2822_format(c):
    k = c.case["kind"]
    a = domain(c, k)
    out = c.run(lambda: c.call(a.format_rfc2822))
    if c.expect_value(out, "format_rfc2822()"):
        c.check(c.eqs(out.value, shape(c, k, a)),
                "format_rfc2822(): weekday, day, month, year, time and zone as in the RFC")


@contract("P27", KINDS)
def rfc2822_roundtrip(c):
    k = c.case["kind"]
    a = domain(c, k)
    out = c.run(lambda: c.call(a.format_rfc2822))
    if not c.expect_value(out, "format_rfc2822()"):
        return
    out = c.run(lambda: c.call(type(a).parse_rfc2822, out.value))
    if not c.expect_value(out, "parse_rfc2822(format_rfc2822())"):
        return
    r, v = out.value, c.view(a)
    c.is_a(r, c.cls(a))
    c.check(c.eqs(c.view(r), (v[0] // G * G,) + tuple(v[1:])),
            "parse_rfc2822(format_rfc2822()): the value truncated to the second")
    c.invariant(r, "parse_rfc2822()")


@contract("P27", product(kind=["instant", "offset"], zone=["GMT", "-0000", "+", "-"],
                         mon=["Jan", "Feb", "Apr", "Dec"]))
def rfc2822_parse(c):
    """Any date, clock time and zone in digits: the moment they name, or ValueError."""
    k, z, mon = c.case["kind"], c.case["zone"], c.case["mon"]
    y, d = c.int("year", 1000, 9999), c.int("day", 0, 99)
    H, M, S = c.int("hour", 0, 99), c.int("minute", 0, 99), c.int("second", 0, 99)
    m = MONTHS.index(mon) + 1
    good = c.and_(d >= 1, d <= c.dim(y, m), H <= 23, M <= 59, S <= 59)
    if z in "+-":
        oh, om = c.int("offset hours", 0, 99), c.int("offset minutes", 0, 59)
        zone, off = c.cat(z, c.fmt(oh, 2), c.fmt(om, 2)), (oh * 3600 + om * 60) * (1 if z == "+" else -1)
        if k == "instant":      # "-0000" and "+0000" are UTC
            good = c.and_(good, off == 0)
        elif z == "-":
            c.assume(off != 0)
        good = c.and_(good, oh <= 23)
    else:
        zone, off = z, 0
        if k == "offset" and z == "-0000":
            good = c.and_(good, False)
    s = c.cat("Mon, ", c.fmt(d, 2), " ", mon, " ", c.fmt(y, 4), " ", c.fmt(H, 2), ":", c.fmt(M, 2),
              ":", c.fmt(S, 2), " ", zone)
    ls = (c.ord(y, m, 1) + d - 1) * 86400 + H * 3600 + M * 60 + S
    good = c.and_(good, c.between(MIN_LS, ls - off, MAX_LS))
    out = c.run(lambda: c.call({"instant": c.W.Instant, "offset": c.W.OffsetDateTime}[k].parse_rfc2822, s))
    if not c.expect_valid(out, good, "parse_rfc2822(text)", (ValueError,)):
        return
    c.check(c.eqs(c.view(out.value), (ls * G,) if k == "instant" else (ls * G, off)),
            "parse_rfc2822(text): the moment and offset the text names")
    c.invariant(out.value, "parse_rfc2822(text)")
