"""P36: kinds that the documentation does not combine never mix."""
import operator as op
from . import contract
from .c_frame import operand
from .c_pickle import value

EXACT = ["instant", "offset", "zoned", "system"]
DELTAS = ["timedelta", "datedelta", "datetimedelta"]
KINDS = ["date", "yearmonth", "monthday", "time", "local"] + EXACT + DELTAS
OTHER = {"int": lambda c: c.int("i", -10 ** 12, 10 ** 12), "None": lambda c: None,
         "text": lambda c: c.other_str("s"), "pydate": lambda c: c.pydate("p"),
         "pydelta": lambda c: c.pytimedelta("p"), "tuple": lambda c: (1, 2)}
CLS = dict(date="Date", yearmonth="YearMonth", monthday="MonthDay", time="Time",
           local="LocalDateTime", instant="Instant", offset="OffsetDateTime", zoned="ZonedDateTime",
           system="SystemDateTime", timedelta="TimeDelta", datedelta="DateDelta",
           datetimedelta="DateTimeDelta")
ORD = {"<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}
ARITH = {"+": op.add, "-": op.sub, "*": op.mul, "/": op.truediv, "//": op.floordiv, "%": op.mod}


def table():
    """(left, operator, right) -> class of the result; consent: 'dst' always refuses."""
    t = {}
    t["date", "+", "datedelta"] = t["date", "-", "datedelta"] = "date"
    t["date", "-", "date"] = "datedelta"
    t["instant", "+", "timedelta"] = t["instant", "-", "timedelta"] = "instant"
    for a in EXACT:
        for b in EXACT:
            t[a, "-", b] = "timedelta"
    for a in ("zoned", "system"):
        for d in DELTAS:
            t[a, "+", d] = t[a, "-", d] = a
    t["local", "+", "datedelta"] = t["local", "-", "datedelta"] = "local"
    for o in "+-":
        for a in DELTAS:
            for b in DELTAS:
                t[a, o, b] = a if a == b else "datetimedelta"
    for d in DELTAS:
        t[d, "*", "int"] = t["int", "*", d] = d
    t["timedelta", "/", "int"] = "timedelta"
    t["timedelta", "/", "timedelta"] = "number"
    t["timedelta", "//", "timedelta"] = "number"
    t["timedelta", "%", "timedelta"] = "timedelta"
    return t


TABLE = table()


def comparable(a, b):
    return a == b or a in EXACT and b in EXACT


def ordered(a, b):
    return comparable(a, b) and a not in ("datedelta", "datetimedelta")


def build(c, k, n):
    if k in OTHER:
        return OTHER[k](c)
    if k == "zoned":
        return c.zoned(n, c.zone("tz"))
    return getattr(c, k)(n)


def check_pair(c, ka, kb):
    a, b = build(c, ka, "a"), build(c, kb, "b")
    o = c.case["op"]
    lab = f"{CLS.get(ka, ka)} {o} {CLS.get(kb, kb)}"
    if o == "==":
        for f, want in ((op.eq, False), (op.ne, True)):
            out = c.run(lambda: f(a, b))
            if c.expect_value(out, lab) and not comparable(ka, kb):
                c.check(c.eqs(c.truth(out.value), want), f"{lab}: never equal")
        return
    if o == "order":
        for s, f in ORD.items():
            out = c.run(lambda: f(a, b))
            if ordered(ka, kb):
                c.expect_value(out, f"{ka} {s} {kb}")
            else:
                c.expect_raises(out, TypeError, f"{CLS.get(ka, ka)} {s} {CLS.get(kb, kb)}")
        return
    out = c.run(lambda: ARITH[o](a, b))
    want = TABLE.get((ka, o, kb))
    if want is None:
        c.expect_raises(out, TypeError, lab)
    elif out.ok:
        if want == "number":
            c.check(c.cls(out.value) not in CLS.values(), f"{lab}: a number")
        else:
            c.check(c.cls(out.value) == CLS[want], f"{lab}: a {CLS[want]}")
    else:
        c.check(not isinstance(out.exc, TypeError), f"{lab}: a documented combination", soft=True)


# // and % of a time delta by a number, and ZERO division, are left to P18
SKIP = {("timedelta", "//", "int"), ("timedelta", "%", "int")}


def cases(sys):
    r = []
    for a in KINDS + list(OTHER):
        for b in KINDS + list(OTHER):
            if a in OTHER and b in OTHER or ("system" in (a, b)) != sys:
                continue
            for o in ["==", "order"] + list(ARITH):
                if o in "*///%" and (a, o, b) not in TABLE and not (a in DELTAS or b in DELTAS):
                    continue
                if (a, o, b) not in SKIP:
                    r.append(dict(left=a, right=b, op=o))
    return r


@contract("P36", cases(False))
def kinds(c):
    check_pair(c, c.case["left"], c.case["right"])


@contract("P36", cases(True), sys=True)
def system_kinds(c):
    check_pair(c, c.case["left"], c.case["right"])
