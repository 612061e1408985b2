"""P24: pickling and copying."""
from . import contract, product
from .c_zform import well_formed

KINDS = ["date", "yearmonth", "monthday", "time", "local", "instant", "offset", "zoned",
         "timedelta", "datedelta", "datetimedelta"]
BY = ["ls", "hms"]


def value(c, kind, n="a", by=None):
    """Any value of the class; (value, timezone or None)"""
    if kind == "zoned":
        z = c.zone("tz")
        return c.zoned(n, z, by or "ls"), z
    f = getattr(c, kind)
    return (f(n, by) if by else f(n)), None


def identical(c, a, r, label):
    c.check(c.cls(r) == c.cls(a), f"{label}: of the same type")
    c.check(c.eqs(c.view(r), c.view(a)), f"{label}: the same fields, offset and timezone")
    c.invariant(r, label)


def preserved(c, kind, by=None):
    a, z = value(c, kind, by=by)
    what = c.case["op"]
    out = c.run(lambda: (c.pickled if what == "pickle" else c.copied)(a))
    if not c.expect_value(out, what):
        return
    for r in out.value:
        identical(c, a, r, what)


@contract("P24", product(op=["pickle", "copy"], kind=KINDS))
def pickle_and_copy(c):
    k = c.case["kind"]
    preserved(c, k, {"date": "ymd", "time": "sod"}.get(k) if k in ("date", "time") else None)


@contract("P24", product(op=["pickle"], kind=["local", "instant", "offset", "zoned"]))
def pickle_fields(c):
    preserved(c, c.case["kind"], "hms")


@contract("P24", product(op=["pickle", "copy"]), sys=True)
def system_pickle_and_copy(c):
    preserved(c, "system")


@contract("P24", product(kind=KINDS))
def equal_to_the_original(c):
    """The unpickled value also compares and hashes like the original."""
    a, _ = value(c, c.case["kind"])
    out = c.run(lambda: c.pickled(a))
    if c.expect_value(out, "pickle"):
        r = out.value[0]
        c.check(c.truth(r == a), "the unpickled value equals the original")
        c.check(c.hash_same(r, a), "the unpickled value has the same hash")
