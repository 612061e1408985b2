"""Which attribute of a value class holds what.

The contracts speak of roles (the date, the clock time, the local datetime, the nanoseconds, ...).
They are found by building one sample of each class from the current source and looking where its
parts ended up, so that a renamed attribute or an added cache does not matter. A class whose parts
are stored in another form is outside the verifier.
"""
from . import models
from .sym import Unsupported

NS = 123_456_789
_CACHE = {}


def cal_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def _slots(C):
    r = []
    for b in C.__mro__:
        s = b.__dict__.get("__slots__", ())
        r += [a for a in ((s,) if isinstance(s, str) else s) if a not in ("__weakref__", "__dict__")]
    return list(dict.fromkeys(r))


class Rep:
    """roles: role -> attribute; extra: attribute -> value every new object has."""

    def __init__(self, roles, extra, dummy=None):
        self.roles, self.extra, self.dummy = roles, extra, dummy


def _discover(W, name):
    C = getattr(W, name)
    like = {"ZonedDateTime": "OffsetDateTime", "SystemDateTime": "OffsetDateTime"}.get(name)
    if like:
        if sorted(_slots(C)) != sorted(_slots(getattr(W, like))):
            raise Unsupported(f"the representation of {name} is not the one the contracts know")
        return of(W, like)
    dt = lambda o: isinstance(o, models.MDateTime)
    date = lambda o: isinstance(o, models.MDate) and not dt(o)
    is_ = lambda n: lambda o: type(o) is int and o == n
    want, mk = {
        "Date": ({"_py_date": date}, lambda y: C(y, 2, 3)),
        "YearMonth": ({"_py_date": date}, lambda y: C(y, 2)),
        "MonthDay": ({"_py_date": date}, lambda y: C(y % 12 + 1, 3)),
        "Time": ({"_py_time": lambda o: isinstance(o, models.MTime), "_nanos": is_(NS)},
                 lambda y: C(y % 24, 3, 4, nanosecond=NS)),
        "LocalDateTime": ({"_py_dt": dt, "_nanos": is_(NS)},
                          lambda y: C(y, 2, 3, 4, 5, 6, nanosecond=NS)),
        "Instant": ({"_py_dt": dt, "_nanos": is_(NS)},
                    lambda y: C.from_utc(y, 2, 3, 4, 5, 6, nanosecond=NS)),
        "OffsetDateTime": ({"_py_dt": dt, "_nanos": is_(NS)},
                           lambda y: C(y, 2, 3, 4, 5, 6, nanosecond=NS, offset=2)),
        "TimeDelta": ({"_total_ns": is_(NS)}, lambda y: C(nanoseconds=NS)),
        "DateDelta": ({"_months": is_(35), "_days": is_(411)}, lambda y: C(months=35, days=411)),
        "DateTimeDelta": ({"_date_part": lambda o: type(o) is W.DateDelta,
                           "_time_part": lambda o: type(o) is W.TimeDelta},
                          lambda y: C(months=35, days=411, nanoseconds=NS)),
    }[name]
    bad = Unsupported(f"the representation of {name} is not the one the contracts know")
    try:
        a, b = mk(2001), mk(2010)
    except Exception as e:
        raise Unsupported(f"no sample of {name} to look at: {type(e).__name__}: {e}")
    if getattr(a, "__dict__", None):
        raise bad
    roles, extra = {}, {}
    for s in _slots(C):
        if not hasattr(a, s):
            continue                       # filled later (a cache)
        v, w = getattr(a, s), getattr(b, s)
        r = [k for k, f in want.items() if f(v) and f(w) and k not in roles]
        if r:
            roles[r[0]] = s
        elif v is w and (v is None or type(v) in (bool, int, str)):
            extra[s] = v
        else:
            raise bad
    if set(roles) != set(want):
        raise bad
    dummy = None
    if name in ("YearMonth", "MonthDay"):  # the filler day or year the stored date carries
        i = 2 if name == "YearMonth" else 0
        dummy = getattr(a, roles["_py_date"]).ymd[i]
        if dummy != getattr(b, roles["_py_date"]).ymd[i] or (i == 0 and not cal_leap(dummy)):
            raise bad
    return Rep(roles, extra, dummy)


def of(W, name):
    cache = _CACHE.get(id(W))
    if cache is None:
        cache = _CACHE[id(W)] = {}
    r = cache.get(name)
    if r is None:
        try:
            r = _discover(W, name)
        except Unsupported as e:
            r = e
        cache[name] = r
    if isinstance(r, Unsupported):
        raise Unsupported(str(r))
    return r
