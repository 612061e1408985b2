"""P10, P11: shifting zoned and system datetimes."""
from . import contract, product
from .zspec import resolve_any, Spec, STRATEGIES, u_ok, G
from .c_zoned import make, zone_for, CLS
from engine.ctx import RANGE_ERR, MIN_LS, MAX_LS, MAX_NS
from .c_exact import UNITS

DATE_UNITS = ["years", "months", "weeks", "days"]
BIG = 10 ** 24
SIGN = {"add": 1, "subtract": -1}


def check_shift(c, out, a, z, mos, days, dns, strat, label, kind, always_date, also=True):
    """mos/days/dns: signed totals; always_date: the date step happens even when zero."""
    W, cls = c.W, CLS[kind]
    v = c.view(a)
    l0, ns0, off0 = v[0] // G, v[0] % G, v[1]
    date_step = always_date or bool(c.or_(mos != 0, days != 0))
    if date_step:
        y, m, d = c.ymd(a)
        n = c.shift_ord(y, m, d, mos, days)
        if n is None:
            c.expect_valid(out, False, label)
            return
        sp = resolve_any(c, z, n * 86400 + l0 % 86400, strat, off0)
    else:
        sp = Spec("ok", l0, off0)
    if sp.kind != "ok":
        if out.ok:
            c.check(False, f"{label}: 'raise' raises for a {sp.kind} time")
            return
        err = {"repeated": W.RepeatedTime, "skipped": W.SkippedTime}[sp.kind]
        if not isinstance(out.exc, err):
            c.fail_types(out, RANGE_ERR, label)
            c.check(c.not_(c.and_(sp.must, also)), f"{label}: raises {err.__name__}")
        return
    m2 = (sp.l - sp.off) * G + ns0 + dns
    u2 = m2 // G
    if not u_ok(c, u2):
        if out.ok or not isinstance(out.exc, RANGE_ERR):
            c.expect_valid(out, False, label)
        return
    o, f = z.uoff(u2)
    must = c.and_(sp.must, u_ok(c, u2 + o), also)
    if kind == "system":
        # the moment is reached in the offset before the shift
        must = c.and_(must, u_ok(c, sp.l + (ns0 + dns) // G))
    if not out.ok:
        c.fail_types(out, RANGE_ERR, label)
        c.check(c.not_(must), f"{label}: raises only when the result is out of range")
        return
    c.check(c.and_(u_ok(c, u2 + o), also), f"{label}: returns only when the result is in range")
    r = out.value
    c.is_a(r, cls)
    rv = c.view(r)
    c.check(rv[1] == o, f"{label}: the offset in force at the shifted moment")
    c.check(rv[0] == m2 + o * G,
            f"{label}: calendar units on the local date, then time units on the timeline")
    if kind == "zoned":
        c.check(c.eqs(rv[2], v[2]), f"{label}: the timezone is unchanged")
    c.invariant(r, label)


def td_ok(c, ns):
    return c.between(-MAX_NS, ns, MAX_NS)


KW = ["years", "months", "weeks", "days", "hours", "nanoseconds", "months days",
      "years months weeks days", "days hours",
      "hours minutes seconds milliseconds microseconds nanoseconds",
      "years months weeks days hours minutes seconds milliseconds microseconds nanoseconds"]


def by_kwargs(c, kind):
    z = zone_for(c, kind)
    a = make(c, kind, "a", z, "ymd")
    st = c.case["strategy"]
    s = SIGN[c.case["op"]]
    kw = {}
    mos = days = dns = 0
    names = c.case["kw"].split()
    for k in names:
        v = kw[k] = c.amount(k, BIG if k in UNITS else 10 ** 7, names)
        if k in UNITS:
            dns = dns + v * UNITS[k]
        elif k in ("years", "months"):
            mos = mos + v * (12 if k == "years" else 1)
        else:
            days = days + v * (7 if k == "weeks" else 1)
    if st is not None:
        kw["disambiguate"] = st
    out = c.run(lambda: c.call(getattr(a, c.case["op"]), **kw))
    lab = f"{CLS[kind]}.{c.case['op']}({c.case['kw']})"
    check_shift(c, out, a, z, s * mos, s * days, s * dns, st, lab, kind, False, td_ok(c, dns))


def by_delta(c, kind):
    z = zone_for(c, kind)
    a = make(c, kind, "a", z, "ymd")
    t, how, st = c.case["delta"], c.case["how"], c.case["strategy"]
    d = {"TimeDelta": c.timedelta, "DateDelta": c.datedelta,
         "DateTimeDelta": c.datetimedelta}[t]("d")
    v = c.view(d)
    mos, days, dns = {"TimeDelta": lambda: (0, 0, v[0]), "DateDelta": lambda: (v[0], v[1], 0),
                      "DateTimeDelta": lambda: v}[t]()
    s = SIGN[c.case["op"]]
    if how == "method":
        kw = {} if st is None else dict(disambiguate=st)
        out = c.run(lambda: c.call(getattr(a, c.case["op"]), d, **kw))
        lab = f"{CLS[kind]}.{c.case['op']}({t})"
    else:
        out = c.run((lambda: a + d) if s == 1 else (lambda: a - d))
        lab = f"{CLS[kind]} {'+' if s == 1 else '-'} {t}"
    check_shift(c, out, a, z, s * mos, s * days, s * dns, st, lab, kind,
                how == "operator" and t != "TimeDelta")


KWCASES = product(op=["add", "subtract"], kw=KW, strategy=[None]) + \
    product(op=["add", "subtract"], kw=["months days", "days hours"], strategy=STRATEGIES)
DCASES = product(op=["add", "subtract"], how=["method", "operator"],
                 delta=["TimeDelta", "DateDelta", "DateTimeDelta"], strategy=[None]) + \
    product(op=["add", "subtract"], how=["method"], delta=["DateDelta", "DateTimeDelta"],
            strategy=STRATEGIES)


@contract("P10", KWCASES)
def zoned_shift_kwargs(c):
    by_kwargs(c, "zoned")


@contract("P10", DCASES)
def zoned_shift_delta(c):
    by_delta(c, "zoned")


@contract("P11", KWCASES, sys=True)
def system_shift_kwargs(c):
    by_kwargs(c, "system")


@contract("P11", DCASES, sys=True)
def system_shift_delta(c):
    by_delta(c, "system")


@contract("P10", product(kind=["zoned"], how=["none", "mixed"]))
def zoned_shift_args(c):
    shift_args(c, "zoned")


@contract("P11", product(kind=["system"], how=["none", "mixed"]), sys=True)
def system_shift_args(c):
    shift_args(c, "system")


def shift_args(c, kind):
    """No arguments: the value itself; a delta and keywords together: an error."""
    z = zone_for(c, kind)
    a = make(c, kind, "a", z)
    for op in ("add", "subtract"):
        if c.case["how"] == "none":
            out = c.run(lambda: c.call(getattr(a, op)))
            if c.expect_value(out, f"{op}()"):
                c.check(c.same(out.value, a), f"{op}() without arguments changes nothing")
        else:
            d = c.timedelta(op + ".d")
            out = c.run(lambda: c.call(getattr(a, op), d, hours=1))
            c.expect_raises(out, TypeError, f"{op}(delta, hours=1)")
