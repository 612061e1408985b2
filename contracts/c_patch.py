"""P31: patched time."""
from . import contract, product
from .zspec import u_ok
from engine.ctx import RANGE_ERR, MIN_LS, MAX_LS, MIN_NS, MAX_INSTANT_NS, EPOCH_LS
G = 1_000_000_000
PINS = ["instant", "offset", "zoned"]
EP = EPOCH_LS * G


class Boom(Exception):
    pass


def pin_of(c, kind):
    if kind == "zoned":
        z = c.zone("pin.tz")
        return c.zoned("pin", z)
    return getattr(c, kind)("pin")


def start(c, pin, ticking):
    cm = c.call(c.pkg.patch_current_time, pin, keep_ticking=ticking)
    p = cm.__enter__()
    c.defer(lambda: cm.__exit__(None, None, None))
    return cm, p


def stop(c, cm, exc=False):
    if not exc:
        return cm.__exit__(None, None, None)
    e = Boom()
    try:
        r = cm.__exit__(Boom, e, e.__traceback__)
        c.check(not r, "an exception inside the patch is not swallowed")
    except Boom as x:
        c.check(x is e, "an exception inside the patch is the one raised")


def read_now(c, want, label, how="Instant"):
    """`want`: nanoseconds on the UTC timeline that now must give, as a function of nothing."""
    W = c.W
    z = None
    off = None
    if how == "ZonedDateTime":
        z = c.zone("now.tz")
        th = lambda: c.call(W.ZonedDateTime.now, z.key)
    elif how == "OffsetDateTime":
        off = c.int("now.hours", -23, 23)
        th = lambda: c.call(W.OffsetDateTime.now, off, ignore_dst=True)
    elif how == "Date":
        th = lambda: c.call(W.Date.today_in_system_tz)
    else:
        th = lambda: c.call(getattr(W, how).now)
    out = c.run(th)
    w = want()
    sys = how in ("SystemDateTime", "Date")
    u = w // G
    if how == "Instant":
        ok = c.between(MIN_NS, w, MAX_INSTANT_NS)
    elif how == "OffsetDateTime":
        ok = c.and_(u_ok(c, u), u_ok(c, u + off * 3600))
    else:
        if not u_ok(c, u):
            return c.expect_valid(out, False, label)
        z = z or c.syszone()
        o = z.uoff(u)[0]
        ok = u_ok(c, u + o)
    if not c.expect_valid(out, ok, label):
        return
    r = out.value
    c.is_a(r, how)
    if how == "Date":
        c.check(c.eqs(c.view(r), ((u + o) // 86400,)), f"{label}: today in the system timezone")
        return
    c.check(c.eqs(c.moment(r), w), f"{label}: exactly the moment")
    v = c.view(r)
    if how == "OffsetDateTime":
        c.check(c.eqs(v[1], off * 3600), f"{label}: in the requested offset")
    elif how != "Instant":
        c.check(c.eqs(v[1], o), f"{label}: the offset of the timezone at that moment")
        if how == "ZonedDateTime":
            c.check(c.eqs(v[2], z.key), f"{label}: in the requested timezone")


def elapsed(c, i):
    """Real time between reading i and the latest one."""
    return c.clock()[-1] - c.clock()[i]


def patched(c, kind, how):
    c.use_clock()
    pin = c.system("pin") if kind == "system" else pin_of(c, kind)
    m = c.moment(pin)
    tick = c.case["ticking"]
    out = c.run(lambda: start(c, pin, tick))
    if not c.expect_value(out, "patch_current_time"):
        return
    cm, p = out.value
    want = (lambda: m + elapsed(c, 0)) if tick else (lambda: m)
    read_now(c, want, f"{how}.now() while patched", how)
    stop(c, cm, c.case.get("exc", False))
    n = len(c.clock())
    read_now(c, lambda: c.clock()[n] + EP, "Instant.now() after the patch")


SYSHOW = ["SystemDateTime", "Date"]


@contract("P31", product(kind=PINS, how=["Instant", "ZonedDateTime", "OffsetDateTime"],
                         ticking=[False, True]))
def pinned_now(c):
    patched(c, c.case["kind"], c.case["how"])


@contract("P31", product(kind=["instant", "system"], how=SYSHOW, ticking=[False, True])
          + product(kind=["system"], how=["Instant"], ticking=[False, True]), sys=True)
def system_pinned_now(c):
    patched(c, c.case["kind"], c.case["how"])


@contract("P31", product(kind=["instant"], how=["Instant"], ticking=[False, True], exc=[True]))
def undone_by_exception(c):
    patched(c, c.case["kind"], c.case["how"])


# ---- shifting: one step from any patched state ---------------------------------------
SHIFTS = {"none": [], "kwargs": ["hours", "nanoseconds"], "timedelta": [], "calendar": ["months", "days"]}


def shift_args(c, kind, how, n=""):
    """(args, kwargs)"""
    ig = dict(ignore_dst=True) if kind == "offset" else {}
    if how == "kwargs":
        return (), dict(hours=c.int("hours" + n, -10 ** 9, 10 ** 9),
                        nanoseconds=c.int("nanoseconds" + n, -10 ** 21, 10 ** 21), **ig)
    if how == "timedelta":
        return (c.timedelta("d" + n),), ig
    if how == "calendar":
        return (), dict(months=c.int("months" + n, -200000, 200000), **ig)
    return (), ig


def on_pin(c, p):
    """The pin of the patch object, to show that a shift leads to a state like a fresh patch."""
    return getattr(p, "_pin", None)


def one_shift(c, kind, tick):
    """shift() leads to the state of a patch pinned to the shifted moment; by induction this
    covers every sequence of shifts."""
    c.use_clock()
    pin = c.system("pin") if kind == "system" else pin_of(c, kind)
    a, k = shift_args(c, kind, c.case["by"])
    cm, p = start(c, pin, tick)
    out = c.run(lambda: c.call(p.shift, *a, **k))
    n = len(c.clock())
    if tick:
        # readings: patch, shift (1 or more), now
        e = c.clock()[1] - c.clock()[0] if n > 1 else 0
        ig = dict(ignore_dst=True) if kind == "offset" else {}
        base = c.run(lambda: c.call(pin.add, nanoseconds=e, **ig))
        if not base.ok:
            return stop(c, cm)
        base = base.value
    else:
        base = pin
    want = c.run(lambda: c.call(base.add, *a, **k))
    lab = "shift()"
    if not want.ok:
        if out.ok:
            c.check(False, f"{lab}: raises when the pin can't be shifted so")
        # the patch goes on as before
        m = c.moment(pin)
        read_now(c, (lambda: m + elapsed(c, 0)) if tick else (lambda: m), f"now after a failed {lab}")
        return stop(c, cm)
    if not c.expect_value(out, lab):
        return stop(c, cm)
    w = c.moment(want.value)
    q = on_pin(c, p)
    if q is None:
        c.note("no pin on the patch object")
    else:
        c.check(c.same(q, want.value), f"{lab}: the pin is shifted, for later shifts to build on")
    if tick:
        read_now(c, lambda: w + elapsed(c, n - 1), f"now after {lab}")
    else:
        read_now(c, lambda: w, f"now after {lab}")
    stop(c, cm)
    n2 = len(c.clock())
    read_now(c, lambda: c.clock()[n2] + EP, "Instant.now() after the patch")


BY = {"instant": ["none", "kwargs"], "offset": ["kwargs", "timedelta", "calendar"],
      "zoned": ["kwargs", "timedelta", "calendar"], "system": ["kwargs", "calendar"]}


@contract("P31", [dict(kind=k, by=b, ticking=t) for k in PINS for b in BY[k] for t in (False, True)])
def shift_step(c):
    one_shift(c, c.case["kind"], c.case["ticking"])


@contract("P31", product(kind=["system"], by=BY["system"], ticking=[False, True]), sys=True)
def system_shift_step(c):
    one_shift(c, "system", c.case["ticking"])


@contract("P31", product(n=[2, 3], ticking=[False, True]))
def shift_sequence(c):
    """Several shifts add up (a direct check of the induction)."""
    c.use_clock()
    pin = c.instant("pin")
    cm, p = start(c, pin, c.case["ticking"])
    total, ok = 0, True
    lost = 0
    for i in range(c.case["n"]):
        d = c.int(f"d{i}", -2 * 10 ** 20, 2 * 10 ** 20)
        before = len(c.clock())
        out = c.run(lambda: c.call(p.shift, nanoseconds=d))
        if not out.ok:
            c.fail_types(out, RANGE_ERR, "shift")
            return stop(c, cm)
        total = total + d
        if c.case["ticking"]:
            # time that passes inside shift() itself
            lost = lost + (c.clock()[-1] - c.clock()[before])
    m = c.view(pin)[0] + total
    if c.case["ticking"]:
        read_now(c, lambda: m + elapsed(c, 0) - lost, "now after the shifts")
    else:
        read_now(c, lambda: m, "now after the shifts")
    stop(c, cm)
