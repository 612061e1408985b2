"""Specification of local time in a timezone, written over the offset functions
of the zone: offs(l) = (offset read with fold 0, with fold 1), uoff(u)."""
from engine.ctx import MIN_LS, MAX_LS, RANGE_ERR
from engine.models import MAXORD
G = 1_000_000_000
STRATEGIES = ["compatible", "earlier", "later", "raise"]


class Spec:
    """What interpreting a local time must give.

    must: the operation has to return (else it may raise a range error);
    kind: 'ok' | 'repeated' | 'skipped' | 'invalid'; (l, off): the result."""

    def __init__(self, kind, l=None, off=None, must=True):
        self.kind, self.l, self.off, self.must = kind, l, off, must


def u_ok(c, u):
    return c.between(MIN_LS, u, MAX_LS)


def both_ok(c, l, o0, o1):
    """Both readings of a skipped time are in range, as moments and as local times."""
    return c.and_(u_ok(c, l - o0), u_ok(c, l - o1), u_ok(c, l - o0 + o1), u_ok(c, l - o1 + o0))


def resolve(c, z, l, strat):
    """l: local second (in range); strat: a strategy name."""
    o0, o1 = z.offs(l)
    if o0 == o1:
        return Spec("ok", l, o0, u_ok(c, l - o0))
    if o0 > o1:                     # repeated
        if strat == "raise":
            return Spec("repeated", must=c.and_(u_ok(c, l - o0), u_ok(c, l - o1)))
        o = o1 if strat == "later" else o0
        return Spec("ok", l, o, u_ok(c, l - o))
    both = both_ok(c, l, o0, o1)
    if strat == "raise":            # skipped
        return Spec("skipped", must=both)
    if strat == "earlier":          # offset after the gap
        return Spec("ok", l - o1 + o0, o0, both)
    return Spec("ok", l - o0 + o1, o1, both)


def resolve_prev(c, z, l, prev):
    """Keep the offset `prev` where possible, 'compatible' otherwise."""
    o0, o1 = z.offs(l)
    if o0 == o1:
        return Spec("ok", l, o0, u_ok(c, l - o0))
    both = c.and_(u_ok(c, l - o0), u_ok(c, l - o1))
    if o0 > o1:
        return Spec("ok", l, c.ite(prev == o1, o1, o0), both)
    both = both_ok(c, l, o0, o1)
    # skipped: 'later' has the offset o1, 'earlier' the offset o0
    e = prev == o0
    return Spec("ok", c.ite(e, l - o1 + o0, l - o0 + o1), c.ite(e, o0, o1), both)


def resolve_any(c, z, l, strat, prev=None):
    if strat is None:
        return resolve_prev(c, z, l, prev)
    return resolve(c, z, l, strat)


def check_resolved(c, out, sp, ns, label, z=None, cls="ZonedDateTime", valid=True):
    """`out` is what interpreting local second sp.l with nanosecond ns must give."""
    W = c.W
    if out.ok:
        c.check(valid, f"{label}: returns only when the input is valid")
        if sp.kind in ("repeated", "skipped"):
            c.check(False, f"{label}: 'raise' raises for a {sp.kind} time")
            return False
        r = out.value
        c.is_a(r, cls)
        v = c.view(r)
        c.check(v[1] == sp.off, f"{label}: the offset of the chosen occurrence")
        c.check(v[0] == sp.l * G + ns, f"{label}: the local time of the chosen occurrence")
        if z is not None and cls == "ZonedDateTime":
            c.check(c.eqs(v[2], z.key), f"{label}: in the given timezone")
        c.invariant(r, label)
        return True
    err = {"repeated": W.RepeatedTime, "skipped": W.SkippedTime}
    if isinstance(out.exc, (W.RepeatedTime, W.SkippedTime)):
        c.check(sp.kind in err and isinstance(out.exc, err[sp.kind]),
                f"{label}: {type(out.exc).__name__} only with 'raise' and such a local time")
        return False
    c.fail_types(out, RANGE_ERR, label)
    c.check(c.not_(c.and_(sp.must, valid)), f"{label}: raises only when the result is out of range")
    return False


def strategy(c, case):
    """(value passed, or None when not passed; name or None)."""
    if case == "other":
        return c.other_str("strategy", STRATEGIES)
    return case
