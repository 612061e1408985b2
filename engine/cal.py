"""Proleptic Gregorian calendar: uninterpreted functions with definitional axioms.

k = 12*year + month - 1 is the month index.
DIM(k)  length of month k               DBM(k)  days before month k (ordinal - day)
YR/MO/DY(n): year, month, day of ordinal n.
"""
from __future__ import annotations
import calendar, datetime as _dt
import z3
from . import sym
from .sym import SymInt, parts, ite, sb_and, sb_or, sb_not, sb_implies, lin_key, to_z3, Unsupported

MAXORD = _dt.date.max.toordinal()
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim_py(y, m):
    return 29 if m == 2 and leap(y) else MDAYS[m - 1]


def dbm_py(y, m):
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + CUM[m - 1] + (1 if m > 2 and leap(y) else 0)


def leap_sb(y):
    return sb_and((y % 4) == 0, sb_or(sb_not((y % 100) == 0), (y % 400) == 0))


def _is_int(*xs):
    return all(isinstance(x, int) for x in xs)


def kidx(y, m):
    return y * 12 + m - 1


def days_in_month(y, m):
    """Length of month m (1..12) of year y; y, m already known in range."""
    if _is_int(y, m):
        return dim_py(y, m)
    if isinstance(m, int) and m != 2:
        return MDAYS[m - 1]
    return DIM(y, m)


def DIM(y, m):
    P = sym.P
    k = kidx(y, m)
    if isinstance(k, int):
        return dim_py(k // 12, k % 12 + 1)
    v, new = P.uf("DIM", [k], 28, 31)
    if new:
        def exact():
            # y, m recovered from k by division, so the definition does not
            # depend on how k was written
            zk = to_z3(k)
            y_, m_ = zk / 12, zk % 12 + 1
            lp = z3.And(y_ % 4 == 0, z3.Or(y_ % 100 != 0, y_ % 400 == 0))
            d = z3.If(m_ == 2, z3.If(lp, 29, 28),
                      z3.If(z3.Or(m_ == 4, m_ == 6, m_ == 9, m_ == 11), 30, 31))
            return [v.z() == d]
        P.exact.append(exact)
    return v


def DBM(y, m):
    """Days before the first of month (ordinal of day 0)."""
    P = sym.P
    k = kidx(y, m)
    if isinstance(k, int):
        return dbm_py(k // 12, k % 12 + 1)
    v, new = P.uf("DBM", [k], -400, MAXORD + 400)
    if new:
        dim = DIM(y, m)
        zk, zv = to_z3(k), v.z()
        # coarse position of the month
        P.add(zv >= 30 * (zk - 12) + (zk - 12) / 3 - 1)
        P.add(zv <= 31 * (zk - 12))
        ks = P.hooks.setdefault("dbm", [])
        for k2, v2, d2 in ks:
            z2, w2 = to_z3(k2), to_z3(v2)
            P.add(z3.Implies(zk < z2, zv + to_z3(dim) <= w2))
            P.add(z3.Implies(z2 < zk, w2 + to_z3(d2) <= zv))
            P.add(z3.Implies(zk + 1 == z2, zv + to_z3(dim) == w2))
            P.add(z3.Implies(z2 + 1 == zk, w2 + to_z3(d2) == zv))
            P.add(z3.Implies(zk < z2, w2 - zv <= 31 * (z2 - zk)))
            P.add(z3.Implies(z2 < zk, zv - w2 <= 31 * (zk - z2)))
        ks.append((k, v, dim))

        def exact():
            y_, m_ = zk / 12, zk % 12 + 1
            p = y_ - 1
            lp = z3.And(y_ % 4 == 0, z3.Or(y_ % 100 != 0, y_ % 400 == 0))
            cum = z3.IntVal(CUM[11])
            for i in range(10, -1, -1):
                cum = z3.If(m_ == i + 1, CUM[i], cum)
            return [zv == p * 365 + p / 4 - p / 100 + p / 400 + cum
                    + z3.If(z3.And(m_ > 2, lp), 1, 0)]
        P.exact.append(exact)
    return v




def ord_of(y, m, d):
    """Ordinal of a valid date."""
    P = sym.P
    if _is_int(y, m, d):
        try:
            return _dt.date(y, m, d).toordinal()
        except ValueError:
            # no such day: only on a path the exact calendar rules out
            if P is not None and P.infeasible_exactly():
                raise sym.Infeasible()
            raise
    key = ("ord", lin_key(y), lin_key(m), lin_key(d))
    n = P.hooks.get(key)
    if n is not None:
        return n
    base = DBM(y, m)
    n = base + d
    P.hooks[key] = n
    if isinstance(n, SymInt):
        P.set_bounds(n.co, 1 - n.k, MAXORD - n.k)
        P.add(n.z() >= 1)
        P.add(n.z() <= MAXORD)
    # inverse functions agree
    for name, val in (("YR", y), ("MO", m), ("DY", d)):
        f = P.func(name, 1)
        P.add(f(to_z3(n)) == to_z3(val))
    P.hooks.setdefault("ymd", {})[lin_key(n)] = (y, m, d)
    return n


def ymd_of(n):
    """(y, m, d) of an ordinal known to be in 1..MAXORD."""
    if isinstance(n, int):
        x = _dt.date.fromordinal(n)
        return x.year, x.month, x.day
    P = sym.P
    reg = P.hooks.setdefault("ymd", {})
    r = reg.get(lin_key(n))
    if r is not None:
        return r
    y, _ = P.uf("YR", [n], 1, 9999)
    m, _ = P.uf("MO", [n], 1, 12)
    d, _ = P.uf("DY", [n], 1, 31)
    reg[lin_key(n)] = (y, m, d)
    base = DBM(y, m)
    P.add(to_z3(base) + to_z3(d) == to_z3(n))
    P.add(to_z3(d) <= to_z3(DIM(y, m)))
    P.set_bounds((base + d).co if isinstance(base + d, SymInt) else (), 1, MAXORD)
    return y, m, d


def weekday(n):
    """Monday == 0"""
    return (n + 6) % 7
