"""Symbolic values and path state of the VC generator.

Integers are kept in a linear normal form over *atoms* (a polynomial normal
form once products occur), every atom is one z3 integer term.  All state lives
in the current `Path`; a path is re-executed from the start for every decision
prefix, so nothing here survives from one path to the next.
"""
from __future__ import annotations
import time
from fractions import Fraction
from math import gcd
import z3

INF = float("inf")


class EngineSignal(BaseException):
    """Never caught by the code under verification (not an Exception)."""


class Infeasible(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


class Budget(EngineSignal):
    pass


class Excluded(EngineSignal):
    """The path entered a region the contract declares out of scope."""


P: "Path" = None  # current path


def cur():
    return P


def set_path(p):
    global P
    P = p


class Atom:
    __slots__ = ("id", "z", "lo", "hi", "factors", "name", "uid")

    def __init__(self, id, z, lo, hi, name, factors=None):
        self.id, self.z, self.lo, self.hi, self.name = id, z, lo, hi, name
        self.factors = factors
        self.uid = z.get_id()
        KEEP[self.uid] = z


# z3 terms are shared between the paths of a job (KEEP: the atoms' terms stay
# alive, so that their ids keep naming them)
KEEP, TERMS, VARS = {}, {}, {}


def clear_terms():
    KEEP.clear()
    TERMS.clear()
    VARS.clear()


def int_var(name):
    z = VARS.get(name)
    if z is None:
        z = VARS[name] = z3.Int(name)
    return z


_ASSERT = z3.z3core.Z3_solver_assert.__defaults__[0].f


class Stats:
    def __init__(self):
        self.z3_checks = 0
        self.z3_time = 0.0
        self.paths = 0
        self.forks = 0


STATS = Stats()


class Path:
    FEAS_TIMEOUT = 3000
    PROVE_TIMEOUT = 15000

    def __init__(self, prefix=(), check_forks=True):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []  # alternative prefixes discovered on this path
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", self.FEAS_TIMEOUT)
        self.atoms = []
        self.by_key = {}
        self.bounds = {}
        self.facts = {}
        self._asserted = []
        self._lazy = []     # facts not yet given to the solver
        self.exact = []  # thunks/exprs: exact definitions, only used on demand
        self.exact_keys = set()
        self.hooks = {}  # model-private registries (calendar, zones, ...)
        self.funcs = {}
        self.notes = []
        self.deadline = None
        self.nfork = 0
        self.inputs = []  # (name, kind, symbolic value)

    # ---- atoms ---------------------------------------------------------
    def new_atom(self, key, zexpr, lo=-INF, hi=INF, name=None, factors=None):
        a = self.by_key.get(key)
        if a is not None:
            return a, False
        a = Atom(len(self.atoms), zexpr, lo, hi, name or str(key), factors)
        self.atoms.append(a)
        self.by_key[key] = a
        if lo > -INF or hi < INF:
            self.add((a, lo, hi))
        return a, True

    def var(self, name, lo=-INF, hi=INF):
        a, _ = self.new_atom(("var", name), int_var(name), lo, hi, name)
        return SymInt(((a.id, 1),), 0)

    def fresh(self, name, lo=-INF, hi=INF):
        return self.var(f"{name}!{len(self.atoms)}", lo, hi)

    def func(self, name, arity):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = z3.Function(name, *([z3.IntSort()] * (arity + 1)))
        return f

    def uf(self, name, args, lo=-INF, hi=INF):
        """Application of an uninterpreted function: returns (SymInt, is_new)."""
        keys = tuple(lin_key(a) for a in args)
        key = ("uf", name) + keys
        a = self.by_key.get(key)
        if a is not None:
            return SymInt(((a.id, 1),), 0), False
        f = self.func(name, len(args))
        a, _ = self.new_atom(key, f(*[to_z3(x) for x in args]), lo, hi, name)
        return SymInt(((a.id, 1),), 0), True

    # ---- facts ---------------------------------------------------------
    def add(self, fact):
        """A z3 formula, a SymBool or (atom, lo, hi)."""
        self._lazy.append(fact)

    def flush(self):
        out, s = self._asserted, self.solver
        ctx, sol = s.ctx.ref(), s.solver
        for f in self._lazy:
            if f.__class__ is tuple:
                a, lo, hi = f
                key = ("in", a.uid, lo, hi)
                es = TERMS.get(key)
                if es is None:
                    es = TERMS[key] = ([a.z >= lo] if lo > -INF else []) + (
                        [a.z <= hi] if hi < INF else [])
            elif f.__class__ is SymBool:
                es = [f.z()]
            else:
                es = [f]
            for e in es:
                _ASSERT(ctx, sol, e.ast)
            out += es
        self._lazy.clear()

    @property
    def asserted(self):
        self.flush()
        return self._asserted

    def assume_sb(self, b):
        """Assert a SymBool/bool as a path fact (no feasibility check)."""
        if b is True:
            return
        if b is False:
            raise Infeasible()
        k = b.kind
        if k == "and":
            for x in b.args:
                self.assume_sb(x)
            return
        v = self.lookup(b)
        if v is True:
            return
        if v is False:
            raise Infeasible()
        self.add(b)
        self.facts[b.key()] = True
        if k in ("le", "eq"):
            self.refine(b)

    def refine(self, b):
        co, c = b.args
        sign = 1
        if co[0][1] < 0:
            co = tuple((i, -v) for i, v in co)
            sign = -1
        lo, hi = self.bounds.get(co, (-INF, INF))
        if b.kind == "eq":
            v = -c if sign == 1 else c
            lo, hi = max(lo, v), min(hi, v)
        elif sign == 1:  # co + c <= 0
            hi = min(hi, -c)
        else:  # -co + c <= 0
            lo = max(lo, c)
        self.bounds[co] = (lo, hi)
        if len(co) == 1 and co[0][1] == 1:
            a = self.atoms[co[0][0]]
            a.lo, a.hi = max(a.lo, lo), min(a.hi, hi)

    def interval(self, co, k):
        if not co:
            return k, k
        lo = hi = 0
        for i, c in co:
            a = self.atoms[i]
            if c > 0:
                lo += c * a.lo if a.lo != -INF else -INF
                hi += c * a.hi if a.hi != INF else INF
            else:
                lo += c * a.hi if a.hi != INF else -INF
                hi += c * a.lo if a.lo != -INF else INF
        if self.bounds and len(co) > 1 or True:
            if co[0][1] > 0:
                b = self.bounds.get(co)
                if b:
                    lo, hi = max(lo, b[0]), min(hi, b[1])
            else:
                b = self.bounds.get(tuple((i, -v) for i, v in co))
                if b:
                    lo, hi = max(lo, -b[1]), min(hi, -b[0])
        return lo + k, hi + k

    def set_bounds(self, co, lo, hi):
        if not co:
            return
        if co[0][1] < 0:
            co = tuple((i, -v) for i, v in co)
            lo, hi = -hi, -lo
        l, h = self.bounds.get(co, (-INF, INF))
        self.bounds[co] = (max(l, lo), min(h, hi))

    def lookup(self, b):
        """Is b already known (syntactically) on this path?"""
        v = self.facts.get(b.key())
        if v is not None:
            return v
        n = b.negated()
        if n.__class__ is SymBool:
            v = self.facts.get(n.key())
            if v is not None:
                return not v
        return None

    # ---- solver --------------------------------------------------------
    def check(self, *extra, timeout=None):
        self.tick()
        t = time.perf_counter()
        self.flush()
        s = self.solver
        if timeout:
            s.set("timeout", timeout)
        s.push()
        try:
            for e in extra:
                s.add(e)
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        finally:
            s.pop()
            if timeout:
                s.set("timeout", self.FEAS_TIMEOUT)
            STATS.z3_checks += 1
            STATS.z3_time += time.perf_counter() - t
        return r

    def tick(self):
        if self.deadline and time.monotonic() > self.deadline:
            raise Budget("time")

    def decide(self, b):
        """Branch on a SymBool."""
        v = self.lookup(b)
        if v is not None:
            return v
        pos = len(self.taken)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            zb = b.z()
            t = self.check(zb)
            if t == z3.unsat:
                v = False
            else:
                f = self.check(z3.Not(zb))
                if f == z3.unsat:
                    v = True
                else:
                    v = True
                    self.pending.append(self.taken + [False])
                    STATS.forks += 1
        self.taken.append(v)
        self.tick()
        if v:
            self.assume_sb(b)
        else:
            n = b.negated()
            if n.__class__ is SymBool:
                self.add(n)
                self.facts[b.key()] = False
                self.facts[n.key()] = True
                if n.kind in ("le", "eq"):
                    self.refine(n)
                elif n.kind == "and":
                    for x in n.args:
                        if x.__class__ is SymBool:
                            self.facts.setdefault(x.key(), True)
                            if x.kind in ("le", "eq"):
                                self.refine(x)
        return v

    def choose(self, n, label=""):
        """Enumerate n alternatives (no solver involved)."""
        if n == 1:
            return 0
        pos = len(self.taken)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            for i in range(1, n):
                self.pending.append(self.taken + [i])
        self.taken.append(v)
        return v

    # ---- exact definitions (added lazily) --------------------------------
    def infeasible_exactly(self):
        """No execution follows this path once the calendar is fully defined."""
        s = z3.Solver()
        s.set("timeout", self.PROVE_TIMEOUT)
        s.add(*self.asserted, *self.exact_exprs())
        return s.check() == z3.unsat

    def exact_exprs(self):
        out = []
        i = 0
        while i < len(self.exact):
            out.extend(self.exact[i]())
            i += 1
        return out


# ======================================================================
# linear integers
# ======================================================================
def lin_key(x):
    if x.__class__ is SymInt:
        return (x.co, x.k)
    if x.__class__ is SymBool:
        x = x.as_int()
        return lin_key(x)
    return ((), int(x))


def to_z3(x):
    c = x.__class__
    if c is SymInt:
        return x.z()
    if c is SymBool:
        return to_z3(x.as_int())
    return z3.IntVal(int(x))


def mk(co, k):
    """From a dict of coefficients to SymInt or int."""
    t = tuple(sorted((i, c) for i, c in co.items() if c))
    if not t:
        return k
    if len(t) == 1 and t[0][1] == 1:
        a = P.atoms[t[0][0]]
        if a.lo == a.hi:
            return int(a.lo) + k
    return SymInt(t, k)


def parts(x):
    """(co tuple, k) of an int-like, or None."""
    c = x.__class__
    if c is SymInt:
        return x.co, x.k
    if c is int or c is bool:
        return (), int(x)
    if c is SymBool:
        x = x.as_int()
        return parts(x)
    if isinstance(x, int):
        return (), int(x)
    return None


def lin_add(a, b, sb=1):
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return None
    d = dict(pa[0])
    for i, c in pb[0]:
        d[i] = d.get(i, 0) + sb * c
    return mk(d, pa[1] + sb * pb[1])


def lin_scale(a, n):
    if n == 0:
        return 0
    co, k = parts(a)
    return mk({i: c * n for i, c in co}, k * n)


def lin_mul(a, b):
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return None
    if not pa[0]:
        return lin_scale(b, pa[1])
    if not pb[0]:
        return lin_scale(a, pb[1])
    d = {}
    for i, c in pa[0]:
        d[i] = d.get(i, 0) + c * pb[1]
    for j, c in pb[0]:
        d[j] = d.get(j, 0) + c * pa[1]
    for i, c in pa[0]:
        for j, e in pb[0]:
            m = mono(i, j)
            d[m] = d.get(m, 0) + c * e
    return mk(d, pa[1] * pb[1])


def mono(i, j):
    fi = P.atoms[i].factors or (i,)
    fj = P.atoms[j].factors or (j,)
    f = tuple(sorted(fi + fj))
    key = ("mul", f)
    a = P.by_key.get(key)
    if a is None:
        z = z3.Product(*[P.atoms[x].z for x in f])
        lo, hi = -INF, INF
        bs = [(P.atoms[x].lo, P.atoms[x].hi) for x in f]
        if all(l > -INF and h < INF for l, h in bs):
            lo, hi = 1, 1
            for l, h in bs:
                c = [lo * l, lo * h, hi * l, hi * h]
                lo, hi = min(c), max(c)
        a, _ = P.new_atom(key, z, lo, hi, "mul", f)
    return a.id


def lin_divmod_const(a, c):
    """Floor division by a non-zero integer constant."""
    if c < 0:
        q, r = lin_divmod_const(lin_scale(a, -1), -c)
        return q, lin_scale(r, -1)
    co, k = parts(a)
    if not co:
        return divmod(k, c)
    if c == 1:
        return a, 0
    lo, hi = P.interval(co, k)
    if lo != -INF and hi != INF and lo // c == hi // c:
        q = int(lo // c)
        return q, lin_add(a, -q * c)
    qd, rd = {}, {}
    for i, v in co:
        if v % c == 0:
            qd[i] = v // c
        else:
            rd[i] = v
    kq, kr = divmod(k, c)
    q0 = mk(qd, kq)
    r = mk(rd, kr)
    if not isinstance(r, SymInt):
        q1, r1 = divmod(r, c)
        return lin_add(q0, q1), r1
    lo, hi = P.interval(r.co, r.k)
    if lo != -INF and hi != INF and lo // c == hi // c:
        q1 = int(lo // c)
        return lin_add(q0, q1), lin_add(r, -q1 * c)
    # scale down by common factor: (g*x + j) // (g*c') == x' // c' when 0<=j<g
    g = c
    for _, v in r.co:
        g = gcd(g, v)
    if g > 1:
        rr = SymInt(tuple((i, v // g) for i, v in r.co), r.k // g)
        q1 = _div_atom(rr, c // g)
    else:
        q1 = _div_atom(r, c)
    rem = lin_add(r, lin_scale(q1, c), -1)
    if isinstance(rem, SymInt):
        # bounds of rem as a combination
        P.set_bounds(rem.co, 0 - rem.k, c - 1 - rem.k)
    return lin_add(q0, q1), rem


def _div_atom(r, c):
    key = ("div", r.co, r.k, c)
    a = P.by_key.get(key)
    if a is None:
        lo, hi = P.interval(r.co, r.k)
        z = z3.Int(f"div!{len(P.atoms)}")
        a, _ = P.new_atom(
            key, z,
            lo // c if lo != -INF else -INF,
            hi // c if hi != INF else INF, "div")
        zr = r.z()
        P.add(zr - c * z >= 0)
        P.add(zr - c * z <= c - 1)
    return mk({a.id: 1}, 0)


def sym_floordivmod(a, b):
    pb = parts(b)
    if not pb[0]:
        if pb[1] == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return lin_divmod_const(a, pb[1])
    if le_zero_eq(b):
        raise ZeroDivisionError("integer division or modulo by zero")
    pos = bool(b > 0)
    key = ("divmod", lin_key(a), lin_key(b))
    qa = P.by_key.get(key + ("q",))
    if qa is None:
        q = z3.Int(f"q!{len(P.atoms)}")
        qa, _ = P.new_atom(key + ("q",), q, name="q")
        r = z3.Int(f"r!{len(P.atoms)}")
        ra, _ = P.new_atom(key + ("r",), r, name="r")
        zb = to_z3(b)
        P.add(to_z3(a) == q * zb + r)
        if pos:
            P.add(z3.And(r >= 0, r < zb))
        else:
            P.add(z3.And(r <= 0, r > zb))
    ra = P.by_key[key + ("r",)]
    return SymInt(((qa.id, 1),), 0), SymInt(((ra.id, 1),), 0)


def le_zero_eq(b):
    return bool(eq0(b))


def mk_le(x):
    """x <= 0"""
    p = parts(x)
    co, k = p
    if not co:
        return k <= 0
    g = 0
    for _, c in co:
        g = gcd(g, c)
    if g > 1:
        co = tuple((i, c // g) for i, c in co)
        k = -((-k) // g)
    lo, hi = P.interval(co, k)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    return SymBool("le", (co, k))


def eq0(x):
    co, k = parts(x)
    if not co:
        return k == 0
    g = 0
    for _, c in co:
        g = gcd(g, c)
    if k % g:
        return False
    if g > 1:
        co = tuple((i, c // g) for i, c in co)
        k //= g
    lo, hi = P.interval(co, k)
    if lo > 0 or hi < 0:
        return False
    if lo == hi == 0:
        return True
    if co[0][1] < 0:
        co = tuple((i, -c) for i, c in co)
        k = -k
    return SymBool("eq", (co, k))


_INT_MISSING = ()


class SymInt:
    __slots__ = ("co", "k")

    def __init__(self, co, k):
        self.co, self.k = co, k

    def z(self):
        key = tuple([(P.atoms[i].uid, c) for i, c in self.co] + [self.k])
        r = TERMS.get(key)
        if r is None:
            ts = []
            for i, c in self.co:
                z = P.atoms[i].z
                ts.append(z if c == 1 else c * z)
            if self.k:
                ts.append(z3.IntVal(self.k))
            r = TERMS[key] = ts[0] if len(ts) == 1 else z3.Sum(*ts)
        return r

    # arithmetic
    def __add__(self, o):
        if isinstance(o, SymFloat):
            return NotImplemented
        if o.__class__ is float:
            return SymFloat.of(self) + o
        r = lin_add(self, o)
        return NotImplemented if r is None else r

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymFloat):
            return NotImplemented
        if o.__class__ is float:
            return SymFloat.of(self) - o
        r = lin_add(self, o, -1)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        if o.__class__ is float:
            return SymFloat.of(o) - self
        if parts(o) is None:
            return NotImplemented
        return lin_add(o, self, -1)

    def __neg__(self):
        return lin_scale(self, -1)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, (str, bytes, tuple, list)):
            raise Unsupported("sequence repetition by symbolic int")
        if isinstance(o, SymFloat):
            return NotImplemented
        if o.__class__ is float:
            return SymFloat.of(self) * o
        r = lin_mul(self, o)
        return NotImplemented if r is None else r

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        if parts(o) is None:
            return NotImplemented
        return sym_floordivmod(self, o)[0]

    def __mod__(self, o):
        if parts(o) is None:
            return NotImplemented
        return sym_floordivmod(self, o)[1]

    def __divmod__(self, o):
        if parts(o) is None:
            return NotImplemented
        return sym_floordivmod(self, o)

    def __rfloordiv__(self, o):
        if parts(o) is None:
            return NotImplemented
        return sym_floordivmod(o, self)[0]

    def __rmod__(self, o):
        if parts(o) is None:
            return NotImplemented
        return sym_floordivmod(o, self)[1]

    def __rdivmod__(self, o):
        if parts(o) is None:
            return NotImplemented
        return sym_floordivmod(o, self)

    def __truediv__(self, o):
        if parts(o) is None and not isinstance(o, (float, SymFloat)):
            return NotImplemented
        r = SymFloat.of(self) / o
        if parts(o) is not None:
            r.cr = (self, o)      # int / int is correctly rounded in CPython
        return r

    def __rtruediv__(self, o):
        if parts(o) is None and not isinstance(o, (float, SymFloat)):
            return NotImplemented
        r = SymFloat.of(o) / self
        if parts(o) is not None:
            r.cr = (o, self)
        return r

    def __pow__(self, o):
        raise Unsupported("pow")

    def __and__(self, o):
        raise Unsupported("bitand")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("shift")

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported("shift")

    # comparison
    def __lt__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(self) < o
        d = lin_add(self, o, -1)
        return NotImplemented if d is None else mk_le(lin_add(d, 1))

    def __le__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(self) <= o
        d = lin_add(self, o, -1)
        return NotImplemented if d is None else mk_le(d)

    def __gt__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(self) > o
        d = lin_add(o, self, -1) if parts(o) is not None else None
        return NotImplemented if d is None else mk_le(lin_add(d, 1))

    def __ge__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(self) >= o
        d = lin_add(o, self, -1) if parts(o) is not None else None
        return NotImplemented if d is None else mk_le(d)

    def __eq__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(self) == o
        if parts(o) is None:
            return NotImplemented
        return eq0(lin_add(self, o, -1))

    def __ne__(self, o):
        e = self.__eq__(o)
        return NotImplemented if e is NotImplemented else sb_not(e)

    def __bool__(self):
        return bool(sb_not(eq0(self)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic int outside a modelled context")

    def __index__(self):
        v = self.concrete()
        if v is None:
            raise Unsupported("symbolic int used as an index")
        return v

    def __int__(self):
        v = self.concrete()
        if v is None:
            raise Unsupported("int() of a symbolic int by C code")
        return v

    def concrete(self):
        lo, hi = P.interval(self.co, self.k)
        return int(lo) if lo == hi else None

    def __repr__(self):
        return "Sym(" + " + ".join(
            f"{c}*{P.atoms[i].name}" for i, c in self.co) + f" + {self.k})"

    def __format__(self, spec):
        raise Unsupported("format of a symbolic int by C code")

    def bit_length(self):
        raise Unsupported("bit_length")

    def conjugate(self):
        return self

    @property
    def numerator(self):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or name in _INT_MISSING:
            raise AttributeError(name)
        if hasattr(int, name):
            raise Unsupported(f"int.{name}")
        raise AttributeError(f"'int' object has no attribute {name!r}")

    def _nosup(self, *a):
        raise Unsupported("operator on a symbolic int")

    __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = _nosup
    __rlshift__ = __rrshift__ = __rpow__ = __invert__ = _nosup

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def is_integer(self):
        return True


# ======================================================================
# booleans
# ======================================================================
class SymBool:
    __slots__ = ("kind", "args", "_z", "_int")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        self._z = None
        self._int = None

    def key(self):
        if self.kind in ("le", "eq"):
            return (self.kind,) + self.args
        if self.kind == "z3":
            return ("z3", self.args[0].get_id())
        return (self.kind,) + tuple(a.key() for a in self.args)

    def z(self):
        if self._z is None:
            k = self.kind
            if k == "le" or k == "eq":
                co, c = self.args
                key = (k, c) + tuple([(P.atoms[i].uid, v) for i, v in co])
                self._z = TERMS.get(key)
                if self._z is None:
                    t = SymInt(co, 0).z()
                    self._z = TERMS[key] = t <= -c if k == "le" else t == -c
            elif k == "z3":
                self._z = self.args[0]
            elif k == "and":
                self._z = z3.And(*[a.z() for a in self.args])
            elif k == "or":
                self._z = z3.Or(*[a.z() for a in self.args])
            elif k == "not":
                self._z = z3.Not(self.args[0].z())
            else:
                raise AssertionError(k)
        return self._z

    def negated(self):
        k = self.kind
        if k == "le":
            co, c = self.args
            return mk_le(mk({i: -v for i, v in co}, 1 - c))
        if k == "not":
            return self.args[0]
        if k == "and":
            return sb_or(*[sb_not(a) for a in self.args])
        if k == "or":
            return sb_and(*[sb_not(a) for a in self.args])
        return SymBool("not", (self,))

    def __bool__(self):
        return P.decide(self)

    def as_int(self):
        if self._int is None:
            v = P.lookup(self)
            if v is not None:
                return int(v)
            key = ("b2i", self.key())
            a = P.by_key.get(key)
            if a is None:
                z = z3.Int(f"b!{len(P.atoms)}")
                a, _ = P.new_atom(key, z, 0, 1, "b")
                P.add((z == 1) == self.z())
            self._int = SymInt(((a.id, 1),), 0)
        return self._int

    def __and__(self, o):
        return sb_and(self, o) if isinstance(o, (bool, SymBool)) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return sb_or(self, o) if isinstance(o, (bool, SymBool)) else NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return sb_not(self)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return sb_or(sb_and(self, o), sb_and(sb_not(self), sb_not(o)))
        if isinstance(o, bool):
            return self if o else sb_not(self)
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        e = self.__eq__(o)
        return e if e is NotImplemented else sb_not(e)

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return self.as_int() * o
        return o if bool(self) else o[:0]  # sequence repetition

    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({self.z()})"


for _n in ("add", "radd", "sub", "rsub", "floordiv", "mod", "divmod", "rdivmod",
           "truediv", "rtruediv", "lt", "le", "gt", "ge", "neg", "abs"):
    def _mkf(n):
        def f(self, *a):
            v = self.as_int()
            return getattr(v, f"__{n}__")(*a)
        return f
    setattr(SymBool, f"__{_n}__", _mkf(_n))


def sb_not(b):
    if b.__class__ is SymBool:
        return b.negated()
    return not b


def sb_and(*bs):
    out = []
    for b in bs:
        if b.__class__ is SymBool:
            if b.kind == "and":
                out.extend(b.args)
            else:
                out.append(b)
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool("and", tuple(out))


def sb_or(*bs):
    out = []
    for b in bs:
        if b.__class__ is SymBool:
            if b.kind == "or":
                out.extend(b.args)
            else:
                out.append(b)
        elif b:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool("or", tuple(out))


def sb_implies(a, b):
    return sb_or(sb_not(a), b)


def ite(c, a, b):
    """Integer if-then-else without forking."""
    if c.__class__ is not SymBool:
        return a if c else b
    v = P.lookup(c)
    if v is not None:
        return a if v else b
    if lin_key(a) == lin_key(b):
        return a
    key = ("ite", c.key(), lin_key(a), lin_key(b))
    at = P.by_key.get(key)
    if at is None:
        pa, pb = parts(a), parts(b)
        la, ha = P.interval(*pa)
        lb, hb = P.interval(*pb)
        z = z3.Int(f"ite!{len(P.atoms)}")
        at, _ = P.new_atom(key, z, min(la, lb), max(ha, hb), "ite")
        P.add(z == z3.If(c.z(), to_z3(a), to_z3(b)))
    return mk({at.id: 1}, 0)


def smax(a, b):
    return ite(a >= b, a, b)


def smin(a, b):
    return ite(a <= b, a, b)


def is_sym(x):
    return x.__class__ in (SymInt, SymBool, SymFloat)


# ======================================================================
# floats:  value = num/den (1 + e),  |e| <= rel, plus |abs err| bound
# ======================================================================
_U = Fraction(1, 2 ** 53)


class SymFloat:
    """A double known to lie within `err` of the rational num/den.

    err == 0 means the double is exactly that rational number.
    den may be a positive int or a symbolic positive/negative int (then the
    float is only usable as an opaque result).
    """
    __slots__ = ("num", "den", "err", "cr", "floor_of")

    def __init__(self, num, den=1, err=Fraction(0)):
        self.num, self.den, self.err = num, den, err
        self.floor_of = None
        self.cr = None      # (a, b): exactly the correctly rounded quotient a / b

    @staticmethod
    def of(x):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, float):
            f = Fraction(x)
            return SymFloat(f.numerator, f.denominator)
        p = parts(x)
        lo, hi = P.interval(*p)
        m = max(abs(lo), abs(hi))
        if m <= 2 ** 53:
            return SymFloat(x, 1)
        if m == INF:
            return SymFloat(x, 1, None)
        return SymFloat(x, 1, _U * int(m))

    def mag(self):
        p = parts(self.num)
        lo, hi = P.interval(*p)
        m = max(abs(lo), abs(hi))
        if m == INF or not isinstance(self.den, int):
            return None
        return Fraction(int(m), abs(self.den))

    def _round(self, num, den, err, exact_dyadic=False):
        """Apply one rounding to the rational num/den with incoming err."""
        r = SymFloat(num, den, err)
        m = r.mag()
        if err == 0 and den == 1:
            if m is not None and m <= 2 ** 53:
                return r
        if err == 0:
            r.cr = (num, den)     # one rounding of an exact rational
        if m is None or err is None:
            r.err = None
            return r
        r.err = err + _U * (m + err)
        return r

    def __add__(self, o):
        if not isinstance(o, (SymFloat, float)) and parts(o) is None:
            return NotImplemented
        o = SymFloat.of(o)
        if not (isinstance(self.den, int) and isinstance(o.den, int)):
            raise Unsupported("float add with symbolic denominator")
        d = self.den * o.den // gcd(self.den, o.den)
        n = self.num * (d // self.den) + o.num * (d // o.den)
        e = None if self.err is None or o.err is None else self.err + o.err
        return self._round(n, d, e)

    __radd__ = __add__

    def __neg__(self):
        return SymFloat(-self.num, self.den, self.err)

    def __sub__(self, o):
        if not isinstance(o, (SymFloat, float)) and parts(o) is None:
            return NotImplemented
        if getattr(o, "floor_of", None) is self:
            return divmod(self, 1)[1]
        return self + (-SymFloat.of(o))

    def __rsub__(self, o):
        return SymFloat.of(o) - self

    def __mul__(self, o):
        if not isinstance(o, (SymFloat, float)) and parts(o) is None:
            return NotImplemented
        o = SymFloat.of(o)
        ms, mo = self.mag(), o.mag()
        if self.err == 0 and o.err == 0:
            e = Fraction(0)
        elif ms is None or mo is None or self.err is None or o.err is None:
            e = None
        else:
            e = self.err * mo + o.err * ms + self.err * o.err
        num = self.num * o.num
        den = self.den * o.den
        if isinstance(den, int) and isinstance(num, SymInt) and den > 1:
            g = den
            for _, c in num.co:
                g = gcd(g, c)
            g = gcd(g, num.k)
            if g > 1:
                num = SymInt(tuple((i, c // g) for i, c in num.co), num.k // g)
                den //= g
        return self._round(num, den, e)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, (SymFloat, float)) and parts(o) is None:
            return NotImplemented
        o = SymFloat.of(o)
        if o.den == 1 and not is_sym(o.num) and o.err == 0 or (
                not is_sym(o.num) and o.err == 0):
            n = o.num
            if n == 0:
                raise ZeroDivisionError("float division by zero")
            num, den = self.num * o.den, self.den * n
            if isinstance(den, int) and den < 0:
                num, den = -num, -den
            if isinstance(num, int) and isinstance(den, int):
                f = Fraction(num, den)
                num, den = f.numerator, f.denominator
            e = None if self.err is None else self.err / Fraction(abs(n), o.den)
            return self._round(num, den, e)
        if bool(eq0(o.num)):
            raise ZeroDivisionError("float division by zero")
        return SymFloat(("quot", self, o), ("sym",), None)

    def __rtruediv__(self, o):
        return SymFloat.of(o) / self

    def __divmod__(self, o):
        if o == 1 and self.err == 0 and isinstance(self.den, int):
            # floor and fraction of an exact rational: fmod is exact; the final
            # addition of the modulus (negative values) may round, up to 1.0
            q, r = divmod(self.num, self.den)
            exact = self.den <= 2 ** 53 or bool(self.num >= 0)
            if is_sym(r):
                v = P.fresh("fract", 0, self.den - 1)
                P.add(v.z() == r.z())
                r = v
            return SymFloat(q, 1), SymFloat(r, self.den, Fraction(0) if exact else _U)
        raise Unsupported("float divmod")

    def floor(self):
        if self.err != 0 or not isinstance(self.den, int):
            raise Unsupported("floor of an inexact float")
        r = SymFloat(self.num // self.den, 1)
        r.floor_of = self
        return r

    def _cmp(self, o):
        o = SymFloat.of(o)
        if self.err or o.err or self.err is None or o.err is None:
            raise Unsupported("comparison of inexact floats")
        return self.num * o.den, o.num * self.den

    def __eq__(self, o):
        if not isinstance(o, (SymFloat, float)) and parts(o) is None:
            return NotImplemented
        a, b = self._cmp(o)
        return a == b

    def __ne__(self, o):
        return sb_not(self == o)

    def __lt__(self, o):
        a, b = self._cmp(o)
        return a < b

    def __le__(self, o):
        a, b = self._cmp(o)
        return a <= b

    def __gt__(self, o):
        a, b = self._cmp(o)
        return a > b

    def __ge__(self, o):
        a, b = self._cmp(o)
        return a >= b

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __abs__(self):
        return self if self >= 0 else -self

    def trunc(self):
        """int(x)"""
        if self.err is None or not isinstance(self.den, int):
            raise Unsupported("int() of a float without error bound")
        if self.err == 0:
            if self.den == 1:
                return self.num
            if self.num >= 0:
                return self.num // self.den
            return -((-self.num) // self.den)
        if self.cr is not None and isinstance(self.cr[1], int) and self.cr[1] > 0:
            # the nearest double of n/d lies strictly between the same integers
            # as n/d itself (or is that integer) while |n| < 2**53
            n, d = self.cr
            lo, hi = P.interval(*parts(n))
            if max(abs(lo), abs(hi)) < 2 ** 53:
                if n >= 0:
                    return n // d
                return -((-n) // d)
            # |x - n/d| <= |n/d| / 2**53
            t = P.fresh("trunc")
            zt, zn, B = t.z(), to_z3(n), 2 ** 53
            P.add(z3.If(zn >= 0,
                        z3.And(zt >= 0, zt * (d * B) <= zn * (B + 1),
                               zt * (d * B) > zn * (B - 1) - d * B),
                        z3.And(zt <= 0, zt * (d * B) >= zn * (B + 1),
                               zt * (d * B) < zn * (B - 1) + d * B)))
            # rounding is monotonic: between the nearest doubles of the ends of n's range
            if max(abs(lo), abs(hi)) < d * 2 ** 1000:
                P.add(z3.And(zt >= int(lo / d), zt <= int(hi / d)))
            P.notes.append("inexact float truncated")
            return t
        # |x - num/den| <= err, t = trunc(x)
        t = P.fresh("trunc")
        n, d = to_z3(self.num), self.den
        # scaled by den:  |t*den - num| < den + err*den
        E = self.err * d
        eu = -((-E.numerator) // E.denominator)  # ceil
        zt = t.z()
        P.add(z3.If(n - eu >= 0,
                    z3.And(zt * d <= n + eu, zt * d > n - eu - d),
                    z3.If(n + eu <= 0,
                          z3.And(zt * d >= n - eu, zt * d < n + eu + d),
                          z3.And(zt * d <= n + eu, zt * d >= n - eu))))
        P.notes.append("inexact float truncated")
        return t

    def __int__(self):
        raise Unsupported("int() of symbolic float by C code")

    def __repr__(self):
        return f"SymFloat({self.num}/{self.den} ± {self.err})"


def sym_int_of(x):
    """int(x) for symbolic x"""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymFloat):
        return x.trunc()
    raise Unsupported(f"int() of {type(x)}")
