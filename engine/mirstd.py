"""The standard-library functions the crate calls, by contract.

Each entry states what the std documentation promises; none of it is taken
from the crate.
"""
from __future__ import annotations
import re
from . import sym
from .sym import SymInt, SymBool, Unsupported, ite, is_sym, sb_not, sb_and, sb_or
from .mir import (Agg, Cell, FnRef, Items, NONE, Ordv, Panic, Ref, Slice, UNIT, WIDTH, Bytes,
                  as_slice, compare, deref, err, last_seg, length, ok, some, tup, wrap, within,
                  eqv, tdiv, trem, angle_end, find_top, truthy)

INT = set(WIDTH)


def find(prog, plain, callee, atys, dest):
    """plain: the callee without turbofish; returns a Python callable or None."""
    m = re.match(r"core::num::<impl (\w+)>::(\w+)$", plain)
    if m:
        return num(m[1], m[2])
    m = re.match(r"std::option::Option::(\w+)$", plain)
    if m:
        return option(prog, m[1])
    m = re.match(r"std::result::Result::(\w+)$", plain)
    if m:
        return result(prog, m[1])
    m = re.match(r"core::slice::(?:<impl \[.*\]>|ascii::<impl \[u8\]>)::(\w+)$", plain)
    if m:
        return slices(m[1])
    if plain in ("core::bool::<impl bool>::then",):
        return lambda b, f: some(prog.apply(f, [])) if b else NONE
    if plain == "core::bool::<impl bool>::then_some":
        return lambda b, v: some(v) if b else NONE
    m = re.match(r"<([iu](?:\d+|size)) as std::cmp::Ord>::(min|max|clamp)$", plain)
    if m and m[2] == "clamp":
        return lambda v, lo, hi: lo if v < lo else hi if v > hi else v
    if m or plain in ("std::cmp::max", "std::cmp::min"):
        big = plain.endswith("max")

        def mm(a, b):
            if not isinstance(a, (int, SymInt)):
                raise Unsupported("max of " + type(a).__name__)
            return (sym.smax if big else sym.smin)(a, b) if is_sym(a) or is_sym(b) else \
                (max if big else min)(a, b)
        return mm
    if plain.startswith("core::panicking::"):
        def p(*a):
            raise Panic(str(a[0]) if a and isinstance(a[0], str) else plain)
        return p
    if plain == "std::ops::RangeInclusive::new":
        return lambda a, b: Agg("RangeInclusive", None, (a, b, False))
    if plain == "std::ops::RangeInclusive::contains":
        def rc(r, x):
            r, x = r.get(), x.get()
            return sb_and(r.f[0] <= x, x <= r.f[1])
        return rc
    if plain == "std::ops::Range::contains":
        def rc(r, x):
            r, x = r.get(), x.get()
            return sb_and(r.f[0] <= x, x < r.f[1])
        return rc
    if plain in ("std::hint::must_use", "std::convert::identity"):
        return lambda x: x
    if plain == "std::mem::replace":
        def rep(r, v):
            o = r.get()
            r.set(v)
            return o
        return rep
    if plain.startswith("<"):
        return trait(prog, plain, callee, atys, dest)
    ext = getattr(prog, "foreign", None)
    if ext is not None:
        return ext(prog, plain, callee, atys, dest)
    return None


def trait(prog, plain, callee, atys, dest):
    e = angle_end(plain, 0)
    inner, rest = plain[1:e - 1], plain[e:]
    k = find_top(inner, " as ")
    if k < 0:
        return None
    ty, tr = inner[:k], inner[k + 4:]
    full = tr
    tr = re.sub(r"<.*", "", tr).rsplit("::", 1)[-1]
    m = rest[2:]
    if tr == "Try" and m == "branch":
        def branch(v):
            if v.variant in ("Some", "Ok"):
                return Agg("std::ops::ControlFlow", "Continue", v.f)
            if v.variant == "None":
                return Agg("std::ops::ControlFlow", "Break", (NONE,))
            return Agg("std::ops::ControlFlow", "Break", (err(v.f[0]),))
        return branch
    if tr == "FromResidual":
        return lambda v: v
    if tr in ("Into", "From", "TryFrom", "TryInto"):
        arg = re.search(r"<(.*)>$", full)[1]
        src, dst = (ty, arg) if tr in ("Into", "TryInto") else (arg, ty)
        if src in INT | {"bool"} and dst in INT:
            if tr in ("Into", "From"):
                return lambda v: ite(v, 1, 0) if v.__class__ is SymBool else int(v) \
                    if v.__class__ is bool else v
            return lambda v: ok(v) if within(v, dst) else err(Agg("TryFromIntError", None, ()))
        m2 = re.match(r"\[u8; (\d+)\]$", dst)
        if m2 and src.startswith("&"):
            n = int(m2[1])

            def ti(v):
                s = as_slice(v)
                if s.n == n:
                    return ok(Agg("[]", None, [s.at(i) for i in range(n)]))
                return err(Agg("TryFromSliceError", None, ()))
            return ti
        if src == dst:
            return lambda v: v
    if tr in ("PartialEq", "Ord", "PartialOrd", "Eq"):
        return comparison(prog, ty, tr, m)
    if tr == "Neg" and m == "neg":
        return lambda v: wrap(-v, ty) if ty in INT else -v
    if tr in ("Sub", "Add", "Mul") and m in ("sub", "add", "mul"):
        base = ty.lstrip("&")
        if base in INT:
            op = {"sub": lambda a, b: a - b, "add": lambda a, b: a + b,
                  "mul": lambda a, b: a * b}[m]
            return lambda a, b: wrap(op(val(a), val(b)), base)
    if tr == "Index" and m == "index":
        return slice_index(full)
    if tr in ("IntoIterator",) and m == "into_iter":
        return into_iter
    if tr == "Iterator":
        if m == "next":
            def nxt(it):
                v = it.get()
                if v.__class__ is Agg and not v.tag.startswith(("iter:", "std::")):
                    k = f"<{last_seg(v.tag)} as Iterator>::next"
                    if k in prog.fns:
                        return prog.call_any(k, it)
                return iter_next(prog, it)
            return nxt
        if m in ("zip", "enumerate", "copied", "map", "rev", "chain"):
            return lambda it, *a: Agg("iter:" + m, None, (into_iter(it),) + tuple(
                into_iter(x) if m in ("zip", "chain") else x for x in a))
        if m == "collect":
            return lambda it: collect(prog, it)
    if tr in ("FnOnce", "FnMut", "Fn") and m in ("call_once", "call_mut", "call"):
        def fcall(f, args):
            return prog.apply(f, list(args.f))
        return fcall
    if tr == "Deref" and m == "deref":
        if ty in ("std::string::String", "std::vec::Vec<u8>") or ty.startswith("std::vec::Vec"):
            return lambda r: deref_string(r)
    if tr == "Clone" and m == "clone":
        return lambda r: r.get()
    ext = getattr(prog, "foreign", None)
    if ext is not None:
        return ext(prog, plain, callee, atys, dest)
    return None


def deref_string(r):
    v = r.get()
    f = getattr(v, "as_str", None)
    return f() if f else v


def val(x):
    return x.get() if x.__class__ is Ref else x


def structural_eq(a, b):
    if a.__class__ is Ref:
        a = a.get()
    if b.__class__ is Ref:
        b = b.get()
    if a.__class__ is Agg:
        if a.variant != b.variant:
            return False
        return sb_and(*[structural_eq(x, y) for x, y in zip(a.f, b.f)])
    if a.__class__ is Slice or b.__class__ is Slice:
        a, b = as_slice(a), as_slice(b)
        if not a.n == b.n:
            return False
        n = a.n if a.n.__class__ is int else b.n
        if n.__class__ is not int:
            raise Unsupported("comparison of unbounded slices")
        return sb_and(*[a.at(i) == b.at(i) for i in range(n)])
    if hasattr(a, "addr"):
        return a.addr() == b.addr()
    if a.__class__ is str or b.__class__ is str:
        return a == b
    if a.__class__ is Ordv:
        return a.v == b.v
    return eqv(a, b)


def comparison(prog, ty, tr, m):
    base = ty.lstrip("&")
    name = last_seg(base)
    key = f"<{name} as {{}}>::{{}}"

    def lookup(t, f):
        k = key.format(t, f)
        o = prog.overrides.get(k)
        if o is not None:
            return o
        b = prog.fns.get(k)
        return None if b is None else (lambda *a: prog.call_body(k, a))
    if m == "ne":
        f = lookup("PartialEq", "ne")
        if f:
            return f
        g = lookup("PartialEq", "eq")
        if g:
            return lambda a, b: sb_not(g(a, b))
        return lambda a, b: sb_not(structural_eq(a, b))
    if m == "eq":
        return lambda a, b: structural_eq(a, b)
    if m == "cmp" or m == "partial_cmp":
        if base in INT or base == "char":
            if m == "cmp":
                return lambda a, b: compare(val(a), val(b))
            return lambda a, b: some(compare(val(a), val(b)))
    if m in ("lt", "le", "gt", "ge"):
        g = lookup("PartialOrd", "partial_cmp")
        test = {"lt": lambda v: v < 0, "le": lambda v: v <= 0, "gt": lambda v: v > 0,
                "ge": lambda v: v >= 0}[m]
        if base in INT:
            return lambda a, b: test(compare(val(a), val(b)).v)
        if g:
            def rel(a, b):
                o = g(a, b)
                if o.variant == "None":
                    return False
                return test(o.f[0].v)
            return rel
    ext = getattr(prog, "foreign", None)
    return ext(prog, f"<{ty} as {tr}>::{m}", "", [], "") if ext else None


# ----------------------------------------------------------------------
def num(ty, f):
    lo, hi = WIDTH[ty] if ty in WIDTH else (0, 0)
    if f in ("checked_add", "checked_sub", "checked_mul"):
        op = {"checked_add": lambda a, b: a + b, "checked_sub": lambda a, b: a - b,
              "checked_mul": lambda a, b: a * b}[f]

        def chk(a, b):
            r = op(a, b)
            return some(r) if within(r, ty) else NONE
        return chk
    if f in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
        op = {"wrapping_add": lambda a, b: a + b, "wrapping_sub": lambda a, b: a - b,
              "wrapping_mul": lambda a, b: a * b}[f]
        return lambda a, b: wrap(op(a, b), ty)
    if f in ("saturating_add", "saturating_sub", "saturating_mul"):
        op = {"saturating_add": lambda a, b: a + b, "saturating_sub": lambda a, b: a - b,
              "saturating_mul": lambda a, b: a * b}[f]

        def sat(a, b):
            r = op(a, b)
            if r > hi:
                return hi
            if r < lo:
                return lo
            return r
        return sat
    if f == "div_euclid":
        return lambda a, b: euclid(a, b)[0]
    if f == "rem_euclid":
        return lambda a, b: euclid(a, b)[1]
    if f == "checked_neg":
        return lambda a: some(-a) if within(-a, ty) else NONE
    if f == "abs":
        return lambda a: wrap(ite(a < 0, -a, a) if is_sym(a) else abs(a), ty)
    if f == "unsigned_abs":
        return lambda a: ite(a < 0, -a, a) if is_sym(a) else abs(a)
    if f == "signum":
        return lambda a: ite(a < 0, -1, ite(a == 0, 0, 1)) if is_sym(a) else (a > 0) - (a < 0)
    if f == "is_positive":
        return lambda a: a > 0
    if f == "is_negative":
        return lambda a: a < 0
    if f == "pow":
        def pw(a, n):
            if is_sym(n):
                raise Unsupported("symbolic power")
            return wrap(a ** n, ty)
        return pw
    if f == "is_ascii_digit":
        return lambda r: sb_and(val(r) >= 48, val(r) <= 57)
    if f == "from_le_bytes":
        def fb(a):
            v = 0
            for i, b in enumerate(a.f):
                if b.__class__ is Part and b.i == 0 and i == 0 and \
                        all(x.__class__ is Part and x.v is b.v and x.i == j
                            for j, x in enumerate(a.f)) and len(a.f) == b.n:
                    if b.ty == ty:
                        return b.v
                    return wrap(b.v, ty)
                if b.__class__ is Part:
                    b = b.value()
                v = v + b * 256 ** i
            return wrap(v, ty)
        return fb
    if f == "to_le_bytes":
        n = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16}[re.sub(r"\D", "", ty) or "64"]
        return lambda v: Agg("[]", None, [Part(v, i, n, ty) if is_sym(v) else
                                          (v % 2 ** (8 * n)) // 256 ** i % 256 for i in range(n)])
    return None


class Part:
    """Byte i of the little-endian form of an integer."""
    __slots__ = ("v", "i", "n", "ty")

    def __init__(self, v, i, n, ty):
        self.v, self.i, self.n, self.ty = v, i, n, ty

    def value(self):
        return self.v % 2 ** (8 * self.n) // 256 ** self.i % 256


def euclid(a, b):
    if b.__class__ is int:
        if b > 0:
            return (a // b, a % b)
        q = a // -b
        return (-q, a % -b)
    if b > 0:
        return (a // b, a % b)
    return (-(a // -b), a % -b)


# ----------------------------------------------------------------------
def option(prog, f):
    ap = prog.apply

    def none(v):
        return v.variant == "None"
    if f == "is_some":
        return lambda r: not none(val(r))
    if f == "is_none":
        return lambda r: none(val(r))
    if f == "map":
        return lambda v, g: v if none(v) else some(ap(g, [v.f[0]]))
    if f == "and_then":
        return lambda v, g: v if none(v) else ap(g, [v.f[0]])
    if f == "or_else":
        return lambda v, g: ap(g, []) if none(v) else v
    if f == "or":
        return lambda v, w: w if none(v) else v
    if f == "ok_or":
        return lambda v, e: err(e) if none(v) else ok(v.f[0])
    if f == "ok_or_else":
        return lambda v, g: err(ap(g, [])) if none(v) else ok(v.f[0])
    if f == "unwrap_or":
        return lambda v, d: d if none(v) else v.f[0]
    if f == "unwrap_or_else":
        return lambda v, g: ap(g, []) if none(v) else v.f[0]
    if f == "map_or":
        return lambda v, d, g: d if none(v) else ap(g, [v.f[0]])
    if f == "is_some_and":
        return lambda v, g: False if none(v) else ap(g, [v.f[0]])
    if f in ("unwrap", "expect"):
        def un(v, *_):
            if none(v):
                raise Panic("called `Option::unwrap()` on a `None` value")
            return v.f[0]
        return un
    if f == "unwrap_unchecked":
        return lambda v: v.f[0]
    if f == "filter":
        def flt(v, g):
            if none(v):
                return v
            return v if ap(g, [Ref(Cell(v.f[0]))]) else NONE
        return flt
    if f == "flatten":
        return lambda v: v if none(v) else v.f[0]
    if f == "zip":
        return lambda a, b: NONE if none(a) or none(b) else some(tup(a.f[0], b.f[0]))
    if f == "replace":
        def rep(r, x):
            o = r.get()
            r.set(some(x))
            return o
        return rep
    if f == "take":
        def tk(r):
            o = r.get()
            r.set(NONE)
            return o
        return tk
    if f == "get_or_insert":
        def goi(r, x):
            if none(r.get()):
                r.set(some(x))
            return Ref(r.cell, r.path + (0,))
        return goi
    if f in ("as_ref", "as_mut", "as_deref"):
        return lambda r: NONE if none(r.get()) else some(Ref(r.cell, r.path + (0,)))
    if f == "transpose":
        def tr(v):
            if none(v):
                return ok(v)
            w = v.f[0]
            return ok(some(w.f[0])) if w.variant == "Ok" else w
        return tr
    if f in ("copied", "cloned"):
        return lambda v: v if none(v) else some(v.f[0].get())
    return None


def result(prog, f):
    ap = prog.apply

    def good(v):
        return v.variant == "Ok"
    if f == "ok":
        return lambda v: some(v.f[0]) if good(v) else NONE
    if f == "is_ok":
        return lambda r: good(val(r))
    if f == "is_err":
        return lambda r: not good(val(r))
    if f == "map":
        return lambda v, g: ok(ap(g, [v.f[0]])) if good(v) else v
    if f == "map_err":
        return lambda v, g: v if good(v) else err(ap(g, [v.f[0]]))
    if f == "and_then":
        return lambda v, g: ap(g, [v.f[0]]) if good(v) else v
    if f in ("unwrap", "expect"):
        def un(v, *_):
            if not good(v):
                raise Panic("called `Result::unwrap()` on an `Err` value")
            return v.f[0]
        return un
    if f == "unwrap_or":
        return lambda v, d: v.f[0] if good(v) else d
    return None


# ----------------------------------------------------------------------
def slices(f):
    if f == "len":
        return length
    if f == "is_empty":
        return lambda s: length(s) == 0
    if f == "first":
        return lambda s: some(Ref(Cell(as_slice(s).at(0)))) if length(s) > 0 else NONE
    if f == "last":
        return lambda s: some(Ref(Cell(as_slice(s).at(length(s) - 1)))) if length(s) > 0 else NONE
    if f == "get":
        def get(s, i):
            s = as_slice(s)
            if i.__class__ is Agg:
                a, b = bounds(i, s.n)
                if a <= b and b <= s.n:
                    return some(s.sub(a, b))
                return NONE
            return some(Ref(Cell(s.at(i)))) if i < s.n else NONE
        return get
    if f == "iter":
        return lambda s: Agg("iter:slice", None, (as_slice(s), 0))
    if f == "is_ascii":
        return lambda s: is_ascii(as_slice(s))
    if f == "as_ptr":
        return lambda s: as_slice(s)
    if f == "split_at":
        def sp(s, k):
            s = as_slice(s)
            if not k <= s.n:
                raise Panic("mid > len")
            return tup(s.sub(0, k), s.sub(k, s.n))
        return sp
    if f == "starts_with":
        def sw(s, t):
            s, t = as_slice(s), as_slice(t)
            if t.n.__class__ is not int:
                raise Unsupported("starts_with")
            return sb_and(s.n >= t.n, *[s.at(i) == t.at(i) for i in range(t.n)])
        return sw
    return None


def is_ascii(s):
    f = getattr(s.base, "is_ascii", None)
    if f:
        return f(s)
    if s.n.__class__ is int:
        return sb_and(*[s.at(i) < 128 for i in range(s.n)])
    raise Unsupported("is_ascii")


def bounds(r, n):
    t = last_seg(r.tag)
    if t == "Range":
        return r.f[0], r.f[1]
    if t == "RangeFrom":
        return r.f[0], n
    if t == "RangeTo":
        return 0, r.f[0]
    if t == "RangeFull":
        return 0, n
    if t == "RangeInclusive":
        return r.f[0], r.f[1] + 1
    raise Unsupported("range " + t)


def slice_index(full):
    def f(s, r):
        if r.__class__ is not Agg:
            s = as_slice(s)
            if not r < s.n:
                raise Panic("index out of bounds")
            return Ref(Cell(s.at(r)))
        s = as_slice(s)
        a, b = bounds(r, s.n)
        if not a <= b:
            raise Panic("slice index starts after its end")
        if not b <= s.n:
            raise Panic("range end index out of range for slice")
        return s.sub(a, b)
    return f


# ----------------------------------------------------------------------
def into_iter(v):
    if v.__class__ is Agg and (v.tag.startswith("iter:") or last_seg(v.tag) in
                               ("Range", "RangeInclusive", "KwargIter", "DictItems")):
        return v
    if v.__class__ is Ref:
        t = v.get()
        if t.__class__ is Agg and t.tag == "[]":
            return Agg("iter:slice", None, (as_slice(t), 0))
        return v
    if v.__class__ is Slice:
        return Agg("iter:slice", None, (v, 0))
    if v.__class__ is Agg and v.tag == "[]":
        return Agg("iter:values", None, (as_slice(v), 0))
    return v


def step(prog, it):
    """(item or None-marker, new iterator state); forks on the end."""
    t = last_seg(it.tag)
    if t == "Range":
        a, b = it.f
        if a < b:
            return (a,), Agg(it.tag, None, (a + 1, b))
        return None, it
    if t == "RangeInclusive":
        a, b, done = it.f
        if not done and a <= b:
            return (a,), Agg(it.tag, None, (a + 1, b, False))
        return None, it
    if it.tag in ("iter:slice", "iter:values"):
        s, i = it.f
        if i < s.n:
            v = s.at(i)
            return ((Ref(Cell(v)) if it.tag == "iter:slice" else v),), \
                Agg(it.tag, None, (s, i + 1))
        return None, it
    if it.tag == "iter:zip":
        x, a = step(prog, it.f[0])
        if x is None:
            return None, Agg(it.tag, None, (a, it.f[1]))
        y, b = step(prog, it.f[1])
        return (None if y is None else (tup(x[0], y[0]),)), Agg(it.tag, None, (a, b))
    if it.tag == "iter:enumerate":
        k = it.f[1] if len(it.f) > 1 else 0
        x, a = step(prog, it.f[0])
        if x is None:
            return None, it
        return (tup(k, x[0]),), Agg(it.tag, None, (a, k + 1))
    if it.tag == "iter:copied":
        x, a = step(prog, it.f[0])
        return (None if x is None else (val(x[0]),)), Agg(it.tag, None, (a,))
    if it.tag == "iter:map":
        x, a = step(prog, it.f[0])
        return (None if x is None else (prog.apply(it.f[1], [x[0]]),)), \
            Agg(it.tag, None, (a, it.f[1]))
    if it.tag == "iter:chain":
        if it.f[0] is not None:
            x, a = step(prog, it.f[0])
            if x is not None:
                return x, Agg(it.tag, None, (a, it.f[1]))
        y, b = step(prog, it.f[1])
        return y, Agg(it.tag, None, (None, b))
    k = f"<{last_seg(it.tag)} as Iterator>::next"
    if k in prog.fns:
        cell = Cell(it)
        r = prog.call_any(k, Ref(cell))
        return (None if r.variant == "None" else (r.f[0],)), cell.v
    raise Unsupported("iterator " + it.tag)


def iter_next(prog, r):
    it = r.get()
    if it.__class__ is Ref:
        return iter_next(prog, it)
    if it.__class__ is not Agg:
        raise Unsupported("iterator " + type(it).__name__)
    x, n = step(prog, it)
    r.set(n)
    return NONE if x is None else some(x[0])


def collect(prog, it):
    out = []
    it = into_iter(it)
    while True:
        x, it = step(prog, it)
        if x is None:
            return Vec(out)
        out.append(x[0])


class Vec:
    """A Vec<T> value."""
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = list(xs)

    def as_str(self):
        return Slice(Items(self.xs), 0, len(self.xs))

    as_slice = as_str
