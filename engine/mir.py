"""Symbolic execution of the Rust extension's MIR.

The compiler (rustc -Zunpretty=mir) translates the crate's current source to
its mid-level representation; this module parses that text and executes it on
symbolic integers (engine.sym), one path at a time.  Arithmetic is Rust's:
every integer has the width the compiler gave it and wraps like a release
build; a failed bounds check or assertion is a panic.
"""
from __future__ import annotations
import re
from .sym import SymInt, SymBool, Unsupported, ite, is_sym, sb_not, cur
from . import sym
from .models import MTimezone


class Panic(sym.EngineSignal):
    """The Rust code panics (inside an extern "C" function: the process dies)."""


# ----------------------------------------------------------------------
# values
# ----------------------------------------------------------------------
class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class Agg:
    """A struct, tuple, closure, array or enum value (immutable)."""
    __slots__ = ("tag", "variant", "f")

    def __init__(self, tag, variant, f):
        self.tag, self.variant, self.f = tag, variant, tuple(f)

    def __repr__(self):
        return f"{self.tag.rsplit('::', 1)[-1]}{'::' + self.variant if self.variant else ''}{self.f}"


UNIT = Agg("()", None, ())
NONE = Agg("std::option::Option", "None", ())


def some(x):
    return Agg("std::option::Option", "Some", (x,))


def ok(x):
    return Agg("std::result::Result", "Ok", (x,))


def err(x):
    return Agg("std::result::Result", "Err", (x,))


def tup(*xs):
    return Agg("()", None, xs)


class Ordv:
    """std::cmp::Ordering, as -1, 0 or 1."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class FnRef:
    """A function item or function pointer."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class HashInt:
    """The hash of known parts: equal parts, equal hash (nothing else is known of it)."""
    __slots__ = ("parts",)

    def __init__(self, *parts):
        self.parts = parts

    def now(self):
        """The number itself where enough is known by now to tell."""
        if len(self.parts) == 3 and self.parts[0] == "or":
            return bits_or(*self.parts[1:])
        if len(self.parts) == 1:
            p = self.parts[0]
            return p.now() if p.__class__ is HashInt else p if isinstance(p, (int, SymInt)) else self
        return self

    def same(self, o):
        a, b = (x.now() if x.__class__ is HashInt else x for x in (self, o))
        if a.__class__ is not HashInt and b.__class__ is not HashInt:
            return same_part(a, b)
        if a.__class__ is not b.__class__ or len(a.parts) != len(b.parts):
            return False
        return sym.sb_and(*[same_part(x, y) for x, y in zip(a.parts, b.parts)])


def same_part(a, b):
    if a.__class__ is HashInt:
        return a.same(b)
    if b.__class__ is HashInt:
        return b.same(a)
    if a.__class__ is Agg or b.__class__ is Agg:
        if a.__class__ is not b.__class__ or a.variant != b.variant or len(a.f) != len(b.f):
            return False
        return sym.sb_and(*[same_part(x, y) for x, y in zip(a.f, b.f)])
    if not isinstance(a, (int, SymInt)) or not isinstance(b, (int, SymInt)):
        return a is b
    return a == b


class Ref:
    """A thin pointer: a cell and a projection path into its value."""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def get(self):
        v = self.cell.v
        for p in self.path:
            v = proj(v, p)
        return v

    def set(self, x):
        self.cell.v = put(self.cell.v, self.path, x)


class Slice:
    """A fat pointer: base sequence, start, length."""
    __slots__ = ("base", "start", "n")

    def __init__(self, base, start, n):
        self.base, self.start, self.n = base, start, n

    def at(self, i):
        return self.base.at(self.start + i)

    def sub(self, a, b):
        return Slice(self.base, self.start + a, b - a)


class Items:
    """A concrete sequence of values."""
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def at(self, i):
        if i.__class__ is SymInt:
            lo, hi = cur().interval(*sym.parts(i))
            lo = max(lo, 0)
            hi = min(hi, len(self.xs) - 1)
            if all(not is_obj(x) for x in self.xs[lo:hi + 1]):
                r = self.xs[hi]
                for k in range(hi - 1, lo - 1, -1):
                    r = ite(i == k, self.xs[k], r)
                return r
            for k in range(lo, hi):
                if i == k:
                    return self.xs[k]
            return self.xs[hi]
        return self.xs[i]


def is_obj(x):
    return not isinstance(x, (int, SymInt))


class Bytes:
    """The bytes of an arbitrary string: symbolic content."""

    def __init__(self, name, known=None):
        self.name, self.known = name, dict(known or {})
        self.odd = []      # (index, value): reads at symbolic positions

    def at(self, i):
        if i.__class__ is SymInt:
            for j, v in self.odd:
                if sym.lin_key(i) == sym.lin_key(j):
                    return v
            for j in sorted(self.known):
                if i == j:
                    return self.known[j]
            v = cur().fresh(f"{self.name}_at", 0, 255)
            self.odd.append((i, v))
            return v
        v = self.known.get(i)
        if v is None:
            for j, w in self.odd:
                if j == i:
                    self.known[i] = w
                    return w
            v = self.known[i] = cur().fresh(f"{self.name}[{i}]", 0, 255)
        return v


def proj(v, p):
    if v.__class__ is Agg:
        return v.f[p]
    if v.__class__ is Items:
        return v.at(p)
    raise Unsupported(f"projection {p} of {type(v).__name__}")


def put(v, path, x):
    if not path:
        return x
    p = path[0]
    if v is None:
        v = Agg("?", None, (None,) * (p + 1))
    if v.__class__ is not Agg:
        raise Unsupported(f"assignment into {type(v).__name__}")
    f = list(v.f)
    if p.__class__ is not int:
        raise Unsupported("assignment at a symbolic index")
    while len(f) <= p:
        f.append(None)
    f[p] = put(f[p], path[1:], x)
    return Agg(v.tag, v.variant, f)


# ----------------------------------------------------------------------
# integers
# ----------------------------------------------------------------------
WIDTH = {}
for _b in (8, 16, 32, 64, 128):
    WIDTH[f"u{_b}"] = (0, 2 ** _b - 1)
    WIDTH[f"i{_b}"] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
WIDTH["usize"], WIDTH["isize"] = WIDTH["u64"], WIDTH["i64"]
WIDTH["char"] = (0, 0x10FFFF)
for _a, _b in (("c_int", "i32"), ("c_long", "i64"), ("c_longlong", "i64"), ("c_char", "i8"),
               ("c_uchar", "u8"), ("c_uint", "u32"), ("c_ulong", "u64"), ("c_ulonglong", "u64"),
               ("Py_ssize_t", "isize"), ("Py_hash_t", "isize")):
    WIDTH[_a] = WIDTH[_b]


def wrap(v, ty):
    lim = WIDTH.get(ty) or WIDTH.get(ty.rsplit("::", 1)[-1])
    if lim is None:
        raise Unsupported("integer type " + ty)
    lo, hi = lim
    if v.__class__ is HashInt:
        return v
    if v.__class__ is SymBool:
        v = ite(v, 1, 0)
    elif v.__class__ is bool:
        v = int(v)
    if v.__class__ is int:
        return v if lo <= v <= hi else (v - lo) % (hi - lo + 1) + lo
    a, b = cur().interval(*sym.parts(v))
    if lo <= a and b <= hi:
        return v
    # a fork: in range (the usual case), or reduced
    if (a >= lo or v >= lo) and (b <= hi or v <= hi):
        return v
    return (v - lo) % (hi - lo + 1) + lo


def within(v, ty):
    """Is the mathematical integer v representable? (forks)"""
    lo, hi = WIDTH[ty]
    if v.__class__ is int:
        return lo <= v <= hi
    a, b = cur().interval(*sym.parts(v))
    return bool((a >= lo or v >= lo) and (b <= hi or v <= hi))


def tdiv(a, b):
    if b.__class__ is int and b > 0:
        if a.__class__ is int:
            return a // b if a >= 0 else -(-a // b)
        lo, _ = cur().interval(*sym.parts(a))
        if lo >= 0 or a >= 0:
            return a // b
        return -((-a) // b)
    if a >= 0:
        return a // b if b > 0 else -(a // -b)
    return -(-a // b) if b > 0 else -a // -b


def trem(a, b):
    return a - tdiv(a, b) * b


def band(a, b):
    for x, y in ((a, b), (b, a)):
        if x.__class__ in (bool, SymBool) or y.__class__ in (bool, SymBool):
            return sym.sb_and(truthy(x), truthy(y))
        if y.__class__ is int and x.__class__ is int:
            return x & y
        if y.__class__ is int and y >= 0 and (y + 1) & y == 0:
            return x % (y + 1)
    raise Unsupported("bitwise and")


def bor(a, b):
    if a.__class__ in (bool, SymBool) or b.__class__ in (bool, SymBool):
        return sym.sb_or(truthy(a), truthy(b))
    if a.__class__ is int and b.__class__ is int:
        return a | b
    return bits_or(a, b)


def bits_or(a, b):
    if a.__class__ is HashInt or b.__class__ is HashInt:
        return HashInt("or", a, b)
    # disjoint bits: one operand a multiple of 2^k, the other below 2^k
    for x, y in ((a, b), (b, a)):
        lo, hi = cur().interval(*sym.parts(y)) if y.__class__ is SymInt else (y, y)
        if lo >= 0 and hi < 2 ** 130:
            k = int(hi).bit_length()
            co, c = sym.parts(x) if x.__class__ is SymInt else ((), x)
            if c % 2 ** k == 0 and all(m % 2 ** k == 0 for _, m in co):
                return x + y
    return HashInt("or", a, b)


def truthy(x):
    return x if x.__class__ in (bool, SymBool) else bool(x)


def bxor(a, b):
    if a.__class__ is HashInt or b.__class__ is HashInt:
        return HashInt(a, b)
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a.__class__ in (bool, SymBool) and b.__class__ in (bool, SymBool):
        return neq(a, b)
    raise Unsupported("bitwise xor")


def eqv(a, b):
    if a.__class__ is SymBool or b.__class__ is SymBool:
        if a.__class__ is bool:
            a, b = b, a
        if b.__class__ is bool:
            return a if b else sb_not(a)
        return sym.sb_or(sym.sb_and(a, b), sym.sb_and(sb_not(a), sb_not(b)))
    return a == b


def neq(a, b):
    return sb_not(eqv(a, b))


def shl(a, b, ty):
    if b.__class__ is not int:
        raise Unsupported("shift by a symbolic amount")
    return wrap(a * 2 ** b, ty)


def shr(a, b):
    if b.__class__ is not int:
        raise Unsupported("shift by a symbolic amount")
    return a // 2 ** b


# ----------------------------------------------------------------------
# parsing
# ----------------------------------------------------------------------
OPEN, CLOSE = "([{<", ")]}>"


def skip_quotes(s, i):
    """s[i] opens a string (or char) literal: index just after it."""
    q = s[i]
    j = i + 1
    while s[j] != q:
        j += 2 if s[j] == "\\" else 1
    return j + 1


def is_char_lit(s, i):
    """Is the quote at s[i] a char literal, not a lifetime?"""
    if s[i + 1:i + 2] == "\\":
        return True
    return s[i + 2:i + 3] == "'"


def split(s, sep=","):
    """Split at top-level separators."""
    out, d, i, start = [], 0, 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and is_char_lit(s, i)):
            i = skip_quotes(s, i)
            continue
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            if not (c == ">" and i and s[i - 1] in "-="):
                d -= 1
        elif c == sep and d == 0:
            out.append(s[start:i].strip())
            start = i + 1
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out


def match_paren(s, i):
    """Index of the bracket closing the one at s[i] (round/square/curly only)."""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and is_char_lit(s, i)):
            i = skip_quotes(s, i)
            continue
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Unsupported("unbalanced: " + s[:80])


def call_paren(s):
    """For `callee(args)`: the index of the '(' that opens the arguments."""
    stack, i, n = [], 0, len(s)
    last = None
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and is_char_lit(s, i)):
            i = skip_quotes(s, i)
            continue
        if c in "([{":
            stack.append(i)
        elif c in ")]}":
            last = stack.pop()
        i += 1
    return last


def strip_generics(s):
    """Drop every `::<...>` and `<'a>`; keep `<T as Trait>` at the front."""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("::<", i):
            if s.startswith("::<impl ", i):
                j = angle_end(s, i + 2)
                out.append(s[i:j])
                i = j
                continue
            i = angle_end(s, i + 2)
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def angle_end(s, i):
    d = 0
    while True:
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] not in "-=":
            d -= 1
            if d == 0:
                return i + 1
        i += 1


def base_type(t):
    """module::Name<..> -> module::Name (no generics)."""
    i = t.find("<")
    return (t[:i] if i > 0 else t).rstrip(":")


class Place:
    __slots__ = ("local", "steps", "ty")
    # steps: ('*',) | ('f', n) | ('i', local) | ('c', k, from_end) | ('s', a, b)

    def __init__(self, local, steps, ty):
        self.local, self.steps, self.ty = local, steps, ty


def deref_type(t):
    for p in ("&'static mut ", "&'static ", "&mut ", "&", "*mut ", "*const "):
        if t.startswith(p):
            return t[len(p):]
    return None


class Body:
    """One MIR body, parsed on first use."""

    def __init__(self, prog, header, lines):
        self.prog, self.header, self.lines = prog, header, lines
        self.blocks = None

    def parse(self):
        h = self.header
        self.types = {}
        self.args = []
        if h.startswith("fn "):
            a = h.index("(_1:") if "(_1:" in h else h.index("()")
            b = match_paren(h, a)
            for p in split(h[a + 1:b]):
                m = re.match(r"_(\d+): (.*)$", p)
                self.types[int(m[1])] = m[2]
                self.args.append(int(m[1]))
        blocks, cur_ = {}, None
        for l in self.lines:
            s = l.strip()
            if cur_ is None:
                m = re.match(r"let (?:mut )?_(\d+): (.*);$", s)
                if m:
                    self.types[int(m[1])] = m[2]
                    continue
                m = re.match(r"bb(\d+)(?: \(cleanup\))?: \{$", s)
                if m:
                    cur_ = blocks[int(m[1])] = []
            elif s == "}":
                cur_ = None
            elif s and not s.startswith(("Storage", "ConstEvalCounter", "nop", "FakeRead",
                                         "PlaceMention", "AscribeUserType", "Coverage", "//",
                                         "Retag")):
                cur_.append(s)
        self.blocks = blocks
        self.n = max(self.types, default=0) + 1
        self.code = {}

    # -- compilation ------------------------------------------------------
    def block(self, k):
        c = self.code.get(k)
        if c is None:
            c = self.code[k] = [self.stmt(s.rstrip(";")) for s in self.blocks[k]]
        return c

    def stmt(self, s):
        if s.startswith("goto -> bb"):
            t = int(s[10:])
            return lambda fr: t
        if s == "return":
            return lambda fr: -1
        if s in ("unreachable", "resume", "terminate(abi)"):
            def f(fr):
                raise Unsupported("reached " + s)
            return f
        if s.startswith("switchInt("):
            i = s.index("(")
            j = match_paren(s, i)
            op = self.operand(s[i + 1:j])
            targets, other = [], None
            for t in split(s[s.index("[", j) + 1:-1]):
                k, b = t.split(": bb")
                if k == "otherwise":
                    other = int(b)
                else:
                    targets.append((int(k), int(b)))
            ty = self.operand_type(s[i + 1:j])
            lim = WIDTH.get(ty)
            if lim and lim[0] < 0:
                m = lim[1]
                targets = [(k - 2 * (m + 1) if k > m else k, b) for k, b in targets]

            def f(fr):
                v = op(fr)
                if v.__class__ is bool or v.__class__ is SymBool:
                    for k, b in targets:
                        if (not v) if k == 0 else v:
                            return b
                    return other
                if v.__class__ is int:
                    for k, b in targets:
                        if v == k:
                            return b
                    return other
                for k, b in targets:
                    if v == k:
                        return b
                if other is None:
                    raise Unsupported("no switch target")
                return other
            return f
        if s.startswith("assert("):
            j = match_paren(s, 6)
            parts = split(s[7:j])
            c = parts[0]
            neg = c.startswith("!")
            op = self.operand(c[1:] if neg else c)
            msg = parts[1].strip('"')
            t = int(re.search(r"success: bb(\d+)", s[j:])[1])

            def f(fr):
                v = op(fr)
                if (not v) if neg else v:
                    return t
                raise Panic(msg)
            return f
        if s.startswith("drop("):
            t = int(re.search(r"return: bb(\d+)", s)[1])
            return lambda fr: t
        m = re.match(r"discriminant\((.*)\) = (\d+)$", s)
        if m:
            raise Unsupported("set discriminant")
        i = self.find_assign(s)
        if i < 0:
            raise Unsupported("statement " + s[:80])
        left, right = s[:i], s[i + 3:]
        store = self.store(left)
        m = re.search(r" -> (\[return: bb(\d+).*\]|unwind .*|bb\d+)$", right)
        if m and right[:m.start()].endswith(")"):
            return self.call_stmt(store, left, right[:m.start()], int(m[2]) if m[2] else None)
        rv = self.rvalue(right, self.place(left).ty)

        def f(fr):
            store(fr, rv(fr))
            return None
        return f

    def find_assign(self, s):
        d, i = 0, 0
        while i < len(s):
            c = s[i]
            if c in "([":
                d += 1
            elif c in ")]":
                d -= 1
            elif c == " " and d == 0 and s.startswith(" = ", i):
                return i
            i += 1
        return -1

    def call_stmt(self, store, left, call, ret):
        p = call_paren(call)
        callee, args = call[:p], call[p + 1:-1]
        argtxt = split(args)
        ops = [self.operand(a) for a in argtxt]
        dest_ty = self.place(left).ty
        prog = self.prog
        if callee.startswith(("move ", "copy ")):
            fop = self.operand(callee)

            def f(fr):
                g = fop(fr)
                store(fr, prog.apply(g, [o(fr) for o in ops]))
                return ret
            return f
        atys = None

        def f(fr):
            nonlocal atys
            if atys is None:
                atys = [self.operand_type(a) for a in argtxt]
            target = prog.resolve(callee, atys, dest_ty, fr)
            store(fr, target(*[o(fr) for o in ops]))
            if ret is None:
                raise Unsupported("returned from a diverging call")
            return ret
        return f

    # -- places -----------------------------------------------------------
    def place(self, s):
        s = s.strip()
        pos, pl = self._place(s, 0)
        if pos != len(s):
            raise Unsupported("place " + s[:100])
        return pl

    def _place(self, s, i):
        if s[i] == "_":
            m = re.compile(r"_(\d+)").match(s, i)
            k = int(m[1])
            pl = Place(k, (), self.types.get(k, ""))
            i = m.end()
        elif s.startswith("(*", i):
            i, b = self._place(s, i + 2)
            if s[i] != ")":
                raise Unsupported("place " + s[:100])
            i += 1
            pl = Place(b.local, b.steps + (("*",),), deref_type(b.ty) or "?")
        elif s[i] == "(":
            j = match_paren(s, i)
            k, b = self._place(s, i + 1)
            if s.startswith(" as ", k):
                pl = Place(b.local, b.steps, b.ty)
                k2 = k + 4
                while k2 < j and s[k2] not in ")":
                    k2 += 1
                i = j + 1
            elif s[k] == ".":
                m = re.compile(r"\.(\d+): ").match(s, k)
                pl = Place(b.local, b.steps + (("f", int(m[1])),), s[m.end():j])
                i = j + 1
            else:
                raise Unsupported("place " + s[:100])
        else:
            raise Unsupported("place " + s[:100])
        while i < len(s) and s[i] == "[":
            j = match_paren(s, i)
            t = s[i + 1:j]
            ety = pl.ty
            if ety.startswith("["):
                ety = re.sub(r"; [^;]*$", "", ety[1:-1])
            m = re.match(r"_(\d+)$", t)
            if m:
                st = ("i", int(m[1]))
            else:
                m = re.match(r"(-?)(\d+) of (\d+)$", t)
                if m:
                    st = ("c", int(m[2]), m[1] == "-")
                else:
                    m = re.match(r"(\d+):(-?)(\d*)$", t)
                    if not m:
                        raise Unsupported("index " + t)
                    st = ("s", int(m[1]), m[2] == "-", int(m[3] or 0))
                    ety = pl.ty
            pl = Place(pl.local, pl.steps + (st,), ety)
            i = j + 1
        return i, pl

    def load(self, pl):
        """Reader of a place's value."""
        k, steps = pl.local, pl.steps
        if not steps:
            return lambda fr: fr[k].v
        if len(steps) == 1 and steps[0][0] == "f":
            n = steps[0][1]

            def f(fr):
                v = fr[k].v
                return v.f[n] if v.__class__ is Agg else proj(v, n)
            return f

        def f(fr):
            v = fr[k].v
            for st in steps:
                t = st[0]
                if t == "f":
                    v = proj(v, st[1])
                elif t == "*":
                    v = deref(v)
                elif t == "i":
                    v = index(v, fr[st[1]].v)
                elif t == "c":
                    v = index(v, length(v) - st[1] if st[2] else st[1])
                else:
                    n = length(v)
                    e = n - st[3] if st[2] or not st[3] else st[3]
                    v = as_slice(v).sub(st[1], e)
            return v
        return f

    def ref(self, pl):
        """Maker of a reference to a place."""
        k, steps = pl.local, pl.steps
        if not steps:
            return lambda fr: Ref(fr[k])

        def f(fr):
            r = Ref(fr[k])
            for st in steps:
                t = st[0]
                if t == "*":
                    r = r.get() if r.__class__ is Ref else r
                    if r.__class__ is not Ref:
                        # a fat pointer, or an opaque one: the pointer itself
                        if hasattr(r, "as_ref"):
                            r = r.as_ref()
                elif t == "f":
                    if r.__class__ is not Ref:
                        raise Unsupported("field of " + type(r).__name__)
                    r = Ref(r.cell, r.path + (st[1],))
                elif t == "i":
                    i = fr[st[1]].v
                    if r.__class__ is Slice:
                        r = Ref(Cell(r.at(i)))
                    else:
                        if i.__class__ is not int:
                            r = Ref(Cell(index(r.get(), i)))
                        else:
                            r = Ref(r.cell, r.path + (i,))
                elif t == "c":
                    s = as_slice(r if r.__class__ is Slice else r.get())
                    r = Ref(Cell(s.at(s.n - st[1] if st[2] else st[1])))
                else:
                    s = as_slice(r if r.__class__ is Slice else r.get())
                    e = s.n - st[3] if st[2] or not st[3] else st[3]
                    r = s.sub(st[1], e)
            return r
        return f

    def store(self, left):
        pl = self.place(left)
        k, steps = pl.local, pl.steps
        if not steps:
            def f(fr, v):
                fr[k].v = v
            return f
        if all(st[0] == "f" for st in steps):
            path = tuple(st[1] for st in steps)

            def f(fr, v):
                fr[k].v = put(fr[k].v, path, v)
            return f
        mk = self.ref(pl)

        def f(fr, v):
            r = mk(fr)
            if r.__class__ is not Ref:
                raise Unsupported("store through " + type(r).__name__)
            r.set(v)
        return f

    # -- operands ---------------------------------------------------------
    def operand(self, s):
        s = s.strip()
        if s.startswith("no_retag "):
            s = s[9:]
        if s.startswith(("copy ", "move ")):
            return self.load(self.place(s[5:]))
        if s.startswith("const "):
            return self.const(s[6:])
        if s.startswith(("_", "(")):
            return self.load(self.place(s))
        if re.match(r"[A-Za-z<][\w:<>, ]*$", s):
            return self.const(s)        # a function item
        raise Unsupported("operand " + s[:100])

    def operand_type(self, s):
        s = s.strip()
        if s.startswith("no_retag "):
            s = s[9:]
        if s.startswith(("copy ", "move ")):
            return self.place(s[5:]).ty
        if s.startswith("const "):
            c = s[6:]
            m = re.match(r"-?[\d.]+(?:E[-\d]+)?_?([iuf]\d+|usize|isize|f64)$", c)
            if m:
                return m[1]
            if c in ("true", "false"):
                return "bool"
            if c.startswith('"'):
                return "&str"
            if c.startswith("'"):
                return "char"
            m = re.match(r"([iu]\d+|usize|isize)::", c)
            if m:
                return m[1]
            m = re.search(r": ([^{}]*)\}?$", c)
            if m and (c.startswith("{") or c.startswith("Slice")):
                return m[1]
            lit = self.prog.literals.get(c) or self.prog.literals.get(self.prog.const_name(c))
            if lit is not None:
                return self.operand_type("const " + lit)
            b = self.prog.consts.get(c)
            if b:
                m = re.search(r": ([^=]*) =", b.header[len("const ") + len(c):])
                if m:
                    return m[1].strip()
            if "promoted[" in c:
                n = self.prog.const_name(c)
                b = self.prog.consts.get(n)
                if b:
                    return b.header[len("const ") + len(n) + 2:].split(" = ")[0]
            return "?"
        return "?"

    def const(self, c):
        v = self.prog.const_value(c)
        if v.__class__ is Agg and v.tag == "#lazy":
            g = v.f[0]
            return lambda fr: g()
        return lambda fr: v

    # -- rvalues ----------------------------------------------------------
    def rvalue(self, s, ty):
        if s.startswith("no_retag "):
            s = s[9:]
        if s.startswith(("copy ", "move ", "const ")):
            m = None
            if " as " in s and s.endswith(")"):
                i = call_paren(s)
                kind = s[i + 1:-1]
                if i is not None and re.match(r"[A-Z]\w+(\(.*\))?(, \w+)?$", kind):
                    return self.cast(s[:i].strip(), kind)
            return self.operand(s)
        if s.startswith("&"):
            t = s[1:]
            for p in ("mut ", "raw mut ", "raw const (fake) ", "raw const ", "fake shallow ",
                      "fake ", "two_phase mut "):
                if t.startswith(p):
                    t = t[len(p):]
                    break
            return self.ref(self.place(t))
        m = re.match(r"(\w+)\(", s)
        if m and s.endswith(")") and match_paren(s, m.end() - 1) == len(s) - 1:
            o = m[1]
            inner = s[m.end():-1]
            if o in BIN:
                a, b = split(inner)
                x, y = self.operand(a), self.operand(b)
                t = self.operand_type(a)
                if t == "?":
                    t = ty
                g = BIN[o]
                if o in ("Add", "Sub", "Mul", "Shl", "Shr", "Div", "Rem", "BitAnd", "BitOr",
                         "BitXor", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
                    return lambda fr: g(x(fr), y(fr), ty)
                if o == "Offset":
                    return lambda fr: offset(x(fr), y(fr))
                return lambda fr: g(x(fr), y(fr), t)
            if o == "Not":
                x = self.operand(inner)
                if ty == "bool":
                    return lambda fr: sb_not(truthy(x(fr)))
                return lambda fr: wrap(-1 - x(fr), ty)
            if o == "Neg":
                x = self.operand(inner)
                if ty == "f64":
                    return lambda fr: -x(fr)
                return lambda fr: wrap(-x(fr), ty)
            if o == "discriminant":
                x = self.load(self.place(inner))
                return lambda fr: discriminant(x(fr), self.prog)
            if o in ("PtrMetadata",):
                x = self.operand(inner)
                return lambda fr: length(x(fr))
            if o == "Len":
                x = self.load(self.place(inner))
                return lambda fr: length(x(fr))
            if o == "CopyForDeref":
                return self.load(self.place(inner))
            if o == "SizeOf" or o == "AlignOf":
                return lambda fr: 1
        if s.startswith("("):
            xs = [self.operand(a) for a in split(s[1:-1])]
            return lambda fr: Agg("()", None, [x(fr) for x in xs])
        if s.startswith("["):
            inner = s[1:-1]
            m = re.match(r"(.*); (\d+)$", inner)
            if m:
                x, n = self.operand(m[1]), int(m[2])
                return lambda fr: Agg("[]", None, (x(fr),) * n)
            xs = [self.operand(a) for a in split(inner)]
            return lambda fr: Agg("[]", None, [x(fr) for x in xs])
        if s.startswith("{closure@"):
            j = match_paren(s, 0)
            name = s[:j + 1]
            rest = s[j + 1:].strip()
            xs = []
            if rest.startswith("{"):
                for p in split(rest[1:-1]):
                    xs.append(self.operand(p.split(": ", 1)[1]))
            return lambda fr: Agg(name, None, [x(fr) for x in xs])
        if s.startswith("*"):
            raise Unsupported("rvalue " + s[:80])
        # struct / enum constructors
        i = s.find(" { ")
        if s.endswith("}") and i > 0:
            tag, var = self.prog.ctor(s[:i])
            xs = [self.operand(p.split(": ", 1)[1]) for p in split(s[i + 2:].strip()[1:-1])]
            return lambda fr: Agg(tag, var, [x(fr) for x in xs])
        if s.endswith(")"):
            p = call_paren(s)
            if s[p - 1] == " " and " as " in s:
                return self.cast(s[:p].strip(), s[p + 1:-1])
            tag, var = self.prog.ctor(s[:p])
            xs = [self.operand(a) for a in split(s[p + 1:-1])]
            return lambda fr: Agg(tag, var, [x(fr) for x in xs])
        tag, var = self.prog.ctor(s)
        v = Agg(tag, var, ())
        if tag == "std::cmp::Ordering":
            v = Ordv({"Less": -1, "Equal": 0, "Greater": 1}[var])
        return lambda fr: v

    def cast(self, s, kind):
        i = self.find_as(s)
        src, ty = s[:i], s[i + 4:]
        if kind.startswith("PointerCoercion(ReifyFnPointer") or \
                kind.startswith("PointerCoercion(ClosureFnPointer"):
            if src.startswith(("move ", "copy ")):
                return self.operand(src)
            name = src[6:] if src.startswith("const ") else src
            return lambda fr: FnRef(name)
        x = self.operand(src)
        if kind == "IntToInt":
            return lambda fr: wrap(x(fr), ty)
        if kind.startswith("PointerCoercion(Unsize"):
            return lambda fr: unsize(x(fr))
        if kind == "Transmute" and ty in WIDTH:
            def bits(fr):
                v = x(fr)
                return HashInt(*v.f) if v.__class__ is Agg else v
            return bits
        if kind in ("PtrToPtr", "FnPtrToPtr", "Transmute", "PointerExposeProvenance",
                    "PointerWithExposedProvenance", "Subtype") or kind.startswith("PointerCoercion"):
            return x
        if kind == "FloatToInt":
            return lambda fr: float_to_int(x(fr), ty)
        if kind == "IntToFloat":
            return lambda fr: int_to_float(x(fr))
        raise Unsupported("cast " + kind)

    def find_as(self, s):
        d, i = 0, 0
        while i < len(s):
            c = s[i]
            if c == '"' or (c == "'" and is_char_lit(s, i)):
                i = skip_quotes(s, i)
                continue
            if c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
            elif d == 0 and s.startswith(" as ", i):
                return i
            i += 1
        raise Unsupported("cast " + s[:80])

    def run(self, args):
        if self.blocks is None:
            self.parse()
        fr = [Cell() for _ in range(self.n)]
        for k, v in zip(self.args, args):
            fr[k].v = v
        b = 0
        block = self.block
        while True:
            for st in block(b):
                t = st(fr)
                if t is not None:
                    break
            else:
                raise Unsupported("block without terminator")
            if t == -1:
                v = fr[0].v
                return UNIT if v is None else v
            b = t


def float_to_int(v, ty):
    if v.__class__ is float:
        lo, hi = WIDTH[ty]
        if v != v:
            return 0
        return max(lo, min(hi, int(v)))
    if v.__class__ is sym.SymFloat:
        lo, hi = WIDTH[ty]
        t = v.trunc()
        return lo if t < lo else hi if t > hi else t
    raise Unsupported("symbolic float to int")


def int_to_float(v):
    if v.__class__ is int:
        return float(v)
    return sym.SymFloat.of(v)


def deref(v):
    if v.__class__ is Ref:
        return v.get()
    if v.__class__ is Slice or v.__class__ is str:
        return v
    f = getattr(v, "deref", None)
    if f:
        return f()
    raise Unsupported("dereference of " + type(v).__name__)


def as_slice(v):
    if v.__class__ is Slice:
        return v
    f = getattr(v, "as_slice", None)
    if f is not None:
        return f()
    if v.__class__ is Agg and v.tag == "[]":
        return Slice(Items(v.f), 0, len(v.f))
    if v.__class__ is Ref:
        return as_slice(v.get())
    if v.__class__ is str:
        b = v.encode()
        return Slice(Items(b), 0, len(b))
    raise Unsupported("slice of " + type(v).__name__)


def unsize(v):
    if v.__class__ is Ref:
        t = v.get()
        if t.__class__ is Agg and t.tag == "[]":
            return as_slice(t)
    return v


def length(v):
    return as_slice(v).n


def index(v, i):
    if v.__class__ is Agg:
        if i.__class__ is int:
            return v.f[i]
        return Items(v.f).at(i)
    return as_slice(v).at(i)


def offset(p, n):
    f = getattr(p, "offset", None)
    if f:
        return f(n)
    raise Unsupported("pointer offset")


def discriminant(v, prog):
    if v.__class__ is Agg:
        return prog.variant_index(v.tag, v.variant)
    if v.__class__ is Ordv:
        return v.v
    if v.__class__ is int:
        return v
    raise Unsupported("discriminant of " + type(v).__name__)


def _div(a, b, ty):
    if ty == "f64":
        return fdiv(a, b)
    return tdiv(a, b)


def _rem(a, b, ty):
    return trem(a, b)


def fdiv(a, b):
    if a.__class__ is float and b.__class__ is float:
        if b == 0:
            import math
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def arith(f):
    def g(a, b, ty):
        if ty == "f64":
            return f(a, b)
        return wrap(f(a, b), ty)
    return g


def _pair(f):
    def g(a, b, ty):
        r = f(a, b)
        o = not within(r, ty)
        return tup(wrap(r, ty), o)
    return g


def _cmp(f):
    return lambda a, b, ty: f(unb(a), unb(b))


def unb(x):
    if x.__class__ is Ordv:
        return x.v
    return x


def same(a, b):
    if hasattr(a, "addr") or hasattr(b, "addr"):
        if (p := getattr(a, "o", None)).__class__ is MTimezone and \
                (q := getattr(b, "o", None)).__class__ is MTimezone:
            # one object for UTC
            return p is q or sym.sb_and(p.off == 0, q.off == 0, not p.named, not q.named)
        return a.addr() == b.addr()
    if a.__class__ in (bool, SymBool) or b.__class__ in (bool, SymBool):
        return eqv(a, b)
    return a == b


BIN = {
    "Add": arith(lambda a, b: a + b), "Sub": arith(lambda a, b: a - b),
    "Mul": arith(lambda a, b: a * b),
    "AddUnchecked": arith(lambda a, b: a + b), "SubUnchecked": arith(lambda a, b: a - b),
    "MulUnchecked": arith(lambda a, b: a * b),
    "AddWithOverflow": _pair(lambda a, b: a + b), "SubWithOverflow": _pair(lambda a, b: a - b),
    "MulWithOverflow": _pair(lambda a, b: a * b),
    "Div": _div, "Rem": _rem,
    "BitAnd": lambda a, b, t: band(a, b), "BitOr": lambda a, b, t: bor(a, b),
    "BitXor": lambda a, b, t: bxor(a, b),
    "Shl": shl, "Shr": lambda a, b, t: shr(a, b),
    "Eq": _cmp(same), "Ne": _cmp(lambda a, b: sb_not(same(a, b))),
    "Lt": _cmp(lambda a, b: a < b), "Le": _cmp(lambda a, b: a <= b),
    "Gt": _cmp(lambda a, b: a > b), "Ge": _cmp(lambda a, b: a >= b),
    "Cmp": lambda a, b, t: compare(a, b),
    "Offset": None,
}


def compare(a, b):
    return Ordv(ite(a < b, -1, ite(a == b, 0, 1)) if is_sym(a) or is_sym(b)
                else (a > b) - (a < b))


# ----------------------------------------------------------------------
# the program
# ----------------------------------------------------------------------
class Program:
    def __init__(self, text, src):
        """text: the MIR dump; src: {file name: source text}."""
        self.src = {k: v.split("\n") for k, v in src.items()}
        self.fns, self.consts, self.statics, self.allocs = {}, {}, {}, {}
        self.closures = {}
        self.literals = {}
        self.by_short = {}
        self.cvals = {}
        self.overrides = {}       # contract used instead of a body
        self.std = {}
        self.used = set()
        self.resolved = {}
        self.enums = {}
        self.type_mod = {}
        self.scan_source(src)
        self.scan(text)

    # -- source: enum variants, type owners ------------------------------
    def scan_source(self, src):
        self.structs = {}
        self.generics = {}
        for fn, text in src.items():
            for m in re.finditer(r"\bfn (\w+)<([^>(]*)>\(", text):
                ns = [x.split(":")[0].strip() for x in m[2].split(",")]
                ns = [x for x in ns if x and x[0] != "'"]
                if ns:
                    self.generics[f"{fn[:-3]}::{m[1]}"] = ns
        for fn, text in src.items():
            mod = fn[:-3]
            t = re.sub(r"//[^\n]*", "", text)
            for m in re.finditer(r"\benum (\w+)[^{;]*\{", t):
                j = match_paren(t, m.end() - 1)
                body = re.sub(r"#\[[^\]]*\]", "", t[m.end():j])
                k = 0
                for p in split(body):
                    mm = re.match(r"(\w+)\s*(?:\(.*\)|\{.*\})?\s*(?:=\s*(-?\w+))?$", p, re.S)
                    if not mm:
                        continue
                    if mm[2]:
                        k = int(mm[2], 0)
                    self.enums.setdefault(f"{mod}::{m[1]}", {})[mm[1]] = k
                    k += 1
                self.type_mod.setdefault(m[1], mod)
            for m in re.finditer(r"\bstruct (\w+)", t):
                self.type_mod.setdefault(m[1], mod)
                mm = re.compile(r"struct (\w+)(?:<[^>]*>)?\s*\{").match(t, m.start())
                if mm:
                    j = match_paren(t, mm.end() - 1)
                    body = re.sub(r"#\[[^\]]*\]", "", t[mm.end():j])
                    names = [re.match(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:", p.strip())
                             for p in split(body)]
                    self.structs[f"{mod}::{m[1]}"] = [x[1] for x in names if x]
        for k in [k for k in self.enums if k.startswith("lib::")]:
            self.enums[k[5:]] = self.enums[k]       # the crate root
        self.enums["std::option::Option"] = {"None": 0, "Some": 1}
        self.enums["std::result::Result"] = {"Ok": 0, "Err": 1}
        self.enums["std::ops::ControlFlow"] = {"Continue": 0, "Break": 1}
        self.enums["std::cmp::Ordering"] = {"Less": -1, "Equal": 0, "Greater": 1}

    def variant_index(self, tag, variant):
        e = self.enums.get(tag)
        if e is None or variant not in e:
            raise Unsupported(f"variant {tag}::{variant}")
        return e[variant]

    def ctor(self, s):
        s = strip_generics(s)
        i = s.rfind("::")
        if i > 0 and s[:i] in self.enums and s[i + 2:] in self.enums[s[:i]]:
            return s[:i], s[i + 2:]
        return s, None

    # -- the dump -----------------------------------------------------------
    def scan(self, text):
        ctfe = False
        # the wrappers the method tables define are all called _wrap: the k-th
        # mention in a table is its k-th body
        count = {}

        def number(m):
            k = count.get(m[1], 0)
            count[m[1]] = k + 1
            return f"{m[1]}#{k} as "
        text = re.sub(r"(?<= )([\w:\[\]]+::_wrap) as ", number, text)
        # constants of the same name in different blocks of one function: both the
        # definitions and the uses come in source order, each used equally often
        defs = re.findall(r"^const (\S+?): ", text, re.M)
        for nm in {x for x in defs if defs.count(x) > 1}:
            k = defs.count(nm)
            uses = len(re.findall(r"const %s\b(?!:)" % re.escape(nm), text))
            if uses % k:
                continue
            ctr = [0, 0]

            def renum(m):
                d = m[0].endswith(":")
                j = ctr[d]
                ctr[d] += 1
                return f"const {nm}_{j if d else j * k // uses}" + (":" if d else "")
            text = re.sub(r"const %s(?::(?= )|\b(?!:))" % re.escape(nm), renum, text)
        lines = text.split("\n")
        i, n = 0, len(lines)
        self.order = {}
        self.wraps = count
        while i < n:
            l = lines[i]
            if l.startswith("// MIR FOR CTFE"):
                ctfe = True
            elif l.startswith(("fn ", "const ", "static ")) and l.endswith("{"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.add(l, lines[i + 1:j], ctfe)
                ctfe = False
                i = j
            elif l.startswith("alloc"):
                m = re.match(r"(alloc\d+) \(((?:extern )?static: .*)\)$", l)
                if m:
                    self.allocs[m[1]] = (m[2], [])
                m = re.match(r"(alloc\d+) \((.*?)\) \{$", l)
                if m:
                    j = i + 1
                    while lines[j] != "}":
                        j += 1
                    self.allocs[m[1]] = (m[2], lines[i + 1:j])
                    i = j
            elif l.startswith("const ") and l.endswith(";") and " = const " in l:
                h, v = l[6:-1].rsplit(" = const ", 1)
                name = h[:h.rindex(": ")]
                self.literals[name] = self.literals[self.short(name)] = v
            i += 1

    def add(self, h, body, ctfe):
        b = Body(self, h, body)
        if h.startswith("fn "):
            p = h.index("(_1:") if "(_1:" in h else h.index("()")
            name = h[3:p]
            if ctfe and "::{closure" not in name:
                # same function, compile-time flavour
                return
            b.name = name
            lst = self.order.setdefault(name, [])
            lst.append(b)
            self.fns[name] = b
            short = self.short(name)
            self.fns.setdefault(short, b)
            m = re.match(r"\(_1: (?:&mut |&)?(\{closure@[^}]*\})", h[p:])
            if m and "{closure#" in name:
                self.closures[m[1]] = b
        else:
            kind, rest = h.split(" ", 1)
            if rest.startswith("mut "):
                rest = rest[4:]
            # name: type = {
            m = re.match(r"(.*?(?:promoted\[\d+\])?): ", rest) if "<impl at" not in rest else None
            if "<impl at" in rest:
                k = rest.index(">") + 1
                mm = re.match(r"[^:]*(?:::[^:]+)*?(?:::promoted\[\d+\])?(?=: )", rest[k:])
                name = rest[:k] + mm[0]
            else:
                name = m[1]
            b.name = name
            (self.consts if kind == "const" else self.statics)[self.short(name)] = b
            if kind == "const":
                self.consts[name] = b

    def impl_key(self, mod_prefix, span):
        """`<impl at file:l:c: l:c>` -> Type or `<Type as Trait>`."""
        m = re.match(r"<impl at (.*?):(\d+):(\d+): (\d+):(\d+)>", span)
        fn = m[1].rsplit("/", 1)[-1]
        l0, c0, l1, c1 = (int(x) for x in m.groups()[1:])
        src = self.src.get(fn)
        if src is None:
            return None
        mod = fn[:-3]
        if l0 == l1:
            t = src[l0 - 1][c0 - 1:c1 - 1]
        else:
            t = " ".join([src[l0 - 1][c0 - 1:]] + src[l0:l1 - 1] + [src[l1 - 1][:c1 - 1]])
        t = t.strip()
        if not t.startswith(("impl", "unsafe impl")):
            # a derive: the type it is attached to follows
            for k in range(l0 - 1, min(l0 + 12, len(src))):
                mm = re.search(r"\b(?:struct|enum) (\w+)", src[k])
                if mm:
                    return (mod, mm[1], t.rsplit("::", 1)[-1])
            return None
        t = re.sub(r"^(unsafe )?impl\s*(<[^>]*>)?\s*", "", t)
        t = t.split(" where ")[0].strip()
        if " for " in t:
            tr, ty = t.split(" for ", 1)
        else:
            tr, ty = None, t
        tr = tr and re.sub(r"<.*", "", tr).strip().rsplit("::", 1)[-1]
        ty = ty.strip()
        return (mod, ty, tr)

    def short(self, name):
        """A canonical name: mod::Type::f, or <Type as Trait>::f."""
        m = re.match(r"(.*?)(<impl at [^>]*>)(.*)$", name)
        if not m:
            return name
        k = self.impl_key(m[1], m[2])
        if k is None:
            return name
        mod, ty, tr = k
        last = last_seg(ty)
        if tr is None:
            return f"{self.type_mod.get(last, mod)}::{last}{m[3]}"
        return f"<{last} as {tr}>{m[3]}"

    # -- constants ----------------------------------------------------------
    def const_name(self, c):
        if c in self.consts:
            return c
        s = strip_generics(c)
        if s in self.consts:
            return s
        s = self.short_call(s)
        return "lib::" + s if s not in self.consts and "lib::" + s in self.consts else s

    def const_value(self, c):
        c = c.strip()
        if c in self.cvals:
            return self.cvals[c]
        m = re.match(r"(-?\d+)_?([iu]\d+|usize|isize)$", c)
        if m:
            return int(m[1])
        if c == "true":
            return True
        if c == "false":
            return False
        if c == "()":
            return UNIT
        m = re.match(r"(-?[\d.]+(?:E[-+]?\d+)?)_?f64$", c)
        if m:
            return float(m[1])
        if c.startswith('"'):
            return unescape(c[1:-1])
        if c.startswith('b"'):
            b = unescape_bytes(c[2:-1])
            return Ref(Cell(Agg("[]", None, tuple(b))))
        if c.startswith("'"):
            return ord(unescape(c[1:-1]))
        m = re.match(r"([iu]\d+|usize|isize)::(MIN|MAX)$", c) or \
            re.match(r"core::num::<impl (\w+)>::(MIN|MAX)$", c)
        if m:
            return WIDTH[m[1]][0 if m[2] == "MIN" else 1]
        if c.startswith("{alloc"):
            m = re.match(r"\{(alloc\d+)(?:\+0x[0-9a-f]+)?: (.*)\}$", c)
            return Agg("#lazy", None, (lambda: self.alloc_ref(m[1], m[2]),))
        m = re.match(r"Slice \{ alloc_id: (alloc\d+), meta: (\d+) \}: (.*)$", c)
        if m:
            if m[1] not in self.allocs:
                return "<text not in the dump>"     # documentation strings
            b = self.alloc_bytes(m[1])
            return b[:int(m[2])].rstrip(b"\0").decode()
        if c.startswith("<") and c.endswith("::{constant#0}"):
            raise Unsupported("const " + c)
        if c.startswith("{closure@"):
            return Agg(c, None, ())
        n = self.const_name(c)
        lit = self.literals.get(c) or self.literals.get(n)
        if lit is not None:
            return self.const_value(lit)
        b = self.consts.get(n)
        if b is not None:
            v = b.run([])
            if "promoted" not in n or frozen(v):
                self.cvals[c] = v
            return v if c in self.cvals else Agg("#lazy", None, (lambda: b.run([]),))
        f = self.extern_const(c)
        if f is not None:
            return f
        tag, var = self.ctor(c)
        if var is not None:
            return Agg(tag, var, ()) if tag != "std::cmp::Ordering" else \
                Ordv({"Less": -1, "Equal": 0, "Greater": 1}[var])
        if c in self.fns or strip_generics(c) in self.fns:
            return FnRef(c)
        m = re.match(r"(fn\(.*\) -> .*) \{(.*)\}$", c)
        if m:
            return FnRef(m[2])
        return FnRef(c)

    def extern_const(self, c):
        return self.externs.get(c) if hasattr(self, "externs") else None

    def alloc_bytes(self, a):
        info, lines = self.allocs[a]
        out = []
        for l in lines:
            if "│" in l:
                parts = l.split("│")
                mid = parts[1] if re.match(r"\s*0x", parts[0]) else parts[0]
            else:
                mid = l
            for t in mid.split():
                if re.match(r"^[0-9a-f]{2}$", t):
                    out.append(int(t, 16))
        return bytes(out)

    def alloc_ref(self, a, ty):
        info, _ = self.allocs.get(a, ("", []))
        m = re.match(r"(?:extern )?static: (\S+?)(?:,|$)", info)
        if m:
            return self.static_ref(m[1])
        return Ref(Cell(self.alloc_bytes(a)))

    def static_ref(self, name):
        raise Unsupported("static " + name)

    # -- calls ----------------------------------------------------------------
    def short_call(self, c):
        """Canonical form of a callee written in a body."""
        m = re.match(r"(.*?)(<impl at [^>]*>)(.*)$", c)
        if m:
            return self.short(c)
        if c.startswith("<"):
            e = angle_end(c, 0)
            inner, rest = c[1:e - 1], c[e:]
            k = find_top(inner, " as ")
            if k >= 0:
                ty, tr = inner[:k], inner[k + 4:]
                tr = re.sub(r"<.*", "", tr).rsplit("::", 1)[-1]
                return f"<{last_seg(ty)} as {tr}>{rest}"
        return c

    def resolve(self, callee, atys, dest_ty, fr):
        r = self.resolved.get((callee, tuple(atys), dest_ty))
        if r is None:
            r = self.find(callee, atys, dest_ty)
            self.resolved[(callee, tuple(atys), dest_ty)] = r
        return r

    def find(self, callee, atys, dest_ty):
        plain = strip_generics(callee)
        s = self.short_call(plain)
        if s not in self.fns and s not in self.overrides:
            m = re.match(r"(\w+)::<impl (?:\w+::)*(\w+)>::(\w+)$", s)
            if m:
                s = f"{self.type_mod.get(m[2], m[1])}::{m[2]}::{m[3]}"
            elif "lib::" + s in self.fns:
                s = "lib::" + s
            elif s.startswith("pymodule::") and s.split("::", 1)[1] in self.fns:
                s = s.split("::", 1)[1]
        o = self.overrides.get(s)
        if o is not None:
            return lambda *a: self.overrides.get(s, o)(*a) if s in self.overrides else self.call_body(s, a)
        b = self.fns.get(s) or self.fns.get(plain)
        if b is not None and "::<" in callee and s in self.generics:
            b = self.mono(s, b, callee)
        if b is not None:
            name = s

            def f(*a):
                o = self.overrides.get(name)
                if o is not None:
                    return o(*a)
                self.used.add(b.name)
                return b.run(a)
            return f
        g = self.find_std(plain, callee, atys, dest_ty)
        if g is None:
            raise Unsupported("call " + plain[:120])
        return g

    def call_body(self, s, a):
        b = self.fns[s]
        self.used.add(b.name)
        return b.run(a)

    def call(self, name, *args):
        """Entry point: run the real body of a function."""
        b = self.fns.get(name)
        if b is None:
            raise Unsupported("no function " + name)
        self.used.add(b.name)
        return b.run(list(args))

    def mono(self, s, b, callee):
        """A generic function at the integer types of the call's turbofish."""
        i = callee.rindex("::<")
        ts = [t for t in split(callee[i + 3:angle_end(callee, i + 2) - 1]) if t[0] != "'"]
        names = self.generics[s]
        if len(ts) != len(names) or not any(t in WIDTH for t in ts):
            return b
        sub = {n: t for n, t in zip(names, ts) if t in WIDTH}
        rx = re.compile(r"\b(" + "|".join(sub) + r")\b")
        f = lambda l: rx.sub(lambda m: sub[m[1]], l)
        n = Body(self, f(b.header), [f(l) for l in b.lines])
        n.name = b.name
        return n

    def call_any(self, name, *args):
        """By canonical name: its contract, or its body."""
        o = self.overrides.get(name)
        if o is not None:
            return o(*args)
        return self.call(name, *args)

    def statics_order(self, name):
        b = self.statics.get(name)
        if b is None:
            raise Unsupported("static " + name)
        s = as_slice(b.run([]))
        return [s.at(i) for i in range(s.n)]

    def apply(self, f, args):
        """Call a closure, function pointer or function item."""
        if f.__class__ is Ref:
            f = f.get()
        if callable(f):
            return f(*args)
        if f.__class__ is FnRef:
            m = re.match(r"(.*)#(\d+)$", f.name)
            if m:
                b = self.order[m[1]][int(m[2])]
                self.used.add(b.name)
                return b.run(args)
            tag, var = self.ctor(f.name)
            if var is not None:
                return Agg(tag, var, args)
            if f.name in self.resolved:
                return self.resolved[f.name](*args)
            g = self.find(f.name, ["?"] * len(args), "?")
            return g(*args)
        if f.__class__ is Agg and f.tag.startswith("{closure@"):
            b = self.closures.get(f.tag)
            if b is None:
                raise Unsupported("closure " + f.tag)
            if b.blocks is None:
                b.parse()
            self.used.add(b.name)
            first = f
            if b.types[1].startswith("&"):
                first = Ref(Cell(f))
            return b.run([first] + list(args))
        if f.__class__ is Agg and not f.f and f.variant is not None:
            return Agg(f.tag, f.variant, args)      # a tuple variant used as a function
        raise Unsupported("call of " + type(f).__name__)

    def find_std(self, plain, callee, atys, dest_ty):
        from . import mirstd
        return mirstd.find(self, plain, callee, atys, dest_ty)


def find_top(s, sub):
    d = 0
    for i, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ">)]}" and not (c == ">" and s[i - 1] in "-="):
            d -= 1
        elif d == 0 and s.startswith(sub, i):
            return i
    return -1


def last_seg(t):
    t = t.strip()
    p = ""
    while True:
        for k in ("&mut ", "&", "*mut ", "*const "):
            if t.startswith(k):
                p += k
                t = t[len(k):]
                break
        else:
            break
    if t.startswith(("(", "[", "{")):
        return p + t
    i = t.find("<")
    head, tail = (t[:i].rstrip(":"), t[i:]) if i > 0 else (t, "")
    return p + head.rsplit("::", 1)[-1]


def frozen(v):
    return v.__class__ is not Ref or True


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            n = s[i + 1]
            if n == "x":
                out.append(chr(int(s[i + 2:i + 4], 16)))
                i += 4
                continue
            if n == "u":
                j = s.index("}", i)
                out.append(chr(int(s[i + 3:j], 16)))
                i = j + 1
                continue
            out.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(n, n))
            i += 2
            continue
        out.append(c)
        i += 1
    return "".join(out)


def unescape_bytes(s):
    return unescape(s).encode("latin-1")
