"""Symbolic strings: sequences of concrete characters, symbolic characters and
opaque tokens (timezone keys)."""
from __future__ import annotations
import re as _re
from fractions import Fraction
import unicodedata, sys
try:
    import re._parser as _sre
    import re._constants as _c
except ImportError:  # pragma: no cover
    import sre_parse as _sre, sre_constants as _c
from . import sym
from .sym import (SymInt, SymBool, SymFloat, Unsupported, sb_and, sb_or, sb_not,
                  parts, lin_key, mk, INF)


class SymChar:
    __slots__ = ("code",)

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return "<chr>"


TOKEN_ALPHABET = frozenset(
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_+-/")


class Token:
    """A timezone key: 1-255 characters of TOKEN_ALPHABET; distinct tokens are
    distinct strings."""
    __slots__ = ("name",)
    alpha = TOKEN_ALPHABET

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<tok {self.name}>"


class Num:
    """The decimal digits, without leading zeros, of an integer v >= 0: 1 to w
    characters.  Split into single digits (one case per width) only where an
    operation needs to look inside."""
    __slots__ = ("v", "w")

    def __init__(self, v, w):
        self.v, self.w = v, w

    def __repr__(self):
        return "<num>"

    def expand(self):
        return digits(self.v, ndigits(self.v))

    def length(self):
        """An integer tied to v; decides nothing."""
        P = sym.P
        key = ("numlen", lin_key(self.v))
        n = P.hooks.get(key)
        if n is None:
            n = P.hooks[key] = P.var(f"width!{len(P.atoms)}", 1, self.w)
            for k in range(1, self.w):
                wide = self.v >= 10 ** k
                P.assume_sb(sb_or(sb_and(wide, n > k), sb_and(sb_not(wide), n <= k)))
        return n


class Run(Num):
    """A maximal run of ASCII digits: value v, `wid` (symbolic) characters."""
    __slots__ = ("wid", "cut")

    def __init__(self, v, wid):
        self.v, self.wid, self.w = v, wid, INF
        self.cut = None

    def length(self):
        return self.wid

    def at_most(self, k):
        """Decides whether the run has at most k characters."""
        if self.w <= k:
            return True
        if bool(self.wid <= k):
            self.w = k
            if k <= 300:
                sym.P.assume_sb(self.v < 10 ** k)
            if k <= 12:
                for j in range(1, k):
                    sym.P.assume_sb(sb_or(sb_not(self.wid == j), self.v < 10 ** j))
            return True
        return False

    def expand(self):
        if self.cut is None:
            for k in range(1, (self.w if self.w <= 40 else 12) + 1):
                if bool(self.wid == k):
                    sym.P.assume_sb(self.v < 10 ** k)
                    self.cut = digits(self.v, k)
                    break
            else:       # nothing is kept of how these digits make up the value
                P = sym.P
                more = Run(P.var(f"digits!{len(P.atoms)}", 0), self.wid - 12)
                self.cut = digits(P.var(f"digits!{len(P.atoms)}", 0, 10 ** 12 - 1), 12) + [more]
        return self.cut


class Padded(Num):
    """A run of at most n digits, filled up with zeros at the end to n digits."""
    __slots__ = ()

    def __init__(self, run, n):
        r = run.v
        for k in range(n - 1, 0, -1):
            r = sym.ite(run.wid == k, run.v * 10 ** (n - k), r)
        self.v, self.w = r, n
        sym.P.assume_sb(r < 10 ** n)

    def length(self):
        return self.w

    def expand(self):
        return digits(self.v, self.w)


class _All:
    def __contains__(self, x):
        return True


class _Except:
    def __init__(self, no):
        self.no = no

    def __contains__(self, x):
        return x not in self.no


class Span(Token):
    """1 or more characters, none of them in `no` (the maximal such part of a text)."""
    __slots__ = ("no", "len")

    def __init__(self, name, no, n):
        self.name, self.no, self.len = name, no, n

    @property
    def alpha(self):
        return _Except(self.no)


class Tail(Token):
    """The rest of a text: any number of any characters.  Looked into piece by piece;
    what has been found replaces it (`sub`)."""
    __slots__ = ("len", "depth", "nodigit", "ascii", "sub", "first")
    alpha = _All()
    MAX_DEPTH = 80

    def __init__(self, name, n, depth=0, nodigit=False, ascii=None, first=None):
        self.name, self.len, self.depth = name, n, depth
        self.nodigit, self.ascii, self.sub, self.first = nodigit, ascii, None, first

    def empty(self):
        if self.sub is None and bool(self.len == 0):
            self.sub = []
            if self.ascii is not None:
                sym.P.assume_sb(self.ascii == 1)
        return self.sub == []

    def _rest(self, n, **k):
        if self.depth >= self.MAX_DEPTH:
            raise Unsupported("text looked into beyond the limit")
        r = Tail(self.name, n, self.depth + 1, **k)
        if self.ascii is not None:
            r.ascii = sym.P.var(f"ascii[{self.name}]{r.depth}", 0, 1)
        return r

    def char(self):
        """Splits off the first character, if there is one."""
        if self.sub is not None or self.empty():
            return
        P = sym.P
        code = P.var(f"{self.name}[{self.depth}]", 0, 0x10FFFF)
        if self.nodigit:
            P.assume_sb(sb_or(code < 48, code > 57))
        if self.first is not None:
            P.assume_sb(self.first(code))
        r = self._rest(self.len - 1)
        if self.ascii is not None:
            both = sb_and(code <= 127, r.ascii == 1)
            P.assume_sb(sb_or(sb_and(self.ascii == 1, both),
                              sb_and(self.ascii == 0, sb_not(both))))
        self.sub = [SymChar(code), r]

    def run(self):
        """Splits off the digits at the start, if there are any."""
        if self.sub is not None or self.empty():
            return
        P = sym.P
        if self.nodigit or not bool(P.var(f"{self.name}<{self.depth}>digits", 0, 1) == 1):
            self.nodigit = True
            return self.char()
        if self.first is not None:
            raise Unsupported("digits after a span")
        w = P.var(f"{self.name}<{self.depth}>width", 1)
        v = P.var(f"{self.name}<{self.depth}>value", 0)
        P.assume_sb(w <= self.len)
        r = self._rest(self.len - w, nodigit=True)
        if self.ascii is not None:
            P.assume_sb(self.ascii == r.ascii)
        self.sub = [Run(v, w), r]

    def span(self, no):
        """Splits off the characters at the start that are not in `no`."""
        if self.sub is not None or self.empty():
            return
        P = sym.P
        if self.nodigit or self.first is not None or self.ascii is not None:
            return self.char()
        after = lambda code: sb_or(*[code == ord(x) for x in no])
        if not bool(P.var(f"{self.name}<{self.depth}>span", 0, 1) == 1):
            self.first = after
            return self.char()
        n = P.var(f"{self.name}<{self.depth}>length", 1)
        P.assume_sb(n <= self.len)
        sp = Span(f"{self.name}<{self.depth}>", no, n)
        P.hooks.setdefault("spans", {})[sp.name] = sp
        self.sub = [sp, self._rest(self.len - n, first=after)]


def flat(es):
    """The elements, with what is known of a tail in its place."""
    while es and isinstance(es[-1], Tail) and es[-1].sub is not None:
        es[-1:] = es[-1].sub
    for e in es[:-1]:
        if isinstance(e, Tail) and e.sub is not None:
            es[:] = [x for e in es for x in (flat(list(e.sub)) if isinstance(e, Tail)
                                             and e.sub is not None else [e])]
            break
    return es


def natural(v):
    """Text of an integer v >= 0."""
    if isinstance(v, int):
        return str(v)
    lo, hi = sym.P.interval(*parts(v))
    if hi < 10:
        return norm(digits(v, 1))
    if hi == INF:
        raise Unsupported("format of an unbounded integer")
    if lo < 0:
        if not bool(v >= 0):
            raise ValueError("natural text of a negative integer")
        lo = 0
    w = len(str(hi))
    if len(str(lo)) == w:
        return norm(digits(v, w))
    return SymStr([Num(v, w)])


def code_of(e):
    return ord(e) if isinstance(e, str) else e.code


def mkchar(code):
    v = code if isinstance(code, int) else None
    if isinstance(code, SymInt):
        v = code.concrete()
    return chr(v) if v is not None else SymChar(code)


def exactly(e):
    """The character e is known to be, or None."""
    if isinstance(e, str):
        return e
    lo, hi = sym.P.interval(*parts(e.code))
    return chr(lo) if lo == hi else None


def char_eq(a, b):
    if isinstance(a, Token) or isinstance(b, Token):
        raise Unsupported("token compared with a character")
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return code_of(a) == code_of(b)


def norm(elems):
    if all(isinstance(e, str) for e in elems):
        return "".join(elems)
    return SymStr(elems)


def elems_of(s):
    if isinstance(s, SymStr):
        return s.elems
    if isinstance(s, str):
        return list(s)
    raise TypeError(f"expected str, got {type(s)}")


def raw_of(s):
    """Elements with numbers left whole."""
    return s.raw if isinstance(s, SymStr) else elems_of(s)


def any_str(*xs):
    return any(isinstance(x, SymStr) for x in xs)


class SymStr:
    __slots__ = ("_e", "_thunk")

    def __init__(self, elems=None, thunk=None):
        self._e = list(elems) if elems is not None else None
        self._thunk = thunk

    @property
    def raw(self):
        if self._e is None:
            r = self._thunk()
            self._e = list(r) if isinstance(r, str) else list(r.raw)
        return flat(self._e)

    @property
    def elems(self):
        es = self.raw
        if any(isinstance(e, Num) for e in es):
            es[:] = [x for e in es for x in (e.expand() if isinstance(e, Num) else (e,))]
        return es

    def upto(self, n):
        """Elements after finding out the first n characters (fewer if the text ends)."""
        es = self.raw
        p = 0
        while p < n and p < len(es):
            if isinstance(es[p], Tail):
                es[p].char()
                es = self.raw
                continue
            if isinstance(es[p], Num):
                es = self.elems
                continue
            if isinstance(es[p], Token):
                break
            p += 1
        return es

    def truthy(self):
        es = self.raw
        if len(es) == 1 and isinstance(es[0], Tail):
            return not es[0].empty()
        return bool(es)

    def open(self):
        """The end of the text is not known yet."""
        return any(isinstance(e, Tail) for e in self.raw)

    def whole(self):
        """Some part is a number of unknown width."""
        return any(isinstance(e, Num) for e in self.raw)

    def has_token(self):
        return any(isinstance(e, Token) for e in self.raw)

    # ---- basic ---------------------------------------------------------
    def length(self):
        n = 0
        for e in self.raw:
            n = n + elem_len(e)
        return n

    def __len__(self):
        if not self.has_token():
            return len(self.elems)
        raise Unsupported("len() of a string with an opaque part")

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(thunk=lambda: SymStr(self.raw + raw_of(o)))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(thunk=lambda: SymStr(raw_of(o) + self.raw))

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return self if bool(o) else ""
        if isinstance(o, SymInt):
            v = o.concrete()
            if v is None:
                lo, hi = sym.P.interval(o.co, o.k)
                if lo >= 0 and hi <= 1:
                    return self if bool(o == 1) else ""
                raise Unsupported("string repetition")
            o = v
        if isinstance(o, int):
            return norm(self.raw * int(o))
        return NotImplemented

    __rmul__ = __mul__

    def _pos(self, i, default):
        """Element index of character position i (tokens make some unknown)."""
        es = self.raw
        if i is None:
            return default
        if self.open() and isinstance(i, int) and i >= 0:
            es = self.upto(i)
            if len(es) <= i and not any(isinstance(e, Token) for e in es):
                return len(es)
        if isinstance(i, (SymInt, SymBool)):
            # position past a token: solve i == prefix length
            acc = 0
            for p, e in enumerate(es):
                if lin_key(acc) == lin_key(i):
                    return p
                acc = acc + elem_len(e)
            if lin_key(acc) == lin_key(i):
                return len(es)
            raise Unsupported("slice at symbolic position")
        if not any(isinstance(e, (Token, Num)) for e in es):
            n = len(es)
            if i < 0:
                return max(0, n + i)
            return min(i, n)
        if i >= 0:
            for p, e in enumerate(es):
                if p == i:
                    return p
                if isinstance(e, (Token, Num)):
                    raise Unsupported("slice position beyond opaque part")
            raise Unsupported("slice position beyond opaque part")
        for back in range(1, len(es) + 1):
            if isinstance(es[-back], (Token, Num)):
                raise Unsupported("slice position before opaque part")
            if back == -i:
                return len(es) - back
        raise Unsupported("slice")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if i.step == -1 and i.start is None and i.stop is None:
                    return norm(self.elems[::-1])
                raise Unsupported("stepped slice")
            if self.whole():
                try:
                    while True:
                        n = len(self.raw)
                        a = self._pos(i.start, 0)
                        b = self._pos(i.stop, len(self.raw))
                        if len(self.raw) == n:
                            return norm(self.raw[a:b])
                except Unsupported:
                    self.elems      # look inside the numbers
            while True:
                n = len(self.raw)
                a = self._pos(i.start, 0)
                b = self._pos(i.stop, len(self.raw))
                if len(self.raw) == n:      # positions not moved by looking closer
                    return norm(self.raw[a:b])
        if isinstance(i, int) and self.open() and i >= 0:
            es = self.upto(i + 1)
            if len(es) <= i and not self.open():
                raise IndexError("string index out of range")
        if isinstance(i, int) and self.whole():
            try:
                p = self._pos(i, 0)
                if not isinstance(self.raw[p], (Num, Token)):
                    return norm([self.raw[p]])
            except Unsupported:
                pass
        es = self.elems
        if not self.has_token():
            return norm([es[i]])  # IndexError as in CPython
        p = self._pos(i, 0)
        if isinstance(es[p], Token):
            raise Unsupported("character inside opaque part")
        return norm([es[p]])

    def __iter__(self):
        for e in self.elems:
            if isinstance(e, Token):
                raise Unsupported("iterate over opaque part")
            yield norm([e])

    def eq(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        if self.open():
            if isinstance(o, SymStr) and (o.has_token() or o.whole()):
                raise Unsupported("comparison of open texts")
            n = len(elems_of(o))
            es = self.upto(n + 1)
            if self.open() or any(isinstance(e, (Num, Token)) for e in es):
                if self.open() and len(es) > n and not any(
                        isinstance(e, Token) for e in es[:n + 1]):
                    return False
                raise Unsupported("comparison of open texts")
        if self.whole() or (isinstance(o, SymStr) and o.whole()):
            r = _eq_whole(self.raw, raw_of(o))
            if r is not None:
                return r
        a, b = self.elems, elems_of(o)
        if not any(isinstance(e, Token) for e in a) and not any(
                isinstance(e, Token) for e in b):
            if len(a) != len(b):
                return False
            return sb_and(*[char_eq(x, y) for x, y in zip(a, b)])
        # align around tokens
        ta = [i for i, e in enumerate(a) if isinstance(e, Token)]
        tb = [i for i, e in enumerate(b) if isinstance(e, Token)]
        if len(a) == len(b) and ta == tb and all(a[i] is b[i] for i in ta):
            return sb_and(*[char_eq(x, y) for i, (x, y) in enumerate(zip(a, b))
                            if i not in ta])
        if len(a) == len(b) == 1 and ta and tb:
            return a[0] is b[0]
        # a token never equals a literal that it was not built from
        if len(a) == 1 and ta and not tb:
            if any(isinstance(e, str) and e not in a[0].alpha for e in b) or not b:
                return False
            return False if tokens_are_fresh(b) else _unsup("token vs literal")
        if len(b) == 1 and tb and not ta:
            return SymStr(b).eq(SymStr(a))
        if len(a) != len(b) or ta != tb:
            raise Unsupported("comparison of strings with opaque parts")
        return False

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self.eq(o)

    def __ne__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return sb_not(self.eq(o))

    def __hash__(self):
        es = self.elems
        if len(es) == 1 and isinstance(es[0], Token):
            return hash(("token", es[0].name))
        raise Unsupported("hash of a symbolic string")

    def __bool__(self):
        return self.truthy()

    def __repr__(self):
        return f"SymStr({self._e if self._e is not None else '<lazy>'})"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        raise Unsupported("native format of a symbolic string")

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        xs = elems_of(x)
        es = self.elems
        alts = []
        for i in range(len(es) - len(xs) + 1):
            cs = []
            for a, b in zip(es[i:i + len(xs)], xs):
                if isinstance(a, Token):
                    if isinstance(b, str) and b not in a.alpha:
                        cs.append(False)
                        break
                    raise Unsupported("substring test on opaque part")
                cs.append(char_eq(a, b))
            alts.append(sb_and(*cs))
        return sb_or(*alts)

    # ---- methods ---------------------------------------------------------
    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return sb_or(*[self.startswith(x, start) for x in p])
        ps = elems_of(p)
        if self.open():
            self.upto(start + len(ps))
        es = self.raw[start:]
        if any(isinstance(e, Num) for e in self.raw[:start + len(ps)]):
            es = self.elems[start:]
        cs = []
        for i, x in enumerate(ps):
            if i >= len(es):
                return False
            e = es[i]
            if isinstance(e, Token):
                if isinstance(x, str) and x not in e.alpha:
                    return False
                raise Unsupported("startswith on opaque part")
            cs.append(char_eq(e, x))
        return sb_and(*cs)

    def endswith(self, p):
        if isinstance(p, tuple):
            return sb_or(*[self.endswith(x) for x in p])
        ps = elems_of(p)
        es = self.raw
        if ps and any(isinstance(e, Num) for e in es[-len(ps):]):
            es = self.elems
        cs = []
        for i, x in enumerate(reversed(ps)):
            if i >= len(es):
                return False
            e = es[-1 - i]
            if isinstance(e, Token):
                if isinstance(x, str) and x not in e.alpha:
                    return False
                raise Unsupported("endswith on opaque part")
            cs.append(char_eq(e, x))
        return sb_and(*cs)

    def _in_set(self, e, chars):
        if isinstance(e, Token):
            if chars and not any(ch in e.alpha for ch in chars):
                return False
            raise Unsupported("strip on opaque part")
        if chars is None:
            return code_in(code_of(e), [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0)])
        return sb_or(*[char_eq(e, c) for c in chars])

    def rstrip(self, chars=None):
        es = list(self.raw)
        while es:
            if isinstance(es[-1], Num):
                if chars is None or not set(chars) & set("0123456789"):
                    break
                es = es[:-1] + es[-1].expand()
            if not bool(self._in_set(es[-1], chars)):
                break
            es.pop()
        return norm(es)

    def lstrip(self, chars=None):
        es = list(self.raw)
        while es:
            if isinstance(es[0], Num):
                if chars is None or not set(chars) & set("0123456789"):
                    break
                es = es[0].expand() + es[1:]
            if not bool(self._in_set(es[0], chars)):
                break
            es.pop(0)
        return norm(es)

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars)

    def ljust(self, n, fill=" "):
        es = self.raw
        if fill == "0" and len(es) == 1 and isinstance(es[0], Run) and es[0].w <= n <= 12:
            return SymStr([Padded(es[0], n)])
        return norm(self.elems + [fill] * max(0, n - len(self)))

    def rjust(self, n, fill=" "):
        return norm([fill] * max(0, n - len(self)) + self.elems)

    def zfill(self, n):
        es = self.elems
        if es and bool(sb_or(char_eq(es[0], "+"), char_eq(es[0], "-"))):
            return norm(es[:1] + ["0"] * max(0, n - len(es)) + es[1:])
        return self.rjust(n, "0")

    def isascii(self):
        tails = []
        for e in self.raw:
            if isinstance(e, Tail):
                if e.ascii is None:
                    e.ascii = sym.P.var(f"ascii[{e.name}]{e.depth}", 0, 1)
                tails.append(e.ascii == 1)
            elif isinstance(e, Span):
                raise Unsupported("isascii of an open text")
        if tails:
            return sb_and(*tails, *[code_of(e) <= 127 for e in self.raw
                                    if not isinstance(e, (Token, Num))])
        return sb_and(*[code_of(e) <= 127 for e in self.raw
                        if not isinstance(e, (str, Token, Num))],
                      all(e.isascii() for e in self.raw if isinstance(e, str)))

    def isdigit(self):
        es = self.elems
        if not es:
            return False
        cs = []
        for e in es:
            if isinstance(e, Token):
                raise Unsupported("isdigit on opaque part")
            if isinstance(e, str):
                cs.append(e.isdigit())
            else:
                cs.append(code_in(e.code, ISDIGIT_RANGES()))
        return sb_and(*cs)

    def isdecimal(self):
        es = self.elems
        if not es:
            return False
        return sb_and(*[e.isdecimal() if isinstance(e, str)
                        else code_in(e.code, DECIMAL_RANGES()) for e in es])

    def removesuffix(self, p):
        if len(elems_of(p)) and bool(self.endswith(p)):
            return norm(self.elems[:len(self.elems) - len(elems_of(p))])
        return self

    def removeprefix(self, p):
        if len(elems_of(p)) and bool(self.startswith(p)):
            return norm(self.elems[len(elems_of(p)):])
        return self

    def replace(self, a, b, count=-1):
        a, b = elems_of(a), elems_of(b)
        if len(a) != 1:
            raise Unsupported("replace of a multi-character string")
        out = []
        for e in self.elems:
            if count != 0:
                if isinstance(e, Token):
                    if isinstance(a[0], str) and a[0] not in e.alpha:
                        out.append(e)
                        continue
                    raise Unsupported("replace on opaque part")
                if bool(char_eq(e, a[0])):
                    out.extend(b)
                    count -= 1
                    continue
            out.append(e)
        return norm(out)

    def find(self, x, start=0):
        xs = elems_of(x)
        es = self.elems
        for i in range(start, len(es) - len(xs) + 1):
            cs = []
            for a, b in zip(es[i:i + len(xs)], xs):
                if isinstance(a, Token):
                    if isinstance(b, str) and b not in a.alpha:
                        cs.append(False)
                        break
                    raise Unsupported("find on opaque part")
                cs.append(char_eq(a, b))
            if bool(sb_and(*cs)):
                return SymStr(es[:i]).length()
        return -1

    def index(self, x, start=0):
        r = self.find(x, start)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def rfind(self, x):
        xs = elems_of(x)
        es = self.elems
        for i in range(len(es) - len(xs), -1, -1):
            cs = []
            for a, b in zip(es[i:i + len(xs)], xs):
                if isinstance(a, Token):
                    if isinstance(b, str) and b not in a.alpha:
                        cs.append(False)
                        break
                    raise Unsupported("rfind on opaque part")
                cs.append(char_eq(a, b))
            if bool(sb_and(*cs)):
                return SymStr(es[:i]).length()
        return -1

    def _cut(self, x):
        """Index of the first element equal to the non-digit character x, or -1."""
        if not (isinstance(x, str) and len(x) == 1 and not x.isdigit() and self.whole()):
            return None
        for p, e in enumerate(self.raw):
            if isinstance(e, Token):
                return None
            if not isinstance(e, Num) and bool(char_eq(e, x)):
                return p
        return -1

    def partition(self, x):
        p = self._cut(x)
        if p is not None:
            if p == -1:
                return self, "", ""
            return norm(self.raw[:p]), x, norm(self.raw[p + 1:])
        i = self.find(x)
        if isinstance(i, int) and i == -1:
            return self, "", ""
        n = len(elems_of(x))
        return self[:i], x, self[i + n:]

    def rpartition(self, x):
        i = self.rfind(x)
        if isinstance(i, int) and i == -1:
            return "", "", self
        n = len(elems_of(x))
        return self[:i], x, self[i + n:]

    def split(self, sep=None, maxsplit=-1):
        out, curr = [], []
        es = list(self.elems)
        if sep is None:
            for i, e in enumerate(es):
                ws = False if isinstance(e, Token) else bool(self._in_set(e, None))
                if ws:
                    if curr:
                        out.append(norm(curr))
                        curr = []
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            rest = norm(es[i + 1:])
                            rest = rest.lstrip()
                            if len(rest):
                                out.append(rest)
                            return out
                else:
                    curr.append(e)
            if curr:
                out.append(norm(curr))
            return out
        if len(elems_of(sep)) != 1:
            raise Unsupported("split by long separator")
        for e in es:
            hit = False
            if maxsplit < 0 or len(out) < maxsplit:
                if isinstance(e, Token):
                    if sep in e.alpha:
                        raise Unsupported("split on opaque part")
                else:
                    hit = bool(char_eq(e, sep))
            if hit:
                out.append(norm(curr))
                curr = []
            else:
                curr.append(e)
        out.append(norm(curr))
        return out

    def count(self, x):
        n = 0
        for e in self.elems:
            if isinstance(e, Token):
                if x in e.alpha:
                    raise Unsupported("count on opaque part")
                continue
            n = n + (1 if bool(char_eq(e, x)) else 0)
        return n

    def _case(self, up):
        out = []
        for e in self.elems:
            if isinstance(e, str):
                out.append(e.upper() if up else e.lower())
            elif isinstance(e, Token):
                raise Unsupported("case change of opaque part")
            else:
                lo, hi = sym.P.interval(*parts(e.code))
                if 48 <= lo and hi <= 57:
                    out.append(e)
                else:
                    raise Unsupported("case change of symbolic character")
        return norm(out)

    def lower(self):
        return self._case(False)

    def upper(self):
        return self._case(True)

    def encode(self, *a):
        raise Unsupported("encode")

    def join(self, it):
        return join(self, it)


def elem_len(e):
    if isinstance(e, (Tail, Span)):
        return e.len
    if isinstance(e, Token):
        return sym.P.var(f"len[{e.name}]", 1, 255)
    return e.length() if isinstance(e, Num) else 1


def _runs(es):
    """The text as segments: a whole number, a maximal run of characters that are surely
    digits, or one other element.  None if a number may continue in the next element."""
    out = []
    for e in es:
        if isinstance(e, Run):
            return None
        if isinstance(e, Num):
            if out and out[-1][0] in ("num", "run", "any"):
                return None
            out.append(("num", e))
            continue
        if isinstance(e, Token):
            k = "any"
        elif isinstance(e, str):
            k = "run" if e in "0123456789" else "chr"
        else:
            lo, hi = sym.P.interval(*parts(e.code))
            k = "run" if lo >= 48 and hi <= 57 else "chr" if hi < 48 or lo > 57 else "any"
        if k == "run" and out and out[-1][0] == "run":
            out[-1][1].append(e)
            continue
        if k in ("run", "any") and out and out[-1][0] == "num":
            return None
        out.append((k, [e]))
    return out


def _eq_whole(a, b):
    """Equality of texts with whole numbers, where they have the same layout: read from
    the left, every number ends at the same non-digit character on both sides."""
    ra, rb = _runs(a), _runs(b)
    if ra is None or rb is None or len(ra) != len(rb):
        return None
    cs = []
    for (ka, x), (kb, y) in zip(ra, rb):
        if "num" in (ka, kb):
            if ka == kb:
                cs.append(x.v == y.v)
                continue
            if kb == "num":
                ka, x, kb, y = kb, y, ka, x
            if kb != "run":
                return None
            cs.append(x.v == parse_int(SymStr(y)))
            if len(y) > 1:
                cs.append(sb_not(char_eq(y[0], "0")))
        elif len(x) != len(y):
            return None
        else:
            for e, f in zip(x, y):
                if isinstance(e, Token) or isinstance(f, Token):
                    if e is not f:
                        return None
                else:
                    cs.append(char_eq(e, f))
    return sb_and(*cs)


def _unsup(m):
    raise Unsupported(m)


def tokens_are_fresh(_):
    return True


def join(sep, it):
    out = []
    se = raw_of(sep)
    for i, x in enumerate(it):
        if i:
            out.extend(se)
        out.extend(raw_of(x))
    return norm(out)


# ---- character classes -------------------------------------------------
_DEC = None
_DIG = None


def _ranges(pred):
    out = []
    start = None
    for cp in range(0x110000):
        if pred(chr(cp)):
            if start is None:
                start = cp
        elif start is not None:
            out.append((start, cp - 1))
            start = None
    return out


def DECIMAL_RANGES():
    global _DEC
    if _DEC is None:
        _DEC = _ranges(str.isdecimal)
    return _DEC


def ISDIGIT_RANGES():
    global _DIG
    if _DIG is None:
        _DIG = _ranges(str.isdigit)
    return _DIG


def code_in(code, ranges):
    if isinstance(code, int):
        return any(a <= code <= b for a, b in ranges)
    lo, hi = sym.P.interval(*parts(code))
    alts = []
    for a, b in ranges:
        if b < lo or a > hi:
            continue
        if a <= lo and hi <= b:
            return True
        alts.append(sb_and(code >= a, code <= b))
    return sb_or(*alts)


# ---- digits ------------------------------------------------------------
def digits(v, width):
    """Digit characters of 0 <= v < 10**width, most significant first."""
    if isinstance(v, int):
        s = str(v).rjust(width, "0")
        assert len(s) == width, (v, width)
        return list(s)
    P = sym.P
    lo, hi = P.interval(*parts(v))
    key = ("digitsum", lin_key(v), width)
    ds = P.hooks.get(key)
    if ds is None:
        atoms = []
        total = 0
        for i in range(width):
            if hi < 10 ** i:
                atoms.append(0)
                continue
            a, _ = P.new_atom(("dig", lin_key(v), i), sym.z3.Int(f"d{i}!{len(P.atoms)}")
                              if ("dig", lin_key(v), i) not in P.by_key
                              else None, 0, 9, f"d{i}")
            d = mk({a.id: 1}, 0)
            atoms.append(d)
            total = total + d * 10 ** i
        P.assume_sb(total == v) if not isinstance(total, int) else None
        if isinstance(total, SymInt):
            P.hooks.setdefault("digsum", {})[(total.co, total.k)] = v
        ds = P.hooks[key] = atoms
    return [mkchar(d + 48) for d in reversed(ds)]


def format_int(v, spec=""):
    """Exact model of format(int, spec) for the specs str/f-strings use."""
    if isinstance(v, SymBool):
        v = v.as_int()
    if isinstance(v, int):
        return format(v, spec)
    m = _re.fullmatch(r"(?:(.)?([<>=^]))?([+ -])?(0)?(\d+)?([d])?", spec)
    if not m:
        raise Unsupported(f"format spec {spec!r}")
    fill, align, sign, zero, width, _ = m.groups()
    width = int(width or 0)
    if align is None:
        align = "=" if zero else ">"
        fill = "0" if zero else " "
    else:
        fill = fill or ("0" if zero else " ")
    P = sym.P
    neg = bool(v < 0)
    a = -v if neg else v
    sg = ["-"] if neg else (["+"] if sign == "+" else [" "] if sign == " " else [])
    body_w = width - len(sg)
    if fill == "0" and align in "=>" and not (sg and align == ">"):
        # zero padded: only fork when more digits than the width are possible
        lo, hi = P.interval(*parts(a))
        w = max(body_w, 1)
        while not (hi < 10 ** w):
            if hi == INF and w > 30:
                raise Unsupported("format of an unbounded integer")
            if bool(a < 10 ** w):
                break
            w += 1
            lo, hi = P.interval(*parts(a))
        return norm(sg + digits(a, w))
    if not width and not isinstance(a, int):
        return norm(sg + raw_of(natural(a)))
    n = ndigits(a)
    body = sg + digits(a, n)
    pad = max(0, width - len(body))
    if align == ">":
        body = [fill] * pad + body
    elif align == "<":
        body = body + [fill] * pad
    elif align == "=":
        body = sg + [fill] * pad + body[len(sg):]
    else:
        raise Unsupported("centered format")
    return norm(body)


def ndigits(a):
    P = sym.P
    if isinstance(a, int):
        return len(str(a))
    w = 1
    while True:
        lo, hi = P.interval(*parts(a))
        if hi < 10 ** w:
            return w
        if lo < 10 ** w and bool(a < 10 ** w):
            return w
        w += 1
        if w > 40:
            raise Unsupported("format of an unbounded integer")


def format_float(f, spec):
    m = _re.fullmatch(r"\.(\d+)f", spec)
    if not m:
        raise Unsupported(f"float format {spec!r}")
    p = int(m[1])
    if f.err is None or not isinstance(f.den, int):
        raise Unsupported("format of unbounded float")
    # nearest multiple of 10**-p when num/den is one and err is small
    num = f.num * 10 ** p
    q, r = divmod(num, f.den)
    if not bool(r == 0) or f.err * 10 ** p >= Fraction(1, 2):
        raise Unsupported("inexact float formatting")
    neg = bool(q < 0)
    a = -q if neg else q
    hi, lo = divmod(a, 10 ** p)
    s = format_int(hi, "")
    out = (["-"] if neg else []) + list(raw_of(s))
    if p:
        out += ["."] + digits(lo, p)
    return norm(out)


class ReprStr(SymStr):
    """Text of an error message or repr: contents deliberately unspecified."""
    __slots__ = ()


def opaque(msg="opaque text"):
    def f():
        raise Unsupported(msg)
    return SymStr(thunk=f)


def to_str(v):
    """str(v)"""
    if isinstance(v, (SymStr, str)):
        return v
    if isinstance(v, (SymInt, SymBool)):
        if isinstance(v, SymBool):
            return "True" if bool(v) else "False"
        return format_int(v, "")
    if isinstance(v, SymFloat):
        return opaque("str of a symbolic float")
    return None


def parse_int(s):
    """int(str)"""
    es = raw_of(s)
    for e in es:
        if isinstance(e, (str, SymChar)):
            a = exactly(e)
            if a is not None and not (a.isdecimal() or a in "+-_" or a.isspace()):
                raise ValueError("invalid literal for int()")
    if len(es) == 1 and isinstance(es[0], Num):
        if isinstance(es[0], Run) and not es[0].at_most(4300):
            raise ValueError("Exceeds the limit (4300 digits) for integer string conversion")
        return es[0].v
    es = elems_of(s)
    P = sym.P
    if not es:
        raise ValueError("invalid literal for int()")
    if any(isinstance(e, Token) for e in es):
        raise Unsupported("int() of opaque text")
    # strip whitespace / sign on concrete characters only
    while es and isinstance(es[0], str) and es[0].isspace():
        es = es[1:]
    while es and isinstance(es[-1], str) and es[-1].isspace():
        es = es[:-1]
    sign = 1
    if es and isinstance(es[0], str) and es[0] in "+-":
        sign = -1 if es[0] == "-" else 1
        es = es[1:]
    if not es:
        raise ValueError("invalid literal for int()")
    total = 0
    for i, e in enumerate(es):
        d = digit_value(e)
        total = total * 10 + d
    if isinstance(total, SymInt):
        v = P.hooks.get("digsum", {}).get((total.co, total.k))
        if v is not None:
            total = v
    return sign * total


def digit_value(e):
    if isinstance(e, str):
        if not e.isdecimal():
            if e in "_" or e.isspace():
                raise Unsupported("int() of text with underscore/whitespace")
            raise ValueError("invalid literal for int()")
        return unicodedata.decimal(e)
    code = e.code
    lo, hi = sym.P.interval(*parts(code))
    if lo >= 48 and hi <= 57:
        return code - 48
    if bool(code_in(code, [(48, 57)])):
        return code - 48
    if bool(code_in(code, DECIMAL_RANGES())):
        # non-ASCII digits: each block starts at a known code point
        for a, b in DECIMAL_RANGES():
            for base in range(a, b, 10):
                if bool(code_in(code, [(base, base + 9)])):
                    return code - base
        raise Unsupported("unicode digit")
    # whitespace, sign or underscore inside symbolic text is not modelled
    if bool(code_in(code, [(9, 13), (28, 32), (43, 43), (45, 45), (95, 95)])):
        raise Unsupported("int() of symbolic sign/space/underscore")
    lo, hi = sym.P.interval(*parts(code))
    if hi > 127 and bool(code_in(code, [(0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680),
                                        (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F),
                                        (0x205F, 0x205F), (0x3000, 0x3000)])):
        raise Unsupported("int() of symbolic unicode space")
    raise ValueError("invalid literal for int()")


def parse_float(s):
    es = elems_of(s)
    if any(isinstance(e, Token) for e in es):
        raise Unsupported("float() of opaque text")
    num, scale, seen = 0, 0, False
    if not es:
        raise ValueError("could not convert string to float")
    nd = 0
    for e in es:
        if isinstance(e, str) and e == ".":
            if seen:
                raise ValueError("could not convert string to float")
            seen = True
            continue
        num = num * 10 + digit_value(e)
        nd += 1
        if seen:
            scale += 1
    if nd == 0:
        raise ValueError("could not convert string to float")
    if isinstance(num, int):
        return float("".join(es))
    f = SymFloat(num, 10 ** scale)
    m = f.mag()
    if scale == 0 and m is not None and m <= 2 ** 53:
        return f
    f.err = None if m is None else m * Fraction(1, 2 ** 53)
    return f


# ---- regular expressions -------------------------------------------------
def _cat_ranges(cat, ascii_):
    n = str(cat)
    if n.endswith("NOT_DIGIT") or n.endswith("NOT_SPACE") or n.endswith("NOT_WORD"):
        return None
    if n.endswith("DIGIT"):
        return [(48, 57)] if ascii_ else DECIMAL_RANGES()
    if n.endswith("SPACE"):
        return [(9, 13), (32, 32)] if ascii_ else [
            (9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680),
            (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F),
            (0x205F, 0x205F), (0x3000, 0x3000)]
    if n.endswith("WORD"):
        if ascii_:
            return [(48, 57), (65, 90), (95, 95), (97, 122)]
    return None


class NeedDigits(Exception):
    """The match depends on the single digits of a number."""


class SymRegex:
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags
        self.real = _re.compile(pattern, flags)
        self.tree = _sre.parse(pattern, flags)
        self.ascii = bool(self.real.flags & _re.ASCII)
        self.icase = bool(self.real.flags & _re.IGNORECASE)
        self.ngroups = self.real.groups

    # public API
    def fullmatch(self, s):
        if isinstance(s, str):
            return self.real.fullmatch(s)
        if not isinstance(s, SymStr):
            raise TypeError("expected string")
        return self._run(s, 0, full=True)

    def match(self, s):
        if isinstance(s, str):
            return self.real.match(s)
        if not isinstance(s, SymStr):
            raise TypeError("expected string")
        return self._run(s, 0, full=False)

    def search(self, s):
        if isinstance(s, str):
            return self.real.search(s)
        for i in range(len(s.elems) + 1):
            m = self._run(s, i, full=False)
            if m is not None:
                return m
        return None

    def _run(self, s, start, full):
        if s.whole():
            try:
                return self._run1(s.raw, start, full)
            except NeedDigits:
                pass
        for _ in range(9):
            try:
                return self._run1(s.elems, start, full)
            except NeedDigits:
                pass
        raise Unsupported("regex over digits of an open text")

    def _run1(self, es, start, full):
        groups = {}

        def done(pos):
            if full and pos == int(pos) == len(es) - 1 and isinstance(es[pos], Tail) and (
                    es[pos].empty()):
                flat(es)
            if full and pos != len(es):
                return None
            if pos != int(pos):
                raise NeedDigits
            return pos
        end = self._seq(list(self.tree), 0, es, start, groups, done)
        if end is None:
            return None
        return SymMatch(self, es, start, end, dict(groups))

    def _seq(self, nodes, i, es, pos, groups, k):
        if i == len(nodes):
            return k(pos)
        op, av = nodes[i]
        nxt = lambda p: self._seq(nodes, i + 1, es, p, groups, k)
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.IN, _c.ANY):
            self._look(es, pos, "char")
            if pos >= len(es):
                return None
            e = es[int(pos)]
            if isinstance(e, Num):      # next character: some digit
                if any(self._char(op, av, d) for d in "0123456789"):
                    raise NeedDigits
                return None
            if isinstance(e, Token):
                r = self._token_class(op, av, e)
                if r is False:
                    return None
                raise Unsupported("single regex character against opaque part")
            if bool(self._char(op, av, e)):
                return nxt(pos + 1)
            return None
        if op is _c.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported("inline regex flags")
            old = groups.get(g)

            def close(p):
                saved = groups.get(g)
                if g is not None:
                    groups[g] = (pos, p)
                r = nxt(p)
                if r is None and g is not None:
                    if saved is None:
                        groups.pop(g, None)
                    else:
                        groups[g] = saved
                return r
            return self._seq(list(sub), 0, es, pos, groups, close)
        if op is _c.BRANCH:
            for alt in av[1]:
                r = self._seq(list(alt), 0, es, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op is _c.AT:
            n = str(av)
            if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                if self.real.flags & _re.MULTILINE:
                    raise Unsupported("multiline")
                return nxt(pos) if pos == 0 else None
            if pos == int(pos):
                self._look(es, pos, "char")
            if n == "AT_END_STRING":
                return nxt(pos) if pos == len(es) else None
            if n == "AT_END":
                if pos == len(es):
                    return nxt(pos)
                if pos == len(es) - 2 and isinstance(es[-1], Tail) and es[-1].empty():
                    flat(es)
                if pos == len(es) - 1 and not isinstance(es[pos], Token) and bool(
                        char_eq(es[pos], "\n")):
                    return nxt(pos)
                return None
            raise Unsupported(f"regex anchor {n}")
        if op is _c.MAX_REPEAT or op is _c.MIN_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is _c.MAX_REPEAT
            if len(sub) == 1 and sub[0][0] in (_c.LITERAL, _c.NOT_LITERAL, _c.IN, _c.ANY):
                return self._repeat_char(sub[0], lo, hi, greedy, es, pos, nxt)

            def rep(n, p):
                def more(q):
                    if q == p and n >= lo:
                        return None
                    return rep(n + 1, q)
                can_more = hi is _c.MAXREPEAT or n < hi
                if n < lo:
                    return self._seq(sub, 0, es, p, groups, more)
                if greedy:
                    if can_more:
                        saved = dict(groups)
                        r = self._seq(sub, 0, es, p, groups, more)
                        if r is not None:
                            return r
                        groups.clear()
                        groups.update(saved)
                    return nxt(p)
                r = nxt(p)
                if r is None and can_more:
                    return self._seq(sub, 0, es, p, groups, more)
                return r
            return rep(0, pos)
        raise Unsupported(f"regex construct {op}")

    def _repeat_char(self, node, lo, hi, greedy, es, pos, nxt):
        op, av = node
        mx = float("inf") if hi is _c.MAXREPEAT else hi
        ends = [pos]
        p, n, most = pos, 0, 0      # characters consumed: n to most
        ntok = 0
        how = self._how(node, lo, hi)
        while p < len(es) and n < mx:
            self._look(es, p, how)
            if p >= len(es):
                break
            e = es[int(p)]
            if mx != float('inf') and most >= mx:
                if not isinstance(e, Token) and not bool(self._char(op, av, e)):
                    break
                raise NeedDigits
            if isinstance(e, Num):
                acc = {bool(self._char(op, av, d)) for d in "0123456789"}
                if acc == {False}:
                    break
                if len(acc) == 2 or p != int(p) or lo > n + 1:
                    raise NeedDigits
                if isinstance(e, Run) and mx != float("inf"):
                    if not e.at_most(mx - most):
                        # the longest match ends inside the run
                        ends.append(p + 0.5)
                        break
                if most + e.w > mx:
                    raise NeedDigits
                # p + 0.5: somewhere inside the number
                ends += [p + 0.5, p + 1]
                p, n, most = p + 1, n + 1, most + e.w
                continue
            if isinstance(e, Token):
                r = self._token_class(op, av, e)
                if r is False:
                    break
                if r is None or ntok or n or lo > 1 or (mx < 255 and not isinstance(e, Span)):
                    raise Unsupported("regex repetition over opaque part")
                if isinstance(e, Span) and mx != float("inf") and not bool(e.len <= mx):
                    # the longest match ends inside the part
                    if nxt(p + 0.5) is not None:
                        raise NeedDigits
                    return None
                if p != int(p):
                    raise Unsupported("regex repetition inside an opaque part")
                ntok = 1
                ends.append(p + 0.5)
                p += 1
                # all of the token (1..255 characters) is consumed at once
                n += 1
                ends.append(p)
                self._look(es, p, "char")
                if p < len(es) and not isinstance(es[p], Token):
                    if bool(self._char(op, av, es[p])):
                        raise Unsupported("regex repetition past opaque part")
                break
            if not bool(self._char(op, av, e)):
                break
            p += 1
            n += 1
            most += 1
            ends.append(p)
        order = range(len(ends) - 1, lo - 1, -1) if greedy else range(lo, len(ends))
        for j in order:
            r = nxt(ends[j])
            if r is not None:
                return r
        return None

    def _look(self, es, pos, how):
        """Finds out what comes at pos, if that is not known yet."""
        if pos != int(pos):
            return
        if pos < len(es) and isinstance(es[pos], Tail):
            t = es[pos]
            if how == "char":
                t.char()
            elif how == "run":
                t.run()
            else:
                t.span(how)
            flat(es)

    def _how(self, node, lo, hi):
        """How a repeated character class looks into an unknown text."""
        op, av = node
        if lo > 1 or hi is not _c.MAXREPEAT and hi <= 1:
            return "char"
        if op is _c.IN and len(av) == 1 and (
                str(av[0][1]).endswith("CATEGORY_DIGIT") and self.ascii
                or av[0] == (_c.RANGE, (48, 57))):
            return "run"
        if (hi is _c.MAXREPEAT or hi > 60) and _excluded(op, av):
            return _excluded(op, av)
        return "char"

    def _token_class(self, op, av, e):
        """True: every token character accepted; False: none; None: mixed."""
        if isinstance(e, Tail):
            return None
        if isinstance(e, Span):
            if op is _c.LITERAL and chr(av) in e.no:
                return False
            return True if _excluded(op, av) == e.no else None
        res = {bool(self._char(op, av, c)) for c in TOKEN_ALPHABET}
        return res.pop() if len(res) == 1 else None

    def _char(self, op, av, e):
        code = code_of(e)
        if self.icase:
            raise Unsupported("case-insensitive regex on symbolic text")
        if op is _c.LITERAL:
            return code == av
        if op is _c.NOT_LITERAL:
            return sb_not(code == av) if not isinstance(code, int) else code != av
        if op is _c.ANY:
            return sb_not(code == 10) if not isinstance(code, int) else code != 10
        neg = False
        alts = []
        for o, a in av:
            if o is _c.NEGATE:
                neg = True
            elif o is _c.LITERAL:
                alts.append(code == a)
            elif o is _c.RANGE:
                alts.append(code_in(code, [a]))
            elif o is _c.CATEGORY:
                r = _cat_ranges(a, self.ascii)
                if r is None:
                    pos = str(a).replace("NOT_", "")
                    if "NOT_" not in str(a):
                        raise Unsupported(f"regex category {a}")
                    r = _cat_ranges(pos, self.ascii)
                    if r is None:
                        raise Unsupported(f"regex category {a}")
                    alts.append(sb_not(code_in(code, r)))
                else:
                    alts.append(code_in(code, r))
            else:
                raise Unsupported(f"regex set item {o}")
        r = sb_or(*alts)
        return sb_not(r) if neg else r


def _excluded(op, av):
    """The characters a negated class leaves out."""
    if op is _c.NOT_LITERAL:
        return chr(av)
    if op is _c.IN and len(av) > 1 and av[0][0] is _c.NEGATE and all(
            o is _c.LITERAL for o, _ in av[1:]):
        return "".join(sorted(chr(x) for _, x in av[1:]))
    return None


class SymMatch:
    def __init__(self, rx, es, start, end, groups):
        self.rx, self.es, self._s, self._e, self._g = rx, list(es), start, end, groups

    def _get(self, i, default=None):
        if i == 0:
            return norm(self.es[self._s:self._e])
        if isinstance(i, str):
            i = self.rx.real.groupindex[i]
        if not 0 <= i <= self.rx.ngroups:
            raise IndexError("no such group")
        sp = self._g.get(i)
        return default if sp is None else norm(self.es[sp[0]:sp[1]])

    def group(self, *idx):
        if not idx:
            return self._get(0)
        if len(idx) == 1:
            return self._get(idx[0])
        return tuple(self._get(i) for i in idx)

    def __getitem__(self, i):
        return self._get(i)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.rx.ngroups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.rx.real.groupindex.items()}

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    def span(self, i=0):
        if any(isinstance(e, Token) for e in self.es):
            raise Unsupported("match span with opaque part")
        return (self._s, self._e) if i == 0 else self._g.get(i, (-1, -1))

    @property
    def lastindex(self):
        raise Unsupported("lastindex")


# ---- reading a text ------------------------------------------------------------
class Cursor:
    """Reads a text from the left, for specifications."""

    def __init__(self, s):
        self.es, self.i = list(s.raw if isinstance(s, SymStr) else s), 0

    def _peek(self, how="char"):
        es = flat(self.es)
        while self.i < len(es) and isinstance(es[self.i], Tail):
            t = es[self.i]
            if how == "char":
                t.char()
            elif how == "run":
                t.run()
            else:
                t.span(how)
            flat(es)
        return es[self.i] if self.i < len(es) else None

    def end(self):
        es = flat(self.es)
        if self.i < len(es) and isinstance(es[self.i], Tail):
            es[self.i].empty()
            flat(es)
        return self.i >= len(es)

    def _one(self):
        """The next element, a single character if it is part of a number."""
        e = self._peek()
        if isinstance(e, Num):
            self.es[self.i:self.i + 1] = e.expand()
            e = self.es[self.i]
        return e

    def lit(self, chars):
        """The next character, if it is one of `chars`, else None."""
        e = self._peek()
        if isinstance(e, Num):
            if not any(c in "0123456789" for c in chars):
                return None
            e = self._one()
        if e is None:
            return None
        if isinstance(e, Token):
            if not any(c in e.alpha for c in chars):
                return None
            raise Unsupported("character of an opaque part")
        for c in chars:
            if bool(char_eq(e, c)):
                self.i += 1
                return c
        return None

    def skip(self):
        """Passes one character; whether there was one."""
        e = self._one()
        if e is None:
            return False
        if isinstance(e, Token):
            raise Unsupported("character of an opaque part")
        self.i += 1
        return True

    def digit(self):
        """Value of the next character if it is an ASCII digit, else None."""
        e = self._one()
        if e is None or isinstance(e, Token):
            return None
        if isinstance(e, str):
            if e not in "0123456789":
                return None
            self.i += 1
            return ord(e) - 48
        if not bool(code_in(e.code, [(48, 57)])):
            return None
        self.i += 1
        return e.code - 48

    def number(self, n):
        """Value of exactly n digits, else None."""
        t = 0
        for _ in range(n):
            d = self.digit()
            if d is None:
                return None
            t = t * 10 + d
        return t

    def digits(self, atmost):
        """(value, width) of a maximal run of 1..atmost digits, else None."""
        e = self._peek("run")
        if isinstance(e, Run):
            if not e.at_most(atmost):
                return None
            self.i += 1
            return e.v, e.wid
        t, n, i = 0, 0, self.i
        while n <= atmost:
            d = self.digit()
            if d is None:
                break
            t, n = t * 10 + d, n + 1
        if 1 <= n <= atmost:
            return t, n
        self.i = i
        return None

    def at_digit(self):
        """Whether a digit comes next (after digits() gave None: more digits than that)."""
        return isinstance(self._peek("run"), Num)

    def span(self, no, atmost):
        """The maximal part of 1..atmost characters not in `no`, else None."""
        e = self._peek(no)
        if isinstance(e, Span) and e.no == no:
            self.i += 1
            if not bool(e.len <= atmost):
                return None
            return SymStr([e])
        if e is None or isinstance(e, (str, SymChar)) and any(bool(char_eq(e, c)) for c in no):
            return None
        raise Unsupported("part of an open text")


def render(es, ev, hooks):
    """A concrete text for a model; timezone keys as {"zone": name}."""
    out = []
    for e in es:
        if isinstance(e, str):
            out.append(e)
        elif isinstance(e, SymChar):
            out.append(chr(ev(e.code)))
        elif isinstance(e, Run):
            out.append(str(ev(e.v)).zfill(min(ev(e.wid), 4000)))
        elif isinstance(e, Num):
            out.append(str(ev(e.v)))
        elif isinstance(e, Span):
            if hooks.get("zoneof", {}).get(e.name) is not None:
                out.append({"zone": e.name})
            else:
                out.append("x" * min(ev(e.len), 400))
        elif isinstance(e, Tail):
            n = min(ev(e.len), 400)
            fill = "x" * n
            if n and e.first is not None:
                fill = "]" + fill[1:]
            if n and e.ascii is not None and ev(e.ascii) == 0:
                fill = fill[:-1] + "\u00e9"
            out.append(fill)
        else:
            out.append({"zone": e.name})
    r = []
    for x in out:
        if r and isinstance(x, str) and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    return r
