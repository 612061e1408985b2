"""The CPython C API and the rest of the outside world, as the Rust extension's MIR sees it.

Pointers to Python objects are wrapped model objects (the same models the Python
implementation runs on); every API function is stated by what its documentation
promises.  The extension's classes are rebuilt from the crate's own slot and method
tables, so that calling one runs the MIR of the function the table names.
"""
from __future__ import annotations
import re, types
from . import sym, symstr, models, cal, mirstd
from .sym import SymInt, SymBool, SymFloat, Unsupported, ite, is_sym, sb_not, sb_and, sb_or
from .symstr import SymStr
from .mir import (Agg, Cell, FnRef, HashInt, Items, NONE, Ordv, Panic, Ref, Slice, UNIT, WIDTH, as_slice,
                  compare, err, last_seg, length, ok, some, tup, wrap, within, strip_generics)
from .mirstd import Part, Vec

I64 = WIDTH["i64"]


# ----------------------------------------------------------------------
# pointers
# ----------------------------------------------------------------------
class P:
    """A pointer to a Python object (or type, or module)."""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def addr(self):
        return id(self.o)

    def deref(self):
        return self

    def as_ref(self):
        return self


class Null:
    def addr(self):
        return 0

    def deref(self):
        raise Panic("null pointer dereference")

    def as_ref(self):
        # the macros reborrow the argument slot of functions without arguments;
        # nothing reads through it
        return self


NULL = Null()


class Arr:
    """A pointer into an array."""
    __slots__ = ("xs", "i")

    def __init__(self, xs, i=0):
        self.xs, self.i = xs, i

    def addr(self):
        return id(self.xs) + self.i

    def offset(self, n):
        return Arr(self.xs, self.i + n)

    def deref(self):
        return self.xs[self.i]


class LazyStr:
    """A formatted String, built when somebody looks at it (error texts never are)."""
    __slots__ = ("thunk", "v")

    def __init__(self, thunk):
        self.thunk, self.v = thunk, None

    def as_slice(self):
        return str_slice(self.get())

    def get(self):
        if self.v is None:
            self.v = self.thunk()
        return self.v


class Buf:
    """A mutable String."""
    __slots__ = ("es",)

    def __init__(self):
        self.es = []

    def as_slice(self):
        return str_slice(self.get())

    def get(self):
        return symstr.norm(list(self.es))


class ExtBytes:
    """A bytes object made of integer parts."""
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)


class Fmt:
    """std::fmt::Formatter"""
    __slots__ = ("es",)

    def __init__(self):
        self.es = []

    def as_ref(self):
        return self

    def deref(self):
        return self


def text(s):
    """A Rust string value as a Python (symbolic) string."""
    while s.__class__ is Ref:
        s = s.get()
    if s.__class__ in (LazyStr, Buf):
        return s.get()
    if s.__class__ is str:
        return s.rstrip("\0")
    if s.__class__ is SymStr:
        return s
    if s.__class__ is Slice:
        b = s.base
        if b.__class__ is StrBytes:
            return b.text(s.start, s.n)
        if s.n.__class__ is int:
            xs = [s.at(i) for i in range(s.n)]
            if all(x.__class__ is int for x in xs):
                return bytes(xs).decode()
            return symstr.norm([symstr.mkchar(x) for x in xs])
    if s.__class__ is Vec:
        return symstr.norm([symstr.mkchar(x) for x in s.xs])
    raise Unsupported("text of " + type(s).__name__)


class StrBytes:
    """The UTF-8 bytes of a (symbolic) string."""
    __slots__ = ("s", "ascii", "memo", "n")

    def __init__(self, s):
        self.s = s
        a = s.isascii()
        self.ascii = bool(a)
        self.memo = None
        if not self.ascii:
            if bool(sym.P.var(f"surrogates!{len(sym.P.atoms)}", 0, 1) == 1):
                raise UnicodeEncodeError("utf-8", "\udcff", 0, 1, "surrogates not allowed")
            self.memo = []
            n = s.length()
            self.n = sym.P.var(f"utf8!{len(sym.P.atoms)}", 1)
            sym.P.assume_sb(sb_and(self.n > n, self.n <= n * 4))
        else:
            self.n = s.length()

    def is_ascii(self, sl):
        if self.ascii:
            return True
        if sl.start.__class__ is int and sl.start == 0 and sl.n is self.n:
            return False
        raise Unsupported("is_ascii of a part of a text")

    def at(self, i):
        if self.ascii:
            if i.__class__ is SymInt:
                v = i.concrete()
                if v is not None:
                    i = v
            if i.__class__ is SymInt:
                return self.at_sym(i)
            try:
                c = self.s[i]
            except IndexError:
                raise Unsupported("read past the end of a text")
            return symstr.code_of(c if c.__class__ is str else c.raw[0])
        # UTF-8: walk the characters
        m = self.memo
        whole = self.s.length()
        if i.__class__ is not int and whole.__class__ is int and whole <= 40:
            while len([x for x in m if x[1]]) < whole:
                self.walk()
            sym.P.assume_sb(self.n == len(m))
            v = i.concrete()
            i = i if v is None else v
        if i.__class__ is not int:
            raise Unsupported("symbolic position in a non-ASCII text")
        while len(m) <= i:
            self.walk()
        return m[i][0]

    def walk(self):
        """Adds the bytes of the next character."""
        m = self.memo
        k = len([x for x in m if x[1]])
        try:
            c = self.s[k]
        except IndexError:      # so these are all of its bytes
            sym.P.assume_sb(self.n == len(m))
            raise Unsupported("read past the end of a text")
        u = symstr.code_of(c if c.__class__ is str else c.raw[0])
        if u < 128:
            m.append((u, True))
        elif u < 0x800:
            m += [(192 + u // 64, True), (128 + u % 64, False)]
        elif u < 0x10000:
            sym.P.assume_sb(sb_or(u < 0xD800, u > 0xDFFF)) if is_sym(u) else None
            m += [(224 + u // 4096, True), (128 + u // 64 % 64, False), (128 + u % 64, False)]
        else:
            m += [(240 + u // 262144, True), (128 + u // 4096 % 64, False),
                  (128 + u // 64 % 64, False), (128 + u % 64, False)]

    def at_sym(self, i):
        """A position past an opaque part: where prefix lengths agree."""
        acc = 0
        key = sym.lin_key(i)
        es = self.s.raw
        for e in es:
            if sym.lin_key(acc) == key and not isinstance(e, (symstr.Token, symstr.Num)):
                return symstr.code_of(e)
            acc = acc + symstr.elem_len(e)
        # the last character
        if es and not isinstance(es[-1], (symstr.Token, symstr.Num)) and \
                sym.lin_key(acc - 1) == key:
            return symstr.code_of(es[-1])
        lo, hi = sym.cur().interval(*sym.parts(i))
        for k in range(max(lo, 0), min(hi, lo + 40) + 1):
            if i == k:
                return self.at(k)
        raise Unsupported("symbolic position in a text")

    def text(self, a, n):
        if not self.ascii:
            raise Unsupported("part of a non-ASCII text")
        z = a + n
        if a.__class__ is int and a == 0 and (n is self.n or (
                is_sym(n) and sym.lin_key(n) == sym.lin_key(self.n))):
            return self.s
        if sym.is_sym(z) and sym.is_sym(self.n) and sym.lin_key(z) == sym.lin_key(self.n):
            z = None
        elif z.__class__ is int and self.n.__class__ is int and z == self.n:
            z = None
        return self.s[a:z]


def str_slice(s):
    """The bytes of a string."""
    if s.__class__ is str:
        b = s.rstrip("\0").encode()
        return Slice(Items(b), 0, len(b))
    b = StrBytes(s)
    return Slice(b, 0, b.n)


# ----------------------------------------------------------------------
# formatting
# ----------------------------------------------------------------------
def show_int(v, width, zero):
    if v.__class__ is int:
        if zero:
            return list(str(v).zfill(width))
        return list(str(v).rjust(width))
    if v.__class__ is HashInt:
        return ["#"]
    if not v >= 0:
        if width:
            raise Unsupported("padded negative number")
        return ["-"] + list(symstr.raw_of(symstr.natural(-v)))
    if width:
        if not zero:
            raise Unsupported("number padded with spaces")
        if v < 10 ** width:
            return list(symstr.digits(v, width))
    return list(symstr.raw_of(symstr.natural(v)))


class Out:
    """Arguments of a format string, waiting to be written."""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = pieces


def parse_template(b):
    out, i, k = [], 0, 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(bytes(b[i:i + n]).decode())
            i += n
        elif n == 0x80:
            m = b[i] + b[i + 1] * 256
            out.append(bytes(b[i + 2:i + 2 + m]).decode())
            i += 2 + m
        else:
            flags = width = 0
            if n & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            if n & 2:
                width = b[i] + b[i + 1] * 256
                i += 2
            if n & 4:
                raise Unsupported("format precision")
            if n & 8:
                k = b[i] + b[i + 1] * 256
                i += 2
            if n & 0x30:
                raise Unsupported("format width argument")
            out.append((k, width, bool(flags >> 24 & 1), flags & 0x1FFFFF))
            k += 1


# ----------------------------------------------------------------------
# the virtual machine
# ----------------------------------------------------------------------
class ExtObj:
    __slots__ = ("data",)


PYTYPE = {}


def pytype(o):
    if o is None or o is NotImplemented:
        return type(o)
    c = o.__class__
    if c is SymInt:
        return int
    if c is SymBool:
        return bool
    if c is SymStr or c is LazyStr:
        return str
    if c is SymFloat:
        return float
    if c is ExtBytes:
        return bytes
    return type(o)


def isint(o):
    return isinstance(o, (int, SymInt, SymBool))


def isstr(o):
    return isinstance(o, (str, SymStr, LazyStr))


def isfloat(o):
    return isinstance(o, (float, SymFloat))


def intval(o):
    if o.__class__ is SymBool:
        return ite(o, 1, 0)
    return int(o) if o.__class__ is bool else o


class VM:
    def __init__(self, prog, modules, consts, capi):
        self.prog, self.modules, self.consts = prog, modules, consts
        self.capi_fields = capi
        self.pending = None
        self.ns = types.ModuleType("whenever")
        self.module = P(self.ns)
        self.statics = {}
        self.classes = {}
        self.kinds = {}
        self.install()

    # -- running ---------------------------------------------------------
    def invoke(self, f, *args):
        """Call a C function of the extension the way the interpreter does."""
        self.pending = None
        r = self.prog.apply(f, list(args))
        e, self.pending = self.pending, None
        if r is NULL:
            if e is None:
                e = SystemError("returned NULL without setting an exception")
            raise e
        if e is not None:
            raise SystemError("returned a result with an exception set")
        return self.py(r)

    def py(self, p):
        o = p.o
        if o.__class__ is LazyStr:
            o = p.o = o.get()
        return o

    def guard(self, thunk):
        """Result of a Python-level operation as a pointer."""
        try:
            r = thunk()
        except Exception as e:
            self.pending = e
            return NULL
        return P(r)

    def fail(self, e):
        self.pending = e
        return NULL

    # -- building the module ---------------------------------------------
    def boot(self):
        prog = self.prog
        st = prog.structs["lib::State"]
        self.cell = Cell(Agg("lib::State", None, (None,) * len(st)))
        for d in prog.statics_order("METHODS"):
            self.add_method(self.ns, None, d)
        r = prog.call("module_exec", self.module)
        if r != 0 or self.pending is not None:
            raise Unsupported(f"the extension module does not initialise: {self.pending!r}")
        self.init = self.cell.v
        return self.ns

    def reset(self):
        self.cell.v = self.init
        self.pending = None

    def table(self, ptr):
        s = as_slice(ptr)
        return [s.at(i) for i in range(s.n)]

    def name(self, s):
        return text(s)

    def add_method(self, target, cls, d):
        """One PyMethodDef."""
        ml_name, meth, flags = d.f[0], d.f[1], d.f[2]
        if ml_name is NULL:
            return
        name = self.name(ml_name)
        fn = meth.f[0]
        vm = self
        kind = flags & ~(16 | 32)
        isclass = bool(flags & 16)

        def body(slf, a, k):
            sp = P(slf)
            if kind == 4:
                if a or k:
                    raise TypeError(f"{name}() takes no arguments")
                return vm.invoke(fn, sp, NULL)
            if kind == 8:
                if len(a) != 1 or k:
                    raise TypeError(f"{name}() takes exactly one argument")
                return vm.invoke(fn, sp, P(a[0]))
            if kind == 128:
                if k:
                    raise TypeError(f"{name}() takes no keyword arguments")
                return vm.invoke(fn, sp, Arr([P(x) for x in a]), len(a))
            if kind == 512 | 128 | 2:
                xs = Arr([P(x) for x in a] + [P(x) for x in k.values()])
                kw = P(tuple(k)) if k else NULL
                return vm.invoke(fn, sp, P(cls), xs, len(a), kw)
            if kind == 1 | 2:
                return vm.invoke(fn, sp, P(tuple(a)), P(dict(k)) if k else NULL)
            raise Unsupported(f"method flags {flags}")
        if cls is None:
            def f(*a, **k):
                return body(vm.ns, a, k)
            f.__name__ = f.__qualname__ = name
            f.__module__ = "whenever"
            setattr(target, name, f)
            return
        if isclass:
            def f(c, *a, **k):
                return body(c, a, k)
            f.__name__ = name
            f.__qualname__ = f"{cls.__name__}.{name}"
            f.__module__ = "whenever"
            setattr(cls, name, classmethod(f))
            return

        def f(self, *a, **k):
            if type(self) is not cls:
                raise TypeError(f"descriptor '{name}' requires a '{cls.__name__}' object")
            return body(self, a, k)
        f.__name__ = name
        f.__qualname__ = f"{cls.__name__}.{name}"
        f.__module__ = "whenever"
        setattr(cls, name, f)

    def make_class(self, spec, kind):
        """PyType_FromModuleAndSpec"""
        vm = self
        spec = spec.get() if spec.__class__ is Ref else spec
        fields = self.prog.shim_structs["PyType_Spec"]
        name = self.name(spec.f[fields.index("name")]).rsplit(".", 1)[-1]
        slots = {}
        for s in self.table(spec.f[fields.index("slots")]):
            if s.f[0] == 0:
                break
            slots[s.f[0]] = s.f[1]
        C = self.consts
        cls = type(name, (ExtObj,), {"__slots__": (), "__module__": "whenever", "_vm_kind": kind})
        self.classes[name] = cls
        self.kinds[cls] = kind

        def get(n):
            return slots.get(C[n])
        new = get("Py_tp_new")

        def __new__(c, *a, **k):
            return vm.invoke(new, P(c), P(tuple(a)), P(dict(k)) if k else NULL)
        cls.__new__ = staticmethod(__new__)
        cls.__init_subclass__ = classmethod(lambda c, **k: (_ for _ in ()).throw(
            TypeError(f"type 'whenever.{name}' is not an acceptable base type")))
        ops = {"Py_tp_str": "__str__", "Py_tp_repr": "__repr__", "Py_nb_negative": "__neg__",
               "Py_nb_positive": "__pos__", "Py_nb_absolute": "__abs__"}
        for s, m in ops.items():
            f = get(s)
            if f is not None:
                setattr(cls, m, (lambda f: lambda self: vm.invoke(f, P(self)))(f))
        fb = get("Py_nb_bool")
        if fb is not None:
            def __bool__(self):
                r = vm.prog.apply(fb, [P(self)])
                return r != 0 if is_sym(r) else bool(r)
            cls.__bool__ = __bool__
        fh = get("Py_tp_hash")
        if fh is not None:
            def __hash__(self):
                return vm.prog.apply(fh, [P(self)])
            cls._ext_hash = __hash__
            cls.__hash__ = lambda self: 0
        fr = get("Py_tp_richcompare")
        if fr is not None:
            for m, op in (("lt", 0), ("le", 1), ("eq", 2), ("ne", 3), ("gt", 4), ("ge", 5)):
                setattr(cls, f"__{m}__", (lambda op: lambda self, o: vm.invoke(
                    fr, P(self), P(o), op))(op))
        for s, m in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"),
                     ("true_divide", "truediv"), ("floor_divide", "floordiv"),
                     ("remainder", "mod")):
            f = get("Py_nb_" + s)
            if f is not None:
                setattr(cls, f"__{m}__", (lambda f: lambda self, o: vm.invoke(
                    f, P(self), P(o)))(f))

                def r(self, o, f=f):
                    # the interpreter calls a slot once per pair of types
                    if type(o) is type(self):
                        return NotImplemented
                    return vm.invoke(f, P(o), P(self))
                setattr(cls, f"__r{m}__", r)
        ms = get("Py_tp_methods")
        if ms is not None:
            for d in self.table(ms):
                self.add_method(cls, cls, d)
        gs = get("Py_tp_getset")
        if gs is not None:
            for d in self.table(gs):
                if d.f[0] is NULL:
                    continue
                g = d.f[1]
                if g.variant != "Some":
                    continue
                setattr(cls, self.name(d.f[0]), property(
                    (lambda g: lambda self: vm.invoke(g, P(self), NULL))(g.f[0])))
        return cls

    def new(self, cls, data):
        o = object.__new__(cls)
        o.data = data
        return o

    # -- installation ------------------------------------------------------
    def install(self):
        prog = self.prog
        prog.vm = self
        prog.foreign = self.foreign
        prog.static_ref = self.static_ref
        prog.extern_const = self.extern_const
        ov = prog.overrides
        for t in ("Date", "YearMonth", "MonthDay", "Time", "DateDelta", "TimeDelta",
                  "DateTimeDelta", "Instant", "DateTime", "OffsetDateTime", "ZonedDateTime"):
            ov[f"<{t} as PyWrapped>::extract"] = self.extract(t)
            ov[f"<{t} as PyWrapped>::to_obj"] = self.to_obj
        ov["common::generic_alloc"] = lambda t, d: self.to_obj(d, t)
        ov["common::generic_extract"] = self.extract(None)
        ov["common::arg_vec"] = lambda names: Vec([text(x) for x in (
            lambda s: [s.at(i) for i in range(s.n)])(as_slice(names))])
        ov["<String as ToPy>::to_py"] = lambda s: ok(P(self.lazy(s)))
        ov["<&str as ToPy>::to_py"] = lambda s: ok(P(self.lazy(s)))
        ov["<*mut PyObject as PyObjectExt>::repr"] = lambda p: LazyStr(lambda: "<repr>")
        ov["common::hash_combine"] = lambda a, b: HashInt(a, b)
        ov["common::hashmask"] = lambda h: h if h.__class__ is HashInt else HashInt(h)
        ov["new_type"] = self.new_type
        ov["new_exc"] = self.new_exc
        ov["common::generic_dealloc"] = lambda *a: UNIT

    def lazy(self, s):
        while s.__class__ is Ref:
            s = s.get()
        if s.__class__ is Slice or s.__class__ is Buf:
            return text(s)
        return s if s.__class__ is not str else s.rstrip("\0")

    def extract(self, t):
        def f(p):
            o = p.o
            d = o.data if isinstance(o, ExtObj) else None
            if d is None or (t is not None and last_seg(d.tag) != t):
                raise Panic(f"a {type(o).__name__} object read as a {t}")
            return d
        return f

    def to_obj(self, data, tp):
        cls = tp.o
        if cls not in self.kinds:
            raise Panic(f"instance of {cls} allocated")
        want = self.kinds[cls]
        if last_seg(data.tag) != want:
            raise Panic(f"{last_seg(data.tag)} stored in a {cls.__name__}")
        return ok(P(self.new(cls, data)))

    def new_type(self, module, modname, spec, unpickle, singletons, tref, uref):
        s = as_slice(singletons)
        items = [s.at(i) for i in range(s.n)]
        sp = spec.get() if spec.__class__ is Ref else spec
        kind = self.spec_kind[id(spec.cell)] if spec.__class__ is Ref and \
            id(spec.cell) in self.spec_kind else None
        cls = self.make_class(spec, kind)
        setattr(self.ns, cls.__name__, cls)
        up = getattr(self.ns, text(unpickle), None)
        if up is None:
            raise Unsupported("unpickling function")
        for it in items:
            if kind is None:
                self.kinds[cls] = last_seg(it.f[1].tag)
            r = self.to_obj(it.f[1], P(cls))
            setattr(cls, text(it.f[0]), r.f[0].o)
        tref.set(P(cls))
        uref.set(P(up))
        return True

    def new_exc(self, module, name, doc, base):
        n = text(name).rsplit(".", 1)[-1]
        b = Exception if base is NULL else base.o
        e = type(n, (b,), {"__module__": "whenever"})
        setattr(self.ns, n, e)
        return P(e)

    spec_kind = {}

    def static_ref(self, name):
        c = self.statics.get(name)
        if c is None:
            if name.startswith("pyo3_ffi::PyExc_"):
                import builtins
                c = Cell(P(getattr(builtins, name[len("pyo3_ffi::PyExc_"):])))
            else:
                b = self.prog.statics.get(name)
                if b is None:
                    raise Unsupported("static " + name)
                c = Cell(b.run([]))
                if name.endswith("::SPEC"):
                    m = re.search(r"PyWrap<([^>]*)>", "\n".join(b.lines))
                    if m:
                        self.spec_kind[id(c)] = last_seg(m[1])
            self.statics[name] = c
        return Ref(c)

    def extern_const(self, c):
        m = re.match(r"pyo3_ffi::(\w+)$", c)
        if m and m[1] in self.consts:
            return self.consts[m[1]]
        if m and m[1] == "PyModuleDef_HEAD_INIT":
            return UNIT
        return None

    # -- the C API and the rest of std ----------------------------------------
    def foreign(self, prog, plain, callee, atys, dest):
        m = re.match(r"pyo3_ffi::(\w+)(?:::(\w+))?$", plain)
        if m:
            if m[2] == "zeroed":
                n = len(prog.shim_structs[m[1]])
                return lambda: Agg(m[1], None, (NULL,) * n)
            f = getattr(self, "c_" + m[1].lstrip("_"), None)
            if f is not None:
                return f
            return None
        m = re.match(r"std::ptr::(?:const_ptr|mut_ptr)::<impl \*(?:const|mut) .*>::(\w+)$", plain)
        if m:
            return POINTER.get(m[1])
        if plain == "std::ptr::null_mut" or plain == "std::ptr::null":
            return lambda: NULL
        if plain in ("std::ptr::NonNull::new_unchecked", "std::ptr::NonNull::as_ptr"):
            return lambda p: p
        if plain in ("std::ffi::CStr::as_ptr", "core::str::<impl str>::as_ptr",
                     "std::vec::Vec::as_mut_ptr", "std::vec::Vec::as_ptr"):
            return lambda p: p
        if plain == "core::str::<impl str>::len":
            return lambda s: as_slice(s).n
        if plain == "core::str::<impl str>::as_bytes":
            return lambda s: as_slice(s)
        if plain == "std::string::String::len":
            return lambda s: str_len(s)
        if plain == "core::str::<impl str>::contains":
            return lambda s, c: contains(text(s), c)
        if plain == "core::str::<impl str>::trim_end_matches":
            return lambda s, c: symstr_rstrip(text(s), chr(c))
        if plain == "<str as std::string::ToString>::to_string" or \
                plain.endswith("as std::string::ToString>::to_string"):
            return lambda r: r
        if plain == "std::slice::from_raw_parts":
            return raw_parts
        if plain == "std::str::from_utf8_unchecked":
            return lambda s: s
        if plain == "std::mem::size_of":
            t = callee[callee.index("::<") + 3:-1]
            b = re.sub(r"\D", "", t)
            n = int(b) // 8 if t in WIDTH and b else 8 if t in WIDTH else 1
            return lambda: n
        if plain == "std::string::String::with_capacity" or plain == "std::string::String::new":
            return lambda *a: Buf()
        if plain == "std::string::String::push":
            def push(r, c):
                buf(r).es.append(symstr.mkchar(c))
                return UNIT
            return push
        if plain == "std::string::String::push_str":
            def push_str(r, s):
                buf(r).es.extend(symstr.raw_of(text(s)))
                return UNIT
            return push_str
        if plain == "std::fmt::Arguments::from_str":
            return lambda s: Out([text(s)])
        if plain == "std::fmt::Arguments::new":
            return self.fmt_new
        if plain.startswith("core::fmt::rt::Argument::new_"):
            ty = callee[callee.rindex("::<") + 3:-1]

            def arg(r):
                v = r
                while v.__class__ is Ref:
                    v = v.get()
                if v.__class__ is Buf:
                    v = v.get()
                return (v, ty)
            return arg
        if plain == "std::fmt::format" or plain == "alloc::fmt::format":
            return lambda o: LazyStr(lambda: symstr.norm(self.write(o)))
        if plain == "std::fmt::Formatter::write_fmt":
            def wf(f, o):
                f.es.extend(self.write(o))
                return ok(UNIT)
            return wf
        if plain == "std::fmt::Formatter::write_str":
            def ws(f, s):
                f.es.extend(symstr.raw_of(text(s)))
                return ok(UNIT)
            return ws
        if plain == "std::f64::<impl f64>::floor" or plain == "core::f64::<impl f64>::floor":
            import math
            return lambda x: x.floor() if x.__class__ is SymFloat else float(math.floor(fl(x)))
        if plain.endswith("<impl f64>::round"):
            import math
            return lambda x: math.copysign(math.floor(abs(fl(x)) + .5), fl(x))
        if plain.endswith("<impl f64>::rem_euclid"):
            return lambda a, b: fl(a) % abs(fl(b))
        if plain.endswith("<impl f64>::is_nan"):
            return lambda a: fl(a) != fl(a)
        if plain.endswith("<impl f64>::abs"):
            return lambda a: abs(a)
        if plain.startswith("std::time::"):
            return TIME.get(plain)
        m = re.match(r"<std::time::Duration as std::ops::(Add|Sub)>::", plain)
        if m:
            if m[1] == "Add":
                return lambda a, b: Agg("Duration", None, (a.f[0] + b.f[0],))

            def dsub(a, b):
                n = a.f[0] - b.f[0]
                if not n >= 0:
                    raise Panic("overflow when subtracting durations")
                return Agg("Duration", None, (n,))
            return dsub
        m = re.match(r"<\((\*mut pyo3_ffi::PyObject(?:, )?,?)+\) as common::ToPy>::to_py", plain)
        if m:
            return lambda t: ok(P(tuple(self.py(x) for x in t.f)))
        if plain == "<*mut pyo3_ffi::PyObject as std::cmp::Ord>::cmp":
            return None
        return None

    def fmt_new(self, template, args):
        t = as_slice(template)
        pieces = parse_template([t.at(i) for i in range(t.n)])
        xs = as_slice(args)
        vals = [xs.at(i) for i in range(xs.n)]
        return Out([p if p.__class__ is str else (vals[p[0]],) + p[1:] for p in pieces])

    def write(self, out):
        es = []
        for p in out.pieces:
            if p.__class__ is str:
                es.extend(p)
                continue
            (v, ty), width, zero, fill = p
            es.extend(self.display(v, ty, width, zero))
        return es

    def display(self, v, ty, width=0, zero=False):
        if ty == "char":
            return [symstr.mkchar(v)]
        if v.__class__ in (int, SymInt, HashInt):
            return show_int(v, width, zero)
        if v.__class__ in (str, SymStr, LazyStr, Slice):
            if width:
                raise Unsupported("padded text")
            return list(symstr.raw_of(text(v)))
        if v.__class__ is Agg:
            f = Fmt()
            k = f"<{last_seg(v.tag)} as Display>::fmt"
            self.prog.call_any(k, Ref(Cell(v)), f)
            return f.es
        raise Unsupported("display of " + type(v).__name__)

    # -- objects ------------------------------------------------------------
    def c_Py_None(self):
        return P(None)

    def c_Py_NotImplemented(self):
        return P(NotImplemented)

    def c_Py_True(self):
        return P(True)

    def c_Py_False(self):
        return P(False)

    def c_Py_INCREF(self, p):
        return UNIT

    def c_Py_DECREF(self, p):
        return UNIT

    def c_Py_TYPE(self, p):
        return P(pytype(p.o))

    def c_PyModule_GetState(self, m):
        return Ref(self.cell)

    def c_PyType_GetModuleState(self, t):
        if t.o not in self.kinds:
            return self.fail(TypeError("PyType_GetModuleState: not a heap type of this module"))
        return Ref(self.cell)

    def c_PyType_GetModule(self, t):
        if t.o not in self.kinds:
            return self.fail(TypeError("PyType_GetModule: not a heap type of this module"))
        return self.module

    def c_PyModule_AddType(self, m, t):
        setattr(self.ns, t.o.__name__, t.o)
        return 0

    def c_PyImport_ImportModule(self, name):
        n = text(name)
        m = self.modules.get(n)
        if m is None:
            raise Unsupported("import " + n)
        return P(m)

    def c_PyObject_GetAttrString(self, o, name):
        n = text(name)
        if o.o is self.ns and n == "exc":
            pass
        return self.guard(lambda: getattr(self.py(o), n))

    def c_PyObject_SetAttrString(self, o, name, v):
        setattr(o.o, text(name), self.py(v))
        return 0

    def c_PyObject_Call(self, f, args, kw):
        a = self.py(args)
        k = {} if kw is NULL else kw.o
        return self.guard(lambda: self.py(f)(*a, **k))

    def c_PyObject_CallNoArgs(self, f):
        return self.guard(lambda: self.py(f)())

    def c_PyObject_CallOneArg(self, f, a):
        return self.guard(lambda: self.py(f)(self.py(a)))

    def c_PyObject_CallMethodNoArgs(self, o, name):
        return self.guard(lambda: getattr(self.py(o), text(self.py(name)))())

    def c_PyObject_CallMethodOneArg(self, o, name, a):
        return self.guard(lambda: getattr(self.py(o), text(self.py(name)))(self.py(a)))

    def c_PyObject_CallMethod(self, o, name, fmt, *args):
        f = text(fmt)
        a = [text(x) if c == "s" else self.py(x) for c, x in zip(f, args)]
        return self.guard(lambda: getattr(self.py(o), text(name))(*a))

    def c_PyNumber_TrueDivide(self, a, b):
        return self.guard(lambda: self.py(a) / self.py(b))

    def c_PyObject_IsInstance(self, o, t):
        return int(isinstance(self.py(o), t.o) or issubclass(pytype(o.o), t.o))

    def c_PyObject_Repr(self, o):
        return P(LazyStr(lambda: "<repr>"))

    def c_PyObject_RichCompareBool(self, a, b, op):
        x, y = self.py(a), self.py(b)
        if x is y and op in (2, 3):
            return int(op == 2)
        import operator
        try:
            r = (operator.lt, operator.le, operator.eq, operator.ne, operator.gt,
                 operator.ge)[op](x, y)
            return 1 if r else 0
        except Exception as e:
            self.pending = e
            return -1

    # -- errors -----------------------------------------------------------
    def c_PyErr_SetObject(self, t, msg):
        try:
            self.pending = t.o("extension")
        except TypeError:
            self.pending = t.o()
        return UNIT

    def c_PyErr_Occurred(self):
        return NULL if self.pending is None else P(type(self.pending))

    def c_PyErr_Clear(self):
        self.pending = None
        return UNIT

    # -- numbers ------------------------------------------------------------
    def c_PyLong_Check(self, p):
        return int(isint(p.o))

    def c_PyFloat_Check(self, p):
        return int(isfloat(p.o))

    def c_PyFloat_AsDouble(self, p):
        return p.o

    def c_PyFloat_FromDouble(self, v):
        return P(v)

    def as_long(self, p):
        v = intval(p.o)
        if not isint(v):
            self.pending = TypeError("an integer is required")
            return -1
        if within(v, "i64"):
            return v
        self.pending = OverflowError("Python int too large to convert to C long")
        return -1

    c_PyLong_AsLong = c_PyLong_AsLongLong = as_long

    def from_int(self, v):
        return P(v)

    c_PyLong_FromLong = c_PyLong_FromLongLong = c_PyLong_FromUnsignedLong = from_int

    def c_PyLong_AsByteArray(self, p, buf_, n, little, signed):
        v = intval(p.o)
        if not within(v, "i128"):
            self.pending = OverflowError("int too big to convert")
            return -1
        r = buf_
        r.set(Agg("[]", None, [Part(v, i, 16, "i128") if is_sym(v) else
                               (v % 2 ** 128) // 256 ** i % 256 for i in range(16)]))
        return 0

    def c_PyLong_FromByteArray(self, ptr, n, little, signed):
        xs = as_slice(ptr)
        return P(mirstd.num("i128", "from_le_bytes")(Agg("[]", None, [xs.at(i) for i in range(n)])))

    # -- text and bytes -------------------------------------------------------
    def c_PyUnicode_Check(self, p):
        return int(isstr(p.o))

    def c_PyUnicode_InternFromString(self, s):
        return P(text(s))

    def c_PyUnicode_FromStringAndSize(self, s, n):
        return P(self.lazy(s))

    def c_PyUnicode_AsUTF8AndSize(self, p, size):
        s = self.py(p)
        try:
            if isinstance(s, str):
                b = s.encode()
                sl = Slice(Items(b), 0, len(b))
            else:
                sl = str_slice(s)
        except UnicodeEncodeError as e:
            return self.fail(e)
        size.set(sl.n)
        return Owned(sl, s)

    def c_PyBytes_Check(self, p):
        return int(isinstance(p.o, (bytes, ExtBytes)))

    def c_PyBytes_AsString(self, p):
        o = p.o
        xs = o.xs if o.__class__ is ExtBytes else tuple(o)
        return Owned(Slice(Items(xs), 0, len(xs)), o)

    def c_PyBytes_Size(self, p):
        o = p.o
        return len(o.xs) if o.__class__ is ExtBytes else len(o)

    def c_PyBytes_FromStringAndSize(self, ptr, n):
        s = as_slice(ptr)
        xs = [s.at(i) for i in range(n)]
        if all(x.__class__ is int for x in xs):
            return P(bytes(xs))
        return P(ExtBytes(xs))

    # -- containers -----------------------------------------------------------
    def c_PyTuple_GET_SIZE(self, p):
        return len(p.o)

    def c_PyTuple_GET_ITEM(self, p, i):
        return P(p.o[i])

    def c_PyTuple_New(self, n):
        return P(())

    def c_PyTuple_Pack(self, n, *xs):
        return P(tuple(self.py(x) for x in xs))

    def c_PyDict_New(self):
        return P({})

    def c_PyDict_Size(self, p):
        return len(p.o)

    def c_PyDict_SetItemString(self, d, k, v):
        d.o[text(k)] = self.py(v)
        return 0

    def c_PyDict_Next(self, d, pos, key, value):
        i = pos.get()
        items = list(d.o.items())
        if i >= len(items):
            return 0
        key.set(P(items[i][0]))
        value.set(P(items[i][1]))
        pos.set(i + 1)
        return 1

    def c_PyVectorcall_NARGS(self, n):
        return n

    def c_PyArg_ParseTupleAndKeywords(self, args, kwargs, fmt, names, *outs):
        f = text(fmt).rstrip("\0")
        fname = f.split(":")[1] if ":" in f else ""
        f = f.split(":")[0]
        names = (names.get() if names.__class__ is Ref else names).xs
        a = list(args.o)
        kw = dict(kwargs.o) if kwargs is not NULL else {}
        i, opt, kwonly = 0, False, False
        npos = f.split("$")[0].replace("|", "")
        if len(a) > len(npos):
            return self.arg_error(f"{fname}() takes at most {len(npos)} arguments")
        try:
            for c in f:
                if c == "|":
                    opt = True
                    continue
                if c == "$":
                    kwonly = True
                    continue
                n, out = names[i], outs[i]
                if i < len(a) and not kwonly:
                    if n in kw:
                        return self.arg_error("argument given by name and position")
                    v = a[i]
                elif n in kw:
                    v = kw.pop(n)
                elif opt:
                    i += 1
                    continue
                else:
                    return self.arg_error(f"missing required argument '{n}'")
                i += 1
                if c == "l":
                    if isfloat(v) or not (isint(v) or hasattr(type(v), "__index__")):
                        return self.arg_error("an integer is required")
                    if not isint(v):
                        v = v.__index__()
                    v = intval(v)
                    if not within(v, "i64"):
                        self.pending = OverflowError("Python int too large to convert to C long")
                        return 0
                    out.set(v)
                elif c == "O":
                    out.set(P(v))
                elif c == "U":
                    if not isstr(v):
                        return self.arg_error("argument must be str")
                    out.set(P(v))
                else:
                    raise Unsupported("argument format " + f)
        except Exception as e:
            self.pending = e
            return 0
        if kw:
            return self.arg_error("unexpected keyword argument")
        return 1

    def arg_error(self, msg):
        self.pending = TypeError(msg)
        return 0

    # -- datetime -------------------------------------------------------------
    def c_PyDateTime_IMPORT(self):
        return UNIT

    def c_PyDateTimeAPI(self):
        M = models

        def mk(cls, conv):
            def f(*a):
                return self.guard(lambda: conv(cls, *a))
            return f
        tz = lambda p: self.py(p)
        table = {
            "DateType": P(M.MDate), "DateTimeType": P(M.MDateTime), "TimeType": P(M.MTime),
            "DeltaType": P(M.MTimeDelta), "TZInfoType": P(object),
            "TimeZone_UTC": P(M.MTimezone.utc),
            "Date_FromDate": lambda y, m, d, t: self.guard(lambda: t.o(y, m, d)),
            "DateTime_FromDateAndTime": lambda y, mo, d, h, mi, s, us, z, t: self.guard(
                lambda: t.o(y, mo, d, h, mi, s, us, tz(z))),
            "DateTime_FromDateAndTimeAndFold": lambda y, mo, d, h, mi, s, us, z, fold, t:
                self.guard(lambda: t.o(y, mo, d, h, mi, s, us, tz(z), fold=fold)),
            "DateTime_FromTimestamp": lambda t, args, kw: self.guard(
                lambda: t.o.fromtimestamp(*self.py(args))),
            "Time_FromTime": lambda h, mi, s, us, z, t: self.guard(
                lambda: t.o(h, mi, s, us, tz(z))),
            "Time_FromTimeAndFold": lambda h, mi, s, us, z, fold, t: self.guard(
                lambda: t.o(h, mi, s, us, tz(z), fold=fold)),
            "Delta_FromDelta": lambda d, s, us, norm_, t: self.guard(
                lambda: t.o(days=d, seconds=s, microseconds=us)),
            "TimeZone_FromTimeZone": lambda off, name: self.guard(
                lambda: M.MTimezone(self.py(off))),
        }
        return Ref(Cell(Agg("pyo3_ffi::PyDateTime_CAPI", None,
                            [table.get(n) for n in self.capi_fields])))

    def c_PyDate_Check(self, p):
        return int(isinstance(p.o, models.MDate))

    def c_PyDateTime_Check(self, p):
        return int(isinstance(p.o, models.MDateTime))

    def c_PyTime_Check(self, p):
        return int(isinstance(p.o, models.MTime))

    def c_PyDelta_Check(self, p):
        return int(isinstance(p.o, models.MTimeDelta))

    def c_PyDateTime_GET_YEAR(self, p):
        return p.o.ymd[0]

    def c_PyDateTime_GET_MONTH(self, p):
        return p.o.ymd[1]

    def c_PyDateTime_GET_DAY(self, p):
        return p.o.ymd[2]

    def c_PyDateTime_DATE_GET_HOUR(self, p):
        return p.o.hour

    def c_PyDateTime_DATE_GET_MINUTE(self, p):
        return p.o.minute

    def c_PyDateTime_DATE_GET_SECOND(self, p):
        return p.o.second

    def c_PyDateTime_DATE_GET_MICROSECOND(self, p):
        return p.o.microsecond

    def c_PyDateTime_DATE_GET_FOLD(self, p):
        return p.o.fold

    def c_PyDateTime_DATE_GET_TZINFO(self, p):
        return P(p.o.tzinfo)

    c_PyDateTime_TIME_GET_HOUR = c_PyDateTime_DATE_GET_HOUR
    c_PyDateTime_TIME_GET_MINUTE = c_PyDateTime_DATE_GET_MINUTE
    c_PyDateTime_TIME_GET_SECOND = c_PyDateTime_DATE_GET_SECOND
    c_PyDateTime_TIME_GET_MICROSECOND = c_PyDateTime_DATE_GET_MICROSECOND
    c_PyDateTime_TIME_GET_TZINFO = c_PyDateTime_DATE_GET_TZINFO
    c_PyDateTime_TIME_GET_FOLD = c_PyDateTime_DATE_GET_FOLD

    def c_PyDateTime_DELTA_GET_DAYS(self, p):
        return p.o.us // 86_400_000_000

    def c_PyDateTime_DELTA_GET_SECONDS(self, p):
        return p.o.us // 1_000_000 % 86400

    def c_PyDateTime_DELTA_GET_MICROSECONDS(self, p):
        return p.o.us % 1_000_000


class Owned:
    """A pointer to the bytes of a Python object."""
    __slots__ = ("sl", "o")

    def __init__(self, sl, o):
        self.sl, self.o = sl, o

    def as_slice(self):
        return self.sl

    def addr(self):
        return id(self.o)


def fl(x):
    if x.__class__ is not float:
        raise Unsupported("floating-point operation")
    return x


def buf(r):
    b = r.get() if r.__class__ is Ref else r
    if b.__class__ is LazyStr:
        n = Buf()
        n.es.extend(symstr.raw_of(b.get()))
        r.set(n)
        b = n
    if b.__class__ is not Buf:
        raise Unsupported("String of " + type(b).__name__)
    return b


def str_len(s):
    t = text(s)
    return t.length() if t.__class__ is SymStr else len(t.encode())


def contains(t, c):
    c = chr(c) if c.__class__ is int else text(c)
    if t.__class__ is SymStr:
        return t.contains(c)
    return c in t


def symstr_rstrip(t, c):
    return t.rstrip(c)


def raw_parts(p, n):
    if p.__class__ is Arr:
        return Slice(Items(p.xs[p.i:p.i + n]), 0, n)
    if p.__class__ is Owned:
        return p.sl
    s = as_slice(p)
    return s.sub(0, n)


def opt_ref(p):
    if p is NULL:
        return NONE
    return some(p)


def p_write(p, v):
    p.set(v)
    return UNIT


POINTER = {
    "cast": lambda p: p,
    "cast_mut": lambda p: p,
    "is_null": lambda p: p is NULL,
    "as_mut": opt_ref, "as_ref": opt_ref,
    "offset": lambda p, n: p.offset(n),
    "add": lambda p, n: p.offset(n),
    "write": p_write,
}


def _now():
    # SystemTime::now(): the same clock as time.time_ns()
    return Agg("SystemTime", None, (models.m_time_ns(),))


TIME = {
    "std::time::SystemTime::now": _now,
    "std::time::SystemTime::duration_since": lambda r, e: (
        lambda t: ok(Agg("Duration", None, (t,))) if t >= 0 else err(UNIT))(
        (r.get() if r.__class__ is Ref else r).f[0]),
    "std::time::Duration::as_secs": lambda r: (r.get() if r.__class__ is Ref else r).f[0] // 10 ** 9,
    "std::time::Duration::subsec_nanos": lambda r: (r.get() if r.__class__ is Ref else r).f[0] % 10 ** 9,
    "std::time::Duration::new": lambda s, n: Agg("Duration", None, (s * 10 ** 9 + n,)),
}


# ----------------------------------------------------------------------
def shim_info(text_):
    """Constants and struct layouts of the C API shim."""
    consts, structs = {}, {}
    for m in re.finditer(r"pub const (\w+): [\w ]+ = (\d+)(?: << (\d+))?;", text_):
        consts[m[1]] = int(m[2]) << int(m[3] or 0)
    for m in re.finditer(r"pub struct (\w+)\s*\{([^{}]*)\}", text_):
        structs[m[1]] = re.findall(r"pub (\w+)\s*:", m[2])
    return consts, structs


def install(prog, shim=None, modules=None):
    import os
    if shim is None:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        shim = open(os.path.join(here, "rust/pyo3-ffi/lib.rs")).read()
    consts, structs = shim_info(shim)
    prog.shim_structs = structs
    return VM(prog, modules or {}, consts, structs["PyDateTime_CAPI"])
