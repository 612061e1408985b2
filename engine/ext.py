"""The compiled extension under contract: its MIR, made from the crate's current source."""
from __future__ import annotations
import enum, glob, os, shutil, subprocess, sys, tempfile, types
from . import loader, sym, cal, mir, ffi
from .sym import Path, Unsupported
from .mir import Agg

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
FLAGS = ["--edition", "2021", "--cfg", "Py_3_9", "--cfg", "Py_3_10", "--cfg", "Py_3_11", "--cfg",
         "Py_3_12", "-C", "debug-assertions=off", "-C", "overflow-checks=off", "-A", "warnings"]


def modules():
    mods = loader.make_modules()
    try:
        mods["email.utils"] = loader.load_email(mods)
    except (OSError, SyntaxError):
        mods["email.utils"] = types.SimpleNamespace()
    mods["enum"] = enum
    # the time_machine library is an outside party: absent
    mods["importlib.util"] = types.SimpleNamespace(find_spec=lambda *a: None)
    return mods


def dump():
    """The crate's MIR (a new dump on every run; made outside the repository)."""
    d = tempfile.mkdtemp(prefix="vc-ext-")
    try:
        lib = os.path.join(d, "libpyo3_ffi.rlib")
        base = ["rustc", "+nightly"] + FLAGS
        subprocess.run(base + ["--crate-type", "rlib", "--crate-name", "pyo3_ffi", "-o", lib,
                               os.path.join(HERE, "rust/pyo3-ffi/lib.rs")],
                       check=True, capture_output=True, timeout=300, cwd=d)
        out = subprocess.run(base + ["--crate-type", "lib", "--crate-name", "_whenever",
                                     "-Zunpretty=mir", "-Zmir-opt-level=0",
                                     "-Ztrim-diagnostic-paths=no", "--extern", "pyo3_ffi=" + lib,
                                     os.path.join(SRC, "lib.rs")],
                             capture_output=True, timeout=300, cwd=d)
        if out.returncode:
            raise Unsupported("the crate does not compile: " + out.stderr.decode()[-500:])
        return out.stdout.decode()
    except (OSError, subprocess.SubprocessError) as e:
        raise Unsupported(f"no MIR of the crate: {e}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Ext:
    """One initialised copy of the extension."""

    def __init__(self, text=None):
        from . import extctx
        sys.setrecursionlimit(20000)
        src = {os.path.basename(f): open(f).read() for f in glob.glob(SRC + "/*.rs")}
        self.prog = mir.Program(dump() if text is None else text, src)
        extctx.check_layout(self.prog)
        sym.set_path(Path())
        self.vm = ffi.install(self.prog, modules=modules())
        self.contracts()
        self.W = self.vm.boot()
        sym.set_path(None)
        _, self.pkg = loader.load(with_init=True, native=self.W)
        for n in "MONDAY TUESDAY WEDNESDAY THURSDAY FRIDAY SATURDAY SUNDAY".split():
            v = getattr(self.pkg, n, None)  # the names the package adds to the extension's own
            if v is not None:
                setattr(self.W, n, v)
        from .state import State
        self.pystate = State((self.pkg,))
        self.mk = extctx.ExtCtx

    def contracts(self):
        """Calendar functions a caller is checked against by contract (each proved on its own)."""
        ov = self.prog.overrides
        date = lambda r: r.get() if r.__class__ is mir.Ref else r

        # outside its precondition a caller gets what the body does
        def within(y, m):
            return sym.sb_and(y >= 1, sym.sb_and(y <= 9999, sym.sb_and(m >= 1, m <= 12)))

        def ord_(d):
            y, m, k = date(d).f
            if within(y, m) and sym.sb_and(k >= 1, k <= cal.days_in_month(y, m)):
                return cal.ord_of(y, m, k)
            return self.body("date::Date::ord", date(d))

        def dim(y, m):
            if within(y, m):
                return cal.days_in_month(y, m)
            return self.body("date::days_in_month", y, m)

        def from_ord(n):
            if sym.sb_and(n >= 1, n <= cal.MAXORD):
                return Agg("date::Date", None, cal.ymd_of(n))
            return self.body("date::Date::from_ord_unchecked", n)
        self.own = {"date::Date::ord": ord_, "date::days_in_month": dim,
                    "date::Date::from_ord_unchecked": from_ord}
        ov.update(self.own)

    def body(self, name, *args):
        """The real body of a function that callers see by its contract."""
        return self.prog.call(name, *args)

    def restore(self):
        self.vm.reset()
        self.pystate.restore()

    def ctx(self, path, sink, case):
        return self.mk(path, self, sink, case)
