"""P33: the compiled extension's code under the contracts of the Python implementation.

The MIR of /repo/src is made anew on every run; the contracts, their cases and the prover
are the ones of the other properties.  ext_cases.json says which cases are claimed (the
others are outside the engine's reach on this code, and listed in DESIGN.md).
"""
from __future__ import annotations
import copy, hashlib, json, os, shutil, subprocess, sys, tempfile, time, types
from . import runner, concrete, explore

ROOT = runner.ROOT
REPO = os.environ.get("VERIF_REPO", "/repo")
LIST = os.path.join(ROOT, "ext_cases.json")

TRUSTED = [
    "the MIR semantics and the models of std and of the CPython C API in engine/mir.py, "
    "engine/mirstd.py and engine/ffi.py",
    "rustc nightly's translation of the source to MIR (mir-opt-level 0)",
    "the declarations of the C API in rust/pyo3-ffi (the pyo3-ffi crate is not available offline)",
]
ASSUME = [
    "reference counts and memory ownership are outside the contracts (decref is a no-op)",
    "the machine code the compiler makes behaves as the MIR does (release build: arithmetic wraps)",
    "the computer's clock is not set before 1970",
    "three calendar functions are used by contract (Date::ord, days_in_month, "
    "Date::from_ord_unchecked), each discharged separately by P33.calendar",
]


class Suite:
    trusted, assume = TRUSTED, ASSUME
    vm = None


def key(case):
    return hashlib.sha1(repr(case).encode()).hexdigest()[:10]


def claimed(reg, tier):
    """The contracts restricted to the claimed cases; quick takes the cheaper part of each."""
    spec = json.load(open(LIST))
    out = {}
    for name, ent in spec["contracts"].items():
        con = reg.get(name)
        if con is None:
            continue
        want = set(ent["all"] if tier == "thorough" else ent["all"][:ent["quick"]])
        cases = [x for x in con.cases if key(x) in want]
        if not cases:
            continue
        c = copy.copy(con)
        c.cases = cases
        c.prop = "P33"
        c.seconds = max(30, ent.get("secs", 0) * 6) if tier != "thorough" else 120
        out[name] = c
    for name, con in reg.items():
        if con.prop == "P33":
            out[name] = con
    return out


def build(d):
    """The extension built from the current source with the declarations in rust/pyo3-ffi."""
    pkg = os.path.join(d, "pkg", "whenever")
    shutil.copytree(os.path.join(REPO, "pysrc/whenever"), pkg,
                    ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    flags = ["--edition", "2021", "-A", "warnings"]
    for v in ("9", "10", "11", "12"):
        flags += ["--cfg", "Py_3_" + v]
    sh = lambda a: subprocess.run(a, check=True, capture_output=True, timeout=400, cwd=d)
    sh(["rustc"] + flags + ["--crate-type", "rlib", "--crate-name", "pyo3_ffi",
                            os.path.join(ROOT, "rust/pyo3-ffi/lib.rs")])
    sh(["rustc"] + flags + ["--crate-type", "cdylib", "--crate-name", "_whenever", "-C",
                            "opt-level=1", "--extern", "pyo3_ffi=libpyo3_ffi.rlib",
                            os.path.join(REPO, "src/lib.rs")])
    shutil.move(os.path.join(d, "lib_whenever.so"), os.path.join(pkg, "_whenever.so"))
    return os.path.dirname(pkg)


def real(path):
    """Make the built extension the real module that counter-models are replayed on."""
    from .state import State
    sys.dont_write_bytecode = True
    sys.path.insert(0, path)
    import whenever
    assert whenever._EXTENSION_LOADED and whenever.__file__.startswith(path)
    concrete._REAL = (whenever, whenever)
    concrete._STATE = State([whenever])


def main(prop, tier, seed):
    import contracts
    from . import ext
    t0 = time.monotonic()
    reg = contracts.load_all()
    cons = claimed(reg, tier)
    thorough = tier == "thorough"
    total = 840 if thorough else float(os.environ.get("VERIF_TOTAL", 560))
    tmp = tempfile.mkdtemp(prefix="vfy-")
    try:
        load_error = None
        s = Suite()
        try:
            s.vm = ext.Ext()
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            load_error = f"{type(e).__name__}: {e}"
        try:
            real(build(tmp))
            built = True
        except Exception as e:
            built = False
            print("  the extension could not be built for replays:", str(e)[-300:])
        if not built:
            concrete._REAL = (types.SimpleNamespace(),) * 2   # no replays: every attempt errors
            concrete._STATE = None
        W, pkg = (s.vm.W, s.vm.pkg) if s.vm else (None, None)
        return runner._run(prop, tier, seed, cons, W, pkg, load_error, t0, total,
                           t0 + total * 0.75, 60, tmp, thorough, ext=s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
