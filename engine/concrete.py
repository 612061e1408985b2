"""Concrete evaluation of contracts against the real module: replay and search."""
from __future__ import annotations
import importlib, os, random, shutil, sys, tempfile, time
from . import ctx as ctxmod, tzsynth
from .state import State
from .ctx import ConcCtx, Reject, Violation

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pysrc")
_REAL = None
OTHER_TZ = "America/St_Johns"      # where the outcome is not to depend on the system time zone


def real_module():
    """The real pure-Python implementation (extension import blocked)."""
    global _REAL
    if _REAL is None:
        sys.dont_write_bytecode = True
        sys.path.insert(0, SRC)
        sys.modules.setdefault("whenever._whenever", None)
        try:
            pkg = importlib.import_module("whenever")
        except ModuleNotFoundError:
            # `None` in sys.modules raises without the expected name
            sys.modules.pop("whenever", None)
            sys.modules.pop("whenever._whenever", None)

            class Block:
                def find_spec(self, name, path=None, target=None):
                    if name == "whenever._whenever":
                        raise ModuleNotFoundError(name, name=name)
                    return None
            sys.meta_path.insert(0, Block())
            pkg = importlib.import_module("whenever")
        w = importlib.import_module("whenever._pywhenever")
        assert w.__file__.startswith(SRC), w.__file__
        _REAL = (w, pkg)
        global _STATE
        _STATE = State([w, pkg] + [m for n, m in sys.modules.items()
                                   if n.startswith("whenever.") and m not in (w, None)])
    return _REAL


def fresh():
    """The real package's own state as it was after import."""
    _STATE.restore()


def attempt(con, case, rng=None, values=None, zone_map=None, tz=None):
    """One concrete evaluation: (status, label, log); status ok|reject|violation|error."""
    W, pkg = real_module()
    c = ConcCtx(W, pkg, case, rng, values, zone_map)
    if con.sys:
        if tz is None:
            tz = rng.choice(ctxmod.SYS_ZONES) if rng else "UTC"
        ctxmod.set_tz(tz)
    elif os.environ.get("TZ") != OTHER_TZ:
        ctxmod.set_tz(OTHER_TZ)
    c.log["TZ"] = tz
    try:
        con.fn(c)
        c.check_frame()
        return "ok", None, c
    except Reject:
        return "reject", None, c
    except Violation as v:
        return "violation", v.label, c
    except Exception as e:
        return "error", f"{type(e).__name__}: {e}", c
    finally:
        c.end()
        c.cleanup()


def others(keys, tmp):
    """Further system timezones are named by their file."""
    return {k: ":" + os.path.join(tmp, v) if k[:3] == "SYS" and k != "SYS" else v
            for k, v in keys.items()}


def replay_model(con, failure, case, tmp):
    """Replays a counter-model. -> (status, record)
    status: violation | spurious | unrealised"""
    values = failure["values"]
    if values is None:
        return "unrealised", None
    zones = {k: v for k, v in failure["zones"].items()}
    opts = {}
    for name, spec in zones.items():
        r = tzsynth.realise(spec, 8)
        if not r:
            return "unrealised", dict(why=f"no timezone file realises the model of {name}")
        opts[name] = r
    n = max([len(r) for r in opts.values()] or [1])
    seen_ok = rejected = 0
    for i in range(n):
        pick = {k: r[i % len(r)] for k, r in opts.items()}
        keys = others(tzsynth.install(tmp, pick), tmp) if pick else {}
        tz = None
        if "SYS" in keys:
            tz = ":" + os.path.join(tmp, keys.pop("SYS"))
        elif con.sys:
            tz = "UTC"
        st, lab, c = attempt(con, case, None, dict(values), keys, tz)
        if st == "violation":
            return "violation", dict(contract=con.name, case=case, label=lab, values=values,
                                     zones=pick, TZ="SYS" if tz and tz != "UTC" else tz)
        if st == "ok":
            seen_ok += 1
        else:
            rejected += 1
    return ("spurious" if seen_ok else "unrealised"), dict(why=f"ok={seen_ok} rejected={rejected}")


def replay_record(con, rec):
    """Re-run a stored violation record; True when it still fails."""
    tmp = tempfile.mkdtemp(prefix="vfy-replay-")
    try:
        zones = {k: (v[0], [tuple(t) for t in v[1]]) for k, v in (rec.get("zones") or {}).items()}
        keys = others(tzsynth.install(tmp, zones), tmp) if zones else {}
        tz = rec.get("TZ")
        if tz == "SYS":
            tz = ":" + os.path.join(tmp, keys.pop("SYS"))
        st, lab, c = attempt(con, rec["case"], None, dict(rec["values"]),
                             keys or rec.get("zone_map") or {}, tz)
        return st == "violation", st, lab
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(con, seed, seconds, max_n=10 ** 9, cases=None):
    """Directed random search. -> dict(n, ok, rejects, errors, violation)"""
    rng = random.Random(f"{seed}:{con.name}")
    t0 = time.monotonic()
    n = ok = rej = 0
    errors = {}
    cs = cases if cases is not None else con.cases
    order = list(range(len(cs)))
    rng.shuffle(order)
    i = 0
    samples = []
    distinct = set()
    while n < max_n and time.monotonic() - t0 < seconds:
        case = cs[order[i % len(order)]]
        i += 1
        n += 1
        st, lab, c = attempt(con, case, rng)
        if st == "ok":
            ok += 1
            if len(distinct) < 100000:
                distinct.add(hash((i % len(order), tuple(sorted(map(str, c.log.items()))))))
            if len(samples) < 2:
                samples.append(dict(case=case, input=plain(c.log)))
        elif st == "reject":
            rej += 1
        elif st == "error":
            errors[lab] = errors.get(lab, 0) + 1
        else:
            log = dict(c.log)
            tz = log.pop("TZ", None)
            zm = {k[5:]: z.key for k, z in ((f"zone:{n}", z) for n, z in c._zones.items())}
            return dict(n=n, ok=ok, rejects=rej, errors=errors, samples=samples,
                        distinct=len(distinct),
                        violation=dict(contract=con.name, case=case, label=lab, values=plain(log),
                                       zones={}, zone_map=zm, TZ=tz))
    return dict(n=n, ok=ok, rejects=rej, errors=errors, samples=samples, distinct=len(distinct),
                violation=None)


def plain(d):
    return {k: (v if isinstance(v, (int, str, float, type(None))) else repr(v)) for k, v in d.items()}
