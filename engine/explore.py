"""Path exploration and the obligation prover.

One job = one contract x one case.  Every path of the real code under the
contract is executed symbolically; every `check` on it is an obligation that a
solver has to refute the negation of.
"""
from __future__ import annotations
import subprocess, tempfile, os, time, traceback
import z3
from . import sym, symstr, loader, mir, ctx as ctxmod
from .state import State
from .sym import Path, SymBool, sb_not, Infeasible, Unsupported, Budget, Excluded

CVC5 = "/opt/veriftools/bin/cvc5"


class StopJob(sym.EngineSignal):
    pass


class Result:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.by = {}          # back end -> count
        self.labels = {}      # label -> [obligations, discharged]
        self.failures = []
        self.paths = 0        # completed
        self.infeasible = 0
        self.excluded = 0
        self.unsupported = {}
        self.budget = 0
        self.notes = {}
        self.solver_time = 0.0
        self.solver_calls = 0
        self.touched = set()
        self.wall = 0.0
        self.error = None

    @property
    def complete(self):
        return (not self.unsupported and not self.budget and self.error is None
                and self.paths > 0 and self.obligations > 0)

    @property
    def proved(self):
        return self.complete and not self.failures and self.discharged == self.obligations


class Sink:
    MAX_FAIL = 6

    def __init__(self, job_deadline, prove_ms=12000):
        self.res = Result()
        self.done = {}          # (taken, n) -> proven?
        self.deadline = job_deadline
        self.prove_ms = prove_ms
        self.counts = {}

    def start_path(self, path):
        self.path = path
        self.n = 0

    # ------------------------------------------------------------------
    def obligation(self, c, cond, label, soft):
        if cond is NotImplemented:
            cond = False
        p = self.path
        key = (tuple(p.taken), self.n)
        self.n += 1
        if len(p.taken) < len(p.prefix) and key in self.done:
            ok = self.done[key]
            if ok:
                if cond.__class__ is SymBool:
                    p.assume_sb(cond)
                elif not cond:
                    raise Infeasible()
            else:
                self.after_failure(cond)
            return
        res = self.res
        res.obligations += 1
        lab = res.labels.setdefault(label, [0, 0])
        lab[0] += 1
        how = self.prove(cond)
        if isinstance(how, str):
            self.done[key] = True
            res.discharged += 1
            lab[1] += 1
            res.by[how] = res.by.get(how, 0) + 1
            if cond.__class__ is SymBool:
                p.assume_sb(cond)
            elif not cond:
                raise Infeasible()
            return
        self.done[key] = False
        kind, model, reason = how
        self.fail(c, label, soft, kind, model, reason)
        self.after_failure(cond)

    def after_failure(self, cond):
        if cond.__class__ is SymBool:
            self.path.assume_sb(cond)
        elif not cond:
            raise Infeasible()

    def fail(self, c, label, soft, kind, model, reason):
        p = self.path
        f = dict(label=label, soft=bool(soft), kind=kind, reason=reason,
                 notes=list(dict.fromkeys(p.notes)), values=None, zones={})
        if model is not None:
            f["values"] = self.inputs(p, model)
            f["zones"] = self.zones(p, model)
        self.res.failures.append(f)
        if len(self.res.failures) >= self.MAX_FAIL:
            raise StopJob()

    def inputs(self, p, m):
        out = {}
        for name, v in p.inputs:
            if isinstance(v, symstr.SymStr):
                out[name] = symstr.render(v.raw, lambda x: ev(m, x), p.hooks)
            else:
                out[name] = ev(m, v)
        return out

    def zones(self, p, m):
        out = {}
        for z, l, o0, o1 in p.hooks.get("zl", []):
            out.setdefault(z.name, {"l": [], "u": []})["l"].append(
                [ev(m, l), ev(m, o0), ev(m, o1)])
        for z, u, o, f in p.hooks.get("zuo", []):
            out.setdefault(z.name, {"l": [], "u": []})["u"].append(
                [ev(m, u), ev(m, o), ev(m, f)])
        return out

    # ------------------------------------------------------------------
    def prove(self, cond):
        """'how' string when proved, else (kind, model, reason)."""
        p = self.path
        if cond.__class__ is SymBool:
            v = p.lookup(cond)
            if v is True:
                return "syntactic"
            if cond.kind == "and":
                hows = []
                for a in cond.args:
                    h = self.prove(a)
                    if not isinstance(h, str):
                        return h
                    hows.append(h)
                return max(hows, key=lambda x: (x != "syntactic", x))
            neg = z3.Not(cond.z())
        elif cond:
            return "evaluation"
        else:
            neg = None
        ex = [neg] if neg is not None else []
        # 1. light axioms
        left = self.deadline - time.monotonic()
        if left <= 0:
            raise Budget("job time")
        t = int(min(self.prove_ms, left * 1000 + 50))
        r = p.check(*ex, timeout=min(t, 5000))
        if r == z3.unsat:
            return "z3"
        # 2. exact definitions, fresh solver
        exact = p.exact_exprs()
        model = None
        if r == z3.sat and not exact:
            r2, model, why = self.fresh(p.asserted + ex, t)
        else:
            r2, model, why = self.fresh(p.asserted + exact + ex, t)
        if r2 == "unsat":
            return "z3" if not exact else "z3 (calendar definitions)"
        if r2 == "sat":
            return ("refuted", model, "counter-model")
        r3 = self.cvc5(p.asserted + exact + ex, t)
        if r3 == "unsat":
            return "cvc5"
        return ("unknown", None, why)

    def fresh(self, exprs, ms):
        t0 = time.perf_counter()
        try:
            for seed in (0, 7):
                s = z3.Solver()
                s.set("timeout", ms if seed == 0 else ms // 2)
                if seed:
                    s.set("random_seed", seed)
                    s.set("smt.arith.solver", 2)
                s.add(*exprs)
                try:
                    r = s.check()
                except z3.Z3Exception as e:
                    return "unknown", None, str(e)
                sym.STATS.z3_checks += 1
                if r == z3.unsat:
                    return "unsat", None, ""
                if r == z3.sat:
                    return "sat", s.model(), ""
            return "unknown", None, s.reason_unknown()
        finally:
            sym.STATS.z3_time += time.perf_counter() - t0

    def cvc5(self, exprs, ms):
        t0 = time.perf_counter()
        try:
            s = z3.Solver()
            s.add(*exprs)
            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            try:
                exe = CVC5 if os.path.exists(CVC5) else "cvc5"
                o = subprocess.run([exe, f"--tlimit={ms}", f.name], capture_output=True, text=True,
                                   timeout=ms / 1000 + 5)
                return o.stdout.strip().splitlines()[0] if o.stdout.strip() else "unknown"
            finally:
                os.unlink(f.name)
        except Exception:
            return "unknown"
        finally:
            sym.STATS.z3_time += time.perf_counter() - t0


def ev(m, v):
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return v
    x = m.eval(sym.to_z3(v), model_completion=True)
    return x.as_long()


_STATE = {}


def state_of(W, pkg):
    s = _STATE.get(id(W))
    if s is None:
        s = _STATE[id(W)] = State((W, pkg, *getattr(W, "_vc_siblings", ())))
    return s


def run_job(W, pkg, con, case, seconds, prove_ms=12000, max_paths=40000, ext=None):
    """Explore all paths of contract `con` on `case` (ext: on the compiled extension's code)."""
    t0 = time.monotonic()
    state = state_of(W, pkg) if ext is None else ext
    state.restore()     # paths must not see each other's effects
    sym.STATS.__init__()
    sym.clear_terms()
    loader.TOUCHED.clear()
    sink = Sink(t0 + seconds, prove_ms)
    res = sink.res
    stack = [[]]
    try:
        while stack:
            if time.monotonic() - t0 > seconds or res.paths > max_paths:
                res.budget += len(stack)
                break
            state.restore()
            prefix = stack.pop()
            path = Path(prefix)
            path.deadline = t0 + seconds
            sym.set_path(path)
            sink.start_path(path)
            c = ctxmod.SymCtx(path, W, pkg, sink, case) if ext is None else \
                ext.ctx(path, sink, case)
            try:
                con.fn(c)
                c.check_frame()
                res.paths += 1
            except Infeasible:
                res.infeasible += 1
            except Excluded as e:
                res.excluded += 1
                res.notes["excluded: " + str(e)] = res.notes.get("excluded: " + str(e), 0) + 1
            except Unsupported as e:
                k = str(e) + where(e)
                res.unsupported[k] = res.unsupported.get(k, 0) + 1
            except Budget as e:
                res.budget += 1
            except mir.Panic as e:
                try:
                    sink.obligation(c, False, f"the extension does not abort the process ({e})",
                                    False)
                except Infeasible:
                    pass
            finally:
                c.end()
            for n in path.notes:
                res.notes[n] = res.notes.get(n, 0) + 1
            stack.extend(path.pending)
    except StopJob:
        pass
    except (z3.Z3Exception, RecursionError, MemoryError) as e:
        res.error = f"{type(e).__name__}: {e}"
    except Exception as e:
        res.error = "".join(traceback.format_exception(e))[-1500:]
    finally:
        sym.set_path(None)
    res.solver_time = sym.STATS.z3_time
    res.solver_calls = sym.STATS.z3_checks
    res.touched = set(loader.TOUCHED)
    res.wall = time.monotonic() - t0
    return res


def where(e):
    tb, last = e.__traceback__, None
    while tb:
        fn = tb.tb_frame.f_code.co_filename
        if "_pywhenever" in fn or "/contracts/" in fn:
            last = f" [{tb.tb_frame.f_code.co_name}:{tb.tb_lineno}]"
        tb = tb.tb_next
    return last or ""
