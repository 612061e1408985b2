"""Runs the contracts of one property and decides the verdict."""
from __future__ import annotations
import hashlib, json, multiprocessing as mp, multiprocessing.connection as mpc, os, shutil, signal
import sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 4)))


class Pool:
    """Fork pool with a hard deadline per job; a stuck worker is replaced."""

    def __init__(self, fn, n=NPROC):
        self.fn, self.n = fn, n
        self.ctx = mp.get_context("fork")

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=self._loop, args=(b,), daemon=True)
        p.start()
        b.close()
        return p, a

    def _loop(self, conn):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while True:
            try:
                job = conn.recv()
            except EOFError:
                os._exit(0)
            if job is None:
                os._exit(0)
            try:
                r = ("ok", self.fn(job))
            except BaseException as e:
                import traceback
                r = ("err", "".join(traceback.format_exception(e))[-2000:])
            try:
                conn.send(r)
            except Exception as e:
                conn.send(("err", f"result not sendable: {e}"))

    def run(self, jobs, hard, deadline, stop=lambda r: False):
        """jobs: list; hard(job) seconds. Yields (job, status, result)."""
        todo = list(reversed(jobs))
        live = {}
        idle = []
        out = []
        stopped = False
        for _ in range(min(self.n, len(todo))):
            idle.append(self._spawn())
        while (todo and not stopped) or live:
            now = time.monotonic()
            while idle and todo and not stopped:
                if now > deadline:
                    break
                p, c = idle.pop()
                j = todo.pop()
                c.send(j)
                live[c] = (p, j, time.monotonic() + hard(j))
            if not live:
                break
            ready = mpc.wait(list(live), timeout=0.5)
            for c in ready:
                p, j, _ = live.pop(c)
                try:
                    st, r = c.recv()
                except EOFError:
                    st, r = "err", "worker died"
                    out.append((j, st, r))
                    if todo:
                        idle.append(self._spawn())
                    continue
                out.append((j, st, r))
                idle.append((p, c))
                if st == "ok" and stop(r):
                    stopped = True
            now = time.monotonic()
            for c in list(live):
                p, j, dl = live[c]
                if now > dl or stopped and now > dl - 0:
                    p.kill()
                    del live[c]
                    out.append((j, "err", "hard time limit"))
                    if todo:
                        idle.append(self._spawn())
        for j in todo:
            out.append((j, "skipped", None))
        for p, c in idle:
            try:
                c.send(None)
            except Exception:
                pass
        for p, c in idle:
            p.join(1)
            if p.is_alive():
                p.kill()
        return out


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                out.append(d)
    return out


def main(prop, tier, seed):
    from . import loader, explore, concrete
    import contracts
    t0 = time.monotonic()
    if prop == "P33":
        from . import extsuite
        return extsuite.main(prop, tier, seed)
    reg = contracts.load_all()
    cons = {k: c for k, c in reg.items()
            if c.prop == prop and (not c.thorough or tier == "thorough")}
    if not cons:
        print(f"no contracts for {prop}")
        return 2
    thorough = tier == "thorough"
    total = 780 if thorough else float(os.environ.get("VERIF_TOTAL", 420))
    sym_deadline = t0 + total * 0.7
    load_error = None
    W = pkg = None
    try:
        W, pkg = loader.load(with_init=True)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        load_error = f"{type(e).__name__}: {e}"
    jobsecs = 240 if thorough else 60
    tmp = tempfile.mkdtemp(prefix="vfy-")
    try:
        return _run(prop, tier, seed, cons, W, pkg, load_error, t0, total, sym_deadline, jobsecs,
                    tmp, thorough)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(prop, tier, seed, cons, W, pkg, load_error, t0, total, sym_deadline, jobsecs, tmp,
         thorough, ext=None):
    from . import explore, concrete
    names = list(cons)

    def work(job):
        kind, name, arg = job
        con = cons[name]
        if kind == "sym":
            secs = con.seconds or jobsecs
            secs = min(secs, max(5, sym_deadline - time.monotonic()))
            return explore.run_job(W, pkg, con, con.cases[arg], secs,
                                   prove_ms=40000 if thorough else 12000, ext=ext and ext.vm)
        if kind == "conc":
            s, secs = arg
            return concrete.search(con, s, secs)
        if kind == "replay":
            f, case = arg
            d = tempfile.mkdtemp(dir=tmp)
            return concrete.replay_model(con, f, case, d)
        if kind == "focus":
            s, secs, case = arg
            return concrete.search(con, s, secs, cases=[case])
        raise AssertionError(kind)

    pool = Pool(work)
    jobs = []
    if load_error is None:
        for n in names:
            if cons[n].symbolic:
                jobs += [("sym", n, i) for i in range(len(cons[n].cases))]
    jobs.sort(key=lambda j: -cons[j[1]].weight)
    hard = lambda j: (cons[j[1]].seconds or jobsecs) + 45
    results = pool.run(jobs, hard, sym_deadline) if jobs else []
    t_sym = time.monotonic() - t0

    agg = dict(obligations=0, discharged=0, by={}, paths=0, excluded=0, solver_time=0.0,
               solver_calls=0, touched=set(), notes={}, labels={}, infeasible=0)
    undecided = []
    failures = []   # (contract, case, failure)
    proved_jobs = 0
    percon = {n: dict(cases=0, proved=0, obligations=0, discharged=0) for n in names}
    for (kind, n, i), st, r in results:
        case = cons[n].cases[i]
        pc = percon[n]
        pc["cases"] += 1
        if st != "ok":
            undecided.append(dict(contract=n, case=case, why=str(r) if st == "err" else
                                  "not reached in time"))
            continue
        agg["obligations"] += r.obligations
        agg["discharged"] += r.discharged
        pc["obligations"] += r.obligations
        pc["discharged"] += r.discharged
        for k, v in r.by.items():
            agg["by"][k] = agg["by"].get(k, 0) + v
        for k in ("paths", "excluded", "solver_time", "solver_calls", "infeasible"):
            agg[k] += getattr(r, k)
        agg["touched"] |= r.touched
        for k, v in r.notes.items():
            agg["notes"][k] = agg["notes"].get(k, 0) + v
        for k, v in r.labels.items():
            a = agg["labels"].setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        if r.proved:
            proved_jobs += 1
            pc["proved"] += 1
        else:
            for k, v in r.unsupported.items():
                undecided.append(dict(contract=n, case=case, why=f"outside the verifier: {k}"))
            if r.budget:
                undecided.append(dict(contract=n, case=case, why="path or time budget"))
            if r.error:
                undecided.append(dict(contract=n, case=case, why=r.error))
            if r.paths == 0 and not r.failures and not r.unsupported and not r.budget and not r.error:
                undecided.append(dict(contract=n, case=case, why="vacuous: no completed path"))
            elif r.obligations == 0 and not r.unsupported:
                undecided.append(dict(contract=n, case=case, why="vacuous: no obligation"))
            for f in r.failures:
                failures.append((n, case, f))
    if load_error:
        undecided.append(dict(contract="*", case={}, why=f"source not loadable by the verifier: "
                                                         f"{load_error}"))

    violations = []      # replayed on the real code
    refuted = []         # counter-model that could not be replayed
    spurious = []
    if failures:
        # at most a few per (contract, label)
        seen, sel = {}, []
        for n, case, f in failures:
            k = (n, f["label"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 4:
                sel.append((n, case, f))
        rj = [("replay", n, (f, case)) for n, case, f in sel]
        for (kind, n, (f, case)), st, r in pool.run(rj, lambda j: 60, t0 + total):
            if st == "ok" and r[0] == "violation":
                violations.append(dict(r[1], how="counter-model replayed on the real code",
                                       obligation=f["label"]))
            elif ext and r == "worker died":
                violations.append(dict(contract=n, case=case, label=f["label"], zones={},
                                       values=f["values"], TZ=None,
                                       how="the real extension dies on the counter-model"))
            elif st == "ok" and r[0] == "spurious":
                spurious.append(dict(contract=n, case=case, label=f["label"], kind=f["kind"],
                                     why="counter-model passes on the real code", notes=f["notes"]))
                undecided.append(dict(contract=n, case=case,
                                      why=f"undischarged (counter-model does not reproduce): {f['label']}"))
            else:
                entry = dict(contract=n, case=case, label=f["label"], kind=f["kind"],
                             soft=f["soft"], notes=f["notes"], reason=f["reason"],
                             values=f["values"], zones=f["zones"],
                             why=str(r[1]) if st == "ok" else str(r))
                if f["kind"] == "refuted" and not f["soft"] and not f["notes"]:
                    refuted.append(entry)
                undecided.append(dict(contract=n, case=case,
                                      why=f"undischarged ({f['kind']}): {f['label']}"))

    # focused search where a proof is missing
    t1 = time.monotonic()
    conc = dict(n=0, ok=0, rejects=0, distinct=0, errors={}, samples=[])

    def absorb(r):
        for k in ("n", "ok", "rejects", "distinct"):
            conc[k] += r[k]
        for k, v in r["errors"].items():
            conc["errors"][k] = conc["errors"].get(k, 0) + v
        if len(conc["samples"]) < 6:
            conc["samples"] += r["samples"][:1]
        if r["violation"]:
            violations.append(dict(r["violation"], how="directed search on the real code"))

    remaining = lambda: max(2.0, t0 + total - time.monotonic())
    if not violations and (undecided or refuted):
        foc = {}
        for u in undecided:
            if u["contract"] in cons:
                foc.setdefault(u["contract"], [])
                if u["case"] not in foc[u["contract"]]:
                    foc[u["contract"]].append(u["case"])
            else:
                for n in names:
                    foc.setdefault(n, [])
        budget = min(remaining() * 0.5, 300 if thorough else 60) * NPROC
        fj = []
        for n, cs in foc.items():
            cs = cs[:24]
            if cs:
                fj += [("focus", n, (f"{seed}:f{i}", None, case)) for i, case in enumerate(cs)]
            else:
                fj += [("conc", n, (f"{seed}:f", None))]
        per = min(40.0 if not thorough else 200.0, max(0.5, budget / max(1, len(fj))))
        fj = [(k, n, (a[0], per) + tuple(a[2:])) for k, n, a in fj]
        for j, st, r in pool.run(fj, lambda j: per + 30, t0 + total,
                                 stop=lambda r: bool(r["violation"])):
            if st == "ok":
                absorb(r)
    # short cross-check of every contract on the real code
    if not violations:
        secs = (60.0 if thorough else 4.0) * NPROC
        wsum = sum(1 for n in names)
        per = max(0.15, secs / wsum)
        reps = 1
        cj = []
        if wsum < NPROC:
            reps = NPROC // wsum
            per = secs / (wsum * reps)
        for n in names:
            cj += [("conc", n, (f"{seed}:{k}", per)) for k in range(reps)]
        for j, st, r in pool.run(cj, lambda j: per + 30, t0 + total,
                                 stop=lambda r: bool(r["violation"])):
            if st == "ok":
                absorb(r)

    # ---- known findings ----
    finds = [k for k in known_findings() if k["property"] == prop]
    unlisted, listed = [], {}
    for v in violations:
        k = match_finding(v, finds)
        if k is None:
            unlisted.append(v)
        else:
            listed.setdefault(k["id"], k)
    refuted = [r for r in refuted if match_finding(r, finds) is None]
    for k in listed.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for k in finds:
        if k["id"] not in listed and k.get("replay"):
            con = cons.get(k["replay"]["contract"])
            if con and concrete.replay_record(con, k["replay"])[0]:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")

    n_und = len({(u["contract"], json.dumps(u["case"], sort_keys=True)) for u in undecided})
    njobs = len(jobs)
    code = 0
    lines = []
    rdir = os.path.join(ROOT, "replays", prop)
    if unlisted:
        seen = set()
        for v in unlisted:
            k = (v["contract"], v["label"])
            if k in seen or len(seen) >= 3:
                continue
            seen.add(k)
            path = write_replay(rdir, dict(v, property=prop))
            lines.append(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['contract']} {v['case']}: {v['label']} [{v['how']}]")
            print(f"  input: {json.dumps(v['values'])} {v.get('zone_map') or ''} TZ={v.get('TZ')}")
        code = 1
    elif refuted:
        seen = set()
        for v in refuted:
            k = (v["contract"], v["label"])
            if k in seen or len(seen) >= 3:
                continue
            seen.add(k)
            path = write_replay(rdir, dict(v, property=prop, failed_obligation=v["label"],
                                           verifier_output=v["reason"]))
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
            print(f"  failed obligation: {v['contract']} {v['case']}: {v['label']} ({v['why']})")
        code = 1
    wall = time.monotonic() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof" if njobs and proved_jobs == njobs else "exploration",
        coverage=dict(
            obligations=agg["obligations"], discharged=agg["discharged"],
            checker_cmd=f"python3-vt /verif/check.py {prop} --tier {tier}",
            trusted_base=TRUSTED + (ext.trusted if ext else []),
            contracts=len(names), contract_cases=njobs, contract_cases_fully_proved=proved_jobs,
            per_contract=percon,
            discharged_by=agg["by"], solver_seconds=round(agg["solver_time"], 2),
            solver_queries=agg["solver_calls"], paths=agg["paths"],
            infeasible_paths=agg["infeasible"], excluded_paths=agg["excluded"],
            functions_under_contract=sorted(agg["touched"]),
            n_obligation_labels=len(agg["labels"]),
            obligation_labels=dict(sorted(agg["labels"].items())[::len(agg["labels"]) // 2000 + 1]),
            undischarged=undecided[:60], n_undischarged_cases=n_und,
            spurious_counter_models=spurious[:20],
            path_notes=agg["notes"],
            bounded_standin=dict(
                what="directed random inputs through the same contracts on the real module; "
                     "cross-check of the proof, and the only coverage of the undischarged cases",
                evaluations=conc["n"], accepted=conc["ok"], distinct=conc["distinct"],
                harness_errors=conc["errors"], samples=conc["samples"][:4])),
        assumptions=ASSUME + (ext.assume if ext else ASSUME_PY), wall_s=round(wall, 2), violations=len(unlisted) or (len(refuted) if code else 0))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    status = "PROVED" if (proved_jobs == njobs and njobs) else f"{proved_jobs}/{njobs} cases proved"
    print(f"{prop}: {status}; obligations {agg['discharged']}/{agg['obligations']}; paths "
          f"{agg['paths']}; solver {agg['solver_time']:.1f}s; symbolic {t_sym:.1f}s; concrete "
          f"{conc['ok']} ok/{conc['n']}; wall {wall:.1f}s")
    shown = set()
    for u in undecided:
        k = (u["contract"], u["why"][:80])
        if k not in shown and len(shown) < 12:
            shown.add(k)
            print(f"  undischarged {u['contract']} {u['case']}: {u['why'][:300]}")
    for k, v in list(conc["errors"].items())[:5]:
        print(f"  harness error x{v}: {k}")
    for l in lines:
        print(l)
    return code


def match_finding(v, finds):
    for k in finds:
        if k.get("contract") and k["contract"] != v["contract"]:
            continue
        if k.get("label") and k["label"] != v["label"]:
            continue
        vals = v.get("values") or {}
        ok = True
        for name, want in (k.get("values") or {}).items():
            if vals.get(name) != want:
                ok = False
        for name, want in (k.get("zone_map") or {}).items():
            if (v.get("zone_map") or {}).get(name) != want:
                ok = False
        for name, want in (k.get("case") or {}).items():
            if v["case"].get(name) != want:
                ok = False
        if ok:
            return k
    return None


def write_replay(rdir, rec):
    os.makedirs(rdir, exist_ok=True)
    txt = json.dumps(rec, indent=1, default=str, sort_keys=True)
    h = hashlib.sha1(txt.encode()).hexdigest()[:10]
    path = os.path.join(rdir, f"{h}.json")
    with open(path, "w") as f:
        f.write(txt + "\n")
    return path


TRUSTED = [
    "the VC generator in /verif/engine (AST instrumentation, path exploration, models)",
    "z3 (python bindings of /opt/veriftools/pyvenv, unsat answers); cvc5 where named in discharged_by",
    "CPython 3.12 executing the instrumented bytecode of the real source",
    "assumed contracts on datetime/zoneinfo/re/struct/calendar/math (engine/models.py, "
    "engine/symstr.py), cross-checked against CPython by tools/crosscheck.py",
]
ASSUME = [
    "datetime, date, time, timedelta, timezone and ZoneInfo behave as engine/models.py states "
    "(CPython documentation; compared with CPython by tools/crosscheck.py)",
    "a timezone is any pair of functions (local second, fold) -> offset and utc second -> (offset, "
    "fold) satisfying the PEP 495 axioms of MZone",
    "argument types follow the annotations (ints are ints); floats only where a contract says so",
]
ASSUME_PY = [
    "extraction: docstrings and annotations are dropped; is/in/calls/subscripts/f-strings/% are "
    "routed through equivalent hooks; nothing else is rewritten",
    "the compiled extension is the subject of P33 and not covered here",
]
