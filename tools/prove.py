"""Developer driver: prove the contracts whose name matches PATTERN, print the details.
usage: python3-vt tools/prove.py PATTERN [seconds] [-v]"""
import sys, os, re, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
from engine import loader, explore, concrete
import contracts
R = contracts.load_all()
W, pkg = loader.load(with_init=True)


def one(job):
    k, i, secs, mode = job
    con = R[k]
    if mode == "c":
        r = concrete.search(con, 1, secs, cases=[con.cases[i]])
        return k, i, r
    return k, i, explore.run_job(W, pkg, con, con.cases[i], secs)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    v = "-v" in sys.argv
    mode = "c" if "-c" in sys.argv else "s"
    pat = re.compile(args[0])
    secs = float(args[1]) if len(args) > 1 else (60 if mode == "s" else 1)
    jobs = [(k, i, secs if mode == "c" else con.seconds or secs, mode) for k, con in R.items()
            if pat.search(k) and (con.symbolic or mode == "c")
            for i in range(len(con.cases)) if len(args) < 3 or args[2] in str(con.cases[i])]
    t0 = time.time()
    np = 0
    if mode == "c":
        for j in jobs:
            pass
    from engine.runner import Pool
    res = Pool(one, 8).run(jobs, lambda j: j[2] + 30, time.time() + 1e6)
    if True:
        for job, st, r in sorted(res, key=lambda x: jobs.index(x[0])):
            if st != "ok":
                print(job, st, str(r)[:1500])
                continue
            k, i, r = r
            case = R[k].cases[i]
            if mode == "c":
                if r["violation"] or r["errors"] or r["ok"] < 5 or v:
                    print(k, case, r["n"], "ok", r["ok"], "rej", r["rejects"], str(r["errors"])[:300],
                          str(r["violation"])[:500])
                continue
            np += r.proved
            if r.proved and not v:
                if r.wall > 15:
                    print(f"{k} {case} slow wall={r.wall:.1f}")
                continue
            print(k, case, 'PROVED' if r.proved else 'NOT', f"paths={r.paths} inf={r.infeasible} "
                  f"exc={r.excluded} obl={r.discharged}/{r.obligations} {r.by} wall={r.wall:.1f} "
                  f"z3={r.solver_time:.1f}/{r.solver_calls} budget={r.budget} notes={r.notes}")
            if r.unsupported:
                print('  UNSUP', r.unsupported)
            if r.error:
                print(r.error)
            for f in r.failures[:2]:
                print('  FAIL', str(f)[:700])
    print(f"{np}/{len(jobs)} proved in {time.time()-t0:.1f}s")
