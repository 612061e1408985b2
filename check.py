#!/usr/bin/env python3-vt
"""check.py P01 [--tier quick|thorough]   |   check.py --replay FILE"""
import os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        import json, contracts
        from engine import concrete
        rec = json.load(open(a[1]))
        con = contracts.load_all()[rec["contract"]]
        if rec.get("values") is None:
            print("no input recorded; failed obligation:", rec.get("failed_obligation"))
            return 1
        bad, st, lab = concrete.replay_record(con, rec)
        print(f"replay: {st} {lab or ''}")
        return 1 if bad else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from engine import runner
    return runner.main(a[0], tier, seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
