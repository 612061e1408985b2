"""Make ext_cases.json from the JSON lines of `EXT_OUT=... prove_ext.py '^P' 15`: the cases
proved on the extension's code ("all"), and a part of them, spread over every contract and as
cheap as possible, for the quick tier ("quick", an index into "all").
usage: python3-vt tools/make_ext_cases.py RESULTS [cpu-seconds for the quick tier]"""
import sys, os, json, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contracts
from engine.extsuite import key

reg = contracts.load_all()
limit = float(sys.argv[2]) if len(sys.argv) > 2 else 2000
rows = [json.loads(l) for l in open(sys.argv[1])]
by = {}
for name, i, proved, wall, *_ in rows:
    if proved and reg[name].prop != "P33":
        by.setdefault(name, []).append((wall, i))
# round k takes each contract's k-th part: of the sorted cases the cheap half first, mixed
rnd = random.Random(1)
order = []
for name, l in by.items():
    l.sort()
    cheap, dear = l[:(len(l) + 1) // 2], l[(len(l) + 1) // 2:]
    rnd.shuffle(cheap)
    l2 = [l[0]] + [x for x in cheap if x != l[0]] + dear
    order += [((k + .5) / len(l2), k > 0, w, name, i) for k, (w, i) in enumerate(l2)]
first = [o for o in order if not o[1]]
rest = sorted(o for o in order if o[1])
quick, tot = set(), 0.0
for o in first + rest:
    if tot + o[2] > limit:
        continue
    tot += o[2]
    quick.add((o[3], o[4]))
out = {}
for name, l in sorted(by.items()):
    l = sorted(l, key=lambda x: ((name, x[1]) not in quick, x[1]))
    out[name] = {"quick": sum((name, i) in quick for w, i in l), "secs": round(max(w for w, i in l), 1),
                 "all": [key(reg[name].cases[i]) for w, i in l]}
json.dump({"contracts": out}, open(os.path.join(os.path.dirname(__file__), "..", "ext_cases.json"), "w"),
          separators=(",", ":"), indent=0)
print(len(rows), "cases run,", sum(len(v) for v in by.values()), "claimed in", len(by), "contracts;",
      len(quick), "in quick,", round(tot), "of", round(sum(w for l in by.values() for w, i in l)), "cpu-s")
