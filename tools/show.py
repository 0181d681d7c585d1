#!/usr/bin/env python3
"""show.py ID [MOD t l]: group the rejected steps of the last run"""
import json, re, sys, collections, glob, os
w = "/verif/.work/%s/" % sys.argv[1]
for path in sorted(glob.glob(w + "tlc_*.out")):
    mod = os.path.basename(path)[4:-4]
    lines = [json.loads(l) for l in open(w + "trace_%s.ndjson" % mod)]
    out = open(path).read()
    g = collections.OrderedDict()
    for m in re.finditer(r'<<"BAD", (\d+), (\d+), ({.*?})>>', out, re.S):
        t, l = int(m.group(1)) - 1, int(m.group(2)) - 1
        d, e = lines[t], lines[t]["evs"][l]
        k = (re.sub(r"-?\d+$", "", d["id"]), e["ev"], re.sub(r"\s+", " ", m.group(3)), e.get("what", ""), e.get("err", ""))
        g.setdefault(k, []).append((t, l))
    for k, v in g.items():
        print(mod, len(v), k, v[:3])
    if not re.search("No error has been found", out): print(out[-1500:])
    if len(sys.argv) > 2 and sys.argv[2] == mod:
        t, l = int(sys.argv[3]), int(sys.argv[4])
        print(json.dumps(lines[t]["evs"][l]))
        print({k: v for k, v in lines[t].items() if k != "evs"})
