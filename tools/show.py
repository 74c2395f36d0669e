#!/usr/bin/env python3
"""show.py ID [N] [regex]: summarise the failures of the last run of a check."""
import collections, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "evidence", "replay", sys.argv[1] + ".json")
if not os.path.exists(p):
    print("no failures recorded")
    sys.exit(0)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
d = json.load(open(p))
by = collections.OrderedDict()
for f in d["failures"]:
    by.setdefault((f["config"], f["space"], f["label"]), []).append(f)
print("total", d["total_failures"])
for k, fs in by.items():
    if rx and not rx.search("|".join(k)):
        continue
    print("%s/%s [%s] x%d" % (k[0], k[1], k[2], len(fs)))
    for f in fs[:n]:
        print("   case %d: %s" % (f["idx"], f["msg"][:400]))
