#!/usr/bin/env python3
"""Build every harness in every configuration it is used in (checks rebuild what changed)."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import registry

t0 = time.time()
rc = 0
items = {}
for pid in sorted(registry.RUNS):
    for run in registry.RUNS[pid]:
        items.setdefault((run[0], run[1]), (run[0], run[1], run[2], run[3] if len(run) > 3 else ()))
try:
    B.build_many(list(items.values()))
except B.BuildError as e:
    print("build failed: %s" % e, file=sys.stderr)
    rc = 1
os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
print("built %d harness executables in %.0f s" % (len(items), time.time() - t0))
sys.exit(rc)
