#!/usr/bin/env python3
"""Re-run the cases of a replay file: replay.py FILE [N]"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, registry
d = json.load(open(sys.argv[1]))
f = d["failures"][int(sys.argv[2]) if len(sys.argv) > 2 else 0]
run = next(r for r in registry.RUNS[d["property"]] if r[0] == f["harness"] and r[1] == f["config"])
exe = B.build(run[0], run[1], lib=run[2], extra=run[3] if len(run) > 3 else ())
env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0")
sys.exit(subprocess.run([exe, "--tier", d["tier"], "--space", f["space"], "--case", str(f["idx"])], env=env).returncode)
