#!/usr/bin/env python3
"""Decide one property: build its harness from /repo, explore, report.

usage: check.py ID [--tier quick|thorough]
exit 0: held on everything explored; 1: violated (VIOLATION line); 3: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import registry

VERIF = B.VERIF


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"]
            if k["property"] == pid and k.get("status") == "known"]


def differences(spaces, failures):
    """Cases whose verdict is not the same in every configuration the harness was run in.

    A case that is wrong in all configurations is another property's concern.  The explorer keeps a
    limited number of failures per relation; a space where that limit was reached in some configuration
    is compared by whether anything failed at all.
    """
    limit = 48
    out = []
    where = {}
    for s in spaces:
        where.setdefault((s["harness"], s["name"]), []).append(s["config"])
    for (harness, name), configs in where.items():
        bad = {c: {} for c in configs}
        full = False
        for c in configs:
            mine = [f for f in failures if f["harness"] == harness and f["space"] == name and f["config"] == c]
            for f in mine:
                bad[c].setdefault(f["idx"], f)
            labels = [f["label"] for f in mine]
            full = full or any(labels.count(x) >= limit for x in set(labels))
        ids = set().union(*bad.values())
        for i in sorted(ids):
            ok = [c for c in configs if i not in bad[c]]
            if full:
                ok = [c for c in configs if not bad[c]]
            if ok:
                f = dict(next(b[i] for b in bad.values() if i in b))
                f["msg"] = "not in %s: %s" % (",".join(ok), f["msg"])
                out.append(f)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", "replay", pid + ".json")
    if os.path.exists(replay):
        os.unlink(replay)
    total = {"states": 0, "transitions": 0, "traces": 0, "cases": 0}
    spaces, samples, failures, nfail = [], [], [], 0
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=0:symbolize=0:detect_odr_violation=0",
               UBSAN_OPTIONS="print_stacktrace=0:exitcode=98:symbolize=0")
    level = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next(c["level"] for c in level["checks"] if c["property"] == pid)
    hang = "300" if tier == "thorough" else "60"
    runs = [(r[0], r[1], r[2], r[3] if len(r) > 3 else ()) for r in registry.RUNS[pid]]
    try:
        exes = B.build_many(runs)
    except B.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        return 3
    for (harness, config, lib, extra), exe in zip(runs, exes):
        tmp = tempfile.mkdtemp(prefix="um2mc_")
        try:
            out = os.path.join(tmp, "result.json")
            # A run that has found a failure need not go on for ever
            stop = 0 if pid in registry.COMPARE or tier == "thorough" else max(30, 500 - int(time.time() - t0))
            r = subprocess.run([exe, "--scratch", tmp, "--out", out, "--tier", tier, "--hang", hang,
                                "--stop-after", str(stop)],
                               env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0 or not os.path.exists(out):
                print("harness %s/%s ended with %d\n%s" % (harness, config, r.returncode,
                                                         r.stdout[-3000:].decode(errors="replace")),
                      file=sys.stderr)
                return 3
            res = json.load(open(out))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for k in total:
            total[k] += res[k]
        nfail += res["nfail"]
        for s in res["spaces"]:
            s["harness"] = harness
            s["config"] = config
            spaces.append(s)
        samples += ["%s/%s %s" % (harness, config, s) for s in res["samples"]]
        for f in res["failures"]:
            f["harness"], f["config"] = harness, config
            failures.append(f)
    complete = all(s["run"] + sum(1 for f in failures if f["label"] == "crash" and f["space"] == s["name"]
                                  and f["config"] == s["config"] and f["harness"] == s["harness"]) >= s["cases"]
                   for s in spaces)
    if pid in registry.COMPARE:
        failures = differences(spaces, failures)
    known = load_known(pid)
    seen_known, new = {}, []
    for f in failures:
        key = "%s|%s|%s" % (f["space"], f["label"], f["msg"])
        hit = next((k for k in known if re.search(k["match"], key)), None)
        if hit:
            seen_known.setdefault(hit["id"], (hit, f))
        else:
            new.append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"],
              "" if k["id"] in seen_known else " (not observed in this run)"))
    cov = {
        "states": total["states"], "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "cases_enumerated": total["cases"],
        "spaces": [{k: s[k] for k in ("harness", "config", "name", "cases", "run", "s")} for s in spaces],
        "samples": samples[:40] or ["none"],
        "exhaustive": bool(complete),
        "rule": "every index of every listed space was run on the code built from /repo; states are distinct "
                "reference-model configurations (hash-deduplicated), transitions are operations or queries "
                "compared with the reference, traces are histories/cases driven to their end",
    }
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov.pop("cases_enumerated")
        cov["distinct_nontrivial"] = cov.pop("states")
        cov.pop("traces_validated_against_impl")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": registry.ASSUMPTIONS.get(pid, []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "total_failures": nfail, "failures": new}, f, indent=1)
        for f in new[:10]:
            print("  %s/%s space=%s case=%d [%s] %s" % (f["harness"], f["config"], f["space"], f["idx"],
                                                     f["label"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not complete:
        print("exploration incomplete: %s" % [(s["name"], s["run"], s["cases"]) for s in spaces], file=sys.stderr)
        return 3
    if not total["cases"]:
        print("nothing was explored", file=sys.stderr)
        return 3
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d cases=%d wall=%.1fs" % (
        pid, tier, total["states"], total["transitions"], total["traces"], total["cases"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
