#!/usr/bin/env python
"""Run the check of one property: python run.py R05 [--replay FILE]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
Exit 0: held on everything explored; 1: VIOLATION line; 2/3: an error of the check itself.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
WORKERS = {"quick": 8, "thorough": 8}
SCALE = {"quick": 6, "thorough": 4}            # of the parts' example counts
BUDGET = {"quick": 240.0, "thorough": 600.0}   # seconds after which generation stops


def parts_of(prop):
    mod = importlib.import_module("pbt.checks.%s" % prop.lower())
    return [cls() for cls in mod.PARTS], mod


def worker(prop, k, seed, tier, out):
    from pbt import engine, sut
    start = time.time()
    results = []
    try:
        parts, _ = parts_of(prop)
        for j, check in enumerate(parts):
            if check.workers is not None and k >= check.workers:
                continue
            deadline = start + BUDGET[tier] * (j + 1) / len(parts)   # each part gets its share
            n = int(getattr(check, tier) * SCALE[tier])
            results.append(engine.search(check, seed * 1000003 + k * 101 + j, n, deadline))
            if results[-1]["failure"]:
                results[-1]["failure"]["describe"] = check.describe(
                    engine.load_case(results[-1]["failure"]["case"]))
                break
    finally:
        sut.cleanup()
    with open(out, "w") as f:
        json.dump(results, f)


def replay(prop, path):
    from pbt import engine, sut
    data = json.load(open(path))
    parts, _ = parts_of(prop)
    check = next(p for p in parts if p.name == data["part"])
    case = engine.load_case(data["case"])
    print("replaying", prop, check.name)
    print(check.describe(case))
    try:
        engine.execute(check, case)
    except sut.Violation as e:
        print(e)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        sut.cleanup()
    print("holds")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    if a.worker is not None:
        return worker(a.prop, a.worker, seed, tier, a.out)
    if a.replay:
        return replay(a.prop, a.replay)

    t0 = time.time()
    prop = a.prop
    outdir = os.path.join(HERE, "replays", "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_TIER=tier,
               PYTHONWARNINGS="ignore")
    procs = []
    for k in range(WORKERS[tier]):
        out = os.path.join(outdir, "%d.json" % k)
        log = open(os.path.join(outdir, "%d.log" % k), "w")
        procs.append((k, out, log, subprocess.Popen(
            [sys.executable, os.path.join(HERE, "run.py"), prop, "--worker", str(k), "--out", out],
            env=env, cwd=HERE, stdout=log, stderr=subprocess.STDOUT)))
    results, errors = [], []
    hard = t0 + BUDGET[tier] + 200
    for k, out, log, p in procs:
        try:
            p.wait(max(1.0, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("worker %d exceeded its time" % k)
        log.close()
        if os.path.exists(out):
            results += [dict(r, worker=k) for r in json.load(open(out))]
        elif p.returncode:
            errors.append("worker %d: exit %s\n%s" % (
                k, p.returncode, open(log.name).read()[-3000:]))
    for f in os.listdir(outdir):
        os.remove(os.path.join(outdir, f))
    os.rmdir(outdir)

    sys.path.insert(0, HERE)
    parts, mod = parts_of(prop)
    failures = [r for r in results if r["failure"]]
    counts, parts_cov, hashes, samples = {}, {}, set(), []
    for r in results:
        c = parts_cov.setdefault(r["part"], {"evaluations": 0, "distinct_nontrivial": set()})
        c["evaluations"] += r["evaluations"]
        c["distinct_nontrivial"].update(r["hashes"])
        hashes.update(r["part"] + h for h in r["hashes"])
        for n, v in r["counts"].items():
            counts[r["part"] + "/" + n] = counts.get(r["part"] + "/" + n, 0) + v
        if len([s for s in samples if s["part"] == r["part"]]) < 4:
            samples += [{"part": r["part"], "case": s} for s in r["samples"][:2]]
        if r["error"]:
            errors.append("%s: %s" % (r["part"], r["error"]))
    for c in parts_cov.values():
        c["distinct_nontrivial"] = len(c["distinct_nontrivial"])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": sum(r["evaluations"] for r in results),
                     "distinct_nontrivial": len(hashes),
                     "rule": " | ".join("%s: %s" % (p.name, p.rule) for p in parts),
                     "samples": samples, "parts": parts_cov, "classes": counts,
                     "stopped_early": sum(r["stopped"] for r in results)},
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2), "violations": len(failures)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)

    for line in open(os.path.join(HERE, "known_findings.txt"), encoding="utf8"):
        if line.startswith("KNOWN-FINDING: property=%s " % prop):
            print(line.rstrip())
    for p, c in parts_cov.items():
        print("%s %s: %d cases, %d distinct non-trivial" % (
            prop, p, c["evaluations"], c["distinct_nontrivial"]))
    if failures:
        f = min(failures, key=lambda r: len(r["failure"]["case"]))
        path = os.path.join(HERE, "replays", "%s.json" % prop)
        from pbt import engine
        engine.write_replay(path, prop, f["part"], f["failure"], f["failure"].get("describe", ""))
        print("part %s, worker %d: %s" % (f["part"], f["worker"], f["failure"]["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR in the check of %s:\n%s" % (prop, "\n".join(errors)), file=sys.stderr)
        return 2
    print("%s held on everything explored (%.1f s)" % (prop, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
