"""python -m dst.run <property> [--tier quick|thorough] [--replay FILE] ...

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
Any other exit: the check itself failed.
"""
import argparse
import collections
import json
import os
import sys
import time

from . import pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def props():
    from .isoprops import ISO
    from .repprops import REP
    all_ = dict(ISO)
    all_.update(REP)
    from .regprops import REG
    all_.update(REG)
    try:
        from .modelprops import MODEL
        all_.update(MODEL)
    except ImportError as e:
        if "modelprops" not in str(e):
            raise
    from .growth import GROW
    all_.update(GROW)
    from .datprops import DATA
    all_.update(DATA)
    return all_


def minimise(p, scn, bad, budget=45.0, tries=1200):
    """Greedy shrinking while the same class of violation persists."""
    t0 = time.monotonic()
    n = 0
    progress = True
    while progress and n < tries and time.monotonic() - t0 < budget:
        progress = False
        for c in p.shrink(scn):
            n += 1
            if n >= tries or time.monotonic() - t0 > budget:
                break
            try:
                b, _ = p.judge(c)
            except pool.ChildError:
                continue
            if b and b["class"] == bad["class"]:
                scn, bad, progress = c, b, True
                break
    return scn, bad, n


def known():
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return {"findings": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--prepare", action="store_true", help="build the interposer and stop")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--blocks", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--digest", action="store_true", help="print a digest of all observations")
    ap.add_argument("--stats", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pool.settle()
    if a.prepare:
        from . import seam
        print("interposer:", seam.build())
        return 0
    if a.self_test:
        return self_test()
    p = props()[a.prop]()
    if a.replay:
        return replay(p, a.replay)
    t0 = time.monotonic()
    wall = a.wall or {"quick": 420.0, "thorough": 6 * 3600.0}[a.tier]
    nblocks = a.blocks or p.blocks(a.tier)
    stats = collections.Counter()
    sigs = set()
    agg = {"runs": 0, "samples": [], "violation": None, "digests": {}}

    def over():
        return time.monotonic() - t0 > wall

    def work(b):
        out = p.block(a.seed, b, a.tier, over)
        if out["violation"] and not os.environ.get("DST_NOSHRINK"):
            out["original"] = out["scenario"]
            out["scenario"], out["violation"], out["shrink_tries"] = minimise(
                p, out["scenario"], out["violation"])
        return out

    def on_result(b, res):
        agg["runs"] += res["runs"]
        for k, v in res["stats"].items():
            if k.startswith("longest"):
                stats[k] = max(stats[k], v)
            else:
                stats[k] += v
        sigs.update(res["sigs"])
        if a.digest:
            agg["digests"][b] = [res["runs"], sorted(res["stats"].items()), res["sigs"],
                                 res.get("digest")]
        if res.get("sample") and len(agg["samples"]) < 3:
            agg["samples"].append(res["sample"])
        if res["violation"]:
            agg["violation"] = (b, res)
            return True
        return False

    done, errors = pool.Pool(range(a.first, a.first + nblocks), work, a.workers, p.setup, wall).run(
        on_result)
    took = time.monotonic() - t0
    print("%s: seed %d, %d runs in %d blocks, %d distinct, %.1f s" % (
        p.id, a.seed, agg["runs"], done, len(sigs), took))
    if a.stats:
        for k, v in sorted(stats.items()):
            print("  %9d  %s" % (v, k))
    if a.digest:
        import hashlib
        print("digest", hashlib.sha256(json.dumps(sorted(agg["digests"].items())).encode()).hexdigest())
    code = 0
    if agg["violation"]:
        b, res = agg["violation"]
        path = write_replay(p, a.seed, res)
        v = res["violation"]
        print("violated after %d runs (block %d): %s" % (agg["runs"], b, v["class"]))
        for k in ("label", "detail", "op", "got", "want"):
            if k in v:
                print("  %-6s %s" % (k, json.dumps(v[k])[:1500]))
        print("VIOLATION property=%s replay=%s" % (p.id, path))
        code = 1
    elif errors:
        for e in errors[:3]:
            print("harness error: %s" % e, file=sys.stderr)
        code = 2
    elif agg["runs"] == 0:
        print("nothing ran", file=sys.stderr)
        code = 2
    if code == 0:
        for f in known()["findings"]:
            if f.get("property") == p.id and f.get("status") == "known":
                print("KNOWN-FINDING: property=%s %s" % (p.id, f["what"]))
    if not a.no_evidence and code in (0, 1):
        evidence(p, a, agg, stats, sigs, done, took, nblocks, code)
    sys.stdout.flush()
    return code


def self_test():
    """One seed is one execution: the same blocks give the same digest whatever the number of
    workers and however often they are run."""
    import subprocess
    bad = 0
    for name in sorted(props()):
        seen = set()
        for workers in ("1", "3", "3"):
            out = subprocess.run(
                [sys.executable, "-m", "dst.run", name, "--blocks", "3", "--workers", workers,
                 "--digest", "--no-evidence"], cwd=HERE, capture_output=True, text=True)
            line = [x for x in out.stdout.splitlines() if x.startswith("digest")]
            seen.add((out.returncode, line[0] if line else out.stderr[-400:]))
        same = len(seen) == 1
        print("%s %s" % (name, "repeatable" if same else "NOT repeatable: %s" % sorted(seen)))
        bad += not same
    return 2 if bad else 0


def write_replay(p, seed, res):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-block%d-run%d.json" % (p.id, seed, res["run"][0], res["run"][1]))
    with open(path, "w") as f:
        json.dump({"property": p.id, "seed": seed, "run": res["run"], "scenario": res["scenario"],
                   "violation": res["violation"], "original_scenario": res.get("original"),
                   "replay_with": "bin/check %s --replay %s" % (p.id, path)}, f, indent=1)
    return path


def replay(p, path):
    with open(path) as f:
        rec = json.load(f)
    out = {}

    def work(_):
        bad, obs = p.judge(rec["scenario"])
        return {"bad": bad}

    def got(_, res):
        out.update(res)
        return True

    done, errors = pool.Pool([0], work, 1, p.setup).run(got)
    if errors:
        print("harness error: %s" % errors[0], file=sys.stderr)
        return 2
    bad = out.get("bad")
    if not bad:
        print("replay: the property held on this scenario")
        return 0
    same = bad == rec["violation"]
    print("replay: %s (%s)" % (bad["class"], "exactly as recorded" if same else "differs from record"))
    for k in ("label", "detail", "op", "got", "want"):
        if k in bad:
            print("  %-6s %s" % (k, json.dumps(bad[k])[:3000]))
    print("VIOLATION property=%s replay=%s" % (p.id, path))
    return 1


def evidence(p, a, agg, stats, sigs, done, took, nblocks, code):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault ")}
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(sigs),
        "rule": p.rule,
        "samples": agg["samples"] or [{"note": "no run completed before the violation"}],
        "seeds_and_runs_per_hour": round(agg["runs"] / max(took, 1e-6) * 3600),
        "blocks": {"planned": nblocks, "done": done},
        "simulated_time": "%d s of the simulated application clock (sum of absolute progress, jumps included)" % stats[
            "simulated seconds (absolute)"] if stats["simulated seconds (absolute)"] else
            "the code under test reads no clock; progress is counted in operations and trace events instead",
        "faults_injected": faults,
        "counts": dict(sorted((k, v) for k, v in stats.items() if not k.startswith("fault "))),
        "real_components": ["every module under /repo/src, unmodified"],
        "stub_components": list(getattr(p, "stubs", [
            "user-supplied parsers/dumpers of the simulated Device resource type (harness hooks)",
            "threading.Lock/RLock as seen by the code under test (cooperative, unused on this tree)",
        ])),
    }
    ev = {"property": p.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": a.seed, "level": p.level, "coverage": cov,
          "assumptions": list(getattr(p, "assumptions", [
              "CPython 3.12; preemption at line or bytecode boundaries of /repo/src",
              "single operations run alone in a fresh process define the expected outcome",
          ])),
          "wall_s": round(took, 2), "violations": 1 if code == 1 else 0}
    with open(os.path.join(d, p.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
