#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--only NAME]: decide one property."""
import argparse
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def load_harnesses():
    out = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if f.startswith("h") and f.endswith(".py"):
            out.update(importlib.import_module("harness." + f[:-3]).HARNESSES)
    return out


def findings(pid):
    """{key: text} of the known findings of a property"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                key, _, what = rest.partition(" ")
                out[key.partition("=")[2]] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from sx import drive

    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    hs = load_harnesses()[a.id](tier)
    from harness import texts

    hs += texts.TEXTS.get(a.id, list)()
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    wall = a.wall or (240 if tier == "quick" else 780)
    results = []
    crash = None
    known = findings(a.id)
    try:
        results = drive.run_all(hs, 1.0 if tier == "quick" else 8.0, int(os.environ.get("SX_JOBS", "8")), wall, known)
    except Exception:
        # the code under test cannot be loaded or encoded: nothing is decided
        import traceback

        crash = traceback.format_exc()
        print(crash, file=sys.stderr)
    by = {h.name: h for h in hs}
    n_viol = 0
    rdir = os.path.join(VERIF, "replays")
    for r in results:
        if a.verbose:
            print("  %-22s paths=%-5s ok=%-5s inc=%-3s hang=%s abort=%-4s complete=%s val=%s q=%s solver=%.1fs wall=%.1fs %s %s" % (
                r["name"], r.get("paths"), r.get("ok"), r.get("inconclusive"), r.get("hang"), r.get("aborted"), r.get("complete"),
                r.get("validated"), r.get("queries"), r.get("solver_s", 0), r.get("wall_s", 0), r.get("reasons") or "",
                (r.get("crash") or r.get("skipped") or "")[-300:] or ""))
            if r.get("engine_mismatch"):
                print("     MISMATCH", r["engine_mismatch"])
        for v in r.get("violations", []):
            h = by[v["harness"]]
            key = h.finding
            if key and key in known:
                print("KNOWN-FINDING: property=%s %s" % (a.id, known[key]))
                v["known"] = True
                continue
            n_viol += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (a.id, v["harness"]))
            with open(path, "w") as f:
                json.dump(dict(v, property=a.id), f, indent=1)
            for line in v["text"]:
                print("  " + line)
            print("VIOLATION property=%s replay=%s" % (a.id, path))
    write_evidence(a.id, tier, hs, results, n_viol, time.time() - t0, crash)
    sys.stdout.flush()
    if n_viol:
        return 1
    if not any(r.get("paths") for r in results):
        print("nothing was decided: the code could not be loaded or encoded", file=sys.stderr)
        return 2
    return 0


def write_evidence(pid, tier, hs, results, n_viol, wall, crash):
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    samples = []
    for r in results:
        for s in r.get("samples", [])[:1]:
            samples.append({"harness": r["name"], "input": s})
    cov = {
        "states": tot("paths"),
        "transitions": tot("decisions"),
        "traces_validated_against_impl": tot("validated"),
        "samples": samples[:6],
        "paths_proved": tot("ok"),
        "paths_infeasible_or_out_of_scope": tot("aborted"),
        "paths_inconclusive": tot("inconclusive") + tot("hang"),
        "solver_queries": tot("queries"),
        "solver_time_s": round(tot("solver_s"), 2),
        "functions_encoded": funcs,
        "harnesses": [
            {k: r.get(k) for k in ("name", "bounds", "paths", "ok", "aborted", "inconclusive", "hang", "complete", "queries",
                                   "validated", "reasons", "crash", "skipped", "unreproduced", "engine_mismatch")
             if r.get(k) not in (None, [], {})}
            for r in results
        ],
        "exhaustive": False,
        "all_harnesses_complete": bool(results) and all(
            r.get("complete") and not r.get("inconclusive") and not r.get("hang") for r in results),
    }
    if crash:
        cov["not_decided"] = crash[-800:]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "the claim holds within the bounds listed per harness",
            "models of Python's built-ins, struct, datetime, codecs, json and yaml behave as the library does "
            "(checked on the validated traces)",
        ],
        "wall_s": round(wall, 2), "violations": n_viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
