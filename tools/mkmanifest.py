#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Bounded: every path of the real, instrumented code over symbolic bytes within the shapes and lengths listed per harness in "
        "the evidence is decided by z3 (paths left undecided are counted there as inconclusive, never as passed). Violations are "
        "replayed on the unmodified code before they are reported. Trusts the models of struct, datetime, codecs, json and yaml, "
        "which are compared with the real libraries on a solver-chosen input of each sampled path, and, where texts are opaque, C13.")
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt run.py %s --tier quick" % p,
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the Python source with z3, against an executable reference run on the same symbolic bytes",
        "level": "model_checking",
        "level_note": NOTE,
    })
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, yaml'", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the encoding is made from /repo's current source by an import hook in /verif/sx (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
