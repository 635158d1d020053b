#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "harness"))
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    pl = plans.PLANS.get(i)
    if not pl:
        na.append(dict(property=i, reason=plans.NOT_APPLICABLE.get(i, "its check is still being built")))
        continue
    checks.append(dict(property=i, quick_cmd="harness/check.py %s --quick" % i,
        thorough_cmd="harness/check.py %s --thorough" % i,
        technique=pl.get("technique", "TLA+ specification model-checked with TLC; recorded calls of the real code decided against it by TLC (trace validation)"),
        level=pl.get("level", "model_checking"),
        level_note=pl.get("note", "The calendar model is checked exhaustively over all 1.1 million days; the code is bound to it by the recorded calls, a boundary-biased sample whose size is in the evidence. Trusted: TLC, the reference tables in spec/BadiData.tla, the projection in harness/ops.py.")))
json.dump(dict(version=1, setup_cmd="harness/setup.sh", hooks=dict(guard="none", enable="no hooks are needed: the public interface exposes the abstract state", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md. Checks run the code in /repo directly (editable install); nothing is built."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
