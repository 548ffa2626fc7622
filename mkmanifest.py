#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, subprocess
from plan import PLAN
TECH = "runtime monitoring: generated histories with fault injection against model, ledger and sanitizer oracles"
m = dict(version=1, setup_cmd="python3 -m py_compile check.py plan.py",
    hooks=dict(guard="cfg(fc_verif_modern)", enable="RUSTFLAGS='--cfg fc_verif_modern' (only the Miri legs over the BTree code)", source_commits=[]),
    checks=[], not_applicable=[], notes="check.py builds the harness crate against /repo in the configurations a property needs and runs its workers; see DESIGN.md")
for l in open("properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in PLAN:
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
            technique=PLAN[i].get("technique") or TECH, level=PLAN[i]["level"], level_note=PLAN[i].get("note") or "No violation in the generated executions; nothing is claimed about histories that were not generated. Trusts the models, the monitoring allocator and the compiler."))
    else:
        m["not_applicable"].append(dict(property=i, reason="The check for this property is still being built."))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
m["hooks"]["source_commits"] = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
json.dump(m, open("MANIFEST.json", "w"), indent=1)
