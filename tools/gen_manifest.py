#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in mc/checks/src/bin."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
SCHED = "Real code, real OS threads under a controlled scheduler that replaces rayon's work-stealing core: every schedule of the listed scenarios up to the preemption bound; trusts that interleavings matter only at the instrumented points (forks, joins, locks, call-backs, scalar additions). "
INFO = json.load(open(os.path.join(root, "tools", "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "mc/checks/src/bin", i.lower() + ".rs")) and i in INFO:
        t = INFO[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t["technique"], level=t["level"],
                           level_note=t["note"].replace("@SCHED@", SCHED)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="none", enable="No hooks in /repo are needed: the harness workspace /verif/mc patches rayon-core and lock_api (vendored, in /verif/mc/vendor) with the controlled scheduler.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check builds /verif/mc against /repo's working tree and enumerates exhaustively within stated bounds; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
