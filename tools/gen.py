#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/registry.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import registry as r
ids = [p["id"] for p in r.P]
assert len(ids) == len(set(ids))
for p in r.P:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in r.P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    checks=[dict(property=i, quick_cmd=f"python3 tools/run.py {i}", thorough_cmd=f"python3 tools/run.py {i} --thorough",
                 evidence_file=f"evidence/{i}.json", technique=r.C[i]["technique"], level=r.C[i]["level"],
                 level_note=r.C[i]["note"]) for i in ids if i in r.C],
    not_applicable=[dict(property=i, reason=s) for i, s in r.NA.items()],
    notes="No hooks in /repo: the harnesses interpose at link time (see DESIGN.md)."
)
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
