#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and vlib/specs.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/vlib"]
import props, specs
na = {x["prop"]["id"]: x for x in props.NOT_CLAIMED}
with open(V + "/properties.jsonl", "w") as f:
    for x in props.PROPS + props.NOT_CLAIMED:
        assert len(x["prop"]["title"]) <= 80, x["prop"]["title"]
        f.write(json.dumps(x["prop"], ensure_ascii=False) + "\n")
checks = []
for x in props.PROPS:
    i = x["prop"]["id"]
    assert i in specs.SPECS, i
    checks.append(dict(property=i, quick_cmd=f"python3 vlib/run.py {i} quick", thorough_cmd=f"python3 vlib/run.py {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=x.get("tech", props.TECH), level="model_checking",
                       level_note=f"{x['note']} Within the bounds every path and every value is decided; beyond them nothing is claimed. {props.TRUST}"))
m = dict(version=1, setup_cmd="python3 vlib/build.py", checks=checks,
         not_applicable=[dict(property=i, reason=x["note"]) for i, x in na.items()],
         notes="See DESIGN.md. Engine: engine/ (Rust, symbolic executor for LLVM IR). Harnesses: harness/. Driver: vlib/run.py. Known findings: known_findings.json.")
if props.HOOKS:
    m["hooks"] = props.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
