#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from tools/props.py.
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + "/tools")
sys.dont_write_bytecode = True
import props
checks, na = [], []
with open(root + "/properties.jsonl", "w") as o:
    for p in props.ALL:
        check, reason = p.pop("check"), p.pop("na")
        assert len(p["title"]) <= 80, p["id"]
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
        i = p["id"]
        if check:
            checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json", **check})
        else:
            na.append({"property": i, "reason": reason or "its check is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed in /repo: harness files are laid over it at build time with go's -overlay (mc/bridge), and scheduling points are put into scratch copies of the packages under concurrent test (mc/cmd/instr)."}
with open(root + "/MANIFEST.json", "w") as o:
    json.dump(m, o, indent=1, ensure_ascii=False)
    o.write("\n")
