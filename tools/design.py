#!/usr/bin/env python3
# Writes DESIGN.md from tools/props.py, tools/notes.py, tools/design_head.md, tools/design_tail.md, the rules in the
# evidence of the last runs, and the list of planted bugs with the results in tools/detect.json.
import glob, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + "/tools")
sys.dont_write_bytecode = True
import props, notes
o = open(root + "/tools/design_head.md").read()
o += "\n## 2. The properties, one by one\n"
rules = json.load(open(root + "/tools/rules.json"))
for p in props.ALL:
    i = p["id"]
    f = f"{root}/evidence/{i}.json"
    if os.path.exists(f):
        rules[i] = json.load(open(f))["coverage"]["rule"]
    o += f"\n### {i}: {p['title']}\n\n"
    o += f"*Property.* {p['statement']}\n\n"
    o += f"*Anchored in* {', '.join('`%s`' % x for x in p['anchors']['files'])}.\n\n"
    o += f"*Technique.* {p['check']['technique']}.\n\n"
    o += f"*Enumerated.* {rules[i]}.\n\n".replace("..", ".")
    o += f"*Oracle.* {notes.ORACLE[i]}\n\n"
    o += f"*Bounds and limits.* {p['check']['level_note']}\n\n"
    if i in notes.TIMES:
        o += f"*Cost (8 cores).* {notes.TIMES[i]}\n\n"
    o += f"*Why tests cannot settle it.* {p['why_tests_cant']}\n"
json.dump(rules, open(root + "/tools/rules.json", "w"), indent=1, ensure_ascii=False, sort_keys=True)
o += "\n" + open(root + "/tools/design_tail.md").read()
o += "\n## 6. Planted bugs and what catches them\n\nEach lies in `seeded/<id>/` with its patch, demonstration and description. \"Caught\" means that the quick check of the property exits 1 with its VIOLATION line.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"
det = json.load(open(root + "/tools/detect.json")) if os.path.exists(root + "/tools/detect.json") else {}
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    o += f"| {b} | {m['property']} | {m['needs']} | {det.get(b, 'yes')} |\n"
open(root + "/DESIGN.md", "w").write(o)
