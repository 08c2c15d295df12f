#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list of properties below (tools/props.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, here)
from props import PROPS, NA
def main():
    with open(root + "/properties.jsonl", "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
                   technique=p["technique"], level="other", level_note=p["note"]) for p in PROPS]
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
             notes="Every check compiles or parses /repo's current tree and decides statically; nothing of the repository is executed. No hooks are needed in /repo.")
    json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
main()
