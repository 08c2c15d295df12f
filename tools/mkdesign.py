#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (the text), tools/props.py, known_findings.json and seeded/*/meta.json."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, here)
from props import PROPS, NA
import design
out = [design.HEAD]
out.append("## 3. The properties and how each is decided\n")
for p in PROPS:
    d = design.HOW[p["id"]]
    out.append("### %s %s\n\n%s\n\n- *Decided by*: %s\n- *Analysed*: %s\n- *Oracle*: %s\n- *Bounds*: %s\n- *Cost*: %s\n- *Why beyond tests*: %s\n" % (p["id"], p["title"], p["statement"], p["technique"], d[0], d[1], d[2], d[3], p["why"]))
out.append("## 4. Properties static analysis does not decide here\n")
for p in NA: out.append("- **%s %s**: %s" % (p["id"], p["title"], p["reason"]))
out.append("\n## 5. Planted bugs and what catches them\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], design.CAUGHT.get(i, m["property"])))
out.append(design.BUGS)
out.append("\n## 6. Findings in the repository\n\nRepaired (each by one `fix:` commit in /repo; the check of the property reports the violation again if it returns):\n")
k = json.load(open(root + "/known_findings.json")); k = k[list(k)[0]]
for e in k:
    if e.get("status") == "fixed": out.append("- " + e["entry"])
out.append(design.TAIL)
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
