"""mkbug.py <spec.py>: writes seeded/<id>/ for each bug of the list BUGS in the spec (id, property, file, edits [(old, new)], prog or demo, needs, breaks)."""
import sys, os, subprocess, json, tempfile, shutil
R = os.environ.get("HLC_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    t = tempfile.mkdtemp(); bad = False
    files = {}
    for e in b["edits"]:
        f = e[2] if len(e) > 2 else b["file"]
        s = files.get(f) or open(R + "/" + f, newline="").read()
        crlf = "\r\n" in s
        old, new = e[0], e[1]
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if len(e) > 3: k = s.split(old); files[f] = old.join(k[:e[3] + 1]) + new + old.join(k[e[3] + 1:]); continue  # one occurrence of several
        if s.count(old) != 1: print(b["id"], "text occurs", s.count(old), "times:", old[:80]); bad = True; break
        files[f] = s.replace(old, new)
    if bad: continue
    diff = ""
    for f, s in files.items():
        p = os.path.join(t, "x"); open(p, "w", newline="").write(s)
        d = subprocess.run(["git", "-C", R, "diff", "--no-index", "--no-color", R + "/" + f, p], capture_output=True, text=True, errors="surrogateescape").stdout
        lines = d.split("\n"); i = next(k for k, l in enumerate(lines) if l.startswith("@@"))
        diff += "diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n" % (f, f, f, f) + "\n".join(lines[i:])
    d = os.path.join(V, "seeded", b["id"]); shutil.rmtree(d, True); os.makedirs(d)
    open(d + "/patch.diff", "w", newline="").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo" in b: open(d + "/demo.sh", "w").write(b["demo"])
    else:
        shutil.copy(V + "/tools/demo_run.sh", d + "/demo.sh"); open(d + "/prog.c", "w").write(b["prog"])
    for n, c in b.get("files", {}).items(): open(d + "/" + n, "w").write(c)
    os.chmod(d + "/demo.sh", 0o755); shutil.rmtree(t); print(b["id"], "written")
