"""Shared machinery of the checks: building the analysed module, running the engine, reporting."""
import json, os, subprocess, sys, tempfile, time, atexit, shutil, hashlib, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HLC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
ENGINE = os.path.join(VERIF, "build", "hlcsa")
TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
# the flags of the repository's build (optimisation off, so that the IR mirrors the source)
FLAGS = ["--target=x86_64-pc-windows-msvc", "-O0", "-mcx16", "-g", "-gcodeview", "-w", "-Wno-error=implicit-function-declaration",
         "-fms-extensions", "-fno-strict-aliasing", "-ffast-math", "-D_Debug"]
_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="hlcverif"); atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

class Broken(Exception): pass

def need_engine():
    if any(not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(os.path.join(VERIF, "engine", f)) for b, f in ((ENGINE, "absint.cpp"), (os.path.join(VERIF, "build", "hlcdis"), "disasm.cpp"), (os.path.join(VERIF, "build", "hlcir"), "irdump.cpp"))):
        subprocess.check_call(["bash", os.path.join(VERIF, "setup.sh")], stdout=sys.stderr)

def build_module(harness, defines=(), flags=FLAGS, name=None):
    """compiles /verif/harness/<harness> (which includes the repository's unity file) to bitcode"""
    out = os.path.join(tmpdir(), (name or harness) + ".bc")
    cmd = ["clang-18"] + list(flags) + ["-emit-llvm", "-c", os.path.join(VERIF, "harness", harness), "-o", out,
           "-DSRC_MAIN=\"%s/main.c\"" % SRC, "-I", os.path.join(VERIF, "harness")] + ["-D" + d for d in defines]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise Broken("the harness %s does not compile against the current tree:\n%s" % (harness, p.stderr[-3000:]))
    return out

def run_jobs(module, jobs, procs=8, timeout=800):
    need_engine()
    f = os.path.join(tmpdir(), "jobs%d.json" % time.time_ns())
    json.dump(jobs, open(f, "w"))
    p = subprocess.run([ENGINE, module, f, str(procs)], capture_output=True, text=True, timeout=timeout)
    if p.returncode: raise Broken("engine failed: " + p.stderr[-2000:])
    res = [None] * len(jobs)
    for line in p.stdout.splitlines():
        r = json.loads(line); res[r["index"]] = r
    for i, r in enumerate(res):
        if r is None or r.get("error"): raise Broken("job %s: %s" % (jobs[i].get("id"), (r or {}).get("error", "no result")))
    return res

def run_split(module, jobs, unsettled, depth=6, procs=8):
    """runs the jobs; a result for which unsettled(index, result) holds is refined by assuming its symbolic branch
    conditions true and false in turn (a finite trace partition).  Returns one list of results per job."""
    out = [[] for _ in jobs]
    todo = [(i, dict(j), 0) for i, j in enumerate(jobs)]
    while todo:
        res = run_jobs(module, [j for _, j, _ in todo], procs); nxt = []
        for (i, j, d), r in zip(todo, res):
            free = [b for b in r["sym_branches"] if b not in j.get("assume", {})]
            if d < depth and free and unsettled(i, r):
                for v in (True, False):
                    k = dict(j); k["assume"] = dict(j.get("assume", {})); k["assume"][free[0]] = v; nxt.append((i, k, d + 1))
            else: out[i].append(r)
        todo = nxt
    return out
