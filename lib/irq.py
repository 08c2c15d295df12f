"""Queries over the compiler's LLVM IR: definitions, places in memory, the call graph, dataflow."""
import json, subprocess, os, collections
import sa
class Block:
    __slots__ = ("i", "t", "n", "succ", "pred")
class Fn:
    def __init__(s, name, d):
        s.name = name; s.file = d["file"]; s.line = d["line"]; s.ty = d["ty"]; s.taken = d["taken"]; s.b = []; s.defs = {}
        for n, x in enumerate(d["b"]):
            b = Block(); b.n = n; b.i = x["i"]; b.t = x["t"]; b.pred = []; s.b.append(b)
            for i in b.i: s.defs[i[0]] = i
        for b in s.b:
            t = b.t
            b.succ = [t[2], t[3]] if t[0] == "br" else [t[1]] if t[0] == "jmp" else [t[2]] + [c[1] for c in t[3]] if t[0] == "switch" else []
            for x in b.succ: s.b[x].pred.append(b.n)
    def insts(s):
        for b in s.b: yield from b.i
    def calls(s): return [i for i in s.insts() if i[2] == "call"]
    def place(s, v, depth=0):
        """the name of a place in memory: 'globals.field', 'struct.field', or None"""
        if isinstance(v, list):
            if v[0] == "g": return v[1] + ("." + v[3] if v[3] and v[3][0] != "+" else "" if v[2] == 0 and v[3] in ("", "+0") else "+%d" % v[2])
            return None
        d = s.defs.get(v)
        if d is None: return None
        if d[2] == "gep" and d[4] and d[5] and d[5][0] != "+": return d[4] + "." + d[5]
        if d[2] in ("gep", "bitcast") and depth < 4 and (d[2] != "gep" or d[6] == 0): return s.place(d[3], depth + 1)
        return None
    def d(s, v): return None if isinstance(v, list) else s.defs.get(v)
    def const(s, v): return int(v[1]) if isinstance(v, list) and v[0] == "c" and v[1] != "big" else None
    def text(s, v): return v[1] if isinstance(v, list) and v[0] == "s" else None
    def strip(s, v):
        """through casts"""
        while not isinstance(v, list) and v in s.defs and s.defs[v][2] in ("zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"): v = s.defs[v][3]
        return v
    def test(s, v):
        """(place, sense): the branch condition v is true exactly when the loaded place is nonzero (sense True) or zero"""
        sense = True
        for _ in range(8):
            v = s.strip(v)
            if isinstance(v, list): return None
            d = s.defs.get(v)
            if d is None: return None
            if d[2] == "cmp" and d[3] in ("eq", "ne") and s.const(d[5]) == 0: sense ^= d[3] == "eq"; v = d[4]; continue
            if d[2] == "xor" and s.const(d[4]) in (1, -1): sense = not sense; v = d[3]; continue
            if d[2] == "load": p = s.place(d[3]); return (p, sense) if p else None
            if d[2] == "call" and isinstance(d[3], str) and d[3].startswith("atomic_load"): p = s.place(d[5][0]); return (p, sense) if p else None
            return None
class Program:
    def __init__(s, harness="all.c", after="", keep=(), trigger=()):
        m = sa.build_module(harness)
        p = subprocess.run([os.path.join(sa.VERIF, "build", "hlcir"), m, after, ",".join(keep), ",".join(trigger)], capture_output=True)
        if p.returncode: raise sa.Broken(p.stderr.decode()[:500])
        s.f = {n: Fn(n, d) for n, d in json.loads(p.stdout).items()}
        s.by_type = collections.defaultdict(list)
        for f in s.f.values():
            if f.taken: s.by_type[f.ty].append(f.name)
    def targets(s, call):
        """the functions a call may enter"""
        c = call[3]
        if isinstance(c, str): return [c] if c in s.f else []
        if isinstance(c, list) and c[0] == "asm": return []
        return s.by_type.get(call[4], [])
    def need(s, *names):
        for n in names:
            if n not in s.f: raise sa.Broken("the function %s is not there any more" % n)
