"""A program in which an error was found gets no output file, and the compiler's exit status tells so."""
import collections
import sa, irq
LEVEL = "other"
ERR = "context.error"; ANY = "globals.an_error_has_occurred"; WRITE = 0x40000000
class Flow:
    """states are pairs (pending, zero): pending - an error may be recorded for a thread but not yet for the whole run;
    zero - the error flag of the whole run was seen to be zero and nothing may have set it since"""
    def __init__(s, P, rep): s.P = P; s.rep = rep; s.memo = {}; s.busy = set(); s.found = {}; s.changed = True; s.counts = collections.Counter(); s.origins = set(); s.ends = (); s.sites = set()
    def note(s, f, i, what): s.found.setdefault((f.name, what), i[1])
    def edge(s, f, t, k, st):
        """the state after taking successor k of a conditional branch, None when that cannot be"""
        x = f.test(t[1]); p, z = st
        if x is None: return st
        nonzero = x[1] == (k == 0)
        if x[0] == ERR: return (p, z) if nonzero else (0, z)
        if x[0] == ANY: return ((0, 0) if not z else None) if nonzero else (p, 1)
        return st
    def inst(s, f, i, st):
        """the states after an instruction"""
        p, z = st; k = i[2]
        if k == "store":
            pl = f.place(i[3]); c = f.const(i[4])
            if pl == ANY: s.sites.add((f.name, i[1])); return [(0, 0)] if c != 0 else [(p, z)] if z else s.note(f, i, "the error flag of the whole run is cleared") or [(p, 1)]
            if pl == ERR:
                s.sites.add((f.name, i[1]))
                if c == 0:
                    if p: s.note(f, i, "a recorded error is forgotten")
                    return [(0, z)]
                return [(1, z)]
            return [st]
        if k in ("rmw", "call"):
            tgt = f.place(i[4]) if k == "rmw" else f.place(i[5][0]) if i[5] else None
            if tgt and tgt.endswith(".work_entries_in_flight"):
                v = i[5] if k == "rmw" else i[5][1] if len(i[5]) > 1 else None
                if f.const(v) == -1 or (k == "call" and "decrement" in str(i[3])):
                    s.sites.add((f.name, i[1]))
                    if p: s.note(f, i, "the work counts as done before its error is recorded for the whole run")
        if k == "call":
            if i[3] == "CreateFileA" and (f.const(i[5][1]) is None or f.const(i[5][1]) & WRITE) and not s.preprocessed(f, i):
                s.sites.add((f.name, i[1])); s.counts["files opened for writing"] += 1
                if p: s.note(f, i, "an output file is written although an error may have been reported")
                elif not z: s.note(f, i, "an output file is written without looking at the error flag of the whole run")
            out = set()
            ts = s.P.targets(i)
            for t in ts:
                r = s.call(t, (int(bool(p)), z))
                if f.name == "main": r = {((p or i[1]) if q else 0, y) for q, y in r}     # in main, a pending error carries the line it comes from
                out |= r
                if p and f.name == "main" and t in s.ends: s.origins.add((p, i[1], t))
            return list(out) if ts else [st]
        return [st]
    def preprocessed(s, f, i): return any(x[2] == "store" and x[4] == i[0] and f.place(x[3]) == "globals.preprocessed_file_handle" for x in f.insts())
    def call(s, name, st):
        key = (name, st)
        if key in s.busy: return s.memo.setdefault(key, set())
        if key in s.done: return s.memo[key]
        s.busy.add(key); s.done.add(key)
        f = s.P.f[name]; states = [set() for _ in f.b]; states[0].add(st); work = [(0, st)]; out = set()
        while work:
            n, x = work.pop(); cur = {x}; b = f.b[n]
            for i in b.i:
                if i[2] not in ("store", "call", "rmw"): continue
                nxt = set()
                for c in cur: nxt.update(s.inst(f, i, c))
                cur = nxt
            for c in cur:
                if b.t[0] == "ret":
                    out.add(c)
                    if name == "main":
                        s.sites.add((name, b.t[-1]))
                        for v in s.values(f, b.t[1]):
                            if v is None: v = 0      # whatever it is, no error may be known
                            if v == 0 and c[0]: s.note(f, [0, b.t[-1]], "the exit status is 0 although an error may have been reported")
                            elif v == 0 and not c[1]: s.note(f, [0, b.t[-1]], "the exit status is 0 without looking at the error flag")
                for k, t in enumerate(b.succ):
                    y = s.edge(f, b.t, k, c) if b.t[0] == "br" and b.succ[0] != b.succ[1] else c
                    if y is not None and y not in states[t]: states[t].add(y); work.append((t, y))
        s.busy.discard(key)
        old = s.memo.get(key, set())
        if not out <= old: s.memo[key] = old | out; s.changed = True
        return s.memo.setdefault(key, set())
    def values(s, f, v): 
        c = f.const(v)
        return [c] if not (isinstance(v, int) and f.defs.get(v, [0, 0, ""])[2] == "phi") else [f.const(x[0]) for x in f.defs[v][3]]
    def run(s, roots):
        while s.changed:
            s.changed = False; s.done = set(); s.found = {}; s.counts.clear()
            for r, st in roots: s.call(r, st)
def split_returns(f):
    """where the value returned is chosen by a phi of the last block, each way into it returns its own value"""
    for b in f.b:
        if b.t[0] != "ret" or not isinstance(b.t[1], int): continue
        d = f.defs.get(b.t[1])
        if d is None or d[2] != "phi" or d not in b.i or any(i[2] in ("store", "call", "rmw") for i in b.i): continue
        for v, frm in d[3]:
            nb = irq.Block(); nb.n = len(f.b); nb.i = []; nb.t = ["ret", v, b.t[-1]]; nb.succ = []; nb.pred = [frm]
            x = f.b[frm]
            if x.t[0] in ("jmp",): x.t = ["ret", v, x.t[-1]]; x.succ = []
            else: f.b.append(nb); x.succ = [nb.n if t == b.n else t for t in x.succ]
def obligation(P, name, rep):
    """every way through a reporting function records the error, unless one is recorded already or the statement is going to be read again"""
    f = P.f[name]; seen = set(); work = [(0, False, None)]; n = 0
    while work:
        b, ok, _ = work.pop()
        if (b, ok) in seen: continue
        seen.add((b, ok)); B = f.b[b]
        for i in B.i:
            if i[2] != "store": continue
            pl = f.place(i[3])
            if pl == ERR and f.const(i[4]) not in (0, None): ok = True
            if pl == "context.errors_in_this_report":
                d = f.d(f.strip(i[4]))
                if d and d[2] == "add" and any(f.const(x) == 1 for x in d[3:]) and any(f.test(x) == (pl, True) for x in d[3:]): ok = True
        if B.t[0] == "ret":
            n += 1
            if not ok: rep.violation("%s does not record the error" % name, "a way to %s on which neither %s is set nor the error counted for the open report" % (B.t[-1], ERR))
        for k, t in enumerate(B.succ):
            o = ok
            if B.t[0] == "br" and B.succ[0] != B.succ[1]:
                x = f.test(B.t[1])
                if x and x[0] in ("context.should_sleep", "context.should_exit_statement", ERR) and x[1] == (k == 0): o = True
                if x and name == "end_error_report" and x[0] == "context.errors_in_this_report" and x[1] != (k == 0): o = True
            work.append((t, o, None))
    return n
def reports(P, rep):
    """a report that is begun is ended on every way"""
    n = 0
    for f in P.f.values():
        if f.name in ("begin_error_report", "end_error_report") or not any(i[3] in ("begin_error_report", "end_error_report") for i in f.calls()): continue
        seen = set(); work = [(0, 0)]
        while work:
            b, o = work.pop()
            if (b, o) in seen: continue
            seen.add((b, o)); B = f.b[b]
            for i in B.i:
                if i[2] != "call": continue
                if i[3] == "begin_error_report":
                    n += 1
                    if o: rep.violation("%s begins a report within a report" % f.name, i[1])
                    o = 1
                elif i[3] == "end_error_report":
                    if not o: rep.violation("%s ends a report that is not open" % f.name, i[1])
                    o = 0
            if B.t[0] == "ret" and o: rep.violation("%s leaves a report open" % f.name, "the errors of the report begun in it never set the error flag (%s)" % B.t[-1])
            work += [(t, o) for t in B.succ]
    return n
def value(f, v, env, d=0):
    """the value of v where env holds what is known"""
    if isinstance(v, list): return f.const(v)
    if v in env: return env[v]
    x = f.defs.get(v)
    if x is None or d > 20: return None
    if x[2] in ("zext", "sext", "trunc", "inttoptr", "ptrtoint", "bitcast", "freeze"): return value(f, x[3], env, d + 1)
    if x[2] == "cmp":
        a, b = value(f, x[4], env, d + 1), value(f, x[5], env, d + 1)
        if a is None or b is None: return None
        if x[3] in ("eq", "ne"): return int((a == b) == (x[3] == "eq"))
        return {"sgt": int(a > b), "sge": int(a >= b), "slt": int(a < b), "sle": int(a <= b)}.get(x[3])
    if x[2] in ("and", "or", "xor", "add", "mul"):
        a, b = value(f, x[3], env, d + 1), value(f, x[4], env, d + 1)
        if x[2] in ("and", "mul") and 0 in (a, b): return 0
        if a is None or b is None: return None
        return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "mul": a * b}[x[2]]
    if x[2] == "select":
        c = value(f, x[3], env, d + 1)
        if c is not None: return value(f, x[4] if c else x[5], env, d + 1)
        a, b = value(f, x[4], env, d + 1), value(f, x[5], env, d + 1)
        return a if a == b else None
    return None
def failed(P, f, call, result, rep, seen, what):
    """on every way on from a call that failed, the error flag of the run is set, or the caller learns of it and does so"""
    if (f.name, call[0], result) in seen: return
    seen.add((f.name, call[0], result)); rep.count("results of writing followed")
    start = next((b.n, k) for b in f.b for k, i in enumerate(b.i) if i[0] == call[0])
    stack = [(start[0], start[1] + 1, ((call[0], result),))]; done = set(); back = set()
    while stack:
        n, k, env0 = stack.pop()
        if (n, k, env0) in done: continue
        done.add((n, k, env0)); B = f.b[n]; env = dict(env0); end = False
        for i in B.i[k:]:
            if i[0] == call[0]: env.pop(i[0], None)      # the next file; what is known of the last one is carried by the variables
            if i[2] == "store" and f.place(i[3]) == ANY and f.const(i[4]) not in (0, None): end = True; break
            if i[2] == "store" and f.place(i[3]) == ERR and f.const(i[4]) not in (0, None): end = True; break
            if i[2] == "call" and isinstance(i[3], str) and (i[3].startswith("report_error") or i[3] in ("os_panic", "ExitProcess")): end = True; break
            if i[2] == "call" and i[3] == "WriteFile" and value(f, i[5][0], env) == -1: env[i[0]] = 0
            elif i[2] == "call" and i[0] in env and i[0] != call[0]: del env[i[0]]
        if end: continue
        if B.t[0] == "dead": continue
        if B.t[0] == "ret":
            v = value(f, B.t[1], env) if B.t[1] is not None else None
            if f.name == "main":
                if not v: rep.violation("main: the exit status is 0 although an output file could not be written: %s" % what, B.t[-1])
            elif v is None: rep.violation("%s: it is forgotten that an output file could not be written" % f.name, "%s; %s" % (what, B.t[-1]))
            else: back.add(v)
            continue
        c = value(f, B.t[1], env) if B.t[0] == "br" else None
        for j, t in enumerate(B.succ):
            if c is not None and bool(c) != (j == 0): continue
            e2 = {v: x for v, x in env.items() if x is not None}
            phis = {}
            for i in f.b[t].i:
                if i[2] != "phi": continue
                phis[i[0]] = next((value(f, v, env) for v, frm in i[3] if frm == n), None)
            for v, x in phis.items():
                if x is None: e2.pop(v, None)
                else: e2[v] = x
            stack.append((t, 0, tuple(sorted((v, x) for v, x in e2.items() if v in keep(f, call)))))
    for v in sorted(back):
        users = [(g, i) for g in P.f.values() for i in g.calls() if i[3] == f.name]
        if not users: raise sa.Broken("nobody calls %s" % f.name)
        for g, i in users: failed(P, g, i, v, rep, seen, what)
def keep(f, call):
    """what is computed from the results of opening and writing: only that is followed"""
    m = getattr(f, "kept", None)
    if m is None: m = f.kept = {}
    if call[0] not in m:
        t = {call[0]} | {i[0] for i in f.calls() if i[3] in ("WriteFile", "CreateFileA")}; grown = True
        while grown:
            grown = False
            for i in f.insts():
                if i[0] in t or i[2] in ("load", "call", "store", "gep"): continue
                ops = [v for v, _ in i[3]] if i[2] == "phi" else i[3:]
                if any(isinstance(v, int) and v in t for v in ops): t.add(i[0]); grown = True
        c = {i[0]: [v for v, _ in i[3]] for i in f.insts() if i[2] == "phi"}; shrunk = True     # variables that only get constants or such results
        while shrunk:
            drop = [i for i, ops in c.items() if not all(isinstance(v, list) or v in t or v in c for v in ops)]; shrunk = bool(drop)
            for i in drop: del c[i]
        m[call[0]] = t | set(c)
    return m[call[0]]
def writes(P, rep):
    """a file that cannot be opened or written is an error"""
    seen = set(); n = 0
    for f in list(P.f.values()):
        opened = {i[0] for i in f.calls() if i[3] == "CreateFileA" and (f.const(i[5][1]) is None or f.const(i[5][1]) & WRITE)}
        if not opened or any(x[2] == "store" and f.place(x[3]) == "globals.preprocessed_file_handle" for x in f.insts()): continue
        for i in f.calls():
            if i[0] in opened: n += 1; failed(P, f, i, -1, rep, seen, "the file opened at %s" % i[1])
            if i[3] == "WriteFile" and not isinstance(i[5][0], list) and f.strip(i[5][0]) in opened: n += 1; failed(P, f, i, 0, rep, seen, "the data written at %s" % i[1])
    return n
def check(rep):
    P = irq.Program(after="jump-threading"); P.need("main", "report_error", "report_syntax_error", "end_error_report", "begin_error_report")
    split_returns(P.f["main"])
    for name in ("report_error", "report_syntax_error", "end_error_report"): rep.count("ways through reporting functions", obligation(P, name, rep))
    rep.count("reports", reports(P, rep)); rep.count("openings and writes of output", writes(P, rep)); rep.need("openings and writes of output", 4)
    started = [a[1] for f in P.f.values() for i in f.calls() if i[3] in ("os_create_thread", "CreateThread") for a in i[5] if isinstance(a, list) and a[0] == "f"]
    if not started: raise sa.Broken("no thread is started")
    F = Flow(P, rep); F.run([("main", (0, 1))] + [(t, (0, 0)) for t in sorted(set(started))])
    for (fn, what), l in F.found.items(): rep.violation("%s: %s" % (fn, what), l)
    rep.count("functions", len({k[0] for k in F.memo})); rep.count("function states", len(F.memo)); rep.count("decisive sites", len(F.sites)); rep.count("files opened for writing", F.counts["files opened for writing"])
    rep.count("reporting call sites", sum(1 for f in P.f.values() for i in f.calls() if isinstance(i[3], str) and i[3].startswith("report_") and "warning" not in i[3]))
    rep.need("functions", 200); rep.need("decisive sites", 12); rep.need("reporting call sites", 200); rep.need("files opened for writing", 2); rep.need("reports", 4)
    rep.explanation = "interprocedural dataflow over the compiler's LLVM IR from main and from the thread entry: which errors may be recorded for a thread but not for the run, and whether the flag of the run is known to be zero, at every place that opens an output file, counts work as done, forgets a context's error or returns the exit status; obligations of the reporting functions and the pairing of begin_error_report and end_error_report on every way"
    rep.assumptions = ["indirect calls enter any function of the same type whose address is taken", "the threads' contexts are not told apart"]
