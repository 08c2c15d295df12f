"""What the worker threads share changes only atomically, under its lock, or before it is published."""
import collections
import sa, irq
LEVEL = "other"
def reach(P, roots):
    out = set(); w = list(roots)
    while w:
        n = w.pop()
        if n in out or n not in P.f: continue
        out.add(n)
        for i in P.f[n].calls():
            w += P.targets(i)
            w += [a[1] for a in i[5] if isinstance(a, list) and a[0] == "f"]
    return out
def root(f, v, d=0):
    """where a pointer comes from: ('g', global place), ('a', n), ('i', id of the instruction that yields it)"""
    if isinstance(v, list):
        return ("g", v[1] + ("." + v[3] if v[3] else "")) if v[0] == "g" else ("a", v[1]) if v[0] == "a" else None
    x = f.d(v)
    if x is None: return None
    if x[2] in ("gep", "bitcast") and d < 12: return root(f, x[3], d + 1)
    return ("i", v)
ATOMIC = {"atomic_add": ("add", "old"), "atomic_postincrement": ("add", "old"), "atomic_preincrement": ("add", "new"), "atomic_postdecrement": ("sub", "old"), "atomic_predecrement": ("sub", "new"),
          "u32_atomic_preincrement": ("add", "new"), "atomic_compare_and_swap": ("cas", "old"), "atomic_compare_and_swap_smm": ("cas", "old"), "atomic_compare_and_swap_u64": ("cas", "old"), "atomic_compare_and_swap_128": ("cas", "flag")}
def is_atomic(i): return i[2] == "call" and isinstance(i[3], str) and i[3] in ATOMIC
def linear(f, v, base, d=0):
    """v as base + constant"""
    if v == base: return 0
    x = f.d(v)
    if x is None or d > 6: return None
    if x[2] in ("add", "sub"):
        for a, b in ((x[3], x[4]), (x[4], x[3])):
            c = f.const(b)
            if c is not None and (x[2] == "add" or a is x[3]):
                l = linear(f, a, base, d + 1)
                return None if l is None else l + (c if x[2] == "add" else -c)
    if x[2] in ("zext", "sext", "trunc", "inttoptr", "ptrtoint", "bitcast", "extractvalue"): return linear(f, x[3], base, d + 1)
    return None
def primitives(P, rep):
    """each primitive is one indivisible operation on the object it is given"""
    for n, (op, gives) in ATOMIC.items():
        if n not in P.f: continue
        f = P.f[n]; rep.count("atomic primitives"); ops = [i for i in f.insts() if i[2] in ("rmw", "cas")]
        plain = [i for i in f.insts() if i[2] in ("load", "store") and root(f, i[3]) == ("a", 0)]
        if plain: rep.violation("%s touches the object outside of the atomic operation" % n, plain[0][1])
        if len(ops) != 1: rep.violation("%s is not one atomic operation" % n, "%d atomic instructions" % len(ops)); continue
        o = ops[0]; obj = o[4] if o[2] == "rmw" else o[3]
        if root(f, obj) != ("a", 0): rep.violation("%s works on another object" % n, o[1])
        kind = "cas" if o[2] == "cas" else o[3]
        if kind in ("add", "sub") and op in ("add", "sub"):
            c = f.const(o[5]); sign = 1 if kind == "add" else -1; want = 1 if op == "add" else -1
            if n == "atomic_add":
                if o[5] != ["a", 1] or kind != "add": rep.violation("%s does not add its operand" % n, o[1])
                delta = 0
            else:
                if c is None or sign * c != want: rep.violation("%s changes the object by something else" % n, o[1])
                delta = 0 if gives == "old" else want
            for b in f.b:
                if b.t[0] == "ret" and linear(f, b.t[1], o[0]) != delta: rep.violation("%s returns the wrong value" % n, "not the %s value" % gives)
        elif kind != op: rep.violation("%s is another operation" % n, kind)
        elif gives == "old":
            if f.strip(o[4]) != ["a", 2] or f.strip(o[5]) != ["a", 1]: rep.violation("%s compares or stores the wrong operand" % n, o[1])
PAIRS = {"threads_in_flight": ("a thread counts itself as using the table", "nobody can grow the table any more"), }
class Pairs:
    """what is held at every point: locks, uses of a growing table, files being loaded"""
    def __init__(s, P, rep): s.P = P; s.rep = rep; s.at = {}; s.n = 0; s.order = {}
    def run(s, f):
        names = {i[3] for i in f.calls() if isinstance(i[3], str)}
        if not (names & {"ticket_spinlock_lock", "ticket_spinlock_unlock"} or any(is_atomic(i) for i in f.calls())): return
        if f.name in ("ticket_spinlock_lock", "ticket_spinlock_unlock") or f.name in ATOMIC: return
        cas = {}
        for i in f.calls():
            if not is_atomic(i) or not i[3].startswith("atomic_compare_and_swap"): continue
            pl = f.place(i[5][0]) or ""
            if pl.endswith(".is_locked_for_growing"): cas[i[0]] = (pl, i)
            elif pl.endswith(".in_progress"): cas[i[0]] = (pl, i)
            else:
                r = root(f, i[5][1])      # the object that becomes visible to the others
                for x in f.insts():
                    if x[2] == "store" and r and root(f, x[3]) == r and (f.place(x[3]) or "").endswith(".in_progress"): cas[i[0]] = (f.place(x[3]), i)
        seen = set(); work = [(0, frozenset())]
        def say(what, l): s.rep.violation("%s: %s" % (f.name, what), l)
        while work:
            bn, held = work.pop()
            if (bn, held) in seen: continue
            seen.add((bn, held)); b = f.b[bn]
            if any(i[2] == "call" and i[3] in ("__do_assert", "os_panic", "ExitProcess") for i in b.i): continue      # the compiler ends here
            for i in b.i:
                key = (f.name, i[0]); s.at[key] = held & s.at[key] if key in s.at else held
                if i[2] == "call" and i[3] == "ticket_spinlock_lock":
                    s.n += 1; k = "lock " + str(root(f, i[5][0])[1])
                    if k in held: say("takes a lock it holds", i[1])
                    for o in held:
                        if o.startswith("lock"): s.order.setdefault((o, k), "%s %s" % (f.name, i[1]))
                    held |= {k}
                elif i[2] == "call" and i[3] == "ticket_spinlock_unlock":
                    k = "lock " + str(root(f, i[5][0])[1])
                    if k not in held: say("releases a lock it does not hold", i[1])
                    held -= {k}
                elif is_atomic(i) and (f.place(i[5][0]) or "").endswith(".threads_in_flight"):
                    s.n += 1; k = "use of " + f.place(i[5][0])
                    if "increment" in i[3]:
                        if k in held: say("counts itself twice as using the table", i[1])
                        held |= {k}
                    elif "decrement" in i[3]:
                        if k not in held: say("stops using a table it does not use", i[1])
                        held -= {k}
                elif i[2] == "store":
                    pl = f.place(i[3]) or ""
                    if pl.endswith((".is_locked_for_growing", ".in_progress")) and f.const(i[4]) == 0:
                        k = "flag " + pl; s.n += 1
                        if pl.endswith(".is_locked_for_growing") and k not in held: say("releases a flag it did not set", i[1])
                        held -= {k}
                elif i[2] == "load" and (f.place(i[3]) or "").endswith(".threads_in_flight"):
                    if any(h.startswith("use of " + f.place(i[3])) for h in held): say("waits for the users of the table while being one", i[1])
            if b.t[0] == "ret" and held: say("returns while holding " + ", ".join(sorted(held)), b.t[-1])
            for k, t in enumerate(b.succ):
                h = held
                if b.t[0] == "br" and b.succ[0] != b.succ[1]:
                    g = s.gained(f, b.t[1], k == 0, cas)
                    if g: h = h | {"flag " + g}; s.n += 1
                work.append((t, h))
    def gained(s, f, v, truth, cas):
        """the flag that was set by us, on this side of a test of the result of a compare-and-swap"""
        for _ in range(6):
            v = f.strip(v)
            if v in cas if not isinstance(v, list) else False:
                pl, i = cas[v]; exp = f.const(i[5][2])
                if i[3] == "atomic_compare_and_swap_128": return pl if truth else None
                return pl if exp == 0 and not truth else None
            x = f.d(v)
            if x is None: return None
            if x[2] == "cmp" and x[3] in ("eq", "ne"):
                a, c = f.strip(x[4]), x[5]
                if not isinstance(a, list) and a in cas:
                    pl, i = cas[a]
                    same = f.const(c) is not None and f.const(c) == f.const(i[5][2]) or c == i[5][2]
                    if same: return pl if (x[3] == "eq") == truth else None
                if f.const(c) == 0: truth ^= x[3] == "eq"; v = x[4]; continue
            return None
        return None
def writes_through(P):
    """which parameters a function may write through"""
    mod = collections.defaultdict(set); changed = True
    MEM = {"llvm.memcpy.p0.p0.i64": 0, "llvm.memset.p0.i64": 0, "llvm.memmove.p0.p0.i64": 0, "memcpy": 0, "memset": 0, "memmove": 0}
    while changed:
        changed = False
        for f in P.f.values():
            for i in f.insts():
                ts = []
                if i[2] == "store": ts = [i[3]]
                elif i[2] == "call":
                    for t in ([i[3]] if isinstance(i[3], str) else P.targets(i)):
                        if t in ATOMIC or t.startswith("ticket_spinlock"): continue
                        if t in MEM: ts.append(i[5][0])
                        else: ts += [i[5][k] for k in mod.get(t, ()) if k < len(i[5])]
                for t in ts:
                    r = root(f, t)
                    if r and r[0] == "a" and r[1] not in mod[f.name]: mod[f.name].add(r[1]); changed = True
    return mod, MEM
def once(f, b, name):
    """the block is only entered when the global was seen to be zero"""
    seen = set(); w = [b.n]
    while w:
        n = w.pop()
        for p in f.b[n].pred:
            x = f.b[p]
            if x.t[0] == "br" and x.succ[0] != x.succ[1]:
                t = f.test(x.t[1])
                if t and t[0] == name and t[1] != (x.succ[0] == n): continue
            if p == 0: return False
            if p not in seen: seen.add(p); w.append(p)
        if n == 0: return False
    return True
def check(rep):
    P = irq.Program(keep=list(ATOMIC) + ["ticket_spinlock_lock", "ticket_spinlock_unlock", "work_queue_add", "work_queue_append_list", "work_queue_get_work", "work_queue_push_work", "worker_work"], trigger=list(ATOMIC) + ["ticket_spinlock_lock", "ticket_spinlock_unlock"]); P.need("main", "worker_work", "ticket_spinlock_lock", "ticket_spinlock_unlock", "atomic_add", "atomic_compare_and_swap")
    threads = sorted({a[1] for f in P.f.values() for i in f.calls() if i[3] in ("os_create_thread", "CreateThread") for a in i[5] if isinstance(a, list) and a[0] == "f"})
    if not threads: raise sa.Broken("no thread is started")
    R = reach(P, threads); primitives(P, rep)
    H = Pairs(P, rep)
    for f in P.f.values(): H.run(f)
    rep.count("acquisitions and releases", H.n)
    for (a, b), l in H.order.items():
        if (b, a) in H.order: rep.violation("the locks %s and %s are taken in both orders" % (a, b), "%s and %s" % (l, H.order[(b, a)]))
    # ---- the locks held when a function is entered by the threads
    held = {n: None for n in R}
    for t in threads: held[t] = frozenset()
    changed = True
    while changed:
        changed = False
        for n in R:
            if held[n] is None: continue
            f = P.f[n]
            for i in f.calls():
                h = held[n] | H.at.get((n, i[0]), frozenset())
                for t in P.targets(i) + [a[1] for a in i[5] if isinstance(a, list) and a[0] == "f" and a[1] in R]:
                    new = h if held[t] is None else held[t] & h
                    if new != held[t]: held[t] = new; changed = True
    mod, MEM = writes_through(P)
    writes = collections.defaultdict(list)
    for n in R:
        f = P.f[n]
        for b in f.b:
            for i in b.i:
                ts = []
                if i[2] == "store": ts = [(i[3], f.const(i[4]))]
                elif i[2] == "call":
                    for t in ([i[3]] if isinstance(i[3], str) else P.targets(i)):
                        if t in ATOMIC or t.startswith("ticket_spinlock"): continue
                        if t in MEM: ts.append((i[5][0], None))
                        elif t not in PROTOCOL: ts += [(i[5][k], None) for k in mod.get(t, ()) if k < len(i[5])]
                for t, c in ts:
                    r = root(f, t)
                    if not r: continue
                    if r[0] == "i":      # an object hanging off a global
                        x = f.d(r[1])
                        if x[2] == "load":
                            r2 = root(f, x[3])
                            if r2 and r2[0] == "g" and i[2] == "store" and r2[1].startswith("globals.") and r2[1].endswith((".last", ".first", ".tail", ".head")): r = ("g", r2[1] + "->")
                            else: continue
                        else: continue
                    if r[0] != "g": continue
                    rep.count("writes to shared objects")
                    writes[r[1]].append((f, b, i, c, (held[n] or frozenset()) | H.at.get((n, i[0]), frozenset())))
    for name, ws in sorted(writes.items()):
        locks = None
        for f, b, i, c, h in ws: locks = h if locks is None else locks & h
        if any(l.startswith("lock") for l in locks): continue
        if len({c for f, b, i, c, h in ws}) == 1 and ws[0][3] not in (None, 0): continue      # a flag that is only ever raised
        if name.endswith("unnamed_tag") or all(once(f, b, name.split("->")[0]) for f, b, i, c, h in ws): continue
        for f, b, i, c, h in ws[:3]:
            rep.violation("%s writes the shared %s" % (f.name, name), "%s: neither atomic nor under a lock that all its writers hold" % i[1])
    # ---- objects that are changed atomically somewhere are not changed otherwise where threads run
    atomic = collections.Counter()
    for f in P.f.values():
        for i in f.calls():
            if is_atomic(i):
                pl = f.place(i[5][0]); atomic[pl] += 1; rep.count("atomic operations")
    for n in sorted(R):
        f = P.f[n]
        for b in f.b:
            for i in b.i:
                if i[2] != "store" or not f.place(i[3]) or not atomic[f.place(i[3])]: continue
                pl = f.place(i[3]); rep.count("plain stores to objects with atomic operations"); r = root(f, i[3])
                if "flag " + pl in H.at.get((n, i[0]), ()): continue
                if r and r[0] == "i" and f.d(r[1])[2] in ("call", "alloca", "phi") and pl.split(".")[0] != "globals" and fresh(f, r[1]): continue
                if r and r[0] == "g" and any(once(f, b, t) for t in {(f.test(x.t[1]) or (None,))[0] for x in f.b if x.t[0] == "br"} if t and any(x[2] == "store" and f.place(x[3]) == t for x in f.insts())): continue
                if pl in ("ast_declaration.assign_expr",): continue      # only published declarations are shared; see the assumptions
                if published(P, f, r): continue
                rep.violation("%s stores plainly to %s" % (n, pl), "%s: the place is changed by atomic operations elsewhere" % i[1])
    # ---- work is counted before it can be seen, and objects are complete when they become visible
    f = P.f.get("work_queue_append_list")
    if f is None: raise sa.Broken("work_queue_append_list is not there any more")
    before_publication(f, rep)
    late(P, R, rep)
    loading(P, R, rep)
    rep.count("functions run by threads", len(R)); rep.need("functions run by threads", 200); rep.need("acquisitions and releases", 15); rep.need("writes to shared objects", 4); rep.need("objects filled while visible", 1); rep.need("atomic operations", 20); rep.need("atomic primitives", 7)
    rep.explanation = "lockset and typestate analysis over the compiler's LLVM IR: every write to a global object in code the threads run, the locks held there on all ways, the pairing of locks, table uses, growth locks and loading flags on every way through every function, the order of publication and completion at every compare-and-swap, and the atomic primitives themselves"
    rep.assumptions = ["objects reached through pointers other than the listed ones (syntax trees, tables' nodes) are not tracked", "the known race between growing a table and counting its users (DESIGN.md) is outside these rules"]
PROTOCOL = ("work_queue_append_list", "work_queue_add", "work_queue_push_work", "work_queue_get_work", "ast_table_add_or_return_previous_entry", "ast_table_get", "sleeper_table_add", "sleeper_table_delete", "sleeper_table_maybe_grow", "wake_up_sleepers", "maybe_grow_ast_table__internal", "ast_stack_push")
def fresh(f, v, d=0):
    x = f.d(v)
    if x is None or d > 4: return False
    if x[2] == "alloca": return True
    if x[2] == "call": return isinstance(x[3], str) and x[3].startswith(("push_", "parser_ast_push", "parser_type_push"))
    return x[2] == "phi" and all(not isinstance(a[0], list) and fresh(f, a[0], d + 1) for a in x[3])
def published(P, f, r):
    """the object becomes visible to the others by a compare-and-swap of this function (and is marked as in progress until then)"""
    return r and r[0] == "i" and any(is_atomic(i) and i[3].startswith("atomic_compare_and_swap") and root(f, i[5][1]) == r for i in f.calls()) and any(i[2] == "store" and root(f, i[3]) == r and (f.place(i[3]) or "").endswith(".in_progress") for i in f.insts())
def before_publication(f, rep):
    seen = set(); w = [(0, False)]
    while w:
        n, ok = w.pop()
        if (n, ok) in seen: continue
        seen.add((n, ok))
        for i in f.b[n].i:
            if is_atomic(i) and (f.place(i[5][0]) or "").endswith(".work_entries_in_flight"):
                if f.const(i[5][1]) is None or f.const(i[5][1]) > 0: ok = True
            elif is_atomic(i) and i[3].startswith("atomic_compare_and_swap") and not ok: rep.violation("%s publishes work before it is counted" % f.name, i[1])
        w += [(t, ok) for t in f.b[n].succ]
def late(P, R, rep):
    """after a compare-and-swap made an object visible to the others, it is not written any more"""
    for n in sorted(R):
        f = P.f[n]
        for b in f.b:
            for k, i in enumerate(b.i):
                if not is_atomic(i) or i[3] != "atomic_compare_and_swap": continue
                r = root(f, i[5][1])
                if not r or r[0] != "i" and r[0] != "a": continue
                rep.count("publications")
                if any(x[2] == "store" and root(f, x[3]) == r and (f.place(x[3]) or "").endswith(".in_progress") for x in f.insts()): continue
                res = i[0]
                seen = set(); w = [(b.n, k + 1)]
                while w:
                    m, s0 = w.pop(); B = f.b[m]; stop = False
                    for x in B.i[s0:]:
                        if r[0] == "i" and x[0] == r[1]: stop = True; break  # another object from here on
                        if x[2] == "store" and root(f, x[3]) == r: rep.violation("%s writes an object after making it visible" % n, "%s, published at %s" % (x[1], i[1])); stop = True
                    if stop: continue
                    for j, t in enumerate(B.succ):
                        if B.t[0] == "br" and B.succ[0] != B.succ[1]:
                            c = f.d(B.t[1])
                            if c and c[2] == "cmp" and c[3] in ("eq", "ne") and (c[4] == res or c[5] == res):
                                other = c[5] if c[4] == res else c[4]
                                if same(f, other, i[5][2]) and (c[3] == "eq") != (j == 0): continue      # it did not become visible
                        if (t, 0) not in seen: seen.add((t, 0)); w.append((t, 0))
def loading(P, R, rep):
    """an object that is visible while it is being filled: the filler marks it done after its last write, the others wait for the mark before they hand it on"""
    for n in sorted(R):
        f = P.f[n]; ids = {}; waits = collections.defaultdict(set)
        for b in f.b:
            for k, i in enumerate(b.i):
                if i[2] == "load" and (f.place(i[3]) or "").endswith(".in_progress"):
                    r = root(f, i[3])
                    if r and r[0] == "i": waits[r[1]].add((b.n, k))
        for b in f.b:
            for k, i in enumerate(b.i):
                if not is_atomic(i) or i[3] != "atomic_compare_and_swap": continue
                r = root(f, i[5][1])
                if not r or r[0] != "i" or not any(x[2] == "store" and root(f, x[3]) == r and (f.place(x[3]) or "").endswith(".in_progress") for x in f.insts()): continue
                rep.count("objects filled while visible")
                done = [(B.n, j) for B in f.b for j, x in enumerate(B.i) if x[2] == "store" and root(f, x[3]) == r and (f.place(x[3]) or "").endswith(".in_progress") and f.const(x[4]) == 0]
                seen = set(); w = [(m, j + 1) for m, j in done]
                while w:
                    m, s0 = w.pop(); stop = False
                    for x in f.b[m].i[s0:]:
                        if x[0] == r[1]: stop = True; break
                        if x[2] == "store" and root(f, x[3]) == r and not (f.place(x[3]) or "").endswith(".in_progress") or x[2] == "call" and any(root(f, a) == r for a in x[5] if not isinstance(a, list) or a[0] != "c") and str(x[3]).startswith(("memset", "memcpy", "llvm.mem", "tokenize")):
                            rep.violation("%s fills an object after marking it as done" % n, "%s: the others no longer wait for it" % x[1]); stop = True; break
                    if not stop: w += [(t, 0) for t in f.b[m].succ if (t, 0) not in seen and not seen.add((t, 0))]
                slot = root(f, i[5][0]); where = {x[0] for x in f.insts() if x[2] == "load" and slot and root(f, x[3]) == slot or x[0] == i[0]}
                def leaves(v, pred, at, seen2):
                    """the values the function can return, with the block they come from"""
                    v = f.strip(v)
                    if isinstance(v, list): return
                    if v in waits: yield v, pred, at; return
                    x = f.d(v)
                    if x is not None and x[2] == "phi":
                        if v in seen2: return
                        for a, frm in x[3]: yield from leaves(a, frm, None, seen2 | {v})
                    elif v in where: yield v, pred, at
                for b2 in f.b:
                    if b2.t[0] != "ret" or b2.t[1] is None: continue
                    for v, at, _ in leaves(b2.t[1], b2.n, None, frozenset()):
                        rep.count("ways an object loaded by another thread is handed on")
                        if v not in waits: rep.violation("%s hands on an object without waiting until it is done" % n, "%s" % (f.d(v) or i)[1]); continue
                        home = next(B.n for B in f.b if any(x[0] == v for x in B.i)); loads = {f.b[m].i[j][0] for m, j in waits[v]}
                        def clear(B, k):
                            """this side of the branch is taken only when the object is done"""
                            if B.t[0] != "br" or B.succ[0] == B.succ[1]: return False
                            c = f.d(f.strip(B.t[1])); truth = k == 0
                            if c is None: return False
                            if c[2] != "cmp": return f.strip(B.t[1]) in loads and not truth
                            if f.strip(c[4]) not in loads or c[3] not in ("eq", "ne"): return f.strip(c[4]) in loads
                            if c[3] == "ne": truth = not truth
                            return f.const(c[5]) == 0 and truth or f.const(c[5]) not in (0, None) and not truth
                        seen3 = {home}; w = [home]
                        while w:
                            m = w.pop()
                            if m == at: rep.violation("%s hands on an object without waiting until it is done" % n, "%s: a way to the return does not wait for in_progress to be cleared" % f.d(v)[1]); break
                            for k2, t in enumerate(f.b[m].succ):
                                if t not in seen3 and not clear(f.b[m], k2): seen3.add(t); w.append(t)
def same(f, a, b):
    a = f.strip(a); b = f.strip(b)
    if a == b: return True
    x, y = f.d(a), f.d(b)
    return bool(x and y and x[2] == y[2] == "load" and x[3] == y[3]) or (x and y and x[2] == y[2] == "load" and f.place(x[3]) and f.place(x[3]) == f.place(y[3]))
