"""Back end: the meaning of IR sequences over memory, and the comparison with the machine code emitted for them."""
import copy, json, multiprocessing, os, re, sys, time
import sa, x86sem
from irsem import *
from x86sem import *
sys.setrecursionlimit(20000)

LOCAL, PARAM, GLOBAL, IMPORT, TLS, FUNCTION, IMPORTED_FUNCTION = range(7)
ARGS = ["rcx", "rdx", "r8", "r9"]
def tsize(t, tp):
    """size of a type index"""
    if isinstance(t, str): return SIZE[t] if t != "void" else 0
    if 300 <= t < 400: return tp.structs[t - 300][0]
    if 200 <= t < 300: return SIZE[tp.bfs[t - 200][0]]
    if t >= 400 or 100 <= t < 112: return 8
    return SIZE[TYPES[t]] if t < 12 and t else (0 if t == 0 else SIZE[ATOMIC[t - 15]])
def tindex(t): return (T[t] if t in T else 15 + ATOMIC.index(t)) if isinstance(t, str) and t != "ptr" else (101 if t == "ptr" else t)
def tfloat(t): return t in ("f32", "f64", 10, 11)
def odd(n): return n not in (1, 2, 4, 8)

class Template:
    """seq: [(kind, a, b, c)] with kinds by name; decls: [(storage, type, offset or None, extra)]; fns: [(return type, [argument types], varargs)]"""
    def __init__(s, label, seq, decls, fns, bfs=(), structs=(), members=(), labels=0, chunk=8, atomics=0, frame=None, grids=None):
        s.label = label; s.seq = seq; s.bfs = list(bfs); s.structs = list(structs); s.members = list(members); s.labels = labels; s.chunk = chunk; s.fns = fns; s.atomics = atomics; s.grids = grids or {}
        s.decls = []; at = 0
        for d in decls:
            st, t = d[0], d[1]; off = d[2] if len(d) > 2 else None
            if st == LOCAL:
                if off is None:
                    n = tsize(t, s); al = min(8, n & -n) if n else 1; at = (at + n + al - 1) // al * al; off = at
                else: at = max(at, off)
            s.decls.append((st, t, off or 0))
        s.frame = at if frame is None else frame
    def job(s, K):
        seq = []
        for e in s.seq:
            k, a, b, c = (tuple(e) + (0, 0, 0))[:4]
            if "IR_" + k not in K: raise sa.Broken("there is no IR kind " + k)
            seq += [K["IR_" + k], tindex(a) if isinstance(a, str) else a, b, c]
        decls = []
        for st, t, off in s.decls: decls += [st, tindex(t), off, 0]
        fns = []
        for r, args, va in s.fns: f = [tindex(r), len(args), va] + [tindex(x) for x in args]; fns += f + [0] * (16 - len(f))
        bf = []
        for t, bit, width in s.bfs: bf += [tindex(t), bit, width, 0]
        st = []
        for x in s.structs: st += list(x) + [0] * (4 - len(x))
        mb = []
        for t, off in s.members: mb += [tindex(t), off, 0, 0]
        return dict(id=s.label, fn="h_emit", stub={"emit_patch": "__sa_stub__patch"}, max_steps=250000,
                    init={"h_seq": signed(seq), "h_decls": decls + [-1, 0, 0, 0], "h_fns": fns, "h_bfs": bf or [0], "h_structs": st or [0], "h_members": mb or [0], "h_config": [s.frame, s.labels]})
def signed(v): return [x - (1 << 64) if x >> 63 & 1 and x > 0 else x for x in v]

# ------------------------------------------------------------------ initial contents
def chunk_ref(name, o, c, w=None):
    """byte o of an object that is made of c byte pieces"""
    return (leaf(8 * c, "%s.%d" % (name, o // c) if w != c else name), o % c)
def flagname(r):
    if r[0] == "leaf": return r[1]
    return "+".join("%s%s" % ("" if k == 1 else "%d*" % k, brief(x)) for x, k in r[1:])
def brief(e): return e[2] if e[0] == "leaf" else "(" + show(e) + ")"

class World:
    """the memory before the function starts, for both sides"""
    def __init__(s, tp, frame):
        s.tp = tp; s.frame = frame; s.big = 0
        ret = tp.fns[0][0]; n = tsize(ret, tp)
        s.retbig = isinstance(ret, int) and ret >= 300 and odd(n)
        s.params = {}; s.locals = []
        i = 0
        for d, (st, t, off) in enumerate(tp.decls):
            if st == PARAM: s.params[d] = (len(s.params) + s.retbig, t)
            if st == LOCAL: s.locals.append((d, frame - off, tsize(t, tp)))
        s.slots = {slot: d for d, (slot, t) in s.params.items()}
    def objname(s, d): return "p%d" % d if d in s.params else "v%d" % d
    def objref(s, d, o):
        n = tsize(s.tp.decls[d][1], s.tp); return chunk_ref(s.objname(d), o, n if n in (1, 2, 4, 8) else 8, n if n in (1, 2, 4, 8) else None)
    def byparam(s, d): return odd(tsize(s.params[d][1], s.tp))
    def region(s, r, o, epoch):
        tp = s.tp
        if r[0] == "leaf":
            n = r[1]
            if n.startswith("&flt:"):
                _, size, k = n.split(":"); e = s.floats[int(k)]
                b = split(e)[:int(size)]
                return b[o] if 0 <= o < len(b) else (leaf(8, "outside a float constant"), 0)
            if n.startswith("&imp"): return (leaf(64, "&g" + n[4:]), o) if 0 <= o < 8 else (leaf(8, "junk"), 0)
            if n == "&tls_index": return (leaf(32, "tls_index"), o) if 0 <= o < 4 else (leaf(8, "junk beside the tls index%d" % o), 0)
            if n == "gs" and 0x58 <= o < 0x60: return (leaf(64, "tlsslots"), o - 0x58)
            if n.startswith("retobj"): return (leaf(8, "%s[%d]" % (n, o)), 0)
        if r[0] == "sum" and (leaf(64, "tlsslots"), 1) in r[1:] and len(r) == 3 and dict(r[1:]).get(mk("zext", 64, leaf(32, "tls_index"))) == 8 and 0 <= o < 8: return (leaf(64, "tlsbase"), o)
        c = tp.chunk
        return (leaf(8 * c, "[%s%+d]%s" % (flagname(r), o // c * c, "" if not epoch else " after call %d" % epoch)), o % c)
    def ir(s, r, o, epoch):
        if r == ("leaf", "rsp0"):
            for d, a, n in s.locals:
                if a <= o < a + n: return s.objref(d, o - a)
            for d, (slot, t) in s.params.items():
                n = tsize(t, s.tp)
                if not odd(n) and 8 + 8 * slot <= o < 8 + 8 * slot + n: return s.objref(d, o - 8 - 8 * slot)
            return (leaf(8, "stack%+d" % o), 0)
        if r[0] == "leaf" and r[1].startswith("bp"): return s.objref(int(r[1][2:]), o)
        return s.region(r, o, epoch)
    def x86(s, r, o, epoch):
        if r == ("leaf", "rsp0"):
            if 0 <= o < 8: return (leaf(64, "retaddr"), o)
            if o >= 40:
                slot, k = (o - 8) // 8, (o - 8) % 8
                if slot in s.slots:
                    d = s.slots[slot]; n = tsize(s.params[d][1], s.tp)
                    if odd(n): return (leaf(64, "bp%d" % d), k)
                    if k < n: return s.objref(d, k)
                return (leaf(8, "caller's stack%+d" % o), 0)
            for d, a, n in s.locals:
                if a <= o < a + n: return s.objref(d, o - a)
            return (leaf(8, "uninitialised%+d" % o), 0)
        if r[0] == "leaf" and r[1].startswith("bp"): return s.objref(int(r[1][2:]), o)
        return s.region(r, o, epoch)
    def entry(s, st):
        """argument registers"""
        for d, (slot, t) in s.params.items():
            if slot >= 4: continue
            n = tsize(t, s.tp)
            if tfloat(t): st.regs["xmm%d" % slot] = [s.objref(d, i) for i in range(n)] + [(leaf(8, "upper%d.%d" % (d, i)), 0) for i in range(n, 16)]
            elif odd(n): st.regs[ARGS[slot]] = split(leaf(64, "bp%d" % d))
            else: st.regs[ARGS[slot]] = [s.objref(d, i) for i in range(n)] + [(leaf(8, "upper%d.%d" % (d, i)), 0) for i in range(n, 8)]
        if s.retbig: st.regs["rcx"] = split(leaf(64, "retptr"))

# ------------------------------------------------------------------ the IR side
def within(name, lo, hi, w):
    """an unknown constant of a known range: its high bytes are known when they are the same throughout the range"""
    if lo == hi: return const(w, lo)
    lo &= mask(64); hi &= mask(64)
    return assemble([("c", lo >> (8 * i) & 255) if lo >> (8 * i) == hi >> (8 * i) else (leaf(64, name), i) for i in range(w // 8)])
class LV:
    def __init__(s, addr, size, fl=False, fn=None): s.addr = addr; s.size = size; s.fl = fl; s.fn = fn
class St:
    pass
class BMachine(Machine):
    def __init__(s, tp, world):
        s.tp = tp; s.w = world; s.fresh = 0; s.calls = 0; s.bf = {}; s.types = {}
        for i, (t, bit, width) in enumerate(tp.bfs): s.bf[200 + i] = dict(type=t, bit=bit, width=width)
        s.labels = {e[1]: i for i, e in enumerate(tp.seq) if e[0] == "jump_label"}
        s.cases = {e[1]: i for i, e in enumerate(tp.seq) if e[0] == "case"}
    def addr(s, d):
        st, t, off = s.tp.decls[d]
        if st == LOCAL: return mk("add", 64, RSP0, const(64, s.w.frame - off))
        if st == PARAM:
            if s.w.byparam(d): return leaf(64, "bp%d" % d)
            return mk("add", 64, RSP0, const(64, 8 + 8 * s.w.params[d][0]))
        if st == TLS: return norm(mk("add", 64, leaf(64, "tlsbase"), mk("zext", 64, leaf(32, "secoff:&tls%d" % d))))
        return leaf(64, "&g%d" % d)
    def value(s, st, x, mem, w=None, fl=False):
        if x is None: raise Bad("the value of a void expression is used")
        if isinstance(x, LV): 
            if odd(x.size): raise Bad("reads an object of %d bytes as a value" % x.size)
            e, xf = assemble(s.mem.read(x.addr, x.size)), x.fl
        else: e, xf = x.e, x.fl
        if w is None: return e, xf
        if e[1] == w: return e, xf
        if fl: raise Bad("a %d bit float operation reads a %d bit value" % (w, e[1]))
        if e[1] > w: return mk("trunc", w, e), xf
        raise Bad("reads a %d bit value as %d bits" % (e[1], w))
    def write(s, addr, e): s.mem.write(addr, split(e))
    def step(s, e, st):
        k, a, b, c = (tuple(e) + (0, 0, 0))[:4]
        pop = lambda: s.pop(st); push = lambda v, fl=False: st.append(Val(v, fl)); mem = None
        if k == "identifier":
            if s.tp.decls[a][0] in (FUNCTION, IMPORTED_FUNCTION): st.append(LV(leaf(64, ("&f%d" if s.tp.decls[a][0] == FUNCTION else "&g%d") % a), 0, fn=True)); return
            st.append(LV(s.addr(a), tsize(s.tp.decls[a][1], s.tp), tfloat(s.tp.decls[a][1]))); return
        if k in ("integer_literal", "float_literal", "pointer_literal"):
            w = 8 * tsize(a, s.tp) if k != "pointer_literal" else 64
            v = within("l%d" % s.at, b, c, w); push(v, tfloat(a)); return
        if k == "pointer_literal_deref": st.append(LV(const(64, b) if b == c else leaf(64, "l%d" % s.at), tsize(a, s.tp), tfloat(a))); return
        if k == "compound_literal":
            ad = s.addr(a); n = tsize(s.tp.decls[a][1], s.tp)
            if isinstance(s.tp.decls[a][1], int) and s.tp.decls[a][1] >= 300: s.mem.write(ad, [("c", 0)] * n)
            st.append(LV(ad, n, tfloat(s.tp.decls[a][1]))); return
        if k in ("pop_expression", "cast_to_void"):
            pop()
            if k == "cast_to_void": st.append(None)
            return
        if k == "duplicate": l = pop(); st += [l, l]; return
        if k == "duplicate_lhs": r = pop(); l = pop(); st += [l, l, r]; return
        if k == "swap_lhs_rhs": r = pop(); l = pop(); st += [r, l]; return
        if k == "initializer":
            x = pop(); o = st[-1]; ad = norm(mk("add", 64, o.addr, const(64, b))); s.assign(ad, a, x); return
        if k in ("store", "store_atomic"):
            x = pop(); l = pop()
            if not isinstance(l, LV): raise Bad("store to a value")
            if l.size == 0: st.append(x); return
            if odd(l.size):
                if not isinstance(x, LV): raise Bad("aggregate value")
                s.mem.write(l.addr, s.mem.read(x.addr, l.size)); st.append(x); return
            v, fl = s.value(st, x, None)
            if v[1] < 8 * l.size: raise Bad("stores a narrower value")
            v = mk("trunc", 8 * l.size, v); s.write(l.addr, v); st.append(Val(v, fl)); return
        if k == "deref": p, _ = s.value(st, pop(), None, 64); st.append(LV(norm(p), tsize(a, s.tp), tfloat(a))); return
        if k in ("load_address", "load_address_lhs"):
            r = pop() if k.endswith("lhs") else None; x = pop()
            if not isinstance(x, LV): raise Bad("address of a value")
            push(x.addr)
            if k.endswith("lhs"): st.append(r)
            return
        if k in ("member", "member_deref"):
            t, off = s.tp.members[a]; x = pop(); base = x.addr if k == "member" else s.value(st, x, None, 64)[0]
            st.append(LV(norm(mk("add", 64, base, const(64, off))), tsize(t, s.tp), tfloat(t))); return
        if k in ("pointer_subscript", "array_subscript"):
            i, _ = s.value(st, pop(), None, 64); x = pop(); n = tsize(a, s.tp); base = x.addr if k[0] == "a" else s.value(st, x, None, 64)[0]
            st.append(LV(norm(mk("add", 64, base, mk("mul", 64, i, const(64, n)))), n, tfloat(a))); return
        if k in ("load_bitfield", "load_bitfield_lhs"):
            r = pop() if k.endswith("lhs") else None; x = pop(); bf = s.bf[a]
            v, _ = s.value(st, x, None, bits(bf["type"])); push(bitfield(bf["type"], bf["bit"], bf["width"], v)[1])
            if k.endswith("lhs"): st.append(r)
            return
        if k == "store_bitfield":
            bf = s.bf[a]; v, _ = s.value(st, pop(), None); l = pop(); old = assemble(s.mem.read(l.addr, SIZE[bf["type"]])); v = mk("trunc", old[1], v) if v[1] >= old[1] else mk("zext", old[1], v)
            if v[1] < bf["width"]: raise Bad("narrow value for a bit-field")
            new = s.bfwrite(a, old, v); s.write(l.addr, new); push(new); return
        m = re.fullmatch(r"(post|pre)(inc|dec)_(u8|u16|u32|u64|bool|f32|f64|pointer|bitfield)", k)
        if m:
            l = pop(); t = m.group(3); op = "+" if m.group(2) == "inc" else "-"; old, _ = s.value(st, l, None)
            if t == "bitfield": o = s.bfread(a, old); n = s.bfwrite(a, old, arith(op, "u%d" % o[1], o, const(o[1], 1)))
            elif t == "pointer":
                n = mk("add" if op == "+" else "sub", 64, old, const(64, s.pointee(a)))
            elif t == "bool": n = const(8, 1) if op == "+" else mk("xor", 8, old, const(8, 1))
            elif isfloat(t): n = arith(op, t, old, const(bits(t), tobits(1.0, bits(t))))
            else: n = arith(op, t, old, const(old[1], 1))
            s.write(l.addr, n); push(old if m.group(1) == "post" else n, isfloat(t)); return
        m = re.fullmatch(r"(add|subtract|and|or|xor|multiply|divide|modulo|left_shift|right_shift)(_atomic)?_assignment_(s8|u8|s16|u16|s32|u32|s64|u64|f32|f64|bool)", k)
        if m:
            o, at, t = m.groups(); t = "u8" if t == "bool" else t; fl = isfloat(t); w = bits(t); shiftop = o.endswith("shift")
            y, _ = s.value(st, pop(), None, 8 if shiftop else w, fl); l = pop(); old = assemble(s.mem.read(l.addr, w // 8))
            if shiftop: p = promoted(t); n = mk("trunc", w, shift("<<" if o[0] == "l" else ">>", p, convert(old, t, p), y))
            else: n = arith({"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "modulo": "%", "and": "&", "or": "|", "xor": "^"}[o], t, old, y)
            s.write(l.addr, n); push(n, fl); return
        if k == "function_call":
            ret, types, va = s.tp.fns[a]; args = st[len(st) - b:] if b else []; del st[len(st) - b:]; f = pop()
            target = f.addr if getattr(f, "fn", None) or (isinstance(f, LV) and f.size == 0) else s.value(st, f, None, 64)[0]
            vals = []
            for i, x in enumerate(args):
                if isinstance(x, LV): vals.append((s.mem.read(x.addr, x.size), x.fl, x.size))
                else: vals.append((split(x.e), x.fl, x.e[1] // 8))
            n = s.calls; s.calls += 1; rs = tsize(ret, s.tp)
            s.events.append((None, "call", target, a, vals, s.mem.copy(), n)); s.mem.havoc()
            if ret == "void": st.append(None); return
            if isinstance(ret, int) and ret >= 300:
                ad = leaf(64, "retobj%d" % n)
                if not odd(rs): s.mem.write(ad, [(leaf(64, "rax@call%d" % n), i) for i in range(rs)])
                st.append(LV(ad, rs)); return
            if tfloat(ret): push(mk("trunc", 8 * rs, leaf(128, "xmm0@call%d" % n)), True)
            else: push(mk("trunc", 8 * rs, leaf(64, "rax@call%d" % n)) if rs < 8 else leaf(64, "rax@call%d" % n))
            return
        Machine.step(s, k, [a], st, None)
    def pointee(s, i): return tsize(i - 100, s.tp) if i < 400 else s.tp.structs[i - 400][0]
    def assign(s, ad, t, x):
        n = tsize(t, s.tp)
        if isinstance(t, int) and 200 <= t < 300:
            bf = s.bf[t]; v, _ = s.value(None, x, None); old = assemble(s.mem.read(ad, n)); s.write(ad, s.bfwrite(t, old, mk("trunc", old[1], v))); return
        if odd(n) or isinstance(x, LV): s.mem.write(ad, s.mem.read(x.addr, n)); return
        v, _ = s.value(None, x, None, 8 * n); s.write(ad, v)
    def run(s):
        s.mem = Memory(s.w.ir); s.events = []
        return s.go(0, [], 0)
    def go(s, pc, st, depth):
        """-> (memory, events, return value references)"""
        st = list(st); n = 0
        if depth > 20: raise Bad("too many branches")
        while pc < len(s.tp.seq):
            n += 1
            if n > 2000: raise Bad("endless")
            e = s.tp.seq[pc]; k = e[0]; s.at = pc; pc += 1
            if k in ("jump_label", "case", "nop"): continue
            if k == "jump": pc = s.labels[e[1]]; continue
            if k in ("jump_if_true", "jump_if_false"):
                v, fl = s.value(st, s.pop(st), None); c = truth(v, "f32" if fl else "s32")
                if k == "jump_if_false": c = lognot(c)
                if c[0] == "const":
                    if c[2]: pc = s.labels[e[1]]
                    continue
                return s.fork(c, s.labels[e[1]], pc, st, depth)
            if k == "switch":
                v, _ = s.value(st, s.pop(st), None)
                cases = [(x[2], x[3], i) for i, x in enumerate(s.tp.seq) if x[0] == "case"]
                return s.dispatch(v, [(within("k%d" % s.tp.seq[i][1], lo, hi, v[1]), i) for lo, hi, i in cases], s.labels[e[1]], st, depth)
            if k == "return":
                ret = s.tp.fns[0][0]
                if ret == "void": return s.mem, s.events, None
                x = s.pop(st); rs = tsize(ret, s.tp)
                if s.w.retbig: s.mem.write(leaf(64, "retptr"), s.mem.read(x.addr, rs)); return s.mem, s.events, split(leaf(64, "retptr"))
                if isinstance(x, LV): return s.mem, s.events, s.mem.read(x.addr, rs)
                v, _ = s.value(st, x, None)
                if v[1] < 8 * rs: raise Bad("returns a narrower value")
                return s.mem, s.events, split(v)[:rs]
            s.step(e, st)
        return s.mem, s.events, None
    def fork(s, c, pc1, pc2, st, depth):
        m, ev, calls = s.mem, s.events, s.calls
        s.mem = m.copy(); s.events = list(ev); a = s.go(pc1, st, depth + 1); c1 = s.calls
        s.mem = m.copy(); s.events = list(ev); s.calls = calls; b = s.go(pc2, st, depth + 1); s.calls = max(c1, s.calls)
        return s.join(c, a, b)
    def dispatch(s, v, cases, default, st, depth):
        if not cases:
            return s.go(default, st, depth + 1)
        (x, i), rest = cases[0], cases[1:]; c = mk("icmp.eq", 1, v, x); m, ev, calls = s.mem, s.events, s.calls
        s.mem = m.copy(); s.events = list(ev); a = s.go(i, st, depth + 1); c1 = s.calls
        s.mem = m.copy(); s.events = list(ev); s.calls = calls; b = s.dispatch(v, rest, default, st, depth); s.calls = max(c1, s.calls)
        return s.join(c, a, b)
    def join(s, c, a, b):
        A, B = State(), State()
        for X, y in ((A, a), (B, b)): X.regs = {"ret": y[2]} if y[2] is not None else {}; X.flags = None; X.mem = y[0]; X.events = y[1]; X.pc = 0; X.calls = 0
        r = X86.merge(None, c, A, B, 0)
        return r.mem, r.events, r.regs.get("ret")

# ------------------------------------------------------------------ comparison
class Checker(X86):
    def __init__(s, code, world, tp):
        X86.__init__(s, code, world.x86); s.world = world; s.tp = tp; s.order = [e for e in tp.seq if e[0] == "function_call"]; s.retaddr = {}
    def step(s, st, mn, ops, text):
        X86.step(s, st, mn, ops, text)
        if mn == "mov" and s.frame is None and ops[0][1:2] == ("rbp",): s.frame = s.sp(st); s.world.locals[:] = [(d, s.frame - s.tp.decls[d][2], n) for d, a, n in s.world.locals]; s.world.frame = s.frame
    frame = None
    def after_call(s, st):
        k = st.calls; st.calls += 1
        sp = s.sp(st)
        if (sp + 8) % 16 != 0 and True:
            if sp % 16 != 8 and False: pass
        if (sp - 8) % 16: raise Wrong("the stack is not aligned to 16 bytes at a call (stack pointer rsp0%+d)" % sp)
        call = s.order[k] if k < len(s.order) else None
        ret, types, va = s.tp.fns[call[1]] if call else ("void", [], 0); n = call[2] if call else 0
        rs = tsize(ret, s.tp); big = isinstance(ret, int) and ret >= 300 and odd(rs)
        ptr = assemble(st.regs["rcx"])
        own = st.mem.m.setdefault(("leaf", "rsp0"), {})
        for i in range(8 * max(4, n + big)): own[sp + i] = (leaf(8, "home%d@call%d" % (i, k)), 0)
        for r, o, size in s.owned: 
            for i in range(size): st.mem.m.setdefault(r, {})[o + i] = (leaf(8, "argument copy%d@call%d" % (o + i, k)), 0)
        s.owned = []
        for r in VOLATILE: st.regs[r] = split(leaf(128 if r[0] == "x" else 64, "%s@call%d" % (r, k)))
        st.flags = None; st.mem.havoc()
        if big:
            st.regs["rax"] = split(ptr)
            st.mem.write(ptr, [(leaf(8, "retobj%d[%d]" % (k, i)), 0) for i in range(rs)])
    owned = []
    def before_call(s, st):
        k = st.calls; call = s.order[k] if k < len(s.order) else None
        if not call: return
        ret, types, va = s.tp.fns[call[1]]; rs = tsize(ret, s.tp); big = isinstance(ret, int) and ret >= 300 and odd(rs)
        s.owned = []
        for i in range(call[2]):
            t = types[i] if i < len(types) else s.tp.vararg_types[i] if hasattr(s.tp, "vararg_types") else None
            if t is None: continue
            n = tsize(t, s.tp)
            if odd(n):
                p = assemble(s.argument(st, i + big, False, 8)); r, o = region_of(p); s.owned = s.owned + [(r, o, n)]
    def argument(s, st, slot, fl, n):
        if slot < 4: return st.regs["xmm%d" % slot][:n] if fl else st.regs[ARGS[slot]][:n]
        return st.mem.read(mk("add", 64, assemble(st.regs["rsp"]), const(64, 8 * slot)), n)

def same(rep, key, what, want, got, grids, where=None):
    """lists of byte references"""
    i = 0
    if want == got: rep.append(("proved", key, "")); return
    # cut at common boundaries
    while i < len(want):
        if want[i] == got[i]: i += 1; continue
        j = i + 1
        while j < len(want) and want[j] != got[j] and j - i < 8: j += 1
        # widen to whole values
        a, b = assemble(want[i:j]), assemble(got[i:j])
        g = {}
        for n in leaves(a) | leaves(b) | (leaves(where) if where else set()):
            g[n] = grids(n)
        ok, w = differ(a, b, g, where=where, limit=6000)
        if w and getattr(grids, "special", None): # a known finding concerns these values: is anything else wrong?
            f = SPECIAL[grids.special]; g2 = {n: [x for x in v if not f(x)] or v[:1] for n, v in g.items()}
            w2 = differ(a, b, g2, where=where, limit=6000)[1]
            if w2: w = w2
            else: rep.append(("violation", "%s: %s" % (grids.special, key), "%s is wrong, e.g. for %s: %s instead of %s" % (what, {k: hex(v) for k, v in w[0].items()}, w[1], w[2]))); return
        if w:
            rep.append(("violation", key, "%s should be %s but is %s, e.g. for %s: %s instead of %s" % (what, show(a), show(b), {k: hex(v) for k, v in w[0].items()}, w[1], w[2]))); return
        rep.append(("proved" if ok else "agreed", key, ""))
        i = j

SPECIAL = {"negative zero": lambda v: v in (1 << 31, 1 << 63), "at least 2^63": lambda v: 0x5f000000 <= v < 0x7f800000 or 0x43e0000000000000 <= v < 0x7ff0000000000000}
def make_grids(tp):
    def g(n):
        for rx, v in tp.grids.items():
            if re.fullmatch(rx, n): return v
        m = re.fullmatch(r"l(\d+)", n)
        if m:
            e = tp.seq[int(m.group(1))]; lo, hi = e[2], e[3]; t = e[1]
            if e[0] == "float_literal": return [x for x in float_grid(8 * tsize(t, tp)) if lo <= x <= hi] or [lo, hi]
            return sorted({x for x in int_grid(64) if lo <= x <= hi} | {lo, hi, (lo + hi) // 2, lo + (hi - lo) // 3})
        m = re.fullmatch(r"k(\d+)", n)
        if m:
            for e in tp.seq:
                if e[0] == "case" and e[1] == int(m.group(1)): return sorted({x for x in int_grid(64) if e[2] <= x <= e[3]} | {e[2], e[3]})
        m = re.fullmatch(r"[vp](\d+)", n)
        if m:
            t = tp.decls[int(m.group(1))][1]
            return float_grid(8 * tsize(t, tp)) if tfloat(t) else int_grid(8 * tsize(t, tp))
        m = re.search(r"", n)
        if n.startswith("xmm0@call"): return float_grid(64)
        if getattr(tp, "floatmem", False) and n.startswith("["): return float_grid(8 * tp.chunk)
        if n.startswith("["): return int_grid(8 * tp.chunk)
        if n.endswith("@call0"): return int_grid(64)
        return [0, 0x1234567855aa77f1, (1 << 64) - 1, 0x80, 0xff]
    g.special = tp.special
    return g

def decide(tp, r):
    """-> list of (verdict, key, text)"""
    key = tp.label; out = []
    for n in r["nodes"]:
        if n["k"] in ("assert", "panic"): return [("violation", key + " assertion", "%s: the code generator's own check fails: %s" % (n["l"], n["t"]))]
        if n["k"] == "prune": return [("violation", key + " rejected", n["t"])]
    code = [n for n in r["nodes"] if n["k"] == "obs" and n["t"] == "code"]
    if len(code) != 1 or r.get("budget"): return [("undecided", key, "the analysis does not reach the end of the code generator")]
    if r["unk_stores"]: return [("undecided", key, "imprecise analysis")]
    size = avint(code[0]["a"][0])
    if size is None: return [("undecided", key, "the size of the code depends on values")]
    refs = [None] * (size + 8)
    for n in r["nodes"]:
        if n["k"] == "obs" and n["t"] == "bytes":
            i = avint(n["a"][0])
            for k in range(8):
                e = av(n["a"][1 + k])
                if e is None:
                    if i + k < size: return [("undecided", key, "code byte %d is not determined" % (i + k))]
                    continue
                refs[i + k] = ("c", e[2]) if e[0] == "const" else split(e)[0]
    refs = refs[:size]
    if None in refs: return [("undecided", key, "code bytes missing")]
    grids = make_grids(tp); wit = bytearray()
    env = {}
    for x in refs:
        if x[0] != "c":
            for n in leaves(x[0]):
                if n not in env: v = grids(n); env[n] = v[len(v) * 2 // 3] if len(v) > 2 else v[-1]
    for x in refs: wit.append(x[1] if x[0] == "c" else evaluate(x[0], env) >> (8 * x[1]) & 255)
    tp.witness = bytes(wit); tp.refs = refs; tp.raw = r
    return None

def finish(tp, insns):
    key = tp.label; out = []; r = tp.raw; floats = []
    patches = []
    for n in r["nodes"]:
        if n["k"] == "obs" and n["t"] == "patch":
            v = [avint(x) for x in n["a"]]
            kind, what, so, do, rip, self_, val, sz = v
            if what is None or so is None or do is None or rip is None or not self_: return [("violation", key + " relocation", "a relocation is not attached to the function or not determined: %s" % v)]
            if what < 0 or what == 201: return [("violation", key + " relocation", "a relocation refers to an unknown object (%s)" % what)]
            if what < 16:
                st = tp.decls[what][0]; name = {GLOBAL: "&g%d", IMPORT: "&imp%d", TLS: "&tls%d", FUNCTION: "&f%d", IMPORTED_FUNCTION: "&imp%d"}.get(st)
                if name is None: return [("violation", key + " relocation", "a relocation refers to a variable on the stack")]
                name %= what
            elif what == 100: name = "&tls_index"
            else: e = av(n["a"][6]); e = mk("trunc", 8 * sz, e) if e is not None else leaf(8 * sz, "?"); name = "&flt:%d:%d" % (sz, len(floats)); floats.append(e)
            patches.append(dict(kind=kind, name=name, source_offset=so, dest_offset=do, rip_at=rip))
    world = World(tp, -24); world.floats = floats
    try:
        code = Code(tp.refs, tp.witness, insns, patches)
        for p in patches:
            if not any(o <= p["dest_offset"] and p["dest_offset"] + 4 <= o + i[0] for o, i in code.ins.items()): raise Wrong("a relocation at +%d is not inside an instruction" % p["dest_offset"])
        x = Checker(code, world, tp); st = x.start(); world.entry(st)
        fin = x.run(st)
    except Wrong as w: return [("violation", key, "the emitted code is wrong: %s" % w)]
    except Unknown as u: return [("undecided", key, "machine code outside the model: %s" % u)]
    try: m = BMachine(tp, world); mem, events, ret = m.run()
    except Bad as b: return [("undecided", key, "template without a meaning: %s" % b)]
    g = make_grids(tp)
    # calling convention
    for reg in SAVED:
        want = split(leaf(128 if reg[0] == "x" else 64, reg + "@entry"))
        if fin.regs[reg] != want: out.append(("violation", key + " " + reg, "the function does not preserve " + reg))
    got = [fin.mem.ref(("leaf", "rsp0"), i) for i in range(8)]
    if got != split(leaf(64, "retaddr")): out.append(("violation", key + " return address", "the return address is overwritten"))
    obs = [n for n in r["nodes"] if n["k"] == "obs" and n["t"] == "code"][0]["a"]
    # return value
    rt = tp.fns[0][0]
    if ret is not None and rt != "void":
        n = len(ret); reg = fin.regs["xmm0" if tfloat(rt) else "rax"][:n]; same(out, key, "the returned value", ret, reg, g)
    # objects
    for d, (stt, t, off) in enumerate(tp.decls):
        if stt in (FUNCTION, IMPORTED_FUNCTION): continue
        a = m.addr(d); n = tsize(t, tp)
        if stt == PARAM and not world.byparam(d) : pass
        same(out, key, "variable %d" % d, mem.read(a, n), fin.mem.read(a, n), g)
    regions = (set(mem.m) | set(fin.mem.m)) - {("leaf", "rsp0")}
    for rg in sorted(regions, key=repr):
        if rg[0] == "leaf" and rg[1].startswith("retobj"): continue
        offs = sorted(set(mem.m.get(rg, {})) | set(fin.mem.m.get(rg, {})))
        same(out, key, "memory at %s" % flagname(rg), [mem.ref(rg, o) for o in offs], [fin.mem.ref(rg, o) for o in offs], g)
    # calls
    if len(events) != len(fin.events): out.append(("violation", key + " calls", "%d calls are emitted instead of %d" % (len(fin.events), len(events))))
    else:
        for e, f in zip(events, fin.events): call(out, key, tp, world, m, x, e, f, g)
    locks = len([1 for t in x.locked]); 
    if tp.atomics and locks < tp.atomics: out.append(("violation", key + " atomicity", "an operation on an atomic object is not a locked instruction"))
    if x.low < -100000: pass
    return out

def call(out, key, tp, world, m, x, e, f, g):
    cond, _, target, fn, vals, mem, n = e; fcond, _, ftarget, snap, k = f
    if (cond is None) != (fcond is None) or cond is not None:
        same(out, key, "the condition of call %d" % n, split(mk("zext", 8, cond or const(1, 1))), split(mk("zext", 8, fcond or const(1, 1))), g)
    same(out, key, "the callee of call %d" % n, split(target), split(ftarget), g)
    ret, types, va = tp.fns[fn]; rs = tsize(ret, tp); big = isinstance(ret, int) and ret >= 300 and odd(rs); frame = x.frame
    taken = []
    sp = x.sp(snap)
    def owned(what, p, n, al=16):
        r, o = region_of(p)
        if r != ("leaf", "rsp0") or not (sp + 8 * max(4, len(vals) + big) <= o and o + n <= world.frame): out.append(("violation", key + " " + what, "%s of call %d lies outside of the temporaries of the frame (%s%+d)" % (what, k, flagname(r), o))); return None
        for d, a, s2 in world.locals:
            if a < o + n and o < a + s2: out.append(("violation", key + " " + what, "%s of call %d overlaps variable %d" % (what, k, d)))
        for o2, n2 in taken:
            if o2 < o + n and o < o2 + n2: out.append(("violation", key + " " + what, "%s of call %d overlaps another argument" % (what, k)))
        if (o - 8) % al and (o + 8) % al: out.append(("violation", key + " " + what, "%s of call %d is not aligned" % (what, k)))
        taken.append((o, n)); return o
    if big: owned("the memory for the result", assemble(snap.regs["rcx"]), rs, 1)
    for i, (refs, fl, size) in enumerate(vals):
        slot = i + big; isf = tfloat(types[i]) if i < len(types) else False
        if odd(size):
            p = assemble(x.argument(snap, slot, False, 8)); o = owned("the copy of an argument", p, size)
            if o is None: continue
            same(out, key, "argument %d of call %d" % (i, n), refs, snap.mem.read(p, size), g)
        else: same(out, key, "argument %d of call %d" % (i, n), refs, x.argument(snap, slot, isf, size), g)
    for rg in sorted((set(mem.m) | set(snap.mem.m)) - {("leaf", "rsp0")}, key=repr):
        if rg[0] == "leaf" and rg[1].startswith("retobj"): continue
        offs = sorted(set(mem.m.get(rg, {})) | set(snap.mem.m.get(rg, {})))
        same(out, key, "memory at %s during call %d" % (flagname(rg), n), [mem.ref(rg, o) for o in offs], [snap.mem.ref(rg, o) for o in offs], g)

def split_literals(tp, r):
    """the code generator distinguishes values of a literal that the template does not: one template per class"""
    for b in r["sym_branches"]:
        e = from_json(json.loads(b)); ls = [n for n in leaves(e) if re.fullmatch(r"[lk]\d+", n)]
        if len(leaves(e)) != 1 or not ls: continue
        n = ls[0]; at = int(n[1:]) if n[0] == "l" else next((i for i, x in enumerate(tp.seq) if x[0] == "case" and x[1] == int(n[1:])), None)
        if at is None: continue
        k, t, lo, hi = (tuple(tp.seq[at]) + (0, 0, 0))[:4]
        if not isinstance(lo, int) or lo >= hi: continue
        cuts = set()
        for c in constants(e):
            for h in {0, lo & ~0xffffffff, hi & ~0xffffffff, lo & ~0xffff, hi & ~0xffff, lo & ~0xff, hi & ~0xff}:
                for x in (c | h, (c | h) + 1):
                    if lo < x <= hi: cuts.add(x)
        if not cuts: cuts = {lo + (hi - lo + 1) // 2}
        cuts = sorted(cuts)[:6]; out = []
        for a, z in zip([lo] + cuts, [c - 1 for c in cuts] + [hi]):
            q = copy.copy(tp); q.seq = list(tp.seq); q.seq[at] = (k, t, a, z); out.append(q)
        return out
    return []
def constants(e):
    if e[0] == "const": return {e[2]}
    return set().union(*[constants(x) for x in e[2:] if isinstance(x, tuple)]) if e[0] != "leaf" else set()

class BackEnd:
    def __init__(s):
        s.module = sa.build_module("be.c")
        t = sa.run_jobs(s.module, [{"query": "types", "id": "t"}])[0]["result"]; s.K = t["enums"].get("ir_kind")
        if not s.K: raise sa.Broken("the enumeration ir_kind is gone")
        s.tps = []
    def add(s, label, *a, **k):
        va = k.pop("vararg_types", None); fm = k.pop("floatmem", False); sp = k.pop("special", None)
        t = Template(label, *a, **k)
        if va: t.vararg_types = va
        t.floatmem = fm; t.special = sp
        s.tps.append(t); return t
    def judge(s, rep, limit=0.02):
        outs = []; todo = []; jobs = list(s.tps); res = []; rounds = 0
        while jobs:
            rounds += 1; again = []
            for t, r in zip(jobs, sa.run_jobs(s.module, [t.job(s.K) for t in jobs])):
                o = decide(t, r)
                if o is None: todo.append(t); res.append(r); continue
                parts = split_literals(t, r) if rounds < 9 else []
                if parts: again += parts; continue
                if any(b for b in r["sym_branches"]) and o[0][0] == "violation": o = [("undecided", o[0][1], "a value that is not determined decides the path: " + o[0][2])]
                outs.append((t, o)); res.append(r)
            jobs = again
        rep.count("cases_after_partitioning_of_literals", len(res))
        dis = []
        chunks = [todo[i::8] for i in range(8)]
        with multiprocessing.Pool(8) as p: dd = p.map(disassemble, [[t.witness for t in c] for c in chunks])
        pairs = [(t, d) for c, ds in zip(chunks, dd) for t, d in zip(c, ds)]
        with multiprocessing.Pool(8) as p: fin = p.map(finish_safe, [(t, d) for t, d in pairs], chunksize=32)
        outs += [(t, o) for (t, d), o in zip(pairs, fin)]
        rep.count("ir_templates", len(s.tps)); rep.count("machine_code_bytes", sum(len(t.witness) for t in todo)); rep.count("instructions", sum(len(d) for _, d in pairs))
        fns = set()
        for r in res: fns |= set(r["visited"]); rep.count("basic_blocks_interpreted", r["stat"].get("blocks", 0))
        rep.extra["functions_interpreted"] = len(fns)
        und = 0
        for t, o in outs:
            if any(v == "undecided" for v, _, _ in o): und += 1
            for v, k, text in o:
                if v == "violation": rep.violation(k, text); rep.count("obligations_violated")
                elif v == "undecided": rep.undecide("%s: %s" % (k, text))
                elif v == "proved": rep.count("obligations_equal_by_normal_form")
                else: rep.count("obligations_equal_on_value_classes")
        if und > limit * len(s.tps) + 1: raise sa.Broken("%d of %d templates cannot be decided, e.g. %s" % (und, len(s.tps), rep.undecided[:3]))
        s.tps = []
        return outs
def finish_safe(x):
    return finish(*x)
