"""The meaning of x86-64 machine code (the subset a compiler emits), over the expressions of sx.

Registers and memory are arrays of byte references (expression, index); memory is divided into regions, one per
base address, so that a value stored is the very same expression when it is read back.  Machine code here is
data: it was recovered, byte by byte (possibly with symbolic bytes), from the abstract state of the emitter.
The code of a function is a small acyclic graph; the states of both successors of a branch are joined by selection."""
import json, os, re, subprocess
from sx import *
import sa
DIS = os.path.join(sa.VERIF, "build", "hlcdis")

class Wrong(Exception): pass      # the code does something that is wrong in itself
class Unknown(Exception): pass    # an instruction or situation outside the model

def disassemble(codes):
    """codes: list of bytes -> list of [(offset, size, text)]"""
    if not codes: return []
    p = subprocess.run([DIS], input="\n".join(c.hex() for c in codes) + "\n", capture_output=True, text=True)
    out = [json.loads(l) for l in p.stdout.splitlines()]
    if len(out) != len(codes): raise sa.Broken("the disassembler gave %d answers for %d functions" % (len(out), len(codes)))
    return out

# ------------------------------------------------------------------ byte references
def split(e):
    """expression -> its bytes, least significant first"""
    w = e[1]
    if w < 8: return split(mk("zext", 8, e))
    n = w // 8
    if e[0] == "const": return [("c", e[2] >> (8 * i) & 255) for i in range(n)]
    if e[0] == "zext" and e[2][1] % 8 == 0: r = split(e[2]); return r + [("c", 0)] * (n - len(r))
    if e[0] == "trunc": return split(e[2])[:n] if e[2][1] % 8 == 0 else [(e, i) for i in range(n)]
    if e[0] == "lshr" and e[3][0] == "const" and e[3][2] % 8 == 0 and e[3][2] < w:
        k = e[3][2] // 8; return split(e[2])[k:] + [("c", 0)] * k
    return [(e, i) for i in range(n)]
def assemble(refs):
    n = len(refs); w = 8 * n; out = None; i = 0
    while i < n:
        e, k = refs[i]; j = i + 1
        if e == "c":
            v = k
            while j < n and refs[j][0] == "c": v |= refs[j][1] << (8 * (j - i)); j += 1
            p = const(8 * (j - i), v)
        else:
            while j < n and refs[j][0] != "c" and refs[j][1] == k + (j - i) and refs[j][0] == e: j += 1
            m = 8 * (j - i)
            if k == 0: p = mk("trunc", m, e) if m < e[1] else e
            else: p = mk("trunc", m, mk("lshr", e[1], e, const(e[1], 8 * k)))
        if i == 0 and j == n: return p
        q = mk("zext", w, p)
        if i: q = mk("shl", w, q, const(w, 8 * i))
        out = q if out is None else mk("or", w, out, q)
        i = j
    return out

# ------------------------------------------------------------------ memory
def linear(e):
    """64 bit expression -> ({term: coefficient}, constant)"""
    t = {}; c = 0
    def go(e, k):
        nonlocal c
        if e[0] == "const": c += k * sx(e[2], 64)
        elif e[0] == "add": go(e[2], k); go(e[3], k)
        elif e[0] == "sub": go(e[2], k); go(e[3], -k)
        elif e[0] == "shl" and e[3][0] == "const": go(e[2], k << e[3][2])
        elif e[0] == "mul" and e[3][0] == "const": go(e[2], k * sx(e[3][2], 64))
        else: t[e] = t.get(e, 0) + k
    go(e, 1)
    M = (1 << 64) - 1
    return {x: k & M for x, k in t.items() if k & M}, sx(c, 64)
RSP0 = leaf(64, "rsp0")
def region_of(addr):
    t, c = linear(addr)
    if not t: return ("abs",), c
    if len(t) == 1:
        (x, k), = t.items()
        if k == 1 and x[0] == "leaf": return ("leaf", x[2]), c
    return ("sum",) + tuple(sorted(t.items(), key=repr)), c

class Memory:
    def __init__(s, init): s.m = {}; s.init = init; s.epoch = 0; s.touched = set()
    def copy(s):
        m = Memory(s.init); m.m = {r: dict(d) for r, d in s.m.items()}; m.epoch = s.epoch; m.touched = set(s.touched); return m
    def ref(s, r, o):
        d = s.m.get(r)
        if d is not None and o in d: return d[o]
        return s.init(r, o, s.epoch)
    def read(s, addr, n):
        r, o = region_of(addr); return [s.ref(r, o + i) for i in range(n)]
    def write(s, addr, refs):
        r, o = region_of(addr); d = s.m.setdefault(r, {})
        for i, x in enumerate(refs): d[o + i] = x
        s.touched.add((r, o, len(refs)))
    def havoc(s):
        s.epoch += 1
        for r in list(s.m):
            if r != ("leaf", "rsp0") and not (r[0] == "leaf" and r[1].startswith("retobj")): del s.m[r]
def merge_refs(c, a, b):
    """two lists of byte references, joined by selection"""
    out = []; i = 0
    while i < len(a):
        if a[i] == b[i]: out.append(a[i]); i += 1; continue
        j = i + 1
        def run(x): return x[j][0] == x[j - 1][0] and (x[j][0] == "c" or x[j][1] == x[j - 1][1] + 1)
        while j < len(a) and a[j] != b[j] and run(a) and run(b): j += 1
        out += split(mk("select", 8 * (j - i), c, assemble(a[i:j]), assemble(b[i:j])))
        if len(out) < j: out += [("c", 0)] * (j - len(out))
        i = j
    return out

GPR = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
SUB = {}
for i, r in enumerate(GPR):
    SUB[r] = (r, 0, 8)
    if i < 8:
        SUB["e" + r[1:]] = (r, 0, 4); SUB[r[1:]] = (r, 0, 2)
        if r[1:] in ("ax", "bx", "cx", "dx"): SUB[r[1] + "l"] = (r, 0, 1); SUB[r[1] + "h"] = (r, 1, 1)
        else: SUB[r[1:] + "l"] = (r, 0, 1)
    else: SUB[r + "d"] = (r, 0, 4); SUB[r + "w"] = (r, 0, 2); SUB[r + "b"] = (r, 0, 1)
for i in range(16): SUB["xmm%d" % i] = ("xmm%d" % i, 0, 16)
SIZES = {"byte": 1, "word": 2, "dword": 4, "qword": 8, "xmmword": 16}
VOLATILE = ["rax", "rcx", "rdx", "r8", "r9", "r10", "r11"] + ["xmm%d" % i for i in range(6)]
SAVED = [r for r in GPR if r not in VOLATILE and r != "rsp"] + ["xmm%d" % i for i in range(6, 16)]

class State:
    __slots__ = ("regs", "flags", "mem", "events", "pc", "calls")
    def copy(s):
        t = State(); t.regs = {k: list(v) for k, v in s.regs.items()}; t.flags = s.flags; t.mem = s.mem.copy(); t.events = list(s.events); t.pc = s.pc; t.calls = s.calls; return t

class Code:
    """decoded function: offset -> (size, mnemonic, operands, text)"""
    def __init__(s, refs, witness, insns, patches, labels=None):
        s.refs = refs; s.ins = {}; s.patches = patches; s.relative = True; s.used = set(); prefix = None
        for off, size, text in insns:
            if prefix is not None: off, size, prefix, locked = prefix, size + off - prefix, None, True
            else: locked = False
            if text.strip() == "lock": prefix = off; continue
            if text == "bad": raise Wrong("the bytes at offset %d are not an instruction (%s)" % (off, witness[off:off + 12].hex()))
            t = " ".join(text.split()); lock = locked
            if t.startswith("rep "): mn, rest = t, ""
            else: mn, _, rest = t.partition(" ")
            if rest.startswith("#"): rest = ""
            rest = rest.split("#")[0].strip()
            ops = [s.operand(o.strip(), off, size, witness, mn) for o in rest.split(",")] if rest else []
            for k in range(off, off + size):
                if refs[k][0] != "c" and k not in s.used: raise Unknown("a byte of the instruction depends on a value: " + t)
            s.ins[off] = (size, mn, ops, t, lock)
        if prefix is not None: raise Wrong("a lock prefix at the end")
    def operand(s, o, off, size, wit, mn):
        if o in SUB: return ("r",) + SUB[o]
        m = re.fullmatch(r"(?:(byte|word|dword|qword|xmmword) ptr )?(?:(\w\w):)?\[(.*)\]", o)
        if m:
            base = idx = None; sc = 1; disp = 0
            for sign, t in re.findall(r"([+-]?)\s*([^+\-\s]+)", m.group(3)):
                if "*" in t: k, r = t.split("*"); idx = r; sc = int(k)
                elif t in SUB or t == "rip": 
                    if base is None: base = t
                    else: idx = t
                else: disp += int(t, 0) * (-1 if sign == "-" else 1)
            p = None
            if base == "rip":
                p = [x for x in s.patches if off <= x["dest_offset"] < off + size]
                if len(p) != 1: raise Wrong("rip relative operand at offset %d has %d relocations: %s" % (off, len(p), o))
                p = p[0]
                if wit[p["dest_offset"]:p["dest_offset"] + 4] != b"\0\0\0\0" : raise Wrong("relocated field is not empty")
            return ("m", SIZES.get(m.group(1)), m.group(2), base, idx, sc, disp, p, off + size)
        if re.fullmatch(r"-?(0x)?[0-9a-fA-F]+", o):
            v = int(o, 0)
            if mn in ("call", "jmp") or mn[0] == "j": 
                p = [x for x in s.patches if off <= x["dest_offset"] < off + size]
                if p: return ("p", p[0], off + size)
                return ("j", v)
            # a symbolic immediate? it is made of the last bytes of the instruction
            p = [x for x in s.patches if off <= x["dest_offset"] < off + size]
            if p and p[0]["kind"] == 3: return ("s", p[0])
            for n in (1, 2, 4, 8):
                b = wit[off + size - n:off + size]; u = int.from_bytes(b, "little")
                if n >= size: break
                if any(s.refs[off + size - k - 1][0] != "c" for k in range(n)) and (u - v) % (1 << 8 * n) == 0 and (n == 8 or all(s.refs[off + size - k - 1][0] == "c" for k in range(n, min(size, n + 1)))):
                    s.used |= set(range(off + size - n, off + size)); return ("y", s.refs[off + size - n:off + size], n)
            return ("i", v)
        raise Unknown("operand " + o)

class X86:
    def __init__(s, code, init, secoff=None):
        s.code = code; s.init = init; s.fresh = 0; s.count = 0; s.low = 0; s.locked = []
    def start(s):
        st = State(); st.regs = {}; st.flags = None; st.mem = Memory(s.init); st.events = []; st.pc = 0; st.calls = 0
        for r in GPR: st.regs[r] = split(leaf(64, r + "@entry"))
        for i in range(16): st.regs["xmm%d" % i] = split(leaf(128, "xmm%d@entry" % i))
        st.regs["rsp"] = split(RSP0)
        return st
    def unknown(s, w, why="unknown"):
        s.fresh += 1; return leaf(w, "%s#%d" % (why, s.fresh))
    # ---- operands
    def reg(s, st, name): r, k, n = SUB[name]; return assemble(st.regs[r][k:k + n])
    def setreg(s, st, name, e):
        r, k, n = SUB[name]; b = split(e)[:n]
        if n == 4: st.regs[r] = b + [("c", 0)] * 4
        else: st.regs[r][k:k + n] = b
    def address(s, st, o):
        _, size, seg, base, idx, sc, disp, patch, end = o
        if seg == "gs":
            if base or idx: raise Unknown("gs operand")
            return mk("add", 64, leaf(64, "gs"), const(64, disp))
        if seg and seg not in ("es", "ds", "ss"): raise Unknown("segment " + seg)
        if base == "rip":
            a = mk("add", 64, leaf(64, patch["name"]), const(64, patch["source_offset"] + end - patch["rip_at"]))
            if patch["kind"] != 2: raise Wrong("a rip relative operand has a relocation of another kind")
            return a
        a = const(64, disp)
        if base: a = mk("add", 64, s.reg(st, base), a)
        if idx: a = mk("add", 64, a, mk("mul", 64, s.reg(st, idx), const(64, sc)))
        if base and SUB[base][2] != 8: raise Wrong("address register of %d bytes" % SUB[base][2])
        return norm(a)
    def load(s, st, addr, n):
        r, o = region_of(addr)
        if r == ("leaf", "rsp0") and o < s.sp(st): raise Wrong("reads the stack below the stack pointer")
        return st.mem.read(addr, n)
    def sp(s, st):
        r, o = region_of(assemble(st.regs["rsp"]))
        if r != ("leaf", "rsp0"): raise Unknown("the stack pointer is " + str(r))
        return o
    def store(s, st, addr, refs):
        r, o = region_of(addr)
        if r == ("leaf", "rsp0"):
            sp = s.sp(st); s.low = min(s.low, o)
            if o < sp: raise Wrong("writes the stack below the stack pointer (rsp0%+d, stack pointer rsp0%+d)" % (o, sp))
            if o + len(refs) > 0 and o < 8: raise Wrong("overwrites the return address")
        st.mem.write(addr, refs)
    def get(s, st, o, n):
        """value of an operand as n bytes"""
        if o[0] == "r":
            if o[3] < n: raise Unknown("narrow register")
            return assemble(st.regs[o[1]][o[2]:o[2] + n])
        if o[0] == "m": return assemble(s.load(st, s.address(st, o), n))
        if o[0] == "i": return const(8 * n, o[1])
        if o[0] == "y":
            e = assemble(o[1])
            return e if o[2] == n else (mk("sext", 8 * n, e) if o[2] < n else mk("trunc", 8 * n, e))
        if o[0] == "s": return mk("trunc", 8 * n, leaf(32, "secoff:" + o[1]["name"])) if n < 4 else mk("zext", 8 * n, leaf(32, "secoff:" + o[1]["name"]))
        raise Unknown("operand")
    def put(s, st, o, e, n):
        b = split(e)[:n]
        if len(b) < n: b += [("c", 0)] * (n - len(b))
        if o[0] == "r":
            if o[1].startswith("xmm"): st.regs[o[1]][:n] = b; return
            if n == 4: st.regs[o[1]] = b + [("c", 0)] * 4
            else: st.regs[o[1]][o[2]:o[2] + n] = b
        elif o[0] == "m": s.store(st, s.address(st, o), b)
        else: raise Unknown("destination")
    def size(s, *ops):
        for o in ops:
            if o[0] == "r": return o[3]
            if o[0] == "m" and o[1]: return o[1]
        raise Unknown("operand size")
    # ---- flags
    def cond(s, st, cc):
        f = st.flags
        cc = {"z": "e", "nz": "ne", "c": "b", "nc": "ae", "nae": "b", "nb": "ae", "na": "be", "nbe": "a", "nge": "l", "nl": "ge", "ng": "le", "nle": "g"}.get(cc, cc)
        if f is None: raise Wrong("a condition is used where the flags are not set by a comparison")
        k, w = f[0], f[1]
        if k == "sub":
            a, b = f[2], f[3]
            if cc in ("s", "ns"): r = mk("icmp.slt", 1, mk("sub", w, a, b), const(w, 0)); return r if cc == "s" else lognot(r)
            p = {"e": "eq", "ne": "ne", "l": "slt", "ge": "sge", "le": "sle", "g": "sgt", "b": "ult", "ae": "uge", "be": "ule", "a": "ugt"}.get(cc)
            if p: return mk("icmp." + p, 1, a, b)
        if k in ("logic", "arith"):
            r = f[2]; z = const(w, 0)
            if cc in ("e", "ne"): return mk("icmp." + ("eq" if cc == "e" else "ne"), 1, r, z)
            if cc in ("s", "ns"): return mk("icmp." + ("slt" if cc == "s" else "sge"), 1, r, z)
            if k == "logic":
                p = {"l": "slt", "ge": "sge", "le": "sle", "g": "sgt", "b": "ult", "ae": "uge", "be": "ule", "a": "ugt"}.get(cc)
                if p: return mk("icmp." + p, 1, r, z)
        if k == "fcmp":
            p = {"a": "ogt", "ae": "oge", "b": "ult", "be": "ule", "e": "ueq", "ne": "one", "p": "uno", "np": "ord"}.get(cc)
            if p: return mk("fcmp." + p, 1, f[2], f[3])
        raise Unknown("condition %s after %s" % (cc, k))
    # ---- control
    def run(s, st, depth=0):
        if depth > 40: raise Unknown("too many branches")
        while True:
            s.count += 1
            if s.count > 20000: raise Wrong("the code does not reach its end")
            if st.pc == "ret": return st
            if st.pc not in s.code.ins: raise Wrong("control reaches offset %s, which is not an instruction of the function" % st.pc)
            size, mn, ops, text, lock = s.code.ins[st.pc]; at = st.pc; st.pc = at + size
            if lock: s.locked.append(text)
            try:
                if mn == "jmp":
                    if ops[0][0] != "j": raise Unknown("indirect jump")
                    st.pc = at + size + ops[0][1] if s.code.relative else ops[0][1]; continue
                if mn[0] == "j":
                    c = s.cond(st, mn[1:]); t = (at + size + ops[0][1]) if s.code.relative else ops[0][1]
                    if c[0] == "const":
                        if c[2]: st.pc = t
                        continue
                    a = st.copy(); a.pc = t
                    a = s.run(a, depth + 1); b = s.run(st, depth + 1)
                    return s.merge(c, a, b, len(st.events))
                s.step(st, mn, ops, text)
            except (Wrong, Unknown) as x:
                if not getattr(x, "placed", False): x.placed = True; x.args = ("%s [at +%d: %s]" % (x.args[0], at, text),)
                raise
            except (KeyError, IndexError, TypeError, AttributeError, ValueError) as x:
                u = Unknown("%r in %s" % (x, text)); u.placed = True; raise u
    def merge(s, c, a, b, _):
        for r in a.regs: a.regs[r] = merge_refs(c, a.regs[r], b.regs[r])
        a.flags = None
        for r in set(a.mem.m) | set(b.mem.m):
            offs = sorted(set(a.mem.m.get(r, {})) | set(b.mem.m.get(r, {}))); d = a.mem.m.setdefault(r, {})
            i = 0
            while i < len(offs):
                j = i + 1
                while j < len(offs) and offs[j] == offs[j - 1] + 1: j += 1
                x = [a.mem.ref(r, o) for o in offs[i:j]]; y = [b.mem.ref(r, o) for o in offs[i:j]]
                for o, v in zip(offs[i:j], merge_refs(c, x, y)): d[o] = v
                i = j
        a.mem.touched |= b.mem.touched
        ev = []; i = 0
        while i < len(a.events) and i < len(b.events) and a.events[i] is b.events[i]: ev.append(a.events[i]); i += 1
        for e in a.events[i:]: ev.append((c if e[0] is None else mk("and", 1, c, e[0]),) + e[1:])
        for e in b.events[i:]: ev.append((lognot(c) if e[0] is None else mk("and", 1, lognot(c), e[0]),) + e[1:])
        a.events = ev; a.calls = max(a.calls, b.calls); a.mem.epoch = max(a.mem.epoch, b.mem.epoch)
        return a
    ALU = {"add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor"}
    def step(s, st, mn, ops, text):
        if mn == "push":
            v = s.get(st, ops[0], 8); sp = mk("add", 64, assemble(st.regs["rsp"]), const(64, -8)); st.regs["rsp"] = split(sp); s.store(st, sp, split(v)); return
        if mn == "pop":
            sp = assemble(st.regs["rsp"]); v = s.load(st, sp, 8); st.regs["rsp"] = split(norm(mk("add", 64, sp, const(64, 8)))); s.put(st, ops[0], assemble(v), 8); return
        if mn == "ret":
            if s.sp(st) != 0: raise Wrong("returns with the stack pointer at rsp0%+d" % s.sp(st))
            st.pc = "ret"; return
        if mn == "call":
            o = ops[0]
            if o[0] == "p":
                if o[1]["source_offset"] + o[2] - o[1]["rip_at"] != 0 or o[1]["kind"] != 2: raise Wrong("the relocation of the call is off")
                target = leaf(64, o[1]["name"])
            else: target = s.get(st, o, 8)
            s.before_call(st); snap = st.copy(); snap.events = []; st.events.append((None, "call", target, snap, st.calls))
            s.after_call(st); return
        if mn in ("mov", "movabs"):
            n = s.size(*ops); s.put(st, ops[0], s.get(st, ops[1], n), n); return
        if mn == "lea": s.put(st, ops[0], mk("trunc", 8 * ops[0][3], s.address(st, ops[1])), ops[0][3]); return
        if mn in ("movzx", "movsx", "movsxd"):
            n = ops[0][3]; m = s.size(ops[1]); s.put(st, ops[0], mk("zext" if mn == "movzx" else "sext", 8 * n, s.get(st, ops[1], m)), n); return
        if mn in s.ALU:
            n = s.size(*ops); w = 8 * n; a = s.get(st, ops[0], n); b = s.get(st, ops[1], n); r = mk(mn, w, a, b)
            if mn == "sub": st.flags = ("sub", w, a, b)
            else: st.flags = ("logic" if mn != "add" else "arith", w, r)
            s.put(st, ops[0], norm(r) if n == 8 else r, n); return
        if mn == "cmp": n = s.size(*ops); st.flags = ("sub", 8 * n, s.get(st, ops[0], n), s.get(st, ops[1], n)); return
        if mn == "test": n = s.size(*ops); st.flags = ("logic", 8 * n, mk("and", 8 * n, s.get(st, ops[0], n), s.get(st, ops[1], n))); return
        if mn in ("inc", "dec"):
            n = s.size(*ops); r = mk("add" if mn == "inc" else "sub", 8 * n, s.get(st, ops[0], n), const(8 * n, 1)); st.flags = ("arith", 8 * n, r); s.put(st, ops[0], r, n); return
        if mn == "neg":
            n = s.size(*ops); x = s.get(st, ops[0], n); st.flags = ("sub", 8 * n, const(8 * n, 0), x); s.put(st, ops[0], mk("sub", 8 * n, const(8 * n, 0), x), n); return
        if mn == "not": n = s.size(*ops); s.put(st, ops[0], mk("xor", 8 * n, s.get(st, ops[0], n), const(8 * n, -1)), n); return
        if mn in ("shl", "sal", "shr", "sar", "rol", "ror"):
            n = s.size(ops[0]); w = 8 * n; x = s.get(st, ops[0], n); st.flags = None
            if len(ops) == 1: c = const(8, 1)
            else: c = s.get(st, ops[1], 1)
            k = mk("and", 8, c, const(8, 63 if n == 8 else 31))
            if mn in ("rol", "ror"): r = rotate(mn, w, x, k)
            elif w >= 32:
                o = {"shl": "shl", "sal": "shl", "shr": "lshr", "sar": "ashr"}[mn]; r = mk(o, w, x, mk("zext", w, k))
            else: # narrow shifts: the count may exceed the width
                e = mk("sext" if mn == "sar" else "zext", 32, x); o = {"shl": "shl", "sal": "shl", "shr": "lshr", "sar": "ashr"}[mn]
                r = mk("trunc", w, mk(o, 32, e, mk("zext", 32, k)))
            s.put(st, ops[0], r, n); return
        if mn == "imul" and len(ops) >= 2:
            n = ops[0][3]; a = s.get(st, ops[1] if len(ops) == 3 else ops[0], n); b = s.get(st, ops[2] if len(ops) == 3 else ops[1], n); st.flags = None
            s.put(st, ops[0], norm(mk("mul", 8 * n, a, b)) if n == 8 else mk("mul", 8 * n, a, b), n); return
        if mn in ("imul", "mul"):
            n = s.size(ops[0]); w = 8 * n; a = assemble(st.regs["rax"][:n]); b = s.get(st, ops[0], n); st.flags = None
            x = "sext" if mn == "imul" else "zext"; wide = mk("mul", 2 * w, mk(x, 2 * w, a), mk(x, 2 * w, b))
            if n == 1: st.regs["rax"][:2] = split(wide); return
            s.put(st, ("r", "rax", 0, n), mk("mul", w, a, b), n); s.put(st, ("r", "rdx", 0, n), mk("trunc", w, mk("lshr", 2 * w, wide, const(2 * w, w))), n); return
        if mn in ("div", "idiv"):
            n = s.size(ops[0]); w = 8 * n; d = s.get(st, ops[0], n); st.flags = None; sg = mn == "idiv"
            if n == 1: whole = assemble(st.regs["rax"][:2])
            else: whole = assemble(st.regs["rax"][:n] + st.regs["rdx"][:n])
            x, sd = ("sdiv", "srem") if sg else ("udiv", "urem")
            low = assemble(st.regs["rax"][:n]); hi = assemble(st.regs["rdx"][:n]) if n > 1 else None
            small = None
            if n > 1 and not sg and hi == const(w, 0): small = low
            if n > 1 and sg and hi == mk("ashr", w, low, const(w, w - 1)): small = low
            if n == 1 and whole[0] == ("sext" if sg else "zext") and whole[2][1] == 8: small = whole[2]
            if small is not None: q, r = mk(x, w, small, d), mk(sd, w, small, d)
            else:
                e = "sext" if sg else "zext"; dd = mk(e, 2 * w, d); Q = mk(x, 2 * w, whole, dd); R = mk(sd, 2 * w, whole, dd); q, r = checked(Q, w, sg), mk("trunc", w, R)
            if n == 1: st.regs["rax"][:1] = split(q); st.regs["rax"][1:2] = split(r); return
            s.put(st, ("r", "rax", 0, n), q, n); s.put(st, ("r", "rdx", 0, n), r, n); return
        if mn in ("cwd", "cdq", "cqo"):
            n = {"cwd": 2, "cdq": 4, "cqo": 8}[mn]; a = assemble(st.regs["rax"][:n]); s.put(st, ("r", "rdx", 0, n), mk("ashr", 8 * n, a, const(8 * n, 8 * n - 1)), n); return
        if mn in ("cbw", "cwde", "cdqe"):
            n = {"cbw": 2, "cwde": 4, "cdqe": 8}[mn]; s.put(st, ("r", "rax", 0, n), mk("sext", 8 * n, assemble(st.regs["rax"][:n // 2])), n); return
        if mn.startswith("set"): s.put(st, ops[0], mk("zext", 8, s.cond(st, mn[3:])), 1); return
        if mn.startswith("cmov"):
            n = ops[0][3]; c = s.cond(st, mn[4:]); s.put(st, ops[0], mk("select", 8 * n, c, s.get(st, ops[1], n), s.get(st, ops[0], n)), n); return
        if mn == "xchg":
            n = s.size(*ops); a, b = s.get(st, ops[0], n), s.get(st, ops[1], n); s.put(st, ops[0], b, n); s.put(st, ops[1], a, n)
            if any(o[0] == "m" for o in ops): s.locked.append(text)
            return
        if mn == "xadd":
            n = s.size(*ops); a, b = s.get(st, ops[0], n), s.get(st, ops[1], n); st.flags = ("arith", 8 * n, mk("add", 8 * n, a, b)); s.put(st, ops[1], a, n); s.put(st, ops[0], mk("add", 8 * n, a, b), n); return
        if mn == "cmpxchg":
            n = s.size(*ops); acc = assemble(st.regs["rax"][:n]); d = s.get(st, ops[0], n); v = s.get(st, ops[1], n); c = mk("icmp.eq", 1, acc, d); st.flags = ("sub", 8 * n, acc, d)
            s.put(st, ops[0], mk("select", 8 * n, c, v, d), n); s.put(st, ("r", "rax", 0, n), mk("select", 8 * n, c, acc, d), n); return
        if mn.startswith("rep movsb"):
            c = assemble(st.regs["rcx"])
            if c[0] != "const": raise Unknown("memory copy of a variable size")
            n = c[2]; 
            if n > 70000: raise Wrong("copies %d bytes" % n)
            si, di = assemble(st.regs["rsi"]), assemble(st.regs["rdi"])
            s.store(st, di, s.load(st, si, n)) if n else None
            st.regs["rsi"] = split(norm(mk("add", 64, si, const(64, n)))); st.regs["rdi"] = split(norm(mk("add", 64, di, const(64, n)))); st.regs["rcx"] = split(const(64, 0)); return
        if mn.startswith("rep stosb"):
            c = assemble(st.regs["rcx"])
            if c[0] != "const": raise Unknown("memory set of a variable size")
            n = c[2]; di = assemble(st.regs["rdi"])
            if n: s.store(st, di, [st.regs["rax"][0]] * n)
            st.regs["rdi"] = split(norm(mk("add", 64, di, const(64, n)))); st.regs["rcx"] = split(const(64, 0)); return
        if mn in ("nop", "mfence", "pause", "lfence", "sfence"): return
        # ---- SSE, scalar
        m = re.fullmatch(r"(add|sub|mul|div)(ss|sd)", mn)
        if m:
            n = 4 if m.group(2) == "ss" else 8; a, b = s.get(st, ops[0], n), s.get(st, ops[1], n); s.put(st, ops[0], mk("f" + m.group(1), 8 * n, a, b), n); return
        if mn in ("movss", "movsd"):
            n = 4 if mn == "movss" else 8
            if ops[0][0] == "r" and ops[1][0] == "m": s.put(st, ops[0], mk("zext", 128, s.get(st, ops[1], n)), 16)
            else: s.put(st, ops[0], s.get(st, ops[1], n), n)
            return
        if mn in ("movaps", "movups", "movapd", "movupd", "movdqa", "movdqu"):
            if mn in ("movaps", "movapd", "movdqa"):
                for o in ops:
                    if o[0] == "m":
                        r, off = region_of(s.address(st, o))
                        if r == ("leaf", "rsp0") and (off + 8) % 16: raise Wrong("aligned access to an unaligned stack location")
            s.put(st, ops[0], s.get(st, ops[1], 16), 16); return
        if mn in ("movd", "movq"):
            n = 4 if mn == "movd" else 8
            if ops[0][0] == "r" and ops[0][1].startswith("xmm"): s.put(st, ops[0], mk("zext", 128, s.get(st, ops[1], n)), 16)
            else: s.put(st, ops[0], s.get(st, ops[1], n), n)
            return
        if mn in ("comiss", "ucomiss", "comisd", "ucomisd"):
            n = 4 if mn.endswith("ss") else 8; st.flags = ("fcmp", 8 * n, s.get(st, ops[0], n), s.get(st, ops[1], n)); return
        if mn == "cvtss2sd": s.put(st, ops[0], mk("fpext", 64, s.get(st, ops[1], 4)), 8); return
        if mn == "cvtsd2ss": s.put(st, ops[0], mk("fptrunc", 32, s.get(st, ops[1], 8)), 4); return
        m = re.fullmatch(r"cvtts([sd])2si", mn)
        if m: f = 4 if m.group(1) == "s" else 8; n = ops[0][3]; s.put(st, ops[0], mk("fptosi", 8 * n, s.get(st, ops[1], f)), n); return
        m = re.fullmatch(r"cvtsi2s([sd])", mn)
        if m: f = 4 if m.group(1) == "s" else 8; n = s.size(ops[1]); s.put(st, ops[0], mk("sitofp", 8 * f, s.get(st, ops[1], n)), f); return
        if mn in ("xorps", "xorpd", "pxor"):
            if ops[0] == ops[1]: s.put(st, ops[0], const(128, 0), 16)
            else: s.put(st, ops[0], mk("xor", 128, s.get(st, ops[0], 16), s.get(st, ops[1], 16)), 16)
            return
        m = re.fullmatch(r"cmp(eq|lt|le|unord|neq|nlt|nle|ord)(ss|sd)", mn)
        if m:
            n = 4 if m.group(2) == "ss" else 8; a, b = s.get(st, ops[0], n), s.get(st, ops[1], n)
            p = {"eq": "oeq", "lt": "olt", "le": "ole", "unord": "uno", "neq": "une", "nlt": "uge", "nle": "ugt", "ord": "ord"}[m.group(1)]
            s.put(st, ops[0], mk("sext", 8 * n, mk("fcmp." + p, 1, a, b)), n); return
        raise Unknown("instruction " + mn)
    def after_call(s, st):
        k = st.calls; st.calls += 1
        snap_args(s, st)
        for r in VOLATILE: st.regs[r] = split(leaf(128 if r[0] == "x" else 64, "%s@call%d" % (r, k)))
        st.flags = None; st.mem.havoc()
def snap_args(s, st):
    """the callee owns the home slots of its arguments and the copies of arguments that are passed by address"""
    sp = s.sp(st)
    if (sp + 8) % 16: raise Wrong("the stack pointer is not aligned to 16 bytes at a call (rsp0%+d)" % sp)
    n = getattr(s, "argument_slots", lambda k: 4)(st.calls - 1)
    for i in range(8 * max(4, n)): st.mem.m.setdefault(("leaf", "rsp0"), {})[sp + i] = (leaf(8, "home%d@call%d" % (i, st.calls)), 0)
    for a in getattr(s, "owned", lambda st: [])(st):
        r, o, size = a
        for i in range(size): st.mem.m.setdefault(r, {})[o + i] = (leaf(8, "owned%d@call%d" % (o + i, st.calls)), 0)

def norm(e):
    """sums in a normal form"""
    if e[1] != 64 or e[0] in ("leaf", "const"): return e
    t, c = linear(e)
    out = None
    for x, k in sorted(t.items(), key=repr):
        y = mk("mul", 64, x, const(64, k)) if k != 1 else x
        out = y if out is None else mk("add", 64, out, y)
    if out is None: return const(64, c)
    return mk("add", 64, out, const(64, c)) if c else out
def rotate(mn, w, x, k):
    wk = mk("zext", w, mk("and", 8, k, const(8, w - 1))) if w > 8 else mk("and", 8, k, const(8, 7)); inv = mk("and", w, mk("sub", w, const(w, w), wk), const(w, w - 1))
    a, b = ("shl", "lshr") if mn == "rol" else ("lshr", "shl")
    return mk("or", w, mk(a, w, x, wk), mk(b, w, x, inv))
def checked(q, w, sg):
    """the quotient must fit: otherwise the division traps (undefined)"""
    t = mk("trunc", w, q); back = mk("sext" if sg else "zext", q[1], t)
    return mk("select", w, mk("icmp.eq", 1, back, q), t, mk("udiv", w, t, const(w, 0)))
