"""The meaning of the intermediate representation: what an IR sequence computes, as an expression over its
variables.  This is the contract between the front end (which selects the IR) and the back end (which
selects instructions for it)."""
import re
from sx import *

TYPES = ["void", "Bool", "s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "f32", "f64"]
T = {n: i for i, n in enumerate(TYPES)}
SIZE = {"Bool": 1, "s8": 1, "u8": 1, "s16": 2, "u16": 2, "s32": 4, "u32": 4, "s64": 8, "u64": 8, "f32": 4, "f64": 8, "ptr": 8}
ATOMIC = ["atomic_Bool", "atomic_s8", "atomic_u8", "atomic_s16", "atomic_u16", "atomic_s32", "atomic_u32", "atomic_s64", "atomic_u64"]
for a in ATOMIC: SIZE[a] = SIZE[a[7:]]
def isfloat(t): return t in ("f32", "f64")
def issigned(t): return t[0] == "s"
def bits(t): return SIZE[t] * 8
def typename(i):
    if i is None: return None
    if 0 <= i < 12: return TYPES[i]
    if i < 0: return None
    if 100 <= i < 400 or i >= 400: return "ptr" if not 200 <= i < 300 else "bf%d" % (i - 200)
    return None

# ------------------------------------------------------------------ C conversions (C11 6.3, LLP64)
def convert(v, frm, to):
    if to == frm: return v
    if to == "Bool":
        if isfloat(frm): return mk("zext", 8, mk("fcmp.une", 1, v, const(v[1], 0)))
        return mk("zext", 8, mk("icmp.ne", 1, v, const(v[1], 0)))
    if isfloat(frm) and isfloat(to): return mk("fpext" if to == "f64" else "fptrunc", bits(to), v)
    if isfloat(frm): return mk("fptosi" if issigned(to) else "fptoui", bits(to), v)
    if isfloat(to): return mk("sitofp" if issigned(frm) else "uitofp", bits(to), v)
    if bits(to) <= bits(frm): return mk("trunc", bits(to), v)
    return mk("sext" if issigned(frm) else "zext", bits(to), v)

def promoted(t): return "s32" if t in ("Bool", "s8", "u8", "s16", "u16") else t
def common(a, b):
    if "f64" in (a, b): return "f64"
    if "f32" in (a, b): return "f32"
    a, b = promoted(a), promoted(b)
    if "u64" in (a, b): return "u64"
    if "s64" in (a, b): return "s64"
    if "u32" in (a, b): return "u32"
    return "s32"

def arith(op, t, x, y):
    """x op y computed in type t (both already converted)"""
    w = bits(t)
    if isfloat(t): return mk({"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op], w, x, y)
    o = {"+": "add", "-": "sub", "*": "mul", "&": "and", "|": "or", "^": "xor", "/": "sdiv" if issigned(t) else "udiv", "%": "srem" if issigned(t) else "urem"}[op]
    return mk(o, w, x, y)
CMPS = {"<": "lt", ">": "gt", "<=": "le", ">=": "ge", "==": "eq", "!=": "ne"}
def compare(op, t, x, y):
    if isfloat(t): p = "fcmp." + ("une" if op == "!=" else "o" + CMPS[op])
    else: p = "icmp." + (CMPS[op] if op in ("==", "!=") else ("s" if issigned(t) else "u") + CMPS[op])
    return mk("zext", 32, mk(p, 1, x, y))
def truth(v, t):
    return mk("fcmp.une", 1, v, const(v[1], 0)) if isfloat(t) else mk("icmp.ne", 1, v, const(v[1], 0))
def shift(op, t, x, y):
    return mk("shl" if op == "<<" else ("ashr" if issigned(t) else "lshr"), bits(t), x, mk("zext", bits(t), y) if y[1] < bits(t) else mk("trunc", bits(t), y))

def bitfield(t, bit, width, storage):
    """the value of a bit-field (given its storage unit) and the type it is promoted to"""
    w = bits(t); e = mk("ashr" if issigned(t) else "lshr", w, mk("shl", w, storage, const(w, w - width - bit)), const(w, w - width))
    if width < 32: to = "s32"
    elif width == 32: to = "s32" if issigned(t) else "u32"
    else: to = t
    return to, convert(e, t, to)
def bitfield_write(t, bit, width, storage, v):
    w = bits(t); m = mask(width) << bit
    return mk("or", w, mk("and", w, storage, const(w, ~m)), mk("and", w, mk("shl", w, mk("trunc", w, v) if v[1] >= w else mk("zext", w, v), const(w, bit)), const(w, m)))

# ------------------------------------------------------------------ IR
class Bad(Exception): pass

class Val:      # a value on the stack: an expression, float or not
    def __init__(s, e, fl=False): s.e = e; s.fl = fl
class Loc:      # a variable on the stack
    def __init__(s, d): s.d = d
class Mem:      # the object a pointer designates
    def __init__(s, addr, size, fl): s.addr = addr; s.size = size; s.fl = fl

class Machine:
    """kinds: number -> name without the IR_ prefix"""
    def __init__(s, kinds, decl_types, bitfields=None, init=None):
        s.kinds = kinds; s.types = decl_types; s.bf = bitfields or {}; s.init = init or {}; s.fresh = 0; s.reads = []
    def unknown(s, w):
        s.fresh += 1; return leaf(w, "upper bits #%d of a narrower value" % s.fresh)
    def declval(s, mem, d):
        if d in mem: return mem[d]
        if d in s.init: return s.init[d]
        t = s.types[d]
        return leaf(SIZE[t] * 8, "abcdefgh"[d]) if d < 100 else leaf(SIZE[t] * 8, "uninitialised temporary")
    def value(s, st, x, mem, w=None, fl=False):
        """reads x as a value of w bits"""
        if isinstance(x, Loc):
            e = s.declval(mem, x.d); xf = isfloat(s.types[x.d])
        elif isinstance(x, Mem): e = leaf(x.size * 8, "*(%s)" % show(x.addr)); xf = x.fl
        else: e, xf = x.e, x.fl
        if w is None: return e, xf
        if fl != xf: raise Bad("a %s operation reads a %s value" % ("float" if fl else "integer", "float" if xf else "integer"))
        if e[1] == w: return e, xf
        if fl: raise Bad("a %d bit float operation reads a %d bit float" % (w, e[1]))
        if e[1] > w: return mk("trunc", w, e), xf
        return mk("or", w, mk("zext", w, e), mk("shl", w, mk("zext", w, s.unknown(w - e[1])), const(w, e[1]))), xf

    def run(s, code):
        """code: list of (offset, kind, args). Returns (Val/Loc stack, memory)"""
        labels = {c[2][0]: i for i, c in enumerate(code) if s.kinds[c[1]] == "jump_label"}
        return s.go(code, labels, 0, [], {}, 0)
    def ite(s, c, a, b):
        if a is b: return a
        if type(a) is type(b) is Loc and a.d == b.d: return a
        if type(a) is not Val or type(b) is not Val: raise Bad("stack entries of the two paths differ")
        if a.e[1] != b.e[1] or a.fl != b.fl: raise Bad("the two paths leave values of different types")
        return Val(mk("select", a.e[1], c, a.e, b.e), a.fl)
    def go(s, code, labels, pc, st, mem, depth):
        if depth > 12: raise Bad("too many jumps")
        st = list(st); mem = dict(mem); n = 0
        while pc < len(code):
            n += 1
            if n > 500: raise Bad("the code does not terminate")
            off, kind, args = code[pc]; k = s.kinds[kind]; pc += 1
            if k in ("jump_label", "nop"): continue
            if k == "jump":
                if args[0] not in labels: raise Bad("jump to a label that is not emitted")
                pc = labels[args[0]]; continue
            if k in ("jump_if_true", "jump_if_false"):
                e, fl = s.value(st, s.pop(st), mem); c = truth(e, "f32" if fl else "s32")
                if args[0] not in labels: raise Bad("jump to a label that is not emitted")
                if k == "jump_if_false": c = lognot(c)
                if c[0] == "const":
                    if c[2]: pc = labels[args[0]]
                    continue
                s1, m1 = s.go(code, labels, labels[args[0]], st, mem, depth + 1)
                s2, m2 = s.go(code, labels, pc, st, mem, depth + 1)
                if len(s1) != len(s2): raise Bad("the two paths leave stacks of different depth")
                m = {}
                for d in set(m1) | set(m2):
                    a, b = s.declval(m1, d), s.declval(m2, d); m[d] = mk("select", a[1], c, a, b)
                return [s.ite(c, a, b) for a, b in zip(s1, s2)], m
            s.step(k, args, st, mem)
        return st, mem
    def pop(s, st):
        if not st: raise Bad("the IR pops from an empty stack")
        return st.pop()
    def store(s, st, mem, dst, e, fl):
        if isinstance(dst, Loc):
            t = s.types[dst.d]
            if fl != isfloat(t): raise Bad("stores a %s value into a variable of type %s" % ("float" if fl else "integer", t))
            if e[1] < bits(t):
                if fl: raise Bad("stores a narrower float")
                w = bits(t); e = mk("or", w, mk("zext", w, e), mk("shl", w, mk("zext", w, s.unknown(w - e[1])), const(w, e[1])))
            if e[1] > bits(t): e = mk("trunc", bits(t), e)
            mem[dst.d] = e; st.append(Loc(dst.d)) if False else st.append(Val(e, fl))
        else: raise Bad("store to something that is not an object")
    def step(s, k, args, st, mem):
        pop = lambda: s.pop(st); push = lambda e, fl=False: st.append(Val(e, fl))
        if k == "identifier": st.append(Loc(args[0])); return
        if k in ("integer_literal", "float_literal", "pointer_literal", "emitted_float_literal"):
            t = typename(args[0])
            if t is None: raise Bad("literal of an unknown type")
            if (k == "float_literal") != isfloat(t): raise Bad("%s of type %s" % (k, t))
            if k == "pointer_literal": t = "ptr"
            push(mk("trunc", bits(t), args[1]), isfloat(t)); return
        if k == "pop_expression": pop(); return
        if k == "duplicate_lhs": r = pop(); l = pop(); st += [l, l, r]; return
        if k == "duplicate": l = pop(); st += [l, l]; return
        if k == "swap_lhs_rhs": r = pop(); l = pop(); st += [r, l]; return
        if k == "cast_to_void": pop(); st.append(None); return
        if k in ("store", "store_atomic"):
            e, fl = s.value(st, pop(), mem); dst = pop()
            if not isinstance(dst, Loc): raise Bad("store to something that is not an object")
            s.store(st, mem, dst, *((s.value(st, Val(e, fl), mem)) )); return
        if k == "deref":
            p = pop(); e, fl = s.value(st, p, mem, 64); t = typename(args[0]); st.append(Mem(e, SIZE.get(t, 0), t in ("f32", "f64"))); return
        if k == "load_address" or k == "load_address_lhs":
            r = pop() if k.endswith("lhs") else None; x = pop()
            if isinstance(x, Mem): push(x.addr)
            elif isinstance(x, Loc): push(leaf(64, "&" + "abcdefgh"[x.d]))
            else: raise Bad("address of a value")
            if r is not None: st.append(r)
            return
        if k in ("load_bitfield", "load_bitfield_lhs"):
            r = pop() if k.endswith("lhs") else None; x = pop()
            st0, xf = s.value(st, x, mem)
            if xf: raise Bad("bitfield load of a float")
            bf = s.bf[args[0]]
            if st0[1] != bits(bf["type"]): raise Bad("bitfield load of a %d bit value" % st0[1])
            push(bitfield(bf["type"], bf["bit"], bf["width"], st0)[1])
            if r is not None: st.append(r)
            return
        if k == "store_bitfield":
            bf = s.bf[args[0]]; e, fl = s.value(st, pop(), mem, bits(bf["type"])); dst = pop()
            if not isinstance(dst, Loc): raise Bad("store to something that is not an object")
            old = s.declval(mem, dst.d); mem[dst.d] = s.bfwrite(args[0], old, e); push(mem[dst.d]); return   # the whole storage unit: reading it is another operation
        m = re.fullmatch(r"(post|pre)(inc|dec)_(u8|u16|u32|u64|bool|f32|f64|pointer|bitfield)", k)
        if m:
            x = pop()
            if not isinstance(x, Loc): raise Bad("%s of a value" % k)
            t = m.group(3); op = "+" if m.group(2) == "inc" else "-"
            old = s.declval(mem, x.d)
            if t == "bitfield":
                bf = s.bf[args[0]]; o = s.bfread(args[0], old); n = arith(op, "u%d" % o[1], o, const(o[1], 1)); mem[x.d] = s.bfwrite(args[0], old, n); push(old if m.group(1) == "post" else mem[x.d]); return
            if t == "pointer": n = mk("add" if op == "+" else "sub", 64, old, const(64, s.pointee(args[0])))
            elif t == "bool": n = const(8, 1) if op == "+" else mk("xor", 8, old, const(8, 1))
            elif isfloat(t):
                if old[1] != bits(t): raise Bad("%s of a %d bit variable" % (k, old[1]))
                n = arith(op, t, old, const(bits(t), tobits(1.0, bits(t))))
            else:
                if old[1] != bits(t): raise Bad("%s of a %d bit variable" % (k, old[1]))
                n = arith(op, t, old, const(old[1], 1))
            mem[x.d] = n; push(old if m.group(1) == "post" else n, isfloat(t)); return
        m = re.fullmatch(r"(bitwise_not|negate|logical_not)_(u32|u64|f32|f64)", k)
        if m:
            o, t = m.groups(); fl = isfloat(t); e, _ = s.value(st, pop(), mem, bits(t), fl); w = bits(t)
            if o == "bitwise_not": push(mk("xor", w, e, const(w, -1)))
            elif o == "negate": push(mk("fneg", w, e) if fl else mk("sub", w, const(w, 0), e), fl)
            else: push(mk("zext", 32, lognot(truth(e, t))))
            return
        m = re.fullmatch(r"(add|subtract|multiply|divide|mod|and|or|xor|left_shift|right_shift)_(s32|u32|s64|u64|f32|f64)", k)
        if m:
            o, t = m.groups(); fl = isfloat(t)
            if o in ("left_shift", "right_shift"):
                y, _ = s.value(st, pop(), mem, 8); x, _ = s.value(st, pop(), mem, bits(t)); push(shift("<<" if o[0] == "l" else ">>", t, x, y)); return
            y, _ = s.value(st, pop(), mem, bits(t), fl); x, _ = s.value(st, pop(), mem, bits(t), fl)
            push(arith({"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "mod": "%", "and": "&", "or": "|", "xor": "^"}[o], t, x, y), fl); return
        m = re.fullmatch(r"(bigger_equals|smaller_equals|bigger|smaller|equals|unequals)_(s32|u32|s64|u64|f32|f64)", k)
        if m:
            o, t = m.groups(); fl = isfloat(t); y, _ = s.value(st, pop(), mem, bits(t), fl); x, _ = s.value(st, pop(), mem, bits(t), fl)
            push(compare({"bigger_equals": ">=", "smaller_equals": "<=", "bigger": ">", "smaller": "<", "equals": "==", "unequals": "!="}[o], t, x, y)); return
        m = re.fullmatch(r"(add|subtract|and|or|xor|multiply|divide|modulo|left_shift|right_shift)(_atomic)?_assignment_(s8|u8|s16|u16|s32|u32|s64|u64|f32|f64|bool)", k)
        if m:
            o, at, t = m.groups(); t = "u8" if t == "bool" else t; fl = isfloat(t); w = bits(t)
            shiftop = o.endswith("shift")
            y, _ = s.value(st, pop(), mem, 8 if shiftop else w, fl); x = pop()
            if not isinstance(x, Loc): raise Bad("%s to a value" % k)
            old, xf = s.value(st, x, mem)
            if old[1] != w or xf != fl: raise Bad("%s applied to a variable of type %s" % (k, s.types[x.d]))
            if shiftop: # computed at 32 bits for the narrow types
                p = promoted(t); n = mk("trunc", w, shift("<<" if o[0] == "l" else ">>", p, convert(old, t, p), y))
            else: n = arith({"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "modulo": "%", "and": "&", "or": "|", "xor": "^"}[o], t, old, y)
            mem[x.d] = n; push(n, fl); return
        m = re.fullmatch(r"cast_to_bool(_lhs)?", k)
        if m:
            r = pop() if m.group(1) else None; e, fl = s.value(st, pop(), mem); push(mk("zext", 8, truth(e, "f32" if fl else "s32")))
            if r is not None: st.append(r)
            return
        m = re.fullmatch(r"(cast|sign_extend|zero_extend)_([suf]\d+)_to_([suf]\d+)(_lhs)?", k)
        if m:
            c, f, t, l = m.groups(); r = pop() if l else None; e, _ = s.value(st, pop(), mem, bits(f), isfloat(f))
            push(convert(e, f, t), isfloat(t))
            if r is not None: st.append(r)
            return
        m = re.fullmatch(r"truncate_to_(u\d+)(_lhs)?", k)
        if m:
            t, l = m.groups(); r = pop() if l else None; e, _ = s.value(st, pop(), mem, bits(t)); push(e)
            if r is not None: st.append(r)
            return
        raise Bad("the IR kind %s is not expected here" % k)
    def pointee(s, idx): return s.ptr_sizes(idx)
    def bfread(s, idx, e):
        bf = s.bf[idx]; w = bits(bf["type"]); a = const(w, w - bf["width"] - bf["bit"]); b = const(w, w - bf["width"])
        return mk("ashr" if issigned(bf["type"]) else "lshr", w, mk("shl", w, e, a), b)
    def bfwrite(s, idx, old, v):
        bf = s.bf[idx]; w = bits(bf["type"]); m = mask(bf["width"]) << bf["bit"]
        return mk("or", w, mk("and", w, old, const(w, ~m)), mk("and", w, mk("shl", w, v, const(w, bf["bit"])), const(w, m)))
