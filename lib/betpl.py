"""Building IR templates for the back end: operands at every kind of place, the operations on them."""
import zlib
from besem import *
ROLL = ([("integer_literal", "u64", 1, 1), ("bitwise_not_u64",), ("pop_expression",)], [("float_literal", "f32", 0x3f800000, 0x3f800000), ("cast_f32_to_f64",), ("pop_expression",)])

class Obj:
    def __init__(s, storage, type, off=None): s.storage = storage; s.type = type; s.off = off
class B:
    """one function under construction"""
    def __init__(s, ret="void"): s.objs = []; s.seq = []; s.fns = [(ret, [], 0)]; s.bfs = []; s.structs = []; s.members = []; s.labels = 0; s.keep = []
    def obj(s, storage, type, off=None): o = Obj(storage, type, off); s.objs.append(o); return o
    def fn(s, ret, args, va=0):
        s.fns.append((ret, args, va)); return len(s.fns) - 1
    def struct(s, size, align=8, kind=0, elem=0):
        x = (size, align, kind, elem)
        if x not in s.structs: s.structs.append(x)
        return 300 + s.structs.index(x)
    def member(s, t, off):
        s.members.append((t, off)); return len(s.members) - 1
    def bitfield(s, t, bit, width): s.bfs.append((t, bit, width)); return 200 + len(s.bfs) - 1
    def label(s): s.labels += 1; return s.labels - 1
    def e(s, *ops): s.seq += list(ops); return s
    def add(s, be, label, **k):
        params = [o for o in s.objs if o.storage == PARAM]; rest = [o for o in s.objs if o.storage != PARAM]; order = params + rest
        ix = {id(o): i for i, o in enumerate(order)}
        if len(order) > 14: raise sa.Broken("too many declarations in " + label)
        h = zlib.crc32(label.encode()); roll = k.pop("roll", (h % 7, h // 7 % 6)) # the allocator hands out registers in turn: start at different ones
        seq = ROLL[0] * roll[0] + ROLL[1] * roll[1] + [tuple(ix[id(x)] if isinstance(x, Obj) else x for x in e) for e in s.seq]
        fns = [(s.fns[0][0], [o.type for o in params], s.fns[0][2])] + s.fns[1:]
        t = be.add(label, seq, [(o.storage, o.type, o.off) for o in order], fns, bfs=s.bfs, structs=s.structs, members=s.members, labels=s.labels, **k)
        t.index = {i: o for i, o in enumerate(order)}
        return t
def I(o): return ("identifier", o)

# ------------------------------------------------------------------ places: each gives the operations that push an operand of type t
LITERALS = {8: [(0, 0), (1, 126), (127, 127), (128, 255)], 16: [(0, 0), (1, 126), (127, 127), (128, 255), (256, 0x7fff), (0x8000, 0xffff)],
            32: [(0, 0), (1, 126), (127, 255), (256, 0x7fffffff), (0x80000000, 0xffffff7f), (0xffffff80, 0xffffffff)],
            64: [(0, 0), (1, 127), (128, 0x7fffffff), (0x80000000, 0xffffffff), (1 << 32, (1 << 63) - 1), (1 << 63, (1 << 64) - (1 << 31) - 1), ((1 << 64) - (1 << 31), (1 << 64) - 1)]}
F32 = [0, 0x3f800000, 0x80000000, 0xc0200000, 0x7f7fffff]
def literal(t, i):
    if t in ("f32", "f64"):
        v = F32[i % len(F32)]
        if t == "f64": v = tobits(tofloat(v, 32), 64)
        return [("float_literal", t, v, v)]
    lo, hi = LITERALS[8 * SIZE[t]][i]
    if t[0] == "s": lo, hi = sx(lo, 8 * SIZE[t]) & mask(64), sx(hi, 8 * SIZE[t]) & mask(64)
    return [("integer_literal", t, lo, hi)]
LVALUES = ["local", "far local", "parameter", "stack parameter", "global", "dllimport", "thread local", "deref", "member", "member deref", "array element", "pointer element", "constant element", "global element", "constant address", "far member"]
def place(b, kind, t):
    """ops that push an lvalue of type t"""
    n = tsize(t, b)
    if kind == "local": return [I(b.obj(LOCAL, t))]
    if kind == "far local": return [I(b.obj(LOCAL, t, 0x200))]
    if kind == "parameter": return [I(b.obj(PARAM, t))]
    if kind == "stack parameter":
        while sum(o.storage == PARAM for o in b.objs) < 4: b.obj(PARAM, "s32")
        return [I(b.obj(PARAM, t))]
    if kind == "global": return [I(b.obj(GLOBAL, t))]
    if kind == "dllimport": return [I(b.obj(IMPORT, t))]
    if kind == "thread local": return [I(b.obj(TLS, t))]
    if kind == "deref": return [I(b.obj(LOCAL, "ptr")), ("deref", t)]
    if kind == "member": return [I(b.obj(LOCAL, b.struct(48))), ("member", b.member(t, 16))]
    if kind == "far member": return [I(b.obj(GLOBAL, b.struct(4096))), ("member", b.member(t, 1024))]
    if kind == "member deref": return [I(b.obj(PARAM, "ptr")), ("member_deref", b.member(t, 24))]
    if kind == "array element": return [I(b.obj(PARAM, "ptr")), ("member_deref", b.member(b.struct(64, 8, 1, n), 8)), I(b.obj(LOCAL, "s64")), ("array_subscript", t)]
    if kind == "global element": return [I(b.obj(GLOBAL, b.struct(64, 8, 1, n))), I(b.obj(PARAM, "s64")), ("array_subscript", t)]
    if kind == "pointer element": return [I(b.obj(LOCAL, "ptr")), I(b.obj(PARAM, "s64")), ("pointer_subscript", t)]
    if kind == "constant element": return [I(b.obj(LOCAL, "ptr")), ("integer_literal", "s64", 5, 5), ("pointer_subscript", t)]
    if kind == "constant address": return [("pointer_literal_deref", t, 0x12345670, 0x12345670)]
    raise KeyError(kind)
RVALUES = ["computed", "returned"]
def rvalue(b, kind, t):
    """ops that push a value of type t that is in a register"""
    if kind == "computed":
        if t in ("f32", "f64"): return [I(b.obj(LOCAL, t)), ("negate_" + t,)]
        w = 8 * SIZE[t]
        if w >= 32: return [I(b.obj(LOCAL, t)), ("bitwise_not_u%d" % w,)]
        return [I(b.obj(LOCAL, "u32")), ("bitwise_not_u32",), ("truncate_to_u%d" % w,)]
    if kind == "returned":
        f = b.fn(t, []); return [I(b.obj(FUNCTION, f)), ("function_call", f, 0)]
    raise KeyError(kind)
def operand(b, kind, t):
    if kind.startswith("literal"): return literal(t, int(kind[7:]))
    return place(b, kind, t) if kind in LVALUES else rvalue(b, kind, t)
def operands(t, lits=True):
    n = 2 if t in ("f32", "f64") else len(LITERALS[8 * SIZE[t]])
    return LVALUES + RVALUES + (["literal%d" % i for i in range(n)] if lits else [])
def opts(*ts):
    fs = [t for t in ts if t in ("f32", "f64")]
    return dict(chunk=max([SIZE[t] for t in ts if t != "ptr"] or [8]) if not fs else SIZE[fs[0]], floatmem=bool(fs))

# ------------------------------------------------------------------ families of templates
SHORT = ["local", "stack parameter", "thread local", "pointer element", "global element", "computed", "returned"]
def lits(t): return ["literal%d" % i for i in range(2 if t in ("f32", "f64") else len(LITERALS[8 * SIZE[t]]))]
def shortlist(t): return SHORT + lits(t)
def islit(k): return k.startswith("literal")
def two(be, op, t1, t2, ret, left, right, both=False):
    """ret f() { return left op right; } for every pair of places"""
    for k1 in left:
        for k2 in right:
            if islit(k1) and islit(k2) and not both: continue
            b = B(ret); b.e(*operand(b, k1, t1)); b.e(*operand(b, k2, t2)); b.e((op,), ("return",)); b.add(be, "%s of %s %s, %s %s" % (op, t1, k1, t2, k2), **opts(t1, t2))
def one(be, op, t, ret, places, *args):
    for k in places:
        b = B(ret); b.e(*operand(b, k, t)); b.e((op,) + args, ("return",)); b.add(be, "%s of %s %s" % (op, t, k), **opts(t))
EXPL = """The repository's code generator (emit_code_for_function and everything it calls, with the register allocator) is compiled to LLVM IR from the
current tree and abstractly interpreted on IR templates: the place of every operand is enumerated, literals stay symbolic within a class of values. The code
bytes left in the emit arena are recovered from the abstract state, decoded with LLVM's disassembler, and given their meaning by a symbolic transfer
function per instruction (registers, flags, memory by region, both successors of a branch joined by selection). The meaning is compared with that of the
IR under the Microsoft x64 calling convention: returned value, every variable, all other memory, calls and their arguments, preserved registers, stack discipline.
Expressions are compared by normal form, or, when these differ, on boundary classes of values. Nothing is executed and no solver is used."""
ASSUME = ["LLVM's disassembler and the instruction semantics in lib/x86sem.py are right", "distinct variables, and memory reached through distinct pointers, do not overlap", "where normal forms differ, agreement on boundary values of the operand types is taken as equality"]
