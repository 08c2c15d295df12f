"""Back end: stores, compound assignments, increments, bit-fields, atomics."""
from betpl import *
LEVEL = "other"
INTS = ["s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64"]
def finish(b, use, t):
    """the ways in which the result of an assignment is used"""
    if use == "dropped": b.e(("pop_expression",))
    elif use == "returned": b.e(("return",))
    elif use == "stored": # as the operand of another assignment
        g = b.obj(GLOBAL, t); b.seq.insert(0, I(g)); b.e(("store",), ("pop_expression",))
RET = lambda use, t: t if use == "returned" else "void"
USES = ("dropped", "returned", "stored")
def assign(be, name, op, t, place_kind, value_kind, use, vt=None, post=(), **k):
    b = B(RET(use, t)); b.e(*operand(b, place_kind, t)); b.e(*operand(b, value_kind, vt or t)); b.e((op,)); b.e(*post)
    finish(b, use, t); b.add(be, "%s: %s, %s, %s" % (name, place_kind, value_kind, use), **{**opts(t, vt or t), **k})
def lit(v): return v if v.startswith("literal") else v
def check(rep):
    be = BackEnd(); full = sa.TIER == "thorough"
    cross = lambda i, n: full or i % n == 0
    i = 0
    # plain stores
    for t in ["Bool"] + INTS + ["f32", "f64"]:
        for p in LVALUES:
            for v in operands(t):
                for use in USES:
                    i += 1
                    if (use == "dropped" and cross(i, 5)) or cross(i, 23): assign(be, "store " + t, "store", t, p, v, use)
    # compound assignments
    for t in INTS + ["f32", "f64"]:
        ops = ["add", "subtract", "multiply", "divide"] if t[0] == "f" else ["multiply", "divide", "modulo", "left_shift", "right_shift"] + (["add", "subtract", "and", "or", "xor"] if t[0] == "u" else [])
        for o in ops:
            vt = "u8" if o.endswith("shift") else t
            for p in LVALUES:
                for v in operands(vt):
                    for use in USES:
                        i += 1
                        if (use == "dropped" and (p in SHORT or v in SHORT[:3]) and cross(i, 11)) or cross(i, 61): assign(be, "%s_assignment_%s" % (o, t), "%s_assignment_%s" % (o, t), t, p, v, use, vt)
    # increments
    for t in ("bool", "u8", "u16", "u32", "u64", "f32", "f64", "pointer"):
        lt = {"bool": "Bool", "pointer": "ptr"}.get(t, t)
        for o in ("postinc", "postdec", "preinc", "predec"):
            for p in LVALUES:
                for use in USES:
                    for pointee in ([100 + T["u8"], 100 + T["f64"], 0] if t == "pointer" else [None]):
                        b = B(RET(use, lt)); b.e(*operand(b, p, lt))
                        if pointee == 0: st = b.struct(200); b.e((o + "_pointer", st + 100))
                        elif pointee: b.e((o + "_pointer", pointee))
                        else: b.e(("%s_%s" % (o, t),))
                        finish(b, use, lt); b.add(be, "%s_%s%s: %s, %s" % (o, t, "" if pointee is None else " %d" % pointee, p, use), **opts(lt))
    # bit-fields
    for t in ("u8", "s16", "u16", "s32", "u32", "s64", "u64", "s8"):
        w = 8 * SIZE[t]
        usual = {(0, 1), (0, 3), (w - 1, 1), (w // 2 - 1, 2), (1, w - 1), (0, w - 1), (w - 5, 5), (3, w - 6), (0, w)} | ({(7, 25), (0, 31), (1, 31), (31, 33), (32, 32), (0, 32)} if w == 64 else set())
        edge = {(a, z - a) for a in (0, 1, 7, 8, w // 2 - 1, w // 2, w // 2 + 1, w - 8, w - 2, w - 1) for z in (1, 8, 9, w // 2 - 1, w // 2, w // 2 + 1, w - 2, w - 1, w) if 0 <= a < z <= w}
        for bit, width in sorted(usual | edge):
            pt = bitfield(t, bit, width, leaf(w, "x"))[0]
            for p in SHORT[:5] + ["member", "member deref", "array element"] if (bit, width) in usual else ["local", "deref"]:
                b = B(pt); bf = b.bitfield(t, bit, width); b.e(*operand(b, p, t)); b.e(("load_bitfield", bf), ("return",)); b.add(be, "load_bitfield %s:%d at %d of %s" % (t, width, bit, p), **opts(t))
                b = B(pt); bf = b.bitfield(t, bit, width); b.e(*operand(b, p, t)); b.e(("integer_literal", "s32", 3, 3), ("load_bitfield_lhs", bf), ("pop_expression",), ("return",)); b.add(be, "load_bitfield_lhs %s:%d at %d of %s" % (t, width, bit, p), **opts(t))
                for v in (["local", "parameter", "computed", "thread local", "pointer element"] if (bit, width) in usual else ["computed"]) + [l for l in lits(t)]:
                    for use in ("dropped", "loaded"):
                        i += 1
                        if not cross(i, 9): continue
                        b = B("void" if use == "dropped" else pt); bf = b.bitfield(t, bit, width); b.e(*operand(b, p, t)); b.e(*operand(b, v, t)); b.e(("store_bitfield", bf))
                        b.e(*([("pop_expression",)] if use == "dropped" else [("load_bitfield", bf), ("return",)])); b.add(be, "store_bitfield %s:%d at %d: %s, %s, %s" % (t, width, bit, p, v, use), **opts(t))
                for o in ("postinc", "postdec", "preinc", "predec"):
                    for use in ("dropped", "returned"):
                        i += 1
                        if not cross(i, 7): continue
                        b = B(RET(use, t)); bf = b.bitfield(t, bit, width); b.e(*operand(b, p, t)); b.e((o + "_bitfield", bf)); finish(b, use, t); b.add(be, "%s_bitfield %s:%d at %d: %s, %s" % (o, t, width, bit, p, use), **opts(t))
    # atomics
    for t in ("bool", "u8", "u16", "u32", "u64"):
        at = "atomic_" + ("Bool" if t == "bool" else t); vt = "Bool" if t == "bool" else t
        for p in LVALUES:
            for v in operands(vt):
                for use in USES[:2]:
                    i += 1
                    if cross(i, 7):
                        b = B(RET(use, vt)); b.e(*operand(b, p, at)); b.e(*operand(b, v, vt)); b.e(("store_atomic",)); finish(b, use, vt); b.add(be, "store_atomic %s: %s, %s, %s" % (t, p, v, use), atomics=1, **opts(vt))
                    for o in ("add", "subtract", "and", "or", "xor"):
                        if t == "bool": continue
                        i += 1
                        if not cross(i, 13): continue
                        b = B(RET(use, vt)); b.e(*operand(b, p, at)); b.e(*operand(b, v, vt)); b.e(("%s_atomic_assignment_%s" % (o, t),)); finish(b, use, vt); b.add(be, "%s_atomic_assignment_%s: %s, %s, %s" % (o, t, p, v, use), atomics=1, **opts(vt))
            if t == "bool": continue
    be.judge(rep)
    rep.need("ir_templates", 4000)
    rep.explanation = EXPL; rep.assumptions = ASSUME
