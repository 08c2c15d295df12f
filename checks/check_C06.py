"""Pointer arithmetic, differences and comparisons."""
from exprcheck import *
LEVEL = "other"
SIZES = [1, 2, 3, 4, 8, 12, 24, 32, 256, 4097]
def check(rep):
    f = FrontEnd(); rep.explanation = EXPL
    ptrs = [(PTR_OBJ, "0", n) for n in SIZES] + [(PTR_VAR, t, 0) for t in ("s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "f32", "f64")] + [(PTR_LIT, t, 0) for t in ("s8", "s32", "u64", "f64")]
    def nm(p): return {PTR_OBJ: "pointer to %d bytes" % p[2], PTR_VAR: "pointer to %s" % p[1], PTR_LIT: "constant pointer to %s" % p[1]}[p[0]]
    add = lambda label, form, op, ops: f.add(label, form, op, 0, ops, what="pointer")
    ints = [t for t in INTS_ if t != "Bool"]
    for p in ptrs:
        for t in ints:
            for k in "VL":
                c = "constant " if k == "L" else ""
                add("%s + %s%s" % (nm(p), c, t), 1, "+", [p, opnd(k, t)]); add("%s - %s%s" % (nm(p), c, t), 1, "-", [p, opnd(k, t)])
                add("%s%s + %s" % (c, t, nm(p)), 1, "+", [opnd(k, t), p])
                if p[0] != PTR_LIT:
                    add("%s += %s%s" % (nm(p), c, t), 1, "+=", [p, opnd(k, t)]); add("%s -= %s%s" % (nm(p), c, t), 1, "-=", [p, opnd(k, t)])
        add("%s - same" % nm(p), 1, "-", [p, p]); add("!%s" % nm(p), 0, "!", [p])
        for o in COMPARE + LOGIC: add("%s %s same" % (nm(p), o), 1, o, [p, p])
        if p[0] != PTR_LIT:
            for o in ("++", "--"): add("%s%s" % (o, nm(p)), 0, o, [p]); add("%s%s" % (nm(p), o), 2, o, [p])
    judge(f, rep)
    rep.need("expression_templates", 1700)
    rep.assumptions = ["element sizes %s stand for all element sizes: the code uses the size only as a factor or divisor" % SIZES, "differences of pointers are exact multiples of the element size"]
