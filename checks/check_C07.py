"""Bit-fields: reading, assigning, compound assignment, increment and decrement."""
from exprcheck import *
LEVEL = "other"
FIELDS = [("s32", 0, 1), ("s32", 3, 5), ("s32", 0, 31), ("s32", 31, 1), ("s32", 16, 16), ("u32", 0, 1), ("u32", 7, 9), ("u32", 0, 31), ("u32", 24, 8), ("u8", 2, 3), ("s8", 2, 3), ("u16", 5, 11), ("s16", 0, 15),
          ("u64", 10, 20), ("u64", 20, 40), ("u64", 0, 63), ("s64", 30, 33), ("s64", 1, 8), ("s64", 33, 31), ("s32", 0, 32), ("u32", 0, 32), ("u64", 32, 32), ("s64", 32, 32)]
def check(rep):
    f = FrontEnd(); rep.explanation = EXPL
    for t, bit, w in FIELDS:
        b = (BITFIELD, t, bit << 8 | w); n = "%s:%d at bit %d" % (t, w, bit)
        f.add("+ %s" % n, 0, "+", 0, [b], what="unary"); f.add("! %s" % n, 0, "!", 0, [b], what="unary")
        for o in ("+", "<", ">>", "/", "=="):
            for t2 in ("s32", "u32", "s64", "u64"):
                f.add("%s %s %s" % (n, o, t2), 1, o, 0, [b, opnd("V", t2)], what="binary"); f.add("%s %s %s" % (t2, o, n), 1, o, 0, [opnd("V", t2), b], what="binary")
        for to in INTS_ + ["f64"]: f.add("(%s)%s" % (to, n), 4, T[to], 0, [b], what="cast", to=to)
        f.add("s32 ? %s : s64" % n, 3, 0, 0, [opnd("V", "s32"), b, opnd("V", "s64")], what="cond")
        for o in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="):
            for t2 in ("s8", "u8", "s32", "u32", "s64", "u64"):
                for k in "VL": f.add("%s %s %s (%s)" % (n, o, t2, {"L": "constant", "V": "variable"}[k]), 1, o, 0, [b, opnd(k, t2)], what="bfassign")
        for o in ("++", "--"): f.add("%s%s" % (o, n), 0, o, 0, [b], what="bfpre"); f.add("%s%s" % (n, o), 2, o, 0, [b], what="bfpost")
    judge(f, rep)
    rep.need("expression_templates", 3000)
    rep.assumptions = ["the bit-fields %s stand for all positions and widths" % (FIELDS,)]
