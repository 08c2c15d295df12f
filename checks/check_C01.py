"""Constant expressions."""
from exprcheck import *
LEVEL = "other"
def check(rep):
    f = FrontEnd(); rep.explanation = EXPL
    for op in BIN_ARITH + BIN_INT + SHIFTS + COMPARE + LOGIC:
        for t1 in ALL:
            for t2 in ALL:
                if binary_ok(op, t1, t2): f.add("%s %s %s on constants" % (t1, op, t2), 1, op, 0, [opnd("L", t1), opnd("L", t2)], what="binary")
    for op in "+-~!":
        for t in ALL:
            if unary_ok(op, t): f.add("%s%s on a constant" % (op, t), 0, op, 0, [opnd("L", t)], what="unary")
    for t1 in ALL:
        for t2 in ALL: f.add("(%s)%s on a constant" % (t1, t2), 4, T[t1], 0, [opnd("L", t2)], what="cast", to=t1)
    for t in ALL:
        for t1 in ("s8", "u8", "s32", "u32", "s64", "u64", "f32", "f64") if t == "s32" else ("s32",):
            for t2 in ("s8", "u8", "s32", "u32", "s64", "u64", "f32", "f64") if t == "s32" else ("s32", "f64"):
                f.add("%s ? %s : %s on constants" % (t, t1, t2), 3, 0, 0, [opnd("L", t), opnd("L", t1), opnd("L", t2)], what="cond")
    judge(f, rep)
    rep.need("expression_templates", 2000)
    rep.assumptions = ["operands arrive as literals of the stated type; wrapping (two's complement) is the specified result of signed overflow, as at run time"]
