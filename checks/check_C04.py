"""Casts, unary operators and conditional expressions on variables."""
from exprcheck import *
LEVEL = "other"
def check(rep):
    f = FrontEnd(); rep.explanation = EXPL
    for op in "+-~!":
        for t in ALL:
            if unary_ok(op, t): f.add("%s %s" % (op, t), 0, op, 0, [opnd("V", t)], what="unary")
    for t1 in ALL:
        for t2 in ALL: f.add("(%s)%s" % (t1, t2), 4, T[t1], 0, [opnd("V", t2)], what="cast", to=t1)
    for t1 in ALL:
        for t2 in ALL:
            for k in ("VVV", "LVV", "VLL", "VVL", "VLV"):
                f.add("s32 ? %s : %s (%s)" % (t1, t2, k), 3, 0, 0, [opnd(c, t) for c, t in zip(k, ("s32", t1, t2))], what="cond")
    for t in ALL:
        f.add("%s ? s32 : s32" % t, 3, 0, 0, [opnd("V", t), opnd("V", "s32"), opnd("V", "s32")], what="cond")
        f.add("constant %s ? s32 : s32" % t, 3, 0, 0, [opnd("L", t), opnd("V", "s32"), opnd("V", "s32")], what="cond")
    judge(f, rep)
    rep.need("expression_templates", 750)
    rep.assumptions = ["stored values of _Bool variables are 0 or 1"]
