"""Grouping of operators: precedence and associativity."""
from exprcheck import *
LEVEL = "other"
LEVELS = [["*", "/", "%"], ["+", "-"], ["<<", ">>"], ["<", ">", "<=", ">="], ["==", "!="], ["&"], ["^"], ["|"], ["&&"], ["||"]]
PREC = {o: i for i, l in enumerate(LEVELS) for o in l}
def check(rep):
    f = FrontEnd(); rep.explanation = EXPL
    for a in PREC:
        for b in PREC:
            for k in ("VVV", "LLL"):
                for t in ("s32", "u32"):
                    f.add("x %s y %s z on %s %s" % (a, b, t, "variables" if k == "VVV" else "constants"), 5, a, b, [opnd(c, t) for c in k], what="three", group="left" if PREC[a] <= PREC[b] else "right")
    for u in "+-~!":
        for b in PREC:
            for k in ("VV", "LL"):
                f.add("%s x %s y (%s)" % (u, b, k), 6, u, b, [opnd(c, "s32") for c in k], what="prefix2")
                f.add("x %s %s y (%s)" % (b, u, k), 7, b, u, [opnd(c, "s32") for c in k], what="binprefix")
    for b in PREC:
        f.add("x %s y ? p : q" % b, 8, b, 0, [opnd("V", "s32")] * 4, what="bincond")
    judge(f, rep)
    rep.need("expression_templates", 1000)
    rep.assumptions = ["operators applied to int and unsigned int operands; grouping does not depend on the operand type"]
