"""Assignment, compound assignment, increment and decrement of variables."""
from exprcheck import *
LEVEL = "other"
def check(rep):
    f = FrontEnd(); rep.explanation = EXPL
    for op in ["="] + [o + "=" for o in BIN_ARITH + BIN_INT + SHIFTS]:
        for t1 in ALL:
            for t2 in ALL:
                if op != "=" and not binary_ok(op[:-1], t1, t2): continue
                rej = t1 == "Bool" and op not in ("=", "|=", "&=", "^=")   # a documented restriction of this compiler
                for k in "LV": f.add("%s %s %s (%s)" % (t1, op, t2, {"L": "constant", "V": "variable"}[k]), 1, op, 0, [opnd("V", t1), opnd(k, t2)], what="assign", may_reject=rej)
    for op in ("++", "--"):
        for t in ALL:
            f.add("%s%s" % (op, t), 0, op, 0, [opnd("V", t)], what="pre")
            f.add("%s%s" % (t, op), 2, op, 0, [opnd("V", t)], what="post")
    judge(f, rep)
    rep.need("expression_templates", 1800)
    rep.assumptions = ["stored values of _Bool variables are 0 or 1"]
