"""Binary operators, at least one of whose operands is a variable."""
from exprcheck import *
LEVEL = "other"
def check(rep):
    f = FrontEnd(); rep.explanation = EXPL
    for op in BIN_ARITH + BIN_INT + SHIFTS + COMPARE + LOGIC:
        for t1 in ALL:
            for t2 in ALL:
                if not binary_ok(op, t1, t2): continue
                for k in ("VV", "VL", "LV"): f.add("%s %s %s (%s)" % (t1, op, t2, {"VV": "variables", "VL": "variable and constant", "LV": "constant and variable"}[k]), 1, op, 0, [opnd(k[0], t1), opnd(k[1], t2)], what="binary")
    judge(f, rep)
    rep.need("expression_templates", 5000)
    rep.assumptions = ["operands of the built-in arithmetic types; the meaning of each intermediate operation is the contract the back end is checked against separately (M properties)"]
