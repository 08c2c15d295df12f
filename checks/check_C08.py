"""Back end: arithmetic, bitwise, shift and float operators on operands at every place."""
from betpl import *
LEVEL = "other"
def check(rep):
    be = BackEnd(); full = sa.TIER == "thorough"
    for op in ("add", "subtract", "and", "or", "xor"):
        for t in ("u32", "u64"):
            s = operands(t) if full or op == "subtract" else shortlist(t); two(be, op + "_" + t, t, t, t, s, s)
    for op in ("multiply", "divide", "mod"):
        for t in ("s32", "u32", "s64", "u64"):
            s = operands(t) if full or (op, t) == ("mod", "s32") else shortlist(t); two(be, op + "_" + t, t, t, t, s, s)
    for op in ("left_shift", "right_shift"):
        for t in ("s32", "u32", "s64", "u64"):
            s = operands(t) if full or (op, t) == ("right_shift", "s64") else shortlist(t)
            two(be, op + "_" + t, t, "u8", t, s, [k for k in (operands("u8") if full else shortlist("u8")) if not islit(k)], both=True)
            for c in range(8 * SIZE[t]):
                for k in ("local", "computed", "thread local"):
                    b = B(t); b.e(*operand(b, k, t)); b.e(("integer_literal", "u8", c, c), (op + "_" + t,), ("return",)); b.add(be, "%s_%s of %s by %d" % (op, t, k, c), **opts(t))
    for op in ("add", "subtract", "multiply", "divide"):
        for t in ("f32", "f64"):
            s = operands(t) if full or op == "subtract" else shortlist(t); two(be, op + "_" + t, t, t, t, s, s, both=True)
    for t in ("u32", "u64"):
        for op in ("bitwise_not_", "negate_"): one(be, op + t, t, t, operands(t))
    for t in ("f32", "f64"): one(be, "negate_" + t, t, t, operands(t))
    be.judge(rep)
    rep.need("ir_templates", 5000)
    rep.explanation = EXPL; rep.assumptions = ASSUME
