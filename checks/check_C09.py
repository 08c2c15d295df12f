"""Back end: comparisons, conditions, conversions."""
from betpl import *
LEVEL = "other"
def after(b, how):
    if how == "value": b.e(("return",))
    elif how == "not": b.e(("logical_not_u32",), ("return",))
    elif how == "not not": b.e(("logical_not_u32",), ("logical_not_u32",), ("return",))
    else:
        l = b.label(); ops = []
        if how.startswith("not "): b.e(("logical_not_u32",))
        b.e(("jump_if_true" if how.endswith("true") else "jump_if_false", l), ("integer_literal", "s32", 7, 7), ("return",), ("jump_label", l), ("integer_literal", "s32", 9, 9), ("return",))
USES = ["value", "not", "not not", "jump if true", "jump if false", "not jump if true", "not jump if false"]
def check(rep):
    be = BackEnd(); full = sa.TIER == "thorough"
    CMP = ["bigger_equals", "smaller_equals", "bigger", "smaller"]
    for t in ("s32", "u32", "s64", "u64", "f32", "f64"):
        ops = [c + "_" + t for c in CMP] + ([] if t[0] == "s" else ["equals_" + t, "unequals_" + t])
        for op in ops:
            s = operands(t) if full or op in ("smaller_s32", "bigger_equals_u64", "smaller_equals_f64") else shortlist(t)
            two(be, op, t, t, "s32", s, s, both=t[0] == "f")
            for how in USES[1:]:
                for k1, k2 in (("local", "parameter"), ("computed", "global"), ("thread local", "pointer element"), ("parameter", lits(t)[1]), ("computed", lits(t)[-1])):
                    b = B("s32"); b.e(*operand(b, k1, t)); b.e(*operand(b, k2, t)); b.e((op,)); after(b, how); b.add(be, "%s of %s, %s then %s" % (op, k1, k2, how), **opts(t))
    # truth of a value
    for t in ("Bool", "s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "f32", "f64"):
        wide = t if t in ("f32", "f64") else ("u64" if SIZE[t] == 8 else "u32")
        fz = dict(special="negative zero") if t[0] == "f" else {}
        for k in operands(t):
            if SIZE[t] >= 4:
                for how in USES[:3]:
                    b = B("s32"); b.e(*operand(b, k, t)); b.e(("logical_not_" + wide,)); after(b, how); b.add(be, "logical_not_%s of %s then %s" % (wide, k, how), **opts(t), **fz)
            for how in ("jump if true", "jump if false"):
                b = B("s32"); b.e(*operand(b, k, t)); after(b, how); b.add(be, "%s on %s %s" % (how, t, k), **opts(t), **fz)
            b = B("Bool"); b.e(*operand(b, k, t)); b.e(("cast_to_bool",), ("return",)); b.add(be, "cast_to_bool of %s %s" % (t, k), **opts(t), **fz)
            b = B("Bool"); b.e(*operand(b, k, t)); b.e(("integer_literal", "s32", 3, 3), ("cast_to_bool_lhs",), ("pop_expression",), ("return",)); b.add(be, "cast_to_bool_lhs of %s %s" % (t, k), **opts(t), **fz)
    # conversions
    n = 0
    for kind in sorted(be.K):
        m = re.fullmatch(r"IR_((?:cast|sign_extend|zero_extend)_([suf]\d+)_to_([suf]\d+))(_lhs)?|IR_(truncate_to_(u\d+))(_lhs)?", kind)
        if not m: continue
        n += 1; name = kind[3:]; lhs = name.endswith("_lhs")
        froms = [m.group(2)] if m.group(1) else [x for x in ("s8", "u16", "s32", "u64") if SIZE[x] > SIZE[m.group(6)]]
        to = m.group(3) or m.group(6)
        for f in froms:
            big = dict(special="at least 2^63") if f[0] == "f" and to == "u64" else {}
            for k in operands(f) if not lhs else shortlist(f):
                b = B(to); b.e(*operand(b, k, f))
                if lhs: b.e(("integer_literal", "s32", 3, 3), (name,), ("pop_expression",), ("return",))
                else: b.e((name,), ("return",))
                b.add(be, "%s of %s %s" % (name, f, k), **opts(f), **big)
                if not lhs and k in ("local", "computed"): # the result as an operand, not only as a returned value
                    p = to if to in ("f32", "f64") else ("u64" if SIZE[to] == 8 else "u32")
                    if SIZE[to] >= 4:
                        b = B(p); b.e(*operand(b, k, f)); b.e((name,), I(b.obj(PARAM, p)), ("add_" + p,), ("return",)); b.add(be, "%s of %s %s then add" % (name, f, k), **opts(f), **big)
    rep.count("conversion_kinds", n); rep.need("conversion_kinds", 60)
    be.judge(rep)
    rep.need("ir_templates", 5000)
    rep.explanation = EXPL; rep.assumptions = ASSUME
