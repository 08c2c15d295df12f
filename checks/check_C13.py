"""Back end: jumps, conditions with values alive beneath them, early returns, loops of known length, switches."""
from betpl import *
from check_C12 import Mix
LEVEL = "other"
INTT = ["u8", "s16", "u32", "s64"]
COMPARE = [("smaller_s32", "s32"), ("bigger_equals_u64", "u64"), ("equals_u32", "u32"), ("unequals_u64", "u64"), ("smaller_f32", "f32"), ("bigger_f64", "f64"), ("equals_f64", "f64"), ("unequals_f32", "f32"), ("smaller_equals_u32", "u32")]
CONDS = ["local u32", "local u8", "pointer element s64", "parameter s16", "thread local u32", "computed u32", "computed u64", "returned u32", "literal0 u32", "literal1 u32", "computed f64", "logical not", "bit-field"] + ["compare %d" % i for i in range(len(COMPARE))]
def cond(b, k, m):
    if k.startswith("compare"):
        op, t = COMPARE[int(k[8:])]; b.e(*operand(b, m(["local", "computed", "pointer element", "parameter"]), t)); b.e(*operand(b, m(["local", "computed", "literal1", "global"]), t)); b.e((op,)); return
    if k == "logical not": b.e(*operand(b, m(["local", "computed"]), "u64")); b.e(("logical_not_u64",)); return
    if k == "bit-field": b.e(*place(b, m(["local", "global", "pointer element"]), "u32")); b.e(("load_bitfield", b.bitfield("u32", 5, 3))); return
    p, t = k.rsplit(" ", 1); b.e(*operand(b, p, t))
def logical(b, op, c1, c2, m):
    """c1 && c2 as the front end writes it"""
    j = "jump_if_false" if op == "and" else "jump_if_true"; l, end = b.label(), b.label(); t = b.obj(LOCAL, "s32")
    cond(b, c1, m) if isinstance(c1, str) else c1()
    b.e((j, l)); cond(b, c2, m) if isinstance(c2, str) else c2()
    x, y = (1, 0) if op == "and" else (0, 1)
    b.e((j, l), I(t), ("integer_literal", "s32", x, x), ("store",), ("pop_expression",), ("jump", end), ("jump_label", l), I(t), ("integer_literal", "s32", y, y), ("store",), ("pop_expression",), ("jump_label", end), I(t))
def ternary(b, t, c, x, y, m):
    l, end = b.label(), b.label(); o = b.obj(LOCAL, t); cond(b, c, m) if isinstance(c, str) else c()
    b.e(("jump_if_false", l), I(o)); b.e(*operand(b, x, t)) if isinstance(x, str) else x()
    b.e(("store",), ("pop_expression",), ("jump", end), ("jump_label", l), I(o)); b.e(*operand(b, y, t)) if isinstance(y, str) else y()
    b.e(("store",), ("pop_expression",), ("jump_label", end), I(o))
LIVE = ["local", "far local", "stack parameter", "thread local", "pointer element", "array element", "member deref", "global element", "computed", "returned", "comparison"]
def live(b, k, t, m):
    if k == "comparison": b.e(*operand(b, "local", "s32")); b.e(*operand(b, "local", "s32")); b.e(("smaller_s32",)); return
    b.e(*operand(b, k, t))
def check(rep):
    be = BackEnd(); full = sa.TIER == "thorough"
    def add(b, label, *ts, **k):
        if len(b.objs) > 14 or len(b.fns) > 8 or len(b.bfs) > 8: return
        b.add(be, label, **dict(opts(*ts), **k))
    # a condition with a value alive beneath it
    for k in LIVE:
        for c1 in CONDS:
            for kind in ("and", "or", "?:"):
                for t in ("u32", "u64", "f64", "f32"):
                    label = "%s %s alive beneath %s with %s" % (t, k, kind, c1); m = Mix(label)
                    if not full and m(range(4)) or k == "comparison" and t != "u32" or kind != "?:" and t != "u32": continue
                    b = B(t); live(b, k, t, m); c2 = m(CONDS)
                    if kind == "?:": ternary(b, t, c1, m(["local", "computed", "returned", "pointer element", "literal1"]), m(["local", "computed", "returned", "thread local", "literal0"]), m)
                    else: logical(b, kind, c1, c2, m)
                    b.e(("add_" + t,), ("return",)); add(b, label, t)
                    if k in LVALUES: # assignment through the lvalue beneath
                        b = B(t); b.e(*place(b, k, t))
                        if kind == "?:": ternary(b, t, c1, m(["local", "computed", "returned", "pointer element", "literal1"]), m(["local", "computed", "returned", "thread local", "literal0"]), m)
                        else: logical(b, kind, c1, c2, m)
                        b.e(("store",), ("return",)); add(b, "assignment to " + label, t)
    # several values alive
    for k1 in LIVE:
        for k2 in LIVE:
            for kind in ("and", "or", "?:", "call"):
                label = "%s and %s alive beneath %s" % (k1, k2, kind); m = Mix(label)
                if not full and m(range(2)): continue
                b = B("u32"); live(b, k1, "u32", m); live(b, k2, "u32", m)
                if kind == "?:": ternary(b, "u32", m(CONDS), "local", "computed", m)
                elif kind == "call": f = b.fn("u32", []); b.e(I(b.obj(FUNCTION, f)), ("function_call", f, 0))
                else: logical(b, kind, m(CONDS), m(CONDS), m)
                b.e(("add_u32",), ("subtract_u32",), ("return",)); add(b, label, "u32")
    # nesting
    for o1 in ("and", "or", "?:"):
        for o2 in ("and", "or", "?:"):
            for side in (0, 1, 2):
                for n in range(8 if full else 4):
                    label = "%s within %s, operand %d, variant %d" % (o2, o1, side, n); m = Mix(label); b = B("s32")
                    if side == 2 and o1 != "?:": continue
                    def inner():
                        if o2 == "?:": ternary(b, "s32", m(CONDS), m(["local", "computed"]), m(["local", "literal1"]), m)
                        else: logical(b, o2, m(CONDS), m(CONDS), m)
                    p = [inner if side == i else None for i in range(3)]
                    if n % 2: b.e(*operand(b, m(["local", "computed", "pointer element"]), "s32"))
                    if o1 == "?:": ternary(b, "s32", p[0] or m(CONDS), p[1] or m(["local", "computed"]), p[2] or m(["local", "returned"]), m)
                    else: logical(b, o1, p[0] or m(CONDS), p[1] or m(CONDS), m)
                    if n % 2: b.e(("xor_u32",))
                    b.e(("return",)); add(b, label, "s32", **({"floatmem": False}))
    # if, else, return in the middle
    for rt in ["u8", "s32", "u64", "f32", "f64", "void", 3, 8, 24]:
        for c in CONDS:
            for kind in ("if", "if else", "two ifs", "if not"):
                label = "%s with %s, returns %s" % (kind, c, rt); m = Mix(label)
                if not full and m(range(3)): continue
                b = B(); ty = b.struct(rt, 1) if isinstance(rt, int) else rt; b.fns[0] = (ty, [], 0)
                def ret(k):
                    g = b.obj(GLOBAL, "u32"); b.e(I(g), ("preinc_u32",), ("pop_expression",))
                    if rt == "void": b.e(("return",))
                    elif isinstance(rt, int): b.e(*place(b, k if k in ("local", "global", "deref") else "deref", ty)); b.e(("return",))
                    else: b.e(*operand(b, k, rt)); b.e(("return",))
                l = b.label(); cond(b, c, m); b.e(("jump_if_true" if kind == "if not" else "jump_if_false", l)); ret(m(["local", "computed", "global"]))
                if kind == "if else": end = b.label(); b.e(("jump", end))
                b.e(("jump_label", l))
                if kind == "if else": ret("local"); b.e(("jump_label", end))
                if kind == "two ifs": l2 = b.label(); cond(b, m(CONDS), m); b.e(("jump_if_false", l2)); ret("local"); b.e(("jump_label", l2))
                ret(m(["global", "deref", "computed"])); add(b, label, *(["u32"] if rt == "void" or isinstance(rt, int) else [rt]), **({"chunk": 1} if isinstance(rt, int) else {}))
    # loops of known length
    for n in (0, 1, 2, 3, 5):
        for kind in ("for", "while", "do", "continue", "break"):
            for t in ("u32", "u64", "f64"):
                for k in ("local", "global", "pointer element", "thread local", "returned"):
                    label = "%s loop, %d rounds, adds %s %s" % (kind, n, t, k); m = Mix(label); b = B(t); i = b.obj(LOCAL, "s32"); s = b.obj(LOCAL, t)
                    top, out, cont = b.label(), b.label(), b.label(); b.e(I(i), ("integer_literal", "s32", 0, 0), ("store",), ("pop_expression",)); b.e(("jump_label", top))
                    test = lambda: b.e(I(i), ("integer_literal", "s32", n, n), ("smaller_s32",))
                    if kind != "do": test(); b.e(("jump_if_false", out))
                    if kind == "continue": b.e(I(i), ("integer_literal", "s32", 1, 1), ("equals_u32",), ("jump_if_true", cont))
                    if kind == "break": b.e(I(i), ("integer_literal", "s32", 2, 2), ("equals_u32",), ("jump_if_true", out))
                    b.e(I(s), I(s)); b.e(*operand(b, k, t)); b.e(("add_" + t,), ("store",), ("pop_expression",), ("jump_label", cont), I(i), ("preinc_u32",), ("pop_expression",))
                    if kind == "do": test(); b.e(("jump_if_true", top))
                    else: b.e(("jump", top))
                    b.e(("jump_label", out), I(s), ("return",)); 
                    if k != "returned": add(b, label, t)
    # switch
    for t in ("s32", "u32", "s64", "u64"):
        classes = LITERALS[8 * SIZE[t]]
        for k in LVALUES + RVALUES:
            for shape in ("each returns", "falls through", "default first", "no default"):
                for n in (1, 2, 4):
                    label = "switch on %s %s, %d cases, %s" % (t, k, n, shape); m = Mix(label)
                    if not full and m(range(2)): continue
                    b = B("u32"); g = b.obj(GLOBAL, "u32"); d = b.label(); b.e(*operand(b, k, t)); b.e(("switch", d)); h = m(range(len(classes))); used = []
                    def effect(x): b.e(I(g), ("integer_literal", "u32", x, x), ("add_assignment_u32",), ("pop_expression",))
                    if shape == "default first": b.e(("jump_label", d)); effect(1000); b.e(*([("integer_literal", "u32", 99, 99), ("return",)] if m((0, 1)) else []))
                    for i in range(n):
                        lo, hi = classes[(h + i) % len(classes)]
                        if t[0] == "s": lo, hi = sx(lo, 8 * SIZE[t]) & mask(64), sx(hi, 8 * SIZE[t]) & mask(64)
                        b.e(("case", i, lo, hi)); effect(i + 1)
                        if shape == "each returns" or shape == "no default" and i % 2: b.e(("integer_literal", "u32", 10 + i, 10 + i), ("return",))
                    if shape != "default first": b.e(("jump_label", d))
                    if shape in ("each returns", "falls through"): effect(1000)
                    b.e(("integer_literal", "u32", 7, 7), ("return",)); add(b, label, t)
    be.judge(rep); rep.need("ir_templates", 1500)
    rep.explanation = EXPL; rep.assumptions = ASSUME
