"""Back end: addresses of objects, members and elements; struct copies; initializers."""
from betpl import *
LEVEL = "other"
SIZES = (3, 5, 6, 7, 9, 12, 15, 16, 24, 40, 100, 257)
def sobj(b, kind, st, n):
    """ops that push a struct object"""
    if kind in LVALUES and not kind.endswith("element") and kind != "constant address": 
        if kind == "member": return [I(b.obj(LOCAL, b.struct(400))), ("member", b.member(st, 16))]
        if kind == "member deref": return [I(b.obj(PARAM, "ptr")), ("member_deref", b.member(st, 24))]
        if kind == "far member": return [I(b.obj(GLOBAL, b.struct(4096))), ("member", b.member(st, 1024))]
        return place(b, kind, st)
    if kind == "returned": f = b.fn(st, []); return [I(b.obj(FUNCTION, f)), ("function_call", f, 0)]
    if kind == "pointer element": return [I(b.obj(LOCAL, "ptr")), I(b.obj(PARAM, "s64")), ("pointer_subscript", st)]
    if kind == "array element": return [I(b.obj(LOCAL, b.struct(8 * n, 1, 1, n))), I(b.obj(LOCAL, "s64")), ("array_subscript", st)]
    raise KeyError(kind)
PLACES = ["local", "far local", "parameter", "stack parameter", "global", "dllimport", "thread local", "deref", "member", "member deref", "far member", "pointer element", "array element"]
INDEX = {"local": lambda b: [I(b.obj(LOCAL, "s64"))], "computed": lambda b: [I(b.obj(PARAM, "u64")), ("bitwise_not_u64",)], "constant": lambda b: [("integer_literal", "s64", 3, 3)],
         "negative": lambda b: [("integer_literal", "s64", (1 << 64) - 2, (1 << 64) - 2)], "large": lambda b: [("integer_literal", "s64", 0x30000000, 0x30000000)], "sum": lambda b: [I(b.obj(LOCAL, "s64")), I(b.obj(GLOBAL, "s64")), ("add_u64",)]}
BASES = {"local": lambda b: [I(b.obj(LOCAL, "ptr"))], "parameter": lambda b: [I(b.obj(PARAM, "ptr"))], "global": lambda b: [I(b.obj(GLOBAL, "ptr"))], "thread local": lambda b: [I(b.obj(TLS, "ptr"))],
         "computed": lambda b: [I(b.obj(LOCAL, "u64")), I(b.obj(GLOBAL, "u64")), ("add_u64",)], "address": lambda b: [I(b.obj(GLOBAL, b.struct(512))), ("load_address",)], "address of local": lambda b: [I(b.obj(LOCAL, b.struct(96))), ("load_address",)],
         "member": lambda b: [I(b.obj(PARAM, "ptr")), ("member_deref", b.member("ptr", 8))], "element": lambda b: [I(b.obj(GLOBAL, "ptr")), I(b.obj(LOCAL, "s64")), ("pointer_subscript", 100)], "dllimport": lambda b: [I(b.obj(IMPORT, "ptr"))]}
def check(rep):
    be = BackEnd(); full = sa.TIER == "thorough"; i = 0
    # addresses
    for t in ("u8", "s32", "u64", "f64"):
        for k in LVALUES:
            if k == "constant address": continue
            b = B("u64"); b.e(*place(b, k, t)); b.e(("load_address",), ("return",)); b.add(be, "address of %s %s" % (t, k))
            b = B("u64"); b.e(*place(b, k, t)); b.e(("integer_literal", "s32", 3, 3), ("load_address_lhs",), ("pop_expression",), ("return",)); b.add(be, "address (lhs) of %s %s" % (t, k))
    # every displacement around the sizes of its encodings
    for off in list(range(-3, 4)) + list(range(120, 137)) + list(range(248, 262)) + [511, 512, 0x7ff0, 0x8000, 0xfff8, 0x10000, 0x7ffff0]:
        for t in ("u8", "u32", "u64", "f32"):
            i += 1
            if off < 0: continue
            for nm, mk_ in (("member", lambda b: [I(b.obj(LOCAL, "ptr")), ("member_deref", b.member(t, off))]), ("member of member", lambda b: [I(b.obj(GLOBAL, b.struct(off + 24))), ("member", b.member(b.struct(off + 16), 4)), ("member", b.member(t, off))]),
                            ("element", lambda b: [I(b.obj(PARAM, "ptr")), ("integer_literal", "s64", off, off), ("pointer_subscript", t)]), ("element before", lambda b: [I(b.obj(PARAM, "ptr")), ("integer_literal", "s64", (1 << 64) - off, (1 << 64) - off), ("pointer_subscript", t)])):
                if nm == "member of member" and off > 0x10000 or nm != "member" and not (full or i % 3 == 0) or nm == "element before" and not off: continue
                b = B(t); b.e(*mk_(b)); b.e(("return",)); b.add(be, "%s of %s at %d" % (nm, t, off), **opts(t))
    # the same with a base and an index register
    for off in list(range(0, 4)) + list(range(120, 137)) + [255, 256, 257, 0x7fff, 0x8000]:
        for t in ("u8", "u32", "u64", "f32"):
            for bk in ("local", "parameter", "computed", "address of local"):
                b = B(t); st = b.struct(off + 8, 1); b.e(*BASES[bk](b)) if bk != "address of local" else b.e(I(b.obj(LOCAL, b.struct(8 * (off + 8) + 8))), ("load_address",)); b.e(*INDEX["local"](b)); b.e(("pointer_subscript", st), ("member", b.member(t, off)), ("return",)); b.add(be, "%s at %d in element of %s" % (t, off, bk), **opts(t))
            b = B("u64"); ar = b.struct(off + 64, 1); b.e(I(b.obj(PARAM, "ptr")), ("member_deref", b.member(b.struct(64, 1, 1, 8), off)), *INDEX["local"](b), ("array_subscript", t), ("load_address",), ("return",)); b.add(be, "element of the array of %s at %d" % (t, off), **opts(t))
            b = B("u64"); b.e(I(b.obj(LOCAL, b.struct(off + 72))), ("member", b.member(b.struct(64, 1, 1, 8), off)), *INDEX["local"](b), ("array_subscript", t), ("load_address",), ("return",)); b.add(be, "element of the local array of %s at %d" % (t, off), **opts(t))
    for off in list(range(8, 300, 4)) + [0x1000, 0xffc, 0x7ffc]: # locals near and far; the frame is larger than a page for some
        b = B("u32"); o = b.obj(LOCAL, "u32", off); b.e(I(o), I(b.obj(PARAM, "u32")), ("store",), ("pop_expression",), I(o), ("return",)); b.add(be, "local at -%d" % off, chunk=4)
    # pointers and indices of every kind
    for t in ["u8", "u16", "s32", "u64", "f32", "f64"]:
        for bk in BASES:
            b = B(t); b.e(*BASES[bk](b)); b.e(("deref", t), ("return",)); b.add(be, "deref of %s to %s" % (bk, t), **opts(t))
            for ik in INDEX:
                i += 1
                if not (full or i % 2) or bk == "address of local" and ik in ("large", "negative"): continue
                b = B(t); b.e(*BASES[bk](b)); b.e(*INDEX[ik](b)); b.e(("pointer_subscript", t), ("return",)); b.add(be, "element of %s, pointer %s, index %s" % (t, bk, ik), **opts(t))
    for n in (3, 5, 6, 7, 9, 12, 16, 24, 40, 100, 4097, 8, 4, 2, 1):
        for bk in BASES:
            for ik in INDEX:
                i += 1
                if not (full or i % 3 == 0) or bk == "address of local" and ik in ("large", "negative", "constant"): continue
                b = B("u8"); st = b.struct(n, 1); b.e(*BASES[bk](b)); b.e(*INDEX[ik](b)); b.e(("pointer_subscript", st), ("member", b.member("u8", n - 1)), ("return",)); b.add(be, "element of %d bytes, pointer %s, index %s" % (n, bk, ik), chunk=1)
        for ok in ("local", "global", "thread local", "member deref", "parameter", "dllimport"):
            for ik in INDEX:
                i += 1
                if not (full or i % 3 == 0) or ik in ("large", "negative"): continue
                b = B("u64"); st = b.struct(n, 1); ar = b.struct(8 * n + 16, 8, 1, n); b.e(*sobj(b, ok, ar, n)); b.e(*INDEX[ik](b)); b.e(("array_subscript", st), ("member", b.member("u8", n - 1)), ("load_address",), ("return",)); b.add(be, "array element of %d bytes, %s, index %s" % (n, ok, ik))
    # elements of elements, chains of members
    for n1, n2 in ((4, 40), (8, 24), (2, 6), (1, 16), (12, 48), (8, 64)):
        for ok in ("local", "global", "member deref"):
            for i1 in ("local", "computed", "constant"):
                for i2 in ("local", "computed", "constant", "sum"):
                    b = B("u64"); inner = b.struct(n1, 1); row = b.struct(n2, 1, 1, n1); b.e(*sobj(b, ok, b.struct(8 * n2, 8, 1, n2), n2)); b.e(*INDEX[i1](b)); b.e(("array_subscript", row)); b.e(*INDEX[i2](b)); b.e(("array_subscript", inner), ("load_address",), ("return",)); b.add(be, "element of %d bytes of a row of %d, %s, indices %s %s" % (n1, n2, ok, i1, i2))
    for chain in range(2, 5):
        b = B("u32"); b.e(I(b.obj(LOCAL, "ptr"))); b.e(*[("member_deref", b.member("ptr", 8 * k)) for k in range(chain)]); b.e(("member_deref", b.member("u32", 4)), ("return",)); b.add(be, "chain of %d pointers" % chain, chunk=8)
    # struct copies
    for n in SIZES + (1, 2, 4, 8):
        for p in PLACES:
            for v in PLACES + ["returned"]:
                i += 1
                if not (full or i % 4 == 0): continue
                b = B("void"); st = b.struct(n, 1 if n % 8 else 8); b.e(*sobj(b, p, st, n)); b.e(*sobj(b, v, st, n)); b.e(("store",), ("pop_expression",)); b.add(be, "copy %d bytes: %s = %s" % (n, p, v))
        for v in PLACES:
            b = B("void"); st = b.struct(n, 1 if n % 8 else 8); b.e(*sobj(b, "local", st, n)); b.e(*sobj(b, "global", st, n)); b.e(*sobj(b, v, st, n)); b.e(("store",), ("store",), ("pop_expression",)); b.add(be, "copy %d bytes: a = b = %s" % (n, v))
        # initializers
        for off in (0, 8, 24):
            for v in ("global", "parameter", "deref", "returned"):
                b = B("void"); st = b.struct(n, 1); o = b.obj(LOCAL, b.struct(400)); b.e(I(o)); b.e(*sobj(b, v, st, n)); b.e(("initializer", st, off), ("pop_expression",)); b.add(be, "initializer of %d bytes at %d from %s" % (n, off, v))
        b = B("void"); st = b.struct(n, 1); g = b.obj(GLOBAL, st); o = b.obj(LOCAL, st); b.e(I(g), ("compound_literal", o), ("store",), ("pop_expression",)); b.add(be, "compound literal of %d bytes" % n)
    for t in ("Bool", "u8", "s16", "u32", "s64", "f32", "f64"):
        for v in operands(t):
            for off in (0, 12 if SIZE[t] < 8 else 16, 40):
                i += 1
                if not (full or i % 2): continue
                b = B("void"); st = b.struct(64); o = b.obj(LOCAL, st); g = b.obj(GLOBAL, st); b.e(I(g), ("compound_literal", o)); b.e(*operand(b, v, t)); b.e(("initializer", t, off), ("store",), ("pop_expression",)); b.add(be, "compound literal with a %s at %d from %s" % (t, off, v), **opts(t))
    for t, bit, width in (("u32", 3, 5), ("s32", 0, 7), ("u64", 31, 30), ("u8", 2, 6), ("u16", 0, 16)):
        for v in ("parameter", "computed", "literal1"):
            b = B("void"); st = b.struct(16); o = b.obj(LOCAL, st); g = b.obj(GLOBAL, st); bf = b.bitfield(t, bit, width); b.e(I(g), ("compound_literal", o)); b.e(*operand(b, v, t)); b.e(("initializer", bf, 8), ("store",), ("pop_expression",)); b.add(be, "compound literal with a bit-field %s:%d at %d from %s" % (t, width, bit, v), **opts(t))
    # one lvalue used twice
    for t in ("u8", "s32", "u64", "f32"):
        wide = {"u8": "u32", "s32": "u32"}.get(t, t)
        for p in LVALUES:
            for v in ("local", "computed", "returned", "literal1"):
                b = B("void"); b.e(*operand(b, p, t)); b.e(*operand(b, v, wide if t != "s32" else "s32")); b.e(("duplicate_lhs",))
                if t == "u8": b.e(("zero_extend_u8_to_u32_lhs",))
                b.e(("add_" + wide,)); 
                if t == "u8": b.e(("truncate_to_u8",)) if "truncate_to_u8" else None
                b.e(("store",), ("pop_expression",)); b.add(be, "%s used twice: %s, %s" % (t, p, v), **opts(t, wide))
    be.judge(rep); rep.need("ir_templates", 2500)
    rep.explanation = EXPL; rep.assumptions = ASSUME
