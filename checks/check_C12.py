"""Back end: calls, arguments, results, and function entry and exit."""
from betpl import *
from check_C11 import sobj
LEVEL = "other"
TYS = ["Bool", "u8", "s16", "u32", "s32", "s64", "u64", "f32", "f64", "ptr"]
STRUCTS = (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 33, 40)
def push(b, t, k):
    """an argument of type t from k"""
    if t == "ptr": return [I(b.obj(LOCAL, "ptr"))] if k == "local" else [I(b.obj(LOCAL, b.struct(24))), ("load_address",)] if k == "computed" else operand(b, k, "u64")
    return operand(b, k, t)
def struct_arg(b, n, k): return sobj(b, k, b.struct(n, 1 if n % 8 else 8), n)
def callee(b, kind, f):
    if kind == "direct": return [I(b.obj(FUNCTION, f))]
    if kind == "dllimport": return [I(b.obj(IMPORTED_FUNCTION, f))]
    if kind == "computed": return [I(b.obj(LOCAL, "u64")), ("bitwise_not_u64",)]
    if kind == "returned": g = b.fn("u64", []); return [I(b.obj(FUNCTION, g)), ("function_call", g, 0)]
    return place(b, kind, "u64")
CALLEES = ["direct", "dllimport", "local", "parameter", "global", "thread local", "deref", "member", "member deref", "array element", "pointer element", "global element", "computed", "returned"]
def finish_call(b, f, n, ret):
    b.e(("function_call", f, n), ("pop_expression",) if ret == "void" else ("return",))
class Mix:
    """a deterministic choice among alternatives"""
    def __init__(s, label): s.h = zlib.crc32(label.encode()) or 1
    def __call__(s, xs): s.h = (s.h * 1103515245 + 12345) & 0x7fffffff; return xs[(s.h >> 8) % len(xs)]
KINDS = ["local", "computed", "stack parameter", "global", "pointer element", "thread local", "literal0", "literal1", "returned", "member deref"]
def check(rep):
    be = BackEnd(); full = sa.TIER == "thorough"
    # one argument of interest at each position, the others are plain
    for t in TYS:
        for pos in range(6):
            for k in KINDS:
                for ret in ("void", "u32", "f64"):
                    label = "argument %d of type %s from %s, returns %s" % (pos, t, k, ret); m = Mix(label)
                    if not full and m((0, 1, 2)): continue
                    if t == "ptr" and k.startswith("literal"): continue
                    n = pos + m((1, 2)); b = B(ret); tys = [t if i == pos else m(TYS) for i in range(n)]; f = b.fn(ret, tys); b.e(*callee(b, "direct", f))
                    for i in range(n): b.e(*push(b, tys[i], k if i == pos else m(["local", "computed"])))
                    if len(b.objs) > 12: continue
                    finish_call(b, f, n, ret); b.add(be, label, **opts(*[x for x in tys if x != "ptr"]))
    # pairs of argument kinds: loading one must not disturb the other
    for n in (2, 3, 4, 5, 6):
        for k1 in KINDS:
            for k2 in KINDS:
                for t1, t2 in (("u64", "u32"), ("f64", "u64"), ("u32", "f32"), ("f64", "f32")):
                    label = "%d arguments, %s %s and %s %s in turn" % (n, t1, k1, t2, k2)
                    if not full and Mix(label)(range(4)): continue
                    b = B(t1); tys = [t1 if i % 2 else t2 for i in range(n)]; f = b.fn(t1, tys); b.e(*callee(b, "direct", f))
                    for i in range(n): b.e(*push(b, tys[i], (k1 if i % 2 else k2) if not (k1 == k2 == "returned") or i < 3 else "local"))
                    if len(b.objs) > 13 or len(b.fns) > 8: continue
                    finish_call(b, f, n, t1); b.add(be, label, **opts(t1, t2))
    # nested calls as arguments
    for outer in range(1, 6):
        for t in ("u32", "u64", "f64", "f32"):
            for depth in (1, 2, 3):
                label = "nested calls: %d arguments of type %s, depth %d" % (outer, t, depth); b = B(t); fs = [b.fn(t, [t] * outer) for _ in range(depth + 1)]
                def go(d):
                    b.e(I(b.obj(FUNCTION, fs[d])))
                    for i in range(outer):
                        if d < depth and i == outer // 2: go(d + 1)
                        else: b.e(*push(b, t, "literal1" if len(b.objs) > 9 else ("local", "computed")[i % 2]))
                    b.e(("function_call", fs[d], outer))
                go(0)
                if len(b.objs) > 13: continue
                b.e(("return",)); b.add(be, label, **opts(t))
    # callees of every kind
    for ck in CALLEES:
        for n in range(0, 6):
            for k in ("local", "computed", "pointer element", "literal1", "returned"):
                for ret in ("u64", "f32"):
                    label = "callee %s, %d arguments from %s, returns %s" % (ck, n, k, ret)
                    if not full and n and Mix(label)(range(2)): continue
                    b = B(ret); tys = [["u64", "f64", "u32", "f32", "u8"][i] for i in range(n)]; f = b.fn(ret, tys); b.e(*callee(b, ck, f))
                    for i in range(n): b.e(*push(b, tys[i], k))
                    if len(b.objs) > 13 or len(b.fns) > 8: continue
                    finish_call(b, f, n, ret); b.add(be, label, **opts(*tys, ret))
    # struct arguments and struct results
    for n in STRUCTS:
        for pos in range(0, 6):
            for k in ("local", "global", "member deref", "parameter", "returned", "array element", "pointer element"):
                label = "struct argument of %d bytes at %d from %s" % (n, pos, k)
                if not full and Mix(label)(range(4)): continue
                b = B("u32"); st = b.struct(n, 1 if n % 8 else 8); cnt = pos + 1 + (n + pos) % 2; tys = [st if i == pos else ("u32", "f64")[i % 2] for i in range(cnt)]; f = b.fn("u32", tys); b.e(*callee(b, "direct", f))
                for i in range(cnt): b.e(*(struct_arg(b, n, k) if i == pos else push(b, tys[i], ("local", "computed")[i // 2 % 2])))
                finish_call(b, f, cnt, "u32"); b.add(be, label, chunk=1)
        for args in range(0, 6):
            for use in ("assign", "member", "argument", "discard", "return"):
                label = "struct result of %d bytes, %d arguments, %s" % (n, args, use)
                if not full and Mix(label)(range(3)): continue
                b = B("u8"); st = b.struct(n, 1 if n % 8 else 8)
                if use == "return": b.fns[0] = (st, [], 0)
                tys = [("u32", "f64", "u64", "f32")[i % 4] for i in range(args)]; f = b.fn(st, tys)
                if use == "assign": b.e(I(b.obj(LOCAL, st)))
                if use == "argument": g = b.fn("u8", [st]); b.e(I(b.obj(FUNCTION, g)))
                b.e(*callee(b, ("direct", "local", "dllimport")[args % 3], f))
                for i in range(args): b.e(*push(b, tys[i], ("local", "computed", "literal1")[i % 3]))
                b.e(("function_call", f, args))
                b.e(*{"assign": [("store",), ("pop_expression",)], "member": [("member", b.member("u8", n - 1)), ("return",)], "argument": [("function_call", len(b.fns) - 1, 1), ("return",)], "discard": [("pop_expression",)], "return": [("return",)]}[use]); b.add(be, label, chunk=1)
        for a2 in STRUCTS:
            label = "two struct arguments of %d and %d bytes" % (n, a2)
            if not full and Mix(label)(range(2)): continue
            b = B("u32"); s1 = b.struct(n, 1); s2 = b.struct(a2, 1); f = b.fn("u32", ["u32", s1, s2, "u64"]); b.e(*callee(b, "direct", f)); b.e(*push(b, "u32", "local")); b.e(*struct_arg(b, n, "global")); b.e(*struct_arg(b, a2, "local")); b.e(*push(b, "u64", "computed")); finish_call(b, f, 4, "u32"); b.add(be, label, chunk=1)
    # variable arguments
    for fixed in range(1, 4):
        for extra in range(1, 6):
            for t in ("u32", "u64", "f64", "ptr", 3, 8, 16):
                for k in ("local", "computed", "pointer element", "literal1", "returned"):
                    for big in (0, 1):
                        label = "%d variable arguments %s from %s after %d%s" % (extra, t, k, fixed, ", struct result" if big else "")
                        if not full and Mix(label)(range(6)): continue
                        if isinstance(t, int) and k == "computed" or k == "literal1" and not isinstance(t, str) or t == "ptr" and k != "local": continue
                        b = B("u32"); ret = b.struct(24) if big else "u32"; tys = ["u64"] * fixed; f = b.fn(ret, tys, 1); b.e(*callee(b, "direct", f)); va = []
                        for i in range(fixed): b.e(*push(b, "u64", "local"))
                        for i in range(extra):
                            x = t if i % 2 == 0 else ("f64", "u32")[i // 2 % 2]; va.append(b.struct(x, 1) if isinstance(x, int) else x)
                            b.e(*(struct_arg(b, x, k) if isinstance(x, int) else push(b, x, k)))
                        if len(b.objs) > 13 or len(b.fns) > 8: continue
                        b.e(("function_call", f, fixed + extra)); b.e(*([("pop_expression",)] if big else [("return",)])); b.add(be, label, vararg_types=tys + va, chunk=1 if isinstance(t, int) else 4 if t == "u32" else 8)
    # values that live across a call
    for t in ("u32", "u64", "f32", "f64"):
        add = "add_" + t
        for k in LVALUES + RVALUES:
            for n in (0, 1, 4, 5):
                b = B(t); f = b.fn(t, [t] * n); b.e(*operand(b, k, t)); b.e(*operand(b, "computed", t)); b.e((add,)); b.e(*callee(b, "direct", f))
                for i in range(n): b.e(*push(b, t, ("local", "literal1", "computed", "literal0", "literal1")[i]))
                if len(b.objs) > 13: continue
                b.e(("function_call", f, n), (add,), ("return",)); b.add(be, "value of %s %s lives across a call with %d arguments" % (t, k, n), **opts(t))
                b = B(t); f = b.fn(t, [t] * n); b.e(*operand(b, k, t)) if k in LVALUES else None
                if k in LVALUES:
                    b.e(*callee(b, "direct", f))
                    for i in range(n): b.e(*push(b, t, ("local", "literal1", "computed", "literal0", "literal1")[i]))
                    b.e(("function_call", f, n), ("store",), ("return",)); b.add(be, "%s %s is assigned the result of a call with %d arguments" % (t, k, n), **opts(t))
    # function entry: parameters of every type at every position; exit
    for t in TYS + list(STRUCTS):
        for pos in range(6):
            for ret in ("same", "u32", "f64", "big"):
                for va in (0, 1):
                    label = "parameter %d of type %s, returns %s%s" % (pos, t, ret, ", variable arguments" if va else ""); m = Mix(label)
                    if not full and m(range(2)): continue
                    b = B(); ty = b.struct(t, 1) if isinstance(t, int) else t; tys = [m(TYS) for i in range(pos)] + [ty] + [m(TYS) for i in range(m((0, 1)))]
                    r = {"same": ty, "big": b.struct(24)}.get(ret, ret); b.fns[0] = (r, [], va)
                    ps = [b.obj(PARAM, x) for x in tys]
                    if ret == "same": b.e(I(ps[pos]), ("return",))
                    elif ret == "big": b.e(I(b.obj(GLOBAL, r)), ("return",))
                    else: b.e(*literal(ret, 1)); b.e(("return",))
                    b.add(be, label, chunk=1 if isinstance(t, int) else 4 if t in ("u32", "s32", "f32") else 8)
    for n in STRUCTS:
        for k in ("local", "global", "member deref", "parameter", "returned", "array element", "pointer element", "far member", "thread local", "dllimport"):
            b = B(); st = b.struct(n, 1); b.fns[0] = (st, [], 0); b.e(*sobj(b, k, st, n)); b.e(("return",)); b.add(be, "returns %d bytes from %s" % (n, k), chunk=1)
    for t in TYS:
        for k in LVALUES + RVALUES:
            if t == "ptr" and k in RVALUES: continue
            b = B(t); b.e(*(place(b, k, t) if k in LVALUES else operand(b, k, t))); b.e(("return",)); b.add(be, "returns %s %s" % (t, k), **opts(t))
    be.judge(rep); rep.need("ir_templates", 2500)
    rep.explanation = EXPL; rep.assumptions = ASSUME
