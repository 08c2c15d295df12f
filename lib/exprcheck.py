"""Deciding a batch of expression templates: the meaning of the IR the parser produces against the C specification."""
import multiprocessing, os
import sa
from cspec import *
from fe import *

def lit(t): return FLOAT_LIT if isfloat(t) else INT_LIT
def opnd(c, t): return (lit(t) if c == "L" else VAR, t, 0)

def has_unknown(e):
    return e is not None and any(n.startswith("?") for n in leaves(e))

def spec_of(m):
    """(type, value, stored value of operand 0 or None)"""
    ops = m["operands"]; v = [operand(i, o) for i, o in enumerate(ops)]; w = m["what"]
    if w == "binary": t, e = binary(m["op"], v[0][0], v[0][1], v[1][0], v[1][1]); return t, e, None
    if w == "unary": t, e = unary(m["op"], *v[0]); return t, e, None
    if w == "cast": return m["to"], convert(v[0][1], v[0][0], m["to"]), None
    if w == "cond": t, e = conditional(v[0][1], v[0][0], v[1][1], v[1][0], v[2][1], v[2][0]); return t, e, None
    if w == "assign":
        t = v[0][0]
        if m["op"] == "=": e = convert(v[1][1], v[1][0], t)
        else: bt, b = binary(m["op"][:-1], v[0][0], v[0][1], v[1][0], v[1][1]); e = convert(b, bt, t)
        return t, e, e
    if w in ("pre", "post"):
        t = v[0][0]
        if t == "Bool": bt, b = "s32", (const(32, 1) if m["op"] == "++" else mk("zext", 32, lognot(truth(v[0][1], t))))
        else: bt, b = binary("+" if m["op"] == "++" else "-", t, v[0][1], "s32", const(32, 1))
        n = convert(b, bt, t); return t, n if w == "pre" else v[0][1], n
    if w == "three": # x op1 y op2 z grouped as C says
        a = v[0]; b = v[1]; c = v[2]
        if m["group"] == "left": t, e = binary(m["op"], *a, *b); t, e = binary(m["op2"], t, e, *c)
        else: t, e = binary(m["op2"], *b, *c); t, e = binary(m["op"], *a, t, e)
        return t, e, None
    if w == "prefix2": # op x op2 y
        t, e = unary(m["op"], *v[0]); t, e = binary(m["op2"], t, e, *v[1]); return t, e, None
    if w == "binprefix": # x op (op2 y)
        t, e = unary(m["op2"], *v[1]); t, e = binary(m["op"], *v[0], t, e); return t, e, None
    if w == "bincond": # (x op y) ? p : q   with the third operand p and the fourth q
        t, e = binary(m["op"], *v[0], *v[1]); t, e = conditional(e, t, v[2][1], v[2][0], v[3][1], v[3][0]); return t, e, None
    if w == "pointer":
        o = m["op"]; P = (PTR_LIT, PTR_VAR, PTR_OBJ)
        if o in COMPARE: return "s32", compare(o, "u64", v[0][1], v[1][1]), None
        if o in LOGIC: return "s32", mk("zext", 32, mk("and" if o == "&&" else "or", 1, truth(v[0][1], "u64"), truth(v[1][1], "u64"))), None
        if o == "!": return "s32", mk("zext", 32, lognot(truth(v[0][1], "u64"))), None
        if o in ("++", "--"):
            n = mk("add" if o == "++" else "sub", 64, v[0][1], const(64, element_size(ops[0])))
            return "ptr", n if m["form"] == 0 else v[0][1], n
        if o == "-" and ops[0][0] in P and ops[1][0] in P:
            return "s64", mk("sdiv", 64, mk("sub", 64, v[0][1], v[1][1]), const(64, element_size(ops[0]))), None
        (pt, p), (it, i), z = (v[0], v[1], element_size(ops[0])) if ops[0][0] in P else (v[1], v[0], element_size(ops[1]))
        d = mk("mul", 64, convert(i, it, "s64" if it != "u64" else "u64"), const(64, z))
        r = mk("add" if o[0] == "+" else "sub", 64, p, d)
        return "ptr", r, r if o in ("+=", "-=") else None
    if w == "bfread": t, e = m["rule"](v); return t, e, None
    if w in ("bfassign", "bfpre", "bfpost"):
        k, t, bw = ops[0]; bit, width = bw >> 8, bw & 255; st = leaf(bits(t), "a")
        if w == "bfassign":
            if m["op"] == "=": bt, b = v[1]
            else: bt, b = binary(m["op"][:-1], *v[0], *v[1])
            n = convert(b, bt, t)
        else: bt, b = binary("+" if m["op"] == "++" else "-", *v[0], "s32", const(32, 1)); n = convert(b, bt, t)
        new = bitfield_write(t, bit, width, st, n)
        val = st if w == "bfpost" else new   # the whole storage unit; reading the field out of it is the next operation
        return m.get("restype", "bf0"), val, new
    raise KeyError(w)

def defined(m):
    """a condition outside which C leaves the operation undefined although its expression evaluates (a wide shift count)"""
    if m["what"] == "binary" and m["op"] in SHIFTS:
        (t1, _), (t2, y) = [operand(i, o) for i, o in enumerate(m["operands"])]
        return mk("icmp.ult", 1, y, const(bits(t2), bits(promoted(t1)))) if bits(t2) > 8 or bits(promoted(t1)) < 128 else None
    if m["what"] == "assign" and m["op"] == "=" and m["operands"][0][1][0] == "u" and m["operands"][1][0] == FLOAT_LIT:
        t, x = operand(1, m["operands"][1]); return mk("fcmp.oge", 1, x, const(bits(t), 0))
    if m["what"] in ("assign", "bfassign") and m["op"] in ("/=", "%=") and m["operands"][1][0] == INT_LIT:
        t, x = operand(1, m["operands"][1]); return mk("icmp.ne", 1, x, const(bits(t), 0))   # division by the constant 0
    if m["what"] == "cast" and m["to"][0] == "u" and m["operands"][0][0] == FLOAT_LIT:
        # the compiler documents (by its own diagnostic) that it rejects negative constants here
        t, x = operand(0, m["operands"][0]); return mk("fcmp.oge", 1, x, const(bits(t), 0))
    return None

def pointee_size(m):
    objs = [o[2] for o in m["operands"] if o[0] == PTR_OBJ]
    def size(i):
        if i == 111 and objs: return objs[0]
        if i is None or not 101 <= i < 112: raise Bad("pointer type %s" % i)
        return SIZE[TYPES[i - 100]]
    return size

def must(m):
    """sub-expressions that are evaluated unconditionally: where they are undefined, everything is"""
    v = [operand(i, o) for i, o in enumerate(m["operands"])]
    if m["what"] == "three" and m["group"] == "left": return [binary(m["op"], *v[0], *v[1])[1]]
    # a division of constants by zero is diagnosed wherever it is written, evaluated or not
    if m["what"] == "three" and m["operands"][1][0] == INT_LIT: return [binary(m["op2"], *v[1], *v[2])[1]]
    if m["what"] == "bincond": return [binary(m["op"], *v[0], *v[1])[1]]
    return []

def decide(x):
    """-> list of (verdict, key, text); verdict: proved, agreed, undecided, violation"""
    m, r = x; out = []
    g = grids(m["operands"]); t, e, st = (None, None, None)
    try: t, e, st = spec_of(m)
    except Exception as ex: return [("undecided", m["label"], "no specification: %r" % ex)]
    key = m["label"]; mu = must(m); lim = 40000 if len(m["operands"]) < 3 else 4000
    site = r.raw["nodes"][0]["l"] if r.raw["nodes"] else ""
    for what, pc, l in r.errors:
        # a rejected expression: only where its value is undefined
        if m.get("may_reject"): continue
        if has_unknown(pc): out.append(("undecided", key, "rejected under an unknown condition: " + what)); continue
        d = defined(m)
        if d is not None: pc = d if pc is None else mk("and", 1, pc, d)
        ok, w = differ(e, const(e[1], 0), g, pc, must=mu, limit=lim); ok2, w2 = differ(e, const(e[1], 1), g, pc, must=mu, limit=lim)
        if w or w2: out.append(("violation", key + " rejected", "%s rejects an operation that has a value (operands %s): %s" % (l, (w or w2)[0], what)))
        else: out.append(("proved", key, "rejected only where undefined"))
    for what, pc, l in r.asserts:
        ok, w = differ(const(1, 1), const(1, 0), g, pc if not has_unknown(pc) else const(1, 0))
        if w: out.append(("violation", key + " assertion", "%s: the compiler's own check fails (%s) for operands %s" % (l, what, w[0])))
    for tag, a, pc, l in r.divs:
        nz, noov = avint(a[2]), avint(a[3])
        lhs, rhs = av(a[0]), av(a[1])
        if lhs is None or rhs is None: 
            if not (nz and noov): out.append(("undecided", key, "division of unknown operands at " + l))
            continue
        if nz and (noov or tag[0] == "u"): out.append(("proved", key, "")); continue
        w = lhs[1]
        # does the division trap in the compiler itself?
        trap = mk("icmp.eq", 1, rhs, const(w, 0))
        if tag[0] == "s" : trap = mk("or", 1, trap, mk("and", 1, mk("icmp.eq", 1, rhs, const(w, -1)), mk("icmp.eq", 1, lhs, const(w, 1 << (w - 1)))))
        _, wit = differ(const(1, 0), trap, g, pc if not has_unknown(pc) else None)
        if wit: out.append(("violation", key + " trap", "%s: the compiler divides %s by %s itself, which traps for operands %s" % (l, show(lhs), show(rhs), wit[0])))
        else: out.append(("agreed", key, ""))
    if r.result is None:
        if not r.errors and not r.asserts: out.append(("undecided", key, "the analysis does not reach the end of the expression"))
        return out
    if not r.precise: return out + [("undecided", key, "imprecise analysis")]
    if r.bad: return out + [("undecided", key, r.bad)]
    if getattr(r, "tokens_left", None) != 1: out.append(("violation", key + " extent", "the expression parser leaves %s of the tokens unread" % r.tokens_left)); return out
    if has_unknown(r.pc): pass
    try: v, fl, mem, mach = r.meaning(pointee_size(m))
    except Bad as b: return out + [("violation", key + " shape", "%s in: %s" % (b, r.text()))]
    if r.typename() != t: return out + [("violation", key + " type", "the result has type %s instead of %s (IR: %s)" % (r.typename(), t, r.text()))]
    if t == "bf0": t = m["operands"][0][1]
    if v is None or v[1] != bits(t): return out + [("violation", key + " width", "the result has %s bits, its type %s (IR: %s)" % (v and v[1], t, r.text()))]
    if fl != isfloat(t): return out + [("violation", key + " class", "the result is in the wrong register class (IR: %s)" % r.text())]
    for what, want, got in (("value", e, v), ("stored value", st, mach.declval(mem, 0) if st is not None else None)):
        if want is None: continue
        proved, w = differ(want, got, g, r.pc, must=mu, limit=lim)
        if w:
            if any(n.startswith("?") for n in leaves(got)) or has_unknown(r.pc): out.append(("undecided", key, "unknown inputs")); continue
            out.append(("violation", key, "%s should be %s but is %s, e.g. for %s: %s instead of %s (IR: %s)" % (what, show(want), show(got), w[0], w[1], w[2], r.text())))
        else: out.append(("proved" if proved else "agreed", key, ""))
    if st is None:
        for i, o in enumerate(m["operands"]):
            if i in mem and o[0] in (VAR, BITFIELD): out.append(("violation", key + " effect", "the expression modifies its operand (IR: %s)" % r.text()))
    return out

def judge(fe, rep, what="expression templates"):
    """runs the jobs of fe and reports"""
    res = fe.run()
    for _, r in res: rep.count("basic_blocks_interpreted", r.raw["stat"].get("blocks", 0))
    rep.count(what.replace(" ", "_"), len({m["label"] for m, _ in res})); rep.count("cases_after_trace_partitioning", len(res))
    with multiprocessing.Pool(8) as p:
        outs = p.map(decide_safe, [(m, strip(r)) for m, r in res], chunksize=64)
    seen = {}
    for (m, r), o in zip(res, outs):
        for v, k, t in o:
            if v == "violation": rep.violation(k, t); rep.count("obligations_violated")
            elif v == "undecided": rep.undecide("%s: %s" % (k, t))
            elif v == "proved": rep.count("obligations_equal_by_normal_form")
            else: rep.count("obligations_equal_on_operand_classes")
    total = rep.counts.get("obligations_equal_by_normal_form", 0) + rep.counts.get("obligations_equal_on_operand_classes", 0) + rep.counts.get("obligations_violated", 0)
    if len(rep.undecided) > 0.25 * max(1, total): raise sa.Broken("%d of %d obligations cannot be decided, e.g. %s" % (len(rep.undecided), total, rep.undecided[:3]))
    fns = set()
    for _, r in res: fns |= set(r.raw["visited"])
    rep.extra["functions_interpreted"] = len(set(rep.extra.get("function_names", [])) | fns)
    return res
def strip(r): return r
def decide_safe(x): return decide(x)
EXPL = """The repository's expression parser (parse_expression and everything it calls) is compiled to LLVM IR from the current
tree and abstractly interpreted (constants, symbolic values, known bits; joins at merges, trace partitioning on value-dependent
branches) on every operator/operand-type template; literal and variable values stay symbolic. The IR records left in the IR arena
are given their meaning as an expression over the operands and compared with the C specification: by normal form, or, when the
normal forms differ, on the boundary classes of the operand types. Nothing is executed and no solver is used."""
