"""The value of #if and #elif expressions."""
import itertools, multiprocessing
import sa
from cspec import *
LEVEL = "other"
STUBS = {"next_token": "__sa_stub__next", "get_current_token_for_error_report": "__sa_stub__current"}
STUBS.update({"parse_%s_literal" % k: "__sa_stub__literal" for k in ("base10", "hex", "octal", "binary", "character")})
TOK = {"+": "plus", "-": "minus", "*": "times", "/": "slash", "%": "mod", "&": "and", "|": "or", "^": "xor", "<<": "left_shift", ">>": "right_shift",
       "<": "smaller", ">": "bigger", "<=": "smaller_equals", ">=": "bigger_equals", "==": "logical_equals", "!=": "logical_unequals", "&&": "logical_and",
       "||": "logical_or", "~": "bitwise_not", "!": "logical_not", "?": "question_mark", ":": "colon", "(": "open_paren", ")": "closed_paren"}
LEVELS = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
PREC = {o: i for i, l in enumerate(LEVELS) for o in l}
# the operands: (token, number kind, class of values, type in the specification, conversion, values)
G63 = [x for x in int_grid(64) if x < 1 << 63]; GU63 = [x for x in int_grid(64) if x >= 1 << 63] + [1 << 63]
def leafof(kind, name):
    """(type, value) of a literal"""
    x = leaf(64, name); n = kind.split(":")[1]
    if n in ("int", "long", "long_long"): return "s64" if kind.endswith("low") else "u64", x
    if n in ("unsigned", "unsigned_long", "unsigned_long_long"): return "u64", x
    b = int(n[1:]); v = mk("trunc", b, x)
    if kind.startswith("character"): return ("s64", mk("sext", 64, v)) if n == "s8" else ("u64", mk("zext", 64, v))
    return ("s64" if n[0] == "s" else "u64"), mk("sext" if n[0] == "s" else "zext", 64, v)
CLASS = {"low": (1, G63), "high": (2, GU63), "any": (3, None), "byte": (4, list(range(256))), "word": (5, int_grid(16)), "dword": (6, int_grid(32))}
S = "base10:int:low"; U = "base10:unsigned:any"
LITERALS = ["base10:int:low", "base10:int:high", "hex:int:low", "hex:int:high", "octal:int:low", "binary:int:low", "base10:long:low", "hex:long:high", "base10:long_long:low", "hex:long_long:high", "octal:long_long:high",
            "base10:unsigned:any", "hex:unsigned:any", "octal:unsigned:any", "binary:unsigned:any", "base10:unsigned_long:any", "hex:unsigned_long_long:any",
            "base10:s8:any", "base10:s16:any", "base10:s32:any", "base10:s64:any", "hex:s64:any", "base10:u8:any", "base10:u16:any", "base10:u32:any", "base10:u64:any", "hex:u64:any",
            "character:s8:byte", "character:u16:word", "character:u32:dword"]

class Parser:
    """C grammar of constant expressions, evaluated with intmax_t/uintmax_t"""
    def __init__(s, toks): s.t = toks; s.i = 0; s.names = iter("abcdefgh"); s.grids = {}; s.undef = []; s.shifts = []
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s): s.i += 1; return s.t[s.i - 1]
    def cond(s):
        c = s.binary(0)
        if s.peek() != "?": return c
        s.next(); a = s.cond(); assert s.next() == ":"; b = s.cond()
        t = "u64" if "u64" in (a[0], b[0]) else "s64"
        return t, mk("select", 64, truth(c[1], c[0]), a[1], b[1])
    def binary(s, l):
        if l == len(LEVELS): return s.unary()
        x = s.binary(l + 1)
        while s.peek() in LEVELS[l]:
            o = s.next(); y = s.binary(l + 1)
            if o in ("/", "%"): s.undef.append((x, y))
            t, e = binary(o, x[0], x[1], y[0], y[1])
            if o in SHIFTS: s.shifts.append(e)
            x = ("s64", mk("zext", 64, e)) if t == "s32" else (t, e)
        return x
    def unary(s):
        t = s.next()
        if t == "(": v = s.cond(); assert s.next() == ")"; return v
        if t in "+-~!":
            ty, e = unary(t, *s.unary())
            return ("s64", mk("zext", 64, e)) if ty == "s32" else (ty, e)
        n = next(s.names); s.grids[n] = CLASS[t.split(":")[2]][1] or int_grid(64)
        return leafof(t, n)

def templates():
    for k in LITERALS:
        yield [k]; yield ["-", k]; yield [k, ">", S]; yield [k, "<", "-", S]; yield [k, "/", "-", S]; yield ["(", k, ")"]
    for u in "+-~!":
        for k in (S, U):
            yield [u, k]; yield [u, k, ">", "-", S]; yield [u, "(", k, ")"]
            for u2 in "+-~!": yield [u, u2, k]; yield [u, "(", u2, k, ")"]
    sg = list(itertools.product((S, U), repeat=2))
    for o in PREC:
        for a, b in sg:
            yield [a, o, b]; yield ["-", a, o, b]; yield [a, o, "-", b]
            yield ["(", a, o, b, ")", ">", "-", S]; yield ["-", S, "<", "(", "-", a, o, b, ")"]; yield ["(", "-", a, o, b, ")", "/", S]
        for u in "+-~!": yield [u, S, o, S]; yield [S, o, u, S]; yield [u, "(", S, o, S, ")"]
        yield [S, o, S, "?", S, ":", S]; yield [S, "?", S, o, S, ":", S]; yield [S, "?", S, ":", S, o, S]; yield ["(", S, "?", S, ":", S, ")", o, S]; yield [S, o, "(", S, "?", S, ":", S, ")"]
        for p in PREC:
            for a, b, c in ((S, S, S), (U, S, S), (S, U, S), (S, S, U)):
                yield [a, o, b, p, c]
            yield [S, o, "(", S, p, S, ")"]; yield ["(", S, o, S, ")", p, S]
    for a, b in sg:
        yield ["(", S, "?", "-", a, ":", b, ")", "<", S]; yield ["(", S, "?", a, ":", "-", b, ")", "<", S]; yield [S, "?", "-", a, ":", "-", b]
    q = [S]
    for x in ([S, "?", S, ":", S, "?", S, ":", S], [S, "?", S, "?", S, ":", S, ":", S], ["(", S, "?", S, ":", S, ")", "?", S, ":", S], [S, "?", "(", S, ")", ":", "(", S, ")"]): yield x
    for a, b, c in (("&&", "||", "&&"), ("||", "&&", "||"), ("+", "*", "-"), ("<", "==", "&&"), ("<<", "+", "<"), ("|", "&", "^"), ("||", "?:", "&&")):
        if b == "?:": yield [S, a, S, "?", S, ":", S, c, S]; continue
        yield [S, a, S, b, S, c, S]; yield ["(", S, a, S, ")", b, "(", S, c, S, ")"]; yield [S, a, "(", S, b, S, ")", c, S]; yield ["!", "(", S, a, S, b, S, ")", c, S]

def text(t): return " ".join(x if ":" not in x or len(x) == 1 else {S: "1", U: "1u"}.get(x, "<%s>" % x) for x in t)

def decide(x):
    t, results = x; out = []; key = "#if " + text(t)
    p = Parser(t); ty, want = p.cond(); assert p.i == len(t)
    g = p.grids; lim = 20000 if len(g) < 3 else 3000
    # the evaluation divides wherever a division is written; the compiler reports a division by zero, evaluated or not
    ok = None
    for (tx, dx), (td, d) in p.undef:
        c = mk("icmp.ne", 1, d, const(64, 0)); ok = c if ok is None else mk("and", 1, ok, c)
        if td == "s64" and tx == "s64":
            c = lognot(mk("and", 1, mk("icmp.eq", 1, d, const(64, -1)), mk("icmp.eq", 1, dx, const(64, 1 << 63)))); ok = mk("and", 1, ok, c)
    for r in results:
        got = None
        for n in r["nodes"]:
            pc = from_json(n["pc"]) if n.get("pc") else None
            if pc is not None and any(l.startswith("?") for l in leaves(pc)): out.append(("undecided", key, "unknown condition")); continue
            if n["k"] == "obs" and n["t"] == "value": got = (n["a"][0], pc, n["l"])
            elif n["k"] == "obs" and n["t"] == "read":
                if avint(n["a"][0]) != len(t) or avint(n["a"][1]) != 0: out.append(("violation", key + " extent", "%s of the %d tokens of the expression are read, %s operators are left over" % (avint(n["a"][0]), len(t), avint(n["a"][1]))))
            elif n["k"] == "prune":
                w = pc if ok is None or pc is None else mk("and", 1, pc, ok)
                if ok is not None and w is None: w = ok
                _, wit = differ(const(1, 0), const(1, 1), g, w, limit=lim)
                if wit: out.append(("violation", key + " rejected", "%s rejects an expression that has a value (%s): %s" % (n["l"], wit[0], n["t"].split("|", 1)[1])))
                else: out.append(("agreed", key, ""))
            elif n["k"] in ("assert", "panic"):
                _, wit = differ(const(1, 0), const(1, 1), g, pc, limit=lim)
                if wit: out.append(("violation", key + " assertion", "%s: the preprocessor's own check fails (%s) for %s" % (n["l"], n["t"], wit[0])))
            elif n["k"] == "div":
                a, b = av(n["a"][0]), av(n["a"][1])
                if a is None or b is None: out.append(("undecided", key, "division of unknown values")); continue
                trap = mk("icmp.eq", 1, b, const(b[1], 0))
                if n["t"][0] == "s": trap = mk("or", 1, trap, mk("and", 1, mk("icmp.eq", 1, b, const(b[1], -1)), mk("icmp.eq", 1, a, const(a[1], 1 << (a[1] - 1)))))
                _, wit = differ(const(1, 0), trap, g, pc, limit=lim, must=p.shifts)
                if wit: out.append(("violation", key + " trap", "%s: the preprocessor divides %s by %s itself, which traps for %s" % (n["l"], show(a), show(b), wit[0])))
                else: out.append(("agreed", key, ""))
        if got is None:
            if not any(n["k"] == "prune" for n in r["nodes"]): out.append(("undecided", key, "the analysis does not reach the result"))
            continue
        if r.get("budget") or r["unk_stores"]: out.append(("undecided", key, "imprecise")); continue
        e = av(got[0])
        if e is None or any(l.startswith("?") for l in leaves(e)): out.append(("undecided", key, "undetermined value")); continue
        w = got[1]
        if ok is not None: w = ok if w is None else mk("and", 1, w, ok)
        proved, wit = differ(want, e, g, w, limit=lim)
        if wit: out.append(("violation", key, "%s: the value should be %s but is %s, e.g. for %s: %s instead of %s" % (got[2], show(want), show(e), wit[0], sx_(wit[1]), sx_(wit[2]))))
        else: out.append(("proved" if proved else "agreed", key, ""))
    return out
def sx_(v): return v if isinstance(v, str) else v - (1 << 64) if v >> 63 else v

def check(rep):
    m = sa.build_module("pp.c")
    ty = sa.run_jobs(m, [{"query": "types", "id": "types"}])[0]["result"]["enums"]
    tok, nk = ty.get("token_type"), ty.get("number_kind")
    if not tok or not nk: raise sa.Broken("the enumerations token_type and number_kind are gone")
    def code(x):
        if x in TOK:
            if "TOKEN_" + TOK[x] not in tok: raise sa.Broken("no token for " + x)
            return tok["TOKEN_" + TOK[x]]
        a, b, c = x.split(":")
        return tok["TOKEN_%s_literal" % a] | nk["NUMBER_KIND_" + b] << 16 | CLASS[c][0] << 32
    ts = []; seen = set()
    for t in templates():
        if len(t) <= 15 and tuple(t) not in seen: seen.add(tuple(t)); ts.append(t)
    jobs = [dict(id=text(t), fn="h_static_if", args=[len(t)] + [code(x) for x in t] + [0] * (15 - len(t)), prune=["report_error", "report_syntax_error"], skip=["report_warning"], stub=STUBS, max_steps=400000) for t in ts]
    def unsettled(i, r):
        for n in r["nodes"]:
            if n["k"] == "obs" and n["t"] == "value": e = av(n["a"][0]); return e is None or any(l.startswith("?") for l in leaves(e))
            if n["k"] == "obs" and n["t"] == "read" and avint(n["a"][1]) is None: return True
        return not any(n["k"] in ("prune", "assert") for n in r["nodes"])
    res = sa.run_split(m, jobs, unsettled)
    for rs in res:
        for r in rs: rep.count("basic_blocks_interpreted", r["stat"].get("blocks", 0))
    rep.count("expression_templates", len(ts)); rep.count("cases_after_trace_partitioning", sum(map(len, res)))
    with multiprocessing.Pool(8) as p: outs = p.map(decide, list(zip(ts, res)), chunksize=32)
    for o in outs:
        for v, k, t in o:
            if v == "violation": rep.violation(k, t); rep.count("obligations_violated")
            elif v == "undecided": rep.undecide("%s: %s" % (k, t))
            elif v == "proved": rep.count("obligations_equal_by_normal_form")
            else: rep.count("obligations_equal_on_operand_classes")
    if len(rep.undecided) > 0.2 * len(ts): raise sa.Broken("%d of %d templates cannot be decided, e.g. %s" % (len(rep.undecided), len(ts), rep.undecided[:3]))
    rep.need("expression_templates", 2500)
    rep.explanation = """static_if_evaluate, which evaluates the expressions of #if and #elif, is compiled to LLVM IR from the current tree and abstractly
interpreted on token templates: every literal kind and suffix, every operator on every combination of signedness, every pair of binary operators,
prefix operators, parentheses and ?: in every position. The values of the literals stay symbolic. The value the function returns, as an expression over
the literals, is compared with the value that C11 6.10.1 gives the tokens (grouped by the C grammar, in intmax_t and uintmax_t): by normal form, or on the
boundary classes of the values. Divisions must not trap and an expression that has a value must not be rejected. Nothing is executed and no solver is used."""
    rep.assumptions = ["the tokens are those after macro expansion; defined, __has_include and identifiers are not part of the templates",
                       "a division by zero may be diagnosed even where it is not evaluated (a deliberate diagnostic of the compiler)",
                       "values whose normal forms differ are compared on boundary classes of 64-bit values"]
