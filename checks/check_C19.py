"""Statements run in the order and under the conditions C prescribes; names denote the innermost declaration in scope."""
import random
import sa
from sx import avint
from stmtsem import *
LEVEL = "other"
PUNCT = {"(": "open_paren", ")": "closed_paren", "{": "open_curly", "}": "closed_curly", "[": "open_index", "]": "closed_index", ";": "semicolon", ":": "colon", ",": "comma", "=": "equals", "*": "times"}
def code(tok, w):
    if w[0] == "@": return tok["TOKEN_identifier"] | ord(w[1]) << 16
    if w[0] == "#": return tok["TOKEN_base10_literal"] | int(w[1:]) << 16
    if w[0] == "%": return tok["TOKEN_character_literal"] | int(w[1:]) << 16
    if w[0] == '"': return tok["TOKEN_string_literal"] | 1 << 16
    return tok["TOKEN_" + (PUNCT.get(w) or {"_Static_assert": "static_assert"}.get(w, w))]
def source(words):
    out = []
    for w in words[2:]:
        if w[0] == "@": out.append(w[1])
        elif w[0] == "#": out.append(str(LITS[int(w[1:])]))
        elif w[0] == "%": out.append("(an %s)" % OPERANDS[int(w[1:])])
        elif w[0] == '"': out.append('"A"')
        else: out.append(w)
    return " ".join(out)
def many(n, seed):
    """many names in one scope, which the table of the scope has to keep apart"""
    r = random.Random(seed); names = [chr(c) for c in list(range(65, 91)) + list(range(105, 112)) + list(range(117, 123))][:n]; r.shuffle(names)
    w = ["@p", "@q", "{", "int"]
    for i, x in enumerate(names): w += ["@" + x] + ([","] if i < n - 1 else [";"])
    for x in r.sample(names, n): w += ["@" + x, ";"]
    w += ["{", "int", "@" + names[0], ",", "@" + names[n // 2], ";"]
    for x in r.sample(names, min(n, 6)) + [names[0], names[n // 2]]: w += ["@" + x, ";"]
    return w + ["}", "@" + names[0], ";", "}"]
def programs():
    for l in PICKED:
        for kind in (0, 1): yield ["@p", "@q"] + l.split(), kind, 255
        yield ["@p", "@q"] + l.split(), 0, 1
    for w in small(): yield w, 0, 255
    for n in (3, 4, 5, 8, 9, 16, 17):
        for h in (255, 7, 1, 0): yield many(n, n * 8 + h), 0, h
    deep = sa.TIER == "thorough"
    g = Generator(19 if not deep else 1019 + sa.SEED)
    for n in range(700 if not deep else 12000):
        kind = n % 3; w = g.program(g.r.choice([4, 8, 12, 16]), kind); h = g.r.choice([255, 255, 3, 0])
        yield w, kind, h
        yield g.disturb(w), kind, h
        if n % 2: yield g.disturb(g.disturb(w)), kind, h
def show(x):
    return {"name": lambda: "the object declared at token %d (%s bytes)" % x[1:3] if x[1] < 1000 else "the global %s" % "abcdefgh"[x[1] - 1000] if x[1] < 2000 else "an operand",
            "literal": lambda: "the literal %s" % x[1]}.get(x[0], lambda: x[0])()
def judge(r, words, kind, cast):
    key = r["id"]
    if any(c.startswith("recursion") for c in r.get("unk_calls", ())): return ("deep", None)
    if r.get("budget") or r.get("unk_stores") or any(c.startswith("recursion") for c in r.get("unk_calls", ())): return ("undecided", "imprecise")
    try: want = Reader(words, kind).code
    except Illegal: want = None
    rejected = None; obs = []
    for n in r["nodes"]:
        if n.get("pc") not in (None, [], 1): return ("undecided", "a condition at " + n["l"])
        if n["k"] in ("prune", "assert", "panic"):
            if rejected is None: rejected = n
        elif n["k"] == "end": rejected = rejected or n
        elif n["k"] == "obs": obs.append((n["t"],) + tuple(sa_int(a) for a in n["a"]) + (n["l"],))
    if rejected is not None and rejected["k"] in ("assert", "panic"): return ("violation", "the compiler's own check fails at " + rejected["l"])
    if want is None:
        return ("rejected", None) if rejected is not None else ("violation", "the compiler accepts it, but C does not allow it")
    if rejected is not None: return ("violation", "the compiler rejects it at %s" % rejected["l"])
    read = [o[1] for o in obs if o[0] == "read"]
    if read != [len(words) - 3]: return ("violation", "the compiler reads %s of %d tokens" % (read, len(words) - 3))
    prog = []; at = {}; store = {}; stack = None; arms = []
    for o in obs:
        k = o[0]
        if any(v is None for v in o[1:]): return ("undecided", "an undetermined value at " + o[-1])
        if k == "stack": stack = o[1]
        if k in ("read", "stack", "arm"):
            if k == "arm": arms.append(o)
            continue
        at[o[1]] = len(prog)
        if k == "name":
            prog.append(("name", o[2], o[3]))
            if o[5]: store[o[2]] = (o[5], o[3], o[4])
        elif k == "float": prog.append(("literal", None))
        elif k in ("literal", "jump", "label", "true", "false"): prog.append((k, o[2]))
        elif k == "switch": prog.append(["switch", {}, o[2], o[1]])
        elif k == "other": prog.append(("cast",) if o[2] in cast else ("node of kind %d" % o[2],))
        elif k == "skip": prog.append(("pop",))
        elif k == "end": prog.append(("end",))
        else: prog.append((k,))
    for a in arms:
        sw = prog[at[a[1]]]
        if a[2] not in at or prog[at[a[2]]] != ("case",): return ("violation", "an arm of the switch leads nowhere")
        sw[1][a[3]] = ("case", a[2])
    for p, i in at.items():
        if prog[i] == ("case",): prog[i] = ("label", ("case", p))
    prog = [("switch", c[1], c[2], 64) if c[0] == "switch" else c for c in prog]
    try: d = same(Program(prog), Program(want), show)
    except ValueError as e: return ("violation", "the code has %s" % e)
    if d: return ("violation", d)
    spans = sorted((off - size, off, k, al) for k, (off, size, al) in store.items() if k > 1)
    for i, (lo, hi, k, al) in enumerate(spans):
        if lo < 0 or hi > stack or hi % al: return ("violation", "the object declared at token %d lies at %d to %d of %d bytes of automatic storage, with alignment %d" % (k, lo, hi, stack, al))
        if i and spans[i - 1][1] > lo: return ("violation", "the objects declared at tokens %d and %d share storage" % (spans[i - 1][2], k))
    return ("agreed", len(prog))
def sa_int(a):
    return avint(a)
def check(rep):
    rep.explanation = ("Abstract interpretation of worker_parse_function with parse_statement, parse_imperative_scope, parse_declaration_list and the tables of declarations (main.c, parse.c) on function bodies given as tokens: every nesting of two "
        "compound statements around every way out, hand-picked bodies about scopes, labels and switches, generated bodies of up to some forty statements and the same with tokens lost, added, replaced or exchanged.  The resulting intermediate code is read as "
        "a program of references to declarations, literals, branches and switches, and compared by simulation, along all paths, with the program an independent reader of C statements makes of the same tokens.  Bodies that C forbids have to be rejected. "
        "Storage of the automatic objects has to be disjoint, aligned and inside the frame.")
    rep.assumptions = ["The reader of C statements in lib/stmtsem.py", "Expressions are single names, literals and comma lists delivered by a stand-in for parse_expression, which uses the compiler's own lookup (C01-C07 are about expressions, C17 and C18 about compound types and initializers)",
        "Left open: declarations as sub-statements and after labels, the same name twice in a scope (a warning here), `return` with a value in a void function, exceptions (__try), inline assembler, nested functions, gotos into the scope of other objects",
        "What the back end makes of the jumps is C13's business"]
    m = sa.build_module("st.c")
    ty = sa.run_jobs(m, [{"query": "types", "id": "t"}])[0]["result"]["enums"]
    tok = ty["token_type"]; kinds = next(e for n, e in ty.items() if "IR_jump_label" in e)
    cast = {v for k, v in kinds.items() if any(q in k for q in ("cast", "extend", "truncate", "convert", "load"))}
    jobs, meta = [], {}
    for words, kind, h in programs():
        if len(words) > 150 or not balanced(words): continue
        k = "%s %s%s" % (("int f(int p, int q)", "int main(int p, int q)", "void f(int p, int q)")[kind], source(words), "" if h == 255 else " [hashes of names & %d]" % h)
        if k in meta: continue
        try: Reader(words, kind)
        except Open: rep.count("left_open"); continue
        except Illegal: pass
        meta[k] = (words, kind)
        jobs.append(dict(id=k, fn="h_function", args=[len(words), kind, h], prune=["report_error", "report_syntax_error"], skip=["report_warning", "report_type_mismatch__internal", "push_format_string", "begin_error_report", "end_error_report"], max_steps=900000,
                         init={"h_in": [code(tok, w) for w in words], "h_lo": LITS, "h_hi": LITS},
                         stub={"parse_expression": "__sa_stub__operand", "parse_constant_integer_expression": "__sa_stub__literal", "maybe_report_error_for_stack_exhaustion": "__sa_stub__no_exhaustion", "ast_table_get": "__sa_stub__table_get",
                               "compilation_unit_is_static_table_lookup_whether_this_identifier_is_static": "__sa_stub__not_static", "function_maybe_add_line_information": "__sa_stub__line", "parse_asm_block": "__sa_stub__asm", "should_report_warning_for_token": "__sa_stub__quiet"}))
    rep.count("function_bodies", len(jobs))
    for r in sa.run_jobs(m, jobs):
        words, kind = meta[r["id"]]
        v, t = judge(r, words, kind, cast)
        rep.count("basic_blocks_interpreted", r["stat"]["blocks"])
        if v == "agreed": rep.count("bodies_equal"); rep.count("instructions_compared", t)
        elif v == "deep": rep.count("bodies_nested_too_deeply_for_the_analysis")
        elif v == "rejected": rep.count("bodies_rejected")
        elif v == "violation": rep.violation(r["id"], t)
        else: rep.undecide(r["id"] + ": " + t)
    rep.need("function_bodies", 1500); rep.need("bodies_equal", 800 if not rep.violations else 0); rep.need("bodies_rejected", 150 if not rep.violations else 0)
