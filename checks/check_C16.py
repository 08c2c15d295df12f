"""Declaration specifiers and declarators denote the types C gives them."""
import itertools, multiprocessing, random
from collections import Counter
import sa
from tysem import *
LEVEL = "other"
# the valid combinations of type specifiers (C11 6.7.2 and Microsoft's sized integers), as unordered lists
COMB = {"void": "void", "Bool": "Bool", "float": "f32", "double": "f64", "long double": "f64", "char": "s8", "signed char": "s8", "unsigned char": "u8"}
for sg in ("", "signed", "unsigned"):
    p = "u" if sg == "unsigned" else "s"
    for k, n in (("short", 16), ("long", 32), ("long long", 64)):
        for i in ("", "int"): COMB[" ".join((sg + " " + k + " " + i).split())] = p + str(n)
    if sg: COMB[sg] = p + "32"
    COMB[(sg + " int").strip()] = p + "32"
    for n in (8, 16, 32, 64): COMB[(sg + " int%d" % n).strip()] = p + str(n)
TABLE = {tuple(sorted(k.split())): v for k, v in COMB.items()}
WORDS = ["void", "Bool", "char", "short", "int", "long", "signed", "unsigned", "float", "double", "int8", "int16", "int32", "int64"]
QUAL = ["const", "volatile"]
FLAG = {"typedef": "SPECIFIER_typedef", "extern": "SPECIFIER_extern", "static": "SPECIFIER_static", "register": "SPECIFIER_register", "thread_local": "SPECIFIER_thread_local", "noreturn": "SPECIFIER_noreturn"}

class Case:
    """words, mode, what is expected: None for an invalid declaration"""
    def __init__(s, x, mode, want, name=0, flags=0, align=0, extra=()): s.x = x; s.mode = mode; s.want = want; s.name = name; s.flags = flags; s.align = align; s.extra = extra

def spec_cases(flagv, atomic):
    def case(words, want, **k): x = Text(); x.add(" ".join(words)); return Case(x, k.pop("mode", 0), want, **k)
    for n in (1, 2, 3):
        for s in itertools.product(WORDS, repeat=n):
            yield case(s, ("b", TABLE[tuple(sorted(s))]) if tuple(sorted(s)) in TABLE else None)
    for s in itertools.product(["char", "short", "int", "long", "unsigned", "signed", "double"], repeat=4):
        t = TABLE.get(tuple(sorted(s)))
        if t or len(set(s)) < 4: yield case(s, ("b", t) if t else None)
    # qualifiers and storage classes at every place
    for k, v in sorted(TABLE.items()):
        for p in set(itertools.permutations(k)):
            for q in QUAL:
                for i in range(len(p) + 1): yield case(p[:i] + (q,) + p[i:], ("b", v))
            for f, fn in FLAG.items():
                for i in range(len(p) + 1): yield case(p[:i] + (f,) + p[i:], ("b", v), flags=flagv[fn])
            if v in atomic:
                for i in range(len(p) + 1): yield case(p[:i] + ("atomic",) + p[i:], ("atomic", v))
                yield case(("atomic", "(") + p + (")",), ("atomic", v)); yield case(("const", "atomic", "(") + p + (")",), ("atomic", v))
    # typedef names; a type specifier makes a following typedef name the declared name
    for i in range(4):
        t = "@" + "TUVW"[i]
        yield case((t,), ("t", i)); yield case(("const", t), ("t", i)); yield case((t, "volatile"), ("t", i)); yield case(("static", t), ("t", i), flags=flagv["SPECIFIER_static"])
        for w in ("int", "char", "double"):
            yield case((t, w), None); yield case((w, t), ("b", TABLE[(w,)]), mode=1, name=ord(t[1]))
        for j in range(4): yield case((t, "@" + "TUVW"[j]), ("t", i), mode=1, name=ord("TUVW"[j]))
    # alignment specifiers
    for n in (1, 2, 4, 8, 16, 64):
        x = Text(); x.add("__declspec ( $align ("); lit(x, n); x.add(") ) int"); yield Case(x, 0, ("b", "s32"), align=n)
        x = Text(); x.add("int alignas ("); lit(x, n); x.add(")"); yield Case(x, 0, ("b", "s32"), align=n)
        x = Text(); x.add("alignas ("); lit(x, n); x.add(") alignas ("); lit(x, 8); x.add(") int"); yield Case(x, 0, ("b", "s32"), align=max(n, 8))
    for n in (3, 5, 12, 24):
        x = Text(); x.add("int alignas ("); lit(x, n); x.add(")"); yield Case(x, 0, None)
    for f, v in (("inline", "SPECIFIER_inline SPECIFIER_static"), ("forceinline", "SPECIFIER_inline SPECIFIER_static")):
        yield case((f, "int"), ("b", "s32"), flags=sum(flagv[q] for q in v.split()))
        yield case(("static", f, "int"), ("b", "s32"), flags=sum(flagv[q] for q in v.split()))
    # enumerators
    S = lambda i: ("sym", -(1 << 31), (1 << 32) - 1, i)
    for items in (["a"], ["a", "b"], ["a", "b", "c"], ["a=", "b", "c"], ["a", "b=", "c"], ["a=", "b=", "c", "d"], ["a", "b", "c=", "d", "e=", "f"], ["a=", "b", "c", "d", "e"]):
        for tail in ("", ","):
            x = Text(); x.add("enum {"); k = 0; ex = []
            for i, it in enumerate(items):
                if i: x.add(",")
                x.add("@" + it[0])
                if it[1:]: s = S(k); k += 1; x.add("="); lit(x, s); ex.append((ord(it[0]), s))
                else: ex.append((ord(it[0]), None))
            x.add(tail + " }"); yield Case(x, 0, ("b", "s32"), extra=ex)

class Types:
    def __init__(s, seed): s.r = random.Random(seed)
    def reset(s): s.n = 0
    def base(s):
        r = s.r.random()
        if r < .12: return ("t", s.r.randrange(3))
        return ("b", s.r.choice(["s8", "u8", "s16", "s32", "u32", "s64", "u64", "f32", "f64"]))
    def gen(s, depth, allow):
        """allow: the constructors that may come outermost"""
        if depth == 0: return s.base()
        k = s.r.choice(allow)
        if k == "p":
            if depth == 1 and s.r.random() < .2: return ("p", ("b", "void"))
            return ("p", s.gen(depth - 1, "paf"))
        if k == "a":
            s.n += 1; n = ("sym", 1, 60, s.n - 1); return ("a", n, s.gen(depth - 1, "pa"))
        r = s.r.random()
        ret = ("b", "void") if depth == 1 and r < .3 else s.gen(depth - 1, "p") if depth > 1 else s.nonarray()
        ps = s.params(depth - 1)
        if s.r.random() < .8: return ("f", ret, ps, False)
        return ("f", ret, ps if ps and ps != "void" else [("b", "s32")], True)
    def nonarray(s):
        t = s.base()
        return t if t != ("t", 2) else ("t", 1)
    def params(s, depth):
        r = s.r.random()
        if r < .15: return "void"
        if r < .3: return []
        return [s.param(depth) for _ in range(s.r.choice([1, 1, 2, 3]))]
    def param(s, depth):
        t = s.gen(min(depth, s.r.choice([0, 0, 1, 2])), "ppaf")
        return ("named", s.r.choice("pqr"), t) if s.r.random() < .5 else t

def renumber(t, x):
    """array lengths are numbered in the order in which they are written"""
    return t
def declarator_cases(seed, count):
    g = Types(seed)
    def mk(t, name, mode, deco=None):
        x = Text(); declaration(t, name, x); return Case(x, mode, t, ord(name) if name else 0)
    B = ("b", "s32"); fx = []
    for t in (("p", B), ("p", ("p", B)), ("a", ("sym", 1, 100000, 0), B), ("a", ("sym", 1, 60000, 0), ("a", ("sym", 1, 60000, 1), ("b", "f64"))), ("f", B, [], False), ("f", B, "void", False), ("f", ("b", "void"), [("b", "f64")], True),
              ("p", ("f", B, [("b", "f32")], False)), ("p", ("a", ("sym", 1, 50, 0), B)), ("a", ("sym", 1, 50, 0), ("p", B)), ("f", ("p", B), [], False), ("a", ("sym", 1, 9, 0), ("p", ("f", ("p", ("f", B, [], False)), [], False))),
              ("f", ("p", ("f", B, [("p", B)], False)), [B], False), ("f", ("p", ("a", ("sym", 1, 7, 0), B)), [], False), ("p", ("p", ("f", ("b", "void"), "void", False))), ("a", None, B), ("a", None, ("a", ("sym", 1, 9, 0), B)),
              ("f", B, [("t", 3)], False), ("f", B, [("named", "p", ("a", None, B))], False), ("f", B, [("named", "p", ("a", ("sym", 1, 5, 0), ("a", ("sym", 1, 5, 1), B)))], False), ("f", B, [("named", "p", ("f", B, [], False))], False), ("f", B, [("t", 2), ("named", "q", ("t", 2))], False)):
        fx.append(t); yield mk(t, "v", 1); yield mk(t, None, 2); yield mk(t, "v", 3); yield mk(t, None, 3)
    for bad in (("f", ("a", 3, B), [], False), ("f", ("f", B, [], False), [], False), ("a", 3, ("f", B, [], False)), ("a", 3, ("b", "void")), ("a", 3, ("a", None, B)), ("f", ("t", 2), [], False), ("a", 2, ("t", 3)), ("p", ("f", ("a", 3, B), [], False)), ("p", ("a", 3, ("f", B, [], False)))):
        c = mk(bad, "v", 1); c.want = None; yield c
    x = Text(); x.add("int @v ["); lit(x, ("sym", -100, -1, 0)); x.add("]"); yield Case(x, 1, None)
    for words, t, mode, name in (("int * const @v", ("p", B), 1, "v"), ("int * volatile * const @v", ("p", ("p", B)), 1, "v"), ("int const * restrict @v", ("p", B), 1, "v"), ("int ( @v )", B, 1, "v"), ("int ( ( @v ) )", B, 1, "v"), ("int * ( @v )", ("p", B), 1, "v"),
            ("int ( * ( @v ) )", ("p", B), 1, "v"), ("int ( * ( * @v ) ( void ) ) ( )", ("p", ("f", ("p", ("f", B, [], False)), "void", False)), 1, "v"), ("int cdecl @v ( void )", ("f", B, "void", False), 1, "v"), ("int ( cdecl * @v ) ( int )", ("p", ("f", B, [B], False)), 1, "v"),
            ("int ( stdcall * @v ) ( int )", ("p", ("f", B, [B], False)), 1, "v"), ("int ( @T )", ("f", B, [("t", 0)], False), 3, ""), ("int ( @a )", B, 3, "a"), ("int ( @U )", ("f", B, [("t", 1)], False), 3, ""), ("int ( ( @a ) )", B, 3, "a"), ("int ( int )", ("f", B, [B], False), 2, ""), ("int ( * ) ( @T )", ("p", ("f", B, [("t", 0)], False)), 2, ""),
            ("int @v ( @T @T )", ("f", B, [("t", 0)], False), 1, "v"), ("int @v ( @T , @U )", ("f", B, [("t", 0), ("t", 1)], False), 1, "v"), ("int @v ( @T * @T )", ("f", B, [("p", ("t", 0))], False), 1, "v"), ("@T @T", ("t", 0), 1, "T"), ("@U * @v", ("p", ("t", 1)), 1, "v"), ("const @V @v", ("t", 2), 1, "v"),
            ("int @v ( int ( @a ) )", ("f", B, [B], False), 1, "v"), ("int @v ( int ( @T ) )", ("f", B, [("f", B, [("t", 0)], False)], False), 1, "v"), ("int @v ( int ( * @p ) ( int @x ) )", ("f", B, [("p", ("f", B, [B], False))], False), 1, "v"), ("int ( * @v ( int @a ) ) ( float @b )", ("f", ("p", ("f", B, [("b", "f32")], False)), [B], False), 1, "v")):
        x = Text(); x.add(words); yield Case(x, mode, t, ord(name) if name else 0)
    for i in range(count):
        g.reset(); t = g.gen(g.r.choice([1, 2, 2, 3, 3, 4, 5]), "paf")
        mode = g.r.choice([1, 1, 2, 3]); name = "v" if mode == 1 or (mode == 3 and g.r.random() < .5) else None
        yield mk(t, name, mode)

def work(x):
    key, r, c, limit, atomic = x
    n = len(c.x.toks)
    def expected(env):
        if c.want is None: raise Illegal()
        rd = Reader(env); out = []
        if c.extra:
            cur = 0
            for nm, s in c.extra:
                if s is not None: cur = env[s[3]]
                out.append(("enumerator", nm, cur & 0xffffffff, 1)); cur += 1
        out.append(("specifiers", c.flags, c.align))
        if c.mode: out.append(("name", c.name))
        return out + [("read", n)] + rd.report(c.want)
    return list(judge(key, r, c.x.lits, expected, limit))

def check(rep):
    rep.explanation = ("Abstract interpretation of parse_declaration_specifiers and parse_declarator (parse.c) on token sequences: all sequences of up to three type-specifier keywords (and of four from seven), with qualifiers, storage classes, _Atomic and alignment at every "
        "place, typedef names, enumerations with symbolic values, and declarators and type names for several thousand types built from pointers, arrays of symbolic length and functions.  The resulting type, name, flags, alignment and enumerator values are compared with "
        "the type the C grammar gives; invalid combinations have to be reported.")
    rep.assumptions = ["The type combinations of C11 6.7.2 with Microsoft's sizes, and the declarator rules of C11 6.7.6, as written down in check_C16.py and lib/tysem.py", "Constant expressions and typedef lookup are replaced by stand-ins (symbolic value, fixed table)",
        "_Atomic applies to integer types only here; qualifiers have no effect on the type in this compiler"]
    m = sa.build_module("ty.c")
    en = sa.run_jobs(m, [{"query": "types", "id": "t"}])[0]["result"]["enums"]
    tok = en["token_type"]; flagv = en["declaration_specifier_flag"]
    jobs, meta = [], {}
    count = 15000 if sa.TIER == "thorough" else 2000
    for c in itertools.chain(spec_cases(flagv, ATOMIC), declarator_cases(16 + (sa.SEED if sa.TIER == "thorough" else 0), count)):
        if len(c.x.toks) > 150 or len(c.x.lits) > 16: continue
        k = ("", "declarator ", "type name ", "parameter ")[c.mode] + c.x.source()
        if k in meta: continue
        meta[k] = c; jobs.append(job(tok, k, c.x, c.mode))
    rep.count("declarations", len(jobs))
    res = sa.run_jobs(m, jobs)
    todo = []
    for r in res:
        todo.append((r["id"], {k: r[k] for k in ("nodes", "budget", "unk_stores", "unk_calls") if k in r}, meta[r["id"]], 20000 if sa.TIER == "thorough" else 600, None))
        rep.count("basic_blocks_interpreted", r["stat"]["blocks"])
    with multiprocessing.Pool(8) as p:
        for out in p.imap_unordered(work, todo, 64):
            for v, k, t in out:
                if v == "agreed": rep.count("declarations_equal"); rep.count("valuations", t)
                elif v == "violation": rep.violation(k, t)
                else: rep.undecide(k + ": " + t)
    rep.need("declarations", 5000); rep.need("declarations_equal", 0 if rep.violations else 5000)
