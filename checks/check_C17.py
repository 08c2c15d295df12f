"""Layout of structs, unions and bit-fields."""
import itertools, multiprocessing, os
import sa, layoutgen
from tysem import *
LEVEL = "other"

def templates():
    """(label, compound type, pack)"""
    g = layoutgen.Gen(17)
    sym = lambda lo, hi: g.sym(lo, hi)
    B = layoutgen.BITS
    def out(ms, pack=16, union=False, align=0, packed=False): return Compound(union, ms, align, packed), pack
    scal = [("b", b) for b in layoutgen.SCALARS] + [("p", ("b", "void"))]
    # two members of every type, and the trailing padding
    for a in scal:
        for b in scal:
            for pack in (1, 2, 4, 8, 16):
                if pack in (1, 4) and SIZE.get(b[1], 8) < 2: continue
                yield out([("m", "a", a, 0), ("m", "b", b, 0)], pack)
    for a, b, c in itertools.product([("b", x) for x in ("s8", "s16", "s32", "f64")], repeat=3):
        yield out([("m", "a", a, 0), ("m", "b", b, 0), ("m", "c", c, 0)], 8); yield out([("m", "a", a, 0), ("m", "b", b, 0), ("m", "c", c, 0)], 16, True)
    # arrays of symbolic length
    for a, b in itertools.product([("b", x) for x in ("s8", "s16", "s32", "u64", "f32")], repeat=2):
        g.reset(); yield out([("m", "a", ("a", sym(1, 1000), a), 0), ("m", "b", b, 0)])
        g.reset(); yield out([("m", "a", b, 0), ("m", "b", ("a", sym(1, 1000), ("a", sym(1, 50), a)), 0)], 4)
        g.reset(); yield out([("m", "a", ("a", sym(1, 1000), a), 0), ("m", "b", b, 0)], 16, True)
    # bit-fields: all pairs of types and all widths, also the invalid ones
    for x, y in itertools.product(B, repeat=2):
        for pack in (16, 1):
            g.reset(); yield out([("bf", "a", x, sym(0, 66)), ("bf", "b", y, sym(0, 66))], pack)
        for zero in (0, 1):
            g.reset(); yield out([("m", "a", ("b", "s8"), 0), ("bf", None, x, 0 if zero else sym(1, 66)), ("bf", "b", y, sym(1, 8)), ("m", "c", ("b", "s8"), 0)])
            g.reset(); yield out([("bf", "a", x, sym(1, 8)), ("bf", None, y, 0 if zero else sym(1, 66)), ("bf", "b", x, sym(1, 8))])
        g.reset(); yield out([("bf", "a", x, g.width(x)), ("bf", None, y, 0), ("bf", "b", x, g.width(x))], 2)
        g.reset(); yield out([("bf", "a", x, g.width(x)), ("m", "b", ("b", y), 0), ("bf", "c", x, g.width(x))])
        g.reset(); yield out([("bf", "a", x, g.width(x)), ("bf", "b", y, g.width(y))], 16, True)
        g.reset(); yield out([("m", "a", ("b", y), 0), ("bf", "b", x, g.width(x)), ("bf", "c", x, g.width(x))], 16, True)
    for x in B:
        g.reset(); yield out([("bf", "a", x, g.width(x)), ("bf", "b", x, g.width(x)), ("bf", "c", x, g.width(x))])
        g.reset(); yield out([("bf", None, x, g.width(x)), ("bf", "b", x, g.width(x)), ("bf", None, x, g.width(x)), ("bf", "c", x, g.width(x))])
        g.reset(); yield out([("m", "a", ("b", "s8"), 0), ("bf", None, x, 0), ("m", "b", ("b", "s8"), 0)])
    # explicit alignment
    for n in (16, 32, 64, 128):
        for a in ("s8", "s32", "f64"):
            yield out([("m", "a", ("b", a), n)]); yield out([("m", "a", ("b", "s8"), 0), ("m", "b", ("b", a), n), ("m", "c", ("b", "s8"), 0)], 4)
            yield out([("m", "a", ("b", a), 0)], 16, False, n); yield out([("m", "a", ("b", a), 0)], 16, True, n)
            inner = Compound(False, [("m", "a", ("b", a), 0)], n)
            for pack in (1, 16):
                yield out([("m", "b", ("b", "s8"), 0), ("m", "c", ("c", inner), 0)], pack)
                g.reset(); yield out([("m", "b", ("b", "s8"), 0), ("m", "c", ("a", sym(1, 9), ("c", inner)), 0)], pack)
                yield out([("m", "b", ("b", "s8"), 0), ("anon", ("c", inner))], pack)
    for n in (0, 3, 6, 12): yield out([("m", "a", ("b", "s8"), 0)], 16, False, n) if n else out([("m", "a", ("b", "s8"), 0)])
    # __declspec(packed)
    for a, b in itertools.product(("s8", "s16", "u64", "f32"), repeat=2): yield out([("m", "a", ("b", a), 0), ("m", "b", ("b", b), 0)], 16, False, 0, True)
    # nested anonymous members
    kids = [lambda n: ("m", n(), ("b", "s32"), 0), lambda n: ("m", n(), ("b", "s8"), 0), lambda n: ("bf", n(), "s32", 3)]
    def shape(sh):
        if sh == "x": return ("m", g.name(), ("b", "s32"), 0)
        if sh == "y": return ("m", g.name(), ("b", "s64"), 0)
        return ("anon", ("c", Compound(sh[0] == "u", [shape(q) for q in sh[1]])))
    leafs = ["x", ("u", ("x", "y")), ("s", ("x", "y")), ("u", ("x",)), ("s", ("x",))]
    mids = leafs + [(k, (a, b)) for k in "us" for a in leafs for b in leafs] + [(k, (a,)) for k in "us" for a in leafs[1:]]
    for k in (False, True):
        for m in mids:
            for pre, post in (((), ("x",)), (("x",), ("y",))):
                g.reset(); yield out([shape(q) for q in pre + (m,) + post], 16, k)
    for k1, k2, k3 in itertools.product("us", repeat=3):
        for d in (("u", ("x", "y")), ("s", ("x", "y"))):
            g.reset(); yield out([shape((k1, ("x", (k2, ("x", (k3, ("x", d, "x")), "x")), "x"))), shape("x")])
    # and many mixtures
    g = layoutgen.Gen(1700 + (sa.SEED if sa.TIER == "thorough" else 0))
    for i in range(12000 if sa.TIER == "thorough" else 1500):
        g.reset(); c = g.compound(3 if i % 3 else 1); pack = g.r.choice([1, 2, 4, 8, 16, 16])
        if packed_and_aligned(c): continue
        yield c, pack

def packed_and_aligned(c):
    """what an explicit alignment means inside of a packed type is left open"""
    all_ = [c] + list(layoutgen.walk(c))
    return any(x.packed for x in all_) and any(x.align or any(m[0] == "m" and m[3] for m in x.members) for x in all_)

def work(x):
    key, r, lits, c, pack, limit = x
    def expected(env):
        want = Reader(env, pack).report(("c", c))
        def check(c):
            rd = Reader(env, pack)
            if c.align and (c.align & (c.align - 1)): raise Illegal()
        check(c)
        return [("specifiers",), ("read", len(text(c).toks))] + want
    return list(judge(key, r, lits, expected, limit))
def text(c): x = Text(); specifier(("c", c), x); return x

def check(rep):
    rep.explanation = ("Abstract interpretation of parse_declaration_specifiers and parse_declarator (parse.c) on the tokens of struct and union definitions, with bit-field widths and array lengths left symbolic: "
        "size, alignment and member count of the type and the offset, type, first bit, width and next-member distance of every member are computed as expressions over the widths and lengths, and compared with the layout rules of the Microsoft x64 ABI "
        "at every combination of widths (all of 0 to 66 in pairs) and boundary values of lengths.  A rejected valid definition, an accepted invalid width and a failing internal check are violations.")
    rep.assumptions = ["The layout rules written down in lib/tysem.py (class Reader); they were compared with clang's Microsoft record layout on several thousand generated records when they were written",
        "Left open: the alignment of unions with bit-fields as Microsoft's compiler computes it (a bit-field counts with the alignment of its type here), explicit alignments below the natural one, explicit alignment inside packed types, empty structs",
        "parse_constant_integer_expression, lookup_typedef are replaced by stand-ins that deliver the symbolic value and a fixed table", "The definition of a type needs at most 158 tokens and 32 literals here"]
    m = sa.build_module("ty.c")
    tok = sa.run_jobs(m, [{"query": "types", "id": "t"}])[0]["result"]["enums"]["token_type"]
    jobs, meta = [], {}
    for c, pack in templates():
        x = text(c)
        if len(x.toks) > 150 or len(x.lits) > 16: continue
        k = "pack %d: %s" % (pack, x.source())
        if k in meta: continue
        meta[k] = (x.lits, c, pack); jobs.append(job(tok, k, x, 0, pack))
    rep.count("definitions", len(jobs))
    res = sa.run_jobs(m, jobs)
    todo = []
    for r in res:
        lits, c, pack = meta[r["id"]]
        todo.append((r["id"], {k: r[k] for k in ("nodes", "budget", "unk_stores", "unk_calls") if k in r}, lits, c, pack, 20000 if sa.TIER == "thorough" else 1500))
        rep.count("basic_blocks_interpreted", r["stat"]["blocks"]); rep.count("facts_about_members_and_types", sum(n["k"] == "obs" for n in r["nodes"]))
    with multiprocessing.Pool(8) as p:
        for out in p.imap_unordered(work, todo, 16):
            for v, k, t in out:
                if v == "agreed": rep.count("definitions_equal"); rep.count("valuations", t)
                elif v == "violation": rep.violation(k, t)
                else: rep.undecide(k + ": " + t)
    rep.need("definitions", 2500); rep.need("definitions_equal", 2000 if not rep.violations else 0)
