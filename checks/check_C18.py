"""Initializers: which subobject gets which value."""
import itertools, multiprocessing, random
import sa, layoutgen
from tysem import *
from initsem import *
LEVEL = "other"

class Shapes:
    def __init__(s, seed): s.r = random.Random(seed)
    def reset(s): s.names = 0
    def name(s): s.names += 1; return chr(ord('a') + s.names - 1)
    def scalar(s): return ("b", s.r.choice(["s8", "u8", "s16", "s32", "s32", "u64", "f32", "f64", "Bool", "u32"]))
    def typ(s, d):
        r = s.r.random()
        if d == 0 or r < .35:
            if s.r.random() < .12: return ("p", ("b", "s8"))
            return s.scalar()
        if r < .55: return ("a", s.r.choice([1, 2, 2, 3, 4]), s.typ(d - 1))
        if r < .68: return ("a", s.r.choice([2, 3, 4, 5]), ("b", s.r.choice(["s8", "s8", "u8", "u16", "s32"])))
        return ("c", s.compound(d - 1))
    def compound(s, d):
        u = s.r.random() < .22; ms = []
        for _ in range(s.r.choice([1, 2, 2, 3, 3])):
            q = s.r.random()
            if q < .15:
                b = s.r.choice(["s32", "u8", "u64", "s16"])
                if s.r.random() < .2 and ms: ms.append(("bf", None, b, s.r.choice([3, 5])))
                else: ms.append(("bf", s.name(), b, s.r.choice([7, 8] if b == "u8" else [8, 9, 12, 15])))
            elif q < .3 and d: ms.append(("anon", ("c", s.compound(d - 1))))
            else: ms.append(("m", s.name(), s.typ(d), 0))
        if not any(m[0] != "bf" or m[1] for m in ms): ms.append(("m", s.name(), s.scalar(), 0))
        return Compound(u, ms)

class Values:
    """random initializers for a type"""
    def __init__(s, r, typedef): s.r = r; s.typedef = typedef
    def reset(s): s.n = 0
    def e(s): s.n += 1; return ("e", s.n - 1)
    def leafs(s, t, rd):
        if t == ("t", 0): t = s.typedef
        if t[0] == "c":
            k = [s.leafs(m[1] if m[0] == "anon" else m[2] if m[0] == "m" else ("b", m[2]), rd) for m in t[1].members if m[0] != "bf" or m[1]]
            return (k[0] if t[1].union else sum(k)) if k else 0
        if t[0] == "a": return (3 if t[1] is None else t[1]) * s.leafs(t[2], rd)
        return 1
    def at(s, t, d):
        """an initializer that may stand where the object t is initialized"""
        if t == ("t", 0):
            if s.r.random() < .35: return ("o",)
            t = s.typedef
        if t[0] == "a" and t[2][0] == "b" and t[2][1] in STRING_ELEMENTS and s.r.random() < .5:
            z = STRING_ELEMENTS[t[2][1]]; n = s.r.choice([0, 1, 2, 3]) if t[1] is None else s.r.randrange(0, t[1] + 1)
            q = ("s", n, z); return ("l", [([], q)]) if s.r.random() < .3 else q
        if t[0] in "ac": return s.braces(t, d)
        if t[0] == "p": return ("s", s.r.choice([0, 1, 3]), 1)
        return ("l", [([], s.e())]) if s.r.random() < .06 else s.e()
    def flat(s, t, out, room):
        """values for the subobjects of t in order, with some braces left out"""
        if t == ("t", 0):
            if s.r.random() < .2: out.append(([], ("o",))); return
            t = s.typedef
        if len(out) > room: return
        if t[0] == "c":
            ms = [m for m in t[1].members if m[0] != "bf" or m[1]]
            for m in ms[:1] if t[1].union else ms:
                u = m[1] if m[0] == "anon" else m[2] if m[0] == "m" else ("b", m[2])
                if u[0] in "act" and s.r.random() < .35: out.append(([], s.at(u, 1)))
                else: s.flat(u, out, room)
        elif t[0] == "a":
            if t[2][0] == "b" and t[2][1] in STRING_ELEMENTS and s.r.random() < .3: out.append(([], ("s", s.r.randrange(0, (t[1] or 3) + 1), STRING_ELEMENTS[t[2][1]]))); return
            for _ in range(s.r.choice([1, 2, 3]) if t[1] is None else t[1]):
                if t[2][0] in "act" and s.r.random() < .35: out.append(([], s.at(t[2], 1)))
                else: s.flat(t[2], out, room)
        else: out.append(([], s.at(t, 1)))
    def designator(s, t):
        """(designators, designated type)"""
        ds = []
        while True:
            if t == ("t", 0): t = s.typedef
            if t[0] == "c":
                ms = []
                def walk(c):
                    for m in c.members:
                        if m[0] == "anon": walk(m[1][1])
                        elif m[1]: ms.append((m[1], m[2] if m[0] == "m" else ("b", m[2])))
                walk(t[1]); n, t = s.r.choice(ms); ds.append(n)
            elif t[0] == "a": ds.append(s.r.randrange(0, t[1] or 4)); t = t[2]
            else: return ds, t
            if s.r.random() < .5: return ds, t
    def braces(s, t, d):
        out = []
        if s.r.random() < .07: return ("l", [])
        while True:
            if out and s.r.random() < .75 or not out and s.r.random() < .35:
                ds, u = s.designator(t); out.append((ds, s.at(u, d + 1)))
                if s.r.random() < .4 and len(out) < 7: k = []; s.flat(u if u[0] not in "ac" else ("b", "s32"), k, 2); out += k[:s.r.choice([1, 2])]
            else:
                k = []; s.flat(t, k, 12); out += k[:s.r.choice([1, 2, 3, 20])] if s.r.random() < .6 else k
            if s.r.random() < .6 or len(out) > 8: break
        q = ("l", out)
        return q + (True,) if out and s.r.random() < .15 else q

def templates():
    """(typedef or None, type, initializer)"""
    n = 40000 if sa.TIER == "thorough" else 5200
    g = Shapes(1800 + (sa.SEED if sa.TIER == "thorough" else 0)); v = Values(g.r, None)
    # designators with any index
    E = lambda k: ("e", k)
    elems = [("b", "s8"), ("b", "s32"), ("b", "f64"), ("a", 3, ("b", "s16")), ("c", Compound(False, [("m", "a", ("b", "s8"), 0), ("m", "b", ("b", "s32"), 0)])), ("c", Compound(True, [("m", "a", ("b", "s8"), 0), ("m", "b", ("b", "f64"), 0)]))]
    N = lambda hi, k=0: ("sym", 0, hi, k)
    for u in elems:
        sub = [] if u[0] == "b" else [1] if u[0] == "a" else ["b"]
        for length in (None, 5, 700, 100000):
            hi = 100000 if length is None else length + 2
            t = ("a", length, u)
            yield None, t, ("l", [([N(hi)] + sub, E(0))])
            if length is None:
                yield None, t, ("l", [([N(hi)] + sub, E(0)), ([], E(1))])
                yield None, t, ("l", [([N(hi)], ("l", [(sub, E(0))])), ([], E(1)), ([], E(2))])
                continue
            yield None, ("a", None, t), ("l", [([N(40), N(hi, 1)] + sub, E(0))])
            for k in (0, 1, 3, 127, 128, 255, 256, 300, 697, 698, 699, 4999, 65535, 65536, 99998, 99999):
                if k > length or k < length - 5 and length < 10: continue
                yield None, t, ("l", [([k] + sub, E(0)), ([], E(1))])
                yield None, ("c", Compound(False, [("m", "x", ("b", "s32"), 0), ("m", "y", t, 0), ("m", "z", ("b", "s8"), 0)])), ("l", [(["y", k] + sub, E(0)), ([], E(1)), (["z"], E(2))])
                yield None, ("a", None, t), ("l", [([k % 70, k] + sub, E(0)), ([], E(1))])
    for i in range(n):
        g.reset(); v.reset(); v.typedef = None
        if i % 4 == 0: v.typedef = ("c", g.compound(1))
        t = ("c", g.compound(2)) if i % 3 else ("a", None if i % 2 else g.r.choice([1, 2, 3]), g.typ(2))
        if v.typedef:
            q = i // 4 % 4
            t = ("t", 0) if q == 0 else ("a", 2 if i % 8 else None, ("t", 0)) if q == 1 else ("c", Compound(q == 3, [("m", g.name(), ("t", 0), 0), ("m", g.name(), g.scalar(), 0)] if i % 8 else [("m", g.name(), ("b", "s8"), 0), ("m", g.name(), ("t", 0), 0), ("m", g.name(), ("a", 2, ("t", 0)), 0)]))
        if i % 37 == 0: t = g.scalar()
        yield v.typedef, t, v.at(t, 0)

def text(typedef, t, i):
    x = Text()
    p = 0
    if typedef: specifier(typedef, x); x.add(";"); p = len(x.toks)
    declaration(t, "x", x); x.add("="); emit(i, x)
    return x, p
def static_ok(i):
    return i[0] != "o" and (i[0] != "l" or all(static_ok(q) for _, q in i[1]))
VALUES = [{"v%d" % i: 100 - 3 * i for i in range(24)}, {"v%d" % i: 1 + 4 * i for i in range(24)}]
def count(i): return i[1] + 1 if i[0] == "e" else max([count(q) for _, q in i[1]] + [0]) if i[0] == "l" else 0

def work(a):
    key, r, mode, typedef, t, i, n, lits = a
    def expected(env):
        s = Initializer(Reader(env, 16, [typedef]), typedef); size = s.run(t, i)
        head = [("read", n), ("size", size)]
        return head + (s.expected_memory(size, env) if mode else s.expected_list(env))
    return list(judge(key, r, lits, expected, 300, VALUES))

def check(rep):
    rep.explanation = ("Abstract interpretation of parse_declaration_specifiers, parse_declarator and parse_initializer (parse.c) on declarations with initializers, the values left symbolic: the list of assignments "
        "(bit offset in the object, width, value) that the parser leaves for code generation, the size of the object, and - for static objects - every byte and every address that evaluate_static_initializer (main.c) writes, as "
        "expressions over the values, are compared with the meaning the C standard (6.7.9) gives to the initializer: nested and left out braces, designators of every depth, members of anonymous structures and unions, "
        "strings, bit-fields, arrays of unknown length and objects of structure type.  Invalid initializers have to be rejected.")
    rep.assumptions = ["The initialization rules in lib/initsem.py and the layout rules in lib/tysem.py", "parse_expression, emit_patch, lookup_typedef and parse_constant_integer_expression are replaced by stand-ins: expressions are symbolic integers, strings and named objects",
        "Left open: an object initialized twice in different ways, an integer as initializer of a pointer, a string among several initializers of one character array, flexible array members", "Types of nesting depth 3, at most 24 values and 150 tokens"]
    m = sa.build_module("ty.c")
    tok = sa.run_jobs(m, [{"query": "types", "id": "t"}])[0]["result"]["enums"]["token_type"]
    jobs, meta = [], {}
    for typedef, t, i in templates():
        x, p = text(typedef, t, i)
        if len(x.toks) > 150 or len(x.lits) > 30 or count(i) > 24: continue
        symbolic = [l for l in x.lits if not isinstance(l, int)]
        s = Initializer(Reader({l[3]: 1 for l in symbolic}, 16, [typedef]), typedef)
        try: size = s.run(t, i)
        except Illegal: size = 0; rep.count("invalid_initializers")
        if s.open or s.overlaps() or size > 1 << 28: continue
        for mode in (0, 1):
            if mode and not (0 < size <= 200 and not symbolic and static_ok(i)): continue
            key = ("static " if mode else "") + (" ".join(x.source().split()))
            if key in meta: continue
            y = Text(); y.toks = x.toks + [";"]; y.lits = x.lits
            j = job(tok, key, y, 0); j.update(fn="h_initialize", args=[mode, int(bool(p)), len(y.toks), 16])
            j["stub"] = dict(j["stub"], parse_expression="__sa_stub__expression", emit_patch="__sa_stub__patch")
            jobs.append(j); meta[key] = (mode, typedef, t, i, len(x.toks), x.lits)
    rep.count("initializers", len(jobs))
    res = sa.run_jobs(m, jobs)
    todo = []
    for r in res:
        todo.append((r["id"], {k: r[k] for k in ("nodes", "budget", "unk_stores", "unk_calls") if k in r}) + meta[r["id"]])
        rep.count("basic_blocks_interpreted", r["stat"]["blocks"]); rep.count("assignments_and_bytes", sum(n["k"] == "obs" for n in r["nodes"]))
    with multiprocessing.Pool(8) as p:
        for out in p.imap_unordered(work, todo, 16):
            for v, k, t in out:
                if v == "agreed": rep.count("initializers_equal")
                elif v == "violation": rep.violation(k, t)
                else: rep.undecide(k + ": " + t)
    rep.need("initializers", 4000)
