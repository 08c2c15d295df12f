"""The value and type of integer, character and string literals."""
import itertools, multiprocessing, re
import sa
from cspec import *
LEVEL = "other"
STUBS = {"maybe_report_error_for_stack_exhaustion": "__sa_stub__no_exhaustion"}
LIT = {"parse_%s_literal" % k: "__sa_stub__literal" for k in ("base10", "hex", "octal", "binary")}
SUFFIX = {"": "int", "u": "unsigned", "l": "long", "ul": "unsigned_long", "lu": "unsigned_long", "ll": "long_long", "ull": "unsigned_long_long", "llu": "unsigned_long_long",
          "i8": "s8", "i16": "s16", "i32": "s32", "i64": "s64", "ui8": "u8", "ui16": "u16", "ui32": "u32", "ui64": "u64"}
BAD = ["x", "f", "uu", "ulu", "lul", "ulul", "i", "i9", "i128", "ui", "lll", "ulll", "iu8", "i65", "i31", "ui65", "_", "lx", "ux"]
def rng(lo, hi): return ord(lo) | ord(hi) << 8 | 1 << 16
DEC = rng("0", "9"); OCT = rng("0", "7"); BIN = rng("0", "1"); HEXL = rng("a", "f"); HEXU = rng("A", "F")
def chars(*parts):
    out = []
    for p in parts: out += [ord(c) for c in p] if isinstance(p, str) else [p] if isinstance(p, int) else list(p)
    return out
def byte(i, c): return const(8, c) if c < 1 << 16 else leaf(8, "c%d" % i)
def grid(c):
    lo, hi = c & 255, c >> 8 & 255
    return list(range(lo, hi + 1))
def digit(i, c, w):
    b = byte(i, c); lo = c & 255
    base = 48 if lo < 58 else (87 if lo >= 97 else 55)
    return mk("zext", w, mk("sub", 8, b, const(8, base)))

# ---------------------------------------------------------------- numbers: digits -> value, overflow, suffix
def numbers():
    """(literal kind, spelling, index of the first digit, number of digits and separators, base, suffix)"""
    def sp(kind, prefix, digits, suffix): return (kind, chars(prefix, digits, suffix), len(prefix), len(digits), suffix)
    for n in range(1, 20): yield sp("base10", "", [DEC] * n, "")
    for lead in ("", "'"):
        for p in ("184467440737095516", "184467440737095515", "184467440737095517", "999999999999999999", "100000000000000000"): yield sp("base10", "", chars(p, lead, DEC, DEC), "")
    for p in ("18446744073709551", "3689348814741910323", "92233720368547758"): yield sp("base10", "", chars(p, DEC, DEC, DEC), "ull")
    yield sp("base10", "", chars(DEC, "'", DEC, DEC, DEC, "'", DEC), "")
    for h in (DEC, HEXL, HEXU):
        for n in list(range(1, 17)) + [18]: yield sp("hex", "0x", [h] * n, "")
        for n in (1, 15, 16, 17): yield sp("hex", "0X", chars("f", [h] * (n - 1)), ""); yield sp("hex", "0x", chars("1", [h] * (n - 1)), ""); yield sp("hex", "0x", chars("0", [h] * (n - 1)), "")
        yield sp("hex", "0x", chars(h, "'", DEC, HEXL, "'", HEXU), "")
    for pre in ("0", "0o", "0O"):
        for n in list(range(1, 22)): yield sp("octal", pre, [OCT] * n, "")
        for d in ("0", "1", "2", "7"): yield sp("octal", pre, chars(d, [OCT] * 21), "")
        yield sp("octal", pre, chars("1", [OCT] * 22), ""); yield sp("octal", pre, chars("01", [OCT] * 20), ""); yield sp("octal", pre, chars(OCT, "'", OCT), "")
    for d in "0157f":
        for n in range(8, 18):
            for h in (DEC, HEXL): yield sp("hex", "0x", chars(d, "f" * n, h), ""); yield sp("hex", "0x", chars(h, "0" * n, h), "")
    for d in "01237":
        for n in range(8, 22):
            for pre in ("0", "0o"): yield sp("octal", pre, chars(d, "7" * n, OCT), ""); yield sp("octal", pre, chars(OCT, "0" * n, OCT), ""); yield sp("octal", pre, chars(d, OCT, "7" * n), "")
    for n in range(60, 66): yield sp("binary", "0b", chars(BIN, "1" * n, BIN), ""); yield sp("binary", "0b", chars(BIN, "0" * n, BIN), "")
    for n in (1, 2, 7, 8, 31, 32, 33, 63, 64): yield sp("binary", "0b", [BIN] * n, "")
    yield sp("binary", "0B", chars("1", [BIN] * 64), ""); yield sp("binary", "0b", chars("0", [BIN] * 64), ""); yield sp("binary", "0b", chars(BIN, "'", BIN, BIN), "")
    for kind, pre, d in (("base10", "", DEC), ("hex", "0x", DEC), ("octal", "0", OCT), ("binary", "0b", BIN)):
        for s in SUFFIX:
            for v in {s, s.upper(), s.replace("u", "U"), s.replace("l", "L")}:
                if kind == "hex" and v[:1] in "abcdefABCDEF" and v: continue
                yield sp(kind, pre, chars(d, d), v)
        for s in BAD:
            if kind == "hex" and s[0] in "abcdef": continue
            yield sp(kind, pre, chars(d, d), s)
BASE = {"base10": 10, "hex": 16, "octal": 8, "binary": 2}
def spell(cs):
    return "".join(chr(c) if c < 1 << 16 else {48: "d", 97: "x", 65: "X"}.get(c & 255, "c") for c in cs)

def decide_number(x):
    (kind, cs, at, n, suffix), results, nk = x; out = []; key = "%s literal %s" % (kind, spell(cs))
    W = 64; wide = const(96, 0); g = {}
    for i in range(at, at + n):
        if cs[i] == ord("'"): continue
        wide = mk("add", 96, mk("mul", 96, wide, const(96, BASE[kind])), digit(i, cs[i], 96))
        if cs[i] >> 16: g["c%d" % i] = grid(cs[i])
    want = mk("trunc", 64, wide); over = mk("icmp.ugt", 1, wide, const(96, (1 << 64) - 1))
    if len(g) > 3: 
        for k in g: g[k] = sorted({g[k][0], g[k][1], g[k][-1], g[k][len(g[k]) // 2]})
    low = suffix.lower(); expect = SUFFIX.get(low)
    warned = const(1, 0); saw = False
    for r in results:
        w0 = None
        for nd in r["nodes"]:
            pc = from_json(nd["pc"]) if nd.get("pc") else const(1, 1)
            if nd["k"] == "skip" and "overflow" in nd["t"]: warned = mk("or", 1, warned, pc)
            elif nd["k"] == "prune":
                saw = True
                if expect and "suffix" in nd["t"]: out.append(("violation", key + " rejected", "%s rejects a valid literal: %s" % (nd["l"], nd["t"])))
                elif expect: out.append(("violation", key + " rejected", "%s: %s" % (nd["l"], nd["t"])))
            elif nd["k"] in ("assert", "panic"): out.append(("violation", key + " assertion", "%s: %s" % (nd["l"], nd["t"])))
            elif nd["k"] == "obs":
                saw = True; e = av(nd["a"][0]); k = avint(nd["a"][1])
                if expect is None: out.append(("violation", key, "the invalid suffix '%s' is accepted" % suffix)); continue
                if k != nk["NUMBER_KIND_" + expect]: out.append(("violation", key + " suffix", "the suffix '%s' is understood as number kind %s instead of %s" % (suffix, {v: a for a, v in nk.items()}.get(k, k), expect)))
                if e is None: out.append(("undecided", key, "undetermined value")); continue
                p, wit = differ(want, e, g, pc, limit=6000)
                if wit: out.append(("violation", key, "%s: the value is %s instead of %s, e.g. for the digits %s" % (nd["l"], wit[2], wit[1], wit[0])))
                else: out.append(("proved" if p else "agreed", key, ""))
    if not saw: out.append(("undecided", key, "the analysis does not reach the result"))
    if expect:
        _, wit = differ(over, warned, g, limit=6000) if not any(l.startswith("?") for l in leaves(warned)) else (0, 0)
        if any(l.startswith("?") for l in leaves(warned)): pass   # the overflow test of a literal with this many unknown digits is not determined
        elif wit: out.append(("violation", key + " overflow", "%s, e.g. for the digits %s" % ("no overflow is reported for a literal that exceeds 64 bits" if wit[1] else "overflow is reported for a literal that fits 64 bits", wit[0])))
        else: out.append(("agreed", key, ""))
    return out

# ---------------------------------------------------------------- the type of a constant of a given value and suffix
RANGES = [(0, 0xff), (0x100, 0xffff), (0x10000, (1 << 31) - 1), (1 << 31, (1 << 32) - 1), (1 << 32, (1 << 63) - 1), (1 << 63, (1 << 64) - 1)]
def type_of(dec, kind, v):
    """C11 6.4.4.1p5 with 32-bit long; explicitly sized suffixes name their type; decimal constants too large for long long are unsigned"""
    if kind[0] in "su" and kind[1:].isdigit(): return kind
    order = {"int": ["s32", "u32", "s64", "u64"], "long": ["s32", "u32", "s64", "u64"], "long_long": ["s64", "u64"]}.get(kind)
    if order is None: order = ["u32", "u64"] if kind != "unsigned_long_long" else ["u64"]
    elif dec: order = [t for t in order if t[0] == "s"] + ["u64"]
    for t in order:
        if v < 1 << (bits(t) - (t[0] == "s")): return t
def decide_constant(x):
    (kind, suffix, lo, hi), results = x; out = []; key = "type of a %s constant with suffix kind %s between %d and %d" % (kind, suffix, lo, hi)
    t = type_of(kind == "base10", suffix, lo); assert t == type_of(kind == "base10", suffix, hi)
    g = {"a": [v for v in int_grid(64) if lo <= v <= hi] + [lo, hi]}
    n_ok = 0
    for r in results:
        for nd in r["nodes"]:
            pc = from_json(nd["pc"]) if nd.get("pc") else None
            if nd["k"] == "obs" and nd["t"] == "integer":
                a, b, e = avint(nd["a"][0]), avint(nd["a"][1]), av(nd["a"][2])
                if a is None or b is None or e is None: out.append(("undecided", key, "undetermined")); continue
                _, wit = differ(const(1, 0), const(1, 1), g, pc)
                if not wit and pc is not None: continue
                if typename(a) != t or typename(b) != t: out.append(("violation", key, "the constant has type %s instead of %s" % (typename(a), t))); continue
                p, wit = differ(mk("trunc", bits(t), leaf(64, "a")), mk("trunc", bits(t), e), g, pc)
                if wit: out.append(("violation", key + " value", "the constant has the value %s instead of %s for %s" % (wit[2], wit[1], wit[0])))
                else: out.append(("proved" if p else "agreed", key, "")); n_ok += 1
            elif nd["k"] in ("prune", "assert", "panic"): out.append(("violation", key + " rejected", "%s: %s" % (nd["l"], nd["t"])))
            elif nd["k"] == "obs" and nd["t"] == "other": out.append(("violation", key + " kind", "not an integer literal"))
    if not out: out.append(("undecided", key, "the analysis does not reach the result"))
    return out

# ---------------------------------------------------------------- characters and strings
SIMPLE = {"'": 39, '"': 34, "?": 63, "\\": 92, "a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}
ASC = 0x20 | 0x21 << 8 | 1 << 16; ASC2 = 0x5d | 0x7e << 8 | 1 << 16; ASC3 = 0x30 | 0x5b << 8 | 1 << 16
CONT = 0x80 | 0xbf << 8 | 1 << 16
def R(lo, hi): return lo | hi << 8 | 1 << 16
def pieces():
    """(spelling, list of units); a unit is ('code', list of (char index, kind)) described by a function of the start index -> expression of 32 bits and whether it is a code point"""
    def plain(c): return [c], lambda i: (mk("zext", 32, byte(i, c)), "point")
    for c in (ASC, ASC2, ASC3): yield plain(c)
    for k, v in SIMPLE.items(): yield chars("\\", k), (lambda v: lambda i: (const(32, v), "unit"))(v)
    for n in (1, 2, 3):
        def octal(i, n=n):
            e = const(32, 0)
            for j in range(n): e = mk("add", 32, mk("mul", 32, e, const(32, 8)), digit(i + 1 + j, OCT if not (n == 3 and j == 0) else rng("0", "3"), 32))
            return e, "unit"
        yield chars("\\", [OCT] * n if n < 3 else [rng("0", "3"), OCT, OCT]), octal
    for ds in itertools.chain(*[itertools.product((DEC, HEXL, HEXU), repeat=k) for k in (1, 2)]):
        def hexa(i, ds=ds):
            e = const(32, 0)
            for j, d in enumerate(ds): e = mk("add", 32, mk("mul", 32, e, const(32, 16)), digit(i + 2 + j, d, 32))
            return e, "unit"
        yield chars("\\x", ds), hexa
WIDEHEX = [chars("\\x", ds) for ds in ((DEC, DEC, DEC), (HEXL, HEXU, DEC), (DEC, HEXL, HEXL, HEXU), (HEXU, DEC, DEC, DEC))]
def hexexpr(cs, skip):
    def f(i):
        e = const(32, 0)
        for j, d in enumerate(cs[skip:]): e = mk("add", 32, mk("mul", 32, e, const(32, 16)), digit(i + skip + j, d, 32))
        return e, "unit"
    return f
def point(cs, skip):
    f = hexexpr(cs, skip)
    return lambda i: (f(i)[0], "point")
# universal character names: the leading digits fix the length class of the encoding, the last ones vary
UCN = [chars("\\u", p, [h] * (4 - len(p))) for p in ("008", "00f", "007", "01", "07", "08", "0f", "1", "7", "8", "D7", "E", "F") for h in (DEC,)] + [chars("\\U", p, [h] * (8 - len(p))) for p in ("0001", "0003", "0004", "0007", "0008", "000f", "0010", "0000f", "000007", "0000004", "00000f0") for h in (DEC, HEXL)]
def utf8(points):
    n, lead = points
    def f(i):
        cs = lead + [CONT] * (n - 1) if n > 1 else lead
        e = mk("zext", 32, mk("and", 8, byte(i, cs[0]), const(8, (1 << (7 - n)) - 1)))
        for j in range(1, n): e = mk("or", 32, mk("shl", 32, e, const(32, 6)), mk("zext", 32, mk("and", 8, byte(i + j, cs[j]), const(8, 0x3f))))
        return e, "source"
    return f
SOURCE = [(2, [R(0xc2, 0xdf)]), (3, [R(0xe1, 0xec)]), (3, [R(0xee, 0xef)]), (4, [R(0xf1, 0xf3)])]

def strings():
    """(prefix, spelling of the contents, [(offset, function)])"""
    ps = list(pieces())
    for pre, w in PREFIX.items():
        for cs, f in ps:
            yield pre, cs, [(0, f)]
            yield pre, chars(cs, "g"), [(0, f), (len(cs), lambda i: (const(32, ord("g")), "point"))]
            yield pre, chars("\\n", cs, "\\t"), [(0, lambda i: (const(32, 10), "unit")), (2, f), (2 + len(cs), lambda i: (const(32, 9), "unit"))]
        for n in (1, 2, 3):
            for nxt in "8", "9": yield pre, chars("\\", ["1", "12", "123"][n - 1], nxt), [(0, (lambda v: lambda i: (const(32, v), "unit"))([1, 10, 83][n - 1])), (1 + n, (lambda c: lambda i: (const(32, ord(c)), "point"))(nxt))]
        yield pre, chars("\\1234"), [(0, lambda i: (const(32, 83), "unit")), (4, lambda i: (const(32, ord("4")), "point"))]
        if w > 1:
            for cs in WIDEHEX: yield pre, cs, [(0, hexexpr(cs, 2))]
            yield pre, chars("\\", OCT, OCT, OCT), [(0, (lambda i: (mk("add", 32, mk("mul", 32, mk("add", 32, mk("mul", 32, digit(i + 1, OCT, 32), const(32, 8)), digit(i + 2, OCT, 32)), const(32, 8)), digit(i + 3, OCT, 32)), "unit")))]
        if w > 2: yield pre, chars("\\x", [DEC] * 8), [(0, hexexpr(chars("\\x", [DEC] * 8), 2))]
        for cs in UCN:
            yield pre, cs, [(0, point(cs, 2))]; yield pre, chars("a", cs, "1"), [(0, lambda i: (const(32, 97), "point")), (1, point(cs, 2)), (1 + len(cs), lambda i: (const(32, ord("1")), "point"))]
        for s in SOURCE:
            cs = s[1] + [CONT] * (s[0] - 1); yield pre, cs, [(0, utf8(s))]; yield pre, chars("a", cs), [(0, lambda i: (const(32, 97), "point")), (1, utf8(s))]
        yield pre, chars(""), []
        yield pre, chars("a\\\nb"), [(0, lambda i: (const(32, 97), "point")), (3, lambda i: (const(32, 98), "point"))]
        yield pre, chars("a\\\r\nb"), [(0, lambda i: (const(32, 97), "point")), (4, lambda i: (const(32, 98), "point"))]
PREFIX = {"": 1, "u8": 1, "L": 2, "u": 2, "U": 4}
ELEMENT = {1: "s8", 2: "u16", 4: "u32"}

def encode(e, kind, w, cs=None, at=0, n=0, g=None):
    """the elements (of w bytes) that encode a unit: a list of alternatives (condition, [elements])"""
    if w == 4: return [(None, [e])]
    if kind == "unit": return [(None, [mk("trunc", 8 * w, e)])]
    if w == 2:
        d = mk("sub", 32, e, const(32, 0x10000))
        return [(mk("icmp.ult", 1, e, const(32, 0x10000)), [mk("trunc", 16, e)]),
                (mk("icmp.uge", 1, e, const(32, 0x10000)), [mk("trunc", 16, mk("or", 32, const(32, 0xd800), mk("lshr", 32, d, const(32, 10)))), mk("trunc", 16, mk("or", 32, const(32, 0xdc00), mk("and", 32, d, const(32, 0x3ff))))])]
    alts = []
    for lo, hi, k in ((0, 0x80, 1), (0x80, 0x800, 2), (0x800, 0x10000, 3), (0x10000, 0x110000, 4)):
        c = mk("and", 1, mk("icmp.uge", 1, e, const(32, lo)), mk("icmp.ult", 1, e, const(32, hi)))
        el = [mk("trunc", 8, e)] if k == 1 else [mk("trunc", 8, mk("or", 32, const(32, (0xf00 >> k) & 0xff), mk("lshr", 32, e, const(32, 6 * (k - 1)))))]
        for j in range(k - 2, -1, -1): el.append(mk("trunc", 8, mk("or", 32, const(32, 0x80), mk("and", 32, mk("lshr", 32, e, const(32, 6 * j)), const(32, 0x3f)))))
        alts.append((c, el))
    return alts

def grids_of(cs, at):
    g = {}
    for i, c in enumerate(cs):
        if c >> 16:
            v = grid(c)
            g["c%d" % (at + i)] = v if len(v) <= 16 else sorted({v[0], v[1], v[-1], v[-2], v[len(v) // 2], v[len(v) // 3]})
    return g
def satisfiable(c, g):
    if c is None: return True
    return differ(const(1, 0), c, g, limit=3000)[1] is not None
def contents(pre_len, cs, units, w, g):
    """alternatives (condition, elements) of the whole contents"""
    alts = [(None, [])]
    for off, f in units:
        e, k = f(pre_len + off); nxt = []
        if w == 1 and k == "source":
            n = len(cs) - off if off == units[-1][0] else units[[u[0] for u in units].index(off) + 1][0] - off
            ua = [(None, [byte(pre_len + off + j, cs[off + j]) for j in range(n)])]
        else: ua = [(c, el) for c, el in encode(e, k, w) if satisfiable(c, g)]
        for c, el in alts:
            for c2, el2 in ua: nxt.append((c if c2 is None else c2 if c is None else mk("and", 1, c, c2), el + el2))
        alts = nxt
    return alts

def decide_string(x):
    (pre, cs, units, copies), results = x; w = PREFIX[pre]; out = []
    at = len(pre) + 1; key = "string literal %s\"%s\"%s" % (pre, spell(cs), "" if copies == 1 else " followed by another")
    g = grids_of(cs, at); alts = contents(at, cs, units, w, g); seen = False
    extra = []
    if copies == 2: extra = [const(8 * w, ord("z"))]
    for r in results:
        head = None; data = {}
        for nd in r["nodes"]:
            pc = from_json(nd["pc"]) if nd.get("pc") else None
            if nd["k"] == "obs" and nd["t"] == "string": head = (nd, pc)
            elif nd["k"] == "obs" and nd["t"] == "byte": data[avint(nd["a"][0])] = nd["a"][1]
            elif nd["k"] in ("prune", "assert", "panic"):
                if satisfiable(pc, g): out.append(("violation", key + " rejected", "%s: %s" % (nd["l"], nd["t"])))
        if head is None: continue
        seen = True; nd, pc = head; a = [avint(v) for v in nd["a"]]
        if None in a: out.append(("undecided", key, "undetermined size")); continue
        mine = [(c, el) for c, el in alts if satisfiable(c if pc is None else pc if c is None else mk("and", 1, c, pc), g)]
        if not mine: continue
        for c, el in mine:
            el = el + extra; n = len(el)
            where = c if pc is None else pc if c is None else mk("and", 1, c, pc)
            if a[0] != 1 or typename(a[1]) != ELEMENT[w] or a[2] != n + 1 or a[3] != (n + 1) * w or a[4] != w or a[5] != n * w:
                out.append(("violation", key + " size", "the literal is an array of %s %s (%s bytes, alignment %s, %s bytes of contents) instead of %d %s" % (a[2], typename(a[1]), a[3], a[4], a[5], n + 1, ELEMENT[w]))); continue
            for i, e in enumerate(el):
                got = None
                for b in range(w):
                    v = av(data.get(i * w + b, {}))
                    if v is None: got = None; break
                    v = mk("shl", 8 * w, mk("zext", 8 * w, v), const(8 * w, 8 * b)); got = v if got is None else mk("or", 8 * w, got, v)
                if got is None: out.append(("undecided", key, "undetermined contents")); continue
                p, wit = differ(e, got, g, where, limit=3000)
                if wit: out.append(("violation", key, "element %d is 0x%x instead of 0x%x, e.g. for %s" % (i, wit[2] if isinstance(wit[2], int) else 0, wit[1], wit[0])))
                else: out.append(("proved" if p else "agreed", key, ""))
    if not seen and not out: out.append(("undecided", key, "the analysis does not reach the result"))
    return out

def decide_char(x):
    (pre, cs, units, where_), results = x; w = PREFIX[pre]; out = []
    at = len(pre) + 1; key = "character constant %s'%s'%s" % (pre, spell(cs), " in #if" if where_ == "if" else "")
    g = grids_of(cs, at); alts = [a for a in contents(at, cs, units, w, g) if len(a[1]) == 1]
    if not alts: return []
    t = {1: "s32", 2: "u16", 4: "u32"}[w]
    for r in results:
        for nd in r["nodes"]:
            pc = from_json(nd["pc"]) if nd.get("pc") else None
            if nd["k"] == "obs" and nd["t"] in ("integer", "value"):
                if nd["t"] == "integer":
                    if typename(avint(nd["a"][0])) != t or typename(avint(nd["a"][1])) != t: out.append(("violation", key + " type", "the constant has type %s instead of %s" % (typename(avint(nd["a"][0])), t))); continue
                    got = av(nd["a"][2]); gw = bits(t)
                else: got = av(nd["a"][0]); gw = 64
                if got is None: out.append(("undecided", key, "undetermined value")); continue
                for c, el in alts:
                    want = mk("sext" if w == 1 else "zext", gw, el[0]); wh = c if pc is None else pc if c is None else mk("and", 1, c, pc)
                    if not satisfiable(wh, g): continue
                    p, wit = differ(want, mk("trunc", gw, got), g, wh, limit=3000)
                    if wit: out.append(("violation", key, "the value is %s instead of %s, e.g. for %s" % (wit[2], wit[1], wit[0])))
                    else: out.append(("proved" if p else "agreed", key, ""))
            elif nd["k"] in ("prune", "assert", "panic"):
                for c, el in alts:
                    if satisfiable(c if pc is None else pc if c is None else mk("and", 1, c, pc), g): out.append(("violation", key + " rejected", "%s: %s" % (nd["l"], nd["t"])))
    if not out: out.append(("undecided", key, "the analysis does not reach the result"))
    return out

BADSTR = [("", '\\x', "an escape without digits"), ("", "\\x100", "a hexadecimal escape beyond a byte"), ("", "\\400", "an octal escape beyond a byte"), ("L", "\\x10000", "a hexadecimal escape beyond 16 bits"), ("", "\\q", "an unknown escape"), ("", "\\u12", "an incomplete \\u"), ("", "\\U1234567", "an incomplete \\U"), ("", "\\u12g4", "a \\u with a non-digit"), ("L", "\xff\xff".encode("latin1").decode("latin1"), "invalid utf-8"), ("L", "\\uD800", "a lone surrogate")]

def check(rep):
    m = sa.build_module("pp.c")
    ty = sa.run_jobs(m, [{"query": "types", "id": "types"}])[0]["result"]["enums"]
    tok, nk = ty.get("token_type"), ty.get("number_kind")
    if not tok or not nk: raise sa.Broken("the enumerations token_type and number_kind are gone")
    common_ = dict(prune=["report_error", "report_syntax_error"], skip=["report_warning"], max_steps=600000)
    def T(k): return tok["TOKEN_%s_literal" % k]
    work = []   # (decide function, description, job)
    for n in numbers(): work.append((decide_number, n, dict(id="n", fn="h_number", args=[T(n[0]), len(n[1])], init={"h_chars": n[1]}, stub=STUBS, **common_)))
    for kind in ("base10", "hex", "octal", "binary"):
        for s in sorted(set(SUFFIX.values())):
            for lo, hi in RANGES: work.append((decide_constant, (kind, s, lo, hi), dict(id="c", fn="h_constant", args=[T(kind), nk["NUMBER_KIND_" + s], lo - (1 << 64) if lo >> 63 else lo, hi - (1 << 64) if hi >> 63 else hi], stub=dict(STUBS, **LIT), **common_)))
    for pre, cs, units in strings():
        full = chars(pre, '"', cs, '"')
        work.append((decide_string, (pre, cs, units, 1), dict(id="s", fn="h_spelled", args=[1, T("string"), len(full), 0, 0, 0, 0], init={"h_chars": full}, stub=STUBS, **common_)))
        full = chars(pre, "'", cs, "'")
        if cs and ord("'") not in cs[-1:]:
            work.append((decide_char, (pre, cs, units, ""), dict(id="s", fn="h_spelled", args=[1, T("character"), len(full), 0, 0, 0, 0], init={"h_chars": full}, stub=STUBS, **common_)))
            work.append((decide_char, (pre, cs, units, "if"), dict(id="s", fn="h_if_character", args=[len(full)], init={"h_chars": full}, stub=dict(STUBS, next_token="__sa_stub__next", get_current_token_for_error_report="__sa_stub__current"), **common_)))
    # adjacent literals: the widest prefix decides
    for a, b in itertools.product(PREFIX, repeat=2):
        w = max(PREFIX[a], PREFIX[b]); pre = {1: "", 2: "L", 4: "U"}[w]
        cs = chars("k", DEC); 
        f1 = chars(a, '"', cs, '"'); f2 = chars(b, '"z"')
        pr = a if PREFIX[a] == w else next(p for p in PREFIX if PREFIX[p] == w and len(p) == len(a)) if any(PREFIX[p] == w and len(p) == len(a) for p in PREFIX) else None
        if pr is None: continue
        work.append((decide_string, (pr, cs, [(0, lambda i: (const(32, ord("k")), "point")), (1, (lambda i: (mk("zext", 32, byte(i, DEC)), "point")))], 2), dict(id="s", fn="h_spelled", args=[2, T("string"), len(f1), T("string"), len(f2), 0, 0], init={"h_chars": f1 + f2}, stub=STUBS, **common_)))
    nbad = len(work)
    for pre, s, why in BADSTR:
        full = chars(pre, '"', s, '"'); work.append((None, (pre, s, why), dict(id="b", fn="h_spelled", args=[1, T("string"), len(full), 0, 0, 0, 0], init={"h_chars": full}, stub=STUBS, **common_)))
    def unsettled(i, r):
        for n in r["nodes"]:
            if n["k"] == "obs" and n["t"] in ("value", "integer"): return any(av(a) is None for a in n["a"][:1])
            if n["k"] == "obs" and n["t"] == "string": return avint(n["a"][2]) is None or avint(n["a"][3]) is None
        return not any(n["k"] in ("prune", "assert") for n in r["nodes"])
    res = sa.run_split(m, [w[2] for w in work], unsettled)
    for rs in res:
        for r in rs: rep.count("basic_blocks_interpreted", r["stat"].get("blocks", 0))
    rep.count("literal_templates", len(work)); rep.count("cases_after_trace_partitioning", sum(map(len, res)))
    for (d, t, j), rs in zip(work, res):
        if d is None:
            errs = [n for r in rs for n in r["nodes"] if n["k"] in ("prune", "assert", "panic")]; got = [n for r in rs for n in r["nodes"] if n["k"] == "obs" and n["t"] == "string"]
            if got or not errs: rep.violation("string literal with %s" % t[2], "%s\"%s\" is accepted" % (t[0], t[1].encode("unicode_escape").decode()))
            else: rep.count("obligations_equal_by_normal_form")
    global WORK; WORK = [(d, (t, rs) if d is not decide_number else (t, rs, nk)) for (d, t, j), rs in zip(work, res) if d]
    with multiprocessing.Pool(8) as p: outs = p.map(one, range(len(WORK)), chunksize=16)
    for o in outs:
        for v, k, t in o:
            if v == "violation": rep.violation(k, t); rep.count("obligations_violated")
            elif v == "undecided": rep.undecide("%s: %s" % (k, t))
            elif v == "proved": rep.count("obligations_equal_by_normal_form")
            else: rep.count("obligations_equal_on_operand_classes")
    if len(rep.undecided) > 0.15 * len(work): raise sa.Broken("%d of %d templates cannot be decided, e.g. %s" % (len(rep.undecided), len(work), rep.undecided[:3]))
    rep.need("literal_templates", 1500)
    rep.explanation = """The functions that interpret literals (parse_base10_literal and its siblings, the literal cases of parse_expression, the conversion of
escape sequences and encodings) are compiled to LLVM IR from the current tree and abstractly interpreted on spellings whose digits and characters are
symbolic: every length up to and beyond 64 bits in every base, digit separators, every suffix in every letter case, every value class of every suffix, every
escape sequence, universal character name and utf-8 source sequence in every string and character prefix. The resulting value, type, contents and diagnostics,
as expressions over the characters, are compared with C11 6.4.4 and 6.4.5: by normal form or on boundary classes of the characters. Nothing is executed and no
solver is used."""
    rep.assumptions = ["the tokenizer has delimited the token", "character constants of several characters are implementation-defined and not specified", "code points above 10FFFF and malformed utf-8 are only required to be diagnosed where listed",
                       "floating point literals are converted by strtod, which is trusted"]
def one(i):
    d, x = WORK[i]; return d(x)
