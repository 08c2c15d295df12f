"""The source text is split into the longest possible tokens, each with its kind, its place and its extent."""
import itertools, random
import sa
from preproc import *
LEVEL = "other"
CH = ["[", "]", "(", ")", "{", "}", ".", "-", ">", "+", "&", "*", "~", "!", "/", "%", "<", "=", "^", "|", "?", ":", ";", ",", "#"]
WORDS = KEYWORDS + ["__int8", "__int32", "__int64", "__func__", "__asm__", "__declspec", "_cdecl"]
NUMBERS = ["0", "1", "9", "12", "007", "0x0", "0xfF", "0XaB12", "0b1", "0B01", "1u", "1UL", "0x1ull", "1.", ".5", "1.5", "1e5", "1.e+5", ".5E-3", "1.5f", "2.L", "0x1p3", "0x1.8p-3", "0x.8P+2f", "0xep1", "1'000", "0x1'F", "10i64", "3ui8", "01u", "0xDEADBEEF", "1e5f", "08.5", "09e1"]
def every_number():
    """every form of constant"""
    out = [a + b + c + d for a in ("", "0", "07", "09", "1", "12") for b in ("", ".", ".0", ".5") for c in ("", "e1", "E+1", "e-12", "E0") for d in ("", "f", "F", "l", "L")]
    out += [a + b + c + d + e for a in ("0x", "0X") for b in ("", "1", "aF") for c in ("", ".", ".8", ".f") for d in ("p1", "P-3", "p+2") for e in ("", "f", "L")]
    out += [a + b for a in ("0x1F", "0XaB", "017", "0", "9", "10", "0b1", "0B01") for b in ("", "u", "U", "l", "L", "ul", "Lu", "ll", "LL", "ull", "uLL", "LLU", "i8", "i16", "i32", "i64", "ui8", "ui64")]
    return [t for t in dict.fromkeys(out) if CONSTANT.fullmatch(t) and NUMBER.fullmatch(t)]
STRINGS = ['""', '"a"', '"\\""', '"\\\\"', "'a'", "'\\''", "'\\\\'", "'\"'", '"\'"', 'L"a"', "L'a'", 'u8"a"', 'u"a"', 'U"a"', "u'a'", "U'a'", '"/*"', '"//"', "'//'", '"a b"', '"#"', "'#'", '"a\\\n"', '"\\\r\nb\\\\\\\nc"', "'\\\nx'", "L'\\\r\ny'", '"\\\n\\\n"', '"\\x41\\101"', '"' + "s" * 40 + '"']
IDENTS = ["a", "_b", "L", "u", "u8", "U", "Lx", "u8x", "u9", "x1", "$d", "e1", "ifx", "If", "iff", "doo", "d", "long_", "a" * 63, "a" * 64, "b" * 129, "\u00e9t\u00e9", "xor", "asm", "define", "x0x1", "l", "R"]
SPACES = [" ", "\t", "  ", "\v", "\f", "/**/", "/* a */", "/* * / ** */", "/*/*/", " \t ", "\\\n", "\\\r\n", " \\\n ", "/*\n*/", "/* a\n\n b */", "\\ \n"]
ENDS = ["\n", "\r\n", "\n\n", " // c\n", "// \" ' /* \n", "\n\r\n", "//\n", "/* a */\n", "\r\n\r\n"]
def texts():
    three = ["".join(c) for c in itertools.product(CH, repeat=3)] + ["".join(c) for c in itertools.product(CH, repeat=2)] + CH
    three = [t for t in three if "//" not in t and "/*" not in t]
    for i in range(0, len(three), 120): yield " ".join(three[i:i + 120]) + "\n"
    for ws in (WORDS, IDENTS, NUMBERS, STRINGS):
        for i in range(0, len(ws), 40): yield " ".join(ws[i:i + 40]) + "\n"; yield "\n".join(ws[i:i + 40])
    en = every_number()
    for i in range(0, len(en), 40): yield " ".join(en[i:i + 40]) + "\n"; yield "".join(t + CH[(i + k * 7) % len(CH)] for k, t in enumerate(en[i:i + 40]) if not CH[(i + k * 7) % len(CH)] in "./") + "\n"
    items = WORDS + IDENTS * 2 + NUMBERS * 2 + STRINGS * 2
    deep = sa.TIER == "thorough"; r = random.Random(22 if not deep else 2222 + sa.SEED)
    for n in range(160 if not deep else 2500):
        out = []
        for _ in range(r.randrange(20, 90)):
            p = r.random()
            t = r.choice(items) if p < .55 else "".join(r.choice(CH) for _ in range(r.choice((1, 1, 2, 3, 4))))
            out.append(t); p = r.random()
            out.append(r.choice(SPACES) if p < .5 else r.choice(ENDS) if p < .65 else "")
        yield "".join(out)
    for bad in ('"a', "'a", '"a\n', "/*", "/* a *", "a /*/", '"\\"', "'\\'", 'L"', '"a\\', "'\\", '"\\\r', '"\\\n', "\x01", "a \x00 b", "\x7f"): yield bad; yield "x\n" + bad
    for e in ("", "\\\n", "\r", "//", "//x", "/**/", "a", "1", "<", "'", "\\"): yield "x " + e
def judge(names, text, r):
    if r.get("budget"): raise Open("budget")
    stop = next((n for n in r["nodes"] if n["k"] in ("prune", "assert", "panic")), None)
    if stop and stop["k"] != "prune": return "the compiler's own check fails at " + stop["l"], 0
    ok = any(n["t"] == "facts" for n in r["nodes"])
    try: want = lines_of(text)
    except Wrong: return ("accepted, but it is not valid" if ok else None), 0
    if not ok: return "rejected at %s" % (stop["l"] if stop else "the end"), 0
    starts = [0]
    raw = text.encode("latin-1"); got = []; at = 0
    for n in r["nodes"]:
        if n["k"] != "obs" or n["t"] != "raw": continue
        v = [avint(a) for a in n["a"]]
        if None in v or n.get("pc") not in (None, [], 1): raise Open("imprecise")
        k = names.get(v[0])
        if v[1] != at: return "token %d starts at byte %d, the one before ends at byte %d" % (len(got), v[1], at), 0
        at += v[2]
        if k in ("whitespace", "comment"): continue
        got.append((k, text[v[1]:v[1] + v[2]], v[3], v[4], v[5]))
    exp = []
    for i, (ts, line) in enumerate(want):
        exp += [(None, t.text, t.line, t.col, t) for t in ts]
        exp.append(("newline", "", line, None, None))
    if exp and exp[-1][0] == "newline" and not text.endswith(("\n", "\r")): exp.pop()
    real = [g for g in got if g[0] != "newline"]; wanted = [e for e in exp if e[4]]
    for g, w in zip(real, wanted):
        if g[1] != w[1]: return "%r is read as %r where %r begins" % (text.split("\n")[w[2] - 1][:60], g[1], w[1]), 0
        k = kind_of(w[4], final=False)
        if k and g[0] != k: return "%r is of kind %s and has to be of kind %s" % (g[1], g[0], k), 0
        if not g[4]: return "the hash of %r is not the hash of its spelling" % g[1], 0
        if (g[2], g[3]) != (w[2], w[3]): return "%r is at line %d, column %d, and has to be at line %d, column %d" % (g[1], g[2], g[3], w[2], w[3]), 0
    if len(real) != len(wanted): return "%d tokens instead of %d" % (len(real), len(wanted)), 0
    # the ends of the lines are where directives end
    def ends(x):
        out = []; n = 0
        for e in x:
            if e[0] == "newline": out.append(n)
            else: n += 1
        return out
    ge = ends(got); we = ends(exp)
    if ge[:len(we)] != we: return "the lines end after %s tokens and have to end after %s" % (ge[:40], we[:40]), 0
    return None, len(real)
def check(rep):
    m = sa.build_module("pr.c"); names = kinds(m); todo = []
    for t in texts():
        try: lines_of(t)
        except Open: continue
        except Wrong: pass
        todo.append(t)
    for t, r in zip(todo, sa.run_jobs(m, [raw_job("r%d" % i, list(t.encode("latin-1"))) for i, t in enumerate(todo)])):
        r = r.get("result", r)
        if "nodes" not in r: raise sa.Broken(str(r)[:300])
        try: d, n = judge(names, t, r)
        except Open as e: rep.undecide("%s: %r" % (e, t)); continue
        rep.count("texts"); rep.count("tokens", n)
        if d: rep.violation("text %r" % t[:3000], d)
    rep.need("texts", 200); rep.need("tokens", 8000)
    rep.explanation = "tokenize_raw and the vectorised scanning loops and tables it uses are followed by abstract interpretation over texts that contain every sequence of up to three punctuation characters, every keyword, every form of constant and literal, and random mixtures of them with white space, comments and line continuations; kinds, extents, lines, columns and hashes are compared with an independent maximal-munch tokenizer"
    rep.assumptions = ["texts outside the grammar above (for example very long lines) are not examined"]
