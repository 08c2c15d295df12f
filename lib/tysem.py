"""C types: rendering declarations as tokens, and the layout the Microsoft x64 ABI gives them.

A type is ("b", name) | ("p", T) | ("a", n, T) | ("f", R, [T], variadic) | ("t", k) a typedef | ("c", Compound) | ("e",) an enum.
n and bit-field widths are integers or ("sym", lo, hi, index)."""
import itertools
BUILTIN = ["void", "Bool", "s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "f32", "f64"]
SIZE = dict(zip(BUILTIN, (0, 1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8)))
SPELL = {"void": "void", "Bool": "Bool", "s8": "char", "u8": "unsigned char", "s16": "short", "u16": "unsigned short", "s32": "int", "u32": "unsigned", "s64": "long long", "u64": "unsigned long long", "f32": "float", "f64": "double"}
ATOMIC = {"Bool": 15, "s8": 16, "u8": 17, "s16": 18, "u16": 19, "s32": 20, "u32": 21, "s64": 22, "u64": 23}
PUNCT = {"*": "times", "(": "open_paren", ")": "closed_paren", "[": "open_index", "]": "closed_index", "{": "open_curly", "}": "closed_curly", ",": "comma", ";": "semicolon", ":": "colon", "...": "dotdotdot", "=": "equals"}

class Compound:
    """members: (kind, ...): ("m", name, T, align or 0) | ("bf", name or None, base, width) | ("anon", T)"""
    def __init__(s, union, members, align=0, packed=False): s.union = union; s.members = members; s.align = align; s.packed = packed

class Text:
    """a token sequence under construction"""
    def __init__(s): s.toks = []; s.lits = []
    def add(s, text):
        for w in text.split(): s.toks.append(w)
    def source(s):
        out = []
        for w in s.toks:
            if w[0] == "#":
                n = s.lits[int(w[1:])]; out.append(str(n) if isinstance(n, int) else "N%s" % w[1:])
            elif w[0] == "%": out.append("v" + w[1:])
            elif w[0] == '"': out.append('%s"%s"' % ({"1": "", "2": "L", "4": "U"}[w[-1]], "ABCDEFGH"[:int(w[1:-2])]))
            else: out.append({"Bool": "_Bool"}.get(w, w))
        return " ".join(out)

def specifier(t, x):
    """emits the specifiers of the innermost type"""
    k = t[0]
    if k == "b": x.add(SPELL[t[1]])
    elif k == "q": x.add(t[1])
    elif k == "t": x.add("@" + "TUVW"[t[1]])
    elif k == "c":
        c = t[1]; x.add("union" if c.union else "struct")
        if c.align: x.add("__declspec ( $align ("); lit(x, c.align); x.add(") )")
        if c.packed: x.add("__declspec ( $packed )")
        x.add("{")
        for m in c.members:
            if m[0] == "m":
                if m[3]: x.add("__declspec ( $align ("); lit(x, m[3]); x.add(") )")
                declaration(m[2], m[1], x)
            elif m[0] == "bf":
                specifier(("b", m[2]), x)
                if m[1]: x.add("@" + m[1])
                x.add(":"); lit(x, m[3])
            else: specifier(m[1], x)
            x.add(";")
        x.add("}")
    else: raise KeyError(k)
def lit(x, n): x.lits.append(n); x.toks.append("#%d" % (len(x.lits) - 1))
def base(t):
    while t[0] in "paf": t = t[2] if t[0] == "a" else t[1]
    return t
def declarator(t, name, x):
    """emits the declarator that gives a name (or nothing) the type t"""
    pre, post = [], []; last = "n"
    parts = []   # from the name outwards
    while t[0] in "paf":
        parts.append(t); t = t[2] if t[0] == "a" else t[1]
    left, right = [], []
    for p in parts:
        if p[0] == "p": left.append("*")
        else:
            if left and left[-1] == "*": left.append("("); right.append(")")
            right.append(p)
    for w in reversed(left): x.add(w)
    if name: x.add("@" + name)
    for w in right:
        if w == ")": x.add(")")
        elif w[0] == "a":
            x.add("[")
            if w[1] is not None: lit(x, w[1])
            x.add("]")
        else:
            x.add("(")
            ps = w[2]
            if ps == "void": x.add("void"); ps = []
            for i, q in enumerate(ps):
                if i: x.add(",")
                nm = None
                if q[0] == "named": nm, q = q[1], q[2]
                declaration(q, nm, x)
            if w[3]: x.add(", ..." if ps else "...")
            x.add(")")
def declaration(t, name, x):
    specifier(base(t), x); declarator(t, name, x)

# ---------------------------------------------------------------- what the harness should report
TYPEDEFS = [("b", "u16"), ("p", ("b", "s32")), ("a", 6, ("b", "s16")), ("b", "void")]
class Illegal(Exception): pass
class Reader:
    """evaluates a type at one valuation: literals are taken from the token order"""
    def __init__(s, env, pack=16, typedefs=None): s.env = env; s.pack = pack; s.typedefs = typedefs or TYPEDEFS
    def val(s, n): return n if isinstance(n, int) else s.env[n[3]]
    def size(s, t): return s.info(t)[0]
    def info(s, t):
        """size, alignment, required (explicit) alignment"""
        k = t[0]
        if k == "b": return SIZE[t[1]], max(1, SIZE[t[1]]), 0
        if k == "p": return 8, 8, 0
        if k == "a":
            z, a, r = s.info(t[2]); n = 0 if t[1] is None else s.val(t[1])
            if n > 0x7fffffff or n * z > 0x7fffffff: raise Illegal()
            return z * n, a, r
        if k == "t": return s.info(s.typedefs[t[1]])
        if k == "f": return 0, 1, 0
        if k == "q": return s.info(("b", t[2]))
        if k == "c": r = s.compound(t[1]); return r[:3]
        raise KeyError(k)
    def compound(s, c):
        """size, alignment, required alignment, members (name, offset, type report, next)"""
        key = id(c)
        size, align, req = 0, max(1, c.align), c.align
        bits = None   # (size of the unit, its offset, bits used)
        out = []; fields = []
        for m in c.members:
            if m[0] == "bf":
                w = s.val(m[3]); z = SIZE[m[2]]
                if w > z * 8: raise Illegal()
                a = 1 if c.packed else min(z, s.pack)
                if w == 0:
                    if m[1]: raise Illegal()
                    if bits is not None and not c.union: size = -(-size // a) * a; align = max(align, a)
                    fields.append((size if not c.union else 0) * 8); bits = None; continue
                if bits is not None and not c.union and bits[0] == z and bits[2] + w <= z * 8:
                    off, at = bits[1], bits[2]; bits = (z, off, at + w)
                else:
                    at = 0
                    if c.union: off = 0; size = max(size, z)
                    else: off = -(-size // a) * a; size = off + z
                    bits = (z, off, w); align = max(align, a)
                fields.append(off * 8 + at)
                if m[1]: out.append((m[1], off, [("type", 6, at, w, z)] + s.report(("b", m[2])), 1))
                continue
            bits = None
            t = m[2] if m[0] == "m" else m[1]
            z, a, r = s.info(t)
            ex = m[3] if m[0] == "m" else 0
            if ex: a = ex
            elif c.packed: a = 1
            elif not r: a = min(a, s.pack)
            req = max(req, ex, r if not c.packed else 0)
            if c.union: off = 0; size = max(size, z)
            else: off = -(-size // a) * a; size = off + z
            align = max(align, a); fields.append(off * 8)
            if m[0] == "m": out.append((m[1], off, s.report(t), 1))
            else:
                n = t[1]; sub = s.compound(n)[3]
                out.append((None, off, s.report(t), len(sub) + 1))
                end = 0
                for i, (nm, o, rp, nx) in enumerate(sub):
                    if n.union:
                        direct = i == end
                        if direct: end = i + nx
                        if direct or i + nx >= end: nx = len(sub) - i
                    out.append((nm, off + o, rp, nx))
        s.last_fields = fields
        return -(-size // align) * align, align, req, out
    def fields(s, c): s.compound(c); return s.last_fields
    def report(s, t):
        k = t[0]
        if k == "b": i = BUILTIN.index(t[1]); return [("type", 0, i, SIZE[t[1]], max(1, SIZE[t[1]]))]
        if k == "q": return s.report(t[3]) if len(t) > 3 else s.report(("b", t[2]))
        if k == "atomic": return [("type", 0, ATOMIC[t[1]], SIZE[t[1]], SIZE[t[1]])]
        if k == "t": return s.report(s.typedefs[t[1]])
        if k == "p": return [("type", 1, 8, 8, 0)] + s.report(t[1])
        if k == "a":
            z, a, r = s.info(t); n = 0 if t[1] is None else s.val(t[1])
            return [("type", 2, z, a, n, int(n == 0))] + s.report(t[2])
        if k == "f":
            ps = [] if t[2] == "void" else [p[2] if p[0] == "named" else p for p in t[2]]
            if len(ps) == 1 and ps[0] in (("b", "void"), ("t", 3)) and t[2][0][0] != "named": ps = []
            out = [("type", 3, len(ps), int(t[3]))] + s.report(t[1])
            for p in ps:
                while p[0] == "t": p = s.typedefs[p[1]]
                if p[0] == "a": p = ("p", p[2])
                elif p[0] == "f": p = ("p", p)
                out += s.report(p)
            return out
        if k == "c":
            size, align, req, ms = s.compound(t[1])
            out = [("type", 5 if t[1].union else 4, size, align, len(ms))]
            for nm, off, rp, nx in ms: out.append(("member", ord(nm) if nm else 0, off, nx)); out += rp
            return out
        raise KeyError(k)

def code(tok, w):
    if w[0] == "@": return tok["TOKEN_identifier"] | ord(w[1]) << 16
    if w[0] == "$": return tok["TOKEN_identifier"] | {"$align": 200, "$packed": 201}[w] << 16
    if w[0] == "#": return tok["TOKEN_base10_literal"] | int(w[1:]) << 16
    if w[0] == "%": return tok["TOKEN_character_literal"] | int(w[1:]) << 16
    if w[0] == '"': n, z = w[1:].split(":"); return tok["TOKEN_string_literal"] | int(n) << 16 | int(z) << 24
    if w == ".": return tok["TOKEN_dot"]
    if w in PUNCT: return tok["TOKEN_" + PUNCT[w]]
    return tok["TOKEN_" + {"__declspec": "declspec"}.get(w, w)]
def job(tok, label, x, mode, pack=16):
    his = [n if isinstance(n, int) else n[2] for n in x.lits]; los = [n if isinstance(n, int) else n[1] for n in x.lits]
    return dict(id=label, fn="h_declare", args=[mode, len(x.toks), pack], prune=["report_error", "report_syntax_error"], skip=["report_warning", "report_type_mismatch__internal", "push_format_string"], max_steps=600000,
                init={"h_in": [code(tok, w) for w in x.toks], "h_lo": los or [0], "h_hi": his or [0]},
                stub={"parse_constant_integer_expression": "__sa_stub__constant", "lookup_typedef": "__sa_stub__typedef", "maybe_report_error_for_stack_exhaustion": "__sa_stub__no_exhaustion", "register_declaration": "__sa_stub__register"})

# ---------------------------------------------------------------- judging
import random
from sx import from_json, av, avint, leaves, compiled, show
NAMES = {0: "builtin", 1: "pointer", 2: "array", 3: "function", 4: "struct", 5: "union", 6: "bit-field"}
FIELDS = {("type", 0): ("is", "size", "alignment"), ("type", 1): ("size", "alignment", "atomic"), ("type", 2): ("size", "alignment", "elements", "of unknown size"),
          ("type", 3): ("parameters", "variadic"), ("type", 4): ("size", "alignment", "members"), ("type", 5): ("size", "alignment", "members"), ("type", 6): ("first bit", "width", "size")}
def grid(lo, hi):
    if hi - lo <= 72: return list(range(lo, hi + 1))
    return sorted({x for x in (lo, lo + 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 31, 100, 255, 1000, hi - 1, hi) if lo <= x <= hi})
def valuations(lits, limit):
    ax = [(l[3], grid(l[1], l[2])) for l in lits if not isinstance(l, int)]
    n = 1
    for _, g in ax: n *= len(g)
    if n <= limit:
        for c in itertools.product(*[g for _, g in ax]): yield dict(zip([i for i, _ in ax], c))
    else:
        r = random.Random(7)
        for _ in range(limit): yield {i: g[r.randrange(len(g))] if r.random() < .5 else g[r.choice((0, 1, -1, len(g) // 2))] for i, g in ax}
def judge(key, r, lits, expected, limit=3000, values=({},)):
    """expected(env): the observations a correct compiler makes, or raises Illegal.  Yields (verdict, key, text)."""
    if r.get("budget") or r.get("unk_stores") or any(c.startswith("recursion") for c in r.get("unk_calls", ())): yield ("undecided", key, "imprecise"); return
    rows = []; ex = []
    for n in r["nodes"]:
        if n["k"] == "facts" : continue
        pc = from_json(n["pc"]) if n.get("pc") else None
        if pc is not None and any(l.startswith("?") for l in leaves(pc)): yield ("undecided", key, "unknown condition at " + n["l"]); return
        args = [av(a) for a in n["a"]] if n["k"] == "obs" else []
        if n["k"] == "obs" and any(a is None or any(l.startswith("?") for l in leaves(a)) for a in args): yield ("undecided", key, "undetermined value at " + n["l"]); return
        rows.append((n["k"], n["t"], n["l"], len(args))); ex.append(pc); ex += args
    f = compiled(ex); cnt = 0
    pos = {l[3]: i for i, l in enumerate(lits) if not isinstance(l, int)}
    for env, vs in itertools.product(valuations(lits, limit), values):
        cnt += 1; env = dict(env); env.update(vs)
        vals = f({(i if isinstance(i, str) else "n%d" % pos[i]): v for i, v in env.items()})
        got = []; rejected = None; i = 0
        for k, t, l, na in rows:
            if vals[i] is None or vals[i]:
                if k == "obs": got.append((t,) + vals[i + 1:i + 1 + na])
                elif rejected is None and k in ("prune", "assert", "panic"): rejected = (k, t, l)
            i += 1 + na
        at = "" if not env else " for " + ", ".join("N%d = %d" % (pos[a], b) for a, b in env.items() if not isinstance(a, str))
        try: want = expected(env)
        except Illegal:
            if rejected is None: yield ("violation", key + " accepted", "the declaration is not valid%s but no error is reported" % at); return
            if rejected[0] != "prune": yield ("violation", key + " assertion", "the compiler's own check fails at %s%s" % (rejected[2], at)); return
            continue
        if rejected: yield ("violation", key + " rejected", "%s: %s%s" % (rejected[2], rejected[1], at)); return
        if len(got) != len(want) or any(g[0] != w[0] or g[1:1 + len(w) - 1] != tuple(w[1:]) for g, w in zip(got, want)):
            yield ("violation", key, explain(got, want) + at); return
    yield ("agreed", key, cnt)
def explain(got, want):
    member = ""
    for g, w in itertools.zip_longest(got, want):
        if w is not None and w[0] == "member": member = " of member %s" % (chr(w[1]) if w[1] else "<anonymous>")
        if g is None or w is None: return "%d facts instead of %d: %s" % (len(got), len(want), (got[len(want):] or want[len(got):])[:2])
        if g[0] != w[0] or (g[0] == "type" and g[1] != w[1]): return "%s%s instead of %s" % (g, member, w)
        if g[1:1 + len(w) - 1] != tuple(w[1:]):
            fs = ("name", "offset", "next member") if g[0] == "member" else FIELDS[("type", w[1])] if g[0] == "type" else None
            a, b = (g[1:], w[1:]) if g[0] != "type" else (g[2:], w[2:])
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y: return "%s%s is %d instead of %d" % ((fs[i] + (" of the " + NAMES[w[1]] if g[0] == "type" else "")) if fs else g[0], member, x, y)
    return "?"
