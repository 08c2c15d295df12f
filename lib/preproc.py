"""Preprocessing: running the analysis on texts, and an independent reading of what a text means."""
import os, sa
os.environ["HLCSA_IRREDUCIBLE"] = "1"
from sx import avint
PRUNE = ["report_error", "report_syntax_error", "tokenizer_report_error"]
SKIP = ["report_warning", "print"]
STUB = {"push_format_string": "__sa_stub__format",
        "os_reserve_memory": "__sa_stub__reserve", "os_commit_memory": "__sa_stub__commit",
        "load_or_get_source_file_by_absolute_path": "__sa_stub__main_file", "get_or_load_file_for_include_string": "__sa_stub__include",
        "maybe_report_error_for_stack_exhaustion": "__sa_stub__no_exhaustion"}
def unit_job(label, files):
    src = [c for f in files for c in (f if isinstance(f, (list, tuple)) else f.encode())]
    assert len(src) <= 16384 and all(len(f) for f in files)
    return dict(id=label, fn="h_unit", args=[0], prune=PRUNE, skip=SKIP, stub=STUB, max_steps=600000, init={"h_source": src, "h_size": [len(f) for f in files] + [0]})
def raw_job(label, text, pad=2):
    src = list(text) if isinstance(text, (list, tuple)) else list(text.encode())
    return dict(id=label, fn="h_raw", args=[len(src), pad], prune=PRUNE, skip=SKIP, stub=STUB, max_steps=600000, init={"h_source": src})
def spelled(n, ints):
    size = ints[1]; b = b"".join((x & (1 << 64) - 1).to_bytes(8, "little") for x in ints[4:20])
    return b[:size].decode("latin-1")

# ---------------------------------------------------------------- what a text means, read independently
import re
PUNCT = {"...": "dotdotdot", "<<=": "left_shift_equals", ">>=": "right_shift_equals", "->": "arrow", "++": "increment", "--": "decrement", "<<": "left_shift", ">>": "right_shift",
         "<=": "smaller_equals", ">=": "bigger_equals", "==": "logical_equals", "!=": "logical_unequals", "&&": "logical_and", "||": "logical_or", "*=": "times_equals", "/=": "div_equals",
         "%=": "mod_equals", "+=": "plus_equals", "-=": "minus_equals", "&=": "and_equals", "^=": "xor_equals", "|=": "or_equals", "##": "hashhash", "[": "open_index", "]": "closed_index",
         "(": "open_paren", ")": "closed_paren", "{": "open_curly", "}": "closed_curly", ".": "dot", "&": "and", "*": "times", "+": "plus", "-": "minus", "~": "bitwise_not", "!": "logical_not",
         "/": "slash", "%": "mod", "<": "smaller", ">": "bigger", "^": "xor", "|": "or", "?": "question_mark", ":": "colon", ";": "semicolon", "=": "equals", ",": "comma", "#": "hash"}
KEYWORDS = """auto break case char const continue default do double else enum extern float for goto if inline int long register return short signed sizeof static struct switch typedef union
 unsigned void volatile while _Alignas _Alignof _Atomic _Bool _Generic _Noreturn _Static_assert _Thread_local""".split()
IDENT = re.compile(r"[A-Za-z_$\x80-\xff][A-Za-z0-9_$\x80-\xff]*", re.S)
NUMBER = re.compile(r"\.?[0-9](?:[eEpP][+-]|'[0-9A-Za-z_]|[0-9A-Za-z_.])*")
CONSTANT = re.compile(r"(?:(?:0[xX](?:[0-9a-fA-F]'?)*[0-9a-fA-F]|0[bB][01']*[01]|[0-9](?:'?[0-9])*)(?:[uU]?(?:ll|LL|[lL])?|(?:ll|LL|[lL])[uU]|[uU]?i(?:8|16|32|64))|(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+(?=[eE]))(?:[eE][+-]?[0-9]+)?[fFlL]?|0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)[pP][+-]?[0-9]+[fFlL]?)\Z")
LITERAL = re.compile(r"""(?:u8(?=")|[LuU])?(?:"(?:\\(?:\r\n|.)|[^"\\\n])*"|'(?:\\(?:\r\n|.)|[^'\\\n])*')""", re.S)
class Wrong(Exception): pass       # a text the preprocessor must reject
class Open(Exception): pass        # a text whose meaning the property leaves open

class Tok:
    __slots__ = ("kind", "text", "ws", "line", "col", "file", "painted", "src")
    def __init__(s, kind, text, ws=False, line=0, col=0, file=0, painted=False, src=None): s.kind = kind; s.text = text; s.ws = ws; s.line = line; s.col = col; s.file = file; s.painted = painted; s.src = src
    def copy(s, **k):
        t = Tok(s.kind, s.text, s.ws, s.line, s.col, s.file, s.painted, s.src)
        for a, v in k.items(): setattr(t, a, v)
        return t
    def __repr__(s): return s.text
PLACE = "placemarker"
def lines_of(text, file=0):
    """the logical lines: lists of tokens"""
    i = 0; n = len(text); line = 1; start = 0; out = []; cur = []; ws = False
    def emit(kind, end):
        nonlocal i, ws
        cur.append(Tok(kind, text[i:end], ws, line, i - start + 1, file)); i = end; ws = False
    while i < n:
        c = text[i]
        if c == "\n" or c == "\r":
            two = text[i:i + 2] in ("\r\n", "\n\r")
            out.append((cur, line)); cur = []; ws = False; line += 1; i += 2 if two else 1; start = i; continue
        if c in " \t\v\f": ws = True; i += 1; continue
        if c == "\\":
            m = re.match(r"\\[ \t\v\f]*(\r\n|\n\r|\n|\r)", text[i:])
            if not m: raise Open("a backslash")
            i += m.end(); line += 1; start = i; ws = True; continue
        if text.startswith("//", i):
            e = i
            while e < n and text[e] not in "\r\n": e += 1
            if text[i:e].rstrip(" \t").endswith("\\"): raise Open("a continued comment")
            ws = True; i = e; continue
        if text.startswith("/*", i):
            e = text.find("*/", i + 2)
            if e < 0: raise Wrong("comment")
            body = text[i:e + 2]; nl = len(re.findall(r"\r\n|\n\r|\n|\r", body)); line += nl
            if nl: start = i + max(body.rfind("\n"), body.rfind("\r")) + 1
            ws = True; i = e + 2; continue
        m = LITERAL.match(text, i)
        if m:
            if re.search(r"\r(?!\n)", m.group()): raise Open("a lone carriage return in a literal")
            emit("char" if m.group()[-1] == "'" else "string", m.end())
            if "\n" in m.group(): line += m.group().count("\n"); start = m.start() + m.group().rfind("\n") + 1
            continue
        if c in "\"'": raise Wrong("unterminated literal")
        m = NUMBER.match(text, i)
        if m:
            if not CONSTANT.match(m.group()) or text[m.end():m.end() + 1] == "'": raise Open("a number that is no constant")
            emit("number", m.end()); continue
        m = IDENT.match(text, i)
        if m: emit("ident", m.end()); continue
        for k in (3, 2, 1):
            if text[i:i + k] in PUNCT: emit("punct", i + k); break
        else:
            if c in "@`": raise Open("a stray character")
            raise Wrong("byte")
    if cur: out.append((cur, line))
    return out
def one(text):
    try: l = lines_of(text)
    except Wrong: return None
    t = [x for ts, _ in l for x in ts]
    return t[0] if len(t) == 1 and t[0].text == text else None

class Macro:
    def __init__(s, name, params, variadic, body): s.name = name; s.params = params; s.variadic = variadic; s.body = body; s.disabled = False
    def same(s, o): return s.params == o.params and s.variadic == o.variadic and [(t.text, t.ws and i > 0) for i, t in enumerate(s.body)] == [(t.text, t.ws and i > 0) for i, t in enumerate(o.body)]
class Lazy:
    """an argument is expanded only where it replaces a parameter"""
    def __init__(s, r, args): s.r = r; s.args = args; s.done = {}
    def __getitem__(s, i):
        if i not in s.done: s.done[i] = s.r.isolated(s.args[i])
        return s.done[i]
class Reader:
    def __init__(s, files, mains=0):
        s.macros = {}; s.files = files; s.once = set(); s.out = []; s.ifs = []; s.depth = 0; s.spread = False
    # -- the stream of tokens: the open expansions, then the lines of the file
    def unit(s): s.file(0); return s.out
    def file(s, k):
        if k in s.once: return
        s.depth += 1
        if s.depth > 20: raise Open("deep inclusion")
        level = len(s.ifs); lines = lines_of(s.files[k] + "\n\n", k)
        i = 0; pending = []
        def flush():
            # the lines between two directives; a line at a time unless an invocation goes on in the next
            nonlocal pending
            group = []
            for t in pending:
                if group and t.line != group[-1].line and not s.unfinished(group): s.spread = group[-1].line != group[0].line; s.run(group); group = []
                group.append(t)
            if group: s.spread = group[-1].line != group[0].line; s.run(group)
            pending = []
        while i < len(lines):
            ts, ln = lines[i]; i += 1
            if ts and ts[0].text == "#" and ts[0].kind == "punct":
                if s.active() and s.unfinished(pending): raise Open("a directive inside an invocation")
                flush(); s.directive(ts[1:], k, level); continue
            if s.active() and ts: pending += [ts[0].copy(ws=True)] + ts[1:]
        if s.unfinished(pending, True): raise Open("an invocation beyond the end of the file")
        flush()
        if len(s.ifs) != level: raise Wrong("no #endif")
        s.depth -= 1
    def unfinished(s, ts, strict=False):
        # an invocation may still be going on: parentheses not balanced, or a function-like name at the end
        if not ts: return False
        d = 0
        for t in ts: d += (t.text == "(") - (t.text == ")")
        if d > 0: return True
        if strict: return False
        trial = Reader(s.files); trial.spread = False; trial.macros = {n: Macro(m.name, m.params, m.variadic, m.body) for n, m in s.macros.items()}
        trial.run([t.copy() for t in ts])
        last = trial.out[-1] if trial.out else None
        return bool(last and last.kind == "ident" and last.text in s.macros and s.macros[last.text].params is not None)
    def active(s): return all(x[0] for x in s.ifs)
    def directive(s, ts, k, level):
        if not ts: return
        d = ts[0].text; a = ts[1:]
        if d in ("if", "ifdef", "ifndef"):
            if not a: raise Wrong("argument")
            if not s.active(): s.ifs.append([False, True, False]); return
            if d == "if": c = s.condition(a)
            else:
                if a[0].kind != "ident": raise Wrong("identifier")
                c = (a[0].text in s.macros or a[0].text in BUILT) == (d == "ifdef")
            s.ifs.append([c, c, False]); return
        if d in ("elif", "else", "endif"):
            if len(s.ifs) <= level: raise Wrong("no #if")
            x = s.ifs[-1]
            if d == "endif": s.ifs.pop(); return
            if x[2]: raise Wrong("after #else")
            outer = all(y[0] for y in s.ifs[:-1])
            if d == "else": x[2] = True; x[0] = outer and not x[1]; x[1] = True; return
            if not a: raise Wrong("argument")
            if not outer: return
            if x[1]: x[0] = False; return
            x[0] = x[1] = s.condition(a); return
        if not s.active(): return
        if d == "define": s.define(a); return
        if d == "undef":
            if not a or a[0].kind != "ident": raise Wrong("identifier")
            if a[0].text in BUILT: raise Open("undefining a builtin")
            s.macros.pop(a[0].text, None); return
        if d == "error": raise Wrong("#error")
        if d == "pragma":
            if not a or a[0].text != "once": raise Open("a pragma")
            s.once.add(k); return
        if d == "line": raise Open("#line")
        if d == "include":
            t = a
            if not (t and (t[0].kind == "string" or t[0].text == "<")):
                t = s.isolated(a)
            if not t: raise Wrong("argument")
            if t[0].kind == "string": name = t[0].text[1:-1]
            elif t[0].text == "<":
                name = ""
                for x in t[1:]:
                    if x.text == ">": break
                    name += x.text
                else: raise Wrong("no >")
            else: raise Wrong("include")
            f = ord(name[0]) - 97 if name else -1
            if f < 0 or f >= len(s.files): raise Wrong("not found")
            s.file(f); return
        raise Wrong("directive")
    def define(s, a):
        if not a or a[0].kind != "ident": raise Wrong("name")
        name = a[0].text
        if name in BUILT or name == "defined": raise Wrong("builtin")
        params = None; variadic = False; body = a[1:]
        if body and body[0].text == "(" and not body[0].ws:
            params = []; i = 1
            if body[i:i + 1] and body[i].text == ")": i += 1
            else:
                while True:
                    if i >= len(body): raise Wrong("parameter")
                    t = body[i]; i += 1
                    if t.text == "...": variadic = True; params.append("__VA_ARGS__")
                    elif t.kind == "ident":
                        if t.text in params: raise Wrong("twice")
                        params.append(t.text)
                    else: raise Wrong("parameter")
                    if i >= len(body): raise Wrong("parameter list")
                    t = body[i]; i += 1
                    if t.text == ")": break
                    if t.text != "," or variadic: raise Wrong("parameter list")
            body = body[i:]
        if body and (body[0].text == "##" or body[-1].text == "##"): raise Wrong("##")
        if params is None and any(t.text == "#" and t.kind == "punct" for t in body): raise Open("# in an object-like macro")
        if params is not None:
            for i, t in enumerate(body):
                if t.text == "#" and (i + 1 >= len(body) or body[i + 1].text not in params): raise Wrong("#")
        if not variadic and any(t.text == "__VA_ARGS__" for t in body): raise Open("__VA_ARGS__ elsewhere")
        s.macros[name] = Macro(name, params, variadic, body)
    # -- expansion
    def run(s, tokens): s.out += s.expand(tokens)
    def isolated(s, tokens, cond=False): return s.expand([t.copy() for t in tokens], cond)
    def expand(s, tokens, cond=False):
        out = []; stack = [[tokens, 0, None]]; depth0 = [m for m in s.macros.values() if m.disabled]
        def pop():
            x = stack.pop()
            if x[2]: x[2].disabled = False
        def get():
            while stack:
                x = stack[-1]
                if x[1] < len(x[0]): x[1] += 1; return x[0][x[1] - 1]
                pop()
            return None
        def peek():
            while stack:
                x = stack[-1]
                if x[1] < len(x[0]): return x[0][x[1]]
                pop()
            return None
        def site(): return stack[0] if stack else None
        origin = None
        while True:
            while stack and len(stack) > 1 and stack[-1][1] >= len(stack[-1][0]): pop()
            top = len(stack) <= 1
            t = get()
            if t is None: break
            if top: origin = t
            if t.kind != "ident": out.append(t.copy(src=t if top else origin)); continue
            if cond and t.text == "defined":
                n = get(); par = n and n.text == "("
                if par: n = get()
                if not n or n.kind != "ident": raise Wrong("defined")
                if par:
                    e = get()
                    if not e or e.text != ")": raise Wrong("defined")
                out.append(Tok("number", "1" if n.text in s.macros or n.text in BUILT else "0")); continue
            if t.text in BUILT and t.text not in s.macros:
                if t.text == "__LINE__":
                    if s.spread: raise Open("__LINE__ in an invocation over several lines")
                    out.append(Tok("number", str(origin.line), t.ws, src=origin)); continue
                if t.text == "__FILE__": out.append(Tok("string", '"?"', t.ws, src=origin)); continue
                raise Open(t.text)
            m = s.macros.get(t.text)
            if not m or t.painted: out.append(t.copy(src=origin)); continue
            if m.disabled: out.append(t.copy(painted=True, src=origin)); continue
            if m.params is None:
                body = s.subst(m, [], [])
                m.disabled = True
            else:
                levels = len(stack); p = peek()
                if not p or p.text != "(":
                    out.append(t.copy(src=origin)); continue
                if len(stack) < levels and any(True for _ in [0]) and levels > 1: s.crossed = True
                get(); args = [[]]; d = 1
                while True:
                    a = get()
                    if a is None: raise Wrong("unterminated invocation")
                    if a.text == "(" and a.kind == "punct": d += 1
                    if a.text == ")" and a.kind == "punct":
                        d -= 1
                        if not d: break
                    if a.text == "," and a.kind == "punct" and d == 1 and not (m.variadic and len(args) == len(m.params)): args.append([]); continue
                    args[-1].append(a.copy(painted=a.painted or (a.kind == "ident" and a.text in s.macros and s.macros[a.text].disabled)))
                if len(m.params) == 0:
                    if args != [[]]: raise Wrong("too many arguments")
                    args = []
                elif m.variadic and len(args) == len(m.params) - 1: args.append([])
                if len(args) != len(m.params):
                    if not m.body: raise Open("arguments of an empty macro")
                    raise Wrong("arguments")
                body = s.subst(m, args, Lazy(s, args))
                m.disabled = True
            if body: body[0] = body[0].copy(ws=t.ws)
            stack.append([body, 0, m])
        return out
    def subst(s, m, args, full):
        out = []; i = 0; b = m.body; P = m.params or []
        while i < len(b):
            t = b[i]
            if m.params is not None and t.text == "#" and t.kind == "punct":
                out.append(s.string(args[P.index(b[i + 1].text)], t.ws)); i += 2; continue
            if t.text == "##" and t.kind == "punct" and i > 0:
                r = b[i + 1]; i += 2
                if m.params is not None and r.text == "#" and r.kind == "punct": right = [s.string(args[P.index(b[i].text)], False)]; i += 1
                elif r.kind == "ident" and r.text in P:
                    right = [x.copy() for x in args[P.index(r.text)]]
                    if m.variadic and r.text == "__VA_ARGS__" and out and out[-1].text == "," and len(b) >= i - 2 and b[i - 3].text == ",":
                        if right: out += right
                        else: out.pop()
                        continue
                    if not right: right = [Tok(PLACE, "")]
                else: right = [r.copy()]
                left = out.pop() if out else Tok(PLACE, "")
                if left.kind == PLACE: j = right[0].copy(ws=left.ws)
                elif right[0].kind == PLACE: j = left
                else:
                    j = one(left.text + right[0].text)
                    if not j: raise Open("a paste that gives no token")
                    if j.text in ("#", "##"): raise Open("pasted ##")
                    j = j.copy(ws=left.ws)
                out.append(j); out += right[1:]; continue
            if t.kind == "ident" and t.text in P:
                nxt = i + 1 < len(b) and b[i + 1].text == "##" and b[i + 1].kind == "punct"
                a = [x.copy() for x in (args if nxt else full)[P.index(t.text)]]
                if not a: a = [Tok(PLACE, "", t.ws)] if nxt else []
                else: a[0].ws = t.ws
                out += a; i += 1; continue
            out.append(t.copy()); i += 1
        return [t for t in out if t.kind != PLACE]
    def string(s, arg, ws):
        text = ""
        for i, t in enumerate(arg):
            if i and t.ws: text += " "
            text += re.sub(r'(["\\])', r"\\\1", t.text) if t.kind in ("char", "string") else t.text
        return Tok("string", '"%s"' % text, ws)
    # -- conditions
    def condition(s, a):
        ts = s.isolated(a, True)
        if not ts: raise Wrong("nothing")
        return cond(ts) != 0
BUILT = ("__LINE__", "__FILE__", "__has_include", "__pragma", "_Pragma", "defined")
LEVEL = [("*", "/", "%"), ("+", "-"), ("<<", ">>"), ("<", ">", "<=", ">="), ("==", "!="), ("&",), ("^",), ("|",), ("&&",), ("||",)]
def cond(ts):
    """the value of a condition: 64 bit arithmetic, unsigned where an operand is"""
    at = [0]
    M = (1 << 64) - 1
    def wrap(v, u): return (v & M, True) if u else (((v & M) ^ 1 << 63) - (1 << 63), False)
    def pk(): return ts[at[0]].text if at[0] < len(ts) else None
    def ex(x):
        if pk() != x: raise Wrong("expected " + x)
        at[0] += 1
    def unary():
        t = pk()
        if t is None: raise Wrong("operand")
        at[0] += 1; tk = ts[at[0] - 1]
        if t == "(": v = tern(); ex(")"); return v
        if t == "!": return int(unary()[0] == 0), False
        if t == "-": v = unary(); return wrap(-v[0], v[1])
        if t == "+": return unary()
        if t == "~": v = unary(); return wrap(~v[0], v[1])
        if tk.kind == "number":
            m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)([uU]?)(?:l|L|ll|LL)?([uU]?)", t)
            if not m or m.group(2) and m.group(3): raise Open("number")
            d = m.group(1); v = int(d, 16) if d[:2] in ("0x", "0X") else int(d, 8) if d[0] == "0" else int(d)
            if v >> 63 and not (m.group(2) or m.group(3)) or v >> 64: raise Open("number")
            return v, bool(m.group(2) or m.group(3))
        if tk.kind == "char" and re.fullmatch(r"'[ -&(-\[\]-~]'", t): return ord(t[1]), False
        if tk.kind == "ident": return 0, False
        raise Wrong("operand") if tk.kind == "punct" else Open("operand")
    def binary(l):
        if l < 0: return unary()
        v = binary(l - 1)
        while pk() in LEVEL[l]:
            o = pk(); at[0] += 1; w = binary(l - 1)
            if o in "/%" and w[0] == 0: raise Open("division")
            if o in ("&&", "||"): v = (int(v[0] != 0 and w[0] != 0) if o == "&&" else int(v[0] != 0 or w[0] != 0), False); continue
            if o in ("<<", ">>"):
                if not 0 <= w[0] < 32: raise Open("shift")
                v = wrap(v[0] << w[0] if o == "<<" else v[0] >> w[0], v[1]); continue
            u = v[1] or w[1]; x, y = wrap(v[0], u)[0], wrap(w[0], u)[0]
            if o in ("<", ">", "<=", ">=", "==", "!="): v = (int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[o]), False); continue
            q = 0 if o not in "/%" else abs(x) // abs(y) * (-1 if (x < 0) != (y < 0) else 1)
            v = wrap({"*": x * y, "/": q, "%": x - y * q, "+": x + y, "-": x - y, "&": x & y, "^": x ^ y, "|": x | y}[o], u)
        return v
    def tern():
        v = binary(len(LEVEL) - 1)
        if pk() == "?":
            at[0] += 1; a = tern(); ex(":"); b = tern(); return wrap((a if v[0] else b)[0], a[1] or b[1])
        return v
    v = tern()
    if at[0] != len(ts): raise Open("junk after a condition")
    return v[0]
def text_value(t):
    """two spellings of a string are the same when they denote the same characters"""
    m = re.fullmatch(r"(u8|[LuU]?)(['\"])(.*)\2", t, re.S)
    if not m: return t
    return m.group(1) + m.group(2) + re.sub(r"\\(.)", lambda e: e.group(1) if e.group(1) in "'\"?" else "\0" + e.group(1), m.group(3), flags=re.S) + m.group(2)
def meaning(files):
    """the tokens (spelling, file, line) of the unit"""
    r = Reader(files)
    return [(t.text, t.src.file, t.src.line, t.kind, t.line == t.src.line and t.col == t.src.col and t.file == t.src.file) for t in r.unit()]

# ---------------------------------------------------------------- texts
def macro_text(r):
    """definitions and uses of macros"""
    names = ["A", "B", "C", "f", "g", "h"]; out = []; arity = {}
    for n in r.sample(names, r.randrange(1, 6)):
        P = None; va = False
        if n in "fgh":
            P = r.sample(["x", "y", "z", "A"], r.choice((0, 1, 1, 1, 2, 2, 3)))
            va = r.random() < .25
            arity[n] = len(P) + (va and r.randrange(3))
        params = (P or []) + (["__VA_ARGS__"] if va else [])
        b = []
        for _ in range(r.randrange(0, 7)):
            k = r.random()
            if params and k < .35: b.append(r.choice(params))
            elif params and k < .45: b.append("#" + r.choice(("", " ")) + r.choice(params))
            elif k < .6: b.append(r.choice(names))
            elif k < .7: b.append(r.choice("fgh") + r.choice(("(", " (")) + r.choice(params or ["1", ""]) + ")")
            else: b.append(r.choice(["1", "a", "+", "-", ",", "(", ")", "b2", '"s"', "==", "0x1", "if"]))
        if b.count("(") != b.count(")") and r.random() < .7: b = [t for t in b if t not in "()"]
        body = ""
        for i, t in enumerate(b):
            paste = i and r.random() < .22
            body += (r.choice(("##", " ## ", "##")) if paste else r.choice((" ", " ", "", "/**/")) if i else "") + t
        out.append("#define %s%s%s" % (n, "" if P is None else "(%s)" % ", ".join(P + (["..."] if va else [])), (" " if P is None or r.random() < .8 else "") + body))
    def use(d=0):
        n = r.choice(names)
        if n not in arity or r.random() < .15: return n
        return n + r.choice(("(", "(", " (", "( ")) + r.choice((",", ", ", " ,")).join(arg(d) for _ in range(max(1, arity[n])) ) * (arity[n] > 0 or r.random() < .1) + ")"
    def arg(d):
        return " ".join(r.choice(["", "1", "a", "B", "(p, q)", "c", "2", "f", "x", "-", '"t\\n"', "'q'"]) if d > 1 or r.random() < .6 else use(d + 1) for _ in range(r.choice((1, 1, 1, 2))))
    for _ in range(r.randrange(1, 5)): out.append("  " * r.randrange(2) + r.choice(("", "x ", "= ", "a+")) + use() + r.choice(("", " ;", use())))
    if r.random() < .2: out.insert(r.randrange(1, len(out)), "#undef " + r.choice(names))
    return "\n".join(out) + "\n"
def cond_text(r):
    """groups, kept or left out, and definitions within them"""
    out = []; n = [0]
    def c():
        k = r.random(); m = r.choice("XYZ")
        if k < .25: return r.choice(("defined %s", "defined(%s)", "!defined %s", "! defined ( %s )")) % m
        if k < .4: return r.choice(("0", "1", "2 - 2", "!0", "1 == 1", "(0)", "0 || 1", "1 && 0", "3 > 2 ? 0 : 1", "1 | 2", "-1 < 0", "-1 < 0u", "-1 > 5u", "0xFFFFFFFF + 1 == 0x100000000", "-1 >> 1 < 0", "~0u >> 1 > 0", "'a' == 97", "-7 / 2 == -3 && -7 % 3 == -1", "(0 ? 1u : -1) > 0", "010 == 8", "1 << 3 == 8 ^ 1",
            "0x7FFFFFFF * 2 > 0", "-1L < 0ull", "2 > 1 > 0", "1 ? 0 : 1 ? 0 : 1", "0 && X || 1", "!X == 0", "~X & 1", "5 - 3 - 2"))
        if k < .6: return m + r.choice(("", " + 1", " == 1", " - 1"))
        if k < .8: return r.choice(("defined %s && %s", "defined(%s) || !%s", "!(%s + 0) && !defined(%s)")) % (m, r.choice("XYZ"))
        return r.choice(("0", "1"))
    def item(d):
        k = r.random()
        if k < .35 or d > 3: n[0] += 1; out.append("t%d %s" % (n[0], r.choice(("", "X", "Y Z", "if", "__LINE__"))))
        elif k < .5: out.append("#define %s %s" % (r.choice("XYZ"), r.choice(("", "0", "1", "1"))))
        elif k < .58: out.append(r.choice(("#undef %s", " # undef %s", "#undef %s // c")) % r.choice("XYZ"))
        elif k < .6: out.append("#")
        elif k < .62: out.append("/* #if 0\n#else */ m")
        else:
            out.append(r.choice(("#if " + c(), "#if " + c(), "#ifdef " + r.choice("XYZ"), "# ifndef " + r.choice("XYZ"), "  #if(" + c() + ")")))
            for _ in range(r.randrange(3)): item(d + 1)
            for _ in range(r.choice((0, 0, 1, 2, 3))):
                out.append("#elif " + c())
                for _ in range(r.randrange(3)): item(d + 1)
            if r.random() < .6:
                out.append(r.choice(("#else", "# else", "#else // x", "#else/* */")))
                for _ in range(r.randrange(3)): item(d + 1)
            if r.random() < .02: out.append(r.choice(("#else", "#elif 1")))
            if r.random() > .01: out.append(r.choice(("#endif", " #endif", "#endif /* x */", "#\tendif")))
    for _ in range(r.randrange(1, 4)): item(0)
    if r.random() < .03: out.append(r.choice(("#endif", "#else", "#elif 1", "#if 1", "#error x", "#foo")))
    if r.random() < .1: out = ["#if 0"] + [r.choice(("#error", "#foo", "#define 3", "it's", "#include <>", "x"))] + ["#else"] + out + ["#endif"]
    return "\n".join(out) + "\n"
def spacing(text, r):
    """the same tokens, spelled with other white space"""
    out = []
    for l in text.split("\n"):
        if r.random() < .3: l = re.sub(r" ", lambda m: r.choice((" ", "\t", "  ", " /* , */ ", " \\\n ", "\v")), l)
        out.append(l + (r.choice((" // c ' ) ", " /* \" */", "")) if r.random() < .1 and not l.endswith("\\") else ""))
    return r.choice(("\n", "\n", "\r\n")).join(out)
def include_text(r):
    """several files that include each other"""
    files = []; n = r.choice((2, 2, 3, 4))
    for k in range(n):
        out = []; guard = r.choice(("", "", "once", "ifndef")) if k else ""
        if guard == "once": out.append(r.choice(("#pragma once", "# pragma once // once", "/**/ #pragma once")))
        if guard == "ifndef": out += ["#ifndef G%d" % k, "#define G%d" % k]
        for _ in range(r.randrange(1, 6)):
            p = r.random(); to = "abcdefg"[r.randrange(k + 1, n)] if k + 1 < n else None
            if p < .12 and guard: to = "abcdefg"[k]
            if p < .5 and to: out.append(r.choice(('#include "%s"', "#include <%s>", '  #  include "%s" // x', '#include/**/"%s"', '#define I "%s"\n#include I\n#undef I', '#define J <%s>\n#include J\n#undef J', '#if %s1\n#include "%s"\n#endif' if 0 else '#include "%s"')) % to)
            elif p < .7: out.append("f%d %s __LINE__" % (k, r.choice(("M", "N(1)", "N(M)", "N (\n2)", ""))))
            elif p < .8: out.append("#define " + r.choice(("M %d" % k, "N(x) x M", "M M %d" % k)) if r.random() < .5 else "#undef " + r.choice("MN"))
            elif p < .9: out += [r.choice(("#ifdef M", "#ifndef M", "#if !defined(N)", "#if 0", "#if 1")), "g%d" % k, *(["#include \"%s\"" % to] if to else []), *(["#else", "h"] if r.random() < .5 else []), "#endif"]
            else: out.append(r.choice(("", "e /* \n */ __LINE__", "// x", "z \\\n y", "#")))
        if guard == "ifndef": out.append("#endif")
        if r.random() < .02: out.append(r.choice(("#if 1", "#endif", "#else")))
        files.append("\n".join(out) + r.choice(("", "\n")) or "\n")
    return files

# ---------------------------------------------------------------- what kind of token a spelling is
KINDS = {"const": "const", "_Alignas": "alignas", "_Alignof": "alignof", "_Atomic": "atomic", "_Bool": "Bool", "_Generic": "generic", "_Noreturn": "noreturn", "_Static_assert": "static_assert",
         "_Thread_local": "thread_local", "__declspec": "declspec", "__asm__": "asm", "__int8": "int8", "__int16": "int16", "__int32": "int32", "__int64": "int64", "__inline": "inline", "__func__": "__func__"}
NOT_SUPPORTED = ("auto",)
def keyword(text):
    """the kind of a word, None for an identifier"""
    if text in KINDS: return KINDS[text]
    return text if text in KEYWORDS and text[0] != "_" and text not in NOT_SUPPORTED else None
def literal(text):
    """the kind of a valid constant"""
    l = text.lower().replace("'", "")
    if l.startswith("0x"): return "float_hex_literal" if "." in l or "p" in l else "hex_literal"
    if l.startswith("0b"): return "binary_literal"
    if "." in l or "e" in l: return "float_literal"
    return "octal_literal" if len(l) > 1 and l[0] == "0" and l[1].isdigit() else "base10_literal"
def kind_of(tok, final=True):
    """the name of the compiler's token kind, None where the property leaves it open"""
    if tok.kind == "punct": return PUNCT[tok.text]
    if tok.kind in ("string", "char"): return {"string": "string_literal", "char": "character_literal"}[tok.kind]
    if tok.kind == "number": return literal(tok.text)
    if tok.kind == "ident": return (keyword(tok.text) if final else None) or ("identifier" if not tok.text.startswith("_") else None)
def kinds(m):
    e = sa.run_jobs(m, [{"query": "types", "id": "types"}])[0]["result"]["enums"]["token_type"]
    return {int(v): k[6:] for k, v in dict(e).items()}

# ---------------------------------------------------------------- comparing
def picked(): return [[f + "\n" for f in t.strip("\n").split("\n====\n")] for t in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "pp_texts.txt")).read().split("\n----\n")]
def differs(names, files, r):
    """None, or what is different; raises Open"""
    try: want = meaning(files)
    except Wrong as e: want = None; why = str(e)
    if r.get("budget"): raise Open("budget")
    ok = any(n["t"] == "facts" for n in r["nodes"])
    stop = next((n for n in r["nodes"] if n["k"] in ("prune", "assert", "panic")), None)
    if stop and stop["k"] in ("assert", "panic"): return "the compiler's own check fails at " + stop["l"]
    if want is None: return None if not ok else "accepted, but it is not valid: " + why
    if not ok: return "rejected at %s" % (stop["l"] if stop else "the end")
    got = []
    for n in r["nodes"]:
        if n["k"] != "obs" or n["t"] != "token": continue
        v = [avint(a) for a in n["a"]]
        if None in v or n.get("pc") not in (None, [], 1): raise Open("imprecise")
        got.append((spelled(n, v), v[0], v[2], v[3]))
    for i, (g, w) in enumerate(zip(got, want)):
        where = "token %d, line %d of file %s" % (i + 1, w[2], "abcdefg"[w[1]])
        if len(g[0]) < 128 and text_value(g[0]) != text_value(w[0]): return "%s is %s and has to be %s" % (where, g[0], w[0])
        k = kind_of(Tok(w[3], w[0]))
        if k and names.get(g[1]) != k: return "%s, %s, is of kind %s and has to be of kind %s" % (where, w[0], names.get(g[1]), k)
        if g[2] != w[1] + 1: return "%s, %s, is given as part of file %d" % (where, w[0], g[2])
        if w[4] and g[3] != w[2]: return "%s, %s, is given as line %d" % (where, w[0], g[3])
    if len(got) != len(want): return "%d tokens instead of %d: ends with %s instead of %s" % (len(got), len(want), got[-1][0] if got else "nothing", want[-1][0] if want else "nothing")
    return None
def check_texts(rep, texts, parts):
    m = sa.build_module("pr.c"); names = kinds(m); todo = []; n = opened = 0
    for files in texts:
        files = [f if f else "\n" for f in files]
        if sum(len(f) for f in files) > 1500: continue
        try: meaning(files)
        except Wrong: pass
        except Open: opened += 1; continue
        except RecursionError: opened += 1; continue
        todo.append(files)
    for files, r in zip(todo, sa.run_jobs(m, [unit_job("u%d" % i, f) for i, f in enumerate(todo)])):
        r = r.get("result", r)
        if "nodes" not in r: raise sa.Broken(str(r)[:300])
        try: d = differs(names, files, r)
        except Open as e: rep.undecide("%s: %s" % (str(e), files)); continue
        rep.count("units"); n += 1
        if d: rep.violation("unit %r" % "\n--- next file\n".join(files), d)
    rep.count("units left open by the property", opened)
    rep.need("units", parts)
