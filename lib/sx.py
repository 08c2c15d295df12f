"""Symbolic values: the expressions the engine produces and the specifications are written in.

An expression is a tuple (op, width, arguments...); ("const", w, n), ("leaf", w, name).  mk() builds normal
forms (commutative operands ordered, truncations pushed inwards, extensions collapsed, constants folded), so
that two expressions with the same normal form denote the same function of their inputs.  evaluate() gives
the meaning of an expression; it is used to find a witness when two normal forms differ."""
import struct, math, functools, itertools, random

class Undef(Exception): pass

def mask(w): return (1 << w) - 1
def sx(v, w): v &= mask(w); return v - (1 << w) if v >> (w - 1) & 1 else v
def const(w, n): return ("const", w, n & mask(w))
def leaf(w, n): return ("leaf", w, n)
COMM = {"add", "mul", "and", "or", "xor"}
def _isc(e): return e[0] == "const"

def fbin(op, w, a, b):
    if op == "add": r = a + b
    elif op == "sub": r = a - b
    elif op == "mul": r = a * b
    elif op in ("udiv", "urem"):
        if b == 0: raise Undef("division by zero")
        r = a // b if op == "udiv" else a % b
    elif op in ("sdiv", "srem"):
        x, y = sx(a, w), sx(b, w)
        if y == 0: raise Undef("division by zero")
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        if q >= 1 << (w - 1): raise Undef("division overflow")
        r = q if op == "sdiv" else x - q * y
    elif op in ("shl", "lshr", "ashr"):
        if b >= w: raise Undef("shift count")
        r = a << b if op == "shl" else (a >> b if op == "lshr" else sx(a, w) >> b)
    elif op == "and": r = a & b
    elif op == "or": r = a | b
    elif op == "xor": r = a ^ b
    else: raise KeyError(op)
    return r & mask(w)

def ficmp(p, w, a, b):
    if p[0] == "s": a, b = sx(a, w), sx(b, w)
    p = p.lstrip("su") if p not in ("eq", "ne") else p
    return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p])

def tofloat(bits, w):
    return struct.unpack("<f" if w == 32 else "<d", (bits & mask(w)).to_bytes(w // 8, "little"))[0]
def tobits(f, w):
    if w == 64: return struct.unpack("<Q", struct.pack("<d", f))[0]
    try: return struct.unpack("<I", struct.pack("<f", f))[0]
    except OverflowError: return 0x7f800000 if f > 0 else 0xff800000
def fcmp(p, x, y):
    un = math.isnan(x) or math.isnan(y)
    if p == "ord": return int(not un)
    if p == "uno": return int(un)
    if p in ("true", "false"): return int(p == "true")
    r = {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p[1:]]
    if un: return int(p[0] == "u")
    return int(r)

def op_eval(op, w, args, ws):
    base = op.split(".")[0]
    if op in ("zext", "trunc"): return args[0] & mask(w)
    if op == "sext": return sx(args[0], ws[0]) & mask(w)
    if base == "icmp": return ficmp(op[5:], ws[0], args[0], args[1])
    if op == "select": return args[1] if args[0] else args[2]
    if base == "fcmp": return fcmp(op[5:], tofloat(args[0], ws[0]), tofloat(args[1], ws[1]))
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        x, y = tofloat(args[0], w), tofloat(args[1], w)
        if op == "fadd": r = x + y
        elif op == "fsub": r = x - y
        elif op == "fmul": r = x * y
        else:
            if y == 0: r = math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y)
            else: r = x / y
        return canon_nan(tobits(r, w), w)
    if op == "fneg": return args[0] ^ (1 << (w - 1))
    if op in ("fpext", "fptrunc"): return canon_nan(tobits(tofloat(args[0], ws[0]), w), w)
    if op == "sitofp": return i2f(sx(args[0], ws[0]), w)
    if op == "uitofp": return i2f(args[0], w)
    if op in ("fptosi", "fptoui"):
        f = tofloat(args[0], ws[0])
        if math.isnan(f) or math.isinf(f): raise Undef("float to integer")
        n = math.trunc(f)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, mask(w))
        if not lo <= n <= hi: raise Undef("float to integer")
        return n & mask(w)
    if base == "frem": raise Undef("frem")
    return fbin(op, w, args[0], args[1])
def i2f(n, w):
    if w == 64: return tobits(float(n), 64)
    # one rounding to single precision
    m = abs(n); k = max(0, m.bit_length() - 50)
    if k: m = ((m >> k) | int(m & mask(k) != 0)) << k   # the sticky bit keeps the second rounding exact
    return tobits(float(m) * (-1 if n < 0 else 1), 32)
def canon_nan(b, w):
    if math.isnan(tofloat(b, w)): return 0x7fc00000 if w == 32 else 0x7ff8000000000000
    return b

def evaluate(e, env, memo=None):
    if memo is None: memo = {}
    k = id(e)
    if k in memo: return memo[k]
    op, w = e[0], e[1]
    if op == "const": r = e[2]
    elif op == "leaf":
        r = env[e[2]] & mask(w)
    elif op == "select":
        r = evaluate(e[3] if evaluate(e[2], env, memo) else e[4], env, memo)
    elif op in ("and", "or") and w == 1:
        a = evaluate(e[2], env, memo)
        r = a if (a == 0) == (op == "and") else evaluate(e[3], env, memo)
    else:
        args = [evaluate(x, env, memo) for x in e[2:]]
        r = op_eval(op, w, args, [x[1] for x in e[2:]])
    memo[k] = r
    return r

def leaves(e, out=None):
    out = set() if out is None else out
    if e[0] == "leaf": out.add(e[2])
    elif e[0] != "const":
        for x in e[2:]: leaves(x, out)
    return out

INV = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge", "sgt": "sle", "sle": "sgt", "sge": "slt", "slt": "sge"}
SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}

def lognot(e):
    if _isc(e): return const(1, 1 - e[2])
    if e[0].startswith("icmp."): return ("icmp." + INV[e[0][5:]],) + e[1:]
    if e[0] == "xor" and e[1] == 1 and e[3] == ("const", 1, 1): return e[2]
    return ("xor", 1, e, const(1, 1))

@functools.lru_cache(maxsize=None)
def mk(op, w, *a):
    base = op.split(".")[0]
    if all(_isc(x) for x in a) and a:
        try: return const(w, op_eval(op, w, [x[2] for x in a], [x[1] for x in a]))
        except Undef: return (op, w) + a
    if op in ("zext", "sext", "trunc"):
        x = a[0]
        if x[1] == w: return x
        if op == "trunc":
            if x[0] == "trunc": return mk("trunc", w, x[2])
            if x[0] in ("zext", "sext"):
                i = x[2]
                if i[1] == w: return i
                return mk("trunc", w, i) if i[1] > w else mk(x[0], w, i)
            if x[0] in ("add", "sub", "mul", "and", "or", "xor"): return mk(x[0], w, mk("trunc", w, x[2]), mk("trunc", w, x[3]))
            if x[0] == "shl" and _isc(x[3]):
                return const(w, 0) if x[3][2] >= w else mk("shl", w, mk("trunc", w, x[2]), const(w, x[3][2]))
            if x[0] == "select": return mk("select", w, x[2], mk("trunc", w, x[3]), mk("trunc", w, x[4]))
        else:
            if x[0] == "zext": return mk("zext", w, x[2])
            if op == "sext" and x[0] == "sext": return mk("sext", w, x[2])
            if x[0] == "select": return mk("select", w, x[2], mk(op, w, x[3]), mk(op, w, x[4]))
        return (op, w, x)
    if op == "fneg": return mk("xor", w, a[0], const(w, 1 << (w - 1)))
    if op == "select":
        c, x, y = a
        if _isc(c): return x if c[2] else y
        if x == y: return x
        if w == 1 and _isc(x) and _isc(y): return c if x[2] else lognot(c)
        if c[0] == "xor" and c[3] == ("const", 1, 1): return mk("select", w, c[2], y, x)
        return (op, w, c, x, y)
    if op == "sub" and _isc(a[1]): return mk("add", w, a[0], const(w, -a[1][2]))
    if op in COMM:
        x, y = a
        if _isc(x) or (not _isc(y) and repr(x) > repr(y)): x, y = y, x
        if _isc(y):
            n = y[2]
            if n == 0: return x if op in ("add", "or", "xor") else const(w, 0)
            if op == "mul" and n == 1: return x
            if op == "and" and n == mask(w): return x
            if op == "or" and n == mask(w): return y
            if op == "and" and n in (1, 0xff, 0xffff, 0xffffffff) and n.bit_length() < w: return mk("zext", w, mk("trunc", n.bit_length(), x))
            if op == "add" and x[0] == "add" and _isc(x[3]): return mk("add", w, x[2], const(w, x[3][2] + n))
            if op == "mul" and n & (n - 1) == 0: return mk("shl", w, x, const(w, n.bit_length() - 1))
            if op == "xor" and w == 1: return lognot(x)
        if x == y:
            if op in ("and", "or"): return x
            if op == "xor": return const(w, 0)
        return (op, w, x, y)
    if op in ("shl", "lshr", "ashr") and _isc(a[1]) and a[1][2] == 0: return a[0]
    if op == "sub" and a[0] == a[1]: return const(w, 0)
    if base == "icmp":
        p = op[5:]; x, y = a
        if _isc(x) and not _isc(y) or (p in ("eq", "ne") and not _isc(y) and repr(x) > repr(y)): x, y, p = y, x, SWAP[p]
        if p in ("eq", "ne") and _isc(y):
            if y[2] == 0 and x[0] == "zext" and x[2][1] == 1: return x[2] if p == "ne" else lognot(x[2])
            if x[1] == 1: return x if (y[2] == 1) == (p == "eq") else lognot(x)
            if x[0] in ("zext", "sext"):
                iw = x[2][1]; t = y[2] & mask(iw); back = t if x[0] == "zext" else sx(t, iw) & mask(x[1])
                return mk("icmp." + p, 1, x[2], const(iw, t)) if back == y[2] else const(1, int(p == "ne"))
        if x[0] == y[0] and x[0] in ("zext", "sext") and x[2][1] == y[2][1]:
            if x[0] == "zext" and p[0] == "s": p = "u" + p[1:]
            return mk("icmp." + p, 1, x[2], y[2])
        return ("icmp." + p, 1, x, y)
    return (op, w) + a

def from_json(j):
    memo = {}
    def go(x):
        if x[0] == "const": return const(x[1], int(x[2]))
        if x[0] == "leaf": return leaf(x[1], x[2])
        return mk(x[0], x[1], *[go(y) for y in x[2:]])
    return go(j)

def av(j):
    """engine value -> expression, or None when it is not a single symbolic value"""
    if "sym" in j: return from_json(j["sym"])
    if "set" in j and len(j["set"]) == 1 and not j["set"][0].startswith("&"): return const(j["w"], int(j["set"][0]))
    return None
def avint(j):
    if isinstance(j, dict) and "set" in j and len(j["set"]) == 1 and not j["set"][0].startswith("&"): return int(j["set"][0])
    return None

def show(e, depth=0):
    if e is None: return "unknown"
    if e[0] == "const": return str(sx(e[2], e[1]) if e[1] > 1 else e[2])
    if e[0] == "leaf": return e[2]
    if depth > 6: return "..."
    return "%s%d(%s)" % (e[0], e[1], ", ".join(show(x, depth + 1) for x in e[2:]))

INTS = {}
def int_grid(w, signed=None):
    if w not in INTS:
        s = set()
        for k in (1, 7, 8, 15, 16, 31, 32, 63, 64):
            if k <= w:
                for d in (-2, -1, 0, 1): s.add(((1 << k) + d) & mask(w)); s.add((-(1 << k) + d) & mask(w))
        s |= {0, 1, 2, 3, 5, 7, 10, 100 & mask(w), mask(w), mask(w) - 1, mask(w) - 6, 0x5a5a5a5a5a5a5a5a & mask(w), 0x0123456789abcdef & mask(w)}
        # around the midpoints of neighbouring floats and doubles
        s |= {x & mask(w) for x in (0x1000001, 0x1000003, 0x7fffffbf, 0x7fffffc0, 0x80000081)}
        if w == 64: s |= {0x8000008000000001, 0x8000008000000000, 0x8000018000000000, 0x8000000000000401, 0x8000000000000400, 0x20000000000001, 0x20000000000003, 0x4000004000000001, 0xc000000000000201}
        INTS[w] = sorted(s)
    return INTS[w]
def float_grid(w):
    v = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.0, 3.0, -3.75, 100.25, 127.0, 128.0, 200.0, 255.0, 255.5, 256.0, -128.0, -129.0, 32767.5, 65535.0, 40000.0, -32768.0, 2147483647.0, 2147483648.0, 3000000000.0, 4294967295.0,
         -2147483648.0, 1e10, 9.2e18, 9223372036854775808.0, 1.2e19, 1.8e19, 1e30, -1e30, 1e-30, math.inf, -math.inf, math.nan, 0.1, 16777217.0, 1.0000000001]
    return sorted(set(canon_nan(tobits(x, w), w) for x in v))

FINV = {"oeq": "une", "ogt": "ule", "oge": "ult", "olt": "uge", "ole": "ugt", "one": "ueq", "ord": "uno"}
FINV.update({v: k for k, v in list(FINV.items())})
FSWAP = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}
def comparison(e):
    """(canonical comparison, negated?) of a comparison"""
    k, p = e[0].split("."); x, y = e[2], e[3]; neg = False
    if k == "icmp":
        if p in ("ne", "uge", "ule", "sge", "sle"): p = INV[p]; neg = True
        if p in ("ugt", "sgt"): p = SWAP[p]; x, y = y, x
        if p == "eq" and repr(x) > repr(y): x, y = y, x
    else:
        if p in FSWAP: p = FSWAP[p]; x, y = y, x
        if p in ("une", "ueq", "uno", "ult", "ule"): p = FINV[p]; neg = True
        if p in FSWAP: p = FSWAP[p]; x, y = y, x
        if p in ("oeq", "one", "ord") and repr(x) > repr(y): x, y = y, x
    return (k + "." + p, 1, x, y), neg
def comparisons(e, out, seen):
    if e in seen or e[0] in ("const", "leaf"): return
    seen.add(e)
    for x in e[2:]:
        if isinstance(x, tuple): comparisons(x, out, seen)
    if e[0][:5] in ("icmp.", "fcmp."): out.add(comparison(e)[0])
def assume(e, atom, val, memo):
    if e[0] in ("const", "leaf"): return e
    r = memo.get(e)
    if r is None:
        if e[0][:5] in ("icmp.", "fcmp."):
            a, neg = comparison(e)
            if a == atom: r = const(1, int(val) ^ int(neg))
        if r is None: r = mk(e[0], e[1], *[assume(x, atom, val, memo) if isinstance(x, tuple) else x for x in e[2:]])
        memo[e] = r
    return r
def same_by_cases(a, b, budget=400):
    """equality by distinguishing the outcomes of the comparisons inside (innermost first), treated as independent"""
    left = [budget]
    def go(a, b):
        if a == b: return True
        left[0] -= 1
        if left[0] < 0: return False
        s = set(); seen = set(); comparisons(a, s, seen); comparisons(b, s, seen)
        if not s: return False
        atom = min(s, key=lambda x: (len(repr(x)), repr(x)))
        return all(go(assume(a, atom, v, {}), assume(b, atom, v, {})) for v in (1, 0))
    return go(a, b)
def sample(axes, n):
    """n points of a product that is too large: each value of each axis with values of the others in changing combinations"""
    r = random.Random(1)
    for i in range(n): yield tuple(a[r.randrange(len(a))] for a in axes)
def differ(spec, impl, grids, where=None, limit=40000, must=()):
    """None when equal (or no difference on the grid); otherwise a witness (env, spec value, impl value).
    spec undefined at a point: any behaviour is fine.  Returns (proved, witness)."""
    if spec == impl: return True, None
    if where is None and not must and same_by_cases(spec, impl): return True, None
    names = sorted((leaves(spec) | leaves(impl) | (leaves(where) if where else set()) | set().union(*[leaves(x) for x in must])))
    unknown = [n for n in names if n not in grids]
    axes = [grids[n] if n in grids else [0, 0x1234567855aa77f1, (1 << 64) - 1] for n in names]
    total = 1
    for a in axes: total *= len(a)
    if total > limit:
        k = max(8, int((limit) ** (1 / max(1, len(axes)))))
        axes = [a if len(a) <= k else [a[i * len(a) // k] for i in range(k)] for a in axes]
    total = 1
    for a in axes: total *= len(a)
    for pt in itertools.product(*axes) if total <= 2 * limit else sample(axes, limit):
        env = dict(zip(names, pt))
        if where is not None:
            try:
                if not evaluate(where, env): continue
            except Undef: continue
        try:
            for x in must: evaluate(x, env)
            s = evaluate(spec, env)
        except Undef: continue
        try: r = evaluate(impl, env)
        except Undef as u: return False, (env, s, "undefined (%s)" % u)
        if s != r: return False, (env, s, r)
    return False, None

def compiled(exprs):
    """a function from {leaf: value} to the values of the expressions (None: undetermined), for evaluation at many points"""
    code = []; names = {}; ext = {}
    def go(e):
        k = id(e)
        if k in names: return names[k]
        op, w = e[0], e[1]
        if op == "const": r = str(e[2])
        else:
            if op == "leaf": t = "env[%r] & %d" % (e[2], mask(w))
            else:
                a = [go(x) for x in e[2:]]; ws = [x[1] for x in e[2:]]; m = mask(w)
                s = lambda i: "(%s ^ %d) - %d" % (a[i], 1 << (ws[i] - 1), 1 << (ws[i] - 1))
                if op in ("and", "or", "xor"): t = "%s %s %s" % (a[0], {"and": "&", "or": "|", "xor": "^"}[op], a[1])
                elif op in ("add", "sub", "mul"): t = "(%s %s %s) & %d" % (a[0], {"add": "+", "sub": "-", "mul": "*"}[op], a[1], m)
                elif op == "zext": t = a[0]
                elif op == "trunc": t = "%s & %d" % (a[0], m)
                elif op == "sext": t = "(%s) & %d" % (s(0), m)
                elif op == "select": t = "%s if %s else %s" % (a[1], a[0], a[2])
                elif op in ("icmp.eq", "icmp.ne"): t = "int(%s %s %s)" % (a[0], "==" if op == "icmp.eq" else "!=", a[1])
                elif op[:6] == "icmp.u": t = "int(%s %s %s)" % (a[0], {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[op[6:]], a[1])
                elif op[:6] == "icmp.s": t = "int((%s) %s (%s))" % (s(0), {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[op[6:]], s(1))
                else: t = "op_eval(%r, %d, [%s], %r)" % (op, w, ", ".join(a), ws)
            r = "v%d" % len(code); code.append("    %s = %s" % (r, t))
        names[k] = r; return r
    outs = [go(e) if e is not None else "None" for e in exprs]
    src = "def f(env):\n%s\n    return (%s)" % ("\n".join(code), "".join(o + ", " for o in outs))
    d = {"op_eval": op_eval}; exec(src, d); return d["f"]
