"""What an initializer means (C11 6.7.9): which subobject gets which value."""
import random, struct
from tysem import *
STRING_ELEMENTS = {"s8": 1, "u8": 1, "s16": 2, "u16": 2, "s32": 4, "u32": 4}
# an initializer: ("e", i) a value | ("s", n, z) a string of n characters of z bytes | ("o",) an object of the typedef T | ("l", [(designators, initializer)])
def emit(i, x):
    if i[0] == "e": x.add("%%%d" % i[1])
    elif i[0] == "s": x.add('"%d:%d' % (i[1], i[2]))
    elif i[0] == "o": x.add("@T")
    else:
        x.add("{")
        for n, (ds, q) in enumerate(i[1]):
            if n: x.add(",")
            for d in ds:
                if isinstance(d, str): x.add(". @" + d)
                else: x.add("["); lit(x, d); x.add("]")
            if ds: x.add("=")
            emit(q, x)
        if len(i) > 2: x.add(",")
        x.add("}")
class Initializer:
    """stores: [(offset, bit, width, kind, value)], length: of an outermost array of unknown length"""
    def __init__(s, reader, typedef=None): s.rd = reader; s.typedef = typedef; s.stores = []; s.length = None; s.open = False
    def members(s, c):
        offs = s.rd.fields(c); out = []
        for m, o in zip(c.members, offs):
            if m[0] == "bf":
                if m[1]: z = SIZE[m[2]] * 8; w = s.rd.val(m[3]); out.append((m[1], ("bf", m[2], w), o))
            elif m[0] == "m": out.append((m[1], m[2], o))
            else: out.append((None, m[1], o))
        return out
    def record(s, t):
        if t == ("t", 0): t = s.typedef
        return t[1] if t[0] == "c" else None
    def parts(s, t):
        """number of subobjects in sequence"""
        c = s.record(t)
        if c is not None: return 1 if c.union else len(s.members(c))
        return 1 << 40 if t[1] is None else s.rd.val(t[1])
    def part(s, t, off, i):
        c = s.record(t)
        if c is not None: n, u, o = s.members(c)[i]; return u, off + o
        return t[2], off + 8 * i * s.rd.size(s.resolve(t[2]))
    def resolve(s, t): return s.typedef if t == ("t", 0) else ("a", t[1], s.resolve(t[2])) if t[0] == "a" else t
    def aggregate(s, t): return s.record(t) is not None or t[0] == "a"
    def find(s, c, name):
        """the way to a member, through anonymous members"""
        for i, (n, u, o) in enumerate(s.members(c)):
            if n == name: return [i]
            if n is None:
                w = s.find(s.record(u), name)
                if w: return [i] + w
        return None
    def store(s, t, off, kind, v):
        s.stores.append((t, off, t[2] if t[0] == "bf" else 8 * s.rd.size(s.resolve(t)), kind, v))
    def scalar(s, t, off, i):
        if i[0] == "e":
            if t[0] == "p": s.open = True   # an integer as pointer: a warning
            if t[0] == "b" and t[1] in ("f32", "f64"): s.store(t, off, 2, i[1])
            else: s.store(t, off, 1, ("bool",) if t == ("b", "Bool") else i[1])
        elif i[0] == "s":
            if t == ("b", "Bool"): s.open = True
            if t[0] != "p": raise Illegal()
            s.store(t, off, 5, i[1] * i[2])
        else: raise Illegal()
    def string(s, t, off, i):
        z = STRING_ELEMENTS.get(t[2][1]) if t[2][0] == "b" else None
        if z != i[2]: return False
        if t[1] is not None and i[1] > s.rd.val(t[1]): raise Illegal()
        if t[1] is None: s.length = max(s.length or 0, i[1] + 1)
        s.stores.append((t, off, 8 * z * (i[1] + 1 if t[1] is None else s.rd.val(t[1])), 3, i[1] * i[2])); return True
    def braces(s, t, off, items):
        if not s.aggregate(t):
            if len(items) != 1 or items[0][0]: raise Illegal()
            if items[0][1][0] == "l": s.braces(t, off, items[0][1][1])
            else: s.scalar(t, off, items[0][1])
            return
        if t[0] == "a" and len(items) == 1 and not items[0][0] and items[0][1][0] == "s" and s.string(t, off, items[0][1]): return
        stack = [[t, off, 0]]
        if t[0] == "a" and items and items[0][1][0] == "s" and t[2][0] == "b": s.open = True   # a string as one of several initializers of a character array
        for ds, i in items:
            if ds:
                stack = []; u, o = t, off
                for d in ds:
                    if isinstance(d, tuple): d = s.rd.val(d)
                    c = s.record(u)
                    if isinstance(d, str):
                        way = s.find(c, d) if c is not None else None
                        if not way: raise Illegal()
                    else:
                        if u[0] != "a" or d >= s.parts(u): raise Illegal()
                        way = [d]
                    for w in way: stack.append([u, o, w]); u, o = s.part(u, o, w)
            else:
                if not stack: raise Illegal()
                u, o = s.part(*stack[-1])
            if len(stack) and stack[0][0][1] is None: s.length = max(s.length or 0, stack[0][2] + 1)
            if i[0] == "l": s.braces(u, o, i[1])
            else:
                while True:
                    if i[0] == "s" and u[0] == "a" and s.string(u, o, i): break
                    if i[0] == "o" and u == ("t", 0): s.stores.append((u, o, 8 * s.rd.size(s.typedef), 4, ord("T"))); break
                    if not s.aggregate(u): s.scalar(u, o, i); break
                    stack.append([u, o, 0]); u, o = s.part(*stack[-1])
            while stack:
                stack[-1][2] += 1
                if stack[-1][2] < s.parts(stack[-1][0]): break
                stack.pop()
    def run(s, t, i):
        if i[0] == "l": s.braces(t, 0, i[1])
        elif i[0] == "s" and t[0] == "a":
            if not s.string(t, 0, i): raise Illegal()
        elif i[0] == "o" and t == ("t", 0): s.stores.append((t, 0, 8 * s.rd.size(s.typedef), 4, ord("T")))
        elif s.aggregate(t): raise Illegal()
        else: s.scalar(t, 0, i)
        if t[0] == "a" and t[1] is None: return (s.length or 0) * s.rd.size(s.resolve(t[2]))
        return s.rd.size(s.resolve(t))
    def overlaps(s):
        """whether some subobject is initialized twice in different ways"""
        for n, a in enumerate(s.stores):
            for b in s.stores[:n]:
                if a[1] < b[1] + b[2] and b[1] < a[1] + a[2] and (a[1:3] != b[1:3] or a[3] in (3, 4) or b[3] in (3, 4)): return True
        return False
    def memory(s, size, env):
        """the bytes of a static object, and the addresses in it"""
        m = 0; out = []; floats = {}
        for _, off, w, kind, v in s.stores:
            mask = ((1 << w) - 1) << off
            if kind == 1: x = 1 if v == ("bool",) else env["v%d" % v]
            elif kind == 2: x = int.from_bytes(struct.pack("<f" if w == 32 else "<d", env["v%d" % v]), "little")
            elif kind == 3:
                x = int.from_bytes(bytes(65 + k for k in range(v)), "little")
            else: continue
            m = m & ~mask | (x << off) & mask
        return [(m >> 8 * i) & 255 for i in range(size)]
    def expected_list(s, env):
        return [("init", o, 0 if k == 3 else w, k, (1 if v == ("bool",) else env["v%d" % v]) if k in (1, 2) else v) for _, o, w, k, v in s.stores]
    def expected_memory(s, size, env):
        return [("address", o // 8, 1, v, 0) for _, o, w, k, v in s.stores if k == 5] + [("byte", i, b) for i, b in enumerate(s.memory(size, env))]
