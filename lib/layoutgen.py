"""Compound types to analyse: an exhaustive part over short member lists and a seeded random part."""
import random
from tysem import Compound, SIZE
SCALARS = ["Bool", "s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "f32", "f64"]
BITS = ["s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64"]
class Gen:
    def __init__(s, seed): s.r = random.Random(seed); s.n = 0; s.names = 0
    def reset(s): s.n = 0; s.names = 0
    def sym(s, lo, hi): s.n += 1; return ("sym", lo, hi, s.n - 1)
    def name(s): s.names += 1; return chr(ord('a') + s.names - 1)
    def width(s, b): return s.sym(1, SIZE[b] * 8)
    def leaf(s):
        r = s.r.random()
        if r < .6: return ("b", s.r.choice(SCALARS))
        if r < .75: return ("p", ("b", s.r.choice(["void", "s32"])))
        return ("a", s.sym(1, 100), ("b", s.r.choice(SCALARS)))
    def typ(s, depth, names=None):
        if depth and s.r.random() < .2:
            c = s.compound(depth - 1, fresh=True)
            if s.r.random() < .3: return ("a", s.sym(1, 20), ("c", c))
            return ("c", c)
        return s.leaf()
    def member(s, depth, last, pack_ok):
        r = s.r.random()
        if r < .38:
            # runs of bit-fields of one type are the interesting case
            b = last if last and s.r.random() < .6 else s.r.choice(BITS)
            q = s.r.random()
            if q < .12: return ("bf", None, b, 0)
            if q < .25: return ("bf", None, b, s.width(b))
            return ("bf", s.name(), b, s.width(b))
        if r < .5 and depth: return ("anon", ("c", s.compound(depth - 1, fresh=False)))
        n = s.name()
        if pack_ok and s.r.random() < .08: return ("m", n, s.leaf(), s.r.choice([16, 32, 64]))
        return ("m", n, s.typ(depth), 0)
    def compound(s, depth, fresh=False, n=None, union=None, packed=None):
        u = s.r.random() < .25 if union is None else union
        k = n or s.r.choice([1, 2, 2, 3, 3, 4])
        ms = []; last = None
        packed = s.r.random() < .06 if packed is None else packed
        for _ in range(k):
            m = s.member(depth, last, not packed)
            if u and m[0] == "bf" and m[1] is None and m[3] == 0: m = ("bf", None, m[2], s.width(m[2]))
            last = m[2] if m[0] == "bf" else None; ms.append(m)
        if not any(m[0] != "bf" or m[1] for m in ms): ms.append(("m", s.name(), s.leaf(), 0))
        return Compound(u, ms, s.r.choice([16, 32, 64]) if not packed and s.r.random() < .07 else 0, packed)
def walk(c):
    for m in c.members:
        t = m[2] if m[0] == "m" else m[1] if m[0] == "anon" else None
        while t and t[0] in "pa": t = t[2] if t[0] == "a" else t[1]
        if t and t[0] == "c": yield t[1]; yield from walk(t[1])
