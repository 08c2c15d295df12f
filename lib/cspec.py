"""What C (C11, with this compiler's LLP64 types and wrapping arithmetic) says an expression means."""
from irsem import *
from fe import INT_LIT, FLOAT_LIT, VAR, BITFIELD, KNOWN_LIT, RVALUE, PTR_LIT, PTR_VAR, PTR_OBJ
ALL = [t for t in TYPES if t != "void"]
INTS_ = [t for t in ALL if not isfloat(t)]
BIN_ARITH = ["+", "-", "*", "/"]; BIN_INT = ["%", "&", "|", "^"]; SHIFTS = ["<<", ">>"]; COMPARE = ["<", ">", "<=", ">=", "==", "!="]; LOGIC = ["&&", "||"]

def operand(i, op):
    """(type, value) of operand i"""
    k, t, v = op; name = "abcdefgh"[i]
    if k in (PTR_LIT, PTR_VAR, PTR_OBJ): return "ptr", leaf(64, name)
    if k == BITFIELD: return bitfield(t, v >> 8, v & 255, leaf(bits(t), name))
    if k in (INT_LIT, FLOAT_LIT): return t, mk("trunc", bits(t), leaf(64, name))
    if k == KNOWN_LIT: return t, const(bits(t), v)
    return t, leaf(bits(t), name)

def element_size(op):
    k, t, v = op
    if k == PTR_OBJ: return v
    return SIZE.get(t, 0)

def binary(op, t1, x, t2, y):
    """(type, value) of x op y"""
    if op in LOGIC:
        a, b = truth(x, t1), truth(y, t2)
        return "s32", mk("zext", 32, mk("and" if op == "&&" else "or", 1, a, b))
    if op in SHIFTS:
        t = promoted(t1); return t, shift(op, t, convert(x, t1, t), convert(y, t2, promoted(t2)))
    c = common(t1, t2); a, b = convert(x, t1, c), convert(y, t2, c)
    if op in COMPARE: return "s32", compare(op, c, a, b)
    return c, arith(op, c, a, b)
def unary(op, t, x):
    if op == "!": return "s32", mk("zext", 32, lognot(truth(x, t)))
    p = promoted(t); v = convert(x, t, p)
    if op == "+": return p, v
    if op == "-": return p, (mk("fneg", bits(p), v) if isfloat(p) else mk("sub", bits(p), const(bits(p), 0), v))
    if op == "~": return p, mk("xor", bits(p), v, const(bits(p), -1))
def conditional(c, tc, x, t1, y, t2):
    t = common(t1, t2)
    return t, mk("select", bits(t), truth(c, tc), convert(x, t1, t), convert(y, t2, t))

def binary_ok(op, t1, t2):
    if op in BIN_INT or op in SHIFTS: return not isfloat(t1) and not isfloat(t2)
    return True
def unary_ok(op, t): return not (op == "~" and isfloat(t))

def grid_for(op):
    k, t, v = op
    if k in (PTR_LIT, PTR_VAR, PTR_OBJ): return int_grid(64)
    if k == BITFIELD: return int_grid(bits(t))
    if t == "Bool": g = [0, 1]
    elif isfloat(t): g = float_grid(bits(t))
    else: g = int_grid(bits(t))
    return g
def grids(ops):
    return {"abcdefgh"[i]: grid_for(o) for i, o in enumerate(ops)}
