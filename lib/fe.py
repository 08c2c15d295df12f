"""Driving the front-end harness: expression templates -> IR -> meaning."""
import sa
from irsem import *

STUBS = {"parse_expression": "__sa_stub__operand", "maybe_parse_type_for_cast_or_sizeof": "__sa_stub__cast_type",
         "maybe_report_error_for_stack_exhaustion": "__sa_stub__no_exhaustion", "push_unnamed_declaration": "__sa_stub__temporary"}
PRUNE = ["report_error", "report_syntax_error", "report_type_mismatch_error"]
SKIP = ["report_warning", "report_type_mismatch_warning"]
INT_LIT, FLOAT_LIT, VAR, PTR_LIT, BITFIELD, KNOWN_LIT, PTR_VAR, RVALUE, PTR_OBJ = range(9)

class FrontEnd:
    def __init__(s):
        s.module = sa.build_module("fe.c")
        t = sa.run_jobs(s.module, [{"query": "types", "id": "types"}])[0]["result"]
        s.tok = t["enums"].get("token_type"); s.irk = t["enums"].get("ir_kind")
        if not s.tok or not s.irk: raise sa.Broken("the enumerations token_type and ir_kind are gone")
        s.kinds = {}
        for k, v in s.irk.items(): s.kinds.setdefault(v, k[3:] if k.startswith("IR_") else k)
        for v, n in {s.irk[k]: k[3:] for k in s.irk if k != "IR_cast_base"}.items(): s.kinds[v] = n
        s.jobs = []; s.meta = []
    TOKENS = {"+": "plus", "-": "minus", "*": "times", "/": "slash", "%": "mod", "&": "and", "|": "or", "^": "xor", "<<": "left_shift", ">>": "right_shift",
              "<": "smaller", ">": "bigger", "<=": "smaller_equals", ">=": "bigger_equals", "==": "logical_equals", "!=": "logical_unequals", "&&": "logical_and", "||": "logical_or",
              "~": "bitwise_not", "!": "logical_not", "++": "increment", "--": "decrement", "=": "equals", "+=": "plus_equals", "-=": "minus_equals", "*=": "times_equals",
              "/=": "div_equals", "%=": "mod_equals", "&=": "and_equals", "|=": "or_equals", "^=": "xor_equals", "<<=": "left_shift_equals", ">>=": "right_shift_equals", ",": "comma", "?": "question_mark"}
    def token(s, op):
        n = "TOKEN_" + s.TOKENS[op]
        if n not in s.tok:
            alt = {"==": "double_equals", "!=": "not_equals", "%": "percent", "/": "div"}.get(op)
            if alt and "TOKEN_" + alt in s.tok: return s.tok["TOKEN_" + alt]
            raise sa.Broken("no token for " + op)
        return s.tok[n]
    def add(s, label, form, op, op2, operands, **meta):
        a = [form, op if isinstance(op, int) else s.token(op), op2 if isinstance(op2, int) else s.token(op2)]
        for k, t, v in operands: a += [k, T[t] if t in T else int(t), v]
        a += [0] * (15 - len(a))
        s.jobs.append(dict(id=label, fn="h_expression", args=a, prune=PRUNE, skip=SKIP, stub=STUBS, max_steps=3000000))
        meta.update(label=label, operands=operands, form=form, op=op, op2=op2); s.meta.append(meta)
    def run(s):
        out = []
        meta = s.meta
        def unsettled(i, r): return Result(s, meta[i], r).bad is not None
        for m, rs in zip(meta, sa.run_split(s.module, s.jobs, unsettled)):
            for r in rs: out.append((m, Result(s, m, r)))
        s.jobs = []; s.meta = []
        return out

class Result:
    def __init__(s, fe, meta, r):
        s.kinds = fe.kinds; s.meta = meta; s.raw = r
        s.precise = not r.get("budget") and not r["unk_stores"]
        s.ir = []; s.result = None; s.errors = []; s.warn = []; s.divs = []; s.temps = {}; s.asserts = []
        s.bad = None
        for n in r["nodes"]:
            pc = from_json(n["pc"]) if n.get("pc") else None
            if n["k"] == "prune": s.errors.append((n["t"].split("|", 1)[1], pc, n["l"]))
            elif n["k"] == "skip": s.warn.append(n["t"])
            elif n["k"] in ("assert", "panic"): s.asserts.append((n["t"], pc, n["l"]))
            elif n["k"] == "div": s.divs.append((n["t"], n["a"], pc, n["l"]))
            elif n["k"] == "obs" and n["t"] == "ir":
                ints = [avint(x) for x in n["a"]]
                if ints[0] is None or ints[1] is None: s.bad = "undetermined IR"; continue
                args = []
                for i, x in enumerate(n["a"][2:]): args.append(ints[i + 2])
                kind = fe.kinds.get(ints[1])
                if kind in ("integer_literal", "float_literal", "pointer_literal"):
                    e = av(n["a"][3]); args = [ints[2], e]
                    if e is None: s.bad = "undetermined literal"
                s.ir.append((ints[0], ints[1], args))
            elif n["k"] == "obs" and n["t"] == "result":
                s.result = n; s.pc = pc
            elif n["k"] == "obs" and n["t"] == "temporary": s.temps[100 + avint(n["a"][0])] = typename(avint(n["a"][1]))
            elif n["k"] == "obs" and n["t"] == "tokens_left": s.tokens_left = avint(n["a"][0])
        s.ir.sort(key=lambda x: x[0])
        # two branches writing the same offset with different kinds would be an imprecision
        if len({x[0] for x in s.ir}) != len(s.ir): s.bad = "several IR records at one offset"
        if s.result: s.type = avint(s.result["a"][1])
    def typename(s): return typename(s.type) if s.type is not None else None
    def meaning(s, ptr_sizes=None):
        ops = s.meta["operands"]; types = {}; bf = {}
        for i, (k, t, v) in enumerate(ops):
            types[i] = "ptr" if k in (PTR_LIT, PTR_VAR, PTR_OBJ) else t
            if k == BITFIELD: bf[200 + i] = dict(type=t, bit=v >> 8, width=v & 255)
        types.update(s.temps)
        m = Machine(s.kinds, types, bf)
        m.ptr_sizes = ptr_sizes or (lambda i: 0)
        st, mem = m.run(s.ir)
        if len(st) != 1: raise Bad("the expression leaves %d values on the IR stack" % len(st))
        if st[0] is None: return None, False, mem, m
        e, fl = m.value(st, st[0], mem)
        return e, fl, mem, m
    def text(s):
        return " ".join(s.kinds.get(k, str(k)) + ("" if not a else "(" + ",".join(show(x) if isinstance(x, tuple) else str(x) for x in a) + ")") for _, k, a in s.ir)
