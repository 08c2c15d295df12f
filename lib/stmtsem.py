"""What statements mean (C11 6.2.1, 6.8): a function body as a list of tokens becomes a small program of names, literals, jumps and switches.

Words: @x a name, #i the literal LITS[i], %t an operand of the arithmetic type number t, everything else a keyword or punctuation.
The reader is independent of the compiler's parser; `Open` marks what the property leaves open, `Illegal` what C forbids."""
import random
OPERANDS = ["s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "f64"]
WIDTH = [32, 32, 32, 32, 32, 32, 64, 64, None]      # of the promoted type
LITS = [0, 1, 2, 3, 5, -1, 255, 4294967295, 4294967296, 4294967301, -2147483648, 7, 12]
SIZES = {"char": 1, "short": 2, "int": 4, "double": 8}
class Illegal(Exception): pass
class Open(Exception): pass

class Reader:
    def __init__(s, words, kind):
        s.w = words; s.i = 3; s.kind = kind; s.code = []; s.labels = 0; s.user = {}; s.gotos = []
        s.scopes = [{}]; s.tags = [{}]; s.brk = []; s.cont = []; s.switches = []
        for n in (0, 1): s.declare(words[n], ("object", n, 4))
        s.body()
        if s.i != len(words): raise Illegal()
        for g in s.gotos:
            if g not in s.user: raise Illegal()
        if kind == 1: s.code += [("literal", 0), ("return",)]
        s.code.append(("end",))
    def peek(s): return s.w[s.i] if s.i < len(s.w) else None
    def next(s):
        if s.i >= len(s.w): raise Illegal()
        s.i += 1; return s.w[s.i - 1]
    def expect(s, w):
        if s.next() != w: raise Illegal()
    def eat(s, w):
        if s.peek() == w: s.i += 1; return True
    def label(s): s.labels += 1; return s.labels
    def lookup(s, name):
        for sc in reversed(s.scopes):
            if name in sc: return sc[name]
        if name[1] in "abcdefgh": return ("object", 1000 + ord(name[1]) - 97, 4)
    def declare(s, name, what):
        if name in s.scopes[-1]: raise Open()
        s.scopes[-1][name] = what
    def push(s): s.scopes.append({}); s.tags.append({})
    def pop(s): s.scopes.pop(); s.tags.pop()
    def body(s):
        """statements up to the closing brace"""
        while not s.eat("}"): s.statement(True)
    def operand(s):
        w = s.next()
        if w[0] == "@":
            d = s.lookup(w)
            if d is None: raise Illegal()
            if d[0] == "typedef": raise Open()
            s.code.append(("name", d[1], d[2])); return 4
        if w[0] == "#":
            if LITS[int(w[1:])] != LITS[int(w[1:])] & 0x7fffffff: raise Open()
            s.code.append(("literal", LITS[int(w[1:])])); return 4
        if w[0] == "%": s.code.append(("name", 2000 + int(w[1:]), None)); return int(w[1:])
        raise Illegal()
    def expr(s):
        t = s.operand()
        while s.eat(","): t = s.operand()
        return t
    def constant(s):
        w = s.next()
        if w[0] != "#": raise Open() if w[0] in "@%" else Illegal()
        return LITS[int(w[1:])]
    def statement(s, in_block=False):
        w = s.peek()
        if w is None: raise Illegal()
        if w in ("int", "char", "short", "double", "static", "extern", "typedef", "struct", "enum", "const"):
            if not in_block: raise Open()
            return s.declaration()
        s.i += 1; E = s.code.append
        if w == ";": return
        if w == "{": s.push(); s.body(); s.pop(); return
        if w == "if":
            s.expect("("); s.expr(); s.expect(")")
            no = s.label(); E(("false", no)); s.statement()
            if s.eat("else"):
                end = s.label(); E(("jump", end)); E(("label", no)); s.statement(); E(("label", end))
            else: E(("label", no))
        elif w == "while":
            again, end = s.label(), s.label()
            E(("label", again)); s.expect("("); s.expr(); s.expect(")"); E(("false", end))
            s.loop(again, end); E(("jump", again)); E(("label", end))
        elif w == "do":
            again, test, end = s.label(), s.label(), s.label()
            E(("label", again)); s.loop(test, end); E(("label", test))
            s.expect("while"); s.expect("("); s.expr(); s.expect(")"); E(("true", again)); E(("label", end)); s.expect(";")
        elif w == "for":
            s.expect("("); s.push()
            if not s.eat(";"):
                if s.peek() in ("int", "char", "short", "double") or s.peek()[0] in "@%#":
                    if s.peek()[0] == "@" and s.i + 1 < len(s.w) and s.w[s.i + 1] == ":": raise Open()
                    s.statement(True)
                else: raise Open()
            again, step, end = s.label(), s.label(), s.label()
            E(("label", again))
            if not s.eat(";"): s.expr(); s.expect(";"); E(("false", end))
            inc = None; save = s.code
            if not s.eat(")"):
                s.code = inc = []; s.expr(); s.expect(")"); s.code = save
            s.loop(step, end); E(("label", step))
            if inc: s.code += inc
            E(("jump", again)); E(("label", end)); s.pop()
        elif w == "switch":
            s.expect("("); t = s.expr(); s.expect(")")
            if WIDTH[t] is None: raise Illegal()
            end = s.label(); arms = {}; sw = [arms, None, WIDTH[t]]; at = len(s.code); E(None)
            s.switches.append(sw); s.brk.append(end); s.push(); s.statement(); s.pop(); s.brk.pop(); s.switches.pop()
            s.code[at] = ("switch", arms, sw[1] or end, WIDTH[t]); E(("label", end))
        elif w == "case":
            if not s.switches: raise Illegal()
            sw = s.switches[-1]; n = s.constant() & ((1 << sw[2]) - 1); s.expect(":")
            if n in sw[0]: raise Illegal()
            sw[0][n] = s.label(); E(("label", sw[0][n])); s.labelled()
        elif w == "default":
            if not s.switches or s.switches[-1][1]: raise Illegal()
            s.expect(":"); s.switches[-1][1] = s.label(); E(("label", s.switches[-1][1])); s.labelled()
        elif w == "break":
            if not s.brk: raise Illegal()
            E(("jump", s.brk[-1])); s.expect(";")
        elif w == "continue":
            if not s.cont: raise Illegal()
            E(("jump", s.cont[-1])); s.expect(";")
        elif w == "return":
            if s.peek() == ";":
                if s.kind != 2: raise Illegal()
            else:
                if s.kind == 2: raise Open()
                if s.expr() != 4: raise Open()
            E(("return",)); s.expect(";")
        elif w == "goto":
            n = s.next()
            if n[0] != "@": raise Illegal()
            s.gotos.append(n); E(("jump", n)); s.expect(";")
        elif w == "_Static_assert": s.i -= 1; s.assertion()
        elif w[0] == "@" and s.peek() == ":":
            s.i += 1
            if w in s.user: raise Illegal()
            s.user[w] = 1; E(("label", w)); s.labelled()
        elif w[0] == "@" and (s.lookup(w) or "?")[0] == "typedef":
            s.i -= 1
            if not in_block: raise Open()
            s.declaration()
        elif w[0] in "@#%": s.i -= 1; s.expr(); s.expect(";")
        else: raise Illegal()
    def labelled(s):
        if s.peek() == "}": return
        if s.peek() in ("int", "char", "short", "double", "static", "extern", "typedef", "struct", "enum", "_Static_assert", "const"): raise Open()
        s.statement()
    def loop(s, cont, end):
        s.cont.append(cont); s.brk.append(end); s.push(); s.statement(); s.pop(); s.cont.pop(); s.brk.pop()
    def assertion(s):
        s.expect("_Static_assert"); s.expect("("); n = s.constant()
        if s.eat(","): s.expect('"1:1')
        s.expect(")"); s.expect(";")
        if not n: raise Illegal()
    def declaration(s):
        store = None
        while s.peek() in ("static", "extern", "typedef", "const"):
            w = s.next()
            if w != "const":
                if store: raise Open()
                store = w
        w = s.next()
        if w in SIZES: size = SIZES[w]
        elif w == "enum":
            if s.next() != "{": raise Open()
            if s.peek() == "}": raise Open()
            while True:
                n = s.next()
                if n[0] != "@": raise Illegal()
                s.declare(n, ("object", s.i - 1, 4))
                if s.peek() == "=": s.i += 1; s.constant()
                if not s.eat(","): break
                if s.peek() == "}": break
            s.expect("}"); size = 4
        elif w == "struct":
            n = s.next()
            if n[0] != "@": raise Open()
            if s.eat("{"):
                if n in s.tags[-1]: raise Open()
                s.expect("char"); m = s.next(); s.expect("[")
                if s.peek() == "]": raise Open()
                size = s.constant(); s.expect("]"); s.expect(";"); s.expect("}")
                if m[0] != "@" or not 0 < size < 100: raise Open()
                s.tags[-1][n] = size
            else:
                size = next((t[n] for t in reversed(s.tags) if n in t), None)
                if s.peek() == ";": raise Open()
                if size is None:
                    if store or s.peek()[0] != "@": raise Open()
                    raise Illegal()
        elif w[0] == "@":
            d = s.lookup(w)
            if d is None or d[0] != "typedef": raise Open()
            size = d[2]
        else: raise Illegal()
        if s.peek() in ("static", "extern", "typedef", "const", "int", "char", "short", "double", "struct", "enum"): raise Open()
        if s.eat(";"):
            if w not in ("enum", "struct") or store: raise Open()
            return
        while True:
            z = size
            while s.eat("*"): z = 8
            at = s.i; n = s.next()
            if n[0] != "@": raise Illegal()
            if store == "extern":
                if n[1] not in "abcdefgh": raise Illegal()
                if z != 4 or w != "int": raise Open()
                if n in s.scopes[-1]: raise Open()
                s.scopes[-1][n] = ("object", 1000 + ord(n[1]) - 97, 4)
                if s.peek() == "=": raise Illegal()
            else:
                s.declare(n, ("typedef" if store == "typedef" else "object", at, z))
                if s.eat("="):
                    if store == "typedef": raise Illegal()
                    if z == 8 and w != "double": raise Open()
                    if w in ("struct",): raise Open()
                    save = s.code; s.code = []
                    s.code.append(("name", at, z)); s.operand(); s.code.append(("init",))
                    new = s.code; s.code = save
                    if store == "static":
                        if new[1][0] == "name": raise Open()
                    else: s.code += new
            if not s.eat(","): break
        s.expect(";")

# ---------------------------------------------------------------- two programs do the same
class Program:
    def __init__(s, code):
        """code: a list of instructions; labels are unique"""
        s.c = code; s.l = {}
        for i, c in enumerate(code):
            if c[0] == "label":
                if c[1] in s.l: raise ValueError("two labels number %s" % c[1])
                s.l[c[1]] = i
    def go(s, l):
        if l not in s.l: raise ValueError("a jump to label %s, which does not exist" % l)
        return s.l[l]
    def follow(s, i):
        seen = set()
        while True:
            if i in seen: return None, ("loops forever",)
            seen.add(i); c = s.c[i]; k = c[0]
            if k in ("label", "pop", "case", "cast"): i += 1
            elif k == "jump": i = s.go(c[1])
            elif k == "literal":
                j = i + 1
                while s.c[j][0] == "cast": j += 1
                d = s.c[j]
                if d[0] not in ("true", "false"): return i, c
                i = s.go(d[1]) if bool(c[1]) == (d[0] == "true") else j + 1
            elif k in ("true", "false"): return i, ("branch",)
            elif k == "switch": return i, ("switch",)
            else: return i, c
    def after(s, i):
        c = s.c[i]; k = c[0]
        if k == "true": return {True: s.go(c[1]), False: i + 1}
        if k == "false": return {False: s.go(c[1]), True: i + 1}
        if k == "switch":
            m = (1 << c[3]) - 1; d = {}
            for v, l in c[1].items():
                if v & m in d: raise ValueError("two arms for the value %d" % v)
                d[v & m] = s.go(l)
            d["default"] = s.go(c[2]); return d
        if k in ("return", "end"): return {}
        return {"next": i + 1}
def same(a, b, show=str):
    """a: the compiler's program, b: what C says.  None, or a description of the first difference"""
    todo = [(0, 0, "")]; seen = set()
    while todo:
        i, j, how = todo.pop()
        i, x = a.follow(i); j, y = b.follow(j)
        if (i, j) in seen: continue
        seen.add((i, j))
        if x[0] == "name" and y[0] == "name" and y[2] is None: y = y[:2] + (x[2],)
        if x == ("literal", None) and y[0] == "literal": y = x     # converted to a floating type, see C01
        if x != y: return "after%s the compiler's code has %s where C has %s" % (how or " nothing", show(x), show(y))
        if i is None: continue
        if x[0] == "switch":   # the reader knows the type of the operand
            a.c[i] = a.c[i][:3] + (b.c[j][3],)
        m, n = a.after(i), b.after(j)
        if set(m) != set(n): return "the switch after%s has the arms %s, in C %s" % (how, sorted(map(str, m)), sorted(map(str, n)))
        for k in m: todo.append((m[k], n[k], (how + " " + (show(x) if k == "next" else "%s %s" % (x[0], k)))[-160:]))
    return None

# ---------------------------------------------------------------- programs to try
class Generator:
    def __init__(s, seed): s.r = random.Random(seed)
    def program(s, size, kind):
        s.kind = kind; s.labels = 0; s.left = size; s.out = []; s.vars = [["p", "q"], ["a", "b"]]; s.types = []; s.tagn = []
        s.want = set()
        w = ["@p", "@q", "{"] + s.block(0, 0, 0)
        for l in sorted(s.want): w += ["@" + l, ":"] + s.simple()
        return w + ["}"]
    def name(s):
        v = [x for sc in s.vars for x in sc]
        return "@" + s.r.choice(v)
    def cond(s):
        r = s.r.random()
        if r < .12: return ["#0"]
        if r < .25: return ["#1"]
        if r < .35: return [s.name(), ",", s.name()]
        return [s.name()]
    def simple(s): return [s.name(), ";"]
    def block(s, loop, brk, sw):
        s.vars.append([]); out = []
        for _ in range(s.r.randint(1, 4)):
            if s.left <= 0: break
            out += s.decl() if s.r.random() < .25 else s.stmt(loop, brk, sw)
        s.vars.pop(); return out
    def fresh(s):
        n = s.r.choice([c for c in "pqabxyzuv" if c not in s.vars[-1] and not (len(s.vars) <= 3 and c in "pq")] or ["w"])
        return n
    def decl(s):
        s.left -= 1; r = s.r.random(); n = s.fresh()
        if n == "w": return s.simple()
        if r < .35: s.vars[-1].append(n); return [s.r.choice(["int", "int", "char", "double"]), "@" + n, "=", s.name() if s.r.random() < .6 else "#3", ";"]
        if r < .5:
            s.vars[-1].append(n); m = s.fresh()
            if m == "w": return ["int", "@" + n, ";"]
            s.vars[-1].append(m); return ["int", "@" + n, ",", "@" + m, "=", "@" + n, ";"]
        if r < .6: s.vars[-1].append(n); return ["static", "int", "@" + n, "=", "#4", ";"]
        if r < .7 and n in "ab": s.vars[-1].append(n); return ["extern", "int", "@" + n, ";"]
        if r < .8: s.vars[-1].append(n); return ["enum", "{", "@" + n, "}", ";"]
        if r < .9: s.vars[-1].append(n); return ["struct", "@S", "{", "char", "@m", "[", s.r.choice(["#2", "#3", "#4", "#11", "#12"]), "]", ";", "}", "@" + n, ";"]
        s.vars[-1].append(n); return ["int", "*", "@" + n, ";"]
    def stmt(s, loop, brk, sw):
        s.left -= 1; r = s.r.random(); sub = lambda l=loop, b=brk, w=sw: s.stmt(l, b, w) if s.left > 0 else s.simple()
        if r < .2: return s.simple()
        if r < .25: return [";"]
        if r < .35: return ["{"] + s.block(loop, brk, sw) + ["}"]
        if r < .5:
            o = ["if", "("] + s.cond() + [")"] + sub()
            return o + (["else"] + sub() if s.r.random() < .6 else [])
        if r < .58: return ["while", "("] + s.cond() + [")"] + sub(1, 1)
        if r < .66: return ["do"] + sub(1, 1) + ["while", "("] + s.cond() + [")", ";"]
        if r < .76:
            s.vars.append([]); q = s.r.random(); o = ["for", "("]
            if q < .3: o += [";"]
            elif q < .6: o += [s.name(), ";"]
            else: n = s.fresh(); o += ["int", "@" + n, "=", s.name(), ";"]; s.vars[-1].append(n)
            o += (s.cond() if s.r.random() < .7 else []) + [";"] + ([s.name()] if s.r.random() < .7 else []) + [")"] + sub(1, 1)
            s.vars.pop(); return o
        if r < .86:
            s.sw = getattr(s, "sw", []); s.sw.append(set()); o = ["switch", "(", s.r.choice([s.name(), s.name(), "%0", "%1", "%2", "%3", "%4", "%5", "%6", "%7"]), ")"]
            if s.r.random() < .9:
                s.vars.append([]); o += ["{"]
                for _ in range(s.r.randint(1, 4)):
                    if s.r.random() < .85: o += s.arm()
                    o += s.stmt(loop, 1, 1) if s.left > 0 else s.simple()
                    if s.r.random() < .4: o += ["break", ";"]
                if s.r.random() < .2: o += s.arm()
                o += ["}"]; s.vars.pop()
            else: o += s.arm() + sub(loop, 1, 1)
            s.sw.pop(); return o
        if r < .9 and brk: return ["break", ";"]
        if r < .93 and loop: return ["continue", ";"]
        if r < .95: return ["return"] + ([] if s.kind == 2 else [s.name() if s.r.random() < .7 else "#3"]) + [";"]
        if r < .97:
            l = s.r.choice("lkj"); s.want.add(l); return ["goto", "@" + l, ";"]
        if sw: return s.arm() + sub()
        return s.simple()
    def arm(s):
        have = s.sw[-1]
        if "d" not in have and s.r.random() < .25: have.add("d"); return ["default", ":"]
        c = [i for i in range(len(LITS)) if i not in have and (i < 7 or s.r.random() < .3)]
        if not c: return []
        i = s.r.choice(c); have.add(i); return ["case", "#%d" % i, ":"]
    def disturb(s, w):
        """one change to the tokens after the opening brace"""
        w = list(w); i = s.r.randrange(3, len(w)); q = s.r.random()
        if q < .3: del w[i]
        elif q < .5: w.insert(i, s.r.choice([";", "{", "}", "(", ")", "else", "break", "continue", "default", ":", "case", "@x", "@l", "int", "while", "if", ","]))
        elif q < .75: w[i] = s.r.choice([";", "break", "continue", "else", "@x", "@y", "@a", "@l", "#0", "#1", "case", "default", "return", "goto", "(", ")", "%8", "%1"])
        elif q < .9 and i + 1 < len(w): w[i], w[i + 1] = w[i + 1], w[i]
        else:
            j = s.r.randrange(3, len(w)); w[i:i] = w[j:j + s.r.randint(1, 4)]
        return w
def balanced(w):
    """the body of a function ends with the brace that matches its first one"""
    d = 0
    for i, x in enumerate(w):
        d += (x == "{") - (x == "}")
        if i >= 2 and not d: return i == len(w) - 1
    return False
def small():
    """every nesting of two or three of the compound statements, with each of the ways out in the innermost"""
    W = [lambda x: ["if", "(", "@p", ")"] + x, lambda x: ["if", "(", "@p", ")"] + x + ["else", "@q", ";"], lambda x: ["if", "(", "@p", ")", "@q", ";", "else"] + x,
         lambda x: ["while", "(", "@p", ")"] + x, lambda x: ["do"] + x + ["while", "(", "@p", ")", ";"], lambda x: ["for", "(", "@a", ";", "@p", ";", "@q", ")"] + x,
         lambda x: ["for", "(", ";", ";", ")"] + x, lambda x: ["switch", "(", "@p", ")", "{", "case", "#1", ":"] + x + ["@a", ";", "default", ":", "@b", ";", "case", "#2", ":", "@q", ";", "}"],
         lambda x: ["switch", "(", "@p", ")", "case", "#3", ":"] + x, lambda x: ["{", "@b", ";"] + x + ["@a", ";", "}"], lambda x: ["{", "int", "@a", "=", "@p", ";"] + x + ["@a", ";", "}", "@a", ";"]]
    L = [["break", ";"], ["continue", ";"], ["return", "@a", ";"], ["@a", ";"], ["goto", "@l", ";"], ["{", "if", "(", "@q", ")", "break", ";", "@a", ";", "}"], ["{", "if", "(", "@q", ")", "continue", ";", "@a", ";", "}"], ["case", "#4", ":", "@a", ";"], ["default", ":", ";"]]
    wrap = lambda x: ["@p", "@q", "{"] + x + ["@b", ";"] + (["@l", ":", "@q", ";"] if "goto" in x else []) + ["return", "@p", ";", "}"]
    for l in L: yield wrap(l)
    for a in W:
        for l in L: yield wrap(a(l))
        for b in W:
            for l in L: yield wrap(a(b(l)))
    # a nested statement does not disturb what surrounds it
    for a in W:
        for b in W:
            yield wrap(["while", "(", "@a", ")", "{"] + a(b(["@b", ";"])) + ["if", "(", "@q", ")", "break", ";", "if", "(", "@p", ")", "continue", ";", "}"])
            yield wrap(["switch", "(", "@a", ")", "{", "case", "#1", ":"] + a(b(["@b", ";"])) + ["break", ";", "case", "#2", ":", "@q", ";", "default", ":", "@p", ";", "}"])
# hand-picked: what scopes, labels and switches must and must not allow
PICKED = """
{ int @x = @x ; @x ; }
{ int @x ; { int @x = @x ; @x ; } @x ; }
{ int @x ; { @x ; int @x ; @x ; } @x ; }
{ { int @x ; } @x ; }
{ for ( int @i = @a ; @i ; @i ) @i ; @i ; }
{ for ( int @a = @a ; @a ; @a ) { int @a ; @a ; } @a ; }
{ for ( int @a = @p ; @a ; @a ) { @a ; int @a = @a ; @a ; } @a ; }
{ while ( @a ) { int @a ; @a ; } @a ; }
{ do { int @a ; @a ; } while ( @a ) ; }
{ switch ( @a ) { int @a ; case #1 : @a ; } @a ; }
{ if ( @a ) { int @a ; @a ; } else { @a ; int @a ; @a ; } @a ; }
{ typedef int @T ; @T @x ; @x ; }
{ typedef int @T ; { int @T ; @T ; } @T @y ; @y ; }
{ typedef char @T ; { typedef double @T ; @T @x ; @x ; } @T @y ; @y ; }
{ typedef char @T ; @T @x ; { typedef @T @U ; double @T ; @U @x ; @x ; @T ; } @x ; }
{ typedef int @T ; @T : @T @x ; @x ; goto @T ; }
{ struct @S { char @m [ #3 ] ; } @x ; { struct @S { char @m [ #4 ] ; } @y ; @y ; struct @S @z ; @z ; } struct @S @w ; @w ; @x ; }
{ struct @S { char @m [ #3 ] ; } ; { struct @S @z ; @z ; struct @S { char @m [ #4 ] ; } ; struct @S @w ; @w ; } }
{ { struct @S { char @m [ #3 ] ; } ; } struct @S @x ; @x ; }
{ struct @x { char @x [ #3 ] ; } @x ; @x ; { struct @x @y ; @y ; } }
{ enum { @A , @B } ; @A ; @B ; { int @A ; @A ; @B ; } @A ; }
{ int @A ; { enum { @A , @B } @x ; @A ; @x ; } @A ; }
{ enum { @A = #1 , @B , } ; @B ; }
{ int @a ; @a ; { extern int @a ; @a ; } @a ; }
{ int @a ; { extern int @a ; { int @a ; @a ; } @a ; } @a ; }
{ extern int @x ; }
{ extern int @a = #1 ; }
{ static int @x = #3 ; @x ; }
{ static int @a = #3 ; @a ; { int @a = @a ; @a ; } @a ; }
{ while ( @p ) { static int @x = #3 ; @x ; if ( @q ) break ; } }
{ @l : @p ; @l : @q ; }
{ goto @l ; }
{ goto @l ; { @l : @p ; } @q ; }
{ { goto @l ; } @l : @p ; if ( @a ) goto @l ; @q ; }
{ int @l ; @l : @l ; goto @l ; }
{ @l : @k : @p ; if ( @q ) goto @k ; goto @l ; }
{ @l : while ( @p ) { goto @l ; goto @k ; } @k : ; }
{ switch ( @p ) { case #1 : case #2 : @a ; default : case #3 : @b ; } }
{ switch ( @p ) { case #1 : case #1 : @a ; } }
{ switch ( @p ) { default : @a ; default : @b ; } }
{ switch ( @p ) { case #1 : switch ( @q ) { case #1 : @a ; break ; default : @b ; } @p ; break ; case #2 : @q ; default : @a ; } }
{ switch ( @p ) { default : switch ( @q ) { case #1 : @a ; } case #1 : @b ; } }
{ switch ( @p ) { case #1 : switch ( @q ) { default : @a ; } default : @b ; } }
{ switch ( @p ) { case #1 : switch ( @q ) { case #2 : @a ; } case #2 : @b ; } }
{ switch ( @p ) { case #1 : switch ( @q ) { case #2 : @a ; } case #1 : @b ; } }
{ switch ( @p ) { case #1 : { switch ( @q ) ; } } case #2 : @a ; }
{ switch ( @p ) { } case #1 : @a ; }
{ switch ( @p ) { } default : @a ; }
{ switch ( @p ) { @a ; case #1 : @b ; } }
{ switch ( @p ) { int @x = @a ; case #1 : @x ; } }
{ switch ( @p ) while ( @q ) { case #1 : @a ; if ( @b ) continue ; if ( @a ) break ; case #2 : @b ; } }
{ switch ( @p ) { case #1 : do { @a ; case #2 : @b ; case #3 : ; } while ( @q ) ; } @p ; }
{ while ( @p ) { switch ( @q ) { case #1 : continue ; case #2 : break ; default : @a ; } @b ; } @q ; }
{ while ( @p ) { switch ( @q ) { case #1 : while ( @a ) { break ; } break ; case #2 : for ( ; ; ) { continue ; } } @b ; } @q ; }
{ while ( @p ) { while ( @q ) { if ( @a ) break ; if ( @b ) continue ; } if ( @b ) break ; if ( @a ) continue ; @a ; } @q ; }
{ do { do { if ( @a ) continue ; @b ; } while ( @q ) ; if ( @b ) continue ; @a ; } while ( @p ) ; @q ; }
{ do continue ; while ( @p ) ; @q ; }
{ for ( @a ; @b ; @p ) { for ( ; ; @q ) { if ( @a ) break ; if ( @b ) continue ; @p ; } if ( @p ) continue ; break ; } @q ; }
{ for ( int @i = @p ; ; ) { if ( @i ) break ; } }
{ if ( @p ) if ( @q ) @a ; else @b ; }
{ if ( @p ) { if ( @q ) @a ; } else @b ; }
{ if ( @p ) while ( @q ) if ( @a ) @b ; else break ; else @a ; }
{ if ( @p ) ; else ; @q ; }
{ if ( #0 ) { @l : @a ; } goto @l ; }
{ if ( #1 ) @a ; else @b ; }
{ while ( #1 ) { if ( @p ) break ; } @q ; }
{ do { @a ; } while ( #0 ) ; @b ; }
{ else @a ; }
{ if ( @a ) ; ; else @b ; }
{ break ; }
{ continue ; }
{ case #1 : ; }
{ default : ; }
{ switch ( @a ) { continue ; } }
{ while ( @a ) ; break ; }
{ while ( @a ) { } continue ; }
{ for ( ; ; ) ; break ; }
{ do ; while ( @a ) ; break ; }
{ switch ( @a ) { } break ; }
{ while ( @p ) { switch ( @a ) { } break ; } @q ; }
{ if ( @p ) break ; }
{ if ( @p ) { while ( @q ) ; } continue ; }
{ do @a ; while ( @p ) }
{ switch ( %8 ) { } }
{ switch ( %0 ) { case #6 : @a ; case #5 : @b ; } }
{ switch ( %5 ) { case #5 : @a ; case #7 : @b ; } }
{ switch ( %4 ) { case #5 : @a ; case #7 : @b ; } }
{ switch ( %5 ) { case #5 : @a ; case #1 : @b ; } }
{ switch ( %6 ) { case #5 : @a ; case #7 : @b ; } }
{ switch ( %6 ) { case #4 : @a ; case #9 : @b ; } }
{ switch ( %7 ) { case #4 : @a ; case #9 : @b ; case #5 : @p ; } }
{ switch ( %4 ) { case #0 : @a ; case #8 : @b ; } }
{ switch ( @p , %7 ) { case #0 : @a ; case #8 : @b ; } }
{ switch ( @p ) { case #0 : switch ( %7 ) { case #8 : @a ; } case #4 : @b ; } }
{ switch ( %7 ) { case #8 : switch ( @q ) { case #4 : @a ; } case #0 : @b ; } }
{ _Static_assert ( #1 , "1:1 ) ; @a ; }
{ _Static_assert ( #0 , "1:1 ) ; @a ; }
{ return @p ; @q ; }
{ if ( @p ) return @a ; return @b ; }
""".strip().split("\n")
