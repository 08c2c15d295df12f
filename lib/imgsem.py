"""What a loader makes of an executable image, and a linker of an object file, compared with the program they were written for."""
import os
os.environ["HLCSA_FOLD_FLOAT"] = "1"; os.environ["HLCSA_MAXIT"] = "70000"
import struct, sx, sa
PRUNE = ["report_error", "report_internal_compiler_error", "report_syntax_error"]
SKIP = ["report_warning", "print"]
STUB = {"push_format_string": "__sa_stub__format", "WriteFile": "__sa_stub__write", "get_unix_time": "__sa_stub__time", "strip_file_extension": "__sa_stub__root"}
FUNCTION, DATA, ZERO, TLS, STRING, FLOAT, DOUBLE, IMPORT, DLL, TLSZERO = range(1, 11)
EXPORTED, STUBBED, LOCAL, UNREACHABLE, STATIC, ENTRY, INDEX, DECLARED, SELECTANY, INSIDE, LITERAL = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024
ABSOLUTE, RELATIVE, SECTION = 1, 2, 3
EXE, DLLFILE, OBJ, EFI = 1, 2, 3, 4
class Program:
    """the tables the harness builds its program from"""
    def __init__(s, name, file=EXE, threads=1, base=True, fixed=False, subsystem=3):
        s.name = name; s.o = []; s.r = []; s.text = bytearray(); s.file = file; s.threads = threads; s.base = base; s.fixed = fixed; s.subsystem = subsystem
    def add(s, kind, size=0, align=1, flags=0, name=None, extra=0, seed=None, mask=0x20, stack=0x20, prolog=8, thread=0, data=None):
        t = data if data is not None else (name if name is not None else "n%d" % len(s.o)).encode()
        at = len(s.text); s.text += t + b"\0"
        s.o.append([kind, size, align, flags, at, len(t), extra, len(s.o) * 13 + 5 if seed is None else seed, mask, stack, prolog, thread]); return len(s.o) - 1
    def ref(s, kind, source, dest, at, lo=0, hi=None, behind=0, thread=0):
        s.r.append([kind, source, dest, at, lo, lo if hi is None else hi, behind, thread]); return len(s.r) - 1
    def name_of(s, i): return bytes(s.text[s.o[i][4]:s.o[i][4] + s.o[i][5]])
    def content(s, i):
        k, size = s.o[i][:2]
        if k == STRING: return s.name_of(i) + bytes(s.o[i][2])
        if k == FLOAT: return struct.pack("<f", s.o[i][7] + 0.5)
        if k == DOUBLE: return struct.pack("<d", s.o[i][7] + 0.25)
        if k in (FUNCTION, DATA, TLS): return bytes((s.o[i][7] + j * 7) & 255 for j in range(size))
        return bytes(size)
    def reachable(s, i): return not s.o[i][3] & UNREACHABLE
    def job(s, fn, skip=SKIP, stub=STUB):
        if len(s.o) > 63 or len(s.r) > 31 or len(s.text) > 4000: raise sa.Broken("the program %s is too large for the harness" % s.name)
        return dict(id=s.name, fn=fn, args=[], prune=PRUNE, skip=skip, stub=stub, max_steps=6000000,
                    init={"h_objects": sum(s.o, []), "h_references": sum(s.r, []), "h_setup": [int(s.base), int(s.fixed), s.file, s.threads, s.subsystem], "h_text": list(s.text)})
class Wrong(Exception): pass
def linear(e, w=None):
    """{leaf: coefficient, None: constant} modulo 2^width, or None"""
    w = w or e[1]; m = sx.mask(w)
    if e[0] == "const": return {None: e[2] & m}
    if e[0] == "leaf": return {e[2]: 1} if e[1] >= w else None
    if e[0] == "trunc": return linear(e[2], w)
    if e[0] in ("add", "sub") and e[1] >= w:
        a, b = linear(e[2], w), linear(e[3], w)
        if a is None or b is None: return None
        k = 1 if e[0] == "add" else -1
        r = dict(a)
        for n, c in b.items(): r[n] = (r.get(n, 0) + k * c) & m
        return {n: c for n, c in r.items() if c or n is None}
    if e[0] == "mul" and e[1] >= w:
        a, b = linear(e[2], w), linear(e[3], w)
        if a is None or b is None: return None
        if set(a) != {None}: a, b = b, a
        return {n: c * a[None] & m for n, c in b.items()} if set(a) == {None} else None
    if e[0] == "select" and e[2][0] in ("icmp.ne", "icmp.eq"):
        # x != c ? x : c
        x, c = e[2][2:4]; a, b = (e[3], e[4]) if e[2][0] == "icmp.ne" else (e[4], e[3])
        if x[0] == "const": x, c = c, x
        l = [linear(y, w) if y[1] >= w else None for y in (x, a, c, b)]
        if None not in l and l[0] == l[1] and l[2] == l[3]: return l[0]
    return None
class Image:
    """the file that is written: words, and the cells the references are in"""
    def __init__(s, prog, r):
        s.p = prog; s.words = {}; s.bytes = {}; s.cells = {}; s.objects = {}; s.size = None; s.unknown = set()
        for n in r["nodes"]:
            if n["k"] == "assert" and n.get("pc") is None and not n["a"]: raise Wrong("the assertion '%s' at %s fails" % (n["t"], n["l"]))
            if n["k"] != "obs": continue
            a = n["a"]
            if n["t"] == "object": s.objects[sx.avint(a[0])] = (sx.avint(a[1]), sx.avint(a[2]))
            elif n["t"] == "cell": s.cells[sx.avint(a[0])] = (sx.avint(a[1]), sx.av(a[2]))
            elif n["t"] == "size": s.size = sx.avint(a[0])
            elif n["t"] == "symbol": s.objects[sx.avint(a[0])] = tuple(sx.avint(x) for x in a[1:])
            elif n["t"] == "w":
                e = sx.av(a[1]); b = [sx.avint(x) for x in a[2:6]]; at = sx.avint(a[0]); s.words[at] = sx.const(32, int.from_bytes(bytes(b), "little")) if None not in b else e
                for j, x in enumerate(b): s.bytes[at + j] = x
        if s.size is None: raise Wrong("no file is written")
        b = bytearray(s.size + 8); s.known = bytearray(s.size + 8)
        for at, x in s.bytes.items():
            if x is not None: b[at] = x; s.known[at] = 1
        for k, (at, e) in s.cells.items():
            n = 8 if prog.r[k][0] == ABSOLUTE else 4
            if at is None or at < 0 or at + n > s.size: raise Wrong("a reference lies outside of the file")
            for j in range(at, at + n): s.known[j] = 0
        s.b = bytes(b)
    def need(s, at, n, what):
        if at is None or at < 0 or at + n > s.size: raise Wrong("%s lies outside of the file" % what)
        for j in range(at, at + n):
            if not s.known[j]: raise sa.Broken("%s: the byte at 0x%x of the file is not known" % (what, j))
        return s.b[at:at + n]
    def u(s, at, n, what): return int.from_bytes(s.need(at, n, what), "little")
    def cstring(s, at, what):
        e = at
        while s.u(e, 1, what): e += 1
        return s.b[at:e]
def up(x, a): return (x + a - 1) // a * a
def program_objects(p): return [i for i, o in enumerate(p.o) if o[0] != DLL and p.reachable(i)]
def check_image(p, r, rep):
    """the image as the loader of Windows sees it"""
    im = Image(p, r)
    def want(c, what):
        rep.count("facts about images")
        if not c: raise Wrong(what)
    u = lambda at, n, what: im.u(at, n, what)
    want(im.need(0, 2, "DOS header") == b"MZ", "the file does not start with MZ")
    pe = u(0x3c, 4, "e_lfanew"); want(im.need(pe, 4, "PE signature") == b"PE\0\0", "no PE signature where the DOS header says")
    c = pe + 4; o = c + 20
    want(u(c, 2, "machine") == 0x8664, "the machine is not x64")
    n = u(c + 2, 2, "number of sections"); osize = u(c + 16, 2, "size of the optional header"); ch = u(c + 18, 2, "characteristics")
    want(u(o, 2, "magic") == 0x20b, "not a 64 bit image"); want(osize == 112 + 8 * u(o + 108, 4, "number of directories"), "wrong size of the optional header")
    want(ch & 2, "not marked as executable"); want(bool(ch & 0x2000) == (p.file == DLLFILE), "the mark for libraries"); want(bool(ch & 1) == bool(p.fixed), "the mark for removed relocations")
    want(bool(u(o + 70, 2, "dll characteristics") & 0x40) == (not p.fixed), "the mark for images that can be moved")
    want(u(o + 68, 2, "subsystem") == p.subsystem, "the subsystem")
    lo, hi = im.words.get(o + 24), im.words.get(o + 28)
    if p.base:
        for e, sh in ((lo, 0), (hi, 32)):
            if e is None: raise sa.Broken("the image base is not known")
            want(all(sx.evaluate(e, {"base": v}) == (v >> sh & 0xffffffff) for v in (0x10000, 0x123456780000, 0x7fff00000000, 0x140000000)), "the image base is not the one that was asked for")
        base = {"base": 1}
    else:
        b = u(o + 24, 8, "image base"); base = {None: b}; want(b & 0xffff == 0 and b, "the image base is not a multiple of 64K")
    sal, fal = u(o + 32, 4, "section alignment"), u(o + 36, 4, "file alignment")
    want(fal and sal >= fal and fal % 512 == 0 and sal % 4096 == 0, "alignments of sections")
    hsize = u(o + 60, 4, "size of headers"); want(hsize % fal == 0 and hsize >= o + osize + 40 * n, "size of headers")
    S = []
    for k in range(n):
        h = o + osize + 40 * k
        S.append(dict(name=im.need(h, 8, "section name").rstrip(b"\0").decode("latin1"), vs=u(h + 8, 4, "virtual size"), va=u(h + 12, 4, "section address"), rs=u(h + 16, 4, "raw size"), rp=u(h + 20, 4, "raw pointer"), ch=u(h + 36, 4, "section rights")))
    at = up(hsize, sal); raw = hsize
    for s in S:
        want(s["va"] == at, "section %s does not follow the one before it" % s["name"]); want(s["vs"], "section %s is empty" % s["name"])
        at = up(at + s["vs"], sal)
        if s["rp"]:
            want(s["rp"] % fal == 0 and s["rs"] % fal == 0 and s["rp"] >= raw and s["rp"] + s["rs"] <= up(im.size, fal), "the place of section %s in the file" % s["name"]); raw = s["rp"] + s["rs"]
            want(s["rs"] >= min(s["vs"], s["rs"]) and (s["rs"] >= s["vs"] or s["ch"] & 0x80), "section %s is longer than its data" % s["name"])
        else: want(s["ch"] & 0x80, "section %s has no data" % s["name"])
    want(u(o + 56, 4, "size of image") == at, "the size of the image")
    def sec(rva, size, what):
        for s in S:
            if s["va"] <= rva and rva + size <= s["va"] + s["vs"]: return s
        raise Wrong("%s lies outside of the sections" % what)
    def off(rva, size, what):
        s = sec(rva, size, what)
        if not s["rp"]: raise Wrong("%s has no data in the file" % what)
        return s["rp"] + rva - s["va"]
    def directory(k): return u(o + 112 + 8 * k, 4, "directory"), u(o + 116 + 8 * k, 4, "directory")
    def data(rva, size, what): return im.need(off(rva, size, what), size, what)
    def ru(rva, n, what): return im.u(off(rva, n, what), n, what)
    def text(rva, what): return im.cstring(off(rva, 1, what), what)
    # ---- every object is where its address says
    taken = []; cellbytes = set()
    for k, ref in enumerate(p.r):
        if k in im.cells:
            for j in range(8 if ref[0] == ABSOLUTE else 4): cellbytes.add((ref[2], ref[3] + j))
    rights = {FUNCTION: 0x60000000, DATA: 0xc0000000, ZERO: 0xc0000000, STRING: 0x40000000, FLOAT: 0x40000000, DOUBLE: 0x40000000, TLS: 0x40000000, TLSZERO: 0x40000000}
    what = lambda i: {1: "function", 2: "data", 3: "zero data", 4: "thread local", 5: "string", 6: "float", 7: "double", 8: "import", 10: "thread local"}[p.o[i][0]] + " %d of %s" % (i, p.name)
    for i in program_objects(p):
        ob = p.o[i]; rva = im.objects[i][0]; k = ob[0]
        if rva is None: raise sa.Broken("the address of %s is not known" % what(i))
        if ob[3] & INDEX and not any(p.o[j][0] in (TLS, TLSZERO) for j in program_objects(p)): continue
        if k == IMPORT: continue
        rep.count("objects placed"); body = p.content(i); size = max(len(body), 1 if k in (DATA, ZERO, TLS, TLSZERO) else 0)
        s = sec(rva, size, what(i)); want(s["ch"] & 0xe0000000 == rights[k], "%s lies in %s, which has other rights" % (what(i), s["name"]))
        al = {FUNCTION: 16, STRING: 1 if any(p.o[j][0] == STRING and p.o[j][2] < ob[2] and im.objects[j][0] == rva for j in program_objects(p)) else ob[2], FLOAT: 4, DOUBLE: 8}.get(k, ob[2])
        want(rva % al == 0, "%s is not aligned" % what(i))
        if k == ZERO: want(not s["rp"] or rva - s["va"] >= s["rs"] or not any(data(rva, size, what(i))), "%s is not zero" % what(i))
        else:
            f = off(rva, size, what(i))
            for j, x in enumerate(body):
                if (i, j) in cellbytes: continue
                if im.need(f + j, 1, what(i))[0] != x: raise Wrong("byte %d of %s is not in the image" % (j, what(i)))
        if k != STRING: taken.append((rva, size, i))
    taken.sort()
    for a, b in zip(taken, taken[1:]): want(a[0] + a[1] <= b[0], "%s and %s overlap" % (what(a[2]), what(b[2])))
    # ---- imports
    if any(ob[0] == DLL for ob in p.o):
        rva, size = directory(1); got = {}; order = []
        for k in range(64):
            d = rva + 20 * k
            if not any(data(d, 20, "import directory")): break
            lib = text(ru(d + 12, 4, "dll name"), "dll name"); ilt, iat = ru(d, 4, "import lookup table"), ru(d + 16, 4, "import address table")
            want(iat % 8 == 0, "an import address table is not aligned")
            j = 0
            while ru(ilt + 8 * j, 8, "import"):
                e = ru(ilt + 8 * j, 8, "import"); want(ru(iat + 8 * j, 8, "import") == e, "the import tables differ")
                got[(lib, (e & 0xffff) if e >> 63 else text(e + 2, "import name"))] = iat + 8 * j; j += 1
            want(ru(iat + 8 * j, 8, "import") == 0, "an import address table does not end")
        want(size >= 20 * (k + 1), "size of the import directory")
        libs = {ob[7]: p.name_of(i) for i, ob in enumerate(p.o) if ob[0] == DLL}; mine = {}
        for i, ob in enumerate(p.o):
            if ob[0] == IMPORT: mine[(libs[ob[7]], ob[6] - 1 if ob[6] else p.name_of(i))] = i
        want(set(got) == set(mine), "the imports are %s instead of %s" % (sorted(map(str, got)), sorted(map(str, mine))))
        for n2, i in mine.items():
            if not p.reachable(i): continue
            rep.count("imports resolved"); want(im.objects[i][0] == got[n2], "the address of import %s is not its slot" % (n2,))
            if p.o[i][3] & STUBBED:
                stub = im.objects[i][1]; want(sec(stub, 6, "stub")["ch"] & 0x20000000, "a stub cannot be executed")
                want(data(stub, 2, "stub") == b"\xff\x25" and (stub + 6 + ru(stub + 2, 4, "stub")) & 0xffffffff == got[n2], "the stub of %s does not jump to it" % (n2,))
                want(all(not (a < stub + 6 and stub < a + l) for a, l, _ in taken), "a stub overlaps")
    else: want(directory(1) == (0, 0) or not any(data(*directory(1), "imports")), "imports out of nowhere")
    # ---- references
    absolute = {}
    def target(k, ref):
        i = ref[1]
        if ref[0] == ABSOLUTE and p.o[i][0] == IMPORT: return im.objects[i][1]
        return im.objects[i][0]
    tls = None
    if any(p.o[i][0] in (TLS, TLSZERO) for i in program_objects(p)):
        d, size = directory(9); want(size == 40, "size of the thread local directory")
        f = off(d, 40, "thread local directory")
        vals = []
        for j in range(4):
            a, b = im.words.get(f + 8 * j), im.words.get(f + 8 * j + 4); 
            if a is None: raise sa.Broken("the thread local directory is not known")
            l = linear(a)
            if l is None: raise sa.Broken("the thread local directory is not linear in the image base")
            want({x: y for x, y in l.items() if x is not None} == {x: y for x, y in base.items() if x is not None}, "the thread local directory holds no address")
            vals.append((l.get(None, 0) - base.get(None, 0)) & 0xffffffff); absolute[d + 8 * j] = "thread local directory"
        tls = vals[0]; members = [i for i in program_objects(p) if p.o[i][0] in (TLS, TLSZERO)]
        for i in members: want(tls <= im.objects[i][0] and im.objects[i][0] + max(p.o[i][1], 1) <= vals[1] , "%s is not in the thread local template" % what(i))
        al = max(p.o[i][2] for i in members); want((u(f + 36, 4, "characteristics") >> 20 & 15) and 1 << (u(f + 36, 4, "") >> 20 & 15) - 1 >= al and tls % max(p.o[members[0]][2], 1) == 0, "alignment of the thread local template")
        for i in members: want((im.objects[i][0] - tls) % p.o[i][2] == 0, "%s is not aligned for the threads" % what(i))
        idx = [i for i, ob in enumerate(p.o) if ob[3] & INDEX]; want(vals[2] == im.objects[idx[0]][0], "the thread local index is somewhere else")
        want(ru(vals[3], 8, "callbacks") == 0, "there are thread local callbacks")
    for k, ref in enumerate(p.r):
        at, e = im.cells[k]; kind, src, dst, doff, olo, ohi, behind, _ = ref
        rep.count("references resolved"); place = im.objects[dst][0] + doff
        want(at == off(place, 4, "reference"), "reference %d of %s is not written where the image has %s" % (k, p.name, what(dst)))
        if e is None: raise sa.Broken("reference %d of %s is not known" % (k, p.name))
        got = linear(e); t = target(k, ref); o2 = {"o%d" % k: 1} if olo != ohi else {None: olo}
        w = {}
        def plus(d, s2=1):
            for x, y in d.items(): w[x] = w.get(x, 0) + s2 * y
        plus({None: t}); plus(o2)
        if kind == ABSOLUTE: plus(base); absolute[place] = "reference %d" % k
        elif kind == RELATIVE: plus({None: place + 4 + behind}, -1)
        else: plus({None: tls}, -1)
        m = sx.mask(64 if kind == ABSOLUTE else 32); w = {x: y & m for x, y in w.items() if y & m or x is None}
        if got is None: rep.undecide("reference %d of %s" % (k, p.name)); continue
        if got != {None: 0, **w}: raise Wrong("%s reference from %s to %s resolves to %s instead of %s" % ({1: "the absolute", 2: "the relative", 3: "the thread local"}[kind], what(dst), what(src), show(got, m), show(w, m)))
    # ---- base relocations: exactly the absolute addresses
    rva, size = directory(5); have = []
    if size:
        q = rva; pages = set()
        while q < rva + size:
            page, bs = ru(q, 4, "relocation block"), ru(q + 4, 4, "relocation block"); want(bs >= 8 and bs % 4 == 0 and page % 4096 == 0 and q + bs <= rva + size, "a block of base relocations is malformed")
            for j in range(8, bs, 2):
                e = ru(q + j, 2, "relocation")
                if e >> 12 == 0: continue
                want(e >> 12 == 10, "a base relocation is not one of 64 bits"); have.append(page + (e & 0xfff))
            q += bs
    rep.count("base relocations", len(have))
    want(sorted(have) == sorted(absolute) or p.fixed and set(have) <= set(absolute) and len(have) == len(set(have)), "the base relocations are not exactly the addresses in the image (missing %s, too many %s)" % ([absolute[x] for x in absolute if x not in have], [hex(x) for x in have if x not in absolute or have.count(x) > 1]))
    # ---- exports
    ex = [i for i, ob in enumerate(p.o) if ob[0] == FUNCTION and ob[3] & EXPORTED and p.reachable(i)]
    if ex:
        d, size = directory(0); want(size >= 40, "size of the export directory")
        nf, nn = ru(d + 20, 4, "exports"), ru(d + 24, 4, "exports"); eat, names, ords = ru(d + 28, 4, "exports"), ru(d + 32, 4, "exports"), ru(d + 36, 4, "exports")
        text(ru(d + 12, 4, "name"), "name of the library"); listed = [text(ru(names + 4 * j, 4, "export"), "export") for j in range(nn)]
        want(listed == sorted(p.name_of(i) for i in ex), "the exported names are not the sorted names of the functions: %s" % listed)
        for i in ex:
            x = ru(ords + 2 * listed.index(p.name_of(i)), 2, "ordinal"); want(x < nf and ru(eat + 4 * x, 4, "export") == im.objects[i][0], "the export %s is another function" % p.name_of(i).decode()); rep.count("exports resolved")
    ent = [i for i, ob in enumerate(p.o) if ob[3] & ENTRY and ob[0] == FUNCTION]
    want(u(o + 16, 4, "entry point") == (im.objects[ent[0]][0] if ent else 0), "the entry point")
    # ---- unwinding
    fs = sorted((im.objects[i][0], i) for i in program_objects(p) if p.o[i][0] == FUNCTION)
    rva, size = directory(3); want(size == 12 * len(fs), "size of the exception directory")
    for j, (a, i) in enumerate(fs):
        e = rva + 12 * j; want((ru(e, 4, "function"), ru(e + 4, 4, "function")) == (a, a + p.o[i][1]), "the exception directory does not list the functions in order of their addresses")
        ui = ru(e + 8, 4, "unwind information"); want(ui % 4 == 0, "unwind information is not aligned"); unwind(p, i, data(ui, 4, "unwind information") , lambda k2, n2: ru(ui + 4 + 2 * k2, n2, "unwind code"), want, what(i)); rep.count("functions unwound")
def unwind(p, i, head, code, want, what):
    o = p.o[i]; want(head[0] == 1, "%s: version or flags of the unwind information" % what); want(head[1] == o[10] and head[3] == 5, "%s: size of the prolog or frame register" % what)
    n = head[2]; k = 0; ops = []; last = 256
    while k < n:
        off, op = code(k, 1), code(k, 2) >> 8; info = op >> 4; op &= 15; want(off <= last, "%s: the unwind codes are not in order" % what); last = off
        if op == 0: ops.append(("push", info, off)); k += 1
        elif op == 1: ops.append(("alloc", code(k + 1, 2) * 8 if info == 0 else code(k + 1, 4), off)); k += 2 + info
        elif op == 2: ops.append(("alloc", info * 8 + 8, off)); k += 1
        elif op == 3: ops.append(("frame", 0, off)); k += 1
        else: want(False, "%s: an unknown unwind code" % what)
    want(k == n, "%s: number of unwind codes" % what)
    regs = [r for r in range(16) if o[8] >> r & 1]; total = sum(2 if r >= 8 else 1 for r in regs); exp = [("alloc", o[9], o[10]), ("frame", 0, total + 3)]; at = total
    for r in regs: exp.append(("push", r, at)); at -= 2 if r >= 8 else 1
    want(ops == exp, "%s: unwinding does %s instead of %s" % (what, ops, exp))
def show(l, m):
    return " + ".join("0x%x" % y if x is None else x for x, y in l.items() if y or x is None) or "0"
def universe():
    P = []
    p = Program("plain"); P.append(p)
    p.add(DLL, name="KERNEL32.dll", seed=0); f = p.add(FUNCTION, 37, flags=ENTRY); d = p.add(DATA, 24, 8); z = p.add(ZERO, 12, 4); s = p.add(STRING, align=1, data=b"hello"); fl = p.add(DOUBLE, align=8); fs = p.add(FLOAT, align=4); e = p.add(IMPORT, name="ExitProcess", seed=0); g = p.add(FUNCTION, 60)
    p.ref(RELATIVE, d, f, 3, -4096, 4096); p.ref(RELATIVE, e, f, 9, behind=1); p.ref(ABSOLUTE, s, d, 8, 0, 5); p.ref(RELATIVE, fl, f, 14); p.ref(RELATIVE, s, g, 5, 0, 3); p.ref(RELATIVE, z, g, 11, -64, 64, behind=4); p.ref(RELATIVE, fs, g, 20); p.ref(RELATIVE, g, f, 30); p.ref(ABSOLUTE, g, d, 16, 0, 0); p.ref(ABSOLUTE, z, d, 0, -99, 99); p.ref(RELATIVE, f, f, 22, behind=2)
    p = Program("strings", threads=3); P.append(p)
    f = p.add(FUNCTION, 190, flags=ENTRY); k = 0
    for t, al, b in ((0, 1, b"ab"), (1, 2, b"a\0b\0"), (1, 1, b"ab"), (2, 1, b"abc"), (0, 4, b"a\0\0\0"), (2, 1, b""), (0, 2, b""), (1, 1, b"ab\0"), (2, 1, b"ab\0cd"), (0, 1, b"a\0b"), (2, 2, b"a\0"), (1, 1, b"abd"), (1, 1, b"a"), (0, 1, b"b"), (0, 2, b"x\0"), (0, 1, b"ef"), (0, 2, b"y\0z\0"), (0, 4, b"w\0\0\0"), (1, 2, b"u\0"), (1, 1, b"gh"), (1, 2, b"v\0")):
        s = p.add(STRING, align=al, data=b, thread=t); p.ref(RELATIVE, s, f, 4 + 8 * k, 0, len(b), thread=t); k += 1
    p = Program("pages", threads=2); P.append(p)
    f = p.add(FUNCTION, 0x1203, flags=ENTRY, mask=0xf0e8, stack=0x1230, prolog=21); g = p.add(FUNCTION, 15, mask=0x30e8, stack=128, prolog=17); h = p.add(FUNCTION, 16, mask=0xe8, stack=136, prolog=14); d = p.add(DATA, 0x1100, 64); e = p.add(DATA, 0xe00, 16); z = p.add(ZERO, 0x2345, 32); l = p.add(ZERO, 3, 1, LOCAL); y = p.add(DATA, 9, 1); w = p.add(DATA, 0, 1); x = p.add(ZERO, 0, 4); v = p.add(ZERO, 8, 8)
    i = p.add(FUNCTION, 3, mask=0x8020, stack=0x90000, prolog=15); j = p.add(DATA, 16, 8, LOCAL)
    for n in (0, 8, 0xff8, 0x1000, 0x10f8, 0xff0): p.ref(ABSOLUTE, z, d, n, 0, 0x3000)
    for n in (0, 0xa00, 0x900): p.ref(ABSOLUTE, f, e, n)
    p.ref(ABSOLUTE, d, y, 1, -8, 8, thread=1); p.ref(RELATIVE, v, f, 0x11f0, thread=1); p.ref(RELATIVE, j, i - 0 if False else f, 0x20, thread=1); p.ref(RELATIVE, l, g, 4); p.ref(RELATIVE, i, h, 7); p.ref(RELATIVE, y, h, 1); p.ref(ABSOLUTE, j, j, 0); p.ref(RELATIVE, w, f, 0x40); p.ref(RELATIVE, x, f, 0x48)
    p = Program("libraries"); P.append(p)
    p.add(DLL, name="KERNEL32.dll", seed=0); p.add(DLL, name="a.dll", seed=1); p.add(DLL, name="unused.dll", seed=2); f = p.add(FUNCTION, 77, flags=ENTRY); d = p.add(DATA, 40, 8)
    im = [p.add(IMPORT, name="ExitProcess", seed=0, flags=STUBBED), p.add(IMPORT, name="GetLastError", seed=0), p.add(IMPORT, name="f", seed=1, flags=STUBBED), p.add(IMPORT, name="ordinal", seed=1, extra=301), p.add(IMPORT, name="fg", seed=1), p.add(IMPORT, name="first", seed=1, extra=1, flags=STUBBED), p.add(IMPORT, name="unused", seed=2), p.add(IMPORT, name="inner", seed=1, flags=INSIDE)]
    for n, x in enumerate(im): p.ref(RELATIVE, x, f, 5 + 8 * n)
    for n, x in enumerate((im[0], im[2], im[5])): p.ref(ABSOLUTE, x, d, 8 * n + 8, 0, 9 * (n & 1))
    p = Program("exports", DLLFILE, base=False); P.append(p)
    fs = [p.add(FUNCTION, 5 + n, flags=EXPORTED | (ENTRY if n == 2 else 0), name=x) for n, x in enumerate(("zeta", "f", "fg", "F", "f1", "a_", "aB"))]; p.add(FUNCTION, 20, name="hidden"); p.add(FUNCTION, 21, flags=EXPORTED | UNREACHABLE, name="gone"); p.add(DATA, 8, 8, UNREACHABLE)
    d = p.add(DATA, 8, 8); p.ref(ABSOLUTE, fs[3], d, 0)
    for name, zero in (("threads", 0), ("threads with zeros first", 1)):
        p = Program(name, threads=2); P.append(p)
        f = p.add(FUNCTION, 90, flags=ENTRY); d = p.add(DATA, 5, 1); s = p.add(STRING, align=1, data=b"odd")
        if zero: t0 = p.add(TLSZERO, 24, 16)
        t1 = p.add(TLS, 24, 8); t2 = p.add(TLS, 3, 1); t3 = p.add(TLS, 64, 16); t4 = p.add(TLSZERO, 0, 1); t5 = p.add(TLS, 1, 1); p.ref(SECTION, t5, f, 38); ix = p.add(ZERO, 4, 4, INDEX); t6 = p.add(TLS, 24, 8, LOCAL); p.ref(SECTION, t6, f, 70); p.ref(ABSOLUTE, d, t6, 8); t7 = p.add(TLSZERO, 8, 8, LOCAL); p.ref(SECTION, t7, f, 78)
        for n, x in enumerate((t1, t2, t3, t4)): p.ref(SECTION, x, f, 6 + 8 * n)
        p.ref(RELATIVE, ix, f, 50); p.ref(ABSOLUTE, d, t1, 8, 0, 4); p.ref(ABSOLUTE, s, t1, 16, 0, 2, thread=1); p.ref(ABSOLUTE, f, t3, 0); p.ref(SECTION, t3, f, 60, thread=1)
    p = Program("compound literals", threads=2); P.append(p)
    f = p.add(FUNCTION, 20, flags=ENTRY); d = p.add(DATA, 8, 8); l1 = p.add(DATA, 16, 8, LITERAL); l2 = p.add(DATA, 24, 8, LITERAL, thread=1); l3 = p.add(DATA, 5, 1, LITERAL); e = p.add(DATA, 8, 8); s = p.add(STRING, align=1, data=b"in a literal"); l4 = p.add(DATA, 64, 32, LITERAL)
    p.ref(ABSOLUTE, l1, d, 0, 0, 8); p.ref(ABSOLUTE, l2, e, 0, thread=1); p.ref(ABSOLUTE, l3, l2, 8, 0, 4, thread=1); p.ref(ABSOLUTE, s, l1, 8, 1); p.ref(ABSOLUTE, l4, l1, 0, 4); p.ref(ABSOLUTE, d, l4, 40)
    p = Program("fixed", fixed=True, base=False, subsystem=2); P.append(p)
    f = p.add(FUNCTION, 64, flags=ENTRY | EXPORTED, name="main"); d = p.add(DATA, 32, 8); p.ref(ABSOLUTE, d, d, 8, 0, 24); p.ref(RELATIVE, d, f, 1); p.ref(ABSOLUTE, f, d, 24)
    p = Program("efi", EFI, subsystem=10); P.append(p)
    f = p.add(FUNCTION, 64, flags=ENTRY); z = p.add(ZERO, 4096, 8); p.ref(RELATIVE, z, f, 1, 0, 4095)
    return P

# ---- object files
OBJ_SKIP = SKIP + ["register_type", "codeview_emit_debug_info_for_function", "codeview_push_debug_s_file_checksums", "codeview_push_debug_s_lines"]
OBJ_STUB = {"push_format_string": "__sa_stub__name", "os_write_file": "__sa_stub__write_file", "create_memory_arena": "__sa_stub__arena", "get_unix_time": "__sa_stub__time", "strip_file_extension": "__sa_stub__root"}
def check_object(p, r, rep):
    """the object file as a linker sees it"""
    im = Image(p, r)
    def want(c, what):
        rep.count("facts about objects")
        if not c: raise Wrong(what)
    u = lambda at, n, what: im.u(at, n, what)
    want(u(0, 2, "machine") == 0x8664, "the machine is not x64"); want(u(16, 2, "optional header") == 0, "an optional header")
    n, st, ns = u(2, 2, "number of sections"), u(8, 4, "symbol table"), u(12, 4, "number of symbols")
    strings = st + 18 * ns; total = u(strings, 4, "string table"); want(total >= 4 and strings + total <= im.size, "the string table lies behind the file")
    used = [(0, 20 + 40 * n, "headers"), (st, strings + total, "symbols")]
    def cut(at, k, what): return im.need(at, k, what).rstrip(b"\0") if 0 in im.need(at, k, what) else im.need(at, k, what)
    S = []
    for k in range(n):
        h = 20 + 40 * k; raw = im.need(h, 8, "section name"); name = raw.split(b"\0")[0]
        s = dict(name=name.decode("latin1"), rs=u(h + 16, 4, "size"), rp=u(h + 20, 4, "data"), rel=u(h + 24, 4, "relocations"), nr=u(h + 32, 2, "number of relocations"), ch=u(h + 36, 4, "characteristics"))
        want(u(h + 12, 4, "address") == 0, "section %s has an address" % s["name"]); S.append(s)
        s["al"] = 1 << max((s["ch"] >> 20 & 15) - 1, 0)
        if s["rp"]: used.append((s["rp"], s["rp"] + s["rs"], s["name"]))
        if s["ch"] & 0x01000000: want(s["nr"] == 0xffff, "marked for more relocations"); s["nr"] = u(s["rel"], 4, "number of relocations")
        if s["nr"]: used.append((s["rel"], s["rel"] + 10 * s["nr"], "relocations of " + s["name"]))
    used.sort()
    for (a, b, x), (c, d, y) in zip(used, used[1:]): want(b <= c or a == b or c == d, "%s and %s overlap in the file" % (x, y))
    want(used[-1][1] <= im.size, "something lies behind the file")
    Y = {}; names = {}; k = 0
    while k < ns:
        at = st + 18 * k
        if im.need(at, 4, "symbol name") == bytes(4):
            q = u(at + 4, 4, "symbol name"); want(4 <= q < total, "symbol %d has no name" % k); name = im.cstring(strings + q, "symbol name")
        else: name = im.need(at, 8, "symbol name").split(b"\0")[0]
        y = dict(name=name, value=u(at + 8, 4, "symbol value"), sec=u(at + 12, 2, "symbol section"), type=u(at + 14, 2, "symbol type"), cls=u(at + 16, 1, "symbol class"), aux=u(at + 17, 1, "symbol extras"), k=k)
        want(y["sec"] <= n, "symbol %s is in section %d of %d" % (name, y["sec"], n)); want(y["cls"] in (2, 3), "class of symbol %s" % name); Y[k] = y
        if y["sec"]: want(y["value"] <= S[y["sec"] - 1]["rs"], "symbol %s lies behind its section" % name)
        if y["cls"] == 2: want(name not in names or names[name]["cls"] != 2, "two symbols are named %s" % name)
        names.setdefault(name, y)
        if y["aux"] and y["cls"] == 3 and not y["value"]:
            a = at + 18; s = S[y["sec"] - 1]; want(u(a, 4, "section size") == s["rs"], "the section symbol of %s has another size" % s["name"])
        k += 1 + y["aux"]
    want(k == ns, "the last symbol is cut")
    R = {}
    for s in S:
        s["r"] = []
        for j in range(1 if s["ch"] & 0x01000000 else 0, s["nr"]):
            a = s["rel"] + 10 * j; va, sy, ty = u(a, 4, "relocation"), u(a + 4, 4, "relocation"), u(a + 8, 2, "relocation")
            want(sy in Y, "a relocation of %s names symbol %d, which is none" % (s["name"], sy)); size = {1: 8, 10: 2}.get(ty, 4); want(va + size <= s["rs"], "a relocation lies behind %s" % s["name"])
            s["r"].append((va, Y[sy], ty)); rep.count("relocations read")
    what = lambda i: "%s %s of %s" % ({1: "function", 2: "data", 3: "zero data", 4: "thread local", 5: "string", 6: "float", 7: "double", 8: "import", 10: "thread local"}[p.o[i][0]], p.name_of(i).decode("latin1") if p.o[i][0] not in (STRING, FLOAT, DOUBLE) else i, p.name)
    cellbytes = {at + j for k2, (at, e) in im.cells.items() for j in range(8 if p.r[k2][0] == ABSOLUTE else 4)}
    def holds(s, v, body, w):
        want(not s["ch"] & 0x80 and v + len(body) <= s["rs"], "%s lies behind its section" % w)
        for j, x in enumerate(body):
            if s["rp"] + v + j in cellbytes: continue
            want(u(s["rp"] + v + j, 1, w) == x, "%s: byte %d is written as another" % (w, j))
    tls = any(p.o[i][0] in (TLS, TLSZERO) and not p.o[i][3] & DECLARED for i in program_objects(p)); sym = {}; spans = []
    drect = b"".join(im.need(s["rp"], s["rs"], "directives") for s in S if s["name"] == ".drectve")
    for s in S:
        if s["name"] == ".drectve": want(s["ch"] & 0xa00 == 0xa00, "directives are linked")
    # compound literals have no name of their own: they are where the first reference to them leads
    lits = {}
    for kind, src, dst, doff, *_ in p.r:
        if p.o[src][3] & LITERAL and src not in lits and kind == ABSOLUTE:
            y = lits.get(dst) if p.o[dst][3] & LITERAL else names.get(p.name_of(dst)); want(y and y["sec"], "%s is not defined" % what(dst))
            l = [x for x in S[y["sec"] - 1]["r"] if x[0] == y["value"] + doff]; want(l, "the reference to %s is not relocated" % what(src)); lits[src] = l[0][1]
    for i in program_objects(p):
        o = p.o[i]; k, size, al, fl = o[:4]; name = p.name_of(i); w = what(i)
        if k in (STRING, FLOAT, DOUBLE): continue
        if fl & INDEX and not tls: continue
        y = sym[i] = lits.get(i) if fl & LITERAL else names.get(b"__imp_" + name if k == IMPORT else name); want(y, "%s has no symbol" % w); rep.count("objects placed")
        if k == IMPORT or fl & (DECLARED | INDEX):
            want((y["sec"], y["value"], y["cls"]) == (0, 0, 2), "%s is not an undefined symbol" % w)
            if fl & STUBBED: y = names.get(name); want(y and (y["sec"], y["value"], y["cls"]) == (0, 0, 2), "%s: the function itself is no undefined symbol" % w)
            continue
        local = fl & (STATIC | LOCAL | LITERAL); want(y["cls"] == (3 if local else 2), "%s is %s" % (w, "visible to other objects" if local else "not visible to other objects"))
        if fl & EXPORTED: want((b"/EXPORT:" + name + (b" " if k == FUNCTION else b",DATA ")) in drect, "%s is not exported" % w)
        if k == ZERO and not y["sec"]: want(not local and y["value"] == size, "%s: size of the common symbol" % w); continue
        want(y["sec"], "%s is not defined" % w); s = S[y["sec"] - 1]; v = y["value"]
        al = 16 if k == FUNCTION else al; want(v % al == 0 and s["al"] % al == 0, "%s is not aligned (%d in a section aligned to %d)" % (w, v, s["al"]))
        want(s["ch"] & 0xe0000000 == (0x60000000 if k == FUNCTION else 0xc0000000), "%s lies in %s, which has other rights" % (w, s["name"]))
        want((s["name"].startswith(".tls$")) == (k in (TLS, TLSZERO)), "%s lies in %s" % (w, s["name"])); want(y["type"] == (0x20 if k == FUNCTION else 0), "%s: type of the symbol" % w)
        if fl & SELECTANY: want(s["r"] is not None and not any(a[0] == y["sec"] for a in spans), "%s shares its section" % w)
        if not (k == ZERO and s["ch"] & 0x80): holds(s, v, p.content(i), w)
        else: want(v + size <= s["rs"], "%s lies behind its section" % w)
        spans.append((y["sec"], v, v + size, w))
    spans.sort()
    for a, b in zip(spans, spans[1:]): want(a[0] != b[0] or a[2] <= b[1] or a[1] == a[2], "%s and %s overlap" % (a[3], b[3]))
    expected = {}
    for k, (kind, src, dst, doff, olo, ohi, behind, _) in enumerate(p.r):
        y = sym[dst]; s = S[y["sec"] - 1]; va = y["value"] + doff; w = "reference %d of %s" % (k, p.name); rep.count("references resolved")
        at, e = im.cells[k]; want(at == s["rp"] + va, "%s is not written where the object has %s" % (w, what(dst)))
        l = [x for x in s["r"] if x[0] == va]; want(len(l) == 1, "%s has %d relocations in %s" % (w, len(l), s["name"])); expected.setdefault(y["sec"], set()).add(va)
        t, ty = l[0][1], l[0][2]; want(ty == {ABSOLUTE: 1, SECTION: 11}.get(kind, ty) and (kind != RELATIVE or 4 <= ty <= 9), "%s has a relocation of type %d" % (w, ty))
        if e is None: raise sa.Broken("%s is not known" % w)
        add = linear(e)
        if add is None: raise sa.Broken("%s is not linear: %s" % (w, str(e)[:200]))
        add = dict(add)
        width = 64 if kind == ABSOLUTE else 32; exp = {"o%d" % k: 1} if olo != ohi else {None: olo}
        exp[None] = (exp.get(None, 0) - (behind - (ty - 4) if kind == RELATIVE else 0)) & sx.mask(width)
        if p.o[src][0] in (STRING, FLOAT, DOUBLE):
            want(t["sec"], "%s: the literal is not defined" % w); s2 = S[t["sec"] - 1]; want(s2["ch"] & 0xe0000000 == 0x40000000, "%s: the literal lies in %s" % (w, s2["name"]))
            a2 = {STRING: p.o[src][2], FLOAT: 4, DOUBLE: 8}[p.o[src][0]]; want(t["value"] % a2 == 0 and s2["al"] % a2 == 0, "%s: the literal is not aligned" % w)
            holds(s2, t["value"], p.content(src), what(src))
        else:
            name = p.name_of(src); name = b"__imp_" + name if p.o[src][0] == IMPORT and kind != ABSOLUTE else name
            if p.o[src][3] & LITERAL: want((t["sec"], t["value"]) == (sym[src]["sec"], sym[src]["value"]), "%s leads to %s" % (w, t["name"].decode("latin1")))
            else: want(t["name"] == name and (t["sec"], t["value"]) == (names[name]["sec"], names[name]["value"]), "%s leads to %s instead of %s" % (w, t["name"].decode("latin1"), name.decode("latin1")))
        want({x: c for x, c in add.items() if c} == {x: c for x, c in exp.items() if c}, "%s adds %s instead of %s" % (w, show(add, 0), show(exp, 0)))
    fs = {p.name_of(i): i for i in program_objects(p) if p.o[i][0] == FUNCTION}; left = dict(fs)
    for k, s in enumerate(S):
        if s["name"] == ".pdata":
            want(s["rs"] % 12 == 0 and s["al"] >= 4, "size or alignment of .pdata")
            for e in range(0, s["rs"], 12):
                l = [[x for x in s["r"] if x[0] == e + 4 * j] for j in range(3)]; want(all(len(x) == 1 and x[0][2] == 3 for x in l), "the entry %d of .pdata is not relocated" % (e // 12))
                a = [(x[0][1], u(s["rp"] + e + 4 * j, 4, ".pdata")) for j, x in enumerate(l)]; i = left.pop(a[0][0]["name"], None); want(i is not None and a[0][0]["sec"] == sym[i]["sec"], "an entry of .pdata is for %s" % a[0][0]["name"].decode("latin1"))
                want(a[0][0]["value"] + a[0][1] == sym[i]["value"] and a[1][0]["sec"] == sym[i]["sec"] and a[1][0]["value"] + a[1][1] == sym[i]["value"] + p.o[i][1], "%s: the range in .pdata" % what(i))
                y, d = a[2]; want(y["sec"], "%s has no unwind information" % what(i)); s2 = S[y["sec"] - 1]; v = y["value"] + d; want(v % 4 == 0 and s2["al"] >= 4 and v + 4 <= s2["rs"], "%s: unwind information is not aligned" % what(i))
                def code(k2, n2):
                    want(v + 4 + 2 * k2 + n2 <= s2["rs"], "unwind codes end behind their section"); return u(s2["rp"] + v + 4 + 2 * k2, n2, "unwind code")
                unwind(p, i, im.need(s2["rp"] + v, 4, "unwind information"), code, want, what(i)); rep.count("functions unwound")
            want(len(s["r"]) == s["rs"] // 4, "relocations of .pdata")
        elif s["name"] == ".debug$S": want(all(x[2] in (10, 11) for x in s["r"]), "relocations of debug information")
        else: want({x[0] for x in s["r"]} == expected.get(k + 1, set()) and len(s["r"]) == len(expected.get(k + 1, set())), "section %s has relocations at %s, references are at %s" % (s["name"], sorted(x[0] for x in s["r"]), sorted(expected.get(k + 1, set()))))
    want(not left, "functions without unwind information: %s" % list(left))
def objects():
    P = []
    p = Program("small", OBJ); P.append(p)
    f = p.add(FUNCTION, 37, name="main"); d = p.add(DATA, 24, 8, name="data"); z = p.add(ZERO, 12, 4, name="common"); s = p.add(STRING, align=1, data=b"hello"); fl = p.add(DOUBLE, align=8); fs = p.add(FLOAT, align=4); i = p.add(IMPORT, seed=0, name="imported"); x = p.add(ZERO, 4, 4, DECLARED, name="external_variable"); g = p.add(FUNCTION, 30, flags=EXPORTED, name="exactly8")
    p.ref(RELATIVE, d, f, 3, -4096, 4096); p.ref(RELATIVE, i, f, 9, behind=1); p.ref(ABSOLUTE, s, d, 8, 0, 5); p.ref(RELATIVE, fl, f, 14); p.ref(RELATIVE, s, g, 5, 0, 3); p.ref(RELATIVE, z, g, 11, -64, 64, behind=4); p.ref(RELATIVE, fs, g, 20); p.ref(RELATIVE, x, f, 20, 0, 8, behind=8); p.ref(ABSOLUTE, z, d, 16, 4); p.ref(RELATIVE, g, f, 28); p.ref(ABSOLUTE, f, d, 0)
    p = Program("literals", OBJ, threads=3); P.append(p)
    f = p.add(FUNCTION, 150, name="f"); k = 0
    for t, al, b in ((0, 1, b"ab"), (1, 2, b"a\0b\0"), (1, 1, b"ab"), (2, 1, b"abc"), (0, 4, b"a\0\0\0"), (2, 1, b""), (0, 2, b""), (1, 1, b"ab\0"), (2, 1, b"ab\0cd"), (0, 1, b"a\0b"), (2, 2, b"a\0"), (0, 4, b"b\0\0\0"), (2, 4, b"a\0\0\0")):
        s = p.add(STRING, align=al, data=b, thread=t); p.ref(RELATIVE, s, f, 4 + 7 * k, 0, len(b), thread=t); k += 1
    for t, kind, seed in ((0, FLOAT, 3), (1, DOUBLE, 3), (2, FLOAT, 3), (1, FLOAT, 9), (2, DOUBLE, 12), (0, DOUBLE, 3), (1, DOUBLE, 200)):
        s = p.add(kind, align=4, seed=seed, thread=t); p.ref(RELATIVE, s, f, 4 + 7 * k, thread=t); k += 1
    p = Program("sections", OBJ, threads=2); P.append(p)
    f = p.add(FUNCTION, 0x203, mask=0xf0e8, stack=0x1230, prolog=21, name="function_with_a_long_name"); g = p.add(FUNCTION, 15, mask=0x30e8, stack=128, prolog=17, flags=STATIC, name="local"); h = p.add(FUNCTION, 16, mask=0xe8, stack=136, prolog=14, name="another_function"); m = p.add(FUNCTION, 9, mask=0x8020, stack=0x90000, prolog=15, name="m"); q = p.add(DATA, 16, 8, LOCAL, name="persistent")
    d = p.add(DATA, 5, 1, name="odd"); e = p.add(DATA, 64, 16, STATIC, name="static_data_of_file"); b1 = p.add(ZERO, 3, 1, STATIC, name="bss1"); b2 = p.add(ZERO, 64, 8, STATIC, name="zero_static"); b3 = p.add(ZERO, 32, 16, STATIC, name="bss3"); c = p.add(ZERO, 40, 8, EXPORTED, name="exported_zero"); dx = p.add(DATA, 8, 8, EXPORTED, name="exported"); gone = p.add(DATA, 8, 8, UNREACHABLE, name="gone"); p.add(FUNCTION, 4, flags=UNREACHABLE, name="gone2")
    im = [p.add(IMPORT, seed=0, name="f1", flags=STUBBED), p.add(IMPORT, seed=0, name="imported_function"), p.add(IMPORT, seed=0, name="stubbed_function", flags=STUBBED), p.add(IMPORT, seed=0, name="inner_function", flags=INSIDE)]
    for n, (x, o) in enumerate(((b1, 0), (b2, 8), (b3, 0), (c, 0), (q, 0), (g, 0), (h, 0))): p.ref(RELATIVE, x, f, 7 + 8 * n, o, o + 4, behind=n % 5 if n % 5 != 3 else 0)
    for n, x in enumerate((im[0], im[2], g, e, b2, f)): p.ref(ABSOLUTE, x, e, 8 * n)
    for n, x in enumerate(im): p.ref(RELATIVE, x, f, 0x100 + 8 * n, thread=1)
    p.ref(RELATIVE, f, g, 3); p.ref(RELATIVE, m, h, 5); p.ref(ABSOLUTE, q, q, 8, 0, 8); p.ref(ABSOLUTE, c, dx, 0, -8, 100)
    p = Program("threads", OBJ); P.append(p)
    f = p.add(FUNCTION, 60, name="main"); t1 = p.add(TLS, 24, 8, name="thread_local_one"); t2 = p.add(TLS, 3, 1, STATIC, name="tls2"); t3 = p.add(TLS, 64, 16, name="t3"); t4 = p.add(TLSZERO, 24, 8, name="thread_zero"); t5 = p.add(TLSZERO, 4, 4, DECLARED, name="thread_elsewhere"); ix = p.add(ZERO, 4, 4, INDEX | DECLARED, name="_tls_index"); s = p.add(STRING, align=1, data=b"x")
    for n, x in enumerate((t1, t2, t3, t4, t5)): p.ref(SECTION, x, f, 6 + 8 * n)
    p.ref(RELATIVE, ix, f, 50); p.ref(ABSOLUTE, s, t1, 8, 0, 1); p.ref(ABSOLUTE, f, t3, 0); p.ref(ABSOLUTE, ix, t1, 16); t6 = p.add(TLS, 24, 8, LOCAL, name="persistent"); im = p.add(IMPORT, seed=0, name="imported_function", flags=STUBBED); p.ref(ABSOLUTE, im, t6, 8); p.ref(SECTION, t6, f, 42); q = p.add(ZERO, 24, 8, LOCAL, name="zero_persistent"); p.ref(ABSOLUTE, q, t6, 16, 0, 16); p.ref(RELATIVE, im, f, 54)
    p = Program("aligned", OBJ); P.append(p)
    f = p.add(FUNCTION, 20, name="main"); a = p.add(DATA, 4, 4, name="a"); b = p.add(DATA, 64, 64, name="b"); c = p.add(DATA, 1, 1, STATIC, name="c"); d = p.add(DATA, 8, 256, STATIC, name="d"); z = p.add(ZERO, 8, 128, STATIC, name="z"); z2 = p.add(ZERO, 8, 32, STATIC, name="z2"); t = p.add(TLS, 8, 32, name="t"); t2 = p.add(TLS, 8, 128, name="t2"); ix = p.add(ZERO, 4, 4, INDEX | DECLARED, name="_tls_index")
    p.ref(RELATIVE, d, f, 3); p.ref(ABSOLUTE, c, b, 8)
    p = Program("select any", OBJ); P.append(p)
    f = p.add(FUNCTION, 20, name="main"); a = p.add(DATA, 24, 8, SELECTANY, name="any"); b = p.add(DATA, 16, 8, name="b"); c = p.add(DATA, 5, 1, SELECTANY, name="c_any"); d = p.add(DATA, 16, 32, SELECTANY, name="d_any")
    p.ref(RELATIVE, a, f, 3); p.ref(ABSOLUTE, b, b, 8); p.ref(ABSOLUTE, b, a, 16, 0, 8); p.ref(ABSOLUTE, c, d, 0); im = p.add(IMPORT, seed=0, name="imported_function", flags=STUBBED); s = p.add(STRING, align=1, data=b"any"); p.ref(ABSOLUTE, im, d, 8); p.ref(ABSOLUTE, s, a, 8, 0, 3); p.ref(ABSOLUTE, f, a, 0)
    p = Program("compound literals", OBJ, threads=2); P.append(p)
    d = p.add(DATA, 8, 8, name="pointer"); l1 = p.add(DATA, 16, 8, LITERAL); l2 = p.add(DATA, 24, 8, LITERAL, thread=1); l3 = p.add(DATA, 5, 1, LITERAL); e = p.add(DATA, 8, 8, STATIC, name="pointer2"); s = p.add(STRING, align=1, data=b"in a literal"); l4 = p.add(DATA, 64, 32, LITERAL)
    p.ref(ABSOLUTE, l1, d, 0, 0, 8); p.ref(ABSOLUTE, l2, e, 0, thread=1); p.ref(ABSOLUTE, l3, l2, 8, 0, 4, thread=1); p.ref(ABSOLUTE, s, l1, 8, 1); p.ref(ABSOLUTE, l4, l1, 0, 4); p.ref(ABSOLUTE, d, l4, 40)
    p = Program("data only", OBJ); P.append(p)
    a = p.add(DATA, 16, 8, name="only_data_here"); p.ref(ABSOLUTE, a, a, 0, 0, 8); p.add(ZERO, 100, 1, name="common_array")
    return P
