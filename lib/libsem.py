"""Archives of libraries, and what a name found in them means (the archive format of the PE specification)."""
import random, sx, sa
SKIP = ["report_warning", "print"]
STUB = {"load_file_into_arena": "__sa_stub__load", "report_error": "__sa_stub__error", "try_to_extract_simple_declaration_from_object_file": "__sa_stub__extract"}
class Wrong(Exception): pass
def le(n, v): return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
class Library:
    """members: ("import", dll, by ordinal, [name]) or ("object", [names], size)"""
    def __init__(s, members, long_names=b"", first=True, system_v=False, decorate=True):
        s.members = members; s.where = []; syms = []
        for k, m in enumerate(members):
            for n in m[-1]:
                syms.append((n, k + 1))
                if m[0] == "import" and decorate: syms.append((b"__imp_" + n, k + 1))
        syms.sort(); s.symbols = syms
        def header(name, size): return name.ljust(16) + b"1700000000".ljust(12) + b"      " + b"      " + b"0".ljust(8) + str(size).encode().ljust(10) + b"`\n"
        def chunk(name, data): return header(name, len(data)) + data + b"\n" * (len(data) & 1)
        datas = []; s.ordinals = []
        for k, m in enumerate(members):
            if m[0] == "import":
                d = m[3][0] + b"\0" + m[1] + b"\0"
                datas.append(le(2, 0) + le(2, 0xffff) + le(2, 0) + le(2, 0x8664) + le(4, 0x5f000000 + k) + le(4, len(d)) + le(2, 0x4000 + k) + le(2, (0 if m[2] else 1) << 2) + d)
            else: datas.append(le(2, 0x8664) + le(2, 1) + bytes((7 * j + k) & 255 for j in range(m[1] - 4)))
        names = b"".join(n + b"\0" for n, _ in syms)
        size2 = 4 + 4 * len(members) + 4 + 2 * len(syms) + len(names)
        size1 = 4 + 4 * len(syms) + len(names)
        at = 8 + 60 + size1 + (size1 & 1) + 60 + size2 + (size2 & 1) + (60 + len(long_names) + (len(long_names) & 1) if long_names else 0)
        offs = []
        for d in datas: offs.append(at); at += 60 + len(d) + (len(d) & 1)
        s.second = 8 + 60 + size1 + (size1 & 1) + 60
        b = b"!<arch>\n" + chunk(b"/", len(syms).to_bytes(4, "big") + b"".join(offs[k - 1].to_bytes(4, "big") for _, k in syms) + names)
        b += chunk(b"/", le(4, len(members)) + b"".join(le(4, o) for o in offs) + le(4, len(syms)) + b"".join(le(2, k) for _, k in syms) + names)
        if long_names: b += chunk(b"//", long_names)
        for k, d in enumerate(datas):
            if len(b) != offs[k]: raise sa.Broken("archive of the check is inconsistent")
            s.where.append((len(b) + 60, len(d))); b += chunk(b"member.dll/" if k & 1 else b"/%d" % k, d)
        s.b = bytearray(b)
    def find(s, name):
        for n, k in s.symbols:
            if n == name: return k - 1
class Case:
    def __init__(s, name, libraries, queries, alternates=(), wrong=()):
        s.name = name; s.l = libraries; s.q = [q if isinstance(q, tuple) else (q, 0) for q in queries]; s.alt = list(alternates); s.wrong = set(wrong)
    def job(s):
        text = bytearray(); files = []; sym = []; s.sym = {}
        for i, l in enumerate(s.l):
            files += [len(text), len(l.b)]; text += l.b
            for k, m in enumerate(l.members):
                if m[0] == "import" and len(sym) < 64 and l.where[k][0] + 18 <= len(l.b): s.sym[i, k] = "ord%d" % (len(sym) // 2); sym += [i, l.where[k][0] + 16]
        q = []
        for n, imp in s.q: q += [len(text), len(n), imp]; text += n + b"\0"
        a = []
        for x, y in s.alt: a += [len(text), len(x), len(text) + len(x), len(y)]; text += x + y
        if len(text) > 8192 or len(s.q) > 48: raise sa.Broken("the case %s is too large" % s.name)
        return dict(id=s.name, fn="h_library", args=[], skip=SKIP, stub=STUB, max_steps=4000000, init={"h_files": files, "h_queries": q, "h_alternates": a, "h_symbolic": sym, "h_text": list(text)})
    def expect(s, name, imp):
        """("import", library, member), ("object", library, member), None (an error)"""
        alt = dict(reversed(s.alt)); seen = set()
        while True:
            obj = None
            for i, l in enumerate(s.l):
                if i in s.wrong: continue
                k = l.find(name)
                if k is None or k in getattr(l, "lost", ()): continue
                if l.members[k][0] == "import": return ("import", i, k, name)
                if not imp: return ("object", i, k, name)
                obj = True
            if obj or name not in alt or name in seen: return None
            seen.add(name); name = alt[name]
def check_case(c, r, rep):
    q = {}; files = {}; dll = {}; names = {}; imports = {}; order = []; count = None
    for n in r["nodes"]:
        if n["k"] == "assert" and n.get("pc") is None and not n["a"]: raise Wrong("the assertion '%s' at %s fails" % (n["t"], n["l"]))
        if n["k"] != "obs": continue
        a = n["a"]; v = [sx.avint(x) for x in a]
        if n["t"] == "file": files[v[0]] = v[1] != 0
        elif n["t"] == "query": q[v[0]] = v[1:]
        elif n["t"] in ("dll", "name"):
            if v[2] is None: raise Wrong("a name cannot be read")
            (dll if n["t"] == "dll" else names).setdefault(v[0], bytearray()).append(v[2] & 255) if v[2] < 256 else (dll if n["t"] == "dll" else names).setdefault(v[0], bytearray())
        elif n["t"] == "import": imports.setdefault(v[1], []).append((v[0], v[2], sx.av(a[3])))
        elif n["t"] == "imports":
            if v[1] != v[2]: raise Wrong("dll %d has %s imports and counts %s" % tuple(v))
        elif n["t"] == "dlls": count = v
    if count is None or count[0] != count[1]: raise Wrong("the number of dlls is %s" % (count,))
    def want(x, m):
        rep.count("facts about lookups")
        if not x: raise Wrong(m)
    for i in range(len(c.l)): want(files.get(i) == (i in c.wrong), "library %d is %s" % (i, "accepted, its index is not one" if i in c.wrong else "not accepted"))
    want(len(set(map(bytes, dll.values()))) == len(dll), "a dll is listed twice")
    for i, (name, imp) in enumerate(c.q):
        e = c.expect(name, imp); w = name.decode("latin1"); g = q.get(i); rep.count("names looked up")
        want(g is not None and None not in g, "the lookup of %s has no single outcome" % w)
        errors, flag, lib, at, size, node = g; lib = -1 if lib == 0xffffffff else lib
        if e is None: want(errors and not node and lib == -1, "%s is found, no library offers it" % w); continue
        if c.l[e[1]].members[e[2]][0] == "object":
            want(not node and (lib, at, size) == ((e[1],) + c.l[e[1]].where[e[2]]), "%s leads to %s of library %s, its object is at %s of library %d" % (w, (at, size), lib, c.l[e[1]].where[e[2]], e[1])); continue
        m = c.l[e[1]].members[e[2]]
        want(not errors and node and lib == -1, "%s is not imported" % w); want(flag == 1, "%s is not marked as an import" % w)
        x = imports.get(i, []); want(len(x) == 1, "%s is imported %d times" % (w, len(x)))
        want(bytes(dll.get(x[0][0], b"")) == m[1], "%s is imported from %s instead of %s" % (w, bytes(dll.get(x[0][0], b"")).decode("latin1"), m[1].decode("latin1")))
        want(bool(x[0][1]) == bool(m[2]), "%s is imported by %s" % (w, "ordinal" if x[0][1] else "name")); want(bytes(names[i]) == e[3], "%s is imported as %s" % (w, bytes(names[i]).decode("latin1")))
        o = x[0][2]; s = c.sym.get((e[1], e[2]))
        if s: want(o[0] == "leaf" and o[2] == s or (o[0] in ("trunc", "zext") and o[2][0] == "leaf" and o[2][2] == s), "the ordinal of %s is %s" % (w, sx.show(o) if hasattr(sx, "show") else o))
    want(sum(len(x) for x in imports.values()) == sum(1 for n, i in c.q if (lambda e: e and c.l[e[1]].members[e[2]][0] == "import")(c.expect(n, i))), "there are imports nothing asked for")
def cases():
    C = []
    imp = lambda dll, *names, o=False: [("import", dll, o, [n]) for n in names]
    for n in range(1, 10):
        ns = [b"fn%c" % (98 + 2 * k) for k in range(n)]
        absent = [b"fn%c" % (97 + 2 * k) for k in range(n + 1)] + [b"fn", b"fnbb", b"A", b"zz", b"_", b"fnb\x01"]
        C.append(Case("%d names" % n, [Library(imp(b"a.dll", *ns), decorate=n & 2)], [x for p in zip(ns, absent) for x in p] + absent[n:]))
    R = random.Random(5)
    mixed = [b"CreateFileA", b"CreateFileW", b"CreateFile", b"a", b"ab", b"abc", b"B", b"_b", b"b\xc3\xa4", b"z9", b"Z", b"z"]
    R.shuffle(mixed)
    C.append(Case("many members", [Library(imp(b"KERNEL32.dll", *mixed[:7]) + imp(b"odd.DLL", *mixed[7:9], o=True) + imp(b"x", *mixed[9:]), long_names=b"some_long_member_name.dll\0")], [(x, k & 1) for k, x in enumerate(sorted(mixed, reverse=True))] + [b"CreateFil", b"CreateFileAW", (b"abcd", 1), b"b\xc3"]))
    obj = Library([("object", 31, [b"defined", b"also_defined"])] + imp(b"one.dll", b"shared", b"only") + [("object", 20, [b"minimal"])])
    two = Library(imp(b"two.dll", b"defined", b"shared", b"second", o=True) + imp(b"one.dll", b"third"))
    C.append(Case("objects and imports", [obj, two], [(b"defined", 1), (b"also_defined", 0), (b"shared", 1), (b"second", 0), (b"third", 1), (b"minimal", 0), (b"also_defined", 1), (b"only", 1), (b"minimal", 1), b"nothing"]))
    C.append(Case("libraries in the other order", [two, obj], [b"defined", b"also_defined", b"shared", b"second", b"third", b"minimal", b"nothing"]))
    C.append(Case("alternate names", [obj, two], [b"first_alias", (b"second_alias", 1), b"broken_alias", (b"chain", 1), b"only", b"object_alias"], [(b"first_alias", b"second"), (b"chain", b"second_alias"), (b"second_alias", b"third"), (b"object_alias", b"minimal")]))
    # archives that lie about themselves
    def bad(name, change, wrong=False, lost=(), queries=(b"fnb", b"fnd", b"fnf")):
        l = Library(imp(b"a.dll", b"fnb", b"fnd", b"fnf"), decorate=False); change(l); l.lost = set(lost); C.append(Case(name, [l, Library(imp(b"b.dll", b"fnd"))], queries, wrong=[0] if wrong else []))
    def put(at, v, n=4):
        def f(l): l.b[l.second + at:l.second + at + n] = le(n, v)
        return f
    bad("no signature", lambda l: l.b.__setitem__(0, 63), wrong=True)
    bad("more members than fit", put(0, 60), wrong=True)
    bad("very many members", put(0, 0x3fffffff), wrong=True)
    bad("more symbols than names", put(16, 4), wrong=True)
    bad("fewer symbols than names", put(16, 2), wrong=True)
    bad("very many symbols", put(16, 0x7fffffff), wrong=True)
    bad("member zero", put(22, 0, 2), lost=[1]); bad("member after the last", put(22, 4, 2), lost=[1]); bad("a high member", put(22, 0xffff, 2), lost=[1])
    bad("member outside of the file", put(8, 0x10000), lost=[1]); bad("a high offset", put(8, 0xffffffff), lost=[1])
    def no_size(l): l.b[l.where[1][0] - 12:l.where[1][0] - 2] = b"12x4      "
    bad("size that is no number", no_size, lost=[1])
    def colon(l): l.b[l.where[1][0] - 12:l.where[1][0] - 2] = b"2:        "
    bad("size with a colon", colon, lost=[1])
    def large(l): l.b[l.where[1][0] - 12:l.where[1][0] - 2] = b"9999999999"
    bad("member larger than the file", large, lost=[1])
    def small(l): l.b[l.where[1][0] - 12:l.where[1][0] - 2] = b"19        "
    bad("member smaller than its header", small, lost=[1])
    def nodll(l): l.b[l.where[1][0] - 12:l.where[1][0] - 2] = b"24        "
    bad("import without dll", nodll, lost=[1])
    def open_end(l): o, n = l.where[1]; l.b[o + n - 1] = 65
    bad("dll name without end", open_end, lost=[1])
    def cut(k):
        def f(l): del l.b[len(l.b) - k:]
        return f
    for k in (1, 30, 59): bad("member %d bytes before the end" % k, lambda l: put(8, len(l.b) - k)(l), lost=[1])
    for l in (Library([]), Library([]), Library(imp(b"a.dll", b"fnb"), decorate=False)):
        C.append(Case("nothing in a library %d" % len(C), [l, Library(imp(b"b.dll", b"fnd"))], [b"fnb", b"fnd", b"fnf"]))
    del C[-3].l[0].b[8:]
    size = 20 + 4 + 6
    for k in range(1, size + 60, 7): bad("the last %d bytes missing" % k, cut(k), lost=[2])
    l = Library(imp(b"a.dll", b"fnb", b"fnd", b"fnf"), decorate=False)
    for k in (l.second + 1, l.second + 20, l.second - 1, l.second - 60, 70, 40, 9): bad("cut at %d" % k, cut(len(l.b) - k), wrong=True)
    return C
