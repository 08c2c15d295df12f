"""Executables are images in which every object is placed and every reference leads to what it names."""
import sa, imgsem
LEVEL = "other"
def check(rep):
    m = sa.build_module("lk.c"); ps = imgsem.universe()
    for p, r in zip(ps, sa.run_jobs(m, [p.job("h_exe") for p in ps])):
        r = r.get("result", r); rep.count("programs")
        try: imgsem.check_image(p, r, rep)
        except imgsem.Wrong as e: rep.violation("executable '%s'" % p.name, "%s" % e)
    rep.need("references resolved", 40); rep.need("objects placed", 40)
    rep.explanation = "print_coff is interpreted on programs given as tables of objects and references with symbolic offsets and contents; the image it writes is read by an independent PE loader, which finds every object, follows every reference as a linear form, and compares base relocations, imports, exports, TLS and unwind data with the program"
    rep.assumptions = ["sizes, alignments and numbers of the objects are those of the program shapes in imgsem.universe", "debug information is outside", "compiler-internal records of objects are built by harness/lk.c as the parser and the emitter leave them"]
