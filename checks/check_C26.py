"""Object files define every symbol where its bytes are and relocate every reference to what it names."""
import sa, imgsem
LEVEL = "other"
def check(rep):
    m = sa.build_module("lk.c"); ps = imgsem.objects()
    for p, r in zip(ps, sa.run_jobs(m, [p.job("h_obj", imgsem.OBJ_SKIP, imgsem.OBJ_STUB) for p in ps])):
        r = r.get("result", r); rep.count("programs")
        try: imgsem.check_object(p, r, rep)
        except imgsem.Wrong as e: rep.violation("object file '%s'" % p.name, "%s" % e)
    rep.need("references resolved", 40); rep.need("objects placed", 30)
    rep.explanation = "print_obj is interpreted on programs given as tables of objects and references with symbolic offsets and contents; the object file it writes is read by an independent linker's reader, which finds the symbol of every object, compares section contents, rights and alignment, follows every relocation to its symbol with its addend as a linear form, and reads exception entries and unwind data"
    rep.assumptions = ["sizes, alignments and numbers of the objects are those of the program shapes in imgsem.objects", "the contents of debug information and the merging of common symbols are outside", "records of objects are built by harness/lk.c as the parser and the emitter leave them"]
