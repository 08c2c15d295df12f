"""Names are found in import libraries exactly where the archive's index says."""
import sa, libsem
LEVEL = "other"
def check(rep):
    m = sa.build_module("lb.c"); cs = libsem.cases()
    for c, r in zip(cs, sa.run_jobs(m, [c.job() for c in cs])):
        r = r.get("result", r); rep.count("sets of libraries")
        try: libsem.check_case(c, r, rep)
        except libsem.Wrong as e: rep.violation("libraries '%s'" % c.name, "%s" % e)
    rep.need("names looked up", 150); rep.need("sets of libraries", 30)
    rep.explanation = "ar_parse_file and lookup_declaration_in_libraries are interpreted on archives with arbitrary ordinals, and on archives whose counts, indices, offsets and sizes are wrong; what each name resolves to is compared with the members the archive was made of"
    rep.assumptions = ["archives are those built in libsem.cases (up to 12 names); symbol names are sorted as the format demands", "members of name types NOPREFIX and UNDECORATE and the contents of objects are outside", "memory reservation, file access and messages are replaced"]
