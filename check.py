#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current sources."""
import sys, os, importlib, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import sa, report
def main():
    prop = sys.argv[1]
    m = importlib.import_module("check_" + prop)
    r = report.Report(prop, getattr(m, "LEVEL", "other"))
    try:
        m.check(r)
        return r.finish()
    except sa.Broken as e:
        print("%s: the analysis cannot be carried out on this tree: %s" % (prop, e)); return 2
if __name__ == "__main__": sys.exit(main())
