"""Directives: conditional groups, inclusion, definitions and #undef take effect exactly where C says."""
import random
import sa
from preproc import *
LEVEL = "other"
def texts():
    for f in picked():
        if len(f) > 1 or any(w in f[0] for w in ("#if", "#undef", "#error")) or "#define" not in f[0]: yield f
    deep = sa.TIER == "thorough"
    r = random.Random(21 if not deep else 2121 + sa.SEED)
    for i in range(1500 if not deep else 12000):
        if i % 3 == 2: yield include_text(r); continue
        t = cond_text(r)
        yield [spacing(t, r) if i % 3 == 1 else t]
def check(rep):
    check_texts(rep, texts(), 900)
    rep.explanation = "each translation unit is followed through tokenize_raw, file_tokenize_and_preprocess, handle_directive, expand_define and the rest of preprocess.c by abstract interpretation; the resulting token stream (kind, spelling, file, line) is compared with the one an independent reading of C11 6.10.1 and 6.10.2 gives"
    rep.assumptions = ["the units are drawn from a grammar of conditional groups, inclusions and definitions; a violation that needs a form outside it is not seen"]
