"""Macro replacement gives the tokens C prescribes."""
import random
import sa
from preproc import *
LEVEL = "other"
def texts():
    for f in picked():
        if any(w in "".join(f) for w in ("#define",)): yield f
    deep = sa.TIER == "thorough"
    r = random.Random(20 if not deep else 2020 + sa.SEED)
    for i in range(1500 if not deep else 12000):
        t = macro_text(r)
        yield [spacing(t, r) if i % 3 == 0 else t]
def check(rep):
    check_texts(rep, texts(), 900)
    rep.explanation = "each translation unit is followed through tokenize_raw, file_tokenize_and_preprocess, handle_directive, expand_define and the rest of preprocess.c by abstract interpretation; the resulting token stream (kind, spelling, file, line) is compared with the one an independent reading of C11 6.10.3 gives"
    rep.assumptions = ["the units are drawn from a grammar of definitions and invocations; a violation that needs a form outside it is not seen"]
