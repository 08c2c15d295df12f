"""Verdicts, evidence and known findings."""
import json, os, sys, time, traceback
import sa
class Report:
    def __init__(s, prop, level="other"):
        s.prop = prop; s.level = level; s.t0 = time.time(); s.violations = {}; s.known = {}; s.counts = {}; s.undecided = []; s.samples = []
        s.explanation = ""; s.assumptions = []; s.extra = {}
        p = os.path.join(sa.VERIF, "known_findings.json")
        s.listed = [f for f in json.load(open(p))["findings"] if f["property"] == prop and f["status"] == "known"] if os.path.exists(p) else []
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def need(s, k, n):
        if s.counts.get(k, 0) < n and not s.violations: raise sa.Broken("only %d %s were analysed (at least %d expected)" % (s.counts.get(k, 0), k, n))
    def violation(s, key, text):
        """key identifies the construct (operation, types, site); text says what is wrong"""
        for f in s.listed:
            if key == f["key"] or (f.get("prefix") and key.startswith(f["key"])):
                s.known.setdefault(f["key"], (f, [])) [1].append(text); return
        s.violations.setdefault(key, text)
    def undecide(s, what):
        s.undecided.append(what)
    def finish(s):
        ev = os.path.join(sa.VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
        cov = dict(s.counts); cov["undecided"] = len(s.undecided); cov["explanation"] = s.explanation; cov.update(s.extra)
        if s.undecided: cov["undecided_samples"] = s.undecided[:20]
        if s.known: cov["known_findings_seen"] = {k: len(v[1]) for k, v in s.known.items()}
        rep = dict(property=s.prop, tier=sa.TIER, seed=sa.SEED, level=s.level, coverage=cov, assumptions=s.assumptions, wall_s=round(time.time() - s.t0, 2), violations=len(s.violations))
        replay = ""
        if s.violations:
            replay = os.path.join(ev, s.prop + ".violations.txt")
            with open(replay, "w") as f:
                for k, v in s.violations.items(): f.write("%s\n    %s\n" % (k, v))
            cov["violating"] = [dict(construct=k, what=v) for k, v in list(s.violations.items())[:50]]
        json.dump(rep, open(os.path.join(ev, s.prop + ".json"), "w"), indent=1)
        for k, (f, t) in s.known.items(): print("KNOWN-FINDING: property=%s %s" % (s.prop, f["what"]))
        for k, v in list(s.violations.items())[:25]: print("  %s: %s" % (k, v))
        print("%s: %s (%s; undecided %d; %.1f s)" % (s.prop, "violated" if s.violations else "holds", ", ".join("%s %s" % (v, k) for k, v in s.counts.items()), len(s.undecided), time.time() - s.t0))
        if s.violations:
            print("VIOLATION property=%s replay=%s" % (s.prop, replay)); return 1
        return 0
