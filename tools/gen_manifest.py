#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check in checks/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "checks")]
import registry

VS = "abstract interpretation of MIR over value sets"
FX = "abstract interpretation of MIR: fixpoint over iterator states against an oracle source"
BASE = ("Decided on the monomorphised MIR of the current tree; trusts rustc's MIR construction, the interpreter in engine/ "
        "and ref/ucd16.json (cross-checked against four independent sources). ")
T = {
    "C01": (VS, "proof", BASE + "Covers all 1,112,064 scalar values."),
    "C02": (VS, "proof", BASE + "Covers all 1,112,064 scalar values."),
    "C03": (VS, "proof", BASE + "Covers all ordered pairs of scalar values."),
    "C04": (VS, "proof", BASE + "Covers all 1,112,064 scalar values."),
    "C05": (VS, "proof", BASE + "Covers all 1,112,064 scalar values."),
    "C06": (VS, "proof", BASE + "Covers all 1,112,064 scalar values."),
    "C07": (FX, "proof", BASE + "All scalar values; all streams (the abstract state space is finite and closed)."),
    "C08": (FX, "other", BASE + "All streams whose runs of non-starters stay within the bound (any classes, any "
            "interleaving of polls, any number of runs), plus scripted runs of every length to 40 and selected ones to "
            "about 600; longer arbitrary runs are not covered. Standard-library sorting and tinyvec's heap side are models."),
    "C09": (FX, "other", BASE + "Composition stage: all canonically ordered streams with at most K uncomposed marks behind "
            "a starter; whole pipeline to a smaller bound; long texts by scripts. Standard-library containers are models."),
    "C10": (FX, "other", BASE + "All streams (finite abstract state space); an alarm needs a concrete text, confirmed "
            "against the UAX #15 reference, on which a definite answer is wrong."),
    "C11": (FX, "other", BASE + "All strings up to the C10 abstraction; the normalizers compared with are a premise, "
            "decided in the same run within the C08/C09 bounds."),
    "C12": (FX, "proof", BASE + "All streams: the counter is bounded, so the fixpoint closes."),
    "C13": (FX, "other", BASE + "As C10 and C11 with the non-starter count."),
    "C14": ("abstract interpretation of MIR: panic reachability", "other", BASE + "Every assertion, index, slice and panic "
            "call reached by the analyses of all public operations, within the stream bounds of C08/C09."),
    "C15": ("abstract interpretation of MIR: range checks at unsafe operations", "other", BASE + "Every unchecked "
            "conversion and raw access reached by the analyses, over all scalar values and pairs, plus a census of the "
            "unsafe operations in reachable code."),
    "C16": (FX, "other", BASE + "Within the stream bounds of C08/C09."),
    "C17": (FX, "other", BASE + "Every abstract state collected by the stream analyses; an alarm needs a concrete text."),
    "C18": ("structural comparison of constructed iterator values over MIR", "other", BASE + "All six transformations, all receivers."),
    "C19": (FX, "other", BASE + "Within the stream bounds of C08/C09."),
    "C20": (FX, "other", BASE + "Every abstract state collected by the stream analyses."),
    "C21": ("effect census over MIR and type-level witnesses", "other", BASE + "All functions of the crate reachable from "
            "the public API, all statics of the crate, auto-trait obligations checked by the compiler."),
    "C22": ("translation comparison of MIR across build configurations", "other", BASE + "The four combinations of std "
            "feature and debug assertions."),
    "C23": ("value-set extraction of the character data and closure checks over it", "other", BASE + "Data closure over all "
            "characters and pairs; stability of whole texts then follows from C08/C09 within their bounds."),
    "C27": ("type-level witnesses: generic obligations and named compile-time trait probes", "proof", "Decided by the compiler's "
            "trait solving for all source types; a FusedIterator claim for unfused sources is judged by abstract "
            "interpretation with a source that yields again."),
    "C28": (FX, "other", BASE + "Closed fixpoints bound the state for texts of every length with runs within the stream "
            "bounds; longer runs by following container lengths through long texts of bounded runs."),
}
NA = {
    "C24": "Cost of the whole computation is a runtime quantity: bounding it needs amortised arguments over buffer lengths and "
           "standard-library sorting that no sound static analysis in reach derives from this source.",
    "C25": "The generator is a Python script whose inputs (the UCD files) are not in the repository or the sandbox, and "
           "its output for them can only be known by running it; static analysis of /repo cannot decide it. The committed "
           "tables themselves are decided against Unicode 16.0 by C01-C07 and C12.",
    "C26": "Needs the Rust 1.36 front end (or its standard library metadata), which is not installed; a lint over "
           "stability attributes of today's toolchain does not decide what the old compiler accepts.",
}


def main():
    checks = []
    na = []
    for l in open(os.path.join(V, "properties.jsonl")):
        i = json.loads(l)["id"]
        if i in registry.MAP:
            t, lev, note = T[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                           "thorough_cmd": "python3 check.py %s thorough" % i, "technique": t, "level": lev,
                           "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 engine/build.py", "checks": checks, "not_applicable": na,
                   "notes": "Static analysis of the MIR of /repo's current tree; see DESIGN.md."}, f, indent=1)
        f.write("\n")


main()
