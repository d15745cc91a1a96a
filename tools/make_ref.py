"""One-off: freezes the Unicode 16.0 reference data in /verif/ref/ucd16.json.

The values are computed from the tables of the pinned commit and then validated against sources that do not come from
this repository by crosscheck_ref.py (ICU, CPython's unicodedata, Go's x/text, the NormalizationTest rows).  The file
is committed; checks only read it, so an edited table in /repo is compared with the frozen values."""
import json, sys
sys.path.insert(0, "/verif/engine")
import mir
from client import *


def main(dump, out):
    P = mir.Prog(dump)
    ref = {}

    def scalar(root):
        m, c = run_scalar(P, root, 1)
        assert not m.undecided and not m.outcomes
        g = {}
        for _, v, d in c.results:
            for x, dd in values(v, d).items():
                g.setdefault(x, []).extend(dd.d[0])
        return {k: is_norm(v) for k, v in g.items()}
    ref["ccc"] = {str(k): v for k, v in sorted(scalar("chars::root_ccc").items()) if k}
    ref["mark"] = scalar("chars::root_is_combining_mark")[1]
    ref["assigned"] = scalar("chars::root_is_public_assigned")[1]
    for name, root in (("canon", "decompose_canonical"), ("compat", "decompose_compatible"), ("cjk", "decompose_cjk")):
        m, c = run_scalar(P, "chars::root_" + root, 1, True)
        assert not m.undecided and not m.outcomes
        mp = {}
        for tr, v, d in c.results:
            if tr == (sym(0),):
                continue
            for p in is_points(d.d[0]):
                mp[p] = [ev(t, {0: p}) for t in tr]
        if name != "cjk":
            mp = {k: v for k, v in mp.items() if not 0xAC00 <= k <= 0xD7A3}
        if name == "compat":
            mp = {k: v for k, v in mp.items() if ref["canon"].get(str(k)) != v}
        ref[name] = {str(k): v for k, v in sorted(mp.items())}
    m, c = run_scalar(P, "chars::root_compose", 2)
    assert not m.undecided and not m.outcomes
    comp = []
    for _, v, d in c.results:
        if v.v == 1:
            if d.pts:
                ps = [dict(zip(d.pts[0], p)) for p in d.pts[1]]
            else:
                ps = [{0: a, 1: b} for a in is_points(d.d[0]) for b in is_points(d.d[1])]
            for p in ps:
                r = ev(v.f[0], p)
                if not 0xAC00 <= r <= 0xD7A3:
                    comp.append([p[0], p[1], r])
    ref["comp"] = sorted(comp)
    ref["version"] = [16, 0, 0]
    json.dump(ref, open(out, "w"), separators=(",", ":"))
    print({k: len(v) for k, v in ref.items()})


main(sys.argv[1], sys.argv[2])
