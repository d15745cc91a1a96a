"""Reference: Unicode 16.0 normalization data (frozen, see ref/ucd16.json) and the UAX #15 algorithms over it."""
import json, os
from terms import is_has, is_from, is_norm, is_sub, is_and, is_or, CHARS

HERE = os.path.dirname(os.path.abspath(__file__))
SB, LB, VB, TB, LC, VC, TC = 0xAC00, 0x1100, 0x1161, 0x11A7, 19, 21, 28
CGJ = 0x34F


class Ref:
    def __init__(self, path=os.path.join(HERE, "..", "ref", "ucd16.json")):
        d = json.load(open(path))
        self.cccs = {int(k): tuple(map(tuple, v)) for k, v in d["ccc"].items()}
        self._ccc = {}
        for k, v in self.cccs.items():
            for a, b in v:
                for c in range(a, b + 1):
                    self._ccc[c] = k
        self.mark = tuple(map(tuple, d["mark"]))
        self.assigned = tuple(map(tuple, d["assigned"]))
        self.canon = {int(k): tuple(v) for k, v in d["canon"].items()}
        self.compat = {int(k): tuple(v) for k, v in d["compat"].items()}
        self.cjk = {int(k): tuple(v) for k, v in d["cjk"].items()}
        self.comp = {(a, b): c for a, b, c in d["comp"]}
        self.version = tuple(d["version"])

    def ccc(self, c):
        return self._ccc.get(c, 0)

    def hangul(self, c):
        i = c - SB
        t = i % TC
        r = (LB + i // (VC * TC), VB + i % (VC * TC) // TC)
        return r + (TB + t,) if t else r

    def nfd1(self, c):
        if SB <= c < SB + LC * VC * TC:
            return self.hangul(c)
        return self.canon.get(c, (c,))

    def nfkd1(self, c):
        if SB <= c < SB + LC * VC * TC:
            return self.hangul(c)
        r = self.compat.get(c)
        return r if r is not None else self.canon.get(c, (c,))

    def cjk1(self, c):
        return self.cjk.get(c, (c,))

    def compose(self, a, b):
        if LB <= a < LB + LC and VB <= b < VB + VC:
            return SB + ((a - LB) * VC + b - VB) * TC
        if SB <= a < SB + LC * VC * TC and (a - SB) % TC == 0 and TB < b < TB + TC:
            return a + b - TB
        return self.comp.get((a, b))

    # ---- UAX #15 on sequences of code points
    def order(self, s):
        out, run = [], []
        for c in s:
            if self.ccc(c) == 0:
                run.sort(key=self.ccc)
                out += run
                run = []
                out.append(c)
            else:
                run.append(c)
        run.sort(key=self.ccc)
        return out + run

    def nfd(self, s):
        return self.order([d for c in s for d in self.nfd1(c)])

    def nfkd(self, s):
        return self.order([d for c in s for d in self.nfkd1(c)])

    def recompose(self, s):
        out = []
        starter = None
        last = 0
        for c in s:
            k = self.ccc(c)
            if starter is not None:
                # blocked iff something stands between with class 0 or >= k
                blocked = starter < len(out) - 1 and (last == 0 or last >= k)
                if not blocked:
                    r = self.compose(out[starter], c)
                    if r is not None:
                        out[starter] = r
                        continue
            out.append(c)
            if k == 0:
                starter = len(out) - 1
            last = k
        return out

    def nfc(self, s):
        return self.recompose(self.nfd(s))

    def nfkc(self, s):
        return self.recompose(self.nfkd(s))

    def stream_safe(self, s):
        out = []
        n = 0
        for c in s:
            lead, trail, ln = self.nonstarters(c)
            if n + lead > 30:
                out.append(CGJ)
                n = 0
            out.append(c)
            n = n + ln if lead == ln else trail
        return out

    def nonstarters(self, c):
        d = self.nfkd1(c)
        lead = trail = 0
        for x in d:
            if self.ccc(x) == 0:
                break
            lead += 1
        for x in reversed(d):
            if self.ccc(x) == 0:
                break
            trail += 1
        return lead, trail, len(d)

    def form(self, name, s):
        return {"nfd": self.nfd, "nfkd": self.nfkd, "nfc": self.nfc, "nfkc": self.nfkc}[name](s)

    # ---- quick-check properties
    def _qc(self):
        if hasattr(self, "_q"):
            return self._q
        nos_d = {c for c in self.canon} | set(range(SB, SB + LC * VC * TC))
        nos_kd = nos_d | set(self.compat)
        seconds = {b for (a, b) in self.comp} | set(range(VB, VB + VC)) | set(range(TB + 1, TB + TC))
        nos_c = {c for c in self.canon if self.nfc([c]) != [c]}
        nos_kc = {c for c in set(self.canon) | set(self.compat) if self.nfkc([c]) != [c]}
        self._q = {"nfd": (nos_d, set()), "nfkd": (nos_kd, set()), "nfc": (nos_c, seconds - nos_c),
                   "nfkc": (nos_kc, seconds - nos_kc)}
        return self._q

    def qc(self, form, c):
        n, m = self._qc()[form]
        return "N" if c in n else "M" if c in m else "Y"

    # ---- value sets
    def nonstarter_set(self):
        return is_norm([iv for v in self.cccs.values() for iv in v])

    def patterns(self, form):
        """value sets of characters by the (starter / rank) shape of their decomposition"""
        one = self.nfd1 if form == "nfd" else self.nfkd1
        src = set(self.canon) | (set(self.compat) if form == "nfkd" else set())
        g = {}
        for c in src:
            g.setdefault(tuple(self.ccc(x) for x in one(c)), []).append(c)
        for k, v in self.cccs.items():
            for a, b in v:
                for c in range(a, b + 1):
                    if c not in src:
                        g.setdefault((k,), []).append(c)
        lv = [c for c in range(SB, SB + LC * VC * TC) if (c - SB) % TC == 0]
        g.setdefault((0, 0), []).extend(lv)
        g.setdefault((0, 0, 0), []).extend(c for c in range(SB, SB + LC * VC * TC) if (c - SB) % TC)
        out = {k: is_from(v) for k, v in g.items()}
        rest = CHARS
        for k, v in out.items():
            rest = is_sub(rest, v)
        out[(0,)] = is_or(out.get((0,), ()), rest)
        return out


_ref = None


def get():
    global _ref
    if _ref is None:
        _ref = Ref()
    return _ref
