"""The character data the code implements, extracted statically (value-set analysis of the single-character functions)
and represented as the reference plus its differences; texts on which the differences show."""
import refdata
from scalar import scalar_diffs, compose_diffs
from terms import *


class CodeData(refdata.Ref):
    """reference algorithms over the code's own data"""

    def __init__(self):
        super().__init__()
        self.o_nfd, self.o_nfkd, self.o_cjk, self.o_ccc, self.o_comp = {}, {}, {}, {}, {}

    def nfd1(self, c):
        r = self.o_nfd.get(c)
        return r if r is not None else super().nfd1(c)

    def nfkd1(self, c):
        r = self.o_nfkd.get(c)
        return r if r is not None else super().nfkd1(c)

    def cjk1(self, c):
        r = self.o_cjk.get(c)
        return r if r is not None else super().cjk1(c)

    def ccc(self, c):
        r = self.o_ccc.get(c)
        return r if r is not None else super().ccc(c)

    def compose(self, a, b):
        if (a, b) in self.o_comp:
            return self.o_comp[(a, b)]
        return super().compose(a, b)

    @property
    def same(self):
        return not (self.o_nfd or self.o_nfkd or self.o_cjk or self.o_ccc or self.o_comp)


def extract(ctx, P, names):
    """names: subset of nfd nfkd cjk ccc compose"""
    D = CodeData()
    R = refdata.get()
    han = ((0xAC00, 0xD7A3),)
    for n in names:
        if n == "nfd":
            D.o_nfd = scalar_diffs(ctx, P, "chars::root_decompose_canonical", True, R.nfd1,
                                   is_or(is_from(R.canon), han), "self")
        elif n == "nfkd":
            D.o_nfkd = scalar_diffs(ctx, P, "chars::root_decompose_compatible", True, R.nfkd1,
                                    is_or(is_from(set(R.canon) | set(R.compat)), han), "self")
        elif n == "cjk":
            D.o_cjk = scalar_diffs(ctx, P, "chars::root_decompose_cjk", True, R.cjk1, is_from(R.cjk), "self")
        elif n == "ccc":
            D.o_ccc = {c: v[0] for c, v in scalar_diffs(ctx, P, "chars::root_ccc", False, lambda c: (R.ccc(c),),
                                                        R.nonstarter_set(), 0).items()}
        elif n == "compose":
            D.o_comp = compose_diffs(ctx, P, R)
    return D


def texts(D, limit=400):
    """short texts around every character whose data differs from the reference"""
    R = refdata.get()
    bases = [0x61, 0x4E00]
    marks = [0x301, 0x316, 0x334, 0x345, 0x3099, 0x5B0, 0x94D]
    cs = []
    for o in (D.o_nfd, D.o_nfkd, D.o_ccc):
        cs += list(o)[:limit]
    for c in cs:
        yield [c]
        yield [0x61, c]
        yield [c, 0x62]
        for m in marks:
            yield [c, m]
            yield [0x61, m, c]
            yield [0x61, c, m]
            yield [0x61, c, m, 0x62]
            yield [0x61, 0x301, 0x316, c, m]
        for w in (R.nfd1(c), R.nfkd1(c), D.nfd1(c), D.nfkd1(c)):
            yield list(w)
            yield [0x61] + list(w) + [0x316]
    for (a, b) in list(D.o_comp)[:limit]:
        yield [a, b]
        yield [0x78, a, b, 0x78]
        yield [a, b, b]
        yield list(R.nfd1(a)) + list(R.nfd1(b))
        r = R.compose(a, b)
        if r is not None:
            yield [r]
            yield [r, 0x301]
        r = D.o_comp[(a, b)]
        if r is not None:
            yield [r]
    # characters whose decomposition contains an affected character
    if D.o_ccc or D.o_comp:
        hot = set(list(D.o_ccc)[:limit]) | {x for p in list(D.o_comp)[:limit] for x in p}
        for c in set(R.canon) | set(R.compat):
            if hot & set(R.nfkd1(c)):
                yield [c]
                for m in marks:
                    yield [c, m]


def form_difference(D, forms):
    """first text on which a form computed from the code's data differs: (form, text, code, reference)"""
    R = refdata.get()
    if D.same:
        return None
    for t in texts(D):
        for f in forms:
            a, b = D.form(f, t), R.form(f, t)
            if list(a) != list(b):
                return f, t, a, b
    return None
