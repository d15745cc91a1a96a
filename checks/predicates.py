"""Quick checks and authoritative predicates: C10, C11, C13."""
import time
import build, refdata, iters, pool, scalar, witness, streams, codedata
from collections import namedtuple
from iters import *
from terms import *
from machine import *

GP = namedtuple("GP", "last v n ended")
GP0 = GP(None, "Y", 0, 0)
PRED = {"nfc": ("nfc", 0), "nfd": ("nfd", 0), "nfkc": ("nfkc", 0), "nfkd": ("nfkd", 0), "nfc_ss": ("nfc", 1),
        "nfd_ss": ("nfd", 1)}
PROP = {"nfc": "C10", "nfd": "C10", "nfkc": "C10", "nfkd": "C10", "nfc_ss": "C13", "nfd_ss": "C13"}
ASCII = ((0, 0x7F),)
STR = HEAP + 3
FORM_NEXT = {"<unicode_normalization::%s<I> as core::iter::Iterator>::next" % x for x in
             ("Decompositions", "Recompositions", "StreamSafe")}
EXT = [[], [0x61], [0x301], [0x344], [0x61, 0x301], [0xC5], [0x212B], [0x1100, 0x1161], [0x301, 0x316], [0x316],
       [0x61, 0x301, 0x316], [0x301] * 31, [0x1161], [0x11A8], [0x3099], [0xAC00], [0xFB01], [0xA0]]


PROBES = [x for a in EXT for x in (a, a + [0x305], [0x61, 0x305] + a, a + [0x305, 0x316, 0x78])] + [
    [0x41, 0x30A, 0x327], [0xC5, 0x327], [0x1E69], [0x73, 0x323, 0x307], [0x73, 0x307, 0x323], [0x212B, 0x61], [0x958],
    [0xF900], [0xFA10], [0x2F800], [0x1D15E], [0x9C7, 0x9BE], [0x9CB], [0xAC00, 0x11A8], [0xAC01], [0x1100, 0x1161, 0x11A8],
    [0x3042, 0x3099], [0x304B, 0x3099], [0x2126], [0x3A9], [0x387], [0xB7], [0x340], [0x300], [0x344], [0x308, 0x301],
    [0x61] + [0x305] * 30, [0x61] + [0x305] * 31, [0x61] + [0x305] * 30 + [0x34F, 0x305], [0x61] + [0x305] * 29 + [0x344],
    [0xE4, 0x323], [0x61, 0xE4, 0x323, 0x62], [0x101, 0x323], [0x1F00, 0x345], [0x1E0A, 0x327], [0xDC, 0x328], [0x1DA, 0x323],
    [0xE1] + [0x305] * 30, [0x61] * 40 + [0x305, 0x316], [0xE9] * 1200, [0x61, 0x327] * 700, [0x305] * 30, [0x305] * 31]


def const_probes(P, pred, quick):
    """texts around the character constants of the predicate's own code"""
    root = P.root("pred::root_quick_" + pred if quick else "autho::root_is_" + pred)
    cs = []
    for i in sorted(P.reach([root.id])):
        f = P.fns[i]
        if f.crate == "unicode_normalization" and f.body:
            vs = streams.const_ints(P, f, ("uint", "int", "char"))
            for v in sorted(vs) if len(vs) <= 80 else ():
                if 0x80 <= v < 0x110000 and not 0xD7FF <= v <= 0xE000 and v not in cs:
                    cs.append(v)
    out = []
    for v in cs[:60]:
        for x in (v, v + 1, v - 1):
            out += [[x], [x, 0x61], [0x61, x]]
        out += [[v, 0x301], [0x305, v], [v, v], [v, 0x316, 0x301], [0x61, v, 0x301]]
    return out


def truth(R, pred, text):
    f, ss = PRED[pred]
    return list(R.form(f, text)) == list(text) and (not ss or list(R.stream_safe(text)) == list(text))


_classes = {}


def classes(S, pred):
    """value sets of characters by (non-starter?, quick-check value, stream-safe counts)"""
    r = _classes.get(pred)
    if r is not None:
        return r
    R = S.R
    f, ss = PRED[pred]
    no, maybe = R._qc()[f]
    special = set(no) | set(maybe)
    if ss:
        special |= set(R.canon) | set(R.compat) | set(range(0xAC00, 0xD7A4))
    for a, b in S.N:
        special |= set(range(a, b + 1))
    g = {}
    for c in special:
        k = (int(R.ccc(c) != 0), R.qc(f, c), R.nonstarters(c) if ss else None)
        g.setdefault(k, []).append(c)
    sets_ = {k: is_from(v) for k, v in g.items()}
    rest = is_sub(CHARS, is_from(special))
    k = (0, "Y", (0, 0, 1) if ss else None)
    sets_[k] = is_or(sets_.get(k, ()), rest)
    r = _classes[pred] = [(k, D) for k, D in sorted(sets_.items(), key=repr)]
    return r


class PredClient(StreamClient):
    def __init__(self, P, pred, script=None, limit_states=200000):
        self.pred = pred
        f, self.ss = PRED[pred]
        super().__init__(P, f, script=script, limit_states=limit_states)
        self.form = f
        self.kind = "p"
        self.classes_ = classes(self.S, pred)
        self.prop = PROP[pred]
        self.answers = {}
        self.fruitless = {}
        self.cands = {}
        self.lentok = None
        self.vnames = None
        self.forms0 = {}
        self.exact = None
        self.own = None

    def machine(self):
        m = super().machine()
        P = self.P
        m.summarise = lambda fn: fn.crate == "unicode_normalization" and summarisable(P, fn)
        H = m.handlers
        for f in P.fns:
            if f.deff == "core::str::<impl str>::is_ascii":
                H[f.id] = self.h_is_ascii
            elif f.deff in ("core::str::<impl str>::len", "core::str::<impl str>::is_empty"):
                H[f.id] = self.h_len(f.deff.endswith("len"))
            elif f.deff in ("core::iter::Iterator::eq", "core::iter::Iterator::ne"):
                H[f.id] = self.h_eq(f.deff.endswith("ne"))
            elif f.deff in FORM_NEXT and f.body and "core::str::Chars" in f.name:
                H[f.id] = self.h_form_next
        return m

    def extra_key(self, st, C):
        o = st.orc
        return (o.get("ascii"), o.get("active"), o.get("td"), o.get("te"), o.get("tf"),
                tuple(sorted((k[1], v) for k, v in o.items() if k[0] == "eq")),
                (o["tq"][0], C.val(o["tq"][1])) if "tq" in o else None)

    # ---- two passes side by side: the string's characters and one of its normal forms
    def h_form_next(self, m, fn, a, dest, target, sync):
        p = a[0]
        v = m.load(p.loc, p.path)
        if type(v) is Opaque and v.tag[0] == "tx":
            return self.exact_next(m, p, v)
        if not (type(v) is Opaque and v.tag[0] == "tan"):
            f = None
            for name, val in self.forms0.items():
                if val is not None and v == val:
                    f = name
                    break
            if f is None and (self.exact is not None or not self.forms0):
                return DECLINED
            if f is None:
                raise Unsupported("an unknown iterator over the string")
            if self.exact is not None:
                return self.exact_next(m, p, Opaque(("tx", f, 0)))
            if m.st.orc.get("tf") is not None:
                raise Unsupported("a third pass over the string")
            m.mark()
            b = self.same_form(m, f)
            m.st.orc = dict(m.st.orc)
            m.st.orc["tf"] = f
            m.st.orc[("eq", f)] = b
            r = self.tandem(m, 1)
            m.store(p.loc, p.path, Opaque(("tan", 1)))     # after the choices: a fork does not undo stores
            return r
        return self.tandem(m, 1)

    def exact_next(self, m, p, v):
        _, f, n = v.tag
        if f not in self.exact:
            R, t = self.R, self.exact[None]
            self.exact[f] = list(R.stream_safe(t)) if f == "ss" else list(R.form(f.replace("_ss", ""), R.stream_safe(t) if
                                                                                f.endswith("_ss") else t))
        m.store(p.loc, p.path, Opaque(("tx", f, n + 1)))
        t = self.exact[f]
        return some(t[n]) if n < len(t) else NONE

    def same_form(self, m, f):
        """is the text its own form f?  decided where the first pass tells"""
        k = ("eq", f)
        g = m.st.ghost
        if k in m.st.orc:
            return m.st.orc[k]
        if f == self.pred and g.v == "N":
            return 0
        if f == self.pred and g.v == "Y" and g.ended:
            return 1
        return m.choose(2)

    def tandem(self, m, who):
        """next item of the text (0) or of the form iterator (1): equal up to the first difference, if there is one"""
        o = m.st.orc
        lead, q = o.get("tq", (0, ()))
        te = o.get("te", ())
        if self.script is not None:
            raise Unsupported("a second pass over the string")
        if q and lead != who:
            x, q = q[0], q[1:]
            f = o.get("tf")
            same = f is None or o[("eq", f)] == 1 or (o.get("td") is None and x != "end")
            td = o.get("td")
            if td is not None and f is not None and o[("eq", f)] == 0:
                return self.fresh_item(m, who, (lead, q), None)
            if f is not None and o[("eq", f)] == 0:
                # the first difference is here, or later
                if x == "end":
                    return self.fresh_item(m, who, (lead, q), "longer%d" % who, end=False)
                k = m.choose(3)
                if k == 1:
                    return self.fresh_item(m, who, (lead, q), "chars", end=False, unlike=x)
                if k == 2:
                    return self.fresh_item(m, who, (lead, q), "longer%d" % (1 - who), end=True)
            m.st.orc = o = dict(m.st.orc)
            o["tq"] = (lead, q)
            if x == "end":
                o["te"] = tuple(sorted(set(te) | {who}))
                return NONE
            return some(x)
        if who in te:
            return NONE
        self.memo_pull(m)
        if len(q) > 6:
            raise Unsupported("one pass runs far ahead of the other")
        return self.fresh_item(m, who, None, None)

    def fresh_item(self, m, who, tq, kind, end=None, unlike=None):
        o = m.st.orc
        if end is None:
            end = m.choose(2) == 0
        m.st.orc = o = dict(o)
        if kind is not None:
            o["td"] = kind
        x = "end"
        if not end:
            c = self.fresh(m, ASCII if o.get("ascii") else CHARS)
            x = sym(c)
            if unlike is not None:
                o[("ne", min(c, unlike.args[0]), max(c, unlike.args[0]))] = 1
        if tq is not None:
            o["tq"] = tq
        elif o.get("td") is None:
            lead, q = o.get("tq", (who, ()))
            o["tq"] = (who, q + (x,))
        if end:
            o["te"] = tuple(sorted(set(o.get("te", ())) | {who}))
            return NONE
        return some(x)

    def decide(self, m, cond):
        if cond.op in ("eq", "ne"):
            a, b = cond.args[:2]
            if type(a) is Term and type(b) is Term and a.op == "sym" and b.op == "sym" and "tf" in m.st.orc:
                i, j = sorted((a.args[0], b.args[0]))
                if i == j:
                    return [(int(cond.op == "eq"), m.st.dom)]
                if ("ne", i, j) in m.st.orc:
                    return [(int(cond.op == "ne"), m.st.dom)]
                return [(0, m.st.dom), (1, m.st.dom)]
        return super().decide(m, cond)

    # ---- the source
    def h_pull(self, m, fn, a, dest, target, sync):
        g = m.st.ghost
        if not m.st.queue:
            self.npulls += 1
        if g.ended:
            return NONE
        self.memo_pull(m)
        m.mark()
        self.gc_order(m)
        m.st.steps = 0 if self.script is None else m.st.steps
        r = self.pull(m)
        return NONE if r is None else some(sym(r))

    def offers_p(self, m):
        if self.script is not None:
            out = []
            for o in self.script(self.npulled(m.st)):
                if o is None:
                    out.append(None)
                else:
                    c = o[1][-1][0]
                    D = ((c, c),)
                    R = self.R
                    out.append(((int(R.ccc(c) != 0), R.qc(self.form, c), R.nonstarters(c) if self.ss else None), D))
            return out
        if self.lentok is not None and m.st.dom.d[self.lentok] == ((0, 0),):
            return [None]
        if m.st.orc.get("ascii"):
            return [None] + [(k, is_and(D, ASCII)) for k, D in self.classes_ if is_and(D, ASCII)]
        return [None] + self.classes_

    def pull(self, m):
        st = m.st
        o = self.offers_p(m)
        o = o[m.choose(len(o))]
        g = st.ghost
        if o is None:
            st.ghost = g._replace(ended=1)
            return None
        (ns, qc, k), D = o
        c = self.fresh(m, D)
        st.trace = (st.trace, ("pull", c, (c,)))
        v = g.v
        if v != "N":
            if ns:
                if self.script is None:
                    self.place(m, c)
                if g.last is not None and self.cmp_rank(m, g.last, sym(c)) > 0:
                    v = "N"
            if qc == "N":
                v = "N"
            elif qc == "M" and v == "Y":
                v = "M"
        n = g.n
        if self.ss and v != "N":
            lead, trail, ln = k
            if n + lead > 30:
                v = "N"
            n = n + ln if lead == ln else trail
        if v == "N":
            st.ghost = GP(None, "N", 0, 0)
        else:
            st.ghost = GP(sym(c) if ns else None, v, n, 0)
        return c

    # ---- strings
    def str_chars(self, m, s):
        if type(s) is not Ptr or s.loc != STR:
            raise Unsupported("chars of another string")
        return Opaque(("chars", 0))

    def chars_method(self, m, name, fn, a):
        if name in ("count", "size_hint", "last") and self.exact is not None:
            v = a[0] if type(a[0]) is Opaque else m.load(a[0].loc, a[0].path)
            if type(v) is Opaque and v.tag[0] in ("tx", "chars") and v.tag != ("chars", 1):
                rest = self.exact[None][v.tag[2]:] if v.tag[0] == "tx" else self.exact[None]
                if name == "count":
                    return len(rest)
                if name == "last":
                    return some(rest[-1]) if rest else NONE
                n = sum(utf8(c) for c in rest)
                return Agg(0, ((n + 3) // 4, some(n)))
        if name != "next":
            return DECLINED
        p = a[0]
        v = m.load(p.loc, p.path)
        if type(v) is Opaque and v.tag[0] == "tx":
            return self.exact_next(m, p, v)
        if type(v) is Opaque and v.tag[0] == "tan":
            return self.tandem(m, v.tag[1])
        if type(v) is not Opaque or v.tag[0] != "chars":
            raise Unsupported("characters of a string")
        if v.tag[1] == 0:
            if m.st.orc.get("active"):
                if self.exact is not None:
                    return self.exact_next(m, p, Opaque(("tx", None, 0)))
                if m.st.orc.get("second"):
                    raise Unsupported("a third pass over the string")
                m.mark()
                m.st.orc = dict(m.st.orc)
                m.st.orc["second"] = 1
                r = self.tandem(m, 0)
                m.store(p.loc, p.path, Opaque(("tan", 0)))
                return r
            m.mark()
            m.st.orc = dict(m.st.orc)
            m.st.orc["active"] = 1
            m.store(p.loc, p.path, Opaque(("chars", 1)))
        return self.h_pull(m, fn, a, None, None, None)

    def chars_clone(self, m, a):
        v = m.load(a.loc, a.path)
        if type(v) is Opaque and v.tag == ("chars", 0):
            return v
        raise Unsupported("clone of a position in the string")

    def h_is_ascii(self, m, fn, a, dest, target, sync):
        if type(a[0]) is not Ptr or a[0].loc != STR or m.st.orc.get("active"):
            raise Unsupported("is_ascii")
        k = m.choose(2)
        m.st.orc = dict(m.st.orc)
        m.st.orc["ascii"] = k
        return k

    def h_len(self, ln):
        def h(m, fn, a, dest, target, sync):
            if type(a[0]) is not Ptr or a[0].loc != STR or self.lentok is None:
                return DECLINED
            t = sym(self.lentok)
            return t if ln else mk("eq", t, 0, 64)
        return h

    def h_eq(self, neg):
        def h(m, fn, a, dest, target, sync):
            zero = Opaque(("chars", 0))
            x, y = a[0], a[1]
            if y == zero:
                x, y = y, x
            if x != zero:
                return DECLINED
            f = None
            if y == zero:
                return int(not neg)
            for name, val in self.forms0.items():
                if val is not None and y == val:
                    f = name
                    break
            if f is None and self.exact is not None:
                return DECLINED
            if f is None:
                raise Unsupported("comparison with an unknown iterator")
            if self.exact is not None:
                b = int(eq_truth(self.R, f, self.exact[None]) if self.own is None else
                        list(self.own[f]) == self.exact[None])
                return 1 - b if neg else b
            g = m.st.ghost
            k = ("eq", f)
            if k in m.st.orc:
                b = m.st.orc[k]
            else:
                if f == self.pred and g.v == "N":
                    b = 0
                elif f == self.pred and g.v == "Y" and g.ended:
                    b = 1
                else:
                    b = m.choose(2)
                    if m.saved is None:
                        m.mark()
                m.st.orc = dict(m.st.orc)
                m.st.orc[k] = b
            return 1 - b if neg else b
        return h

    # ---- answers
    def answer(self, m, v):
        if type(v) is Agg and not v.f and self.vnames is not None:
            return self.vnames[v.v]
        if self.vnames is None:
            if type(v) is Term:
                v = m.branch(v)
            if v in (0, 1):
                return "Y" if v else "N"
        raise Unsupported("result %r" % (v,))

    def on_return(self, m, v):
        st = m.st
        g = st.ghost
        a = self.answer(m, v)
        self.outputs += 1
        ended = g.ended or (self.lentok is not None and st.dom.d[self.lentok] == ((0, 0),))
        k = (a, g.v, bool(ended))
        self.answers[k] = self.answers.get(k, 0) + 1
        cprop = self.prop if self.vnames is not None or self.ss else "C11"
        if self.exact is not None:
            return self.exact_answer(m, a, cprop)
        fn = "is_%s%s" % (self.pred.replace("_ss", "_stream_safe"), "_quick" if self.vnames is not None else "")
        if a == "M":
            if self.form in ("nfd", "nfkd") and not self.ss:
                self.alarm(m, cprop, "maybe:" + fn, "%s answers Maybe" % fn, None)
        elif a == "N":
            if g.v == "N":
                pass
            elif st.orc.get(("eq", self.pred)) == 0:
                pass
            else:
                self.alarm(m, cprop, "no:" + fn, "%s answers no for a text that is in the form" % fn, True)
        else:
            if g.v == "Y" and (ended or st.orc.get("ascii")):
                pass
            elif st.orc.get(("eq", self.pred)) == 1:
                pass
            else:
                self.alarm(m, cprop, "yes:" + fn, "%s answers yes for a text that is not in the form" % fn, False)
        raise PathEnd("pruned")

    def exact_answer(self, m, a, cprop):
        t = self.exact[None]
        self.exact_result = a
        tr = truth(self.R, self.pred, t)
        if self.own is not None and not self.ss and (list(self.own[self.form]) == list(t)) != tr:
            # the normalizer is wrong about this text: whichever the answer, it contradicts the one or the standard
            tr = a != "Y"
        fn = "is_%s%s" % (self.pred.replace("_ss", "_stream_safe"), "_quick" if self.vnames is not None else "")
        if (a == "Y" and not tr) or (a == "N" and tr):
            w = {"Y": "yes", "N": "no"}[a]
            v = self.viols[(cprop, "%s:%s" % (w, fn))] = Violation(
                cprop, "%s:%s" % (w, fn), "%s answers %s for a text that is %sin the form" % (fn, w, "" if tr else "not "),
                None, m.site())
            v.witness = {"text": witness.us(t) or "(empty)", "chars": list(t)}
        raise PathEnd("pruned")

    def alarm(self, m, prop, key, msg, want):
        """want: the truth value that contradicts the answer (None: any text)"""
        if (prop, key) in self.viols:
            return
        n = self.fruitless.get(key, 0)
        if n > 60:
            m.undecided["unresolved: " + msg] = m.undecided.get("unresolved: " + msg, 0) + 1
            return
        st = m.st
        g = st.ghost
        R = self.R
        ext = [[]] if g.ended else EXT
        tried = []

        def mode(text):
            tried.append(text)
            if "tf" in st.orc or "second" in st.orc:
                return None         # what the second pass saw is checked by replaying the text
            for e in ext:
                t = text + e
                if st.orc.get("ascii") is not None and all(c < 128 for c in t) != bool(st.orc["ascii"]):
                    continue
                if self.lentok is not None and not is_has(st.dom.d[self.lentok], sum(utf8(c) for c in t)):
                    continue
                if want is not None and truth(R, self.pred, t) != want:
                    continue
                for k, b in st.orc.items():
                    if k[0] == "eq" and eq_truth(R, k[1], t) != bool(b):
                        break
                else:
                    return {"text": witness.us(t) or "(empty)", "chars": t}
            return None
        w = witness.concretise(self, st, None, mode, limit=300 if n < 10 else 60)
        if w is None:
            self.fruitless[key] = n + 1
            cs = self.cands.setdefault(key, [])
            if want is not None and self.script is None and len(cs) < 60:
                k = 0
                for t in tried[:40]:
                    for e in ext:
                        for t2 in variants(self.S, t + e):
                            if k < 8 and truth(R, self.pred, t2) == want and t2 not in cs:
                                cs.append(t2)
                                k += 1
            m.undecided["unresolved: " + msg] = m.undecided.get("unresolved: " + msg, 0) + 1
            return
        v = self.viols[(prop, key)] = Violation(prop, key, msg, None, m.site())
        v.tries = 0
        v.witness = w

    def prefer(self, k, c, asg, prev):
        """likely values of the next character of a witness: partners of the previous one"""
        return self.S.firsts.get(prev, ())


def variants(S, t):
    """texts near t in which characters meet partners they compose with"""
    yield t
    if not t or len(t) == 1:
        for u in ([0xE4, 0x323], [0xE2, 0x323, 0x61], [0x1DA, 0x323]):
            yield t + u
    if not hasattr(S, "_partners"):
        S._partners = {}
        for (a, b) in S.pairs:
            S._partners.setdefault(b, []).append(a)
    for i in range(min(len(t), 6)):
        ps = S._partners.get(t[i], ())
        for a in (ps[0], ps[-1]) if ps else ():
            if S.R.ccc(a) == 0:
                yield t[:i] + [a] + t[i:]
                yield [0x61] + t[:i] + [a] + t[i:]
                yield t[:i] + [a] + t[i:] + [0x4E00]
    if t:
        for b in list(S.firsts.get(t[-1], ()))[:2]:
            yield t + [b]
            yield t + [b, 0x61]


def eq_truth(R, f, t):
    if f == "ss":
        return list(R.stream_safe(t)) == list(t)
    x = R.stream_safe(t) if f.endswith("_ss") else t
    return list(R.form(f.replace("_ss", ""), x)) == list(t)


def utf8(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


# ------------------------------------------------------------------ running
def variant_names(P, fn):
    t = P.types[fn.sig["out"]]
    if t["k"] == "adt":
        return [{"Yes": "Y", "No": "N", "Maybe": "M"}[v["n"]] for v in t["vars"]]
    return None


def forms_of_str(P, c):
    """the iterators made from the string, as built by the crate's own methods"""
    out = {}
    for f in ("nfc", "nfd", "nfkc", "nfkd", "nfc_ss", "nfd_ss", "ss"):
        try:
            m = Machine(P, c)
            st = State()
            m.st = st
            res = []
            keep = c.on_return
            c.on_return = lambda m, v: (_ for _ in ()).throw(PathEnd("pruned")) if res.append(v) is None else None
            try:
                m.push(P.root("autho::root_form_" + f), [Opaque(("chars", 0))], None, None)
                m.start(st)
                m.explore(20)
            finally:
                c.on_return = keep
            out[f] = res[0] if len(res) == 1 and not m.undecided else None
        except Unsupported:
            out[f] = None
    return out


def run_exact(P, pred, quick, text, limit_s=20, own=None):
    """the predicate on singleton classes, i.e. on one text; own: the forms of the text as the code makes them"""
    steps = [[((0,), ((x, x),), True)] for x in text]
    return run_pred(P, pred, quick, script=streams.script_of(steps), limit_s=limit_s, text=text, own=own)


def run_pred(P, pred, quick=True, script=None, limit_s=None, limit_states=400000, text=None, own=None):
    c = PredClient(P, pred, script=script, limit_states=limit_states)
    if text is not None:
        c.exact = {None: list(text)}
        if own is not None:
            c.exact.update(own)
            c.own = own
    c.phase = "next"
    root = P.root(("pred::root_quick_" if quick else "autho::root_is_") + pred)
    c.vnames = variant_names(P, root)
    if not quick:
        c.forms0 = forms_of_str(P, c)
    m = c.machine()
    st = State()
    st.ghost = GP0
    if quick:
        args = [Agg(0, (0,))]
    else:
        c.lentok = 0
        st.nsym = 1
        st.dom = Dom({0: ((0, 1 << 40),)})
        if text is not None:
            n = sum(utf8(x) for x in text)
            st.dom = Dom({0: ((n, n),)})
        st.heap[STR] = Opaque("text")
        args = [Ptr(STR, (0,), sym(0))]
    m.st = st
    m.push(root, args, None, None)
    m.start(st)
    t0 = time.time()
    m.explore(limit_s)
    c.wall = time.time() - t0
    return m, c


def pred_task(P, pred, quick, limit_s):
    def t():
        m, c = run_pred(P, pred, quick, limit_s=limit_s)
        r = streams.summary(m, c, "is_%s%s" % (pred, "_quick" if quick else ""))
        t0 = time.time()
        done = set()
        probes = PROBES + const_probes(P, pred, quick) if r["undecided"] else []
        for key, texts in [(None, probes)] + list(c.cands.items()):
            for text in texts:
                if any(v[4] and (key is None or v[1] == key) for v in r["viols"]) or time.time() - t0 > (
                        60 if key is None else 120):
                    break
                if tuple(text) in done:
                    continue
                done.add(tuple(text))
                m2, c2 = run_exact(P, pred, quick, text)
                r["viols"] += [(v.prop, v.key, v.msg, v.site, v.witness) for v in c2.viols.values()]
        r["answers"] = c.answers
        return r
    return t


def script_task(P, pred, items, quick, limit_s):
    def t():
        tot = None
        t0 = time.time()
        for name, steps in items:
            m, c = run_pred(P, pred, quick, script=streams.script_of(steps), limit_s=limit_s)
            r = streams.summary(m, c, name)
            tot = r if tot is None else streams.join(tot, r)
            if limit_s and time.time() - t0 > limit_s:
                tot["undecided"]["script time limit"] = 1
                break
        tot["what"] = "is_%s%s: %d scripted texts" % (pred, "_quick" if quick else "", len(items))
        return tot
    return t


def quick_ref(D, pred, text):
    """the UAX #15 quick check with the code's combining classes and the reference properties"""
    f, ss = PRED[pred]
    last, v, n = 0, "Y", 0
    for c in text:
        cc = D.ccc(c)
        if last > cc and cc != 0:
            return "N"
        q = D.qc(f, c)
        if q == "N":
            return "N"
        if q == "M":
            v = "M"
        if ss:
            lead, trail, ln = refdata.get().nonstarters(c)
            if n + lead > 30:
                return "N"
            n = n + ln if lead == ln else trail
        last = cc
    return v


def data(ctx, P, preds, own):
    """premise: the character data behind the predicates.  own: compare with the code's own normal forms (C11)"""
    names = ["ccc"] if not own else ["nfd", "nfkd", "ccc", "compose"]
    D = codedata.extract(ctx, P, names)
    if D.same:
        return
    R = refdata.get()
    for t in codedata.texts(D):
        for p in preds:
            a = quick_ref(D, p, t)
            f, ss = PRED[p]
            tr = truth(D if own else R, p, t)
            if (a == "Y" and not tr) or (a == "N" and tr):
                ctx.ob(1, False)
                ctx.violation("data:" + p, "with the code's character data the quick check for %s says %s of %s, which "
                              "is %sin that form" % (p, {"Y": "yes", "N": "no"}[a], witness.us(t), "" if tr else "not "),
                              {"text": t})
                return
    ctx.undec("the character data differs from the reference without showing in the predicates on the texts tried")


def decide(ctx, P, preds, modes, prop):
    """the fixpoint covers texts of every length when it closes; only otherwise are scripted long texts looked at"""
    ctx.level = "other"
    sets()
    todo = [(p, q) for p in preds for q in modes]
    props = (prop, "C14", "C15")       # a text on which the predicate panics gets no answer either
    rs = pool.run([pred_task(P, p, q, 250) for p, q in todo])
    closed = True
    again = []
    for (p, q), r in zip(todo, rs):
        streams.merge(ctx, P, r, props)
        if not isinstance(r, pool.Crash) and any(v[0] in props and v[4] for v in r["viols"]):
            continue
        if isinstance(r, pool.Crash) or r["undecided"] or [o for o in r["outcomes"] if o[0] not in ("return", "done")]:
            closed = False
            again += script_tasks(P, [p], q, ctx.thorough, 60)
    ctx.cover["closed_fixpoint"] = closed
    if again:
        streams.run_all(ctx, P, again, props)


def script_tasks(P, preds, quick, deep, limit):
    S = sets()
    out = []
    for p in preds:
        root = ("pred::root_quick_" if quick else "autho::root_is_") + p
        fam = list(streams.families(S, PRED[p][0], streams.int_constants(P, [root]), deep).items())
        out.append(script_task(P, p, fam, quick, limit))
    return out


def own_task(P, PS, preds, texts):
    """the authoritative predicates on texts, against the normal forms the code itself makes of them"""
    def t():
        import stability
        t0 = time.time()
        viols, und, n = {}, {}, 0
        for text in texts:
            memo = {}

            def form(f, t):
                k = (f, tuple(t))
                if k not in memo:
                    memo[k] = stability.eval_form(PS, f, list(t))
                return memo[k]
            for pred in preds:
                if pred in viols or time.time() - t0 > 150:
                    continue
                try:
                    own = {f: form(f, text) for f in ({"ss", PRED[pred][0]} if PRED[pred][1] else {pred})}
                    if PRED[pred][1]:
                        own[pred] = form(PRED[pred][0], own["ss"])
                    m, c = run_exact(P, pred, False, text, own=own)
                    n += 1
                    for k, x in m.undecided.items():
                        und[k] = und.get(k, 0) + x
                    for v in c.viols.values():
                        viols[pred] = (v.key, v.msg, v.witness)
                except (Unsupported, KeyError) as e:
                    und[str(e)] = und.get(str(e), 0) + 1
        return viols, und, n
    return t


def normalizers(ctx, P, preds, forms):
    """premise: the iterators the predicates compare with make the normal forms.  Where they do not, the predicates are
    interpreted on the texts concerned, and only a wrong answer is reported"""
    import stability
    PS = build.load(["chars", "forms"])
    deep = ctx.thorough
    other = stability.broken_streams(ctx, PS, deep, 300 if deep else 110, forms)
    if not other:
        return
    R = refdata.get()
    texts = []
    for t in stability.texts_around(other):
        for u in [t] + [list(R.form(f, t)) for f in ("nfc", "nfd", "nfkc", "nfkd")]:
            for v in (u, u + [0x62, 0x301]):
                for w in [v] + ([list(R.stream_safe(v))] if "ss" in forms else []):
                    if w not in texts:
                        texts.append(w)
    texts = texts[:400]
    found = False
    # spread, so that every task sees texts of every kind
    for r in pool.run([own_task(P, PS, preds, texts[i::8]) for i in range(8)]):
        if isinstance(r, pool.Crash):
            ctx.undec("evaluation: " + str(r).strip().split("\n")[-1])
            continue
        viols, und, n = r
        ctx.ob(n)
        for k, x in und.items():
            ctx.undec("evaluation: " + k, x)
        for pred, (key, msg, w) in viols.items():
            ctx.ob(1, False)
            found = True
            ctx.violation("normalizer:" + key, msg, w)
    if not found:
        ctx.undec("the normalizers do not implement the algorithms without showing in the predicates on the texts tried")


FORMS4 = ["nfc", "nfd", "nfkc", "nfkd"]
RULE = ("Fixpoint over the abstract states of the predicate's loop under an arbitrary source (characters as value sets by "
        "starter/non-starter, quick-check property and stream-safe counts; combining classes as a symbolic preorder), "
        "against the UAX #15 quick-check algorithm; a definite answer the algorithm does not force is an alarm only with "
        "a text whose normal form, computed from the reference data, contradicts it.")


def c10(ctx):
    ctx.rule = RULE + "  NFD and NFKD must never answer Maybe."
    streams.stream_trust(ctx)
    P = build.load(["chars", "pred"])
    decide(ctx, P, FORMS4, [True], "C10")
    data(ctx, P, FORMS4, False)
    if not ctx.undecided:
        ctx.level = "proof"


def c11(ctx):
    ctx.rule = RULE + ("  The comparison with the normalized text on Maybe is a cut point: the iterator compared with must be "
                       "the one the crate's own method builds; its stream is analysed as in C08/C09, and where it is not "
                       "that of the algorithm the predicates are interpreted on the texts concerned.")
    streams.stream_trust(ctx)
    P = build.load(["chars", "pred", "autho"])
    decide(ctx, P, FORMS4, [False], "C11")
    data(ctx, P, FORMS4, True)
    normalizers(ctx, P, FORMS4, ("nfd", "nfkd", "nfc", "nfkc"))
    if not ctx.undecided:
        ctx.level = "proof"


def c13(ctx):
    ctx.rule = RULE
    streams.stream_trust(ctx)
    P = build.load(["chars", "pred", "autho"])
    decide(ctx, P, ["nfc_ss", "nfd_ss"], [True, False], "C13")
    data(ctx, P, ["nfc_ss", "nfd_ss"], False)
    normalizers(ctx, P, ["nfc_ss", "nfd_ss"], ("nfd", "nfc", "ss"))
    if not ctx.undecided:
        ctx.level = "proof"
