"""C23: the normal forms are stable - closure of the character data, and the form equations on texts."""
import build, codedata, iters, pool, refdata, scalar, streams, witness
from iters import FORMS, V, sets
from terms import *
from machine import *
from client import Client

EQS = [("NFD of NFD", ("nfd", "nfd"), ("nfd",)), ("NFC of NFC", ("nfc", "nfc"), ("nfc",)),
       ("NFC of NFD", ("nfd", "nfc"), ("nfc",)), ("NFD of NFC", ("nfc", "nfd"), ("nfd",)),
       ("NFKD of NFKD", ("nfkd", "nfkd"), ("nfkd",)), ("NFKC of NFKC", ("nfkc", "nfkc"), ("nfkc",)),
       ("NFKC of NFKD", ("nfkd", "nfkc"), ("nfkc",)), ("NFKD of NFKC", ("nfkc", "nfkd"), ("nfkd",))]


class Eval(Client):
    """abstract interpretation of a whole iterator on one text (every value set a singleton)"""

    def __init__(self, P, text):
        super().__init__()
        self.P, self.text = P, list(text)
        self.out = None
        self.ctor = None

    def on_return(self, m, v):
        if self.ctor is None:
            self.ctor = v
            raise PathEnd("pruned")
        st = m.st
        if v.v == 1:
            x = v.f[0]
            if type(x) is not int:
                raise Unsupported("symbolic output")
            st.ghost = (st.ghost[0], st.ghost[1] + (x,))
            if len(st.ghost[1]) > 20 * len(self.text) + 40:
                raise Unsupported("endless output")
            st.steps = 0
            m.push(self.nxt, [Ptr(V, ())], None, None)
        else:
            self.out = list(st.ghost[1])
            raise PathEnd("done")

    def on_end(self, m, e):
        if e.kind not in ("pruned", "done"):
            m.undecided["%s: %s" % (e.kind, e.msg)] = 1

    def h_next(self, m, fn, a, *r):
        n, o = m.st.ghost
        if n >= len(self.text):
            return NONE
        m.mark()
        m.st.ghost = (n + 1, o)
        return some(self.text[n])


def eval_form(P, form, text, limit_s=20):
    """the characters the code yields for a text, or None"""
    kind, new, nxt = FORMS[form]
    c = Eval(P, text)
    for phase in (0, 1):
        m = Machine(P, c)
        m.max_steps = 20000000
        for f in P.fns:
            if f.deff == "harness::src_next":
                m.handlers[f.id] = c.h_next
        st = State()
        st.ghost = (0, ())
        m.st = st
        if phase == 0:
            m.push(P.root(new), [Agg(0, (0,))], None, None)
        else:
            c.nxt = P.root(nxt)
            st.heap[V] = c.ctor
            m.push(c.nxt, [Ptr(V, ())], None, None)
        m.start(st)
        m.explore(limit_s)
        if m.undecided:
            raise Unsupported(list(m.undecided)[0])
    if c.out is None:
        raise Unsupported("no result")
    return c.out


def equations(form, text, converge=False):
    """the first equation a normalization function breaks on a text: (name, what it gives, what it should)"""
    memo = {}

    def f(k, t):
        key = (k, tuple(t))
        if key not in memo:
            memo[key] = list(form(k, list(t)))
        return memo[key]
    for name, left, right in EQS:
        a, b = text, text
        for k in left:
            a = f(k, a)
        for k in right:
            b = f(k, b)
        if list(a) != list(b):
            return name, a, b
    if converge:
        R = refdata.get()
        for k, other in (("nfd", "nfc"), ("nfc", "nfd"), ("nfkd", "nfkc"), ("nfkc", "nfkd")):
            t = list(R.form({"nfc": "nfd", "nfkc": "nfkd"}.get(k, k), text))
            for u in (t, list(R.form(other, text))):
                a, b = f(k, text), f(k, u)
                if list(a) != list(b):
                    return "%s of the equivalent text %s" % (k, witness.us(u)), b, a
    return None


def data_closure(ctx, D):
    """obligations over the code's character data; yields (text, what) for each that fails"""
    R = refdata.get()
    n = 0
    chars = set(R.canon) | set(R.compat) | set(D.o_nfd) | set(D.o_nfkd) | set(range(0xAC00, 0xD7A4))
    for c in sorted(chars):
        d, k = D.nfd1(c), D.nfkd1(c)
        n += 6
        for w, one, name in ((d, D.nfd1, "canonical"), (k, D.nfkd1, "compatibility")):
            for p in w:
                if tuple(one(p)) != (p,):
                    yield [c], "the %s decomposition of %s contains %s, which decomposes further" % (name, witness.u(c), witness.u(p))
            if list(D.order(list(w))) != list(w):
                yield [c], "the %s decomposition of %s is out of canonical order" % (name, witness.u(c))
        for p in k:
            if tuple(D.nfd1(p)) != (p,):
                yield [c], "the compatibility decomposition of %s contains %s, which has a canonical decomposition" % (
                    witness.u(c), witness.u(p))
        kk = D.order([x for p in d for x in D.nfkd1(p)])
        if list(kk) != list(k):
            yield [c], "the compatibility decomposition of %s is not that of its canonical decomposition" % witness.u(c)
    pairs = dict(scalar.all_pairs(R))
    pairs.update(D.o_comp)
    for (a, b), r in sorted(pairs.items()):
        if r is None:
            continue
        n += 2
        x = D.order(list(D.nfd1(a)) + list(D.nfd1(b)))
        if list(D.nfd1(r)) != list(x):
            yield [a, b], "%s composes to %s, which decomposes to %s" % (witness.us([a, b]), witness.u(r), witness.us(D.nfd1(r)))
        if D.ccc(a) != 0 and D.ccc(r) != D.ccc(a):
            yield [a, b], "%s composes to %s of another combining class" % (witness.us([a, b]), witness.u(r))
    ctx.cover["closure_obligations"] = n
    ctx.ob(n)


def eval_task(P, texts):
    def t():
        out, und, n = [], {}, 0
        import time
        t0 = time.time()
        for text in texts:
            try:
                n += 1
                e = equations(lambda k, x: eval_form(P, k, x), text, True)
            except Unsupported as ex:
                und[str(ex)] = und.get(str(ex), 0) + 1
                continue
            if e is not None:
                out.append((text, e))
                break
            if time.time() - t0 > 120:
                break
        return out, und, n
    return t


def variations(t):
    yield t
    yield t + [0x62]
    yield [0x61] + t
    yield t + [0x301]
    yield t + [0x316]
    yield [0x61] + t + [0x316, 0x62]
    yield t + t
    yield t[::-1]
    yield [0x61] + t[::-1] + [0x62]


SAMPLE = [[0x61, 0x301], [0xE1], [0x1E69], [0x73, 0x307, 0x323], [0xAC01], [0x1100, 0x1161, 0x11A8], [0xFB01], [0x212B],
          [0x344], [0x3B1, 0x345, 0x301], [0x958], [0x1F82, 0x316], [0x61, 0x316, 0x301, 0x334, 0x345],
          [0x1D15E, 0x1D16E], [0xFDFA], [0x9C7, 0x9BE, 0x301], [0x61] + [0x316, 0x301] * 20]


def broken_streams(ctx, P, deep, lim, forms=("nfd", "nfkd", "nfc", "nfkc")):
    """the stream analyses; what they find wrong"""
    ts = []
    for f, k in (("nfd", 4 if deep else 3), ("nfkd", 3 if deep else 2), ("nfc", 6 if deep else 5), ("nfkc", 6 if deep else 5),
                 ("ss", 40)):
        if f in forms:
            ts.append(streams.stream_task(P, f, k, True, lim))
    if "nfc" in forms:
        ts.append(streams.stream_task(P, "nfc", 2, False, lim))
    ts += streams.every_script(P, [f for f in forms if f in (("nfd", "nfkd", "nfc", "nfkc") if deep else ("nfd", "nfc"))],
                               deep, lim)
    return streams.run_all(ctx, P, ts, ())


def texts_around(other):
    """texts on which a stream was found wrong, and texts like them"""
    texts = []
    for prop, key, msg, site, w in other:
        if w is not None and prop in ("C08", "C09", "C12", "C14", "C15", "C16") and len(w["chars"]) < 700:
            for v in variations(list(w["chars"])):
                if v not in texts:
                    texts.append(v)
    # a run as long as the failing one, after which a mark is free to compose across it
    R = refdata.get()
    lens = set()
    for prop, key, msg, site, w in other:
        if w is not None:
            n = 0
            for c in w["chars"] + [0x61]:
                if R.ccc(c):
                    n += 1
                elif n > 2:
                    lens |= {n - 2, n - 1, n, n + 1}
                    n = 0
                else:
                    n = 0
    far = [[0x61] + [0x305] * n + [0x316, 0x301] for n in sorted(lens)[:40] if n > 0]
    far += [[0x61] + [0x305, 0x316] * (n // 2) + [0x316, 0x301, 0x62] for n in sorted(lens)[:20] if n > 1]
    return texts[:60] + far


def c23(ctx):
    P, R = streams.load_streams(ctx)
    ctx.rule = ("Closure of the code's character data (extracted by value-set analysis): pieces of decompositions do not "
                "decompose, are in canonical order, compatibility decomposition factors through the canonical one, and "
                "every composite decomposes to its parts; with the stream analyses of C08/C09 (the streams implement the "
                "algorithm over that data) this gives the equations for every string.  Where a premise fails, the "
                "equations are evaluated on texts around the failure, over the data or by abstract interpretation of "
                "the whole iterators, and only a text on which an equation fails is reported.")
    D = codedata.extract(ctx, P, ["nfd", "nfkd", "ccc", "compose"])
    failed = list(data_closure(ctx, D))
    cand = []
    for t, what in failed[:200]:
        cand += [(v, what) for v in variations(t)]
    if not D.same:
        cand += [(t, "character data") for t in codedata.texts(D, 150)]
    for t, what in cand:
        e = equations(lambda k, x: D.form(k, x), t)
        if e is not None:
            ctx.ob(1, False)
            ctx.violation("data:" + e[0], "%s of %s is %s, not %s: %s" % (e[0], witness.us(t), witness.us(e[1]),
                                                                      witness.us(e[2]), what), {"text": t})
            break
    else:
        for t, what in failed[:20]:
            ctx.undec("closure: " + what)
    deep = ctx.thorough
    lim = 300 if deep else 110
    other = broken_streams(ctx, P, deep, lim)
    texts = texts_around(other)
    texts += SAMPLE
    for r in pool.run([eval_task(P, x) for x in streams.chunks(texts, 8)]):
        if isinstance(r, pool.Crash):
            ctx.undec("evaluation: " + str(r).strip().split("\n")[-1])
            continue
        out, und, n = r
        ctx.ob(n)
        for k, x in und.items():
            ctx.undec("evaluation: " + k, x)
        for text, (name, a, b) in out:
            ctx.ob(1, False)
            ctx.violation("streams:" + name, "%s of %s is %s, not %s" % (name, witness.us(text), witness.us(a),
                                                                         witness.us(b)), {"text": text})
    if other:
        ctx.undec("the streams do not implement the normalization algorithm (C08, C09)", len(other))
