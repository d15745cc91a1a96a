"""Internal iteration: provided methods of Iterator that an iterator of the crate overrides must agree with next().

A method that resolves to the standard library's own definition is built from next() and needs nothing more.  An
overriding method that hands out every character (fold, for_each, ...) is interpreted from every abstract state of the
stream analysis against the remaining text of the specification; for the others (count, last, nth, ...) the abstract
interpreter is run on singleton classes: a difference is an alarm, agreement leaves the method undecided."""
import time
import streams, witness
from objects import SUF, V, collect, prepare, outputs
from iters import *
from terms import *
from machine import *
from client import *

VISIT = ("fold", "for_each", "all", "any", "find", "position")
VALUE = ("count", "last", "nth", "max", "min", "eq", "ne")
TEXTS = [[], [0x61], [0x61, 0x301], [0xE1, 0x316, 0x62], [0x61, 0x301, 0x316, 0x62, 0x63], [0x316, 0x301, 0x61],
         [0xAC01, 0x11A8, 0x61], [0x1100, 0x1161, 0x11A8, 0x1161], [0xF900, 0x61, 0x2F800, 0xFA10], [0x2F800], [0xF900, 0xF900],
         [0xFDFA, 0x301], [0x344, 0x61, 0x344], [0x1D15E, 0x1D16D], [0x61] + [0x301] * 33, [0x61] + [0x301, 0x316] * 20 + [0x62],
         [0x300] * 65, [0x61, 0x62] * 20, [0xC5, 0x327, 0x1E69], [0x212B], [0x3042, 0x3099, 0x304B, 0x3099], [0x61, 0x345, 0x301],
         [0x9C7, 0x9BE, 0x9C7, 0x61], [0xF900, 0x301], [0x61, 0x301] * 20, [0x61, 0x200D, 0x301], [0, 0x61], [0xFEFF, 0xE9]]


def overridden(P, form):
    r = []
    for n in VISIT + VALUE:
        k = "adaptors::%s::root_%s" % (SUF[form], n)
        fs = [P.fns[c] for _, c in P.callees(P.roots[k])]
        if not any(f.deff == "core::iter::Iterator::" + n for f in fs):
            r.append(n)
    return r


class Exact(Client):
    """the source is a given text: an integer position"""

    def __init__(self, P, form, text):
        super().__init__()
        self.P, self.form, self.text, self.out, self.ret = P, form, text, [], None

    def machine(self):
        P = self.P
        m = Machine(P, self)
        m.max_steps = 3000000
        t = self.text

        def nxt(m, fn, a, *r):
            p = a[0]
            i = m.load(p.loc, p.path + (0,))
            if i >= len(t):
                return NONE
            m.store(p.loc, p.path + (0,), i + 1)
            return some(t[i])

        def hint(m, fn, a, *r):
            n = len(t) - m.load(a[0].loc, a[0].path + (0,))
            return Agg(0, (n, some(n)))

        def emit(m, fn, a, *r):
            self.out.append(a[1])
            return UNIT
        for f in P.fns:
            if f.deff == "harness::src_next":
                m.handlers[f.id] = nxt
            elif f.deff == "harness::src_clone":
                m.handlers[f.id] = lambda m, fn, a, *r: m.load(a[0].loc, a[0].path)
            elif f.deff == "harness::src_size_hint":
                m.handlers[f.id] = hint
            elif f.deff == "harness::emit":
                m.handlers[f.id] = emit
        return m

    def on_return(self, m, v):
        self.ret = (v, m.st)
        raise PathEnd("done")

    def call(self, st, root, args):
        """(value, state) or None"""
        m = self.machine()
        self.ret = None
        st = prepare(st)
        m.st = st
        m.push(root, args, None, None)
        m.start(st)
        m.explore(20)
        if m.undecided or self.ret is None:
            raise Unsupported("; ".join(m.undecided) or "no result")
        return self.ret


def opt(v):
    return None if v.v == 0 else v.f[0]


def exact(P, form, method, text):
    """None or (what, got, want)"""
    R = sets().R
    c = Exact(P, form, text)
    st = State()
    st.dom = Dom({0: ((0, 1 << 40),)})
    st.nsym = 1
    v, st = c.call(st, P.root(FORMS[form][1]), [Agg(0, (0,))])
    st.heap[V] = v
    rest = outputs(R, form, list(text))
    k = 0
    nxt = P.root("adaptors::%s::root_next" % SUF[form])
    root = P.root("adaptors::%s::root_%s" % (SUF[form], method))
    while k <= len(rest) and k < 12:
        left = rest[k:]
        if method in VISIT:
            st.heap[HEAP + 1] = Opaque("sink")
            c.out = []
            c.call(st, root, [st.heap[V], Ptr(HEAP + 1, ())])
            if c.out != left:
                return k, witness.us(c.out), witness.us(left)
        elif method == "nth":
            for n in (0, 1, 2, 5) if k > 1 else (0, 1, 2, 5, 12, 20, 29, 31, 32):
                r, s2 = c.call(st, root, [Ptr(V, ()), n])
                got = [opt(r)]
                want = [left[n] if n < len(left) else None]
                for i in range(3 if k > 1 else min(len(left) + 1, 40)):
                    r, s2 = c.call(s2, nxt, [Ptr(V, ())])
                    got.append(opt(r))
                    want.append(left[n + 1 + i] if n + 1 + i < len(left) else None)
                if got != want:
                    return k, "nth(%d) and then: %s" % (n, shown(got)), shown(want)
        else:
            if method in ("eq", "ne"):
                v2, s2 = c.call(st, P.root(FORMS[form][1]), [Agg(0, (0,))])
                r, s2 = c.call(s2, root, [st.heap[V], v2])
                want = int((left == rest) == (method == "eq"))
            else:
                r, s2 = c.call(st, root, [st.heap[V]])
                if method != "count":
                    r = opt(r)
                want = {"count": len(left), "last": left[-1] if left else None, "max": max(left, default=None),
                        "min": min(left, default=None)}[method]
            if r != want:
                return k, shown([r]), shown([want])
        if k == len(rest):
            break
        v, st = c.call(st, nxt, [Ptr(V, ())])
        k += 1
    return None


def shown(xs):
    return " ".join("end" if x is None else "U+%04X" % x if type(x) is int and x > 40 else str(x) for x in xs)


def visit(P, form, method, limit_s):
    """every abstract state: the characters handed out are the remaining text"""
    prop = STREAM_PROP[form]
    main, extra = collect(P, form, 3, limit_s)
    tot = None
    t0 = time.time()
    root = P.root("adaptors::%s::root_%s" % (SUF[form], method))
    for m0, c, states in [main] + extra:
        c.viols = {}
        c.seen = set()
        c.collect = None
        c.phase = "display"
        c.main_prop = lambda: prop
        m = c.machine()

        def emit(m, fn, a, *r):
            m.mark()
            c.output(m, c.canon_token(m, a[1]))
            return UNIT

        def phase(m, v):
            g = m.st.ghost
            if g.exp or not g.ended:
                c.viol(m, prop, "lost:%s" % c.form, "%s: %s stops before the end of the text" % (c.form, method))
            raise PathEnd("pruned")
        for f in P.fns:
            if f.deff == "harness::emit":
                m.handlers[f.id] = emit
        c.on_phase = phase
        for st in states[:4000]:
            s = prepare(st)
            if s.ghost.done:
                s.ghost = s.ghost._replace(done=0)
            s.heap[HEAP + 1] = Opaque("sink")
            v = s.heap[V]
            m.st = s
            m.push(root, [v, Ptr(HEAP + 1, ())], None, None)
            m.start(s)
        m.explore(max(20, limit_s - (time.time() - t0)))
        r = streams.summary(m, c, "states")
        tot = r if tot is None else streams.join(tot, r)
    return tot


def task(P, form, method, limit_s=120):
    def t():
        t0 = time.time()
        prop = STREAM_PROP[form]
        r = None
        if method in VISIT:
            r = visit(P, form, method, limit_s)
            r["viols"] = [(prop, v[1], v[2] + " [through %s]" % method) + v[3:] for v in r["viols"] if v[0] == prop]
        else:
            r = dict(what="", steps=0, paths=0, states=0, pulls=0, outputs=0, maxpend=0, covered=[], asserts=0, obl={},
                     undecided={"%s overrides %s: only compared on singleton classes" % (form, method): 1}, outcomes=[], viols=[])
        r["what"] = "%s: %s" % (form, method)
        for text in TEXTS:
            if time.time() - t0 > limit_s + 60 or any(v[4] for v in r["viols"]):
                break
            try:
                d = exact(P, form, method, text)
            except Unsupported as e:
                r["undecided"]["%s on a text: %s" % (method, e)] = 1
                break
            r["outputs"] += 1
            if d is not None:
                k, got, want = d
                r["viols"].append((prop, "%s:%s" % (method, form), "%s: after %d characters, %s disagrees with next" % (
                    form, k, method), None, {"text": witness.us(text) or "(empty)", "chars": text, "code_yields": got,
                                             "expected": want}))
        r["wall"] = time.time() - t0
        return r
    return t


def tasks(ctx, P, forms):
    ts = []
    n = 0
    for f in forms:
        o = overridden(P, f)
        n += len(VISIT + VALUE) - len(o)
        ctx.ob(len(VISIT + VALUE) - len(o))
        ts += [task(P, f, x) for x in o]
        for x in o:
            ctx.cover.setdefault("overridden_methods", []).append("%s: %s" % (f, x))
    ctx.cover["provided_methods_inherited"] = n
    return ts
