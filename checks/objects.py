"""Properties of the iterator objects: size hints (C17), receivers (C18), clone and display (C20)."""
import itertools, time
import build, refdata, iters, models, pool, scalar, witness, streams
from iters import *
from terms import *
from machine import *
from client import *

SUF = {"nfd": "d", "nfkd": "d", "nfc": "c", "nfkc": "c", "cjk": "cjk", "ss": "ss"}
MAXU = (1 << 64) - 1


def collect(P, form, K, limit_s, scripts=True, cut=True):
    """boundary states of the stream analysis: (client, machine, states)"""
    m, c = run_stream(P, form, K=K, collect=True, limit_s=limit_s, limit_states=400000, cut=cut)
    st = list(c.collect or [])
    extra = []
    if scripts and form in ("nfd", "nfkd", "nfc", "nfkc"):
        S = sets()
        fam = streams.families(S, form, [], False)
        for n in ("run of 9, then the end", "run of 20, then the end", "run of 35, then the end", "many short runs",
                  "leading run without a starter", "Hangul syllables and jamo", "composing chains",
                  "a, 5 lower marks, acute", "a, 17 lower marks, a, acute", "long decompositions in a row"):
            if n in fam:
                m2, c2 = run_stream(P, form, K=10 ** 9, cut=False, script=streams.script_of(fam[n]), collect=True)
                extra.append((m2, c2, list(c2.collect or [])))
    return (m, c, st), extra


def base_summary(m, c, what, n):
    r = streams.summary(m, c, what)
    r["objects"] = n
    return r


def prepare(st):
    st = st.copy()
    st.frames = []
    st.queue = []
    st.taken = []
    st.steps = 0
    return st


# ------------------------------------------------------------------ size hints
HINTS = [(0, None), (0, 0), (1, 1), (1, None), (2, 2), (3, 3), (0, 1), (0, 2), (1, 40), (40, 40), (100, None), (0, 100),
         (MAXU, None), (0, MAXU), (MAXU, MAXU)]


class HintRun:
    def __init__(self, P, form, client):
        self.P, self.form, self.c = P, form, client
        self.root = P.root("hints::root_hint_" + SUF[form])
        self.cur = None
        self.out = None
        client.fixed_hint = None

    def eval(self, st, hint):
        """[(lower, upper or None)] of the iterator in a state when the source's hint is `hint`"""
        c = self.c
        c.phase = "hint"
        m = c.machine()
        for f in self.P.fns:
            if f.deff == "harness::src_size_hint":
                m.handlers[f.id] = lambda m, fn, a, *r: Agg(0, (hint[0], NONE if hint[1] is None else some(hint[1])))
        res = []

        def phase(m, v):
            res.append((v, m.st))
            raise PathEnd("pruned")
        c.on_phase = phase
        s = prepare(st)
        m.st = s
        m.push(self.root, [Ptr(V, ())], None, None)
        m.start(s)
        m.explore(20)
        c.phase = "next"
        return m, res


def known_outputs(g, form):
    """characters certain to be yielded besides those of the rest of the source"""
    if form in ("nfd", "nfkd"):
        return len(g.exp) + len(g.pend)
    if form in ("nfc", "nfkc"):
        return len(g.exp) + (1 + len(g.P) if g.L is not None else 0) - g.early
    return len(g.exp)


POOL = [0x61, 0x301, 0x316, 0x1161, 0x11A8, 0x1100, 0xAC00, 0x9BE, 0x3099, 0xFB1D, 0x1D160, 0x344, 0xFDFA, 0xF900, 0xFA10,
        0x2F800, 0x338, 0x390, 0x1F82]
PATS = [[0x1100, 0x1161, 0x11A8], [0x3B1, 0x313, 0x300, 0x345], [0x61, 0x302, 0x301], [0x61, 0x301], [0x1100, 0x1161],
        [0x3B1, 0x345, 0x313, 0x300], [0x61] + [0x301] * 31, [0x1F82, 0x61]]


def futures(lo, hi):
    out = []
    for n in range(lo, min(hi, lo + 3) + 1):
        if n == 0:
            out.append([])
        elif n <= 2:
            out += [list(x) for x in itertools.product(POOL, repeat=n)]
        else:
            out += [[c] * n for c in POOL] + [[0x61] + [0x301] * (n - 1)] + [(POOL * (n // len(POOL) + 1))[:n]]
            out += [(p * n)[:n] for p in PATS]
    if hi > lo + 3:
        for n in (min(hi, lo + 40), min(hi, lo + 100)):
            out += [[c] * n for c in POOL] + [(p * n)[:n] for p in PATS]
    return out


def hint_task(P, form, K, limit_s):
    def t():
        t0 = time.time()
        (m0, c, states), extra = collect(P, form, K, limit_s)
        R = sets().R
        maxexp = {"nfd": 4, "nfkd": 18, "nfc": 4, "nfkc": 18, "cjk": 2, "ss": 2}[form]
        und = {}
        nob = 0
        ndis = 0
        ntext = 0
        viols = {}
        covered = set()
        every = [(c, s) for s in states] + [(c2, s) for _, c2, ss in extra for s in ss]
        runs = {}
        cache = {}
        for cl, st in every:
            g = st.ghost
            hr = runs.get(id(cl))
            if hr is None:
                hr = runs[id(cl)] = HintRun(P, form, cl)
            hints = [(0, 0), (0, None)] if g.ended else HINTS
            for h in hints:
                try:
                    m, res = hr.eval(st, h)
                except Unsupported as e:
                    und[str(e)] = und.get(str(e), 0) + 1
                    continue
                covered |= m.covered
                for k, n in m.undecided.items():
                    und["size_hint: " + k] = und.get("size_hint: " + k, 0) + n
                for v, s in res:
                    nob += 1
                    lower = v.f[0]
                    upper = v.f[1].f[0] if v.f[1].v == 1 else None
                    if type(lower) is not int or not (upper is None or type(upper) is int):
                        und["symbolic size hint"] = und.get("symbolic size hint", 0) + 1
                        continue
                    known = known_outputs(g, form)
                    l, u = (0, 0) if g.ended else (h[0], h[1])
                    okl = lower <= known + (0 if form in ("nfc", "nfkc") else l) or lower == 0
                    oku = upper is None or (u is not None and upper >= known + maxexp * u) or (g.ended and upper >= known)
                    if okl and oku:
                        ndis += 1
                        continue
                    if l > 1000:
                        # more characters than a text can have: a bound beyond it is wrong
                        if okl:
                            continue
                    key = ("low" if not okl else "up")
                    if key in viols and viols[key][4] is not None or ntext > 60000:
                        continue
                    w = witness.concretise(cl, s, None, "any")
                    if w is None:
                        continue
                    done = sum(1 for e in witness.events(s) if e[0] == "out")
                    hi = u if u is not None else l + 60
                    fut = [[]] if g.ended else futures(min(l, 200), max(min(hi, 200), min(l, 200)))
                    bad = None
                    for f in fut:
                        ntext += 1
                        rest = len(witness.reference(cl, w["chars"] + f)) - done
                        if lower > rest + (l - min(l, 200)) or (upper is not None and upper < rest):
                            bad = (f, rest)
                            break
                    if bad is not None:
                        f, rest = bad
                        viols[key] = ("C17", "hint:%s:%s" % (form, key),
                                      "%s: size hint (%d, %s) with %d characters still to come (source hint %r)" % (
                                          form, lower, upper, rest, h), ("size_hint", 0, 0),
                                      {"text": "%s, after %d yielded characters, then %s" % (
                                          w["text"], done, witness.us(f)), "chars": w["chars"] + f})
                    else:
                        ndis += 1
        r = streams.summary(m0, c, "%s: size hints in %d states" % (form, len(every)))
        r["undecided"].update(und)
        r["viols"] = list(viols.values()) + [
            (v.prop, v.key, v.msg, v.site, v.witness) for cl in {id(x): x for x, _ in every}.values()
            for v in cl.viols.values()]
        r["covered"] = sorted(set(r["covered"]) | covered)
        r["outputs"] = nob
        r["wall"] = round(time.time() - t0, 2)
        return r
    return t


def c17(ctx):
    ctx.level = "other"
    streams.stream_trust(ctx)
    P = build.load(["chars", "forms", "hints"])
    ctx.rule = ("size_hint evaluated on every abstract state of the stream analyses for a family of source hints; "
                "discharged when the lower bound is at most what is certainly still to come and the upper bound at least "
                "what the longest expansion can still produce; otherwise an alarm needs a text, found through the "
                "reference algorithms, whose remaining length contradicts the hint.")
    d = ctx.thorough
    K = {"nfd": 3 if d else 2, "nfkd": 2 if d else 1, "nfc": 4 if d else 3, "nfkc": 4 if d else 3, "cjk": 4, "ss": 40}
    ts = [hint_task(P, f, K[f], 150) for f in FORMS]
    streams.run_all(ctx, P, ts, ("C17", "C14", "C15"))


# ------------------------------------------------------------------ clone and display
OPTIONS = {"width": (None, 1, 3, 40), "precision": (None, 0, 1, 40), "alternate": (0, 1), "sign_plus": (0, 1),
           "sign_minus": (0, 1), "sign_aware_zero_pad": (0, 1), "fill": (0x20,), "align": (None,)}


def ok_of(v):
    if v.v != 0:
        raise Unsupported("unchecked conversion of bytes that are no text")
    return v.f[0]


def formatter(P, m, one):
    """the formatter's interface: every way to write is a sequence of characters given to `one`, after which the writer
    may fail; the formatting options are arbitrary"""
    OK, ERR = Agg(0, (UNIT,)), Agg(1, (Agg(0, ()),))

    def write(m, toks):
        for t in toks:
            one(m, t)
        if toks and m.choose(2):
            m.st.orc = dict(m.st.orc)
            m.st.orc["werr"] = 1
            return ERR
        return OK

    def option(m, n):
        k = ("fopt", n)
        if k not in m.st.orc:
            v = OPTIONS[n][m.choose(len(OPTIONS[n]))]
            m.st.orc = dict(m.st.orc)
            m.st.orc[k] = v
        return m.st.orc[k]

    def text(m, p):
        if type(p) is Ptr and p.path and p.path[-1] == 0 and type(p.len) is int:
            try:
                v = m.load(p.loc, p.path[:-1])
            except Unsupported:
                v = None
            if type(v) is Seq and v.kind == "string" and len(v.f) == p.len:
                return v.f
        try:
            b = [m.load(p.loc, p.path[:-1] + (p.path[-1] + i,)) for i in range(p.len)]
            return tuple(ord(x) for x in bytes(b).decode())
        except (TypeError, ValueError, AttributeError):
            raise Unsupported("writing this string")

    def as_bytes(m, fn, a, *r):
        f = text(m, a[0])
        if not all(type(x) is int for x in f):
            raise Unsupported("the bytes of an unknown character")
        b = "".join(map(chr, f)).encode()
        return Ptr(m.alloc(Seq("vec", tuple(b), None)), (0,), len(b))

    def from_utf8(m, fn, a, *r):
        p = a[0]
        b = [m.load(p.loc, p.path[:-1] + (p.path[-1] + i,)) for i in range(p.len)]
        if not all(type(x) is int for x in b):
            raise Unsupported("unknown bytes as text")
        try:
            f = tuple(map(ord, bytes(b).decode()))
        except UnicodeDecodeError:
            return Agg(1, (Opaque("utf8 error"),))
        return Agg(0, (Ptr(m.alloc(Seq("string", f, None)), (0,), len(f)),))

    def pad(m, toks):
        w, p = option(m, "width"), option(m, "precision")
        if p is not None:
            toks = toks[:p]
        if w is not None and len(toks) < w:
            toks = toks + (0x20,) * (w - len(toks))
        return write(m, toks)

    def tokens(m, v, p):
        if "char" in v:
            x = m.load(p.loc, p.path)
            return (x,)
        if v in ("str", "&str"):
            return text(m, p if v == "str" else m.load(p.loc, p.path))
        if "String" in v:
            return m.load(p.loc, p.path).f
        raise Unsupported("formatting " + v)

    def on(f):
        def h(m, fn, a, *r):
            if getattr(m.client, "phase", "display") != "display":
                raise Unsupported("formatting")
            m.mark()
            return f(m, fn, a)
        return h

    def optget(n):
        def f(m, fn, a):
            v = option(m, n)
            return v if n not in ("width", "precision", "align") else NONE if v is None else some(v)
        return f

    def write_fmt(m, fn, a):
        t, args = a[1].f
        i = k = 0
        while True:
            b = m.load(t.loc, t.path + (i,))
            i += 1
            if b == 0:
                return OK
            if b < 0x80:
                bs = bytes(m.load(t.loc, t.path + (i + j,)) for j in range(b))
                i += b
                r = write(m, tuple(ord(x) for x in bs.decode()))
            elif b == 0xC0:
                x = m.load(args.loc, args.path + (k,))
                k += 1
                r = write(m, tokens(m, x.f[0].tag[1], x.f[1]))
            else:
                raise Unsupported("format template")
            if r is ERR:
                return ERR

    def new_display(m, fn, a, *r):
        e = m.T[models.deref_ty(m, fn.sig["in"][0])]
        return Agg(0, (Opaque(("arg", e.get("s") or e.get("name") or e.get("def") or e["k"])), a[0]))
    for f in P.fns:
        d, H = f.deff, m.handlers
        if "Formatter" in d and d.endswith("Write>::write_char"):
            H[f.id] = on(lambda m, fn, a: write(m, (a[1],)))
        elif "Formatter" in d and d.endswith("::write_str"):
            H[f.id] = on(lambda m, fn, a: write(m, text(m, a[1])))
        elif "Formatter" in d and d.endswith("::pad"):
            H[f.id] = on(lambda m, fn, a: pad(m, text(m, a[1])))
        elif "Formatter" in d and d.endswith("::write_fmt"):
            H[f.id] = on(write_fmt)
        elif "Formatter" in d and d.split("::")[-1] in OPTIONS:
            H[f.id] = on(optget(d.split("::")[-1]))
        elif d == "<char as core::fmt::Display>::fmt":
            H[f.id] = on(lambda m, fn, a: pad(m, (m.load(a[0].loc, a[0].path),)))
        elif d == "<str as core::fmt::Display>::fmt":
            H[f.id] = on(lambda m, fn, a: pad(m, text(m, a[0])))
        elif d.startswith("core::fmt::rt::Argument") and d.endswith("::new_display"):
            H[f.id] = new_display
        elif d.startswith("core::fmt::Arguments") and d.endswith("::new"):
            H[f.id] = lambda m, fn, a, *r: Agg(0, (a[0], a[1]))
        elif d.endswith("::<impl char>::encode_utf8"):
            H[f.id] = lambda m, fn, a, *r: Ptr(m.alloc(Seq("string", (a[0],), None)), (0,), 1)
        elif d.endswith("::<impl str>::as_bytes"):
            H[f.id] = as_bytes
        elif d in ("core::str::from_utf8", "core::str::converts::from_utf8", "core::str::from_utf8_unchecked",
                   "core::str::converts::from_utf8_unchecked"):
            H[f.id] = from_utf8 if "unchecked" not in d else (lambda m, fn, a, *r: ok_of(from_utf8(m, fn, a, *r)))


def options(st):
    o = {"formatter %s" % k[1]: v for k, v in st.orc.items() if type(k) is tuple and k[0] == "fopt" and v}
    return o


def display_setup(c, m, P):
    def one(m, x):
        if m.st.orc.get("werr"):
            c.viol(m, "C20", "write-after-error:%s" % c.form, "%s: display keeps writing after a writer error" % c.form)
            raise PathEnd("pruned")
        c.output(m, c.canon_token(m, x))

    def phase(m, v):
        g = m.st.ghost
        if c.phase == "constructor":
            raise Unsupported("constructor")
        err = m.st.orc.get("werr")
        if v.v not in (0, 1):
            raise Unsupported("result of display")
        if err and v.v == 0:
            c.viol(m, "C20", "error-lost:%s" % c.form, "%s: display reports success after a writer error" % c.form)
        elif not err and v.v == 1:
            c.viol(m, "C20", "error-invented:%s" % c.form, "%s: display fails although the writer did not" % c.form)
        elif not err and (g.exp or not g.ended):
            c.viol(m, "C20", "lost:%s" % c.form, "%s: display stops before the end of the text" % c.form)
        if m.st.heap[V] is not m.st.orc["v0"] and m.st.heap[V] != m.st.orc["v0"]:
            c.viol(m, "C20", "disturbed:%s" % c.form, "%s: display changes the iterator" % c.form)
        raise PathEnd("pruned")
    formatter(P, m, one)
    c.on_phase = phase
    c.main_prop = lambda: "C20"


def display_full(P, c, fmt, states, tot, limit_s):
    """display interpreted together with the whole pipeline behind it"""
    c.phase = "display"
    c.collect = None
    m = c.machine()
    display_setup(c, m, P)
    for st in states:
        s = prepare(st)
        if s.ghost.done:
            s.ghost = s.ghost._replace(done=0)
        s.orc = dict(s.orc)
        s.orc["v0"] = s.heap[V]
        s.heap[HEAP + 1] = Opaque("formatter")
        m.st = s
        m.push(fmt, [Ptr(V, ()), Ptr(HEAP + 1, ())], None, None)
        m.start(s)
    m.explore(limit_s)
    tot["steps"] += m.nsteps
    tot["paths"] += m.npaths
    tot["covered"] = sorted(set(tot["covered"]) | m.covered)
    for k, x in m.undecided.items():
        tot["undecided"]["display: " + k] = tot["undecided"].get("display: " + k, 0) + x


def canon_eq(m, st, a, b):
    """equal up to the addresses of owned buffers"""
    keep = m.st
    m.st = st
    try:
        r = []
        for x in (a, b):
            C = Canon(m)
            C.tok = lambda s: s
            k = C.val(x)
            r.append((k, C.heap(), set(C.locs)))
        if r[0][:2] != r[1][:2]:
            return False
        if r[0][2] & r[1][2]:
            raise Unsupported("a clone shares memory with the original")
        return True
    finally:
        m.st = keep


class It(Opaque):
    """an abstract iterator at a position"""
    __slots__ = ()

    def __eq__(self, o):
        return type(o) is It and o.tag == self.tag

    def __hash__(self):
        return hash(("it", self.tag))


class ItCanon(Canon):
    def __init__(self, m, base):
        super().__init__(m)
        self.base = base

    def val(self, v):
        if type(v) is It:
            return ("it", v.tag - self.base if v.tag >= 0 else "end")
        return super().val(v)


class Long:
    """a long text of plain starters, without storing it"""
    __slots__ = ("n",)

    def __init__(self, n=0):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return 0x62 + (i * 7 + i // 3) % 20

    def text(self):
        return [self[i] for i in range(self.n)]


class CutDisplay(Client):
    """display of an abstract iterator: clone copies it, next yields fresh characters or the end"""

    def __init__(self, P, form, ends=()):
        super().__init__()
        self.P, self.form = P, form
        self.ends = frozenset(ends)     # not empty: long texts, of these lengths only
        self.longest = max(ends, default=0)
        S = sets()
        R = S.R
        if form in ("nfd", "nfkd"):
            bad = is_or(is_from(set(R.canon) | (set(R.compat) if form == "nfkd" else set())), ((0xAC00, 0xD7A3),))
        elif form == "cjk":
            bad = is_from(R.cjk)
        else:
            bad = is_from(R._qc()[form][0])
        self.dom = is_sub(CHARS, bad)
        self.seen = set()
        self.found = []
        self.outputs = 0
        self.nstates = 0
        self.bounded = 0

    def machine(self):
        P, c = self.P, self
        m = Machine(P, self)
        H = m.handlers
        sf = SUF[self.form]
        nxt = P.anchor_callee("clonefmt::anchor_next_" + sf)
        cl = P.anchor_callee("clonefmt::root_clone_" + sf)
        ERR = Agg(1, (Agg(0, ()),))

        def h_next(m, fn, a, *r):
            p = a[0]
            v = m.load(p.loc, p.path)
            if type(v) is not It:
                raise Unsupported("next of something else than the iterator")
            if p.loc == V:
                raise Unsupported("the displayed iterator itself is advanced")
            if v.tag < 0:
                return NONE
            c.memo(m)
            m.mark()
            toks, written, end = m.st.ghost
            if v.tag < len(toks):
                m.store(p.loc, p.path, It(v.tag + 1))
                return some(toks[v.tag])
            if end:
                m.store(p.loc, p.path, It(-1))
                return NONE
            if len(toks) - written > 24 and not c.ends:
                c.bounded = 1           # collected before it is written: explored up to this length
                raise PathEnd("pruned")
            m.st.steps = 0
            k = m.choose(2) if not c.ends or len(toks) in c.ends and len(toks) < c.longest else int(len(toks) < c.longest)
            if k == 0:
                m.st.ghost = (toks, written, 1)
                m.store(p.loc, p.path, It(-1))
                return NONE
            if c.ends:
                m.st.ghost = (Long(len(toks) + 1), written, 0)
                m.store(p.loc, p.path, It(v.tag + 1))
                return some(toks[len(toks)])
            t = m.st.nsym
            m.st.nsym += 1
            m.st.dom = m.st.dom.with_(t, c.dom)
            m.st.ghost = (toks + (sym(t),), written, 0)
            m.store(p.loc, p.path, It(v.tag + 1))
            return some(sym(t))

        def h_clone(m, fn, a, *r):
            v = m.load(a[0].loc, a[0].path)
            if type(v) is not It:
                raise Unsupported("clone of something else than the iterator")
            return v

        def one(m, x):
            toks, written, end = m.st.ghost
            c.outputs += 1
            if m.st.orc.get("werr"):
                c.bad(m, "write-after-error", "display keeps writing after a writer error", x)
            if written >= len(toks) or (x != toks[written] if c.ends else x is not toks[written]):
                c.bad(m, "output", "display writes something else than the next character", x)
            m.st.ghost = (toks, written + 1, end)
        H[nxt.id] = h_next
        H[cl.id] = h_clone
        formatter(P, m, one)
        return m

    def memo(self, m):
        if m.st.queue or m.sync or self.ends:
            return
        toks, written, end = m.st.ghost
        C = ItCanon(m, written)
        fr = []
        for f in m.st.frames:
            t = f.fn.blocks[f.bb][1]
            live = set(addr_taken(self.P, f.fn))
            if t[0] == "call" and t[4] is not None:
                live |= self.P.liveness(f.fn)[t[4]]
                if len(t[3]) == 1:
                    live.discard(t[3][0])
                else:
                    live.add(t[3][0])
            fr.append((f.fn.id, f.bb, tuple((i, C.val(f.locals[i])) for i in sorted(live))))
        keep = m.st.heap[V]
        m.st.heap[V] = It(written) if keep == It(0) else keep
        hp = C.heap((V,))
        m.st.heap[V] = keep
        k = (tuple(fr), hp, len(toks) - written, end, m.st.orc.get("werr"),
             tuple(sorted((x[1], v) for x, v in m.st.orc.items() if type(x) is tuple and x[0] == "fopt")))
        if k in self.seen:
            raise PathEnd("merged")
        self.seen.add(k)
        self.nstates += 1
        if len(toks) > 24:
            self.bounded = 1            # what is read is kept before it is written: explored up to this length
            raise PathEnd("pruned")

    def bad(self, m, key, msg, extra=None):
        """alarm only with a text that normalizes to itself"""
        toks, written, end = m.st.ghost
        R = sets().R
        d = m.st.dom.d
        if self.ends:
            t = toks.text() + ([0x62] if key == "lost" and not end and written == len(toks) else [])
            w = [0x62] * 3 + t[-3:] if len(t) > 6 else t
            if outputs(R, self.form, w) == w:       # plain starters: so is every text of them
                self.found.append(("C20", "%s:%s" % (key, self.form), "%s: %s" % (self.form, msg), m.site(),
                                   dict({"text": "%d characters: %s..." % (len(t), witness.us(t[:6])), "chars": t},
                                        **options(m.st))))
            raise PathEnd("pruned")
        pools = [[x for x in (0x62, 0x63, 0x78) if is_has(d[t.args[0]], x)] + list(itertools.islice(is_points(d[t.args[0]]), 4))
                 for t in toks]
        if key == "lost" and not end and written == len(toks):
            pools.append([0x62])            # not asked for: there may be more
        text = None
        for w in itertools.islice(itertools.product(*pools), 2000):
            if key == "output" and extra is not None:
                try:
                    x = extra if type(extra) is int else ev(extra, {t.args[0]: q for t, q in zip(toks, w)})
                except Exception:
                    continue
                if written < len(w) and x == w[written]:
                    continue
            if outputs(R, self.form, list(w)) == list(w):
                text = list(w)
                break
        if text is not None:
            self.found.append(("C20", "%s:%s" % (key, self.form), "%s: %s" % (self.form, msg), m.site(),
                               dict({"text": witness.us(text) or "(empty)", "chars": text}, **options(m.st))))
        raise PathEnd("pruned")

    def on_return(self, m, v):
        toks, written, end = m.st.ghost
        err = m.st.orc.get("werr")
        if type(v) is not Agg or v.v not in (0, 1):
            raise Unsupported("result of display")
        if err and v.v == 0:
            self.bad(m, "error-lost", "display reports success after a writer error")
        if not err and v.v == 1:
            self.bad(m, "error-invented", "display fails although the writer did not")
        if not err and (not end or written < len(toks)):
            self.bad(m, "lost", "display stops before the end of the text")
        if m.st.heap[V] != It(0):
            self.bad(m, "disturbed", "display changes the iterator")
        raise PathEnd("pruned")

    def on_end(self, m, e):
        m.undecided["%s in display: %s" % (e.kind, e.msg)] = 1


def display_lengths(P, form):
    """lengths around the constants of display's own code"""
    cs = [v for v in streams.int_constants(P, ["clonefmt::root_fmt_" + SUF[form]]) if 20 <= v <= 5000]
    ns = {n for v in cs[-12:] for n in (v - 1, v, v + 1)} | {31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300}
    return [sorted(ns), [65536, 65537]]


def cut_display_task(P, form, ends=()):
    def t():
        t0 = time.time()
        c = CutDisplay(P, form, ends)
        m = c.machine()
        s = State()
        s.ghost = (Long() if ends else (), 0, 0)
        s.heap[V] = It(0)
        s.heap[HEAP + 1] = Opaque("formatter")
        m.st = s
        m.push(P.root("clonefmt::root_fmt_" + SUF[form]), [Ptr(V, ()), Ptr(HEAP + 1, ())], None, None)
        m.start(s)
        m.explore(240 if ends else 60)
        return {"what": "%s: display over an abstract iterator%s" % (
                    form, " (texts of %s characters)" % ", ".join(map(str, sorted(ends))) if ends else
                    " (texts of at most 24 characters)" if c.bounded else ""), "steps": m.nsteps, "paths": m.npaths,
                "states": c.nstates, "pulls": 0, "outputs": c.outputs, "maxpend": 0, "covered": sorted(m.covered),
                "undecided": dict(m.undecided), "outcomes": [o[:3] for o in m.outcomes], "asserts": 0,
                "obl": dict(m.obligations),
                "viols": c.found, "wall": round(time.time() - t0, 2)}
    return t


def show_task(P, form, K, limit_s, cut=True, full_display=False):
    def t():
        t0 = time.time()
        main, extra = collect(P, form, K, limit_s, cut=cut)
        tot = None
        n = same = 0
        for m0, c, states in [main] + extra:
            r = streams.summary(m0, c, "states")
            r["viols"] = []
            r["outputs"] = 0
            tot = r if tot is None else streams.join(tot, r)
            clone = P.root("clonefmt::root_clone_" + SUF[form])
            fmt = P.root("clonefmt::root_fmt_" + SUF[form])
            c.viols = {}
            ndiff = 0
            diff = []
            # clone: structurally equal, or explored as an iterator of its own
            c.phase = "clone"
            for st in states:
                if time.time() - t0 > limit_s:
                    tot["undecided"]["time limit"] = 1
                    break
                n += 1
                m = c.machine()
                res = []

                def phase(m, v, res=res):
                    res.append((v, m.st))
                    raise PathEnd("pruned")
                c.on_phase = phase
                s = prepare(st)
                v0 = s.heap[V]
                m.st = s
                m.push(clone, [Ptr(V, ())], None, None)
                m.start(s)
                m.explore(20)
                tot["steps"] += m.nsteps
                for k, x in m.undecided.items():
                    tot["undecided"]["clone: " + k] = tot["undecided"].get("clone: " + k, 0) + x
                tot["covered"] = sorted(set(tot["covered"]) | m.covered)
                for v, s2 in res:
                    tot["outputs"] += 1
                    if s2.heap[V] != v0:
                        tot["undecided"]["the original changed while cloned"] = 1
                    if v == v0 or canon_eq(m, s2, v, v0):
                        same += 1
                        continue
                    s3 = prepare(s2)
                    s3.heap[V] = v
                    diff.append(s3)
            if diff:
                # explore the differing clones with the remaining-text specification
                c.phase = "next"
                c.main_prop = lambda: "C20"
                c.collect = None
                m = c.machine()
                for s in diff[:400]:
                    m.st = s
                    m.push(c.next_fn, [Ptr(V, ())], None, None)
                    m.start(s)
                m.explore(60)
                for k, x in m.undecided.items():
                    tot["undecided"]["differing clone: " + k] = tot["undecided"].get("differing clone: " + k, 0) + x
            if full_display:
                display_full(P, c, fmt, states, tot, max(20, limit_s - (time.time() - t0)))
            for v in c.viols.values():
                tot["viols"].append((v.prop if v.prop != iters.STREAM_PROP[form] else "C20", v.key, v.msg, v.site, v.witness))
        tot["what"] = "%s: clone and display in %d states (%d clones structurally equal)" % (
            form, n, same)
        tot["wall"] = round(time.time() - t0, 2)
        return tot
    return t


def c20(ctx):
    ctx.level = "other"
    streams.stream_trust(ctx)
    P = build.load(["chars", "forms", "clonefmt"])
    ctx.rule = ("On every abstract state of the stream analyses: the clone must be structurally equal to the original (or, "
                "explored as an iterator, yield the remaining text of the specification); Display, interpreted with an "
                "oracle writer that may fail at any character, must write exactly the remaining text, stop and report at "
                "the first failure, and leave the original value unchanged.")
    d = ctx.thorough
    K = {"nfd": 3 if d else 2, "nfkd": 2 if d else 1, "nfc": 4 if d else 3, "nfkc": 4 if d else 3, "cjk": 4}
    ts = [show_task(P, f, K[f], 200) for f in K]
    ts += [show_task(P, "nfc", 1, 200, cut=False)]
    cut = pool.run([cut_display_task(P, f) for f in K])
    for f, r in zip(K, cut):
        if not isinstance(r, pool.Crash) and (r["undecided"] or "at most" in r["what"]):
            ts += [cut_display_task(P, f, n) for n in display_lengths(P, f)]
        if isinstance(r, pool.Crash) or r["undecided"]:
            # not of the form "clone, then next": interpret display together with the pipeline
            ts.append(show_task(P, f, 1, 200, full_display=True))
            if not isinstance(r, pool.Crash):
                r["undecided"] = {}
        streams.merge(ctx, P, r, ("C20", "C14", "C15"))
    streams.run_all(ctx, P, ts, ("C20", "C14", "C15"))


# ------------------------------------------------------------------ receivers
class RecvClient(Client):
    def __init__(self):
        super().__init__()
        self.results = []

    def on_return(self, m, v):
        self.results.append((v, m.st.dom, m.st.orc.get("conds", ())))
        raise PathEnd("pruned")

    def text(self, m, a):
        """the operations that lead from the receiver to this string, or None"""
        if type(a) is Ptr and a.loc == HEAP and a.path == (0,) and a.len is sym(1):
            return ()
        if type(a) is Ptr and a.path == (0,):
            v = m.st.heap.get(a.loc)
            if type(v) is Opaque and type(v.tag) is tuple and v.tag[0] == "part":
                return v.tag[1]
        return None

    def str_chars(self, m, a):
        t = self.text(m, a)
        if t is None:
            raise Unsupported("characters of a derived string")
        return Opaque(("part", t)) if t else Opaque("source")

    def str_op(self, m, name, fn, a):
        t = self.text(m, a[0])
        if t is None:
            if type(a[0]) is Ptr and a[0].loc != HEAP:
                return DECLINED
            raise Unsupported("str::" + name)
        if name in ("len", "is_empty"):
            if t:
                raise Unsupported("length of a derived string")
            return a[0].len if name == "len" else mk("eq", a[0].len, 0, 64)
        arg = self.pattern(m, a[1]) if len(a) > 1 else None
        if len(a) > 1 and arg is None:
            raise Unsupported("pattern of str::" + name)
        if name in ("is_ascii", "starts_with", "ends_with", "contains", "eq_ignore_ascii_case"):
            k = m.choose(2)
            self.cond(m, t + ((name, arg),), k)
            return k
        if name.startswith("strip"):
            k = m.choose(2)
            self.cond(m, t + ((name, arg),), k)
            if not k:
                return NONE
        n = m.fresh_sym(((0, (1 << 63) - 1),)) if hasattr(m, "fresh_sym") else sym(1)
        p = Ptr(m.alloc(Opaque(("part", t + ((name, arg),)))), (0,), n)
        return some(p) if name.startswith("strip") else p

    def cond(self, m, ops, k):
        m.st.orc = dict(m.st.orc)
        m.st.orc["conds"] = m.st.orc.get("conds", ()) + ((ops, k),)

    def pattern(self, m, x):
        if type(x) is int:
            return chr(x)
        if type(x) is Ptr and type(x.len) is int:
            try:
                b = [m.load(x.loc, x.path[:-1] + (x.path[-1] + i,)) for i in range(x.len)]
                return bytes(b).decode()
            except (TypeError, UnicodeDecodeError):
                return None
        return None


def str_eval(ops, t):
    """the value of a chain of string operations on a text"""
    for name, arg in ops:
        if t is None:
            return None
        if name == "is_ascii":
            t = t.isascii()
        elif name == "starts_with":
            t = t.startswith(arg)
        elif name == "ends_with":
            t = t.endswith(arg)
        elif name == "contains":
            t = arg in t
        elif name == "strip_prefix":
            t = t[len(arg):] if t.startswith(arg) else None
        elif name == "strip_suffix":
            t = (t[:-len(arg)] if arg else t) if t.endswith(arg) else None
        elif name in ("trim_start_matches", "trim_left_matches", "trim_end_matches", "trim_right_matches", "trim_matches"):
            if arg:
                while name[5:8] != "end" and name[5:10] != "right" and t.startswith(arg):
                    t = t[len(arg):]
                while name[5:10] != "start" and name[5:9] != "left" and t.endswith(arg):
                    t = t[:-len(arg)]
        elif name in ("trim", "trim_start", "trim_end", "trim_left", "trim_right"):
            w = " \t\n\u00a0\u3000"
            t = t.strip(w) if name == "trim" else t.lstrip(w) if name in ("trim_start", "trim_left") else t.rstrip(w)
        elif name == "trim_ascii":
            t = t.strip(" \t\n")
        elif name == "trim_ascii_start":
            t = t.lstrip(" \t\n")
        elif name == "trim_ascii_end":
            t = t.rstrip(" \t\n")
        else:
            return None
    return t


def text_where(conds, dom, ok):
    """a short text on which the path conditions hold and ok is true"""
    args = {a for ops, _ in conds for _, a in ops if a} | set()
    base = ["a", "\u0301", " ", "\u00c5", "\ufb01", "\uf900", "\u0301" * 31] + sorted(args)
    for n, k in ((0, 1), (1, 1), (2, 1), (3, 1), (1, 10), (2, 10), (1, 100), (2, 1000)):
        for p in itertools.product(base, repeat=n):
            t = "".join(p) * k
            if 1 in dom.d and not is_has(dom.d[1], len(t.encode())):
                continue
            if all(bool(str_eval(ops, t) is not None and str_eval(ops, t) is not False) == bool(k) for ops, k in conds) and ok(t):
                return t
    return None


def replace(v, a, b):
    """v with every occurrence of a replaced by b, and how many there were"""
    if v == a:
        return b, 1
    if type(v) is Agg:
        n = 0
        f = []
        for x in v.f:
            y, k = replace(x, a, b)
            f.append(y)
            n += k
        return (Agg(v.v, tuple(f)) if n else v), n
    return v, 0


def c18(ctx):
    ctx.level = "other"
    streams.stream_trust(ctx)
    P = build.load(["chars", "forms", "recv"])
    R = sets().R
    ctx.rule = ("The constructors are interpreted for every receiver (string, Chars, single character, option iterator, "
                "arbitrary iterator) and for the named constructor; with the source position abstracted, the resulting "
                "iterator values must be identical, and the source must be the receiver's own characters.")
    S = Opaque("source")
    CH = Agg(0, (Agg(0, (some(sym(0)),)),))

    def run(root, args, dom=None):
        c = RecvClient()
        m = Machine(P, c)
        st = State()
        st.dom = Dom(dom or {})
        m.st = st
        st.heap[HEAP] = Opaque("text")
        m.push(P.root(root), args, None, None)
        m.start(st)
        m.explore(60)
        ctx.merge_machine(m, root)
        for o in m.outcomes:
            ctx.violation("%s:%s" % (root, o[0]), "%s: %s %s" % (root, o[0], o[1]))
        return c.results
    base = {}
    for f in FORMS:
        r = run("recv::%s::root_src" % f, [S])
        if len(r) == 1 and replace(r[0][0], S, S)[1] == 1:
            base[f] = r[0][0]
        else:
            ctx.undec("%s: the constructor has %d outcomes" % (f, len(r)))
    for f in base:
        for recv, args, dom in (("ctor", [S], None), ("chars", [S], None), ("opt", [S], None),
                                ("str", [Ptr(HEAP, (0,), sym(1))], {1: ((0, (1 << 63) - 1),)}),
                                ("char", [sym(0)], {0: CHARS})):
            root = "recv::%s::root_%s" % (f, recv)
            for v, dm, conds in run(root, args, dom):
                want = base[f] if recv != "char" else replace(base[f], S, CH)[0]
                if v == want:
                    ctx.ob(1)
                    ctx.sample("%s on %s: %r" % (f, recv, v))
                    continue
                ctx.ob(1, False)
                compare(ctx, P, f, recv, v, dm, want, base, S, CH, conds)


def compare(ctx, P, f, recv, v, dm, want, base, S, CH, conds=()):
    R = sets().R
    if recv == "str":
        cand = find_source(v, base[f], S)
        if type(cand) is Opaque and type(cand.tag) is tuple and cand.tag[0] == "part":
            ops = cand.tag[1]

            def differ(t):
                u = str_eval(ops, t)
                return u is not None and outputs(R, f, [ord(x) for x in u]) != outputs(R, f, [ord(x) for x in t])
            t = text_where(tuple(conds) + tuple(((o,), 1) for o in ops if o[1] and not o[0].startswith("trim")) +
                           ((ops, 1),), dm, differ)
            if t is not None:
                ctx.violation("%s:str:part" % f, "%s on a string reads only a part of it (%s); text %s" % (
                    f, ", ".join(o[0] for o in ops), witness.us([ord(x) for x in t])), {"text": [ord(x) for x in t]})
            else:
                ctx.undec("%s on str: the characters of a derived string" % f)
            return
        if conds and text_where(conds, dm, lambda t: True) is None:
            ctx.undec("%s on str: a path whose conditions no tried text meets" % f)
            return
    for g in base:
        w = base[g] if recv != "char" else replace(base[g], S, CH)[0]
        if g != f and v == w:
            t = diff_text(R, f, g, recv == "char", dm, conds)
            if t is not None:
                ctx.violation("%s:%s:form" % (f, recv), "%s on a %s builds the %s iterator; text %s" % (
                    f, recv, g, witness.us(t)), {"text": t})
            elif recv != "char":
                ctx.undec("%s on %s: the %s iterator on some path" % (f, recv, g))
            return
    if recv == "char":
        # the source of the character receiver: an option iterator over something else
        D = dm.d[0]
        for hole in (Agg(0, (Agg(0, (NONE,)),)),):
            if v == replace(base[f], S, hole)[0]:
                c = D[0][0]
                ctx.violation("%s:char:empty" % f, "%s on the character U+%04X yields nothing" % (f, c), {"char": c})
                return
        cand = find_source(v, base[f], S)
        if cand is not None and type(cand) is Agg:
            t = cand
            while type(t) is Agg and t.f:
                t = t.f[0]
            if type(t) in (int, Term):
                for c in itertools.islice(is_points(D), 200000):
                    x = t if type(t) is int else ev(t, {0: c})
                    if x != c and outputs(R, f, [x]) != outputs(R, f, [c]):
                        ctx.violation("%s:char:value" % f, "%s on the character U+%04X uses U+%04X" % (f, c, x), {"char": c})
                        return
                ctx.undec("character receiver with another but equivalent source")
                return
    # other fields differ: explore the iterator from this initial value
    x, n = replace(v, S, Agg(0, (0,)))
    if recv == "char":
        x, n = replace(v, CH, Agg(0, (0,)))
    if n == 1:
        try:
            m, c = run_stream(P, f, K=2, init=x, limit_s=100)
        except Unsupported as e:
            ctx.undec("%s on %s: %s" % (f, recv, e))
            return
        for k, u in m.undecided.items():
            ctx.undec("%s on %s: %s" % (f, recv, k), u)
        for vv in c.viols.values():
            if vv.witness is not None and vv.prop == STREAM_PROP[f]:
                ok = recv != "char" or len(vv.witness["chars"]) == 1
                if ok:
                    ctx.violation("%s:%s:start" % (f, recv), "%s on a %s starts in a different state: %s; text %s" % (
                        f, recv, vv.msg, vv.witness["text"]), vv.witness)
        return
    ctx.undec("%s on %s: a differently built iterator" % (f, recv))


def outputs(R, f, t):
    return list(R.form(f, t) if f in ("nfd", "nfkd", "nfc", "nfkc") else
                [x for c in t for x in R.cjk1(c)] if f == "cjk" else R.stream_safe(t))


def diff_text(R, f, g, single, dm, conds=()):
    cs = [0xC5, 0xFB01, 0xF900, 0x212B, 0xAC00, 0x344, 0xA8, 0xBE]
    if not single:
        t = text_where(conds, dm, lambda t: outputs(R, f, [ord(x) for x in t]) != outputs(R, g, [ord(x) for x in t]))
        return t and [ord(x) for x in t]
    for c in cs + sorted(set(R.canon) | set(R.compat) | set(R.cjk)) + list(range(0xAC00, 0xAC20)):
        if is_has(dm.d[0], c) and outputs(R, f, [c]) != outputs(R, g, [c]):
            return [c]
    return None


def find_source(v, base, S):
    """the part of v at the position of the source in base, if v otherwise equals base"""
    if base == S:
        return v
    if type(base) is not Agg or type(v) is not Agg or base.v != v.v or len(base.f) != len(v.f):
        return None
    hit = None
    for x, y in zip(v.f, base.f):
        if x == y:
            continue
        r = find_source(x, y, S)
        if r is None or hit is not None:
            return None
        hit = r
    return hit
