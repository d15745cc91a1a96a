"""Stream analyses: the iterators of the crate run against an arbitrary source and compared with ghost specifications.

The source is an oracle: each pull returns the end or a fresh character symbol ranging over a class of characters (by
the starter/non-starter shape of its reference decomposition).  Combining classes are symbolic ranks constrained by a
total preorder; pairwise composition is an oracle consistent with the reference pairs over the symbols' value sets.
States are memoised up to renaming at source pulls and between calls."""
import time
from collections import namedtuple
from terms import *
from terms import _mk
from machine import *
from client import Client
import machine as MM
import refdata

# left: what the source promised about its length when it was asked: None (not asked), "u" (nothing), "i" (many), n (exactly n)
GD = namedtuple("GD", "exp pend floor ended done left")
GC = namedtuple("GC", "exp pend floor L P early last ended done left")
GF = namedtuple("GF", "exp n ended done left")          # cjk / stream-safe
G0D = GD((), (), None, 0, 0, None)
G0C = GC((), (), None, None, (), 0, None, 0, 0, None)
G0F = GF((), 0, 0, 0, None)
LEFTS = ("u", "i", 0, 1, 2, 3)
MANY = 1000000
ANY = ["any"]     # script step: any character at all

FORMS = {
    "nfd": ("d", "forms::root_new_nfd", "forms::root_next_d"),
    "nfkd": ("d", "forms::root_new_nfkd", "forms::root_next_d"),
    "nfc": ("c", "forms::root_new_nfc", "forms::root_next_c"),
    "nfkc": ("c", "forms::root_new_nfkc", "forms::root_next_c"),
    "cjk": ("cjk", "forms::root_new_cjk", "forms::root_next_cjk"),
    "ss": ("ss", "forms::root_new_ss", "forms::root_next_ss"),
}
STREAM_PROP = {"nfd": "C08", "nfkd": "C08", "nfc": "C09", "nfkc": "C09", "cjk": "C07", "ss": "C12"}
V = HEAP          # heap location of the iterator under analysis


# ------------------------------------------------------------------ reference views as value sets
class Sets:
    def __init__(self, R):
        self.R = R
        REFS["ccc"] = RefTable("ccc", R.ccc, 0, 254)
        self.N = R.nonstarter_set()
        self.S = is_sub(CHARS, self.N)
        self._rank = {}
        self._shapes = {}
        self._comp = {}
        self._pairs = None
        import scalar_pairs
        self.pairs = scalar_pairs.all_pairs(R)
        self.firsts = {}
        for (a, b), c in self.pairs.items():
            self.firsts.setdefault(a, []).append(b)
        self.first_set = is_from(self.firsts)
        self.second_set = is_from({b for _, b in self.pairs})
        self.by_ccc = {k: is_norm(v) for k, v in R.cccs.items()}

    def ranks(self, D):
        """set of reference combining classes over a value set"""
        k = id(D)
        r = self._rank.get(k)
        if r is not None and r[0] is D:
            return r[1]
        s = set()
        for c, x in self.by_ccc.items():
            if is_and(D, x):
                s.add(c)
        if is_sub(D, self.N):
            s.add(0)
        s = frozenset(s)
        self._rank[k] = (D, s)
        return s

    def shapes(self, form):
        """list of (shape, value set, identity?) where shape is a tuple of 0 (starter) / 1 (non-starter)"""
        r = self._shapes.get(form)
        if r is None:
            R = self.R
            one = R.nfd1 if form in ("nfd", "nfc") else R.nfkd1
            changed = set(R.canon) | (set(R.compat) if form in ("nfkd", "nfkc") else set()) | set(range(0xAC00, 0xD7A4))
            g = {}
            for c in changed:
                d = one(c)
                g.setdefault(tuple(int(R.ccc(x) != 0) for x in d), []).append(c)
            r = [((0,), is_sub(self.S, is_from(changed)), True), ((1,), is_sub(self.N, is_from(changed)), True)]
            for sh, cs in sorted(g.items()):
                r.append((sh, is_from(cs), False))
            self._shapes[form] = r
        return r

    def comp(self, Da, Db):
        """composable pairs inside Da x Db: (pairs, total product size) with restricted sets"""
        k = (id(Da), id(Db))
        r = self._comp.get(k)
        if r is not None and r[0] is Da and r[1] is Db:
            return r[2]
        ps = [(a, b, c) for (a, b), c in self.pairs.items() if is_has(Da, a) and is_has(Db, b)]
        x = (len(ps), is_size(Da) * is_size(Db), is_from({p[0] for p in ps}), is_from({p[1] for p in ps}),
             is_from({p[2] for p in ps}))
        self._comp[k] = (Da, Db, x)
        return x


_sets = None


def sets():
    global _sets
    if _sets is None:
        _sets = Sets(refdata.get())
    return _sets


# ------------------------------------------------------------------ order of ranks
def has_ref(t, memo={}):
    if type(t) is not Term:
        return False
    r = memo.get(t)
    if r is None:
        r = t.op == "ref" or any(has_ref(a, memo) for a in t.args if type(a) is Term)
        memo[t] = r
    return r


def only_ref(t):
    """token of a bare (value-preserving) rank term"""
    while type(t) is Term and t.op == "cast":
        if t.bits < 8:
            return None
        t = t.args[0]
    if type(t) is Term and t.op == "ref" and t.args[1] == "ccc":
        return t.args[0]
    return None


def consistent(S, order, d):
    prev = -1
    for cl in order:
        rs = None
        for t in cl:
            r = S.ranks(d[t])
            rs = r if rs is None else rs & r
        c = [x for x in rs if x > prev]
        if not c:
            return False
        prev = min(c)
    return True


def placements(S, order, t, d):
    """all consistent ways to place token t into the preorder"""
    out = []
    n = len(order)
    for i in range(n + 1):
        o = order[:i] + ((t,),) + order[i:]
        if consistent(S, o, d):
            out.append(o)
        if i < n:
            o = order[:i] + (order[i] + (t,),) + order[i + 1:]
            if consistent(S, o, d):
                out.append(o)
    return out


def pos(order, t):
    for i, cl in enumerate(order):
        if t in cl:
            return i
    return None


# ------------------------------------------------------------------ canonical keys
class Canon:
    def __init__(self, m):
        self.m = m
        self.st = m.st
        self.ren = {}
        self.locs = {}
        self.queue = []

    def tok(self, s):
        r = self.ren.get(s)
        if r is None:
            r = self.ren[s] = len(self.ren)
        return r

    def term(self, t):
        if t.op == "sym":
            return ("s", self.tok(t.args[0]))
        if t.op == "ref":
            return ("r", self.tok(t.args[0]), t.args[1])
        return (t.op, t.bits, t.sg) + tuple(self.term(a) if type(a) is Term else (a.key if type(a) is ConstArr else a)
                                            for a in t.args)

    def val(self, v):
        t = type(v)
        if t is int or v is None:
            return v
        if t is Agg:
            return (v.v,) + tuple([self.val(x) for x in v.f])
        if t is Term:
            return self.term(v)
        if t is Seq:
            return (v.kind, v.cap) + tuple([self.val(x) for x in v.f])
        if t is Ptr:
            loc = v.loc
            if loc is not None and loc >= HEAP:
                l = self.locs.get(loc)
                if l is None:
                    l = self.locs[loc] = len(self.locs)
                    self.queue.append(loc)
                loc = ("h", l)
            return ("p", loc, tuple([x if type(x) is not Term else self.term(x) for x in v.path]),
                    self.val(v.len) if v.len is not None else None)
        if t is Row:
            return ("row", v.arr.key, self.val(v.idx), v.path)
        if t is FnVal:
            return ("fn", v.inst)
        if t is MM.EnumTerm:
            return ("en", self.val(v.t))
        if t is Opaque:
            return ("op", v.tag)
        if t is tuple:
            return tuple([self.val(x) for x in v])
        if t is str:
            return v
        raise Unsupported("canonical form of %r" % (v,))

    def heap(self, roots=()):
        for l in roots:
            if l in self.st.heap and l not in self.locs:
                self.locs[l] = len(self.locs)
                self.queue.append(l)
        out = []
        while self.queue:
            l = self.queue.pop(0)
            out.append(self.val(self.st.heap.get(l)))
        return tuple(out)


def addr_taken(P, fn):
    r = P._consts.get(("addr", fn.id))
    if r is None:
        r = set()
        for st, t, line in fn.blocks:
            for s in st:
                if s[0] == "=" and s[2][0] == "ref" and "*" not in s[2][1][1:]:
                    r.add(s[2][1][0])
        P._consts[("addr", fn.id)] = r
    return r


# ------------------------------------------------------------------ the client
class Violation:
    def __init__(self, prop, key, msg, st, site, fatal_out=None):
        self.prop, self.key, self.msg, self.st, self.site, self.out = prop, key, msg, st, site, fatal_out
        self.witness = None

    @property
    def wtext(self):
        return self.witness.get("chars") if self.witness else None


class StreamClient(Client):
    def __init__(self, P, form, K=4, script=None, cut=True, limit_states=200000):
        super().__init__()
        self.P = P
        self.form = form
        self.kind = FORMS[form][0]
        self.S = sets()
        self.R = self.S.R
        self.K = K
        self.script = script
        self.cut = cut
        self.seen = set()
        self.nstates = 0
        self.npulls = 0
        self.viols = {}
        self.spurious = {}
        self.phase = "next"
        self.limit_states = limit_states
        self.collect = None
        self.next_fn = P.root(FORMS[form][2]) if FORMS[form][2] in P.roots else None
        self.inits = {}
        self.fusesrc = False
        self.h_extra = None
        self.outputs = 0
        self.maxpend = 0
        self.revive = False        # the source yields again after its end
        self.held_stop = 1 << 60
        self.held = None           # when a list: how much the iterator holds after each call, in order
        self.own_source = None     # hook for receivers with their own source

    # ---- machine setup
    def machine(self):
        P = self.P
        m = Machine(P, self)
        if self.script is not None:
            m.max_steps = 60000000
        H = m.handlers
        for f in P.fns:
            if f.deff == "harness::src_next":
                H[f.id] = self.h_pull
            elif f.deff == "harness::src_clone":
                H[f.id] = lambda m, fn, a, *r: m.load(a[0].loc, a[0].path)
            elif f.deff == "harness::src_size_hint":
                H[f.id] = self.h_hint
        H[P.anchor_callee("anchors::anchor_ccc").id] = self.h_ccc
        H[P.anchor_callee("anchors::anchor_compose").id] = self.h_compose
        for n, fk in (("canonical", "nfd"), ("compatible", "nfkd"), ("cjk", "cjk")):
            d = P.anchor_callee("chars::root_decompose_" + n).deff
            for f in P.fns:
                if f.deff == d:
                    H[f.id] = self.h_decompose(fk)
        if self.kind == "c" and self.cut:
            H[P.anchor_callee("anchors::anchor_nfd_next").id] = self.h_dnext
        if self.kind == "ss":
            m.summarise = lambda fn: fn.crate == "unicode_normalization" and summarisable(P, fn)
        return m

    # ---- violations
    def viol(self, m, prop, key, msg, out=None):
        k = (prop, key)
        if k in self.viols:
            v = self.viols[k]
            if v.witness is not None or v.tries > 40:
                return
        else:
            v = self.viols[k] = Violation(prop, key, msg, None, None)
            v.tries = 0
        v.tries += 1
        v.st = m.st.copy()
        v.site = m.site()
        v.msg = msg
        import witness
        kind = key.split(":")[0]
        mode = {"output": "out", "extra": "out", "output-after-end": "out", "early": "early", "lost": "lost"}.get(kind, "any")
        w = witness.concretise(self, m.st, out, mode)
        if w is not None:
            v.witness = w

    # ---- values
    def same(self, m, x, p):
        if x is p:
            return True
        if type(x) is int and type(p) is int:
            return x == p
        if type(p) is not Term or p.op != "sym":
            return False
        st = m.st
        i = p.args[0]
        link = st.orc.get(("link", i))
        if link is not None:
            c, idx, fk = link
            one = self.one(fk)
            if type(x) is int:
                return all(one(q)[idx] == x for q in is_points(st.dom.d[c]))
            if type(x) is Term and x.syms == {c}:
                D = st.dom.d[c]
                _, f = code(x)
                return all(f(q) == one(q)[idx] for q in is_points(D))
        elif type(x) is Term and x.syms == {i}:
            D = st.dom.d[i]
            if is_size(D) > 300000:
                return False
            _, f = code(x)
            return all(f(q) == q for q in is_points(D))
        elif type(x) is int:
            return st.dom.d[i] == ((x, x),)
        return False

    def one(self, fk):
        return {"nfd": self.R.nfd1, "nfkd": self.R.nfkd1, "cjk": self.R.cjk1}[fk]

    def canon_token(self, m, x):
        """the piece token an unresolved term over an input token stands for"""
        if type(x) is Term and x.op != "sym" and len(x.syms) == 1:
            (c,) = x.syms
            pcs = m.st.orc.get(("pcs", c))
            if pcs:
                for p in pcs:
                    if self.same(m, x, p):
                        return p
        return x

    # ---- handlers
    def h_ccc(self, m, fn, a, dest, target, sync):
        x = self.canon_token(m, a[0])
        return self.rank(m, x)

    def rank(self, m, x):
        if type(x) is int:
            return self.R.ccc(x)
        if x.op == "sym":
            i = x.args[0]
            D = m.st.dom.d[i]
            rs = self.S.ranks(D)
            if len(rs) == 1 and (self.script is not None or 0 in rs):
                return next(iter(rs))
            if 0 in rs:
                A, B = is_and(D, self.S.S), is_and(D, self.S.N)
                k = m.choose(2)
                m.setdom(m.st.dom.with_(i, B if k else A))
                if not k:
                    return 0
                rs = self.S.ranks(B)
                if len(rs) == 1 and self.script is not None:
                    return next(iter(rs))
            return ref("ccc", i)
        if len(x.syms) == 1:
            (c,) = x.syms
            D = m.st.dom.d[c]
            if is_size(D) <= 40000:
                _, f = code(x)
                g = {}
                for q in is_points(D):
                    g.setdefault(self.R.ccc(f(q)), []).append(q)
                it = sorted(g.items())
                k = m.choose(len(it))
                if len(it) > 1:
                    m.setdom(m.st.dom.with_(c, is_from(it[k][1])))
                return it[k][0]
        raise Unsupported("combining class of %r" % (x,))

    def h_compose(self, m, fn, a, dest, target, sync):
        x, y = self.canon_token(m, a[0]), self.canon_token(m, a[1])
        r = self.compose(m, x, y)
        return NONE if r is None else some(r)

    def domof(self, m, x):
        if type(x) is int:
            return ((x, x),)
        if x.op == "sym":
            return m.st.dom.d[x.args[0]]
        raise Unsupported("composition of %r" % (x,))

    def compose(self, m, x, y):
        st = m.st
        if type(x) is int and type(y) is int:
            return self.R.compose(x, y)
        k = ("comp", x, y)
        if k in st.orc:
            return st.orc[k]
        Dx, Dy = self.domof(m, x), self.domof(m, y)
        n, tot, A, B, C = self.S.comp(Dx, Dy)
        opts = []
        if n:
            opts.append(1)
        if n < tot:
            opts.append(0)
        if not n:
            return None
        if self.script is not None and n and n < tot:
            opts = [0]
        ch = opts[m.choose(len(opts))]
        if m.saved is None:
            m.mark()
        st.orc = dict(st.orc)
        if not ch:
            st.orc[k] = None
            return None
        d = dict(st.dom.d)
        if type(x) is Term:
            d[x.args[0]] = A
        if type(y) is Term:
            d[y.args[0]] = B
        t = st.nsym
        st.nsym += 1
        d[t] = C
        st.dom = Dom(d, st.dom.pts, st.dom.excl)
        st.orc[k] = sym(t)
        st.trace = (st.trace, ("comp", x, y, t))
        if not consistent(self.S, st.order, d):
            raise PathEnd("pruned")
        return sym(t)

    def fresh(self, m, D):
        st = m.st
        t = st.nsym
        st.nsym += 1
        d = dict(st.dom.d)
        d[t] = D
        st.dom = Dom(d, st.dom.pts, st.dom.excl)
        return t

    def place(self, m, t):
        """put a new token's rank into the order (forks)"""
        st = m.st
        if pos(st.order, t) is not None:
            return
        ps = placements(self.S, st.order, t, st.dom.d)
        if not ps:
            raise PathEnd("pruned")
        st.order = ps[m.choose(len(ps))]
        st.trace = (st.trace, ("ord", st.order))

    def cmp_rank(self, m, a, b):
        """-1, 0, 1; symbolic ranks of piece tokens a, b (terms)"""
        ra, rb = self.rank(m, a), self.rank(m, b)
        if type(ra) is int and type(rb) is int:
            return (ra > rb) - (ra < rb)
        ta, tb = only_ref(ra), only_ref(rb)
        if ta is not None and tb is not None:
            self.place(m, ta)
            self.place(m, tb)
            pa, pb = pos(m.st.order, ta), pos(m.st.order, tb)
            return (pa > pb) - (pa < pb)
        for x, y, s in ((ra, rb, 1), (rb, ra, -1)):
            if type(y) is int:
                if m.branch(mk("lt", x, y, 8)):
                    return -s
                return 0 if m.branch(mk("eq", x, y, 8)) else s
        raise Unsupported("rank comparison")

    def stable_sort(self, m, toks):
        out = []
        for t in toks:
            lo, hi = 0, len(out)
            while lo < hi:
                mid = (lo + hi) // 2
                if self.cmp_rank(m, out[mid], t) <= 0:
                    lo = mid + 1
                else:
                    hi = mid
            out.insert(lo, t)
        return tuple(out)

    # ---- conditions
    def decide(self, m, cond):
        if not has_ref(cond):
            if len(cond.syms) == 1 and m.st.order:
                (s,) = cond.syms
                if pos(m.st.order, s) is not None:
                    return self.filtered(m, cond)
            if len(cond.syms) > 1:
                try:
                    return decide(cond, m.st.dom)
                except Unsupported:
                    if self.script is not None or m.npaths > 400000:
                        raise
                    return self.both(m, cond)
            return None
        if cond.op in CMP:
            a, b = only_ref(cond.args[0]), only_ref(cond.args[1]) if type(cond.args[1]) is Term else None
            if a is not None and b is not None:
                if a == b:
                    return [(int(cond.op in ("eq", "le", "ge")), m.st.dom)]
                return self.decide_order(m, cond.op, a, b)
        if len(cond.syms) == 1:
            return self.filtered(m, cond)
        return self.decide_pair(m, cond)

    def both(self, m, cond):
        """a relation between several characters that the value sets cannot express: follow both outcomes, remember the
        condition for the search for a witness, and forget it for the analysis (which over-approximates)"""
        def outcome(v):
            def f(m):
                st = m.st
                a, b = cond.args[0], cond.args[1] if len(cond.args) > 1 else None
                if (cond.op == "eq") == bool(v) and cond.op in ("eq", "ne") and type(a) is Term and type(b) is Term \
                        and a.op == b.op == "sym":
                    d = dict(st.dom.d)
                    x = is_and(d[a.args[0]], d[b.args[0]])
                    if not x:
                        raise PathEnd("pruned")
                    d[a.args[0]] = d[b.args[0]] = x
                    d = Dom(d, st.dom.pts, st.dom.excl)
                    if not consistent(self.S, st.order, d.d):
                        raise PathEnd("pruned")
                    st.dom = d
                st.trace = (st.trace, ("cond", cond, v))
            return f
        return [(1, outcome(1)), (0, outcome(0))]

    def filtered(self, m, cond):
        out = []
        for v, d in decide(cond, m.st.dom):
            if consistent(self.S, m.st.order, d.d):
                out.append((v, d))
        if not out:
            raise PathEnd("pruned")
        return out

    def decide_order(self, m, op, a, b):
        st = m.st
        orders = [st.order]
        for t in (a, b):
            nxt = []
            for o in orders:
                if pos(o, t) is None:
                    nxt.extend(placements(self.S, o, t, st.dom.d))
                else:
                    nxt.append(o)
            orders = nxt
        alts = []
        for o in orders:
            pa, pb = pos(o, a), pos(o, b)
            alts.append((fold(op, pa, pb, 64, False), o))
        if not alts:
            raise PathEnd("pruned")
        if len(orders) == 1 and orders[0] is st.order:
            return [(alts[0][0], st.dom)]

        def setter(o):
            def f(m):
                m.st.order = o
                m.st.trace = (m.st.trace, ("ord", o))
            return f
        return [(v, setter(o)) for v, o in alts]

    def decide_pair(self, m, cond):
        """a condition over the ranks of two tokens that is not a plain comparison: split both by class"""
        ss = sorted(cond.syms)
        if len(ss) != 2:
            raise Unsupported("condition over %d ranks" % len(ss))
        st = m.st
        S = self.S
        groups = []
        for s in ss:
            D = st.dom.d[s]
            groups.append([(r, is_and(D, S.by_ccc[r]) if r else is_and(D, S.S)) for r in sorted(S.ranks(D))])
        try:
            _, f = code(cond)
            if any(t_op_sym(cond, s) for s in ss):
                raise Unsupported("condition mixing characters and ranks")
            alts = []
            for r0, D0 in groups[0]:
                for r1, D1 in groups[1]:
                    d = dict(st.dom.d)
                    d[ss[0]], d[ss[1]] = D0, D1
                    if not consistent(S, st.order, d):
                        continue
                    v = f(D0[0][0], D1[0][0])
                    alts.append((v, Dom(d, st.dom.pts, st.dom.excl)))
        except IndexError:
            raise Unsupported("condition over ranks")
        if not alts:
            raise PathEnd("pruned")
        return alts

    def values(self, m, t):
        if has_ref(t) and len(t.syms) == 1:
            r = values(t, m.st.dom, 2000)
            return {v: d for v, d in r.items() if consistent(self.S, m.st.order, d.d)}
        return None

    def special(self, x):
        return has_ref(x) or (type(x) is Term and len(x.syms) == 2)

    # ---- decomposition cut
    def h_decompose(self, fk):
        def h(m, fn, a, dest, target, sync):
            c = a[0]
            if type(c) is not Term or c.op != "sym":
                return DECLINED
            i = c.args[0]
            pcs = m.st.orc.get(("pcs", i))
            if pcs is None or m.st.orc.get(("form", i)) != fk:
                return DECLINED
            ty = fn.sig["in"][1]
            cl = a[1]
            t = m.T[ty]
            loc = None
            if m.sync == 0 and m.snapshot is None:
                m.before_sync()
            if t["k"] == "closure":
                loc = m.alloc(cl)
                cl = Ptr(loc, ())
            for p in pcs:
                m.call_value_sync(ty, cl, Agg(0, (p,)))
            if loc is not None:
                del m.st.heap[loc]
            return UNIT
        return h

    def new_token(self, m, shape, D, ident, fk):
        """a fresh input token and its pieces; ranks are placed by the ghost when it orders them"""
        st = m.st
        c = self.fresh(m, D)
        st.orc = dict(st.orc)
        if ident:
            pcs = (sym(c),)
        else:
            one = self.one(fk)
            pcs = []
            key = (id(D), fk)
            doms = _piece_doms.get(key)
            if doms is None or doms[0] is not D:
                pts = [one(q) for q in is_points(D)]
                doms = (D, [is_from({p[i] for p in pts}) for i in range(len(shape))])
                _piece_doms[key] = doms
            for i in range(len(shape)):
                t = self.fresh(m, doms[1][i])
                st.orc[("link", t)] = (c, i, fk)
                pcs.append(sym(t))
            pcs = tuple(pcs)
        st.orc[("pcs", c)] = pcs
        st.orc[("form", c)] = fk
        st.trace = (st.trace, ("pull", c, tuple(p.args[0] for p in pcs)))
        return c, pcs

    # ---- pulls
    def memo_pull(self, m):
        if self.script is not None or m.st.queue or m.sync:
            return
        k = self.key(m, True)
        if k in self.seen:
            raise PathEnd("merged")
        self.seen.add(k)
        self.nstates += 1
        if self.nstates > self.limit_states:
            raise Unsupported("state limit")

    def key(self, m, frames):
        st = m.st
        C = Canon(m)
        fr = []
        if frames:
            for f in st.frames:
                t = f.fn.blocks[f.bb][1]
                live = set(addr_taken(self.P, f.fn))
                if t[0] == "call" and t[4] is not None:
                    live |= self.P.liveness(f.fn)[t[4]]
                    if len(t[3]) == 1:
                        live.discard(t[3][0])
                    else:
                        live.add(t[3][0])
                fr.append((f.fn.id, f.bb, tuple((i, C.val(f.locals[i])) for i in sorted(live)),
                           f.dest if type(f.dest) is int or f.dest is None else C.val(tuple(f.dest)), f.target))
        h = C.heap((V,))
        g = C.val(tuple(st.ghost))
        more = self.extra_key(st, C)
        order = tuple(x for x in (tuple(sorted(C.ren[t] for t in cl if t in C.ren)) for cl in st.order) if x)
        inv = sorted(C.ren.items(), key=lambda kv: kv[1])
        doms = tuple(domid(st.dom.d[s]) for s, _ in inv)
        comps = tuple(sorted((C.val(k[1]), C.val(k[2]), -1 if v is None else C.ren.get(v.args[0], -2))
                             for k, v in st.orc.items() if k[0] == "comp" and live_in(C, k[1]) and live_in(C, k[2]))) \
            if self.kind == "c" else ()
        pcs = tuple((C.ren[s], tuple(C.ren.get(p.args[0], -1) for p in st.orc[("pcs", s)]))
                    for s, _ in inv if ("pcs", s) in st.orc)
        return (self.phase, tuple(fr), h, g, order, doms, comps, pcs, more)

    def extra_key(self, st, C):
        return ()

    def live_tokens(self, m):
        C = Canon(m)
        for f in m.st.frames:
            t = f.fn.blocks[f.bb][1]
            live = set(addr_taken(self.P, f.fn))
            if t[0] == "call" and t[4] is not None:
                live |= self.P.liveness(f.fn)[t[4]]
            for i in live:
                C.val(f.locals[i])
        C.heap((V,))
        C.val(tuple(m.st.ghost))
        self.extra_key(m.st, C)
        return C.ren

    _gc_at = 1000

    def gc_tokens(self, m):
        """long scripted texts: what is known of characters nothing refers to any more is put aside for witnesses"""
        st = m.st
        if m.sync or st.queue or len(st.dom.d) < self._gc_at or st.dom.pts or st.dom.excl:
            return
        live = set(self.live_tokens(m))
        for t in list(live):
            l = st.orc.get(("link", t))
            if l is not None:
                live.add(l[0])
        for t in list(live):
            live |= {p.args[0] for p in st.orc.get(("pcs", t), ())}

        def keep(k):
            return not (type(k) is tuple and k[0] in ("link", "pcs", "form", "comp") and any(
                (x.args[0] if type(x) is Term and x.op == "sym" else x) not in live for x in k[1:]
                if type(x) is int or type(x) is Term and x.op == "sym"))
        d, orc = {}, {}
        gd, go = {}, {}
        for k, v in st.dom.d.items():
            (d if k in live else gd)[k] = v
        for k, v in st.orc.items():
            (orc if keep(k) else go)[k] = v
        self._gc_at = max(1000, 2 * len(d))
        if len(gd) < 500:
            return
        orc["old"] = (st.orc.get("old"), gd, go)
        st.dom = Dom(d)
        st.orc = orc

    def gc_order(self, m):
        if self.script is not None:
            self.gc_tokens(m)
        if m.sync or not m.st.order:
            return
        live = self.live_tokens(m)
        m.st.order = tuple(x for x in (tuple(t for t in cl if t in live) for cl in m.st.order) if x)

    def h_pull(self, m, fn, a, dest, target, sync):
        g = m.st.ghost
        if not m.st.queue:
            self.npulls += 1
        if self.phase not in ("next", "display"):
            self.viol(m, "C19", "pull-in-%s" % self.phase, "%s: a %s call pulls a character from the source" % (
                self.form, self.phase))
            raise PathEnd("pruned")
        if g.ended and self.revive:
            m.mark()
            return some(sym(self.fresh(m, self.S.S)))
        if g.ended:
            if self.kind in ("d", "c") and not self.fusesrc:
                self.viol(m, "C16", "poll-after-end:%s" % self.form,
                          "%s: the source is polled again after it reported its end" % self.form)
            return NONE
        if g.exp:
            self.viol(m, "C19", "lookahead:%s" % self.form,
                      "%s: the source is pulled although the next output is already determined" % self.form)
            if len(g.exp) > 60 + 4 * self.K:
                raise PathEnd("pruned")
        self.memo_pull(m)
        m.mark()
        self.gc_order(m)
        r = self.pull(m)
        return NONE if r is None else some(sym(r))

    def offers(self, m):
        """classes of the next character: list of (shape, D, identity)"""
        g = m.st.ghost
        if self.script is not None:
            n = self.npulled(m.st)
            o = self.script(n)
            if o != ANY:
                return o
            return [(sh, D, ident) for sh, D, ident in self.S.shapes(
                {"nfc": "nfd", "nfkc": "nfkd"}.get(self.form, self.form))]
        fk = self.form
        out = [None]
        p = len(g.pend) if self.kind in ("d", "c") else 0
        for sh, D, ident in self.S.shapes(fk):
            q = p
            ok = True
            for b in sh:
                if b:
                    q += 1
                    if q > max(self.K, 1):
                        ok = False
                        break
                else:
                    q = 0
            if ok:
                out.append((sh, D, ident))
        return out

    def npulled(self, st):
        """how many characters were pulled on this path"""
        t, at, k = st.trace, self._np[0], 0
        while t is not None and t is not at:
            k += t[1][0] == "pull"
            t = t[0]
        if t is not None:
            k += self._np[1]
        self._np = (st.trace, k)
        return k

    _np = (None, 0)

    def pulled(self, st):
        t = st.trace
        while t is not None:
            if t[1][0] == "pull":
                yield t[1]
            t = t[0]

    def pull(self, m):
        """source oracle of the four forms"""
        st = m.st
        offers = self.allowed(m, self.offers(m))
        o = offers[m.choose(len(offers))]
        if o is None:
            st.ghost = self.end(m, st.ghost)
            return None
        self.count_pull(m)
        sh, D, ident = o
        fk = {"nfc": "nfd", "nfkc": "nfkd"}.get(self.form, self.form)
        c, pcs = self.new_token(m, sh, D, ident, fk)
        g = st.ghost
        for p, b in zip(pcs, sh):
            if b:
                g = self.nonstarter(m, g, p)
            else:
                g = self.starter(m, g, p)
        st.ghost = g
        return c

    # ---- ghost of the decomposition stage
    def nonstarter(self, m, g, p):
        if self.script is None:
            self.place(m, p.args[0])
        if g.floor is not None and self.cmp_rank(m, p, g.floor) < 0:
            m.st.ghost = g
            self.viol(m, STREAM_PROP[self.form], "early:%s" % self.form,
                      "%s: a non-starter was emitted before a later one of lower combining class" % self.form)
            raise PathEnd("pruned")
        g = g._replace(pend=g.pend + (p,))
        self.maxpend = max(self.maxpend, len(g.pend))
        return g

    def starter(self, m, g, p):
        g = self.flush(m, g)
        return self.feed(m, g, p)._replace(floor=None)

    def flush(self, m, g):
        if g.pend:
            s = self.stable_sort(m, g.pend)
            g = g._replace(pend=())
            for x in s:
                g = self.feed(m, g, x)
        return g

    def feed(self, m, g, x):
        """a character of the canonically ordered decomposition becomes known"""
        if self.kind == "d":
            return g._replace(exp=g.exp + (x,))
        return self.feed_c(m, g, x)

    def feed_c(self, m, g, t):
        rt = self.rank(m, t)
        starter = type(rt) is int and rt == 0
        if g.L is None:
            if starter:
                return g._replace(L=t, P=(), early=0, last=t)
            return g._replace(exp=g.exp + (t,), last=t)
        if g.P:
            if starter or self.cmp_rank(m, g.P[-1], t) >= 0:
                blocked = True
            else:
                blocked = False
        else:
            blocked = False
        if not blocked:
            r = self.compose(m, g.L, t)
            if r is not None:
                if g.early:
                    m.st.ghost = g
                    self.viol(m, STREAM_PROP[self.form], "early:%s" % self.form,
                              "%s: a starter was emitted before a character that combines with it" % self.form)
                    raise PathEnd("pruned")
                return g._replace(L=r, last=t)
        if starter:
            cur = (g.L,) + g.P
            return g._replace(exp=g.exp + cur[g.early:], L=t, P=(), early=0, last=t)
        return g._replace(P=g.P + (t,), last=t)

    def end(self, m, g):
        if self.kind == "d":
            return self.flush(m, g)._replace(ended=1, floor=None)
        g = self.flush(m, g)
        cur = ((g.L,) + g.P)[g.early:] if g.L is not None else ()
        return g._replace(exp=g.exp + cur, L=None, P=(), early=0, ended=1, floor=None, last=None)

    # ---- the decomposition cut of the composing iterators
    def h_dnext(self, m, fn, a, dest, target, sync):
        g = m.st.ghost
        if self.phase not in ("next", "display"):
            self.viol(m, "C19", "pull-in-%s" % self.phase, "%s: a %s call pulls a character from the source" % (
                self.form, self.phase))
            raise PathEnd("pruned")
        dv = m.load(a[0].loc, a[0].path)
        want = {"nfc": "nfd", "nfkc": "nfkd"}[self.form]
        if dv != self.inits[want]:
            other = {"nfd": "nfkd", "nfkd": "nfd"}[want]
            if dv == self.inits[other]:
                v = self.viols.setdefault((STREAM_PROP[self.form], "wrong-decomposition:" + self.form), Violation(
                    STREAM_PROP[self.form], "wrong-decomposition:" + self.form,
                    "%s is built on the %s stream" % (self.form, other), m.st.copy(), m.site()))
                v.witness = {"text": "U+00A8 or U+FB01: " + "its canonical and compatibility decompositions differ"}
                raise PathEnd("pruned")
            raise Unsupported("decomposition stage in an unknown state")
        if g.ended:
            return NONE     # the decomposition stage keeps reporting its end without polling (see the C16 runs of it)
        if g.exp:
            self.viol(m, "C19", "lookahead:%s" % self.form,
                      "%s: a character is pulled although the next output is already determined" % self.form)
            if len(g.exp) > 60 + 4 * self.K:
                raise PathEnd("pruned")
        self.memo_pull(m)
        m.mark()
        self.gc_order(m)
        st = m.st
        o = self.allowed(m, self.offers_cut(m))
        o = o[m.choose(len(o))]
        if o is None:
            st.ghost = self.end(m, g)
            return NONE
        self.count_pull(m)
        sh, D, mode = o
        c = self.fresh(m, D)
        st.trace = (st.trace, ("pull", c, (c,)))
        x = sym(c)
        g = st.ghost
        if sh and self.script is None:
            last = g.last
            if last is not None and not self.is_starter(m, last):
                # canonical order: not below the previous non-starter
                o2 = [q for q in placements(self.S, st.order, c, st.dom.d)
                      if pos(q, last.args[0]) is None or pos(q, c) >= pos(q, last.args[0])]
                if not o2:
                    raise PathEnd("pruned")
                st.order = o2[m.choose(len(o2))]
                st.trace = (st.trace, ("ord", st.order))
            else:
                self.place(m, c)
        st.ghost = self.feed_c(m, g, x)
        return some(x)

    def is_starter(self, m, x):
        r = self.S.ranks(self.domof(m, x))
        return r == {0}

    def offers_cut(self, m):
        g = m.st.ghost
        if self.script is not None:
            n = self.npulled(m.st)
            return self.script(n)
        Sd, Nd = self.cut_sets()
        out = [None, (0, Sd, True)]
        if len(g.P) < self.K:
            out.append((1, Nd, True))
        return out

    def cut_sets(self):
        if not hasattr(self, "_cs"):
            sh = self.S.shapes({"nfc": "nfd", "nfkc": "nfkd"}[self.form])
            self._cs = (sh[0][1], sh[1][1])
        return self._cs

    def allowed(self, m, offers):
        """the offers that keep the promise of the source's size hint, if it was asked for one"""
        left = m.st.ghost.left
        if left is None or left == "u" or self.script is not None:
            return offers
        if left == 0:
            offers = [o for o in offers if o is None]
        else:
            offers = [o for o in offers if o is not None]
        if not offers:
            raise PathEnd("pruned")
        return offers

    def count_pull(self, m):
        left = m.st.ghost.left
        if type(left) is int and left > 0:
            m.st.ghost = m.st.ghost._replace(left=left - 1)

    def h_hint(self, m, fn, a, dest, target, sync):
        """the source's promise: nothing, many, or an exact small number; kept from then on"""
        g = m.st.ghost
        if self.phase == "constructor":
            return Agg(0, (0, NONE))
        if g.ended:
            return Agg(0, (0, some(0)))
        if self.script is not None:
            n = k = self.npulled(m.st)
            k = max(k, getattr(self.script, "length", k))
            while k < n + 100000 and self.script(k) != [None]:
                k += 1
            return Agg(0, (k - n, some(k - n)))
        left = g.left
        if left is None:
            m.mark()
            left = LEFTS[m.choose(len(LEFTS))]
            m.st.ghost = m.st.ghost._replace(left=left)
        if left == "u":
            return Agg(0, (0, NONE))
        if left == "i":
            return Agg(0, (MANY, NONE))
        return Agg(0, (left, some(left)))

    # ---- results of next()
    def on_return(self, m, v):
        if self.phase != "next":
            return self.on_phase(m, v)
        st = m.st
        if self.held is not None:
            self.held.append(held(st))
            if self.held[-1] >= self.held_stop:
                raise PathEnd("pruned")
        g = st.ghost
        prop = self.main_prop()
        if type(v) is not Agg or v.v not in (0, 1):
            raise Unsupported("result %r" % (v,))
        if v.v == 1:
            self.output(m, self.canon_token(m, v.f[0]))
        else:
            if g.exp or not g.ended:
                if g.done:
                    raise PathEnd("pruned")
                self.viol(m, prop, "lost:%s" % self.form, "%s: the end is returned before all text was yielded" %
                          self.form, None)
                raise PathEnd("pruned")
            st.ghost = g._replace(done=g.done + 1)
            if g.done >= 2:
                raise PathEnd("done")
        if self.script is None and not st.queue:
            k = self.key(m, False)
            if k in self.seen:
                raise PathEnd("merged")
            self.seen.add(k)
            self.nstates += 1
            if self.nstates > self.limit_states:
                raise Unsupported("state limit")
            if self.collect is not None:
                self.collect.append(st.copy())
        st.steps = 0 if self.script is None else st.steps
        m.push(self.next_fn, [Ptr(V, ())], None, None)

    def output(self, m, x):
        """a yielded (or displayed) character must be the next one of the specification"""
        st = m.st
        g = st.ghost
        self.outputs += 1
        if g.done:
            self.viol(m, "C16", "output-after-end:%s" % self.form,
                      "%s: a character is yielded after the end of the stream was returned" % self.form, x)
            raise PathEnd("pruned")
        if g.exp:
            if not self.same(m, x, g.exp[0]):
                self.viol(m, self.main_prop(), "output:%s" % self.form, "%s: wrong character at this point of the stream"
                          % self.form, x)
                raise PathEnd("pruned")
            st.ghost = g._replace(exp=g.exp[1:])
            st.trace = (st.trace, ("out", g.exp[0]))
        else:
            st.ghost = self.premature(m, g, x)
            st.trace = (st.trace, ("out", x))

    def main_prop(self):
        return STREAM_PROP[self.form]

    def premature(self, m, g, x):
        prop = self.main_prop()
        if g.ended:
            self.viol(m, prop, "extra:%s" % self.form, "%s: a character is yielded beyond the text" % self.form, x)
            raise PathEnd("pruned")
        if self.kind == "d" and g.pend:
            s = self.stable_sort(m, g.pend)
            if self.same(m, x, s[0]):
                p = list(g.pend)
                p.remove(s[0])
                return g._replace(pend=tuple(p), floor=s[0])
        if self.kind == "c" and g.L is not None:
            cur = (g.L,) + g.P
            if g.early < len(cur) and self.same(m, x, cur[g.early]):
                return g._replace(early=g.early + 1)
        self.viol(m, prop, "output:%s" % self.form, "%s: wrong character at this point of the stream" % self.form, x)
        raise PathEnd("pruned")

    def on_phase(self, m, v):
        raise Unsupported("phase")

    def on_end(self, m, e):
        if e.kind == "panic":
            self.viol(m, "C14", "panic:%s:%s" % (e.site[0], e.msg), "%s: %s in %s" % (self.form, e.msg, e.site[0]))
        elif e.kind == "ub":
            self.viol(m, "C15", "ub:%s:%s" % (e.site[0], e.msg), "%s: %s in %s" % (self.form, e.msg, e.site[0]))
        else:
            m.outcomes.append((e.kind, e.msg, e.site, None))

    def ghost0(self):
        return {"d": G0D, "c": G0C}.get(self.kind, G0F)


_piece_doms = {}
_domids = {}


def domid(D):
    r = _domids.get(id(D))
    if r is not None and r[0] is D:
        return r[1]
    k = _domids.setdefault(D, len(_domids))
    _domids[id(D)] = (D, k)
    return k


def live_in(C, x):
    return type(x) is int or x.args[0] in C.ren


def t_op_sym(t, s):
    if type(t) is not Term:
        return False
    if t.op == "sym":
        return t.args[0] == s
    if t.op == "ref":
        return False
    return any(t_op_sym(a, s) for a in t.args if type(a) is Term)


def summarisable(P, fn):
    r = fn._scalar
    if r is None:
        r = bool(fn.sig) and not fn.is_closure and len(fn.sig["in"]) >= 1 and fn.body \
            and all(P.types.is_scalar(t) for t in fn.sig["in"]) and P.types.scalar_only(fn.sig["out"])
        fn._scalar = r
    return r


# ------------------------------------------------------------------ flat iterators: replacement and stream-safe
class FlatClient(StreamClient):
    def classes(self):
        if hasattr(self, "_cl"):
            return self._cl
        R = self.R
        if self.form == "cjk":
            cs = is_from(R.cjk)
            self._cl = [((0,), is_sub(CHARS, cs), True, None), ((0, 0), cs, False, None)]
        else:
            g = {}
            special = set(R.canon) | set(R.compat)
            for c in special:
                g.setdefault(R.nonstarters(c), []).append(c)
            for iv_ in self.S.N:
                for c in range(iv_[0], iv_[1] + 1):
                    if c not in special:
                        g.setdefault((1, 1, 1), []).append(c)
            for c in range(0xAC00, 0xD7A4):
                g.setdefault(R.nonstarters(c), []).append(c)
            sets_ = {k: is_from(v) for k, v in g.items()}
            rest = CHARS
            for v in sets_.values():
                rest = is_sub(rest, v)
            sets_[(0, 0, 1)] = is_or(sets_.get((0, 0, 1), ()), rest)
            self._cl = [((0,), D, True, k) for k, D in sorted(sets_.items())]
        return self._cl

    def pull(self, m):
        st = m.st
        offers = [None] + self.classes()
        if self.script is not None:
            o = self.script(self.npulled(st))
            offers = self.classes() if o == ANY else o
        offers = self.allowed(m, offers)
        o = offers[m.choose(len(offers))]
        self.count_pull(m)
        g = st.ghost
        if o is None:
            st.ghost = g._replace(ended=1)
            return None
        sh, D, ident, k = o
        if self.form == "cjk":
            c, pcs = self.new_token(m, sh, D, ident, "cjk")
            st.ghost = g._replace(exp=g.exp + pcs)
            return c
        c = self.fresh(m, D)
        st.trace = (st.trace, ("pull", c, (c,)))
        lead, trail, ln = k
        n = g.n
        exp = (sym(c),)
        if n + lead > 30:
            exp = (refdata.CGJ, sym(c))
            n = 0
        n = n + ln if lead == ln else trail
        st.ghost = g._replace(exp=g.exp + exp, n=n)
        return c

    def canon_token(self, m, x):
        return x if self.form == "ss" else StreamClient.canon_token(self, m, x)


def held(st):
    """elements of all growable containers reachable from the iterator"""
    n = 0
    todo, seen = [st.heap[V]], {V}
    while todo:
        x = todo.pop()
        t = type(x)
        if t is Seq:
            n += len(x.f)
            if x.f and any(type(y) in (Agg, tuple, Seq, Ptr) for y in getattr(x.f[0], "f", ())) or \
                    x.f and type(x.f[0]) in (Seq, Ptr):
                todo.extend(x.f)
        elif t is Agg or t is tuple:
            todo.extend(y for y in (x.f if t is Agg else x) if type(y) in (Agg, tuple, Seq, Ptr))
        elif t is Ptr and x.loc is not None and x.loc >= HEAP and x.loc not in seen:
            seen.add(x.loc)
            todo.append(st.heap.get(x.loc))
    return n


# ------------------------------------------------------------------ running
def initial(P, root, args=None, client=None):
    """evaluate a constructor root with no source interaction; returns the value"""
    m = Machine(P, client)
    st = State()
    m.st = st
    src = Agg(0, (0,))
    m.push(P.root(root), [src] if args is None else args, None, None)
    m.start(st)
    m.explore()
    if m.undecided:
        raise Unsupported("constructor: %s" % list(m.undecided)[0])
    rs = [o for o in m.outcomes if o[0] == "return"]
    if len(rs) != 1 or len(m.outcomes) != 1:
        raise Unsupported("constructor with several outcomes")
    return rs[0][1], m


def make_client(P, form, **kw):
    cls = FlatClient if form in ("cjk", "ss") else StreamClient
    c = cls(P, form, **kw)
    if c.kind == "c":
        for f in ("nfd", "nfkd"):
            c.inits[f], _ = initial(P, FORMS[f][1])
    return c


def run_stream(P, form, K=4, script=None, cut=True, collect=False, limit_s=None, init=None, limit_states=200000,
               measure=False, revive=False):
    """explore the iterator of a form; returns (machine, client)"""
    c = make_client(P, form, K=K, script=script, cut=cut, limit_states=limit_states)
    c.wall = 0.0
    m = c.machine()
    if init is None:
        mi = c.machine()
        c.phase = "constructor"
        res = []
        c.on_phase = lambda m, v: (_ for _ in ()).throw(PathEnd("pruned")) if res.append(v) is None else None
        st = State()
        st.ghost = c.ghost0()
        mi.st = st
        mi.push(P.root(FORMS[form][1]), [Agg(0, (0,))], None, None)
        mi.start(st)
        mi.explore()
        if mi.undecided or len(res) != 1:
            m.undecided.update(mi.undecided or {"constructor has %d outcomes" % len(res): 1})
            return m, c
        init = res[0]
        m.covered |= mi.covered
        c.phase = "next"
    st = State()
    st.ghost = c.ghost0()
    st.heap[V] = init
    m.st = st
    if collect:
        c.collect = [st.copy()]
    c.revive = revive
    if measure:
        c.held = []
        m.max_seq = 20000
        c.held_stop = measure
    m.push(c.next_fn, [Ptr(V, ())], None, None)
    m.start(st)
    t0 = time.time()
    m.explore(limit_s)
    c.wall = time.time() - t0
    return m, c
