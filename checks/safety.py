"""C14 (no panic) and C15 (no undefined behaviour): every abort or violated safety obligation on any analysed path."""
import build, refdata, iters, pool, scalar, witness, streams, objects, predicates
from iters import *
from terms import *
from machine import *
from client import run_scalar

FEATS = ["chars", "forms", "hints", "clonefmt", "recv", "pred", "autho", "misc"]
SCALAR = [("chars::root_decompose_canonical", 1, True), ("chars::root_decompose_compatible", 1, True),
          ("chars::root_decompose_cjk", 1, True), ("chars::root_compose", 2, False), ("chars::root_ccc", 1, False),
          ("chars::root_is_combining_mark", 1, False), ("chars::root_is_public_assigned", 1, False),
          ("chars::root_version", 0, False)]


def scalar_task(P, root, n, emit):
    def t():
        import time
        t0 = time.time()
        m, c = run_scalar(P, root, n, emit)
        viols = []
        other = []
        for kind, msg, site, st in m.outcomes:
            prop = {"panic": "C14", "ub": "C15"}.get(kind)
            if prop is None:
                other.append((kind, msg, site))
                continue
            d = st.dom
            if d.pts:
                text = list(d.pts[1])[0]
            else:
                text = [d.d[i][0][0] for i in range(n)]
            viols.append((prop, "%s:%s:%s" % (kind, site[0], msg), "%s: %s in %s" % (root.split("root_")[1], msg, site[0]),
                          site, {"text": witness.us(text), "chars": list(text)}))
        return {"what": root, "steps": m.nsteps, "paths": m.npaths, "states": len(c.results), "pulls": 0,
                "outputs": len(c.results), "maxpend": 0, "covered": sorted(m.covered), "undecided": dict(m.undecided),
                "outcomes": other, "asserts": 0, "obl": dict(m.obligations), "viols": viols,
                "wall": round(time.time() - t0, 2)}
    return t


class TestApi(predicates.PredClient):
    """the test API that collects a stream-safe string: any text of a few characters, and scripted longer ones"""
    bound = 2

    def __init__(self, P, script=None):
        super().__init__(P, "nfd_ss", script=script)
        self.prop = "C14"

    def offers_p(self, m):
        if self.script is None and sum(1 for _ in self.pulled(m.st)) >= self.bound:
            return [None]
        return super().offers_p(m)

    def memo_pull(self, m):
        return

    def on_return(self, m, v):
        self.outputs += 1
        raise PathEnd("pruned")


def api_task(P, limit_s):
    def t():
        S = sets()
        y = streams.Sym(S, "nfd")
        tot = None
        scripts = [None] + [[y.s()] + [y.n(230)] * k + [y.s()] for k in (29, 30, 31, 32, 62, 100)]
        for sc in scripts:
            c = TestApi(P, None if sc is None else streams.script_of(sc))
            m = c.machine()
            st = State()
            st.ghost = predicates.GP0
            st.nsym = 1
            st.dom = Dom({0: ((0, 1 << 40),)})
            st.heap[predicates.STR] = Opaque("text")
            m.st = st
            c.lentok = 0
            m.push(P.root("misc::root_test_api_stream_safe"), [Ptr(predicates.STR, (0,), sym(0))], None, None)
            m.start(st)
            import time
            t0 = time.time()
            m.explore(limit_s)
            c.wall = time.time() - t0
            r = streams.summary(m, c, "test API")
            tot = r if tot is None else streams.join(tot, r)
        return tot
    return t


def tasks(P, deep, limit):
    ts = streams.every_form(P, deep, limit)
    for p in predicates.PRED:
        ts += [predicates.pred_task(P, p, True, limit), predicates.pred_task(P, p, False, limit)]
    K = {"nfd": 2, "nfkd": 1, "nfc": 3, "nfkc": 3, "cjk": 4, "ss": 40}
    ts += [objects.hint_task(P, f, K[f], limit) for f in FORMS]
    ts += [objects.show_task(P, f, K[f], limit) for f in K if f != "ss"]
    ts += [objects.cut_display_task(P, f) for f in K if f != "ss"]
    ts += [scalar_task(P, *x) for x in SCALAR]
    ts.append(api_task(P, 40))
    return ts


def recv_runs(ctx, P, prop):
    """constructors on every receiver"""
    for f in FORMS:
        for recv, args, dom in (("src", [Opaque("source")], None), ("ctor", [Opaque("source")], None),
                                ("chars", [Opaque("source")], None), ("opt", [Opaque("source")], None),
                                ("str", [Ptr(HEAP, (0,), sym(1))], {1: ((0, (1 << 63) - 1),)}),
                                ("char", [sym(0)], {0: CHARS})):
            root = "recv::%s::root_%s" % (f, recv)
            c = objects.RecvClient()
            m = Machine(P, c)
            st = State()
            st.dom = Dom(dom or {})
            m.st = st
            st.heap[HEAP] = Opaque("text")
            m.push(P.root(root), args, None, None)
            m.start(st)
            m.explore(60)
            ctx.merge_machine(m, root)
            for k, v in m.obligations.items():
                ctx.sites[k] = ctx.sites.get(k, 0) + v
            for kind, msg, site, s in m.outcomes:
                if {"panic": "C14", "ub": "C15"}.get(kind) == prop:
                    ctx.violation("%s:%s:%s" % (kind, site[0], msg), "%s on a %s: %s in %s" % (f, recv, msg, site[0]))
            ctx.ob(len(c.results))


def unsafe_sites(P):
    """calls of unsafe functions, raw dereferences, transmutes and unions in the crate's own reachable functions"""
    out = {}
    for f in P.fns:
        if f.crate != "unicode_normalization" or not f.body:
            continue
        for bi, (st, t, line) in enumerate(f.blocks):
            if t[0] == "call" and isinstance(t[1], int):
                g = P.fns[t[1]]
                if g.unsafe and g.crate != "unicode_normalization":
                    out[(f.file, line, "call of " + g.deff)] = f.deff
            elif t[0] == "asm":
                out[(f.file, line, "inline assembly")] = f.deff
            for s in st:
                if s[0] == "=" and s[2][0] == "cast" and "Transmute" in str(s[2][1]):
                    out[(f.file, line, "transmute")] = f.deff
                for pl in places(s):
                    if raw_deref(P, f, pl):
                        out[(f.file, line, "raw pointer dereference")] = f.deff
    return out


def places(x):
    if type(x) is list:
        if x and type(x[0]) is int and any(e == "*" for e in x[1:]):
            yield x
        for e in x:
            yield from places(e)
    elif type(x) is dict:
        for e in x.values():
            yield from places(e)


def raw_deref(P, f, p):
    if not (0 <= p[0] < len(f.locals)):
        return False
    ty = f.locals[p[0]]
    for e in p[1:]:
        if ty is None:
            return False
        t = P.types[ty]
        if e == "*":
            if t["k"] == "ptr":
                return True
            ty = t.get("e")
        elif isinstance(e, list) and e and e[0] == "f" and len(e) > 2:
            ty = e[2]
        elif isinstance(e, list) and e and e[0] in ("i", "ci"):
            ty = t.get("e")
    return False


def reachable_census(ctx, P):
    """every function of the crate is behind some analysed entry point"""
    have = {f.deff for f in P.fns}
    cov = set()
    n = 0
    for d in P.raw["fns"]:
        n += 1
        if d in have or "core::fmt::Debug" in d or d.startswith("unicode_normalization::UnicodeNormalization::") \
                or "core::cmp::PartialEq" in d:
            continue
        ctx.undec("function not behind any analysed entry point: " + d)
    ctx.cover["functions_of_the_crate"] = n
    for i in P.raw["impls"]:
        if i["trait"] == "core::iter::Iterator":
            for it in i["items"]:
                if it.rsplit("::", 1)[1] not in ("next", "size_hint", "Item", "IntoIter"):
                    ctx.undec("overridden iterator method: " + it)


def run(ctx, prop):
    ctx.level = "other"
    streams.stream_trust(ctx)
    ctx.sites = {}
    P = build.load(FEATS)
    sets()
    reachable_census(ctx, P)
    streams.run_all(ctx, P, tasks(P, ctx.thorough, 250), (prop,))
    recv_runs(ctx, P, prop)
    by = {}
    for (kind, name, line, file), n in ctx.sites.items():
        by[kind] = by.get(kind, 0) + n
        ctx.ob(n)
    ctx.cover["obligations_by_kind"] = by
    return P


def c14(ctx):
    ctx.rule = ("Reachability of panics in the abstract interpretation (overflow checks on) of every public operation: the "
                "single-character functions over all characters and pairs, the six iterators in the fixpoints of C07-C12 "
                "and on scripted long runs, size hints, clones, display, receivers, quick and authoritative predicates, "
                "polling after the end included.  Every path that reaches a panic is reported with a text.")
    run(ctx, "C14")


def c15(ctx):
    ctx.rule = ("In the same runs every unchecked operation carries an obligation (valid scalar value, index in bounds, no "
                "unchecked overflow, valid transmute, initialised memory); a path violating one is reported with a text.  "
                "Census: every unsafe operation in the crate's reachable functions must have been met by the analysis.")
    P = run(ctx, "C15")
    met = {(file, line) for (kind, name, line, file) in ctx.sites}
    un = unsafe_sites(P)
    ctx.cover["unsafe_operations"] = sorted("%s:%d %s in %s" % (k[0], k[1], k[2], v) for k, v in un.items())
    for (file, line, what), fn in sorted(un.items()):
        ok = (file, line) in met
        ctx.ob(1, ok)
        if not ok:
            ctx.undec("unsafe operation not met by the analysis: %s in %s" % (what, fn))
