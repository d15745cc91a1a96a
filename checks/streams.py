"""Stream properties: C07, C08, C09, C12, C16, C19 (and the stream parts of C14, C15)."""
import itertools, os, time
import build, refdata, iters, pool, scalar, witness
from iters import *
from terms import *
from machine import Machine, State, PathEnd, Unsupported, NONE, some, Agg, Ptr

FEATS = ["chars", "forms", "adaptors"]


# ------------------------------------------------------------------ scripted families: long and structured texts
class Sym:
    """character classes used by scripts: one combining class each, nothing that decomposes or composes"""

    def __init__(self, S, kd):
        R = S.R
        q = set(R.canon) | set(R.compat)
        bad = is_or(is_from(q), is_or(S.first_set, S.second_set))
        bad = is_or(bad, ((0xAC00, 0xD7A3),))
        self.rank = {}
        for r, D in S.by_ccc.items():
            E = is_sub(D, bad)
            if E:
                self.rank[r] = E
        self.start = is_sub(is_sub(S.S, bad), ((refdata.CGJ, refdata.CGJ),))
        self.R = R

    def n(self, r):
        return [((1,), self.rank[r], True)]

    def s(self):
        return [((0,), self.start, True)]

    def c(self, ch, form):
        """one concrete character"""
        R = self.R
        one = R.nfd1 if form in ("nfd", "nfc") else R.nfkd1
        d = one(ch)
        return [(tuple(int(R.ccc(x) != 0) for x in d), ((ch, ch),), d == (ch,))]


def families(S, form, consts, deep):
    """named scripts; each is a list of source steps, then the end"""
    y = Sym(S, form)
    ranks = sorted(y.rank)
    hi, lo = 230, 220
    s = y.s()
    fam = {"65600 starters": [[o] for o in s] * 65600}

    def runs(lens, f):
        out = []
        for L in lens:
            out += s
            out += [f(i) for i in range(L)]
        return [[o] if not isinstance(o, list) else o for o in out]

    eq = lambda i: y.n(hi)[0]
    alt = lambda i: y.n(hi if i % 2 == 0 else lo)[0]
    cyc = lambda i: y.n(ranks[-1 - i % len(ranks)])[0]
    up = lambda i: y.n(ranks[i % len(ranks)])[0]
    lens = sorted({c + d for c in consts for d in (-1, 0, 1, 2) if 0 < c + d < 3000})
    shuffled = [(i * 17) % 41 for i in range(41)]
    fam["every run length 0..40, alternating classes"] = runs(shuffled, alt)
    fam["every run length 0..40, equal classes"] = runs(shuffled, eq)
    fam["every run length 0..40, falling classes"] = runs(shuffled, cyc)
    fam["one run of 300 equal classes"] = runs([300], eq)
    fam["one run of 300 alternating classes, then a short one"] = runs([300, 3], alt)
    fam["one run of 270 falling classes"] = runs([270], cyc)
    fam["leading run without a starter"] = runs([70], alt)[1:]
    fam["many starters"] = runs([0] * 300, eq)
    fam["many short runs"] = runs([3] * 90, alt)
    fam["runs around powers of two"] = runs([63, 64, 65, 66, 127, 128, 129, 130, 2, 255, 256, 257, 258], cyc)
    for L in lens:
        fam["run of %d (from a constant)" % L] = runs([L], alt if L < 600 else cyc)
        fam["%d starters (from a constant)" % L] = runs([0] * L, eq)
    big = [c for c in consts if c >= 3000 and not 0x1100 <= c <= 0x11FF]
    if big:
        fam["run of %d (beyond the largest constant)" % (max(big) + 2)] = runs([max(big) + 2], eq)
        fam["%d starters (beyond the largest constant)" % (max(big) + 2)] = runs([0] * (max(big) + 2), eq)
    for L in sorted({4, 5, 8, 9, 16, 17, 31, 32, 33, 64} | {L for L in lens if L < 600} if deep else
                    {5, 17} | {c + 1 for c in consts if c < 40}):
        fam["run of %d, then anything" % L] = runs([L], alt) + [ANY] + [[o] for o in s]
    fam["300 starters, then anything"] = runs([0] * 300, eq) + [ANY] + [[o] for o in s]
    for L in range(1, 36):
        fam["run of %d, then the end" % L] = runs([L], alt)
    for L in (4, 5, 6) if deep else (4, 5):
        # runs of L marks with their classes in every relative order, ties included
        every = [[y.n(ranks[len(ranks) // 2 - L + 2 * k])[0] for k in w]
                 for w in weak_orders(L)]
        if form in ("nfkd", "nfkc") and L > 4:
            every = every[::3]
        n = {4: 1, 5: 4, 6: 12}[L]
        for j in range(n):
            fam["runs of %d in every order (%d/%d)" % (L, j + 1, n)] = [[o] for r in every[j::n] for o in s + r]
    C = lambda *cs: [[o] for c in cs for o in y.c(c, form)]
    R = S.R
    hang = list(range(0xAC00, 0xAC00 + 11172, 373)) + [0x1100, 0x1161, 0x11A8, 0x1112, 0x1175, 0x11C2]
    fam["Hangul syllables and jamo"] = C(*hang)
    if form in ("nfc", "nfkc"):
        for L in sorted({0, 1, 2, 3, 4, 5, 17, 31, 32, 33, 64, 130, 300} | {L for L in lens if L < 600}):
            mid = [y.n(lo)] * L
            fam["a, %d lower marks, acute" % L] = C(0x61) + mid + C(0x301) + s2(s)
            fam["a, %d lower marks, acute, the end" % L] = C(0x61) + mid + C(0x301)
            same = [y.n(hi)] * L
            fam["a, %d equal marks, acute" % L] = C(0x61) + same + C(0x301) + C(0x61, 0x301)
            fam["a, %d lower marks, a, acute" % L] = C(0x61) + mid + C(0x61, 0x301) + mid + C(0x62)
        fam["composing chains"] = C(0x61, 0x302, 0x301, 0x75, 0x308, 0x304, 0x6F, 0x323, 0x302, 0x1100, 0x1161, 0x11A8,
                                    0x9C7, 0x9BE, 0x9C7, 0x9D7, 0xDD9, 0xDCF, 0xDCA, 0x1EB7, 0x301, 0x1D157, 0x1D165)
        fam["repeated composing pairs"] = C(*([0x61, 0x301] * 120))
        fam["repeated composing pairs with a mark between"] = [x for _ in range(80) for x in C(0x61) + [y.n(lo)] + C(0x301)]
        fam["excluded and singleton characters"] = C(0x212B, 0x2126, 0x344, 0x958, 0xFB1D, 0x2ADC, 0x1D15E, 0x340, 0x374)
    multi = []
    one = R.nfd1 if form in ("nfd", "nfc") else R.nfkd1
    for c in sorted(set(R.canon) | (set(R.compat) if form in ("nfkd", "nfkc") else set())):
        if len(one(c)) >= 3:
            multi.append(c)
    fam["long decompositions in a row"] = C(*multi[:: max(1, len(multi) // (200 if deep else 60))])
    return fam


def weak_orders(n):
    """rank sequences of length n, ties included, that use the ranks 0..k without a gap"""
    return [w for w in itertools.product(range(n), repeat=n) if set(w) == set(range(max(w) + 1))]


def flat_families(P, form, deep):
    """long texts for the two iterators that work character by character"""
    kind, new, nxt = FORMS[form]
    consts = [c for c in int_constants(P, [new, nxt]) if not 0x1100 <= c <= 0x11FF]
    cl = iters.make_client(P, form).classes()
    plain = [o for o in cl if o[3] in (None, (0, 0, 1)) and len(o[0]) == 1][0]
    longs = sorted({300} | {c + 2 for c in [max(consts)] if 300 < c < 5000} if consts else {300})
    fam = {"65600 starters": [[plain]] * 65600}
    if deep and form == "ss":
        for o in cl:
            if o[3] == (1, 1, 1):
                fam["65600 times a starter and a non-starter"] = [[plain], [o]] * 65600
    for L in longs:
        fam["%d starters" % L] = [[plain]] * L
    for o in cl:
        if o is not plain:
            fam["300 characters of the class %s" % (o[3] or o[0],)] = [[o]] * 300
            fam["300 times a starter and one of the class %s" % (o[3] or o[0],)] = [[plain], [o]] * 300
    fam["every class in turn"] = [[o] for _ in range(20) for o in cl] + [[o] for _ in range(20) for o in cl[::-1]]
    fam["300 starters, then anything"] = [[plain]] * 300 + [ANY, ANY]
    return fam


def s2(s):
    return [[o] for o in s]


def script_of(steps):
    def f(n):
        return steps[n] if n < len(steps) else [None]
    f.length = len(steps)
    return f


def int_constants(P, roots):
    """integer literals of the crate's own reachable functions (thresholds the scripts should straddle)"""
    ids = P.reach([P.root(r).id for r in roots])
    out = set()

    for i in ids:
        f = P.fns[i]
        if f.crate != "unicode_normalization" or not f.body:
            continue
        for v in const_ints(P, f):
            if 4 < v < 5000:
                out.add(v)
    return sorted(out)


def const_ints(P, f, kinds=("uint", "int")):
    r = set()

    def walk(x):
        if type(x) in (list, tuple):
            if len(x) == 4 and x[0] == "switch":
                r.update(v[0] for v in x[2])
            for e in x:
                walk(e)
            if len(x) == 4 and x[0] == "bin" and type(x[2]) is dict and type(x[3]) is dict \
                    and type(x[2].get("c")) is int and type(x[3].get("c")) is int:
                a, b = x[2]["c"], x[3]["c"]
                r.update({a << b if 0 <= b < 20 and 0 <= a < 1 << 20 else 0, a * b, a + b})
        elif type(x) is dict:
            v = x.get("c")
            if type(v) is int and x.get("t") is not None and P.types[x["t"]]["k"] in kinds:
                r.add(v)
    walk(f.blocks)
    return r


# ------------------------------------------------------------------ tasks
def summary(m, c, what):
    return {"what": what, "steps": m.nsteps, "paths": m.npaths, "states": c.nstates, "pulls": c.npulls,
            "outputs": c.outputs, "maxpend": c.maxpend, "covered": sorted(m.covered),
            "undecided": dict(m.undecided), "outcomes": [o[:3] for o in m.outcomes],
            "asserts": getattr(m, "nasserts", 0), "obl": dict(m.obligations),
            "viols": [(v.prop, v.key, v.msg, v.site, v.witness) for v in c.viols.values()],
            "wall": round(c.wall, 2)}


def stream_task(P, form, K, cut, limit_s):
    def t():
        m, c = run_stream(P, form, K=K, cut=cut, limit_s=limit_s, limit_states=3000000)
        return summary(m, c, "%s%s, runs of at most %d non-starters" % (form, "" if cut or c.kind != "c" else
                                                                       " with its decomposition stage", K))
    return t


def script_task(P, form, items, limit_s):
    def t():
        tot = None
        t0 = time.time()
        for name, steps in items:
            m, c = run_stream(P, form, K=10 ** 9, cut=False, script=script_of(steps), limit_s=limit_s)
            r = summary(m, c, "%s: %s" % (form, name))
            for i, v in enumerate(r["viols"]):
                r["viols"][i] = v[:2] + (v[2] + " [scripted text: %s]" % name,) + v[3:]
            if r["undecided"]:
                r["undecided"] = {"script '%s': %s" % (name, k): n for k, n in r["undecided"].items()}
            tot = r if tot is None else join(tot, r)
            if limit_s and time.time() - t0 > limit_s:
                tot["undecided"]["script time limit"] = 1
                break
        tot["what"] = "%s: %d scripted texts" % (form, len(items))
        return tot
    return t


def join(a, b):
    for k in ("steps", "paths", "states", "pulls", "outputs", "asserts", "wall"):
        a[k] += b[k]
    a["maxpend"] = max(a["maxpend"], b["maxpend"])
    a["covered"] = sorted(set(a["covered"]) | set(b["covered"]))
    for k, v in b["undecided"].items():
        a["undecided"][k] = a["undecided"].get(k, 0) + v
    a["outcomes"] += b["outcomes"]
    for k, v in b.get("obl", {}).items():
        a["obl"][k] = a["obl"].get(k, 0) + v
    a["viols"] += b["viols"]
    return a


def replay_task(P, form, texts):
    """evaluate the iterator abstractly on singleton classes: does the finding also break this form?"""
    def t():
        y = Sym(sets(), form)
        tot = None
        for text in texts:
            if form in ("cjk", "ss"):
                break
            steps = [[o] for ch in text for o in y.c(ch, form)]
            m, c = run_stream(P, form, K=10 ** 9, cut=False, script=script_of(steps))
            r = summary(m, c, "replay")
            tot = r if tot is None else join(tot, r)
        return tot
    return t


def merge(ctx, P, r, props, claim=True):
    """account for a task result; violations of the given properties become this check's violations"""
    if isinstance(r, pool.Crash):
        ctx.undec("analysis task: " + str(r).strip().split("\n")[-1])
        return []
    c = ctx.cover
    for k, n in (("mir_steps", "steps"), ("paths", "paths"), ("abstract_states", "states"), ("source_pulls", "pulls"),
                 ("outputs_compared", "outputs")):
        c[k] = c.get(k, 0) + r[n]
    c.setdefault("runs", []).append("%s: %d states, %d paths, %d outputs compared, %.1fs" % (
        r["what"], r["states"], r["paths"], r["outputs"], r["wall"]))
    for i in r["covered"]:
        f = P.fns[i]
        if f.crate in ("unicode_normalization", "tinyvec"):
            ctx.functions.add(f.deff)
    ctx.sites = getattr(ctx, "sites", {})
    for k, v in r.get("obl", {}).items():
        ctx.sites[k] = ctx.sites.get(k, 0) + v
    for k, v in r["undecided"].items():
        ctx.undec("%s: %s" % (r["what"].split(":")[0], k), v)
    for kind, msg, site in r["outcomes"]:
        if kind not in ("return", "done"):
            ctx.undec("%s: %s %s" % (r["what"], kind, msg))
    ctx.ob(r["outputs"])
    other = []
    for prop, key, msg, site, w in r["viols"]:
        if prop not in props:
            other.append((prop, key, msg, site, w))
            continue
        ctx.ob(1, False)
        if w is None:
            ctx.undec("unconfirmed: " + msg)
        else:
            ctx.violation(key, "%s (in %s); text %s%s%s" % (
                msg, site[0] if site else "?", w.get("text"),
                "; the code yields %s" % w["code_yields"] if "code_yields" in w else "",
                "; expected %s" % w["expected"] if "expected" in w else ""), {"site": site, "witness": w})
    return other


def chunks(items, n):
    return [items[i::n] for i in range(n) if items[i::n]]


def stream_trust(ctx):
    ctx.trusted = scalar.TRUST + ["the models of the standard library's slice sorting, containers and iterator adaptors "
                                  "in engine/models.py"]
    ctx.assumptions += ["single-character data as decided by C01-C04 (checked as premises in the same run)",
                        "the source iterator is arbitrary but does not panic and does not share state with the iterator"]


def premises(ctx, P, names):
    """the per-character facts the stream analyses rely on; differences are returned, not reported"""
    import codedata
    return codedata.extract(ctx, P, names)


def internal_tasks(ctx, P, forms):
    import internal
    return internal.tasks(ctx, P, forms)


def d_tasks(P, forms, K, limit, deep):
    S = sets()
    tasks = [stream_task(P, f, K[f], True, limit) for f in forms]
    for f in forms:
        kind, new, nxt = FORMS[f]
        fam = list(families(S, f, int_constants(P, [new, nxt]), deep).items())
        tasks += [script_task(P, f, x, limit) for x in chunks(fam, 3)]
    return tasks


# ------------------------------------------------------------------ checks
def load_streams(ctx, level="other"):
    ctx.level = level
    stream_trust(ctx)
    return build.load(FEATS), refdata.get()


def data_premise(ctx, P, names, forms, what):
    """premises over the character data; a difference that shows in the given forms is this property's violation"""
    import codedata
    D = codedata.extract(ctx, P, names)
    w = codedata.form_difference(D, forms)
    if w is not None:
        f, t, a, b = w
        ctx.ob(1, False)
        ctx.violation("data:%s" % f, "%s of %s: with the code's character data the result is %s, Unicode 16.0 says %s" % (
            f, witness.us(t), witness.us(a), witness.us(b)), {"text": t})
    elif not D.same:
        ctx.undec("the character data differs from the reference without showing in %s on the texts tried" % what)
    return D


def run_all(ctx, P, tasks, props):
    other = []
    for r in pool.run(tasks):
        other += merge(ctx, P, r, props)
    return other


def replay_other(ctx, P, other, forms, props, wanted):
    """findings filed under a stage's own property, replayed through the forms built on that stage"""
    texts = []
    for prop, key, msg, site, w in other:
        if prop in wanted and w is not None and len(w["chars"]) < 700:
            t = list(w["chars"])
            for x in (t, t + [0x78], [0x78] + t, t + [0x301], [0x61] + t + [0x78]):
                if x not in texts:
                    texts.append(x)
    if not texts or ctx.violations:
        return
    for r in pool.run([replay_task(P, f, texts[:20]) for f in forms]):
        if not isinstance(r, pool.Crash) and r:
            for v in r["viols"]:
                if v[0] in props and v[4] is not None:
                    merge(ctx, P, dict(r, viols=[v]), props)
                    return


def c07(ctx):
    P, R = load_streams(ctx)
    ctx.rule = ("(1) Value-set abstract interpretation of decompose_cjk_compat_variants over all scalar values against "
                "StandardizedVariants. (2) Fixpoint over the abstract states of Replacements::next under an arbitrary "
                "source: every yielded character must be the next one of the concatenated replacements.")
    scalar.scalar_map(ctx, P, "chars::root_decompose_cjk", True, R.cjk1, is_from(R.cjk), "self", "CJK variant replacement")
    tasks = [stream_task(P, "cjk", 4, True, 300)] + internal_tasks(ctx, P, ["cjk"]) + \
        flat_scripts(P, 300, ctx.thorough, ("cjk",))
    run_all(ctx, P, tasks, ("C07", "C14", "C15"))
    ctx.level = "proof"


def c08(ctx):
    P, R = load_streams(ctx)
    deep = ctx.thorough
    K = {"nfd": 5 if deep else 3, "nfkd": 4 if deep else 3}
    ctx.cover["bounds"] = {"run length with symbolic classes and all interleavings": K,
                           "scripted run lengths": "0..40, 63..66, 127..130, 255..258, 300 and around every integer "
                                                   "constant of the code below 3000, one beyond those below 5000"}
    ctx.rule = ("Fixpoint over the abstract states of Decompositions::next under an arbitrary source (characters as "
                "value sets by starter/non-starter shape, combining classes as a symbolic preorder), compared at every "
                "yield with stable sorting of the current run; long runs by scripted class sequences; premises: C01, "
                "C02, C04 data by value-set analysis.")
    data_premise(ctx, P, ["nfd", "nfkd", "ccc"], ["nfd", "nfkd"], "NFD/NFKD")
    tasks = d_tasks(P, ["nfd", "nfkd"], K, 700 if deep else 200, deep) + internal_tasks(ctx, P, ["nfd", "nfkd"])
    run_all(ctx, P, tasks, ("C08", "C14", "C15"))


def c_tasks(P, K, KU, limit, deep):
    S = sets()
    tasks = []
    for f in ("nfc", "nfkc"):
        tasks.append(stream_task(P, f, K, True, limit))
        if KU.get(f):
            tasks.append(stream_task(P, f, KU[f], False, limit))
    for f in ("nfc", "nfkc"):
        kind, new, nxt = FORMS[f]
        fam = list(families(S, f, int_constants(P, [new, nxt]), deep).items())
        tasks += [script_task(P, f, x, limit) for x in chunks(fam, 3)]
    return tasks


def c09(ctx):
    P, R = load_streams(ctx)
    deep = ctx.thorough
    K = 8 if deep else 6
    KU = {"nfc": 3, "nfkc": 2} if deep else {"nfc": 2}
    ctx.cover["bounds"] = {"marks behind one starter, any classes and any composition outcomes": K,
                           "whole pipeline, run length": KU}
    ctx.rule = ("Fixpoint over the abstract states of Recompositions::next fed by an arbitrary canonically ordered "
                "stream (pairwise composition as a choice consistent with the Unicode pairs on the value sets), compared "
                "at every yield with the UAX #15 composition algorithm; the same with the decomposition stage included; "
                "long texts by scripted class sequences; premises: C01-C04 data and the C08 analysis.")
    data_premise(ctx, P, ["nfd", "nfkd", "ccc", "compose"], ["nfc", "nfkc"], "NFC/NFKC")
    tasks = c_tasks(P, K, KU, 700 if deep else 200, deep)
    tasks += [stream_task(P, f, 3, True, 100) for f in ("nfd", "nfkd")]
    tasks += internal_tasks(ctx, P, ["nfc", "nfkc"])
    other = run_all(ctx, P, tasks, ("C09", "C14", "C15"))
    replay_other(ctx, P, other, ["nfc", "nfkc"], ("C09",), ("C08",))


def c12(ctx):
    P, R = load_streams(ctx)
    ctx.rule = ("Fixpoint over the abstract states of StreamSafe::next under an arbitrary source (characters by the "
                "reference counts of leading and trailing non-starters of their compatibility decomposition; the "
                "classification function summarised by value-set analysis), compared at every yield with UAX15-D4: "
                "U+034F exactly where the count would pass 30, the source's characters otherwise.  The counter is "
                "bounded, so the fixpoint covers streams of every length.")
    run_all(ctx, P, [stream_task(P, "ss", 40, True, 300)] + internal_tasks(ctx, P, ["ss"]) +
            flat_scripts(P, 300, ctx.thorough, ("ss",)), ("C12", "C14", "C15"))
    if not ctx.undecided:
        ctx.level = "proof"


def every_form(P, deep, limit):
    return every_small(P, deep, limit) + every_script(P, ("nfd", "nfc"), deep, limit)


def every_small(P, deep, limit):
    return [stream_task(P, "nfd", 4 if deep else 3, True, limit), stream_task(P, "nfkd", 3 if deep else 2, True, limit),
         stream_task(P, "nfc", 6 if deep else 4, True, limit), stream_task(P, "nfkc", 6 if deep else 4, True, limit),
         stream_task(P, "nfc", 2, False, limit), stream_task(P, "nfkc", 2 if deep else 1, False, limit),
         stream_task(P, "cjk", 4, True, limit), stream_task(P, "ss", 40, True, limit)]


def every_script(P, forms, deep, limit):
    t = []
    S = sets()
    for f in forms:
        kind, new, nxt = FORMS[f]
        fam = list(families(S, f, int_constants(P, [new, nxt]), deep).items())
        t += [script_task(P, f, x, limit) for x in chunks(fam, 3)]
    return t + flat_scripts(P, limit, deep)


def flat_scripts(P, limit, deep, forms=("cjk", "ss")):
    return [script_task(P, f, list(flat_families(P, f, deep).items()), limit) for f in forms]


def c16(ctx):
    P, R = load_streams(ctx)
    ctx.rule = ("In the fixpoint over the abstract states of the six iterators: after the end was returned, every further "
                "call returns the end; and no call of the four form iterators reaches the source's next after the source "
                "reported its end.")
    run_all(ctx, P, every_form(P, ctx.thorough, 300), ("C16",))


def c19(ctx):
    P, R = load_streams(ctx)
    ctx.rule = ("In the fixpoint over the abstract states of the iterators: a call to the source's next is allowed only "
                "when the next output is not determined by what has been read, and constructors make none.")
    run_all(ctx, P, every_form(P, ctx.thorough, 300), ("C19",))


# ------------------------------------------------------------------ C28: what an iterator keeps
def mem_patterns(S, form, deep):
    """texts with runs of bounded length, as patterns to be repeated: name -> (prefix, pattern)"""
    R = S.R
    M = [0x301, 0x323, 0x308, 0x327, 0x334, 0x345, 0x302, 0x31B]
    cyc = lambda L: [M[(i * 3) % 8] for i in range(L)]
    lens = [(i * 17) % 25 for i in range(25)]
    p = {"starters": [0x78, 0x61, 0x4E00], "starters with three marks": [0x78] + cyc(3),
         "starters with twelve marks": [0x61] + cyc(12), "starters with forty marks": [0x78] + cyc(40),
         "runs of every length up to 24": [c for L in lens for c in [0x61] + cyc(L)],
         "Hangul syllables and jamo": [0xAC00, 0xAC01, 0xD7A3, 0x1112, 0x1175, 0x11C2, 0x1100, 0xAC00, 0x11A8],
         "composing pairs": [0x61, 0x301], "composed characters": [0xE1, 0x1EB7, 0xFC, 0x1E69],
         "composing pairs with a lower mark between": [0x61, 0x323, 0x301, 0x78, 0x323, 0x301],
         "blocked marks": [0x61, 0x334, 0x334, 0x301, 0x301, 0x78, 0x334, 0x301],
         "composing starters": [0x9C7, 0x9BE, 0x9C7, 0x9D7, 0xDD9, 0xDCF, 0xDCA],
         "excluded and singleton characters": [0x212B, 0x2126, 0x344, 0x958, 0xFB1D, 0x2ADC, 0x1D15E, 0x340, 0x374],
         "compatibility characters": [0xFDFA, 0xFB01, 0x3300, 0x2460, 0xFF21, 0x1D400, 0xB2, 0x378E],
         "variants": [0x2F800, 0x78, 0x2F803, 0x2F804, 0xF900, 0x301],
         "long decompositions": [0xFDFA, 0xFDFB, 0x1F82, 0x301, 0xFB2C, 0x1D160, 0xFDFA],
         "grapheme joiners": [0x78, 0x34F, 0x301, 0x34F, 0x61, 0x34F]}
    ch = [c for q in list(p.values()) for c in q]
    p["all of these"] = ch
    out = {}
    for k, q in p.items():
        out[k] = ([], q)
        if deep or k in ("starters", "starters with three marks", "composing pairs", "Hangul syllables and jamo"):
            out[k + ", behind one run of 300"] = ([0x78] + cyc(300), q)
            out[k + ", behind a leading run"] = (cyc(70), q)
    return out


def one_step(client, y, ch, form):
    if form in ("cjk", "ss"):
        for o in client.classes():
            if is_has(o[1], ch):
                return o[0], ((ch, ch),), o[2], o[3]
    return y.c(ch, form)[0]


def mem_task(P, form, items):
    """texts whose runs stay short, analysed at two lengths: what is held must not grow with the text"""
    N, F = 1500, 4

    def t():
        y = Sym(sets(), "nfd" if form in ("cjk", "ss") else form)
        cl = iters.make_client(P, form)
        tot = None
        memo = {}

        def go(pre, pat, n, stop=1 << 60):
            text = pre + (pat * (n // len(pat) + 1))[:n]
            for ch in text:
                if ch not in memo:
                    memo[ch] = [one_step(cl, y, ch, form)]
            m, c = run_stream(P, form, K=10 ** 9, cut=False, script=script_of([memo[ch] for ch in text]), measure=stop)
            return text, m, c
        for name, (pre, pat) in items:
            text, m, c = go(pre, pat, N)
            r = summary(m, c, "%s: %s" % (form, name))
            r["held"] = top = max(c.held) if c.held else 0
            q = max(c.held[:len(c.held) // 4 + 1]) if c.held else 0
            if top - len(pre) >= 32 and (pre or top >= 2 * q) and not m.undecided and not c.viols:
                stop = top + max(200, 6 * (F - 1) * (top - len(pre)) // 10)
                text2, m2, c2 = go(pre, pat, N * F, stop)
                top2 = max(c2.held)
                for u, k in m2.undecided.items():
                    r["undecided"][u] = r["undecided"].get(u, 0) + k
                if top2 >= stop:
                    r["viols"].append(("C28", "grows:" + form, "%s: what the iterator holds grows with the text although "
                                       "no run does: %d elements within a text of %d characters, %d within %d of the same "
                                       "pattern (%s)" % (form, top, len(text), top2, len(text2), name),
                                       (P.root(FORMS[form][2]).deff,),
                                       {"text": "%s, repeated%s" % (witness.us(pat), ", behind %d marks" % len(pre) if pre
                                                                    else ""), "chars": text2[:3000]}))
            tot = r if tot is None else dict(join(tot, r), held=max(tot["held"], r["held"]))
            if tot["viols"]:
                break
        tot["what"] = "%s: %d long texts of short runs" % (form, len(items))
        return tot
    return t


def c28(ctx):
    P, R = load_streams(ctx)
    deep = ctx.thorough
    ctx.rule = ("The iterator's whole state is part of the abstract state (containers with all their elements), so a fixpoint "
                "that closes over texts of every length bounds what is held; where the runs are longer than the closed "
                "analyses cover, the number of elements in all containers reachable from the iterator is followed through "
                "long texts of bounded runs and must not grow with the text.")
    S = sets()
    tasks = []
    for f in FORMS:
        items = list(mem_patterns(S, f, deep).items())
        tasks += [mem_task(P, f, x) for x in chunks(items, 3)]
    held = 0
    for r in pool.run(tasks):
        merge(ctx, P, r, ("C28",))
        if not isinstance(r, pool.Crash):
            held = max(held, r.get("held", 0))
    if not ctx.violations:
        run_all(ctx, P, every_small(P, deep, 300 if deep else 150), ("C28",))
    ctx.cover["most_elements_held"] = held
