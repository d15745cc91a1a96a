"""C21 (no shared state, thread-safe types) and C22 (same behaviour in every build configuration)."""
import json, re, sys
import build, refdata, iters, pool, scalar, witness, streams, objects, predicates, safety, mir
from terms import *
from machine import Machine, Unsupported

OWN = ("unicode_normalization", "tinyvec")
ALL = ["chars", "forms", "hints", "clonefmt", "recv", "pred", "autho", "misc"]

# what a function of its arguments never calls
FORBIDDEN = [("std::time::", "the clock"), ("core::time::Instant", "the clock"), ("std::env::", "the environment"),
             ("std::fs::", "the file system"), ("std::io::stdin", "standard input"), ("std::net::", "the network"),
             ("std::process::id", "the process id"), ("std::process::Command", "another process"),
             ("std::thread::current", "the current thread"), ("std::thread::LocalKey", "thread-local state"),
             ("std::thread::local", "thread-local state"), ("std::thread::available_parallelism", "the machine"),
             ("std::hash::RandomState", "randomness"), ("std::hash::random", "randomness"),
             ("std::collections::hash_map::RandomState", "randomness"), ("std::sys::random", "randomness"),
             ("std::random::", "randomness")]
FOREIGN = {"time", "clock_gettime", "gettimeofday", "rand", "random", "getrandom", "getpid", "gettid", "getenv", "read",
           "clock"}


def root_ids(P):
    return [f.id for n, f in P.roots.items() if n.split("::")[-1].startswith("root_")]


def own_callers(P, ids):
    """reachable functions whose direct calls count as the crate's own"""
    return [P.fns[i] for i in sorted(ids) if P.fns[i].crate in OWN and P.fns[i].body]


def consts(x):
    """constant operands of a statement or terminator"""
    if type(x) is dict:
        if "c" in x:
            yield x
        for v in x.values():
            if type(v) in (dict, list):
                yield from consts(v)
    elif type(x) is list:
        for e in x:
            if type(e) in (dict, list):
                yield from consts(e)


def pointees(P, v, seen, memo={}):
    """static names a constant value refers to"""
    if type(v) is dict:
        if "p" in v and v["p"] not in seen:
            i = v["p"]
            seen.add(i)
            a = P.allocs[i]
            if a.get("static") is not None:
                yield a["static"]
            vals = a.get("vals")
            if vals and type(vals[0]) is not int:
                for e in vals:
                    yield from pointees(P, e, seen)
        for k in ("f", "a"):
            for e in v.get(k, ()):
                if type(e) is dict:
                    yield from pointees(P, e, seen)


def path_to(P, target):
    """call path from an entry point to a function"""
    todo = [[i] for i in root_ids(P)]
    seen = set()
    while todo:
        p = todo.pop(0)
        if p[-1] == target:
            return " -> ".join(P.fns[i].deff for i in p)
        if p[-1] in seen:
            continue
        seen.add(p[-1])
        todo += [p + [j] for j in P.direct(p[-1])]
    return "?"


def census(ctx, P, where):
    ids = P.reach(root_ids(P))
    n = calls = nconst = 0
    for f in own_callers(P, ids):
        n += 1
        ctx.functions.add(f.deff)
        for bi, (st, t, line) in enumerate(f.blocks):
            site = {"function": f.deff, "file": f.file, "line": line, "config": where}
            for s in st + [t]:
                for c in consts(s):
                    nconst += 1
                    for name in pointees(P, c["c"], set()):
                        bad = P.mutable_static(name)
                        ctx.ob(1, not bad)
                        if bad:
                            ctx.violation("static:" + name, "%s uses the mutable global %s (%s); path %s" % (
                                f.deff, name, where, path_to(P, f.id)), site)
                if s[0] == "=" and s[2][0] == "tls":
                    ctx.ob(1, False)
                    ctx.violation("tls:" + s[2][1], "%s uses the thread-local %s (%s); path %s" % (
                        f.deff, s[2][1], where, path_to(P, f.id)), site)
                if s[0] == "=" and s[2][0] == "cast" and "PointerExposeAddress" in s[2][1].replace(" ", ""):
                    exposes(ctx, P, f, s, site)
            if t[0] == "asm":
                ctx.undec("inline assembly in " + f.deff)
            if t[0] != "call":
                continue
            if not isinstance(t[1], int):
                continue
            calls += 1
            g = P.fns[t[1]]
            hit = next((w for p, w in FORBIDDEN if g.deff.startswith(p) or g.name.startswith(p)), None)
            if g.crate not in ("core", "alloc", "harness") + OWN and hit is None:
                base = g.deff.rsplit("::", 1)[-1]
                if base in FOREIGN:
                    hit = "the system"
                elif g.crate != "std":
                    ctx.undec("call of %s (crate %s) in %s" % (g.deff, g.crate, f.deff))
                else:
                    ctx.undec("call of the standard library's %s in %s" % (g.deff, f.deff))
            if re.search(r"(const_ptr|mut_ptr).*::(addr|expose_provenance)$", g.deff):
                exposes(ctx, P, f, ["=", t[3], None], site)
            if re.search(r"ptr::(align_offset|is_aligned)|::align_to", g.deff):
                ctx.undec("%s depends on the address of its argument in %s" % (g.deff, f.deff))
            ctx.ob(1, hit is None)
            if hit:
                ctx.violation("call:" + g.deff, "%s consults %s through %s (%s); path %s" % (
                    f.deff, hit, g.deff, where, path_to(P, f.id)), site)
    c = ctx.cover
    c["functions_" + where] = n
    c["calls_" + where] = calls
    c["constants_" + where] = nconst
    for s in P.raw["all_statics"]:
        if s["mut"]:
            ctx.cover.setdefault("mutable_statics_declared", []).append(s["name"])
    if not n:
        raise RuntimeError("no function of the crate is reachable from the entry points")


def exposes(ctx, P, f, s, site):
    """an address as an integer: fine when it is only subtracted from another address"""
    dst = s[1]
    ok = False
    if len(dst) == 1:
        uses = []
        for st, t, line in f.blocks:
            for x in st:
                if x is not s and x[0] == "=" and mentions(x[2], dst[0]):
                    uses.append(x[2])
            if mentions(t[1:] if t[0] != "call" else t[2], dst[0]):
                uses.append(t)
        ok = bool(uses) and all(u[0] in ("bin", "cbin", "use") and (u[0] == "use" or u[1].startswith("Sub")) for u in uses)
    if ok:
        ctx.undec("address arithmetic in " + f.deff)
    else:
        ctx.ob(1, False)
        ctx.violation("address:" + f.deff, "%s turns an address into an integer; path %s" % (f.deff, path_to(P, f.id)), site)


def mentions(x, l):
    if type(x) is dict:
        for k in ("cp", "mv"):
            if k in x and x[k][0] == l:
                return True
        return any(mentions(v, l) for v in x.values() if type(v) in (dict, list))
    if type(x) is list:
        return any(mentions(e, l) for e in x if type(e) in (dict, list))
    return False


def first_error(log):
    i = log.find("\nerror")
    return re.sub(r"\s+", " ", log[max(i, 0):][:600])


def c21(ctx):
    ctx.rule = ("Census over the monomorphised MIR reachable from every public entry point, in both feature "
                "configurations: no access to a mutable, interior-mutable or thread-local static, no call that consults "
                "clock, environment, files, randomness or the machine, no address turned into an integer; and type-level "
                "obligations that the iterators are Send and Sync whenever their source is.")
    ctx.level = "proof"
    ctx.trusted = ["rustc's MIR construction, name resolution and trait solving", "the core, alloc and tinyvec functions "
                   "called are functions of their arguments (no mutable statics: listed in the evidence)"]
    ctx.assumptions += ["the source iterator shares no state with the iterator"]
    P = None
    try:
        P = build.load(ALL + ["types"])
        ctx.ob(10)
    except build.BuildError as e:
        msg = str(e)
        try:
            P = build.load(ALL)
        except build.BuildError:
            raise e
        ctx.ob(10, False)
        m = re.findall(r"`[^`]*` cannot be (?:sent|shared) between threads safely|the trait bound `[^`]*` is not "
                       r"satisfied|the trait `[^`]*` is not implemented[^\n]*", msg)
        if m:
            ctx.violation("types", "an iterator is not Send or Sync although its source is: " + "; ".join(
                sorted(set(m))[:4]), {"compiler": msg[-3000:]})
        else:
            ctx.undec("the type-level obligations do not compile: " + first_error(msg))
    ctx.cover["type_obligations"] = 10
    census(ctx, P, "std")
    try:
        Q = build.load(ALL, std=False)
    except build.BuildError as e:
        ctx.undec("the crate does not build without std (C22)")
        return
    census(ctx, Q, "no-std")


# ------------------------------------------------------------------ C22
class Canon:
    """function bodies with ids replaced by names, so that two dumps can be compared"""

    def __init__(self, P):
        self.P = P
        self.am = {}

    def alloc(self, i):
        r = self.am.get(i)
        if r is None:
            self.am[i] = "..."
            a = self.P.allocs[i]
            vals = a.get("vals")
            if vals is not None and vals and type(vals[0]) is not int:
                vals = [self.value(v) for v in vals]
            r = self.am[i] = hash((a.get("static"), self.P.types.name(a["t"]) if "t" in a else None, a.get("slice"),
                                   repr(vals), a.get("x")))
        return r

    def value(self, v):
        if type(v) is not dict:
            return v
        if "p" in v:
            return ("p", self.alloc(v["p"]), v["m"])
        if "fn" in v:
            return ("fn", self.P.fns[v["fn"]].name)
        if "zst" in v:
            return ("zst", self.tname(v["zst"]))
        if "addr" in v:
            return ("addr", v["addr"], self.tname(v["t"]))
        if "f" in v:
            return ("f", v["v"], tuple(self.value(x) for x in v["f"]))
        if "a" in v:
            return ("a", tuple(self.value(x) for x in v["a"]))
        return tuple(sorted((k, str(x)) for k, x in v.items()))

    def tname(self, t):
        if t is None:
            return None
        x = self.P.types[t]
        if x["k"] == "fndef" and x["inst"] is not None:
            return x["name"] + " " + self.P.fns[x["inst"]].name
        return x["name"]

    def place(self, p):
        return tuple(("f", e[1], self.tname(e[2])) if type(e) is list and e[0] == "f" else
                     tuple(e) if type(e) is list else e for e in p)

    def operand(self, o):
        for k in ("cp", "mv"):
            if k in o:
                return (k, self.place(o[k]))
        if "c" in o:
            return ("c", self.value(o["c"]), self.tname(o.get("t")))
        return tuple(sorted((k, str(x)) for k, x in o.items()))

    def rvalue(self, r):
        k = r[0]
        if k in ("ref", "discr", "len"):
            return (k, self.place(r[1]))
        if k == "cast":
            return (k, r[1], self.operand(r[2]), self.tname(r[3]))
        if k == "agg":
            return (k, r[1], tuple(map(self.operand, r[2])), self.tname(r[3]) if len(r) > 3 else None)
        if k == "fnptr":
            return (k, self.P.fns[r[1]].name)
        out = [k]
        for x in r[1:]:
            if type(x) is dict:
                out.append(self.operand(x))
            elif type(x) is list:
                out.append(tuple(self.operand(y) if type(y) is dict else y for y in x))
            else:
                out.append(x)
        return tuple(out)

    def stmt(self, s):
        k = s[0]
        if k == "=":
            return (k, self.place(s[1]), self.rvalue(s[2]))
        if k == "sd":
            return (k, self.place(s[1]), s[2])
        if k == "copy":
            return (k,) + tuple(self.operand(x) for x in s[1:])
        return tuple(s)

    def term(self, t):
        k = t[0]
        if k == "switch":
            return (k, self.operand(t[1]), tuple(map(tuple, t[2])), t[3])
        if k == "drop":
            return (k, self.place(t[1]), t[2], None if t[3] is None else self.P.fns[t[3]].name)
        if k == "call":
            f = self.P.fns[t[1]].name if type(t[1]) is int else self.operand(t[1]) if type(t[1]) is dict else None
            return (k, f, tuple(map(self.operand, t[2])), self.place(t[3]), t[4])
        if k == "assert":
            m = t[3]
            return (k, self.operand(t[1]), t[2], (m[0],) + tuple(self.operand(x) if type(x) is dict else x
                                                               for x in m[1:]), t[4])
        return tuple(t)

    def body(self, f, strip):
        """strip: overflow checks become plain operations (they are discharged elsewhere), blocks are merged"""
        B = [[[self.stmt(s) for s in st], self.term(t)] for st, t, line in f.blocks]
        L = tuple(self.tname(x) for x in f.locals)
        if not strip:
            return (L, tuple((tuple(s), t) for s, t in B))
        pairs = set()
        for b in B:
            for s in b[0]:
                if s[0] == "=" and s[2][0] == "cbin" and len(s[1]) == 1:
                    pairs.add(s[1][0])
        out = []
        ren = {}
        for st, t in B:
            ns = []
            for s in st:
                if s[0] == "=" and s[2][0] == "cbin" and s[1][0] in pairs:
                    ns.append(("=", s[1], ("bin", s[2][1].replace("WithOverflow", "")) + s[2][2:]))
                else:
                    ns.append(s)
            if t[0] == "assert" and t[3][0] == "overflow":
                t = ("goto", t[4])
            out.append([ns, t])
        return linear(f, out, pairs)


def linear(f, B, pairs):
    """depth-first listing of the blocks with jumps folded and locals numbered in order of first use"""
    num = {}
    names = {}

    def loc(i):
        if i <= f.argc:
            return i
        return names.setdefault(i, "v%d" % len(names))

    def ren(x):
        if type(x) is tuple and x:
            if x[0] in ("cp", "mv") and len(x) == 2:
                return ("cp", pl(x[1]))
            if x[0] == "c":
                return x
            return (x[0],) + tuple(ren(e) for e in x[1:]) if type(x[0]) is str else tuple(ren(e) for e in x)
        return x

    def pl(p):
        r = (loc(p[0]),) + tuple(("i", loc(e[1])) if type(e) is tuple and e[0] == "i" else e for e in p[1:])
        if p[0] in pairs and len(p) == 2 and type(p[1]) is tuple and p[1][:2] == ("f", 0):
            return r[:1]
        return r

    out = []
    # the result of a checked operation goes straight to where it is moved
    dest = {}
    for st, t in B:
        for s in st:
            if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in ("cp", "mv"):
                q = s[2][1][1]
                if q[0] in pairs and len(q) == 2 and type(q[1]) is tuple and q[1][:2] == ("f", 0):
                    dest[q[0]] = None if q[0] in dest else s[1]

    def go(b):
        body = []
        while True:
            if b in num:
                body.append(("goto", num[b]))
                break
            if not body:
                num[b] = len(num)
            st, t = B[b]
            for s in st:
                if s[0] == "dead":
                    continue
                if s[0] == "=":
                    if s[2][0] == "bin" and len(s[1]) == 1 and dest.get(s[1][0]) is not None:
                        r = ren(s[2])
                        body.append(("=", pl(dest[s[1][0]]), r))
                        continue
                    if s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and dest.get(s[2][1][1][0]) is not None \
                            and len(s[2][1][1]) == 2:
                        continue
                    if s[2][0] in ("ref", "discr", "len"):
                        body.append(("=", pl(s[1]), (s[2][0], pl(s[2][1]))))
                        continue
                    r = ren(s[2])
                    body.append(("=", pl(s[1]), r))
                else:
                    body.append(ren(s))
            if t[0] == "goto" and preds[t[1]] == 1:
                b = t[1]
                continue
            if t[0] == "goto":
                body.append(("jump",))
                out.append(tuple(body))
                k = len(out) - 1
                n = go_ref(t[1])
                out[k] = out[k] + (n,)
                return
            break
        else:
            t = None
        if body and body[-1][0] == "goto":
            out.append(tuple(body))
            return
        succ = []
        if t[0] == "switch":
            body.append(("switch", ren(t[1]), tuple(v for v, _ in t[2])))
            succ = [x for _, x in t[2]] + [t[3]]
        elif t[0] == "drop":
            body.append(("drop", pl(t[1]), t[3]))
            succ = [t[2]]
        elif t[0] == "call":
            f1 = ren(t[1]) if type(t[1]) is tuple else t[1]
            body.append(("call", f1, tuple(map(ren, t[2])), pl(t[3])))
            succ = [t[4]] if t[4] is not None else []
        elif t[0] == "assert":
            body.append(("assert", ren(t[1]), t[2], tuple(ren(x) for x in t[3])))
            succ = [t[4]]
        else:
            body.append(t)
        out.append(tuple(body))
        k = len(out) - 1
        out[k] = out[k] + (tuple(go_ref(x) for x in succ),)

    def go_ref(b):
        if b not in num:
            n = num.setdefault(b, len(num))
            del num[b]
            go(b)
        return num[b]

    preds = {}
    seen = {0}
    work = [0]
    preds[0] = 2
    while work:
        b = work.pop()
        for x in succs(B[b][1]):
            preds[x] = preds.get(x, 0) + 1
            if x not in seen:
                seen.add(x)
                work.append(x)
    go(0)
    return tuple(out)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x for _, x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def compare(ctx, P, Q, what, strip):
    """names of functions (reachable from the entry points) whose bodies differ"""
    a, b = Canon(P), Canon(Q)
    fa = {P.fns[i].name: P.fns[i] for i in P.reach(root_ids(P)) if P.fns[i].crate in OWN + ("harness",)}
    fb = {Q.fns[i].name: Q.fns[i] for i in Q.reach(root_ids(Q)) if Q.fns[i].crate in OWN + ("harness",)}
    diff = []
    for n in sorted(set(fa) | set(fb)):
        x, y = fa.get(n), fb.get(n)
        same = (x is not None and y is not None and x.body == y.body and
                (not x.body or a.body(x, strip) == b.body(y, strip)))
        ctx.ob(1)
        ctx.functions.add((x or y).deff)
        if not same:
            diff.append(n)
    ctx.cover["functions_compared_" + what] = len(set(fa) | set(fb))
    ctx.cover["functions_different_" + what] = diff[:60]
    return diff


def behave_tasks(P, stage, limit):
    """every specification the other checks hold the code to, in small; scripted long texts in the second stage"""
    if stage == 2:
        return [("s", t) for t in streams.every_script(P, ("nfd", "nfc"), False, limit)]
    ts = [("s", t) for t in streams.every_small(P, False, limit)]
    for p in predicates.PRED:
        ts += [("s", predicates.pred_task(P, p, True, limit)), ("s", predicates.pred_task(P, p, False, limit))]
    K = {"nfd": 2, "nfkd": 1, "nfc": 2, "nfkc": 2, "cjk": 4, "ss": 40}
    ts += [("s", objects.hint_task(P, f, K[f], limit)) for f in iters.FORMS]
    ts += [("s", objects.show_task(P, f, K[f], limit)) for f in K if f != "ss"]
    ts += [("s", objects.cut_display_task(P, f)) for f in K if f != "ss"]
    ts += [("s", safety.scalar_task(P, *x)) for x in safety.SCALAR]
    ts.append(("s", safety.api_task(P, 40)))
    ts.append(("d", data_task(P)))
    return ts


class Quiet:
    """collects what the scalar comparison reports"""

    def __init__(self):
        self.und = {}
        self.functions = set()
        self.cover = {}
        self.n = 0

    def merge_machine(self, m, what=""):
        for k, v in m.undecided.items():
            self.und[what + ": " + k] = v

    def undec(self, msg, n=1):
        self.und[msg] = n

    def ob(self, n=1, ok=True):
        self.n += n


def data_task(P):
    def t():
        q = Quiet()
        R = refdata.get()
        han = ((0xAC00, 0xD7A3),)
        d = {}
        sd = scalar.scalar_diffs
        d["decompose_canonical"] = sd(q, P, "chars::root_decompose_canonical", True, R.nfd1,
                                      is_or(is_from(R.canon), han), "self")
        d["decompose_compatible"] = sd(q, P, "chars::root_decompose_compatible", True, R.nfkd1,
                                       is_or(is_from(set(R.canon) | set(R.compat)), han), "self")
        d["decompose_cjk"] = sd(q, P, "chars::root_decompose_cjk", True, R.cjk1, is_from(R.cjk), "self")
        d["combining class"] = sd(q, P, "chars::root_ccc", False, lambda c: (R.ccc(c),), R.nonstarter_set(), 0)
        d["is_combining_mark"] = sd(q, P, "chars::root_is_combining_mark", False,
                                    lambda c: (int(is_has(R.mark, c)),), R.mark, 0)
        d["is_public_assigned"] = sd(q, P, "chars::root_is_public_assigned", False,
                                     lambda c: (int(is_has(R.assigned, c)),), R.assigned, 0)
        d["compose"] = scalar.compose_diffs(q, P, R)
        m, c = scalar.run_scalar(P, "chars::root_version", 0)
        d["version"] = {0: repr([x[1] for x in c.results])}
        return d, q.und, q.n
    return t


def pair(ctx, P, Q, la, lb, limit):
    for stage in (1, 2):
        stage_pair(ctx, P, Q, la, lb, stage, limit)
        if ctx.violations:
            return


def outcome(P, form, text):
    import stability
    try:
        return witness.us(stability.eval_form(P, form, text))
    except Unsupported as e:
        return str(e) if str(e).startswith(("panic", "ub")) else None


def confirm(P, Q, text, what):
    """a text on which the two configurations yield different streams"""
    form = what.replace(":", " ").replace(",", " ").split()[0]
    if form not in iters.FORMS or not text:
        return None
    for t in (list(text), list(text) + [0x61], list(text) * 2):
        a, b = outcome(P, form, t), outcome(Q, form, t)
        if a is not None and b is not None and a != b:
            return form, t, a, b
    return None


def stage_pair(ctx, P, Q, la, lb, stage, limit):
    """run every specification on both configurations; a difference in what they report is a violation"""
    ta, tb = behave_tasks(P, stage, limit), behave_tasks(Q, stage, limit)
    seen = [0] * len(ta)

    def done(i, out):
        j = i // 2
        seen[j] += 1
        if seen[j] == 2:
            compare_pair(ctx, P, Q, la, lb, ta[j][0], out[2 * j], out[2 * j + 1])
        return bool(ctx.violations)
    rs = pool.run([t for x, y in zip(ta, tb) for t in (x[1], y[1])], done=done)
    if not ctx.violations:
        for j, n in enumerate(seen):
            if n < 2:
                compare_pair(ctx, P, Q, la, lb, ta[j][0], rs[2 * j], rs[2 * j + 1])


def compare_pair(ctx, P, Q, la, lb, kind, x, y):
    c = ctx.cover
    for r, l in ((x, la), (y, lb)):
        if isinstance(r, pool.Crash):
            ctx.undec("analysis task (%s): %s" % (l, str(r).strip().split("\n")[-1]))
    if isinstance(x, pool.Crash) or isinstance(y, pool.Crash):
        return
    if kind == "d":
        da, ua, na = x
        db, ub, nb = y
        ctx.ob(na + nb)
        for u, l in ((ua, la), (ub, lb)):
            for k, n in u.items():
                ctx.undec("%s: %s" % (l, k), n)
        for f in da:
            for ch in sorted(set(da[f]) | set(db[f]), key=str):
                va, vb = da[f].get(ch, "as specified"), db[f].get(ch, "as specified")
                if va != vb and not ua and not ub:
                    ctx.ob(1, False)
                    ctx.violation("data:" + f, "%s of %s differs: %s with %s, %s with %s" % (
                        f, witness.us(ch if type(ch) is tuple else (ch,)) if f != "version" else "-", va, la, vb, lb),
                        {"argument": ch})
                    break
        return
    for k, n in (("mir_steps", "steps"), ("paths", "paths"), ("abstract_states", "states"), ("outputs_compared", "outputs")):
        c[k] = c.get(k, 0) + x[n] + y[n]
    ctx.ob(x["outputs"] + y["outputs"])
    for r, P0, l in ((x, P, la), (y, Q, lb)):
        for i in r["covered"]:
            if P0.fns[i].crate in OWN:
                ctx.functions.add(P0.fns[i].deff)
        for k, n in r["undecided"].items():
            ctx.undec("%s: %s: %s" % (l, r["what"].split(":")[0], k), n)
    ka = {v[1]: v for v in x["viols"] if v[4] is not None}
    kb = {v[1]: v for v in y["viols"] if v[4] is not None}
    for k in sorted(set(ka) ^ set(kb)):
        v, l, other = (ka[k], la, lb) if k in ka else (kb[k], lb, la)
        r = y if k in ka else x
        if r["undecided"]:
            e = confirm(P, Q, v[4].get("chars"), x["what"])
            if e is not None:
                ctx.ob(1, False)
                ctx.violation("differs:" + e[0], "%s of %s: %s with %s, %s with %s" % (
                    e[0], witness.us(e[1]), e[2], la, e[3], lb), {"text": e[1], "site": v[3]})
                continue
            ctx.undec("seen with %s only, but the analysis with %s is incomplete: %s" % (l, other, v[2]))
            continue
        ctx.ob(1, False)
        w = v[4]
        ctx.violation("differs:" + k, "with %s only: %s; text %s; with %s the specification is met there" % (
            l, v[2], w.get("text"), other), {"site": v[3], "witness": w})


def c22(ctx):
    ctx.rule = ("(1) Without the std feature the crate builds and the crate graph the compiler loads has no std.  (2) The "
                "monomorphised MIR of every function reachable from the public entry points is identical with and without "
                "std; where it is not, the specifications of the other properties are evaluated by abstract interpretation "
                "in both configurations and must report the same.  (3) The same with debug assertions and overflow checks "
                "off; there the MIR is also compared after removing the overflow checks.")
    ctx.level = "other"
    streams.stream_trust(ctx)
    sets = iters.sets
    P = Q = N = None
    err = {}

    def ld(std, debug):
        try:
            return build.load(ALL, std=std, debug=debug)
        except build.BuildError as e:
            err[(std, debug)] = e
            return None
    P = ld(True, True)
    N = ld(False, True)
    if P is None and N is None:
        raise err[(True, True)]
    for (k, e) in err.items():
        ctx.ob(1, False)
        ctx.violation("build:%s" % ("std" if k[0] else "no-std"), "the crate does not build with the std feature %s: %s" % (
            "on" if k[0] else "off", first_error(str(e))), {"compiler": str(e)[-3000:]})
    if N is not None:
        bad = [c for c in ("std",) if c in N.crates]
        ctx.ob(1, not bad)
        ctx.cover["crates_without_std"] = N.crates
        if bad:
            ctx.violation("std", "with the std feature off the crate still links the standard library", {"crates": N.crates})
    if P is None or N is None:
        return
    R = ld(True, False)
    if R is None:
        ctx.ob(1, False)
        ctx.violation("build:release", "the crate does not build with debug assertions off: " +
                      first_error(str(err[(True, False)])), None)
        return
    sets()
    lim = 60
    d1 = compare(ctx, P, N, "std_nostd", False)
    d2 = compare(ctx, P, R, "debug_release", True)
    ctx.cover["debug_release_identical_modulo_overflow_checks"] = not d2
    if d1 or ctx.thorough:
        pair(ctx, P, N, "std", "no-std", lim)
    if ctx.violations:
        return
    pair(ctx, P, R, "debug assertions on", "debug assertions off", lim)


# ------------------------------------------------------------------ C27
TYPES = {"Decompositions": ("nfd", "nfkd"), "Recompositions": ("nfc", "nfkc"), "Replacements": ("cjk",), "StreamSafe": ("ss",)}
MEAN = {"iterator": "%s over a source that has nothing but next is not an Iterator of char",
        "fused": "%s over a fused source is not a FusedIterator", "unpin": "%s over chars is not Unpin",
        "clone": "%s over a cloneable source is not Clone", "display": "%s over a cloneable source is not Display",
        "receiver": "%s is not accepted as text to normalize", "debug": "%s is not Debug", "eq": "%s is not Eq"}


def revived(form):
    """a text (then the end, then more) after whose end the iterator yields again; None when it does not"""
    import streams, iters, witness
    P = build.load(streams.FEATS)
    S = iters.sets()
    y = streams.Sym(S, "nfd" if form in ("cjk", "ss") else form)
    cl = iters.make_client(P, form)
    for text in ([], [0x61], [0x61, 0x301], [0x301], [0xF900], [0x2F800], [0x61] + [0x301] * 31, [0xAC00]):
        steps = [[streams.one_step(cl, y, ch, form)] for ch in text]
        m, c = iters.run_stream(P, form, K=10 ** 9, cut=False, script=streams.script_of(steps), revive=True)
        for (prop, key), v in c.viols.items():
            if key.startswith("output-after-end"):
                return text
    return None


def c27(ctx):
    """trait promises for every source type"""
    ctx.rule = ("Type-level witnesses: a generic module that compiles only if the adaptors are iterators for every source, "
                "fused for every fused one, Clone and Display for every cloneable one, and the receivers, predicates and "
                "callbacks accept every type they are documented for; named compile-time probes over sources that implement "
                "nothing else; FusedIterator must not be claimed for sources that are not fused unless the iterator itself "
                "keeps returning the end (abstract interpretation with a source that yields again).")
    ctx.level = "proof"
    ctx.trusted = ["rustc's trait solving and constant evaluation"]
    ctx.assumptions += ["promises are those of the documented public API of the pinned commit"]
    n = {"contract": 29, "generic": 44}
    ctx.cover["type_obligations"] = n
    bad = set()
    for std in (True, False):
        w = "with std" if std else "without std"
        ok, log = build.compiles(["contract"], std)
        names = sorted(set(re.findall(r"panicked[^\n\[]*\[([a-z]+:[^\]\n]+)\]", log)))
        if not ok and not names:
            ctx.undec("the probes do not compile %s: %s" % (w, first_error(log)))
            continue
        ctx.ob(n["contract"] - len(names))
        for nm in names:
            if nm in bad:
                continue
            bad.add(nm)
            kind, what = nm.split(":", 1)
            if kind == "unfused":
                for form in TYPES[what]:
                    t = revived(form)
                    if t is not None:
                        ctx.ob(1, False)
                        ctx.violation(nm, "%s claims FusedIterator for sources that are not fused, yet yields again after "
                                      "having returned the end: text [%s], the end, then more (%s)" % (
                                          what, " ".join("U+%04X" % c for c in t), form))
                        break
                else:
                    ctx.ob(1)
            elif kind in MEAN:
                ctx.ob(1, False)
                ctx.violation(nm, "%s: %s" % (w, MEAN[kind] % what), {"compiler": log[-3000:]})
            else:
                ctx.undec("probe " + nm)
    for std in (True, False):
        ok, log = build.compiles(["generic"], std)
        if ok:
            ctx.ob(n["generic"])
            continue
        errs = re.findall(r"error\[(E\d+)\]: ([^\n]*)\n\s*--> src/lib\.rs", log)
        hard = sorted({m for c, m in errs if c in ("E0277", "E0310", "E0311", "E0478", "E0491", "E0038") or
                       c == "E0599" and "trait bounds" in m})
        ctx.ob(n["generic"] - max(len(errs), 1))
        ctx.ob(max(len(errs), 1), False)
        if hard and len(hard) >= 1 and not [m for c, m in errs if c in ("E0432", "E0433", "E0425", "E0412")]:
            ctx.violation("generic", "%s: a promise for every source type does not hold: %s" % (
                "with std" if std else "without std", "; ".join(hard[:4])), {"compiler": log[-3000:]})
            break
        ctx.undec("the generic obligations do not compile: " + first_error(log))
