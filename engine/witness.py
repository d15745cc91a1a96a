"""Turns an abstract counterexample (value sets, rank order, composition choices) into a concrete text, by constraint
search over the reference data, and confirms with the reference algorithms that the text contradicts the code."""
import itertools
from terms import *

NICE = [0x61, 0x62, 0x78, 0x41, 0x4E00, 0x3042, 0x7A, 0x20]


def u(c):
    return "U+%04X" % c


def us(cs, limit=60):
    cs = list(cs)
    s = " ".join(u(c) for c in cs[:limit])
    return s + (" … (%d characters)" % len(cs) if len(cs) > limit else "")


def events(st):
    out = []
    t = st.trace
    while t is not None:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out


def sample(D, n, R, k=0):
    """a varied sample of a value set"""
    tot = is_size(D)
    if tot <= n:
        return list(is_points(D))
    out = [c for c in NICE if is_has(D, c)]
    step = max(1, tot // n)
    i = 0
    want = (k * 7) % step if step > 1 else 0
    for a, b in D:
        m = b - a + 1
        while want < i + m:
            out.append(a + want - i)
            want += step
            if len(out) >= n:
                return out
        i += m
    return out


def whole(st):
    """the state with what was put aside of its characters"""
    if "old" not in st.orc:
        return st
    d, orc = dict(st.dom.d), dict(st.orc)
    o = orc.pop("old")
    while o is not None:
        d.update(o[1])
        orc.update((k, v) for k, v in o[2].items() if k != "old")
        o = o[0]
    st = st.copy()
    st.dom = Dom(d, st.dom.pts, st.dom.excl)
    st.orc = orc
    return st


def concretise(client, st, out=None, mode="any", limit=400):
    S, R = client.S, client.R
    st = whole(st)
    ev_ = events(st)
    d = st.dom.d
    pulls = [e for e in ev_ if e[0] == "pull"]
    orders = {e[1] for e in ev_ if e[0] == "ord"}
    if st.order:
        orders.add(st.order)
    comps = [e for e in ev_ if e[0] == "comp"]
    conds = [e for e in ev_ if e[0] == "cond"]
    nones = [(k[1], k[2]) for k, v in st.orc.items() if k[0] == "comp" and v is None]
    emitted = [e[1] for e in ev_ if e[0] == "out"]
    if len(pulls) > 2000:
        return greedy(client, st, d, pulls, comps, emitted, out, mode)
    links = {}
    for k, v in st.orc.items():
        if k[0] == "link":
            links[k[1]] = v

    # rank choices of multi-piece tokens
    multi = []
    for _, c, pcs in pulls:
        if pcs and pcs[0] != c:
            one = client.one(links[pcs[0]][2])
            g = {}
            for q in is_points(d[c]):
                w = one(q)
                if all(is_has(d[p], w[i]) for i, p in enumerate(pcs)):
                    g.setdefault(tuple(R.ccc(x) for x in w), []).append(q)
            if not g:
                return None
            multi.append((c, pcs, sorted(g.items())))
    budget = [limit]
    for combo in itertools.islice(itertools.product(*[x[2] for x in multi]), 3000):
        fixed = {}
        cand = {}
        for (c, pcs, _), (rk, qs) in zip(multi, combo):
            for p, r in zip(pcs, rk):
                fixed[p] = r
            cand[c] = qs
        ranks = solve_ranks(S, orders, d, fixed)
        if ranks is None:
            continue
        w = search(client, st, d, pulls, comps, conds, nones, links, ranks, cand, emitted, out, mode, budget)
        if w is not None:
            return w
        if budget[0] <= 0:
            break
    return None


def greedy(client, st, d, pulls, comps, emitted, out, mode):
    """a very long text (a script's): its characters independently of each other"""
    R = client.R
    memo = {}
    links = {k[1]: v for k, v in st.orc.items() if k[0] == "link"}
    for turn in range(3):
        asg = {}
        for i, (_, c, pcs) in enumerate(pulls):
            xs = memo.get(d[c])
            if xs is None:
                xs = memo[d[c]] = [x for x in sample(d[c], 8, R, 0) if is_has(d[c], x)]
            if not xs:
                return None
            asg[c] = xs[(i * (turn + 1) + turn) % len(xs)]
            if pcs and pcs[0] != c:
                for p, v in zip(pcs, client.one(links[pcs[0]][2])(asg[c])):
                    asg[p] = v
        for e in comps:
            x, y = [v if type(v) is int else asg.get(v.args[0]) for v in e[1:3]]
            r = None if x is None or y is None else R.compose(x, y)
            if r is not None:
                asg[e[3]] = r
        try:
            w = confirm(client, st, asg, [p[1] for p in pulls], emitted, out, mode)
        except KeyError:
            w = None
        if w is not None:
            return w
    return None


def solve_ranks(S, orders, d, fixed):
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    for o in orders:
        for cl in o:
            for t in cl[1:]:
                parent[find(t)] = find(cl[0])
            find(cl[0])
    less = {}
    sets_ = {}
    for t in list(parent):
        r = find(t)
        rs = frozenset([fixed[t]]) if t in fixed else S.ranks(d[t])
        sets_[r] = sets_[r] & rs if r in sets_ else rs
    for o in orders:
        for i in range(len(o) - 1):
            less.setdefault(find(o[i + 1][0]), set()).add(find(o[i][0]))
    val = {}
    busy = set()

    def go(x):
        if x in val:
            return val[x]
        if x in busy:
            return None
        busy.add(x)
        lo = -1
        for p in less.get(x, ()):
            v = go(p)
            if v is None:
                return None
            lo = max(lo, v)
        c = [r for r in sets_[x] if r > lo]
        if not c:
            return None
        val[x] = min(c)
        return val[x]
    for x in list(sets_):
        if go(x) is None:
            return None
    return {t: val[find(t)] for t in parent}


def search(client, st, d, pulls, comps, conds, nones, links, ranks, cand, emitted, out, mode, budget):
    S, R = client.S, client.R
    asg = {}
    prefer = getattr(client, "prefer", None)
    order = [c for _, c, _ in pulls]
    pieces = {c: pcs for _, c, pcs in pulls}
    # constraints become checkable when the last token they depend on is assigned
    comp_src = {e[3]: (e[1], e[2]) for e in comps}

    def tok(x):
        return None if type(x) is int else x.args[0]

    def val(x):
        return x if type(x) is int else asg.get(x.args[0])
    cons = [("some", e[1], e[2], e[3]) for e in comps] + [("none", a, b, None) for a, b in nones]

    def derive():
        """assign composites; False on contradiction"""
        ch = True
        while ch:
            ch = False
            for e in comps:
                if e[3] not in asg:
                    a, b = val(e[1]), val(e[2])
                    if a is not None and b is not None:
                        r = R.compose(a, b)
                        if r is None or not is_has(d[e[3]], r):
                            return False
                        asg[e[3]] = r
                        ch = True
        for a, b in nones:
            x, y = val(a), val(b)
            if x is not None and y is not None and R.compose(x, y) is not None:
                return False
        for ss, ps in tuples:
            if all(t in asg for t in ss) and (tuple(asg[t] for t in ss) in ps[0]) != ps[1]:
                return False
        for _, c, v in conds:
            if all(t in asg for t in c.syms) and bool(ev(c, asg)) != bool(v):
                return False
        return True

    tuples = [(ss, (frozenset(ps), False)) for ss, ps in st.dom.excl]
    if st.dom.pts:
        tuples.append((st.dom.pts[0], (frozenset(st.dom.pts[1]), True)))

    def related(c):
        """values worth trying for c because a condition ties it to a character already chosen"""
        xs = []
        for ss, ps in tuples:
            if c in ss and ps[1]:
                i = ss.index(c)
                xs += [p[i] for p in ps[0] if all(asg.get(t, p[j]) == p[j] for j, t in enumerate(ss))][:200]
        for _, q, v in conds:
            if c in q.syms:
                for t in q.syms:
                    if t != c and t in asg:
                        z = asg[t]
                        xs += [z] + [z + k * 0x10000 for k in range(-16, 17) if k] + [z + k for k in (-1, 1, 0x100, -0x100)]
        return xs

    first_of = {tok(e[1]): e for e in comps}
    second_of = {tok(e[2]): e for e in comps}

    def candidates(k, c):
        if c in cand:
            return cand[c][:200]
        D = d[c]
        r = ranks.get(c)
        if r:
            D = is_and(D, S.by_ccc[r])
        e = second_of.get(c)
        if e is not None:
            a = val(e[1])
            if a is not None:
                return [b for b in S.firsts.get(a, ()) if is_has(D, b)]
        e = first_of.get(c)
        if e is not None:
            # later partners and composites constrain: all starters with pairs inside the partner's set
            y = e[2]
            Dy = d[y.args[0]] if type(y) is not int else ((y, y),)
            ry = ranks.get(tok(y))
            if ry:
                Dy = is_and(Dy, S.by_ccc[ry])
            xs = [a for a, bs in S.firsts.items() if is_has(D, a) and any(is_has(Dy, b) for b in bs)]
            return xs
        xs = sample(D, 40, R, k)
        used = set(asg.values())
        xs = sorted(xs, key=lambda q: q in used)
        if conds or tuples:
            ys = [q for q in related(c) if is_has(D, q)]
            xs = ys + [q for q in xs if q not in ys]
        if prefer is not None and k:
            ys = [q for q in prefer(k, c, asg, asg[order[k - 1]]) if is_has(D, q)]
            xs = ys[:20] + [q for q in xs if q not in ys]
        return xs

    n = len(order)

    def piece_values(c, v):
        pcs = pieces[c]
        if pcs and pcs[0] != c:
            w = client.one(links[pcs[0]][2])(v)
            return list(zip(pcs, w))
        return []

    stack = []
    k = 0
    iters = [None] * (n + 1)
    steps = 0
    while True:
        if k == n:
            budget[0] -= 1
            w = confirm(client, st, asg, order, emitted, out, mode)
            if w is not None:
                return w
            if budget[0] <= 0:
                return None
            k -= 1
            if k < 0:
                return None
            asg = stack.pop()
            continue
        if iters[k] is None:
            iters[k] = iter(candidates(k, order[k]))
        done = False
        for q in iters[k]:
            steps += 1
            if steps > 60000:
                return None
            if not is_has(d[order[k]], q):
                continue
            save = dict(asg)
            asg[order[k]] = q
            for p, v in piece_values(order[k], q):
                asg[p] = v
            if derive():
                stack.append(save)
                done = True
                break
            asg = save
        if done:
            k += 1
            iters[k] = None
            continue
        iters[k] = None
        k -= 1
        if k < 0:
            return None
        asg = stack.pop()


def reference(client, text):
    R = client.R
    f = client.form
    if f in ("nfd", "nfkd", "nfc", "nfkc"):
        return R.form(f, text)
    if f == "cjk":
        return [x for c in text for x in R.cjk1(c)]
    return R.stream_safe(text)


def confirm(client, st, asg, order, emitted, out, mode):
    text = [asg[c] for c in order]
    if callable(mode):
        return mode(text)
    w = {"text": us(text), "chars": text}
    try:
        got = [x if type(x) is int else ev(x, asg) for x in emitted]
    except KeyError:
        return None
    if mode == "any":
        return w
    exp = list(reference(client, text))
    w["expected"] = us(exp)
    if mode == "out":
        try:
            o = out if type(out) is int else ev(out, asg)
        except (KeyError, TypeError, AttributeError):
            return None
        got = got + [o]
        w["code_yields"] = us(got) + " …"
        if exp[:len(got)] == got:
            return None
        return w
    if mode == "early":
        w["code_yields"] = us(got) + " …"
        return w if exp[:len(got)] != got else None
    if mode == "lost":
        w["code_yields"] = us(got) + " and then the end"
        return w if exp != got else None
    return None
