"""C01-C06 and the per-character part of C07: exhaustive value-set comparison with the reference data."""
import build, refdata
from scalar_pairs import all_pairs
from client import *
from terms import is_from, is_and, is_sub, is_points, is_has, is_size, is_or, CHARS, Term, code, sym

TRUST = ["rustc nightly MIR construction and monomorphisation (rustc_public)", "engine/ (the abstract interpreter)",
         "ref/ucd16.json (Unicode 16.0 data, cross-checked by tools/crosscheck_ref.py against Python, Go, ICU and "
         "NormalizationTest-16.0)"]


def u(c):
    return "U+%04X" % c if c >= 0 else str(c)


def us(cs):
    return "<" + " ".join(u(c) for c in cs) + ">"


def vals_at(out, p):
    """emitted tuple at a point"""
    return tuple(code(t)[1](p) if type(t) is Term else t for t in out)


def add_outcomes(ctx, m, root):
    for kind, msg, site, st in m.outcomes:
        w = ", ".join("%s" % is_str(d, 2) for d in st.dom.d.values())
        ctx.ob(1, False)
        ctx.violation("%s:%s:%s" % (root, kind, site[0]), "%s: %s in %s for %s" % (kind, msg, site[0], w),
                      {"site": site, "domain": repr(st.dom)})


def scalar_map(ctx, P, root, emit, expect, special, default, what, seq=True):
    """every character: emitted sequence (or returned value) equals the reference"""
    m, c = run_scalar(P, root, 1, emit)
    ctx.merge_machine(m, root)
    add_outcomes(ctx, m, root)
    covered = ()
    classes = 0
    for em, v, dom in c.results:
        D = dom.d[0]
        covered = is_or(covered, D)
        classes += 1
        out = em if emit else (v,)
        for t in out:
            if not (type(t) is int or type(t) is Term):
                raise Unsupported("result %r" % (t,))
        spec = is_and(D, special)
        rest = is_sub(D, special)
        bad = None
        n = 0
        for p in is_points(spec):
            n += 1
            if vals_at(out, p) != expect(p):
                bad = p
                break
        if bad is None and rest:
            if default == "self":
                same = len(out) == 1 and out[0] is sym(0)
            else:
                same = out == (default,)
            if same:
                n += is_size(rest)
            else:
                for p in is_points(rest):
                    n += 1
                    if vals_at(out, p) != (p if default == "self" else default,):
                        bad = p
                        break
        ctx.ob(n - (bad is not None))
        if bad is not None:
            ctx.ob(1, False)
            got, exp = vals_at(out, bad), expect(bad)
            f = us if seq else (lambda t: str(t[0]))
            ctx.violation("%s:value" % root, "%s of %s is %s, Unicode 16.0 says %s" % (what, u(bad), f(got), f(exp)),
                          {"char": u(bad), "got": got, "expected": exp, "class": repr(dom)})
        elif classes <= 6:
            ctx.sample("%s: %s -> %s" % (root, is_str(D, 3), us(vals_at(out, D[0][0])) if seq else out))
    ctx.cover["classes_" + root.split("::")[-1]] = classes
    miss = is_sub(CHARS, covered)
    if miss and not m.undecided and not m.outcomes:
        raise RuntimeError("analysis lost part of its domain: " + is_str(miss))
    ctx.cover["characters_covered"] = is_size(covered)
    return m


def scalar_diffs(ctx, P, root, emit, expect, special, default, cap=3000):
    """characters on which the code's data differs from the reference (a premise of another analysis)"""
    m, c = run_scalar(P, root, 1, emit)
    ctx.merge_machine(m, root)
    for kind, msg, site, st in m.outcomes:
        ctx.undec("premise %s: %s" % (root, msg))
    diffs = {}
    for em, v, dom in c.results:
        D = dom.d[0]
        out = em if emit else (v,)
        spec, rest = is_and(D, special), is_sub(D, special)
        n = 0
        for p in is_points(spec):
            n += 1
            x = vals_at(out, p)
            if x != expect(p) and len(diffs) < cap:
                diffs[p] = x
        if rest:
            if (len(out) == 1 and out[0] is sym(0)) if default == "self" else out == (default,):
                n += is_size(rest)
            else:
                for p in is_points(rest):
                    n += 1
                    x = vals_at(out, p)
                    if x != (p if default == "self" else default,) and len(diffs) < cap:
                        diffs[p] = x
        ctx.ob(n)
    return diffs


def compose_diffs(ctx, P, R, root="chars::root_compose", cap=3000):
    m, c = run_scalar(P, root, 2)
    ctx.merge_machine(m, "compose")
    for kind, msg, site, st in m.outcomes:
        ctx.undec("premise %s: %s" % (root, msg))
    pairs = all_pairs(R)
    diffs = {}
    for em, v, dom in c.results:
        for p, got in pair_values(dom, v, pairs):
            if got != pairs.get(p) and len(diffs) < cap:
                diffs[p] = got
        ctx.ob(1)
    return diffs


def pair_values(dom, v, pairs):
    """the pairs of a class that matter, with the class's result: composable ones, or all if a result is returned"""
    D0, D1 = dom.d[0], dom.d[1]

    def at(p):
        return None if v.v == 0 else ev(v.f[0], {0: p[0], 1: p[1]})

    def inside(p):
        return is_has(D0, p[0]) and is_has(D1, p[1]) and not any(tuple(p[i] for i in es) in ep for es, ep in dom.excl)
    if dom.pts:
        ss, pts = dom.pts
        for q in pts:
            p = (q[ss.index(0)], q[ss.index(1)])
            yield p, at(p)
    elif v.v == 0:
        for p in pairs:
            if inside(p):
                yield p, None
    else:
        n = 0
        for a in is_points(D0):
            for b in is_points(D1):
                if inside((a, b)):
                    n += 1
                    yield (a, b), at((a, b))
                    if n > 400000:
                        return


def setup(ctx, level="proof"):
    ctx.level = level
    ctx.trusted = TRUST
    ctx.assumptions = ["pinned reference: Unicode 16.0", "the compiler preserves MIR semantics"]
    return build.load(["chars"]), refdata.get()


def c01(ctx):
    P, R = setup(ctx)
    ctx.rule = ("Abstract interpretation of the MIR of char::decompose_canonical over the full set of scalar values, "
                "split into value-set classes; every class's emitted sequence is compared with the reference "
                "decomposition of each of its characters.")
    sp = is_or(is_from(R.canon), ((0xAC00, 0xD7A3),))
    scalar_map(ctx, P, "chars::root_decompose_canonical", True, R.nfd1, sp, "self", "canonical decomposition")


def c02(ctx):
    P, R = setup(ctx)
    ctx.rule = ("As C01 for char::decompose_compatible against the full compatibility decompositions.")
    sp = is_or(is_from(set(R.canon) | set(R.compat)), ((0xAC00, 0xD7A3),))
    scalar_map(ctx, P, "chars::root_decompose_compatible", True, R.nfkd1, sp, "self", "compatibility decomposition")


def c04(ctx):
    P, R = setup(ctx)
    ctx.rule = "Value-set abstract interpretation of char::canonical_combining_class over all scalar values."
    scalar_map(ctx, P, "chars::root_ccc", False, lambda c: (R.ccc(c),), R.nonstarter_set(), 0, "combining class", False)


def c05(ctx):
    P, R = setup(ctx)
    ctx.rule = "Value-set abstract interpretation of char::is_combining_mark over all scalar values."
    scalar_map(ctx, P, "chars::root_is_combining_mark", False, lambda c: (int(is_has(R.mark, c)),), R.mark, 0,
               "combining-mark query", False)


def c06(ctx):
    P, R = setup(ctx)
    ctx.rule = ("Value-set abstract interpretation of char::is_public_assigned over all scalar values, and constant "
                "evaluation of UNICODE_VERSION.")
    sp = R.assigned
    scalar_map(ctx, P, "chars::root_is_public_assigned", False, lambda c: (int(is_has(sp, c)),), sp, 0,
               "public-assigned query", False)
    m, c = run_scalar(P, "chars::root_version", 0)
    ctx.merge_machine(m, "version")
    for em, v, dom in c.results:
        got = tuple(v.f)
        ok = got == R.version
        ctx.ob(1, ok)
        if not ok:
            ctx.violation("version", "UNICODE_VERSION is %r, the tables are Unicode %r" % (got, R.version), None)


def c03(ctx):
    P, R = setup(ctx)
    ctx.rule = ("Abstract interpretation of char::compose over the product of two full character sets; a class that "
                "returns nothing must contain no composable pair, a class that returns a character must contain only "
                "composable pairs with exactly that composite.")
    compose_map(ctx, P, R)


def compose_map(ctx, P, R, root="chars::root_compose"):
    m, c = run_scalar(P, root, 2)
    ctx.merge_machine(m, "compose")
    add_outcomes(ctx, m, root)
    pairs = all_pairs(R)
    seen = 0
    for em, v, dom in c.results:
        if type(v) is not Agg:
            raise Unsupported("result of compose")
        D0, D1 = dom.d[0], dom.d[1]

        def inside(p):
            if not (is_has(D0, p[0]) and is_has(D1, p[1])):
                return False
            for es, ep in dom.excl:
                if tuple(p[i] for i in es) in ep:
                    return False
            return True

        def at(p):
            if v.v == 0:
                return None
            t = v.f[0]
            return ev(t, {0: p[0], 1: p[1]})

        bad = None
        n = 0
        if dom.pts:
            ss, pts = dom.pts
            if set(ss) != {0, 1}:
                raise Unsupported("point domain")
            for q in pts:
                p = (q[ss.index(0)], q[ss.index(1)])
                n += 1
                if at(p) != pairs.get(p):
                    bad = p
                    break
            seen += len(pts)
        elif v.v == 0:
            for p in pairs:
                if inside(p):
                    bad = p
                    break
            n = is_size(D0) * is_size(D1)
        else:
            for a in is_points(D0):
                for b in is_points(D1):
                    if inside((a, b)):
                        n += 1
                        if at((a, b)) != pairs.get((a, b)):
                            bad = (a, b)
                            break
                if bad:
                    break
        ctx.ob(max(n, 1) - (bad is not None))
        if bad is not None:
            ctx.ob(1, False)
            f = lambda x: "nothing" if x is None else u(x)
            ctx.violation("%s:value" % root, "compose(%s, %s) is %s, Unicode 16.0 says %s" % (
                u(bad[0]), u(bad[1]), f(at(bad)), f(pairs.get(bad))), {"pair": [u(x) for x in bad]})
        else:
            ctx.sample("compose over %s -> %s" % (repr(dom)[:160], "nothing" if v.v == 0 else repr(v.f[0])[:80]))
    ctx.cover["classes"] = len(c.results)
    return m
