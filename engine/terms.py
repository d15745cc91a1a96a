"""Abstract scalar values: terms over character symbols, value sets, and the splitting of value sets by conditions.

A condition over one symbol is decided over the symbol's value set by interval reasoning with bisection; over small
sets it is decided for each value.  A comparison of a key with an entry of a constant table is decided by splitting
the value set into the table's own keys and their complement (no key outside the table's keys can match)."""
import bisect


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- value sets: sorted tuples of disjoint (lo, hi)
CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def is_size(d):
    n = 0
    for a, b in d:
        n += b - a + 1
    return n


def is_points(d):
    for a, b in d:
        yield from range(a, b + 1)


def is_from(points):
    out = []
    lo = hi = None
    for p in sorted(points):
        if lo is None:
            lo = hi = p
        elif p == hi or p == hi + 1:
            hi = p
        else:
            out.append((lo, hi))
            lo = hi = p
    if lo is not None:
        out.append((lo, hi))
    return tuple(out)


def is_norm(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def is_and(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        lo = max(x[i][0], y[j][0])
        hi = min(x[i][1], y[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def is_sub(x, y):
    out = []
    j = 0
    for a, b in x:
        while j < len(y) and y[j][1] < a:
            j += 1
        k = j
        lo = a
        while k < len(y) and y[k][0] <= b:
            if y[k][0] > lo:
                out.append((lo, y[k][0] - 1))
            lo = max(lo, y[k][1] + 1)
            k += 1
        if lo <= b:
            out.append((lo, b))
    return tuple(out)


def is_has(d, v):
    i = bisect.bisect_right(d, (v, 1 << 40)) - 1
    return i >= 0 and d[i][0] <= v <= d[i][1]


def is_or(x, y):
    return is_norm(list(x) + list(y))


def is_str(d, limit=6):
    s = ["U+%04X" % a if a == b else "U+%04X..U+%04X" % (a, b) for a, b in d[:limit]]
    if len(d) > limit:
        s.append("… (%d values)" % is_size(d))
    return " ".join(s)


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ("op", "args", "bits", "sg", "syms", "_code", "_iv", "hasload", "__weakref__")

    def __repr__(self):
        if self.op == "sym":
            return "c%d" % self.args[0]
        if self.op == "load":
            return "T%d%s[%r]" % (self.args[0].key, "".join(".%d" % x for x in self.args[2]), self.args[1])
        if self.op == "cast":
            return "%r" % (self.args[0],)
        return "%s(%s)" % (self.op, ",".join(map(repr, self.args)))


_intern = {}


def _mk(op, args, bits, sg):
    k = (op, args, bits, sg)
    t = _intern.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.bits, t.sg = op, args, bits, sg
        s = frozenset()
        hl = op == "load"
        if op == "sym" or op == "ref":
            s = frozenset((args[0],))
        else:
            for a in args:
                if type(a) is Term:
                    s |= a.syms
                    hl = hl or a.hasload
        t.syms = s
        t.hasload = hl
        t._code = None
        t._iv = {}
        _intern[k] = t
    return t


def sym(i):
    return _mk("sym", (i,), 32, False)


class RefTable:
    """a named function given by reference data (used for ranks): char -> int"""

    def __init__(self, name, get, lo, hi):
        self.name, self.get, self.lo, self.hi = name, get, lo, hi


REFS = {}


def ref(name, i, bits=8):
    return _mk("ref", (i, name), bits, False)


class ConstArr:
    """a constant array in the analysed program"""
    __slots__ = ("key", "elems", "cols", "name")

    def __init__(self, key, elems, name=""):
        self.key = key
        self.elems = elems
        self.cols = {}
        self.name = name

    def __len__(self):
        return len(self.elems)

    def col(self, path):
        c = self.cols.get(path)
        if c is None:
            c = self.elems
            for p in path:
                if p == "disc":
                    c = [x.v for x in c]
                else:
                    c = [x.f[p] for x in c]
            self.cols[path] = c
        return c

    def colrange(self, path):
        k = ("r", path)
        r = self.cols.get(k)
        if r is None:
            c = self.col(path)
            r = self.cols[k] = (min(c), max(c))
        return r

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, ConstArr) and self.key == o.key)


def wrap(v, bits, sg):
    v &= (1 << bits) - 1
    if sg and v >> (bits - 1):
        v -= 1 << bits
    return v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def trem(a, b):
    return a - b * tdiv(a, b)


CMP = {"eq", "ne", "lt", "le", "gt", "ge"}
NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
SWAP = {"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}


def fold(op, a, b, bits, sg):
    if op == "add":
        return wrap(a + b, bits, sg)
    if op == "sub":
        return wrap(a - b, bits, sg)
    if op == "mul":
        return wrap(a * b, bits, sg)
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return wrap(a ^ b, bits, sg)
    if op == "shl":
        return wrap(a << (b & (bits - 1)), bits, sg)
    if op == "shr":
        return wrap(a >> (b & (bits - 1)), bits, sg)
    if op == "div":
        return wrap(tdiv(a, b), bits, sg)
    if op == "rem":
        return wrap(trem(a, b), bits, sg)
    if op == "eq":
        return int(a == b)
    if op == "ne":
        return int(a != b)
    if op == "lt":
        return int(a < b)
    if op == "le":
        return int(a <= b)
    if op == "gt":
        return int(a > b)
    if op == "ge":
        return int(a >= b)
    if op == "addo":
        return int(wrap(a + b, bits, sg) != a + b)
    if op == "subo":
        return int(wrap(a - b, bits, sg) != a - b)
    if op == "mulo":
        return int(wrap(a * b, bits, sg) != a * b)
    raise Unsupported("fold " + op)


def mk(op, a, b, bits, sg=False):
    """binary operation on ints/terms; for comparisons and overflow flags bits/sg are those of the operands"""
    ta, tb = type(a) is Term, type(b) is Term
    if not ta and not tb:
        if op in ("div", "rem") and b == 0:
            raise Unsupported("division by zero")
        return fold(op, a, b, bits, sg)
    if not tb:
        if b == 0 and op in ("add", "sub", "or", "xor", "shl", "shr"):
            return a
        if b == 1 and op in ("mul", "div"):
            return a
        if b == 0 and op in ("mul", "and"):
            return 0
        if op == "add" and a.op == "add" and type(a.args[1]) is int and a.bits == bits:
            return mk("add", a.args[0], wrap(a.args[1] + b, bits, sg), bits, sg)
        if op == "sub" and a.op == "add" and type(a.args[1]) is int and a.bits == bits:
            return mk("add", a.args[0], wrap(a.args[1] - b, bits, sg), bits, sg)
        if op in ("eq", "ne") and a.op in CMP and b in (0, 1):
            if (op == "eq") == (b == 1):
                return a
            return _mk(NEG[a.op], a.args, a.bits, a.sg)
        if op == "eq" and a.op == "xor" and b == 0:
            return mk("eq", a.args[0], a.args[1], a.bits, a.sg)
    elif not ta:
        if op in ("add", "mul", "and", "or", "xor"):
            return mk(op, b, a, bits, sg)
        if op in CMP:
            return mk(SWAP[op], b, a, bits, sg)
    if a is b:
        if op in ("eq", "le", "ge"):
            return 1
        if op in ("ne", "lt", "gt"):
            return 0
        if op in ("sub", "xor"):
            return 0
    return _mk(op, (a, b), bits, sg)


def cast(a, bits, sg, fbits, fsg):
    """integer conversion from (fbits, fsg) to (bits, sg)"""
    if type(a) is not Term:
        return wrap(a, bits, sg)
    if not fsg and (bits > fbits or (bits == fbits and not sg)):
        if a.op in ("sym", "ref", "load", "cast"):
            return a  # value-preserving
    return _mk("cast", (a,), bits, sg)


def neg_cond(c):
    if type(c) is not Term:
        return 1 - c
    if c.op in CMP:
        return _mk(NEG[c.op], c.args, c.bits, c.sg)
    return mk("xor", c, 1, 1)


def load(arr, idx, path):
    col = arr.col(path)
    if type(idx) is not Term:
        return col[idx]
    return _mk("load", (arr, idx, path), 64, False)


# ---------------------------------------------------------------- evaluation
_PYOP = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}
_PYCMP = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


def _src(t, env, names, cnt, memo):
    if type(t) is not Term:
        return repr(t)
    if t in memo:
        return memo[t]
    op = t.op
    if op == "sym":
        return "s%d" % t.args[0]
    if op == "ref":
        n = "R_" + t.args[1]
        env[n] = REFS[t.args[1]].get
        return "%s(s%d)" % (n, t.args[0])
    if op == "load":
        n = "L%d_%s" % (t.args[0].key, "_".join(map(str, t.args[2])))
        env[n] = t.args[0].col(t.args[2])
        return "%s[%s]" % (n, _src(t.args[1], env, names, cnt, memo))
    a = _src(t.args[0], env, names, cnt, memo)
    m = (1 << t.bits) - 1
    if op == "cast":
        if t.sg:
            env["wrap"] = wrap
            return "wrap(%s,%d,True)" % (a, t.bits)
        return "(%s&%d)" % (a, m)
    if op == "neg":
        env["wrap"] = wrap
        return "wrap(-%s,%d,%r)" % (a, t.bits, t.sg)
    if op == "not":
        env["wrap"] = wrap
        return "wrap(~%s,%d,%r)" % (a, t.bits, t.sg)
    if op == "clz":
        return "(%d-int(%s).bit_length())" % (t.bits, a)
    if op == "popc":
        return "bin(%s).count('1')" % a
    b = _src(t.args[1], env, names, cnt, memo)
    if op in _PYCMP:
        return "int(%s%s%s)" % (a, _PYCMP[op], b)
    if op == "rotl":
        env["rotl"] = rotl
        return "rotl(%s,%s,%d)" % (a, b, t.bits)
    if not t.sg and op in ("and", "or"):
        return "(%s%s%s)" % (a, _PYOP[op], b)
    if not t.sg and op in _PYOP:
        return "((%s%s%s)&%d)" % (a, _PYOP[op], b, m)
    if not t.sg and op == "shr":
        return "(%s>>(%s&%d))" % (a, b, t.bits - 1)
    if not t.sg and op == "div":
        return "(%s//%s)" % (a, b)
    if not t.sg and op == "rem":
        return "(%s%%%s)" % (a, b)
    env["fold"] = fold
    return "fold(%r,%s,%s,%d,%r)" % (op, a, b, t.bits, t.sg)


def rotl(a, n, bits):
    n %= bits
    m = (1 << bits) - 1
    return ((a << n) | (a >> (bits - n))) & m


def code(t):
    if t._code is None:
        env = {}
        syms = sorted(t.syms)
        s = _src(t, env, {}, [0], {})
        t._code = (syms, eval("lambda %s: %s" % (",".join("s%d" % x for x in syms), s), env))
    return t._code


def ev(t, asg):
    if type(t) is not Term:
        return t
    syms, f = code(t)
    return f(*[asg[s] for s in syms])


# ---------------------------------------------------------------- interval evaluation
def trange(bits, sg):
    if sg:
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    return (0, (1 << bits) - 1)


def iv(t, box):
    """interval of the term when its symbols range over box (sym -> (lo, hi))"""
    if type(t) is not Term:
        return (t, t)
    op = t.op
    if op == "sym":
        return box[t.args[0]]
    if op == "ref":
        r = REFS[t.args[1]]
        lo, hi = box[t.args[0]]
        if lo == hi:
            v = r.get(lo)
            return (v, v)
        return (r.lo, r.hi)
    if op == "load":
        i = iv(t.args[1], box)
        col = t.args[0].col(t.args[2])
        if i[0] == i[1] and 0 <= i[0] < len(col):
            return (col[i[0]], col[i[0]])
        return t.args[0].colrange(t.args[2])
    a = iv(t.args[0], box)
    full = trange(t.bits, t.sg)
    if op == "cast":
        if a[0] >= full[0] and a[1] <= full[1]:
            return a
        if not t.sg and a[0] >= 0 and (a[0] >> t.bits) == (a[1] >> t.bits):
            m = full[1]
            return (a[0] & m, a[1] & m)
        return full
    if op == "neg":
        r = (-a[1], -a[0])
        return r if r[0] >= full[0] and r[1] <= full[1] else full
    if op == "not":
        if t.sg:
            return (-a[1] - 1, -a[0] - 1)
        return (full[1] - a[1], full[1] - a[0])
    if op == "clz":
        return (t.bits - int(a[1]).bit_length(), t.bits - int(a[0]).bit_length())
    if op == "popc":
        return (a[0].bit_count(),) * 2 if a[0] == a[1] else (0, 64)
    b = iv(t.args[1], box)
    if op in CMP:
        if op == "eq" or op == "ne":
            if a[0] == a[1] == b[0] == b[1]:
                r = (1, 1)
            elif a[1] < b[0] or b[1] < a[0]:
                r = (0, 0)
            else:
                return (0, 1)
            return r if op == "eq" else (1 - r[0], 1 - r[0])
        if op == "gt":
            a, b, op = b, a, "lt"
        elif op == "ge":
            a, b, op = b, a, "le"
        if op == "lt":
            if a[1] < b[0]:
                return (1, 1)
            if a[0] >= b[1]:
                return (0, 0)
            return (0, 1)
        if a[1] <= b[0]:
            return (1, 1)
        if a[0] > b[1]:
            return (0, 0)
        return (0, 1)
    if op in ("addo", "subo", "mulo"):
        if op == "addo":
            r = (a[0] + b[0], a[1] + b[1])
        elif op == "subo":
            r = (a[0] - b[1], a[1] - b[0])
        else:
            p = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
            r = (min(p), max(p))
        if r[0] >= full[0] and r[1] <= full[1]:
            return (0, 0)
        if r[1] < full[0] or r[0] > full[1]:
            return (1, 1)
        return (0, 1)
    r = None
    if op == "add":
        r = (a[0] + b[0], a[1] + b[1])
    elif op == "sub":
        r = (a[0] - b[1], a[1] - b[0])
    elif op == "mul":
        p = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        r = (min(p), max(p))
    elif op == "div":
        if b[0] == b[1] and b[0] > 0:
            r = (tdiv(a[0], b[0]), tdiv(a[1], b[0]))
    elif op == "rem":
        if b[0] == b[1] and b[0] > 0 and a[0] >= 0:
            q = b[0]
            if a[0] // q == a[1] // q:
                r = (a[0] % q, a[1] % q)
            else:
                r = (0, min(q - 1, a[1]))
    elif op == "shr":
        if b[0] == b[1] and 0 <= b[0] < t.bits:
            r = (a[0] >> b[0], a[1] >> b[0])
    elif op == "shl":
        if b[0] == b[1] and 0 <= b[0] < t.bits:
            r = (a[0] << b[0], a[1] << b[0])
            if a[0] == a[1]:
                x = wrap(r[0], t.bits, t.sg)
                return (x, x)
    elif op == "and":
        if a[0] == a[1] and b[0] == b[1]:
            r = (a[0] & b[0],) * 2
        elif a[0] >= 0 and b[0] >= 0:
            r = (0, min(a[1], b[1]))
            # mask of low bits / high bits constant over the range
            if b[0] == b[1]:
                k = (a[0] ^ a[1]).bit_length()
                if b[0] & ((1 << k) - 1) == 0:
                    r = (a[0] & b[0],) * 2
    elif op in ("or", "xor"):
        if a[0] == a[1] and b[0] == b[1]:
            x = fold(op, a[0], b[0], t.bits, t.sg)
            r = (x, x)
        elif a[0] >= 0 and b[0] >= 0:
            k = max(a[1].bit_length(), b[1].bit_length())
            lo = max(a[0], b[0]) if op == "or" else 0
            r = (lo, (1 << k) - 1)
    if r is None:
        if a[0] == a[1] and b[0] == b[1] and op in ("shl", "shr", "div", "rem") and not (
                op in ("div", "rem") and b[0] == 0):
            x = fold(op, a[0], b[0], t.bits, t.sg)
            return (x, x)
        return full
    if r[0] >= full[0] and r[1] <= full[1]:
        return r
    if r[0] == r[1]:
        x = wrap(r[0], t.bits, t.sg)
        return (x, x)
    if not t.sg and (r[0] >> t.bits) == (r[1] >> t.bits):
        m = full[1]
        return (r[0] & m, r[1] & m)
    return full


# ---------------------------------------------------------------- table keys
def loads_in(t, out):
    if type(t) is Term:
        if t.op == "load":
            out.add((t.args[0], t.args[1]))
            return  # loads nested in the index do not matter: every row is considered
        for a in t.args:
            loads_in(a, out)


def subst_load(t, arr, idx, k, memo):
    if type(t) is not Term:
        return t
    if t in memo:
        return memo[t]
    if t.op == "load":
        r = arr.col(t.args[2])[k] if (t.args[0] == arr and t.args[1] is idx) else t
    elif t.op in ("sym", "ref"):
        r = t
    elif t.op == "cast":
        a = subst_load(t.args[0], arr, idx, k, memo)
        r = wrap(a, t.bits, t.sg) if type(a) is not Term else _mk("cast", (a,), t.bits, t.sg)
    elif t.op in ("neg", "not", "clz", "popc", "rotl"):
        raise Unsupported("subst " + t.op)
    else:
        r = mk(t.op, subst_load(t.args[0], arr, idx, k, memo), subst_load(t.args[1], arr, idx, k, memo), t.bits, t.sg)
    memo[t] = r
    return r


_rowvals = {}


def row_values(t):
    """the finite set of values a term made of one table row can take, whatever the row (None if not of that form)"""
    if t in _rowvals:
        return _rowvals[t]
    ls = set()
    loads_in(t, ls)
    r = None
    if len(ls) == 1:
        (arr, idx), = ls
        vals = set()
        ok = True
        for k in range(len(arr)):
            v = subst_load(t, arr, idx, k, {})
            if type(v) is Term:
                ok = False
                break
            vals.add(v)
        if ok:
            r = frozenset(vals)
    _rowvals[t] = r
    return r


def invert(t, vals, dom_hull):
    """t injective in its symbols: map values back to points: list of (syms, point) or None.
    Handles a plain symbol (possibly through value-preserving casts and constant offsets) and packed pairs
    (a << k) | b with disjoint bits."""
    t0 = strip(t, dom_hull)
    if t0.op == "sym":
        return (t0.args[0],), [(v,) for v in vals]
    if t0.op in ("add", "sub", "xor") and type(t0.args[1]) is int:
        k = t0.args[1]
        inner = t0.args[0]
        m = (1 << t0.bits) - 1
        if t0.op == "add":
            vv = [(v - k) & m for v in vals]
        elif t0.op == "sub":
            vv = [(v + k) & m for v in vals]
        else:
            vv = [v ^ k for v in vals]
        return invert(inner, vv, dom_hull)
    if t0.op in ("or", "add", "xor"):
        x, y = t0.args
        if type(x) is Term and type(y) is Term:
            for p, q in ((x, y), (y, x)):
                p0 = strip(p, dom_hull)
                if p0.op in ("shl", "mul") and type(p0.args[1]) is int:
                    k = p0.args[1]
                    mul = (1 << k) if p0.op == "shl" else k
                    if mul <= 0:
                        continue
                    qb = iv(q, dom_hull)
                    pb = iv(p0.args[0], dom_hull)
                    if t0.op != "add" and mul & (mul - 1):
                        continue
                    if qb[0] < 0 or pb[0] < 0:
                        continue
                    ip = strip(p0.args[0], dom_hull)
                    iq = strip(q, dom_hull)
                    if ip.op != "sym" or iq.op != "sym" or ip is iq:
                        continue
                    if qb[1] < mul and pb[1] * mul + qb[1] < (1 << t0.bits):
                        return (ip.args[0], iq.args[0]), [(v // mul, v % mul) for v in vals]
                    pts = overlap(t0.op, vals, mul, t0.bits, pb[1], qb[1])
                    if pts is not None:
                        return (ip.args[0], iq.args[0]), pts
    return None


def overlap(op, vals, mul, bits, pmax, qmax):
    """all (p, q) with ((p * mul) mod 2^bits) op q in vals, where the halves may overlap; None if too many"""
    k = mul.bit_length() - 1
    if 1 << k != mul or pmax >= 1 << 32 or qmax >= 1 << 32:
        return None
    top = 1 << (bits - k)          # p enters modulo top
    out = []
    for v in vals:
        lo, hi = v % mul, v // mul
        if hi >= top:
            continue
        for qh in range(qmax // mul + 1):
            q = qh * mul + lo
            if q > qmax:
                break
            if op == "or":
                if qh & ~hi:
                    continue
                base = hi & ~qh
                sub = qh
                ps = []
                while True:
                    ps.append(base | sub)
                    if not sub:
                        break
                    sub = (sub - 1) & qh
            elif op == "xor":
                ps = [hi ^ qh]
            else:
                ps = [(hi - qh) % top]
            for p in ps:
                while p <= pmax:
                    out.append((p, q))
                    p += top
        if len(out) > 1500000:
            return None
    return out


def strip(t, hull):
    while t.op == "cast":
        a = t.args[0]
        r = iv(a, hull)
        full = trange(t.bits, t.sg)
        if r[0] >= full[0] and r[1] <= full[1]:
            t = a
        else:
            break
    return t


# ---------------------------------------------------------------- domains
class Dom:
    """constraint on symbols: a product of value sets, optionally restricted to / deprived of explicit tuples"""
    __slots__ = ("d", "pts", "excl")

    def __init__(self, d, pts=None, excl=()):
        self.d, self.pts, self.excl = d, pts, excl

    def with_(self, s, D):
        d = dict(self.d)
        d[s] = D
        return Dom(d, self.pts, self.excl)

    def hull(self, syms):
        h = {}
        for s in syms:
            D = self.d[s]
            h[s] = (D[0][0], D[-1][1])
        return h

    def __repr__(self):
        s = ", ".join("c%d∈{%s}" % (k, is_str(v)) for k, v in self.d.items())
        if self.pts:
            s += " restricted to %d tuples" % len(self.pts[1])
        if self.excl:
            s += " minus %d tuples" % sum(len(x[1]) for x in self.excl)
        return s


POINT_LIMIT = 20000
BISECT_BUDGET = 6000
WHOLE = [60]     # conditions decided by enumerating a whole large value set
_split_cache = {}


def split_set(cond, s, D):
    """split the value set D of symbol s by the condition: (true part, false part)"""
    k = (cond, s, D)
    r = _split_cache.get(k)
    if r is not None:
        return r
    r = _split_set(cond, s, D)
    if len(_split_cache) > 400000:
        _split_cache.clear()
    _split_cache[k] = r
    return r


def _pointwise(cond, D):
    _, f = code(cond)
    T, F = [], []
    for p in is_points(D):
        try:
            v = f(p)
        except IndexError:
            raise Unsupported("table index out of range in condition")
        (T if v else F).append(p)
    return is_from(T), is_from(F)


def _split_set(cond, s, D):
    n = is_size(D)
    if n <= 600:
        return _pointwise(cond, D)
    # comparison of a key with a table entry
    if cond.hasload and cond.op in ("eq", "ne"):
        for A, B in (cond.args, cond.args[::-1]):
            if type(A) is Term and type(B) is Term and not A.hasload and B.hasload:
                vals = row_values(B)
                if vals is None:
                    continue
                inv = invert(A, vals, {s: (D[0][0], D[-1][1])})
                if inv is None or inv[0] != (s,):
                    continue
                keys = is_and(is_from([p[0] for p in inv[1] if p[0] >= 0]), D)
                if is_size(keys) > POINT_LIMIT * 2:
                    continue
                T, F = _pointwise(cond, keys)
                rest = is_sub(D, keys)
                if cond.op == "eq":
                    return T, is_or(F, rest)
                return is_or(T, rest), F
    T, F = [], []
    budget = BISECT_BUDGET
    stack = list(reversed(D))
    while stack:
        lo, hi = stack.pop()
        budget -= 1
        if budget < 0:
            if n <= POINT_LIMIT:
                return _pointwise(cond, D)
            if n <= 1200000 and WHOLE[0] > 0:
                # every character on its own: slow, so only a limited number of times
                WHOLE[0] -= 1
                return _pointwise(cond, D)
            raise Unsupported("condition not decidable on value set: %r over %s" % (cond, is_str(D)))
        r = iv(cond, {s: (lo, hi)})
        if r[0] == r[1]:
            (T if r[0] else F).append((lo, hi))
        elif hi - lo < 12:
            _, f = code(cond)
            for p in range(lo, hi + 1):
                (T if f(p) else F).append((p, p))
        else:
            m = (lo + hi) // 2
            stack.append((m + 1, hi))
            stack.append((lo, m))
    return is_norm(T), is_norm(F)


def decide(cond, dom):
    """split the domain by the condition: list of (truth, domain) with non-empty domains"""
    if type(cond) is not Term:
        return [(1 if cond else 0, dom)]
    syms = cond.syms
    if dom.pts and syms & set(dom.pts[0]):
        if not syms <= set(dom.pts[0]):
            raise Unsupported("condition over restricted and free symbols")
        cs, f = code(cond)
        ix = [dom.pts[0].index(x) for x in cs]
        T = tuple(p for p in dom.pts[1] if f(*[p[i] for i in ix]))
        if len(T) == len(dom.pts[1]):
            return [(1, dom)]
        if not T:
            return [(0, dom)]
        ts = set(T)
        F = tuple(p for p in dom.pts[1] if p not in ts)
        return [(1, Dom(dom.d, (dom.pts[0], T), dom.excl)), (0, Dom(dom.d, (dom.pts[0], F), dom.excl))]
    if len(syms) == 1:
        (s,) = syms
        T, F = split_set(cond, s, dom.d[s])
        out = []
        if T:
            out.append((1, dom if not F else dom.with_(s, T)))
        if F:
            out.append((0, dom if not T else dom.with_(s, F)))
        return out
    h = dom.hull(syms)
    r = iv(cond, h)
    if r[0] == r[1]:
        return [(r[0], dom)]
    if len(syms) == 2 and cond.op in ("eq", "ne"):
        for A, B in (cond.args, cond.args[::-1]):
            if type(A) is not Term:
                continue
            if type(B) is Term and B.hasload and not A.hasload:
                vals = row_values(B)
            elif type(B) is int:
                vals = frozenset((B,))
            else:
                continue
            if vals is None:
                continue
            inv = invert(A, vals, h)
            if inv is None or set(inv[0]) != set(syms):
                continue
            ps = [p for p in inv[1] if all(is_has(dom.d[x], p[i]) for i, x in enumerate(inv[0]))]
            for es, ep in dom.excl:
                if es == inv[0]:
                    ps = [p for p in ps if p not in ep]
                elif es == inv[0][::-1]:
                    ps = [p for p in ps if p[::-1] not in ep]
            cs, f = code(cond)
            ix = [inv[0].index(x) for x in cs]
            ps = sorted(set(ps))
            T, F = [], []
            for p in ps:
                (T if f(*[p[i] for i in ix]) else F).append(p)
            eqs, nes = (T, F) if cond.op == "eq" else (F, T)
            # eqs: pairs where the comparison holds; everything else in the product does not
            out = []
            hit = Dom(dom.d, (inv[0], tuple(eqs)), dom.excl)
            rest = Dom(dom.d, None, dom.excl + ((inv[0], frozenset(eqs)),))
            if cond.op == "eq":
                if eqs:
                    out.append((1, hit))
                out.append((0, rest if eqs else dom))
            else:
                if eqs:
                    out.append((0, hit))
                out.append((1, rest if eqs else dom))
            return out
    # small products: decide each pair
    tot = 1
    for s in syms:
        tot *= is_size(dom.d[s])
    if tot <= POINT_LIMIT and not dom.pts:
        ss = tuple(sorted(syms))
        cs, f = code(cond)
        import itertools
        T, F = [], []
        ex = set()
        for es, ep in dom.excl:
            if set(es) == set(ss):
                for p in ep:
                    ex.add(tuple(p[es.index(x)] for x in ss))
        for p in itertools.product(*[list(is_points(dom.d[s])) for s in ss]):
            if p in ex:
                continue
            (T if f(*p) else F).append(p)  # cs is sorted as ss
        out = []
        if T:
            out.append((1, dom if not F else Dom(dom.d, (ss, tuple(T)), dom.excl)))
        if F:
            out.append((0, dom if not T else Dom(dom.d, (ss, tuple(F)), dom.excl)))
        return out
    raise Unsupported("condition over several symbols: %r" % (cond,))


def values(t, dom, limit=4096):
    """the partition of the domain by the value of the term: {value: domain}; Unsupported if too many"""
    if type(t) is not Term:
        return {t: dom}
    if dom.pts and t.syms & set(dom.pts[0]):
        cs, f = code(t)
        ix = [dom.pts[0].index(x) for x in cs]
        g = {}
        for p in dom.pts[1]:
            g.setdefault(f(*[p[i] for i in ix]), []).append(p)
        if len(g) > limit:
            raise Unsupported("too many values")
        return {v: Dom(dom.d, (dom.pts[0], tuple(ps)), dom.excl) for v, ps in g.items()}
    if len(t.syms) != 1:
        raise Unsupported("values over several symbols")
    (s,) = t.syms
    D = dom.d[s]
    n = is_size(D)
    if n > POINT_LIMIT:
        # bisect to constant pieces
        out = {}
        budget = BISECT_BUDGET
        stack = list(D)
        while stack:
            lo, hi = stack.pop()
            budget -= 1
            if budget < 0:
                raise Unsupported("too many values: %r over %s" % (t, is_str(D)))
            r = iv(t, {s: (lo, hi)})
            if r[0] == r[1]:
                out.setdefault(r[0], []).append((lo, hi))
            elif hi - lo < 12:
                _, f = code(t)
                for p in range(lo, hi + 1):
                    out.setdefault(f(p), []).append((p, p))
            else:
                m = (lo + hi) // 2
                stack.append((m + 1, hi))
                stack.append((lo, m))
        return {v: dom.with_(s, is_norm(x)) for v, x in out.items()}
    g = {}
    _, f = code(t)
    for p in is_points(D):
        g.setdefault(f(p), []).append(p)
    if len(g) > limit:
        raise Unsupported("too many values")
    return {v: dom.with_(s, is_from(ps)) for v, ps in g.items()}
