"""Abstract interpreter for the MIR dump: exact on memory shape, value-set abstraction on scalars, disjunctive paths."""
import collections, sys
from terms import *
from terms import _mk
import terms as TM

HEAP = 1 << 20
DEADLINE = [None]      # wall-clock time after which explorations stop (undecided)


class Agg:
    __slots__ = ("v", "f", "_h")

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __eq__(self, o):
        return self is o or (type(o) is Agg and self.v == o.v and self.f == o.f)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((self.v, self.f))
            return self._h

    def __repr__(self):
        return "%s{%s}" % ("" if self.v is None else self.v, ", ".join(map(repr, self.f)))


class Seq:
    """a growable container modelled as a sequence"""
    __slots__ = ("kind", "f", "cap")

    def __init__(self, kind, f, cap=None):
        self.kind, self.f, self.cap = kind, f, cap

    def __eq__(self, o):
        return self is o or (type(o) is Seq and self.kind == o.kind and self.f == o.f and self.cap == o.cap)

    def __hash__(self):
        return hash((self.kind, self.f, self.cap))

    def __repr__(self):
        return "%s[%s]" % (self.kind, ", ".join(map(repr, self.f)))


class Ptr:
    __slots__ = ("loc", "path", "len")

    def __init__(self, loc, path, len=None):
        self.loc, self.path, self.len = loc, path, len

    def __eq__(self, o):
        return type(o) is Ptr and self.loc == o.loc and self.path == o.path and self.len == o.len

    def __hash__(self):
        return hash((self.loc, self.path, self.len))

    def __repr__(self):
        return "&%s%r%s" % (self.loc, self.path, "" if self.len is None else "[%r]" % (self.len,))


class Row:
    __slots__ = ("arr", "idx", "path")

    def __init__(self, arr, idx, path):
        self.arr, self.idx, self.path = arr, idx, path

    def __eq__(self, o):
        return type(o) is Row and self.arr == o.arr and self.idx is o.idx and self.path == o.path

    def __hash__(self):
        return hash((self.arr, self.idx, self.path))

    def get(self):
        """resolve to a term if scalar"""
        c = self.arr.col(self.path)
        if c and type(c[0]) is int:
            return load(self.arr, self.idx, self.path)
        return self

    def step(self, i):
        return Row(self.arr, self.idx, self.path + (i,)).get()


class FnVal:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __eq__(self, o):
        return type(o) is FnVal and o.inst == self.inst

    def __hash__(self):
        return hash(("fn", self.inst))

    def __repr__(self):
        return "fn#%s" % self.inst


class Opaque:
    """an unknown value that may only be moved around"""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return type(o) is Opaque and o.tag == self.tag

    def __hash__(self):
        return hash(("op", self.tag))

    def __repr__(self):
        return "?%s" % (self.tag,)


UNIT = Agg(0, ())
NONE = Agg(0, ())


def some(v):
    return Agg(1, (v,))


class Fork(Exception):
    def __init__(self, n):
        self.n = n


class PathEnd(Exception):
    """the path is over; kind: panic | ub | merged | done | violation | pruned"""

    def __init__(self, kind, msg="", site=None):
        self.kind, self.msg, self.site = kind, msg, site


class Frame:
    __slots__ = ("fn", "code", "depth", "bb", "si", "locals", "dest", "target", "sync")

    def copy(self):
        f = Frame()
        f.fn, f.code, f.depth, f.bb, f.si = self.fn, self.code, self.depth, self.bb, self.si
        f.locals = self.locals[:]
        f.dest, f.target, f.sync = self.dest, self.target, self.sync
        return f


class State:
    __slots__ = ("frames", "heap", "dom", "orc", "ghost", "order", "queue", "taken", "trace", "nsym", "steps")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.dom = Dom({})
        self.orc = {}
        self.ghost = None
        self.order = ()
        self.queue = []
        self.taken = []
        self.trace = None
        self.nsym = 0
        self.steps = 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.dom, s.orc, s.ghost, s.order = self.dom, self.orc, self.ghost, self.order
        s.trace, s.nsym, s.steps = self.trace, self.nsym, self.steps
        return s


def is_ptrish(v):
    return type(v) is Ptr


_alts = {}       # (summary, value set), by identity: the summary's classes that meet the set


class Machine:
    max_seq = 9000

    def __init__(self, prog, client=None):
        self.P = prog
        self.T = prog.types
        self.client = client
        self.st = None
        self.handlers = {}       # fn id -> callable(m, fr, args)
        self.work = collections.deque()
        self.sync = 0
        self.outcomes = []       # (kind, msg, site, state)
        self.covered = set()
        self.undecided = {}
        self.npaths = 0
        self.nsteps = 0
        self.max_steps = 200000
        self.snapshot = None
        self.unsnapped = False
        self.saved = None
        self.consts = {}
        self.summaries = {}
        self.summarise = None    # predicate fn -> bool
        self.obligations = {}    # site -> [kind, count]
        self.local_drop = {}
        self.max_paths = None

    # ------------------------------------------------------------ nondeterminism
    def choose(self, n):
        if n == 1:
            return 0
        st = self.st
        if self.saved is None:
            self.mark()
        if st.queue:
            k = st.queue.pop(0)
            st.taken.append(k)
            return k
        raise Fork(n)

    def mark(self):
        """remember the step-start values a fork restores"""
        st = self.st
        self.saved = (st.dom, st.orc, st.ghost, st.order, st.trace, st.nsym)

    def branch(self, cond):
        """truth value of a condition; splits the path when both are possible"""
        if type(cond) is not Term:
            return 1 if cond else 0
        alts = self.decide(cond)
        k = self.choose(len(alts))
        v, d = alts[k]
        if d is not self.st.dom:
            self.setdom(d)
        return v

    def decide(self, cond):
        if self.client is not None:
            r = self.client.decide(self, cond)
            if r is not None:
                return r
        return decide(cond, self.st.dom)

    def setdom(self, d):
        if callable(d):
            d(self)
        else:
            self.st.dom = d

    def maybe(self, cond):
        """can the condition be true here? (no split)"""
        if type(cond) is not Term:
            return bool(cond)
        return any(v for v, _ in self.decide(cond))

    def concretise(self, t):
        """fork over the values of a term"""
        if type(t) is not Term:
            return t
        if self.client is not None:
            r = self.client.values(self, t)
        else:
            r = None
        if r is None:
            r = values(t, self.st.dom, 2000)
        items = sorted(r.items())
        k = self.choose(len(items))
        v, d = items[k]
        if len(items) > 1:
            self.setdom(d)
        return v

    def simp(self, t):
        """constant if the term has a single value on the domain (interval reasoning only)"""
        if type(t) is Term:
            try:
                r = iv(t, self.st.dom.hull(t.syms))
            except KeyError:
                return t
            if r[0] == r[1]:
                return r[0]
        return t

    # ------------------------------------------------------------ memory
    def const_arr(self, aid):
        c = self.consts.get(aid)
        if c is None:
            a = self.P.allocs[aid]
            if "x" in a and "vals" not in a:
                raise Unsupported("constant: " + str(a["x"]))
            vals = a["vals"]
            if vals and type(vals[0]) is not int:
                vals = [self.const(v, a["t"]) for v in vals]
            c = self.consts[aid] = ConstArr(aid, vals, self.T.name(a["t"]))
        return c

    def const(self, v, ty):
        if isinstance(v, int):
            return v
        if "v" in v:
            t = self.T[ty]
            if t["k"] == "adt" and t["vars"]:
                ft = [x[1] for x in t["vars"][v["v"]]["f"]]
            elif t["k"] == "tuple":
                ft = t["e"]
            else:
                ft = [None] * len(v["f"])
            return Agg(v["v"], tuple(self.const(x, ft[i]) for i, x in enumerate(v["f"])))
        if "a" in v:
            e = self.T[ty].get("e") if ty is not None else None
            return Agg(None, tuple(self.const(x, e) for x in v["a"]))
        if "p" in v:
            n = self.P.allocs[v["p"]].get("static")
            if n is not None and self.P.mutable_static(n):
                raise Unsupported("mutable static " + n)
            return Ptr(-1 - v["p"], (0,), v["m"])
        if "zst" in v:
            return self.zst(v["zst"])
        if "fn" in v:
            return FnVal(v["fn"])
        if "addr" in v:
            return Ptr(None, (v["addr"],), None)
        raise Unsupported("constant: " + str(v.get("x", v)))

    def zst(self, ty):
        t = self.T[ty]
        k = t["k"]
        if k == "fndef":
            return FnVal(t["inst"])
        if k == "tuple":
            return Agg(0, tuple(self.zst(e) for e in t["e"]))
        if k == "adt":
            if t["vars"] and t["def"].find("PhantomData") < 0:
                return Agg(0, tuple(self.zst(f[1]) for f in t["vars"][0]["f"]))
            return Agg(0, ())
        if k == "closure":
            return Agg(0, tuple(self.zst(e) for e in t.get("up", [])))
        if k == "array":
            return Agg(None, tuple(self.zst(t["e"]) for _ in range(t["n"])))
        return Agg(0, ())

    def root(self, loc):
        if loc is None:
            raise Unsupported("dereference of an integer address")
        if loc < 0:
            return self.const_arr(-1 - loc)
        if loc >= HEAP:
            return self.st.heap[loc]
        raise Unsupported("root")

    def load(self, loc, path):
        if loc is not None and 0 <= loc < HEAP:
            try:
                v = self.st.frames[loc].locals[path[0]]
            except IndexError:
                raise Unsupported("dangling frame")
            k = 1
        else:
            v = self.root(loc)
            k = 0
        n = len(path)
        while k < n:
            s = path[k]
            t = type(v)
            if t is Agg or t is Seq:
                if type(s) is Term:
                    s = self.concretise(s)
                if s < 0 or s >= len(v.f):
                    if t is Seq or v.v is None:
                        raise PathEnd("ub", "memory access outside a buffer", self.site())
                    raise Unsupported("field %r of %r" % (s, v))
                v = v.f[s]
            elif t is ConstArr:
                if type(s) is Term:
                    self.check(s, 0, len(v) - 1, "read outside a constant table")
                    v = Row(v, s, ()).get()
                else:
                    if s < 0 or s >= len(v.elems):
                        raise PathEnd("ub", "memory access outside a constant table", self.site())
                    v = v.elems[s]
            elif t is Row:
                v = v.step(s)
            elif v is None:
                raise Unsupported("read of uninitialised memory")
            else:
                raise Unsupported("projection %r of %r" % (s, v))
            k += 1
        return v

    def check(self, t, lo, hi, msg):
        """UB obligation lo <= t <= hi"""
        self.oblige(msg)
        ok = self.branch_ok(t, lo, hi)
        if not ok:
            raise PathEnd("ub", msg, self.site())

    def branch_ok(self, t, lo, hi):
        if type(t) is not Term:
            return lo <= t <= hi
        r = iv(t, self.st.dom.hull(t.syms))
        if lo <= r[0] and r[1] <= hi:
            return True
        if not self.branch(mk("ge", t, lo, 64, True)):
            return False
        return bool(self.branch(mk("le", t, hi, 64, True)))

    def store(self, loc, path, val):
        st = self.st
        if loc is not None and 0 <= loc < HEAP:
            L = st.frames[loc].locals
            if len(path) == 1:
                L[path[0]] = val
            else:
                L[path[0]] = self._upd(L[path[0]], path, 1, val)
        elif loc is not None and loc >= HEAP:
            st.heap[loc] = self._upd(st.heap.get(loc), path, 0, val)
        else:
            raise PathEnd("ub", "write to constant memory", self.site())

    def _upd(self, node, path, k, val):
        if k == len(path):
            return val
        s = path[k]
        if type(node) is Row:
            node = self.unrow(node)
        t = type(node)
        if t is Agg:
            if type(s) is Term:
                s = self.concretise(s)
            f = node.f
            if s < 0 or s >= len(f):
                if node.v is None:
                    raise PathEnd("ub", "memory write outside an array", self.site())
                raise Unsupported("write field")
            return Agg(node.v, f[:s] + (self._upd(f[s], path, k + 1, val),) + f[s + 1:])
        if t is Seq:
            if type(s) is Term:
                s = self.concretise(s)
            f = node.f
            if s < 0 or s >= len(f):
                raise PathEnd("ub", "memory write outside a buffer", self.site())
            return Seq(node.kind, f[:s] + (self._upd(f[s], path, k + 1, val),) + f[s + 1:], node.cap)
        raise Unsupported("write into %r" % (node,))

    def unrow(self, r):
        e = r.arr.col(r.path)[0]
        if type(e) is Agg:
            return Agg(e.v, tuple(r.step(i) for i in range(len(e.f))))
        raise Unsupported("row copy")

    def alloc(self, val):
        st = self.st
        n = HEAP
        while n in st.heap:
            n += 1
        st.heap[n] = val
        return n

    def site(self):
        st = self.st
        if not st.frames:
            return ("?", 0)
        for f in reversed(st.frames):
            if f.fn.crate in ("unicode_normalization",):
                return (f.fn.name, f.fn.blocks[f.bb][2], f.fn.file)
        f = st.frames[-1]
        return (f.fn.name, f.fn.blocks[f.bb][2], f.fn.file)

    def oblige(self, kind):
        s = self.site()
        k = (kind,) + s
        self.obligations[k] = self.obligations.get(k, 0) + 1

    # ------------------------------------------------------------ frames
    def push(self, fn, args, dest, target, sync=False):
        if not fn.body:
            raise Unsupported("no body: " + fn.name)
        fr = Frame()
        fr.fn = fn
        fr.code = self.compiled(fn)
        st = self.st
        fr.depth = len(st.frames)
        if fr.depth > 400:
            raise Unsupported("recursion")
        fr.bb = 0
        fr.si = 0
        L = [None] * len(fn.locals)
        if len(args) != fn.argc:
            raise Unsupported("arity of %s: %d/%d" % (fn.name, len(args), fn.argc))
        L[1:1 + len(args)] = args
        fr.locals = L
        fr.dest, fr.target, fr.sync = dest, target, sync
        st.frames.append(fr)
        self.covered.add(fn.id)

    def call_sync(self, fn, args):
        """run a call to completion inside a step"""
        d = len(self.st.frames)
        if self.sync == 0 and self.snapshot is None:
            self.before_sync()
        self.sync += 1
        try:
            r = self.invoke(fn, args, None, None, True)
            if r is not PUSHED:
                return r
            return self._loop(d)
        finally:
            self.sync -= 1

    def before_sync(self):
        """a fork inside the nested run starts the whole step again, from the state before it"""
        if self.st.taken:
            self.unsnapped = True
        else:
            self.snapshot = self.st.copy()

    def invoke(self, fn, args, dest, target, sync=False):
        """call an instance: returns its value if handled at once, PUSHED if a frame was pushed"""
        h = self.handlers.get(fn.id)
        if h is None:
            h = fn.model
            if h is None:
                import models
                h = fn.model = models.find(fn, self) or False
        if h:
            self.covered.add(fn.id)
            r = h(self, fn, args, dest, target, sync)
            if r is not DECLINED:
                return r
        if self.summarise is not None and self.summarise(fn) and not sync_summary_off(self):
            r = self.summary_call(fn, args)
            if r is not DECLINED:
                return r
        if fn.body:
            if fn.is_closure:
                # (self, (args...)) -> self, args...
                a = [args[0]] + list(self.untuple(args[-1], fn))
                self.push(fn, a, dest, target, sync)
                return PUSHED
            if fn.spread is not None:
                pass
            self.push(fn, list(args), dest, target, sync)
            return PUSHED
        raise Unsupported("call to " + fn.name)

    def untuple(self, v, fn):
        if type(v) is Row:
            v = self.unrow(v)
        if type(v) is not Agg:
            raise Unsupported("argument tuple")
        return v.f

    def call_value(self, callee_ty, selfv, argtuple, dest, target, sync):
        """call a value of callable type (fn item, closure, fn pointer, references to them)"""
        t = self.T[callee_ty]
        k = t["k"]
        while k == "ref" or k == "ptr":
            callee_ty = t["e"]
            if type(selfv) is Ptr:
                inner = self.T[callee_ty]
                if inner["k"] in ("ref", "ptr"):
                    selfv = self.load(selfv.loc, selfv.path)
                elif inner["k"] == "fnptr":
                    selfv = self.load(selfv.loc, selfv.path)
            t = self.T[callee_ty]
            k = t["k"]
        if k == "fndef":
            fn = self.P.fns[t["inst"]]
            return self.invoke(fn, list(argtuple.f), dest, target, sync)
        if k == "fnptr":
            if type(selfv) is Ptr:
                selfv = self.load(selfv.loc, selfv.path)
            if type(selfv) is FnVal and selfv.inst is not None:
                return self.invoke(self.P.fns[selfv.inst], list(argtuple.f), dest, target, sync)
            raise Unsupported("function pointer")
        if k == "closure":
            ids = [x for x in t["insts"] if x is not None and self.P.fns[x].kind == "item"]
            if not ids:
                raise Unsupported("closure instance")
            fn = self.P.fns[ids[0]]
            want_ref = self.T[fn.locals[1]]["k"] in ("ref", "ptr")
            if want_ref and type(selfv) is not Ptr:
                selfv = Ptr(self.alloc(selfv), ())
            elif not want_ref and type(selfv) is Ptr:
                selfv = self.load(selfv.loc, selfv.path)
            return self.invoke(fn, [selfv, argtuple], dest, target, sync)
        raise Unsupported("callable of kind " + k)

    # ------------------------------------------------------------ running
    def start(self, st):
        self.work.append(st)

    def explore(self, limit_s=None):
        import time
        stop = time.time() + limit_s if limit_s else None
        if DEADLINE[0] is not None and (stop is None or stop > DEADLINE[0]):
            stop = DEADLINE[0]
        while self.work:
            # breadth first gives short histories; a long frontier is worked off depth first to bound memory
            st = self.work.popleft() if len(self.work) < 20000 else self.work.pop()
            self.run(st)
            if stop is not None and time.time() > stop:
                self.undecided["time limit"] = self.undecided.get("time limit", 0) + len(self.work)
                self.work.clear()
                break
            if self.max_paths and self.npaths > self.max_paths:
                self.undecided["path limit"] = self.undecided.get("path limit", 0) + len(self.work)
                self.work.clear()
                break

    def run(self, st):
        self.st = st
        self.npaths += 1
        self.sync = 0
        self.saved = None
        self.snapshot = None
        self.unsnapped = False
        try:
            self._loop(0)
        except PathEnd as e:
            self.finish(e)
        except Unsupported as e:
            self.undecided[str(e)[:160]] = self.undecided.get(str(e)[:160], 0) + 1
            if self.client is not None:
                self.client.on_undecided(self, str(e))

    def finish(self, e):
        if e.kind in ("merged", "pruned"):
            return
        if self.client is not None:
            self.client.on_end(self, e)
        else:
            self.outcomes.append((e.kind, e.msg, e.site, self.st))

    def _loop(self, floor):
        st = self.st
        top = floor == 0
        while True:
            fr = st.frames[-1]
            try:
                while True:
                    stmts, term = fr.code[fr.bb]
                    n = len(stmts)
                    i = fr.si
                    self.nsteps += 1
                    st.steps += 1
                    if st.steps > self.max_steps:
                        raise Unsupported("step limit")
                    while i < n:
                        fr.si = i
                        if top and st.taken:
                            st.taken = []
                            self.saved = None
                        stmts[i](self, fr)
                        i += 1
                    fr.si = n
                    if top and st.taken:
                        st.taken = []
                    if top:
                        self.saved = None
                        self.snapshot = None
                        self.unsnapped = False
                    r = term(self, fr)
                    if r is not None:
                        # frame change
                        if r is RETURNED:
                            if not top and len(st.frames) == floor:
                                return self.retval
                            if top and not st.frames:
                                return None
                        break
            except Fork as e:
                if not top:
                    raise
                self._fork(e.n)
                return

    def _fork(self, n):
        st = self.st
        base = self.snapshot
        taken = st.taken
        if base is None:
            if self.unsnapped:
                raise Unsupported("fork in a nested call after a fork")
            base = st
            if self.saved is None:
                raise Unsupported("fork outside a step")
            (st.dom, st.orc, st.ghost, st.order, st.trace, st.nsym) = self.saved
        for k in range(n - 1, -1, -1):
            c = base.copy()
            c.queue = taken + [k]
            c.taken = []
            self.work.append(c)

    # ------------------------------------------------------------ function summaries
    def summary_call(self, fn, args):
        """scalar function of one symbol: fork over its result classes"""
        syms = set()
        for a in args:
            if type(a) is Term:
                if a.op != "sym":
                    return DECLINED
                syms |= a.syms
            elif type(a) is not int:
                return DECLINED
        if len(syms) != 1:
            return DECLINED
        key = (fn.id, tuple(a if type(a) is int else "s" for a in args))
        summ = self.summaries.get(key)
        if summ is None:
            summ = self.summaries[key] = self.make_summary(fn, args)
        if summ is False:
            return DECLINED
        (s,) = syms
        D = self.st.dom.d[s]
        kept = _alts.get((id(summ), id(D)))
        if kept is not None and kept[0] is summ and kept[1] is D:
            alts = kept[2]
        else:
            alts = []
            for res, C in summ:
                x = is_and(D, C)
                if x:
                    alts.append((res, x))
            if len(_alts) > 20000:
                _alts.clear()
            _alts[id(summ), id(D)] = (summ, D, alts)
        if not alts:
            raise Unsupported("summary of %s does not cover its argument" % fn.name)
        k = self.choose(len(alts))
        res, x = alts[k]
        if len(alts) > 1:
            self.setdom(self.st.dom.with_(s, x))
        return res(s) if callable(res) else res

    def make_summary(self, fn, args):
        sub = Machine(self.P)
        sub.consts = self.consts
        sub.summaries = self.summaries
        st = State()
        st.dom = Dom({0: CHARS})
        sub.st = st
        a = [x if type(x) is int else sym(0) for x in args]
        sub.push(fn, a, None, None)
        res = []
        sub.client = SummaryClient(res)
        sub.start(st)
        sub.explore()
        self.covered |= sub.covered
        for k, v in sub.obligations.items():
            self.obligations[k] = self.obligations.get(k, 0) + v
        self.nsteps += sub.nsteps
        if sub.undecided:
            return False
        out = {}
        for v, dom in res:
            if dom.pts or dom.excl:
                return False
            for cv, D in split_value(v, dom):
                out.setdefault(cv, []).extend(D)
        r = []
        for v, D in out.items():
            D = is_norm(D)
            if v is ID:
                r.append((sym, D))
            else:
                r.append((v, D))
        if len(r) > 400:
            return False
        return r

    # ------------------------------------------------------------ compilation of MIR
    def compiled(self, fn):
        c = self.P._consts.get(("code", fn.id))
        if c is None:
            comp = Compiler(self, fn)
            c = [comp.block(b) for b in fn.blocks]
            self.P._consts[("code", fn.id)] = c
        return c


class _Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


PUSHED = _Tok("PUSHED")
DECLINED = _Tok("DECLINED")
RETURNED = _Tok("RETURNED")
ID = _Tok("ID")


def sync_summary_off(m):
    return False


class SummaryClient:
    def __init__(self, res):
        self.res = res

    def decide(self, m, c):
        return None

    def special(self, x):
        return False

    def values(self, m, t):
        return None

    def on_return(self, m, v):
        self.res.append((v, m.st.dom))
        raise PathEnd("pruned")

    def on_end(self, m, e):
        if e.kind in ("panic", "ub"):
            m.undecided["summary: %s %s" % (e.kind, e.msg)] = 1

    def on_undecided(self, m, msg):
        pass


def split_value(v, dom):
    """concrete values of a scalar result with their value sets (single symbol 0)"""
    if v is sym(0):
        return [(ID, dom.d[0])]
    if type(v) is Row:
        v = v.get()
        if type(v) is Row:
            e = v.arr.col(v.path)[0]
            v = Agg(e.v, tuple(v.step(i) for i in range(len(e.f)))) if not e.f else None
            if v is None:
                raise Unsupported("row result")
    if type(v) is Term:
        return [(x, d.d[0]) for x, d in values(v, dom, 400).items()]
    if type(v) is Agg:
        out = [((), dom)]
        for f in v.f:
            nxt = []
            for pre, d in out:
                for x, D in split_value(f, d):
                    nxt.append((pre + (x,), d.with_(0, D)))
            out = nxt
        return [(Agg(v.v, tuple(x)), d.d[0]) for x, d in out]
    return [(v, dom.d[0])]


BINOPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "Shl": "shl",
          "Shr": "shr", "Div": "div", "Rem": "rem", "Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt",
          "Ge": "ge"}
OVF = {"Add": "addo", "Sub": "subo", "Mul": "mulo"}


class Compiler:
    def __init__(self, m, fn):
        self.m, self.fn, self.T = m, fn, m.T

    # -- types of places
    def place_ty(self, p):
        ty = self.fn.locals[p[0]]
        for e in p[1:]:
            if e == "*":
                t = self.T[ty]
                if t["k"] in ("ref", "ptr"):
                    ty = t["e"]
                else:
                    return None
            elif e == "oc":
                pass
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.T[ty].get("e")
                if ty is None:
                    return None
            elif e[0] == "ss":
                pass
        return ty

    def op_ty(self, o):
        if "cp" in o:
            return self.place_ty(o["cp"])
        if "mv" in o:
            return self.place_ty(o["mv"])
        return o.get("t")

    # -- places
    def addr(self, p):
        l = p[0]
        proj = p[1:]
        if not proj:
            path = (l,)
            return lambda m, fr: (fr.depth, path, None)
        if all(isinstance(e, list) and e[0] == "f" or e == "oc" or isinstance(e, list) and e[0] == "d" for e in proj):
            path = (l,) + tuple(e[1] for e in proj if e != "oc" and e[0] == "f")
            return lambda m, fr: (fr.depth, path, None)
        steps = []
        for e in proj:
            if e == "*":
                steps.append(("*", None))
            elif e == "oc" or e[0] == "d":
                continue
            elif e[0] == "f":
                steps.append(("f", e[1]))
            elif e[0] == "i":
                steps.append(("i", e[1]))
            elif e[0] == "ci":
                steps.append(("ci", tuple(e[1:])))
            elif e[0] == "ss":
                steps.append(("ss", tuple(e[1:])))
            else:
                raise Unsupported("place " + str(e))

        def f(m, fr):
            loc, path, ln = fr.depth, (l,), None
            for k, x in steps:
                if k == "*":
                    v = m.load(loc, path)
                    if type(v) is not Ptr:
                        v = unbox(v)
                    loc, path, ln = v.loc, v.path, v.len
                elif k == "f":
                    path = path + (x,)
                elif k == "i":
                    ix = fr.locals[x]
                    if ln is not None:
                        path = path[:-1] + (mk("add", path[-1], ix, 64),)
                        ln = None
                    else:
                        path = path + (ix,)
                elif k == "ci":
                    off, mn, fe = x
                    n = ln
                    if n is None:
                        n = len(m.load(loc, path).f)
                        base = path + (0,)
                    else:
                        base = path
                    ix = mk("sub", n, off, 64) if fe else off
                    path = base[:-1] + (mk("add", base[-1], ix, 64),)
                    ln = None
                else:
                    a, b, fe = x
                    n = ln
                    if n is None:
                        n = len(m.load(loc, path).f)
                        base = path + (0,)
                    else:
                        base = path
                    path = base[:-1] + (mk("add", base[-1], a, 64),)
                    ln = mk("sub", n, a + b, 64) if fe else b - a
            return loc, path, ln

        return f

    def get(self, p):
        l = p[0]
        if len(p) == 1:
            def g0(m, fr):
                return fr.locals[l]
            return g0
        if len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f":
            i = p[1][1]

            def g1(m, fr):
                v = fr.locals[l]
                if type(v) is Agg and i < len(v.f):
                    return v.f[i]
                return m.load(fr.depth, (l, i))
            return g1
        a = self.addr(p)

        def g(m, fr):
            loc, path, ln = a(m, fr)
            if ln is not None:
                raise Unsupported("read of unsized place")
            return m.load(loc, path)
        return g

    def set(self, p):
        l = p[0]
        if len(p) == 1:
            def s0(m, fr, v):
                fr.locals[l] = v
            return s0
        a = self.addr(p)

        def s(m, fr, v):
            loc, path, ln = a(m, fr)
            m.store(loc, path, v)
        return s

    def operand(self, o):
        if "cp" in o:
            return self.get(o["cp"])
        if "mv" in o:
            return self.get(o["mv"])
        if "rc" in o:
            v = 1 if "Overflow" in o["rc"] and getattr(self.m.P, "debug", True) else 0
            return lambda m, fr: v
        c = o["c"]
        ty = o.get("t")
        try:
            v = self.m.const(c, ty)
        except Unsupported as e:
            msg = str(e)

            def bad(m, fr):
                raise Unsupported(msg)
            return bad
        return lambda m, fr: v

    # -- statements
    def block(self, b):
        st, t, line = b
        out = []
        for s in st:
            try:
                f = self.stmt(s)
            except Unsupported as e:
                f = self.bad(str(e))
            if f is not None:
                out.append(f)
        try:
            tf = self.term(t)
        except Unsupported as e:
            tf = self.bad(str(e))
        return tuple(out), tf

    def bad(self, msg):
        def f(m, fr):
            raise Unsupported(msg)
        return f

    def stmt(self, s):
        k = s[0]
        if k == "=":
            g = self.rvalue(s[2])
            if len(s[1]) == 1:
                l = s[1][0]

                def f(m, fr):
                    fr.locals[l] = g(m, fr)
                return f
            w = self.set(s[1])

            def f2(m, fr):
                w(m, fr, g(m, fr))
            return f2
        if k == "dead":
            l = s[1]

            def d(m, fr):
                fr.locals[l] = None
            return d
        if k == "sd":
            gp = self.get(s[1])
            w = self.set(s[1])
            var = s[2]

            def sd(m, fr):
                v = gp(m, fr)
                w(m, fr, Agg(var, v.f if type(v) is Agg else ()))
            return sd
        if k == "copy":
            a, b, n = [self.operand(x) for x in s[1:]]

            def cp(m, fr):
                copy_elems(m, a(m, fr), b(m, fr), n(m, fr))
            return cp
        raise Unsupported("statement " + k)

    def bits_of(self, ty):
        if ty is None:
            return None
        b = self.T.bits(ty)
        if b is None:
            return None
        return b, self.T.signed(ty)

    def rvalue(self, r):
        k = r[0]
        if k == "use":
            return self.operand(r[1])
        if k == "ref":
            a = self.addr(r[1])

            def ref_(m, fr):
                loc, path, ln = a(m, fr)
                return Ptr(loc, path, ln)
            return ref_
        if k == "agg":
            var = r[1]
            ops = [self.operand(o) for o in r[2]]
            if not ops:
                v = Agg(var, ())
                return lambda m, fr: v
            if len(ops) == 1:
                o0 = ops[0]
                return lambda m, fr: Agg(var, (o0(m, fr),))
            return lambda m, fr: Agg(var, tuple([o(m, fr) for o in ops]))
        if k == "array":
            ops = [self.operand(o) for o in r[1]]
            return lambda m, fr: Agg(None, tuple([o(m, fr) for o in ops]))
        if k == "repeat":
            o = self.operand(r[1])
            n = r[2]
            return lambda m, fr: Agg(None, (o(m, fr),) * n)
        if k == "rawptr":
            a, b = [self.operand(x) for x in r[1]]

            def rp(m, fr):
                p = a(m, fr)
                n = b(m, fr)
                if type(p) is not Ptr:
                    p = unbox(p)
                return Ptr(p.loc, p.path, n if type(n) in (int, Term) else None)
            return rp
        if k in ("bin", "cbin"):
            bo = self.binop(k, r[1], r[2], r[3])

            def bp(m, fr):
                try:
                    return bo(m, fr)
                except PoisonUse:
                    return POISON
            return bp
        if k == "un":
            return self.unop(r[1], r[2])
        if k == "cast":
            return self.castop(r[1], r[2], r[3])
        if k == "fnptr":
            v = FnVal(r[1])
            return lambda m, fr: v
        if k == "discr":
            ty = self.place_ty(r[1])
            g = self.get(r[1])
            T = self.T
            if ty is None:
                raise Unsupported("discriminant type")
            t = T[ty]
            if t["k"] != "adt":
                raise Unsupported("discriminant of " + t["k"])
            ds = [v["d"] for v in t["vars"]]

            def disc(m, fr):
                v = g(m, fr)
                if type(v) is Agg:
                    return ds[v.v]
                if type(v) is Row:
                    if ds != list(range(len(ds))):
                        raise Unsupported("discriminant of table row")
                    return load(v.arr, v.idx, v.path + ("disc",))
                if type(v) is EnumTerm:
                    return v.t
                if v is None:
                    return POISON   # optimised library MIR reads dead locals whose value is then unused
                raise Unsupported("discriminant of %r" % (v,))
            return disc
        if k == "len":
            a = self.addr(r[1])

            def ln(m, fr):
                loc, path, n = a(m, fr)
                if n is not None:
                    return n
                return len(m.load(loc, path).f)
            return ln
        raise Unsupported("rvalue " + str(r[:2]))

    def binop(self, kind, op, oa, ob):
        a, b = self.operand(oa), self.operand(ob)
        ta = self.op_ty(oa)
        if op == "Offset":
            def off(m, fr):
                return ptr_add(m, a(m, fr), b(m, fr))
            return off
        bs = self.bits_of(ta)
        if op == "Cmp":
            if bs is None:
                raise Unsupported("three-way comparison")
            bits, sg = bs

            def cmp3(m, fr):
                x, y = a(m, fr), b(m, fr)
                if m.branch(mk("lt", x, y, bits, sg)):
                    return Agg(0, ())
                if m.branch(mk("eq", x, y, bits, sg)):
                    return Agg(1, ())
                return Agg(2, ())
            return cmp3
        unchecked = op.endswith("Unchecked")
        o = op[:-9] if unchecked else op
        opn = BINOPS.get(o)
        if opn is None:
            raise Unsupported("operator " + op)
        if bs is None:
            # pointers and other things: equality / ordering of element pointers
            def pc(m, fr):
                return ptr_cmp(m, opn, a(m, fr), b(m, fr))
            return pc
        bits, sg = bs
        if kind == "cbin":
            ovn = OVF[o]

            def cb(m, fr):
                x, y = a(m, fr), b(m, fr)
                if type(x) is int and type(y) is int:
                    return Agg(0, (fold(opn, x, y, bits, sg), fold(ovn, x, y, bits, sg)))
                num(x)
                num(y)
                return Agg(0, (mk(opn, x, y, bits, sg), m.simp(mk(ovn, x, y, bits, sg))))
            return cb
        if unchecked:
            ovn = OVF.get(o)

            def ub(m, fr):
                x, y = num(a(m, fr)), num(b(m, fr))
                m.oblige("unchecked arithmetic")
                if ovn:
                    if m.branch(m.simp(mk(ovn, x, y, bits, sg))):
                        raise PathEnd("ub", "overflow in unchecked arithmetic", m.site())
                elif not m.branch(m.simp(mk("lt", y, bits, 64))):
                    raise PathEnd("ub", "overflow in unchecked shift", m.site())
                return mk(opn, x, y, bits, sg)
            return ub
        if opn in CMP:
            def cm(m, fr):
                x, y = a(m, fr), b(m, fr)
                if type(x) is int and type(y) is int:
                    return fold(opn, x, y, bits, sg)
                num(x)
                num(y)
                return mk(opn, x, y, bits, sg)
            return cm
        if opn in ("div", "rem"):
            def dv(m, fr):
                x, y = num(a(m, fr)), num(b(m, fr))
                if type(y) is Term:
                    y = m.concretise(y)
                if y == 0:
                    raise PathEnd("ub", "division by zero", m.site())
                return mk(opn, x, y, bits, sg)
            return dv

        def bo(m, fr):
            x, y = a(m, fr), b(m, fr)
            if type(x) is int and type(y) is int:
                return fold(opn, x, y, bits, sg)
            num(x)
            num(y)
            return mk(opn, x, y, bits, sg)
        return bo

    def unop(self, op, o):
        a = self.operand(o)
        ty = self.op_ty(o)
        if op == "PtrMetadata":
            def pm(m, fr):
                p = a(m, fr)
                if type(p) is not Ptr:
                    p = unbox(p)
                return p.len if p.len is not None else UNIT
            return pm
        if op == "Not":
            if self.T[ty]["k"] == "bool":
                return lambda m, fr: neg_cond(num(a(m, fr)))
            bits, sg = self.bits_of(ty)

            def nt(m, fr):
                x = num(a(m, fr))
                if type(x) is int:
                    return wrap(~x, bits, sg)
                return _mk("not", (x,), bits, sg)
            return nt
        if op == "Neg":
            bits, sg = self.bits_of(ty)

            def ng(m, fr):
                x = num(a(m, fr))
                if type(x) is int:
                    return wrap(-x, bits, sg)
                return _mk("neg", (x,), bits, sg)
            return ng
        raise Unsupported("unary " + op)

    def castop(self, kind, o, ty):
        a = self.operand(o)
        fty = self.op_ty(o)
        T = self.T
        if kind == "IntToInt":
            fb = self.bits_of(fty)
            tb = self.bits_of(ty)
            if fb is None:
                # fieldless enum to integer: its discriminant
                t = T[fty] if fty is not None else {"k": "?"}
                if t["k"] == "adt":
                    ds = [v["d"] for v in t["vars"]]

                    def en(m, fr):
                        v = a(m, fr)
                        if type(v) is Agg:
                            return wrap(ds[v.v], tb[0], tb[1])
                        raise Unsupported("enum cast")
                    return en
                raise Unsupported("cast from " + t["k"])
            checked = T[ty]["k"] == "char" and T[fty]["k"] != "char"

            def ii(m, fr):
                x = a(m, fr)
                if type(x) is int:
                    return wrap(x, tb[0], tb[1])
                return cast(num(x), tb[0], tb[1], fb[0], fb[1])
            return ii
        if kind == "Transmute":
            def tr(m, fr):
                return transmute(m, a(m, fr), fty, ty)
            return tr
        if kind in ("PtrToPtr", "ArrayToPointer", "MutToConstPointer"):
            ft = T[fty] if fty is not None else None
            tt = T[ty]
            fat_to = tt["k"] in ("ptr", "ref") and T[tt["e"]]["k"] in ("slice", "str")
            arr = ft is not None and ft["k"] in ("ptr", "ref") and T[ft["e"]]["k"] == "array" and \
                tt["k"] in ("ptr", "ref") and tt["e"] == T[ft["e"]]["e"]

            def pp(m, fr):
                p = a(m, fr)
                if type(p) is not Ptr:
                    p = unbox(p)
                if arr:
                    return Ptr(p.loc, p.path + (0,), None)
                if fat_to:
                    return p
                return Ptr(p.loc, p.path, None) if p.len is not None else p
            return pp
        if kind == "Unsize":
            ft, tt = T[fty], T[ty]
            if ft["k"] in ("ref", "ptr") and T[ft["e"]]["k"] == "array" and T[tt["e"]]["k"] == "slice":
                n = T[ft["e"]]["n"]

                def us(m, fr):
                    p = a(m, fr)
                    return Ptr(p.loc, p.path + (0,), n)
                return us
            raise Unsupported("unsize to " + T.name(ty))
        raise Unsupported("cast " + kind)

    # -- terminators: return None to stay in the frame (bb set), or a token
    def term(self, t):
        k = t[0]
        if k == "goto":
            b = t[1]

            def g(m, fr):
                fr.bb = b
                fr.si = 0
            return g
        if k == "switch":
            a = self.operand(t[1])
            tbl = {v: b for v, b in t[2]}
            other = t[3]
            items = list(t[2])
            bs = self.bits_of(self.op_ty(t[1])) or (64, False)

            def sw(m, fr):
                x = a(m, fr)
                if type(x) is int:
                    b = tbl.get(x)
                    if b is None and bs[1]:
                        b = tbl.get(x & ((1 << bs[0]) - 1))
                    fr.bb = other if b is None else b
                    fr.si = 0
                    return
                num(x)
                fr.bb = m.switch(x, items, other, bs)
                fr.si = 0
            return sw
        if k == "return":
            def ret(m, fr):
                v = fr.locals[0]
                st = m.st
                if v is None:
                    v = UNIT
                if fr.depth == 0:
                    m.snapshot = st.copy()
                    m.client_return(v)
                    return RETURNED
                st.frames.pop()
                if fr.sync:
                    m.retval = v
                else:
                    c = st.frames[-1]
                    d = fr.dest
                    if type(d) is int:
                        c.locals[d] = v
                    else:
                        m.store(d[0], d[1], v)
                    c.bb = fr.target
                    c.si = 0
                return RETURNED
            return ret
        if k == "unreachable":
            return self.bad("unreachable reached")
        if k in ("resume", "abort"):
            return self.bad(k)
        if k == "drop":
            b = t[2]
            inst = t[3]
            if inst is None or not self.drop_local(inst):
                def dr(m, fr):
                    fr.bb = b
                    fr.si = 0
                return dr
            return self.bad("drop with effects")
        if k == "assert":
            a = self.operand(t[1])
            exp = 1 if t[2] else 0
            msg = t[3]
            b = t[4]
            what = msg[0] if isinstance(msg, list) else str(msg)
            if what == "overflow":
                what = "arithmetic overflow (%s)" % msg[1]
            elif what == "bounds":
                what = "index out of bounds"
            elif what == "other":
                what = "assertion (division by zero or similar)"

            def asr(m, fr):
                x = a(m, fr)
                if type(x) is not int:
                    num(x)
                m.oblige(what)
                v = m.branch(x)
                if v != exp:
                    raise PathEnd("panic", what, m.site())
                fr.bb = b
                fr.si = 0
            return asr
        if k == "call":
            ops = [self.operand(o) for o in t[2]]
            target = t[4]
            if len(t[3]) == 1:
                dl = t[3][0]
                da = None
            else:
                dl = None
                da = self.addr(t[3])
            if isinstance(t[1], int):
                fn = self.m.P.fns[t[1]]

                def call(m, fr):
                    args = [o(m, fr) for o in ops]
                    d = dl if da is None else da(m, fr)
                    m.cursync = False
                    r = m.invoke(fn, args, d, target)
                    if r is PUSHED:
                        return PUSHED
                    if target is None:
                        raise Unsupported("diverging call returned")
                    if da is None:
                        fr.locals[dl] = r
                    else:
                        m.store(d[0], d[1], r)
                    fr.bb = target
                    fr.si = 0
                return call
            if t[1] is None:
                return self.bad("unresolved call")
            fo = self.operand(t[1])
            fty = self.op_ty(t[1])

            def icall(m, fr):
                fv = fo(m, fr)
                args = [o(m, fr) for o in ops]
                d = dl if da is None else da(m, fr)
                if type(fv) is not FnVal or fv.inst is None:
                    raise Unsupported("indirect call")
                r = m.invoke(m.P.fns[fv.inst], args, d, target)
                if r is PUSHED:
                    return PUSHED
                if da is None:
                    fr.locals[dl] = r
                else:
                    m.store(d[0], d[1], r)
                fr.bb = target
                fr.si = 0
            return icall
        raise Unsupported("terminator " + k)

    def drop_local(self, inst):
        m = self.m
        r = m.local_drop.get(inst)
        if r is None:
            r = any(m.P.fns[i].crate == "unicode_normalization" for i in m.P.reach([inst]))
            m.local_drop[inst] = r
        return r


class EnumTerm:
    """a fieldless enum value given by a discriminant term"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return type(o) is EnumTerm and o.t is self.t

    def __hash__(self):
        return hash(("en", self.t))


def switch(self, x, items, other, bs):
    dom = self.st.dom
    alts = []
    # sequential splitting without committing
    if self.client is not None and self.client.special(x):
        for v, b in items:
            if self.branch(mk("eq", x, v, bs[0], bs[1])):
                return b
        return other
    rest = [dom]
    for v, b in items:
        if bs[1] and v >> (bs[0] - 1):
            v = wrap(v, bs[0], True)
        c = mk("eq", x, v, bs[0], bs[1])
        nrest = []
        for d in rest:
            for tv, d2 in decide(c, d):
                if tv:
                    alts.append((b, d2))
                else:
                    nrest.append(d2)
        rest = nrest
        if not rest:
            break
    for d in rest:
        alts.append((other, d))
    k = self.choose(len(alts))
    b, d = alts[k]
    if len(alts) > 1:
        self.setdom(d)
    return b


Machine.switch = switch


def client_return(self, v):
    st = self.st
    st.frames.pop()
    if self.client is None:
        self.outcomes.append(("return", v, None, st))
        raise PathEnd("pruned")
    self.client.on_return(self, v)


Machine.client_return = client_return


POISON = Opaque("poison")


class PoisonUse(Unsupported):
    pass


def num(x):
    if type(x) is int or type(x) is Term:
        return x
    if x is POISON:
        raise PoisonUse("use of an uninitialised value")
    raise Unsupported("arithmetic on %r" % (x,))


def unbox(v):
    """the pointer inside a wrapper (NonNull, Unique, Box, …)"""
    while type(v) is Agg and v.v in (0,) and len(v.f) >= 1:
        nz = [x for x in v.f if not (type(x) is Agg and not leaves(x))]
        if len(nz) != 1:
            break
        v = nz[0]
        if type(v) is Ptr:
            return v
    if type(v) is Ptr:
        return v
    raise Unsupported("not a pointer: %r" % (v,))


def leaves(v):
    if type(v) is Agg:
        out = []
        for x in v.f:
            out.extend(leaves(x))
        return out
    return [v]


def ptr_add(m, p, n):
    if type(p) is not Ptr:
        p = unbox(p)
    if type(n) is int and n == 0:
        return p
    last = p.path[-1] if p.path else None
    if p.loc is None or last is None:
        raise Unsupported("pointer arithmetic")
    parent = m.load(p.loc, p.path[:-1]) if (p.loc < 0 or p.loc >= HEAP or len(p.path) > 1) else None
    if not (type(parent) is Seq or type(parent) is ConstArr or (type(parent) is Agg and parent.v is None)):
        raise Unsupported("pointer arithmetic on a non-array")
    if type(n) is int and n >= 1 << 63:
        n -= 1 << 64
    if type(n) is int and n < 0:
        return Ptr(p.loc, p.path[:-1] + (mk("sub", last, -n, 64),), p.len)
    return Ptr(p.loc, p.path[:-1] + (mk("add", last, n, 64),), p.len)


def ptr_cmp(m, op, a, b):
    if type(a) is Agg and type(b) is Agg and op in ("eq", "ne") and a.v is not None:
        # enums without fields compared directly do not occur in MIR; wrappers of pointers do
        a, b = unbox(a), unbox(b)
    if type(a) is not Ptr or type(b) is not Ptr:
        raise Unsupported("comparison of %r and %r" % (a, b))
    if a.loc != b.loc:
        if op == "eq":
            return 0
        if op == "ne":
            return 1
        raise Unsupported("ordering of unrelated pointers")
    if a.path[:-1] != b.path[:-1]:
        if op in ("eq", "ne"):
            return int((a.path == b.path) == (op == "eq"))
        raise Unsupported("ordering of unrelated pointers")
    return mk(op, a.path[-1], b.path[-1], 64, False) if a.path else int(op in ("eq", "le", "ge"))


def copy_elems(m, src, dst, n):
    """copy_nonoverlapping of n elements: only between initialised places of known length"""
    n = m.concretise(n)
    vals = []
    for i in range(n):
        p = ptr_add(m, src, i)
        vals.append(m.load(p.loc, p.path))
    for i in range(n):
        p = ptr_add(m, dst, i)
        m.store(p.loc, p.path, vals[i])


def valid_char(m, x, what):
    """obligation: x is a Unicode scalar value"""
    m.oblige(what)
    if type(x) is int:
        ok = 0 <= x <= 0xD7FF or 0xE000 <= x <= 0x10FFFF
    else:
        num(x)
        if m.branch(mk("le", x, 0xD7FF, 32)):
            ok = True
        elif m.branch(mk("lt", x, 0xE000, 32)):
            ok = False
        else:
            ok = bool(m.branch(mk("le", x, 0x10FFFF, 32)))
    if not ok:
        raise PathEnd("ub", "%s: not a Unicode scalar value" % what, m.site())


def transmute(m, v, fty, ty):
    T = m.T
    tk = T[ty]["k"]
    if fty == ty:
        return v
    if tk == "char" and (fty is None or T[fty]["k"] != "char"):
        ls = leaves(v)
        if len(ls) != 1:
            raise Unsupported("transmute to char")
        valid_char(m, ls[0], "transmute to char")
        return ls[0]
    if tk == "bool" and T[fty]["k"] != "bool":
        m.oblige("transmute to bool")
        if type(v) is int and v not in (0, 1):
            raise PathEnd("ub", "transmute to bool", m.site())
    ls = leaves(v)
    if tk in ("int", "uint", "char", "bool", "ptr", "ref", "pat"):
        if len(ls) != 1:
            raise Unsupported("transmute")
        x = ls[0]
        if tk in ("int", "uint") and type(x) is Ptr:
            # only the address of a zero-sized or dangling thing is ever looked at
            if x.loc is None:
                return x.path[0]
            raise Unsupported("pointer to integer")
        if tk in ("int", "uint") and type(x) in (int, Term) and fty is not None:
            fb = T.bits(fty)
            if fb is not None:
                return cast(x, T.bits(ty), tk == "int", fb, T.signed(fty)) if fb == T.bits(ty) else _uns("transmute width")
        if tk in ("ptr", "ref") and type(x) is int:
            return Ptr(None, (x,), None)
        return x
    if tk == "adt":
        r, rest = rebuild(m, ty, ls)
        if rest:
            raise Unsupported("transmute to " + T.name(ty))
        return r
    raise Unsupported("transmute to " + T.name(ty))


def _uns(s):
    raise Unsupported(s)


def rebuild(m, ty, ls):
    T = m.T
    t = T[ty]
    if t["k"] in ("int", "uint", "char", "bool", "ptr", "ref", "pat"):
        if not ls:
            raise Unsupported("transmute")
        x = ls[0]
        if t["k"] == "char":
            valid_char(m, x, "transmute to char")
        return x, ls[1:]
    if t["k"] == "adt" and t["kind"] == "struct":
        if "PhantomData" in t["def"]:
            return Agg(0, ()), ls
        fs = []
        for f in t["vars"][0]["f"]:
            x, ls = rebuild(m, f[1], ls)
            fs.append(x)
        return Agg(0, tuple(fs)), ls
    if t["k"] == "tuple":
        fs = []
        for f in t["e"]:
            x, ls = rebuild(m, f, ls)
            fs.append(x)
        return Agg(0, tuple(fs)), ls
    raise Unsupported("transmute to " + T.name(ty))
