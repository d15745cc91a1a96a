"""Loads a MIR dump (see driver/) and prepares it for interpretation."""
import json, re


class Types:
    def __init__(self, tys):
        self.t = tys

    def __getitem__(self, i):
        return self.t[i]

    def name(self, i):
        return self.t[i]["name"]

    def is_scalar(self, i):
        return self.t[i]["k"] in ("bool", "char", "int", "uint")

    def bits(self, i):
        t = self.t[i]
        k = t["k"]
        if k == "bool":
            return 8
        if k == "char":
            return 32
        if k in ("int", "uint"):
            return t["bits"]
        if k == "pat":
            return self.bits(t["e"])
        return None

    def signed(self, i):
        t = self.t[i]
        if t["k"] == "pat":
            return self.signed(t["e"])
        return t["k"] == "int"

    def adt_args(self, i):
        return [a for a in self.t[i].get("args", []) if isinstance(a, int)]

    def scalar_only(self, i, seen=None):
        """True if values of the type are made of scalars only (no pointers)."""
        seen = seen or set()
        if i in seen:
            return True
        seen = seen | {i}
        t = self.t[i]
        k = t["k"]
        if k in ("bool", "char", "int", "uint"):
            return True
        if k == "tuple":
            return all(self.scalar_only(e, seen) for e in t["e"])
        if k == "array":
            return self.scalar_only(t["e"], seen)
        if k == "adt" and t["kind"] in ("struct", "enum"):
            if t["crate"] not in ("core", "unicode_normalization", "harness"):
                return False
            return all(self.scalar_only(f[1], seen) for v in t["vars"] for f in v["f"])
        return False


class Fn:
    __slots__ = ("id", "name", "deff", "crate", "kind", "intr", "targs", "file", "line", "stopped", "sig", "body",
                 "locals", "argc", "spread", "blocks", "names", "is_closure", "live_in", "prog", "model", "uses",
                 "_scalar", "unsafe")

    def __init__(self, j):
        self.id = j["id"]
        self.name = j["name"]
        self.deff = j["def"]
        self.crate = j["crate"]
        self.kind = j["kind"]
        self.intr = j["intr"]
        self.targs = j["targs"]
        self.file = j["file"]
        self.line = j["line"]
        self.stopped = j["stopped"]
        self.sig = j["sig"]
        self.unsafe = j.get("unsafe", False)
        b = j["body"]
        self.body = b is not None
        self.is_closure = bool(re.search(r"\{closure#\d+\}$", self.deff))
        self.live_in = None
        self.model = None
        self._scalar = None
        if b:
            self.locals = b["locals"]
            self.argc = b["argc"]
            self.spread = b["spread"]
            self.blocks = b["blocks"]
            self.names = dict(b["names"])

    def __repr__(self):
        return "<%d %s>" % (self.id, self.name)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = Types(d["types"])
        self.allocs = d["allocs"]
        self.fns = [Fn(j) for j in d["insts"]]
        assert all(f.id == i for i, f in enumerate(self.fns))
        self.roots = {}
        for n, i in d["roots"]:
            self.roots[n.split("::", 1)[1]] = self.fns[i]
        self.crates = d["crates"]
        self.impls = d["impls"]
        self._consts = {}
        self.statics = {x["name"]: x for x in d["statics"]}

    def mutable_static(self, name):
        x = self.statics.get(name)
        return x is None or x["mut"]

    def root(self, name):
        return self.roots[name]

    def callees(self, f):
        """resolved direct callees (ids) of a function body, with block index"""
        out = []
        if f.body:
            for bi, (st, t, line) in enumerate(f.blocks):
                if t[0] == "call" and isinstance(t[1], int):
                    out.append((bi, t[1]))
        return out

    def anchor_callee(self, name):
        """the analysed-crate (or trait) instance an anchor function calls"""
        cs = [c for _, c in self.callees(self.roots[name])]
        if len(cs) != 1:
            raise KeyError("anchor %s has %d callees" % (name, len(cs)))
        return self.fns[cs[0]]

    def reach(self, start_ids):
        """ids of all instances reachable (calls, drops, fn pointers, fn-def and closure types in signatures)"""
        seen = set()
        work = list(start_ids)
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            f = self.fns[i]
            if not f.body:
                # shims of callables: follow the callable type
                if f.targs:
                    for a in f.targs:
                        if isinstance(a, int):
                            work.extend(self.callable_insts(a))
                continue
            for st, t, line in f.blocks:
                if t[0] == "call":
                    if isinstance(t[1], int):
                        work.append(t[1])
                    for o in t[2]:
                        if "t" in o:
                            work.extend(self.callable_insts(o["t"]))
                elif t[0] == "drop" and t[3] is not None:
                    work.append(t[3])
                for s in st:
                    if s[0] == "=":
                        r = s[2]
                        if r[0] == "fnptr":
                            work.append(r[1])
            for l in f.locals:
                work.extend(self.callable_insts(l))
        return seen

    def direct(self, i):
        """direct callees, drops and callables mentioned by one instance"""
        f = self.fns[i]
        out = []
        if not f.body:
            for a in f.targs or ():
                if isinstance(a, int):
                    out += self.callable_insts(a)
            return out
        for st, t, line in f.blocks:
            if t[0] == "call" and isinstance(t[1], int):
                out.append(t[1])
            elif t[0] == "drop" and t[3] is not None:
                out.append(t[3])
            for s in st:
                if s[0] == "=" and s[2][0] == "fnptr":
                    out.append(s[2][1])
        for l in f.locals:
            out += self.callable_insts(l)
        return out

    def callable_insts(self, ty):
        t = self.types[ty]
        if t["k"] == "fndef" and t["inst"] is not None:
            return [t["inst"]]
        if t["k"] == "closure":
            return [x for x in t["insts"] if x is not None and self.fns[x].kind == "item"]
        if t["k"] == "ref":
            return self.callable_insts(t["e"])
        return []

    # ---- liveness of locals at block starts (classical, place-insensitive)
    def liveness(self, f):
        if f.live_in is not None:
            return f.live_in
        n = len(f.blocks)

        def ops_of(o, out):
            if isinstance(o, dict):
                p = o.get("cp") or o.get("mv")
                if p:
                    out.add(p[0])
                    for e in p[1:]:
                        if isinstance(e, list) and e[0] == "i":
                            out.add(e[1])
            elif isinstance(o, list):
                for x in o:
                    ops_of(x, out)

        def place_uses(p, out, write):
            if not (write and len(p) == 1):
                out.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    out.add(e[1])

        def stmt(s, live):
            if s[0] == "=":
                if len(s[1]) == 1:
                    live.discard(s[1][0])
                else:
                    place_uses(s[1], live, True)
                r = s[2]
                if r[0] in ("ref", "discr", "len"):
                    place_uses(r[1], live, False)
                else:
                    for x in r[1:]:
                        ops_of(x, live)
            elif s[0] == "sd":
                live.add(s[1][0])
            elif s[0] == "copy":
                for x in s[1:]:
                    ops_of(x, live)
            elif s[0] == "dead":
                live.discard(s[1])

        def succ(t):
            k = t[0]
            if k == "goto":
                return [t[1]]
            if k == "switch":
                return [b for _, b in t[2]] + [t[3]]
            if k == "drop":
                return [t[2]]
            if k == "call":
                return [t[4]] if t[4] is not None else []
            if k == "assert":
                return [t[4]]
            return []

        def term(t, live):
            k = t[0]
            if k == "switch":
                ops_of(t[1], live)
            elif k == "call":
                if len(t[3]) == 1:
                    live.discard(t[3][0])
                else:
                    place_uses(t[3], live, True)
                if not isinstance(t[1], int):
                    ops_of(t[1], live)
                for o in t[2]:
                    ops_of(o, live)
            elif k == "assert":
                ops_of(t[1], live)
                ops_of(t[3], live)
            elif k == "drop":
                pass
            elif k == "return":
                live.add(0)

        live_in = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                st, t, line = f.blocks[b]
                live = set()
                for s in succ(t):
                    live |= live_in[s]
                term(t, live)
                for s in reversed(st):
                    stmt(s, live)
                if live != live_in[b]:
                    live_in[b] = live
                    changed = True
        f.live_in = live_in
        return live_in
