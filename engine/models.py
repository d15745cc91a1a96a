"""Models of standard-library and container functions, by definition path."""
import re
from terms import *
from terms import _mk
from machine import *
from machine import _uns
import machine as M

TABLE = {}
RX = []


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def rx(pat):
    def d(f):
        RX.append((re.compile(pat), f))
        return f
    return d


def find(fn, m):
    if fn.kind == "intrinsic" or fn.intr:
        f = INTR.get(fn.intr)
        if f is not None:
            return f
        if not fn.body:
            return None
    d = fn.deff
    f = TABLE.get(d)
    if f is not None:
        return f
    for p, f in RX:
        mm = p.match(d)
        if mm:
            g = f(mm, fn, m)
            if g is not None:
                return g
    return None


# ------------------------------------------------------------------ helpers
def panic(m, what):
    m.oblige(what)
    raise PathEnd("panic", what, m.site())


def ordering(i):
    return Agg(i + 1, ())  # -1,0,1 -> variants 0,1,2


def elem_ptr(p, i):
    return Ptr(p.loc, p.path[:-1] + (mk("add", p.path[-1], i, 64),))


def snap(m):
    if m.sync == 0 and m.snapshot is None:
        m.snapshot = m.st.copy()


def slice_items(m, p):
    n = m.concretise(p.len)
    return [m.load(p.loc, p.path[:-1] + (mk("add", p.path[-1], i, 64),)) for i in range(n)]


def slice_store(m, p, items):
    """overwrite the whole slice"""
    off = m.concretise(p.path[-1])
    parent_path = p.path[:-1]
    par = m.load(p.loc, parent_path)
    f = list(par.f)
    if off + len(items) > len(f):
        raise PathEnd("ub", "slice store outside buffer", m.site())
    f[off:off + len(items)] = items
    new = Seq(par.kind, tuple(f), par.cap) if type(par) is Seq else Agg(par.v, tuple(f))
    m.store(p.loc, parent_path, new)


def sig_in(fn, i):
    return fn.sig["in"][i] if fn.sig and i < len(fn.sig["in"]) else None


def ty_name(m, ty):
    return m.T.name(ty) if ty is not None else ""


def deref_ty(m, ty):
    t = m.T[ty]
    return t["e"] if t["k"] in ("ref", "ptr") else ty


# ------------------------------------------------------------------ panics
for _n, _w in [("core::panicking::panic", "explicit panic"), ("core::panicking::panic_fmt", "explicit panic"),
               ("core::panicking::panic_nounwind", "panic"), ("core::panicking::panic_nounwind_fmt", "panic"),
               ("core::panicking::panic_bounds_check", "index out of bounds"),
               ("core::panicking::panic_display", "explicit panic"), ("core::panicking::panic_explicit", "explicit panic"),
               ("core::panicking::panic_str_2015", "explicit panic"),
               ("core::panicking::unreachable_display", "unreachable!()"),
               ("core::panicking::assert_failed", "assertion failed"),
               ("core::panicking::assert_failed_inner", "assertion failed"),
               ("core::option::expect_failed", "expect on None"), ("core::option::unwrap_failed", "unwrap on None"),
               ("core::result::unwrap_failed", "unwrap on Err"),
               ("core::slice::index::slice_index_fail", "slice index out of range"),
               ("core::slice::copy_from_slice_impl::len_mismatch_fail", "copy_from_slice length mismatch"),
               ("core::str::slice_error_fail", "str slice out of range"),
               ("core::cell::panic_already_borrowed", "already borrowed"),
               ("alloc::alloc::handle_alloc_error", "allocation error"),
               ("alloc::raw_vec::capacity_overflow", "capacity overflow"),
               ("alloc::vec::Vec::<T, A>::swap_remove::assert_failed", "index out of bounds"),
               ("std::process::abort", "abort"), ("core::intrinsics::abort", "abort")]:
    def _mkpanic(w):
        def f(m, fn, args, dest, target, sync):
            panic(m, w)
        return f
    TABLE[_n] = _mkpanic(_w)


@rx(r"^(core|std)::panicking::")
def _(mm, fn, m):
    return lambda m, fn, a, *r: panic(m, "explicit panic")


@rx(r"^core::slice::index::slice_(start|end|index)")
def _(mm, fn, m):
    return lambda m, fn, a, *r: panic(m, "slice index out of range")


@rx(r"^core::panicking::assert_failed|^core::num::.*overflow_panic|^core::panicking::panic_const")
def _(mm, fn, m):
    return lambda m, fn, a, *r: panic(m, "assertion failed")


@rx(r".*::precondition_check$")
def _(mm, fn, m):
    return lambda m, fn, a, *r: UNIT


@model("core::fmt::Arguments::<'a>::new", "core::fmt::rt::Argument::<'_>::new_display",
       "core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'_>::new_const")
def _fmtargs(m, fn, args, *r):
    return Opaque("fmt")


@rx(r"^core::fmt::(rt|Arguments)")
def _(mm, fn, m):
    return lambda m, fn, a, *r: Opaque("fmt")


# ------------------------------------------------------------------ calls of callables
@model("core::ops::Fn::call", "core::ops::FnMut::call_mut", "core::ops::FnOnce::call_once")
def _call(m, fn, args, dest, target, sync):
    if fn.kind != "shim":
        return DECLINED
    return m.call_value(fn.targs[0], args[0], args[1] if type(args[1]) is Agg else m.unrow(args[1]), dest, target, sync)


# ------------------------------------------------------------------ intrinsics
INTR = {}


def intr(*ns):
    def d(f):
        for n in ns:
            INTR[n] = f
        return f
    return d


def _const(v):
    return lambda m, fn, a, *r: v


for _n in ("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path", "forget"):
    INTR[_n] = _const(UNIT)
INTR["ub_checks"] = _const(0)
INTR["overflow_checks"] = _const(1)
INTR["contract_checks"] = _const(0)
INTR["needs_drop"] = _const(0)
INTR["is_val_statically_known"] = _const(0)
INTR["likely"] = INTR["unlikely"] = INTR["black_box"] = lambda m, fn, a, *r: a[0]


def _ity(m, fn, i=0):
    ty = fn.targs[i] if fn.targs and isinstance(fn.targs[i], int) else sig_in(fn, 0)
    b = m.T.bits(ty)
    if b is None:
        raise Unsupported("type of " + fn.name)
    return b, m.T.signed(ty)


def _arith(op):
    def f(m, fn, a, *r):
        b, s = _ity(m, fn)
        return mk(op, num(a[0]), num(a[1]), b, s)
    return f


for _o in ("add", "sub", "mul"):
    INTR["wrapping_" + _o] = _arith(_o)

    def _mko(o):
        def withov(m, fn, a, *r):
            b, s = _ity(m, fn)
            return Agg(0, (mk(o, num(a[0]), num(a[1]), b, s), m.simp(mk(o + "o", a[0], a[1], b, s))))

        def unch(m, fn, a, *r):
            b, s = _ity(m, fn)
            m.oblige("unchecked arithmetic")
            if m.branch(m.simp(mk(o + "o", num(a[0]), num(a[1]), b, s))):
                raise PathEnd("ub", "overflow in unchecked arithmetic", m.site())
            return mk(o, a[0], a[1], b, s)

        def sat(m, fn, a, *r):
            b, s = _ity(m, fn)
            if m.branch(m.simp(mk(o + "o", num(a[0]), num(a[1]), b, s))):
                if s:
                    raise Unsupported("signed saturation")
                return 0 if o == "sub" else (1 << b) - 1
            return mk(o, a[0], a[1], b, s)
        return withov, unch, sat
    _a, _b, _c = _mko(_o)
    INTR[_o + "_with_overflow"] = _a
    INTR["unchecked_" + _o] = _b
    INTR["saturating_" + _o] = _c
for _o in ("div", "rem", "shl", "shr"):
    def _mku(o):
        def f(m, fn, a, *r):
            b, s = _ity(m, fn)
            y = num(a[1])
            if o in ("div", "rem"):
                y = m.concretise(y)
                if y == 0:
                    raise PathEnd("ub", "division by zero", m.site())
            return mk(o, num(a[0]), y, b, s)
        return f
    INTR["unchecked_" + _o] = _mku(_o)
INTR["exact_div"] = INTR["unchecked_div"]


@intr("rotate_left", "rotate_right")
def _rot(m, fn, a, *r):
    b, s = _ity(m, fn)
    n = num(a[1])
    if type(n) is Term:
        raise Unsupported("rotation")
    if "right" in fn.intr:
        n = (b - n) % b
    x = num(a[0])
    if type(x) is int:
        return rotl(x & ((1 << b) - 1), n, b)
    return _mk("rotl", (x, n), b, False)


@intr("ctpop")
def _(m, fn, a, *r):
    x = num(a[0])
    return x.bit_count() if type(x) is int else _mk("popc", (x,), 32, False)


@intr("ctlz", "ctlz_nonzero")
def _(m, fn, a, *r):
    b, s = _ity(m, fn)
    x = num(a[0])
    return b - x.bit_length() if type(x) is int else _mk("clz", (x,), b, False)


@intr("bitreverse", "bswap", "cttz", "cttz_nonzero")
def _(m, fn, a, *r):
    b, s = _ity(m, fn)
    x = m.concretise(num(a[0]))
    if fn.intr == "bswap":
        return int.from_bytes(x.to_bytes(b // 8, "little"), "big")
    if fn.intr == "bitreverse":
        return int(bin(x)[2:].zfill(b)[::-1], 2)
    return b if x == 0 else (x & -x).bit_length() - 1


@intr("three_way_compare")
def _(m, fn, a, *r):
    b, s = _ity(m, fn)
    if m.branch(mk("lt", num(a[0]), num(a[1]), b, s)):
        return ordering(-1)
    if m.branch(mk("eq", a[0], a[1], b, s)):
        return ordering(0)
    return ordering(1)


@intr("select_unpredictable")
def _(m, fn, a, *r):
    return a[1] if m.branch(a[0]) else a[2]


@intr("size_of", "size_of_val", "min_align_of", "align_of")
def _(m, fn, a, *r):
    t = m.T[fn.targs[0]]
    if fn.intr == "size_of" and t.get("size") is not None:
        return t["size"]
    raise Unsupported(fn.intr)


@intr("assume", "assert_unsafe_precondition")
def _(m, fn, a, *r):
    m.oblige("assume")
    if not m.branch(num(a[0])):
        raise PathEnd("ub", "assume(false)", m.site())
    return UNIT


@intr("unreachable")
def _(m, fn, a, *r):
    m.oblige("unreachable_unchecked")
    raise PathEnd("ub", "unreachable_unchecked reached", m.site())


TABLE["core::hint::unreachable_unchecked"] = INTR["unreachable"]
TABLE["core::hint::assert_unchecked"] = INTR["assume"]


@intr("abort")
def _(m, fn, a, *r):
    panic(m, "abort")


@intr("transmute", "transmute_unchecked")
def _(m, fn, a, *r):
    return transmute(m, a[0], fn.targs[0], fn.targs[1])


@intr("discriminant_value")
def _(m, fn, a, *r):
    v = m.load(a[0].loc, a[0].path)
    t = m.T[fn.targs[0]]
    if type(v) is Agg and t["k"] == "adt":
        return t["vars"][v.v]["d"]
    raise Unsupported("discriminant_value")


def _rd(m, p):
    if type(p) is not Ptr:
        p = unbox(p)
    v = m.load(p.loc, p.path)
    if v is None:
        raise Unsupported("read of uninitialised memory")
    return v


@intr("read_via_copy", "volatile_load", "unaligned_volatile_load")
@model("core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read",
       "core::ptr::NonNull::<T>::read", "core::ptr::read_unaligned", "core::ptr::read_volatile")
def _read(m, fn, a, *r):
    return _rd(m, a[0])


@intr("write_via_move", "volatile_store")
@model("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write", "core::ptr::NonNull::<T>::write",
       "core::ptr::write_unaligned", "core::ptr::write_volatile")
def _write(m, fn, a, *r):
    p = a[0] if type(a[0]) is Ptr else unbox(a[0])
    m.store(p.loc, p.path, a[1])
    return UNIT


@model("core::mem::replace")
def _(m, fn, a, *r):
    old = m.load(a[0].loc, a[0].path)
    m.store(a[0].loc, a[0].path, a[1])
    return old


@intr("typed_swap_nonoverlapping")
@model("core::mem::swap", "core::ptr::swap", "core::ptr::mut_ptr::<impl *mut T>::swap",
       "core::ptr::swap_nonoverlapping")
def _(m, fn, a, *r):
    if len(a) == 3:
        if a[2] != 1:
            raise Unsupported("swap of several elements")
    p, q = [x if type(x) is Ptr else unbox(x) for x in a[:2]]
    if p.len is not None or q.len is not None:
        raise Unsupported("swap of unsized")
    x, y = m.load(p.loc, p.path), m.load(q.loc, q.path)
    m.store(p.loc, p.path, y)
    m.store(q.loc, q.path, x)
    return UNIT


@intr("copy", "copy_nonoverlapping")
@model("core::ptr::copy", "core::ptr::copy_nonoverlapping", "core::ptr::const_ptr::<impl *const T>::copy_to",
       "core::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping")
def _copy(m, fn, a, *r):
    copy_elems(m, a[0], a[1], num(a[2]))
    return UNIT


@model("core::ptr::mut_ptr::<impl *mut T>::copy_from", "core::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping")
def _(m, fn, a, *r):
    copy_elems(m, a[1], a[0], num(a[2]))
    return UNIT


@intr("offset", "arith_offset")
@model("core::ptr::const_ptr::<impl *const T>::add", "core::ptr::mut_ptr::<impl *mut T>::add",
       "core::ptr::NonNull::<T>::add", "core::ptr::const_ptr::<impl *const T>::offset",
       "core::ptr::mut_ptr::<impl *mut T>::offset", "core::ptr::const_ptr::<impl *const T>::wrapping_add",
       "core::ptr::mut_ptr::<impl *mut T>::wrapping_add")
def _padd(m, fn, a, *r):
    if type(a[0]) is Ptr:
        return ptr_add(m, a[0], num(a[1]))
    return Agg(0, (ptr_add(m, unbox(a[0]), num(a[1])),))


@model("core::ptr::const_ptr::<impl *const T>::sub", "core::ptr::mut_ptr::<impl *mut T>::sub",
       "core::ptr::NonNull::<T>::sub")
def _psub(m, fn, a, *r):
    n = num(a[1])
    if type(n) is int:
        n = -n
    else:
        p = a[0] if type(a[0]) is Ptr else unbox(a[0])
        q = Ptr(p.loc, p.path[:-1] + (mk("sub", p.path[-1], n, 64),), p.len)
        return q if type(a[0]) is Ptr else Agg(0, (q,))
    if type(a[0]) is Ptr:
        return ptr_add(m, a[0], n)
    return Agg(0, (ptr_add(m, unbox(a[0]), n),))


@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def _(m, fn, a, *r):
    p, q = [x if type(x) is Ptr else unbox(x) for x in a[:2]]
    if p.loc != q.loc or p.path[:-1] != q.path[:-1]:
        raise Unsupported("offset between unrelated pointers")
    return mk("sub", p.path[-1], q.path[-1], 64, fn.intr == "ptr_offset_from")


@intr("ptr_metadata")
def _(m, fn, a, *r):
    return a[0].len if a[0].len is not None else UNIT


@intr("slice_get_unchecked")
def _(m, fn, a, *r):
    return Ptr(a[0].loc, a[0].path[:-1] + (mk("add", a[0].path[-1], num(a[1]), 64),))


@intr("aggregate_raw_ptr")
def _(m, fn, a, *r):
    p = a[0] if type(a[0]) is Ptr else unbox(a[0])
    return Ptr(p.loc, p.path, a[1] if type(a[1]) in (int, Term) else None)


def _minmax(m, fn, a, *r):
    b, s = _ity(m, fn)
    x, y = num(a[0]), num(a[1])
    if type(x) is not int and x == y:
        return x
    lt = m.branch(mk("lt", x, y, b, s))
    return (x if lt else y) if fn.intr == "integer_min" else (y if lt else x)


INTR["integer_min"] = INTR["integer_max"] = _minmax


@intr("disjoint_bitor")
def _(m, fn, a, *r):
    b, s = _ity(m, fn)
    x, y = num(a[0]), num(a[1])
    m.oblige("disjoint_bitor")
    if m.branch(mk("ne", mk("and", x, y, b, s), 0, b, s)):
        raise PathEnd("ub", "overlapping bits in disjoint_bitor", m.site())
    return mk("or", x, y, b, s)


@intr("const_eval_select")
def _ces(m, fn, args, dest, target, sync):
    return m.call_value(fn.targs[2], args[2], args[0] if type(args[0]) is Agg else m.unrow(args[0]), dest, target, sync)


@intr("abort_immediate")
def _(m, fn, a, *r):
    panic(m, "abort")


@intr("type_name", "caller_location")
def _(m, fn, a, *r):
    return Opaque(fn.intr)


@intr("variant_count")
def _(m, fn, a, *r):
    t = m.T[fn.targs[0]]
    if t["k"] != "adt":
        raise Unsupported(fn.intr)
    return len(t["vars"])


for _n in ("contract_check_requires", "contract_check_ensures", "breakpoint"):
    INTR[_n] = _const(UNIT)


@intr("compare_bytes")
def _(m, fn, a, *r):
    n = m.concretise(num(a[2]))
    for i in range(n):
        x, y = [m.load(p.loc, p.path[:-1] + (mk("add", p.path[-1], i, 64),)) for p in a[:2]]
        if m.branch(mk("lt", num(x), num(y), 8)):
            return -1
        if m.branch(mk("lt", num(y), num(x), 8)):
            return 1
    return 0


@intr("write_bytes", "raw_eq", "align_of_val", "ptr_guaranteed_cmp")
def _(m, fn, a, *r):
    raise Unsupported(fn.intr)


@intr("drop_in_place")
@model("core::ptr::drop_in_place")
def _(m, fn, a, *r):
    if any(m.P.fns[i].crate == "unicode_normalization" for i in m.P.reach([fn.id]) if i != fn.id):
        return DECLINED
    return UNIT


@model("core::mem::drop", "core::mem::forget")
def _(m, fn, a, *r):
    return UNIT


# ------------------------------------------------------------------ chars
def _range(m, p, lo, hi, what):
    m.oblige(what)


@model("core::char::methods::<impl char>::from_u32_unchecked", "core::char::convert::from_u32_unchecked",
       "core::char::from_u32_unchecked")
def _(m, fn, a, *r):
    valid_char(m, a[0], "from_u32_unchecked")
    return a[0]


@model("core::char::methods::<impl char>::from_u32", "core::char::convert::from_u32", "core::char::from_u32",
       "core::char::convert::char_try_from_u32")
def _(m, fn, a, *r):
    x = num(a[0])
    res = "char_try" in fn.deff
    ok = (some if not res else (lambda v: Agg(0, (v,))))
    bad = NONE if not res else Agg(1, (Agg(0, (UNIT,)),))
    if m.branch(m.simp(mk("le", x, 0xD7FF, 32))):
        return ok(x)
    if m.branch(m.simp(mk("lt", x, 0xE000, 32))):
        return bad
    return ok(x) if m.branch(m.simp(mk("le", x, 0x10FFFF, 32))) else bad


@rx(r"^core::slice::<impl \[T\]>::get_unchecked(_mut)?$")
def _(mm, fn, m):
    def f(m, fn, a, *r):
        m.oblige("get_unchecked")
        i = a[1]
        p = a[0]
        if type(i) not in (int, Term):
            name = ty_name(m, sig_in(fn, 1))
            s, e = range_bounds(m, p.len, i, name)
            for c in (mk("le", s, e, 64), mk("le", e, p.len, 64)):
                if not m.branch(m.simp(c)):
                    raise PathEnd("ub", "get_unchecked out of bounds", m.site())
            return Ptr(p.loc, p.path[:-1] + (mk("add", p.path[-1], s, 64),), mk("sub", e, s, 64))
        if not m.branch(m.simp(mk("lt", i, p.len, 64))):
            raise PathEnd("ub", "get_unchecked out of bounds", m.site())
        return elem_ptr(p, i)
    return f


# ------------------------------------------------------------------ ranges and indexing
def range_bounds(m, n, r, name):
    """(start, end) of a range value applied to length n; no checks"""
    f = r.f if type(r) is Agg else ()
    if "RangeFull" in name:
        return 0, n
    if "RangeToInclusive" in name:
        return 0, mk("add", f[0], 1, 64)
    if "RangeTo" in name:
        return 0, f[0]
    if "RangeFrom" in name:
        return f[0], n
    if "RangeInclusive" in name:
        return f[0], mk("add", f[1], 1, 64)
    if "Range" in name:
        return f[0], f[1]
    raise Unsupported("range type " + name)


def checked_range(m, n, r, name, what="slice index out of range"):
    s, e = range_bounds(m, n, r, name)
    m.oblige(what)
    if not m.branch(m.simp(mk("le", s, e, 64))) or not m.branch(m.simp(mk("le", e, n, 64))):
        raise PathEnd("panic", what, m.site())
    return s, e


def index_slice(m, p, idx, ity):
    """&slice[idx]"""
    if type(idx) in (int, Term):
        m.oblige("index out of bounds")
        if not m.branch(m.simp(mk("lt", idx, p.len, 64))):
            raise PathEnd("panic", "index out of bounds", m.site())
        return elem_ptr(p, idx)
    s, e = checked_range(m, p.len, idx, ty_name(m, ity))
    return Ptr(p.loc, p.path[:-1] + (mk("add", p.path[-1], s, 64),), m.simp(mk("sub", e, s, 64)))


@rx(r"^core::slice::index::<impl core::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$")
def _(mm, fn, m):
    return lambda m, fn, a, *r: index_slice(m, a[0], a[1], sig_in(fn, 1))


# ------------------------------------------------------------------ containers
CONT = r"(?:alloc::vec::Vec|std::vec::Vec|tinyvec::tinyvec::TinyVec|tinyvec::TinyVec|tinyvec::arrayvec::ArrayVec|tinyvec::ArrayVec|alloc::string::String|std::string::String|alloc::collections::VecDeque|alloc::collections::vec_deque::VecDeque)"


def seq_kind(d):
    if "TinyVec" in d:
        return "tv"
    if "ArrayVec" in d:
        return "av"
    if "String" in d:
        return "string"
    if "VecDeque" in d:
        return "deque"
    return "vec"


def self_container_ty(m, fn, out=False):
    ty = fn.sig["out"] if out else fn.sig["in"][0]
    return deref_ty(m, ty)


def array_cap(m, ty):
    """capacity of an ArrayVec type"""
    for a in m.T[ty].get("args", []):
        if isinstance(a, int) and m.T[a]["k"] == "array":
            return m.T[a]["n"]
    raise Unsupported("capacity")


def getseq(m, p):
    if type(p) is not Ptr:
        p = unbox(p)
    s = m.load(p.loc, p.path)
    if type(s) is not Seq:
        raise Unsupported("container %r" % (s,))
    return s


def new_seq(m, ty, items=()):
    d = m.T[ty]["def"]
    k = seq_kind(d)
    cap = array_cap(m, ty) if k == "av" else None
    return Seq(k, tuple(items), cap)


def as_slice(m, p):
    s = getseq(m, p)
    return Ptr(p.loc, p.path + (0,), len(s.f))


def setseq(m, p, items):
    s = getseq(m, p)
    if len(items) > m.max_seq:
        raise Unsupported("container growth")
    m.store(p.loc, p.path, Seq(s.kind, tuple(items), s.cap))


INH = {}


def inh(*ns):
    def d(f):
        for n in ns:
            INH[n] = f
        return f
    return d


@inh("new", "default")
def _(m, fn, a, *r):
    return new_seq(m, fn.sig["out"])


@inh("with_capacity")
def _(m, fn, a, *r):
    return new_seq(m, fn.sig["out"])


@inh("len")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    if s.kind == "string":
        n = 0
        for x in s.f:
            if type(x) is not int:
                return Opaque("strlen")
            n += 1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4
        return n
    return len(s.f)


@inh("is_empty")
def _(m, fn, a, *r):
    return int(not getseq(m, a[0]).f)


@inh("is_heap", "is_inline")
def _(m, fn, a, *r):
    raise Unsupported(fn.name)


@inh("capacity")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    if s.cap is None:
        raise Unsupported("capacity of a growable container")
    return s.cap


@inh("push", "push_mut", "push_back")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    if s.cap is not None:
        m.oblige("push beyond capacity")
        if len(s.f) >= s.cap:
            raise PathEnd("panic", "push beyond the capacity %d of an ArrayVec" % s.cap, m.site())
    setseq(m, a[0], s.f + (a[1],))
    return UNIT if fn.deff.split("::")[-1] != "push_mut" else Ptr(a[0].loc, a[0].path + (len(s.f),))


@inh("push_front")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    setseq(m, a[0], (a[1],) + s.f)
    return UNIT


@inh("try_push")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    if s.cap is not None and len(s.f) >= s.cap:
        return some(a[1])
    setseq(m, a[0], s.f + (a[1],))
    return NONE


@inh("pop", "pop_back")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    if not s.f:
        return NONE
    setseq(m, a[0], s.f[:-1])
    return some(s.f[-1])


@inh("pop_front")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    if not s.f:
        return NONE
    setseq(m, a[0], s.f[1:])
    return some(s.f[0])


@inh("clear")
def _(m, fn, a, *r):
    setseq(m, a[0], ())
    return UNIT


@inh("truncate")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    setseq(m, a[0], s.f[:m.concretise(a[1])])
    return UNIT


@inh("set_len")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    n = m.concretise(a[1])
    if n > len(s.f):
        raise Unsupported("set_len growing")
    setseq(m, a[0], s.f[:n])
    return UNIT


@inh("reserve", "reserve_exact", "shrink_to_fit", "move_to_the_heap", "shrink_to")
def _(m, fn, a, *r):
    return UNIT


@inh("insert")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    i = m.concretise(a[1])
    m.oblige("insertion index")
    if i > len(s.f) or (s.cap is not None and len(s.f) >= s.cap):
        raise PathEnd("panic", "insertion index out of bounds", m.site())
    setseq(m, a[0], s.f[:i] + (a[2],) + s.f[i:])
    return UNIT


@inh("remove", "swap_remove")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    i = m.concretise(a[1])
    if s.kind == "deque":
        if i >= len(s.f):
            return NONE
        setseq(m, a[0], s.f[:i] + s.f[i + 1:])
        return some(s.f[i])
    m.oblige("removal index")
    if i >= len(s.f):
        raise PathEnd("panic", "removal index out of bounds", m.site())
    if fn.deff.endswith("swap_remove"):
        f = list(s.f)
        f[i] = f[-1]
        setseq(m, a[0], f[:-1])
    else:
        setseq(m, a[0], s.f[:i] + s.f[i + 1:])
    return s.f[i]


@inh("split_off")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    i = m.concretise(a[1])
    m.oblige("split index")
    if i > len(s.f):
        raise PathEnd("panic", "split index out of bounds", m.site())
    setseq(m, a[0], s.f[:i])
    return Seq(s.kind, s.f[i:], s.cap)


@inh("drain")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    st, e = checked_range(m, len(s.f), a[1], ty_name(m, sig_in(fn, 1)))
    st, e = m.concretise(st), m.concretise(e)
    setseq(m, a[0], s.f[:st] + s.f[e:])
    return Seq("it", s.f[st:e])


@inh("as_slice", "as_mut_slice", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "make_contiguous")
def _(m, fn, a, *r):
    return as_slice(m, a[0])


@inh("as_ptr", "as_mut_ptr")
def _(m, fn, a, *r):
    s = as_slice(m, a[0])
    return Ptr(s.loc, s.path)


@inh("index", "index_mut")
def _(m, fn, a, *r):
    return index_slice(m, as_slice(m, a[0]), a[1], sig_in(fn, 1))


@inh("clone", "to_vec")
def _(m, fn, a, *r):
    return getseq(m, a[0])


@inh("clone_from")
def _(m, fn, a, *r):
    setseq(m, a[0], getseq(m, a[1]).f)
    return UNIT


@inh("extend_from_slice")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    items = slice_items(m, a[1])
    if s.cap is not None:
        m.oblige("push beyond capacity")
        if len(s.f) + len(items) > s.cap:
            raise PathEnd("panic", "extension beyond the capacity of an ArrayVec", m.site())
    setseq(m, a[0], s.f + tuple(items))
    return UNIT


@inh("append")
def _(m, fn, a, *r):
    s, t = getseq(m, a[0]), getseq(m, a[1])
    if s.cap is not None and len(s.f) + len(t.f) > s.cap:
        raise PathEnd("panic", "append beyond the capacity of an ArrayVec", m.site())
    setseq(m, a[0], s.f + t.f)
    setseq(m, a[1], ())
    return UNIT


@inh("resize")
def _(m, fn, a, *r):
    s = getseq(m, a[0])
    n = m.concretise(a[1])
    if s.cap is not None and n > s.cap:
        raise PathEnd("panic", "resize beyond the capacity of an ArrayVec", m.site())
    setseq(m, a[0], (s.f + (a[2],) * max(0, n - len(s.f)))[:n])
    return UNIT


def next_inst(m, ty):
    """the Iterator::next instance of a type"""
    for f in m.P.fns:
        if f.sig and f.deff.endswith("::next") and "Iterator" in f.deff and len(f.sig["in"]) == 1 \
                and m.T[f.sig["in"][0]]["k"] == "ref" and m.T[f.sig["in"][0]]["e"] == ty:
            return f
    return None


def into_iter_inst(m, ty):
    for f in m.P.fns:
        if f.sig and f.deff.endswith("::into_iter") and len(f.sig["in"]) == 1 and f.sig["in"][0] == ty:
            return f
    return None


def iterate(m, itv, ty):
    """drive an iterator to its end; yields values"""
    snap(m)
    f = next_inst(m, ty)
    if f is None:
        g = into_iter_inst(m, ty)
        if g is None:
            raise Unsupported("iterator of type " + m.T.name(ty))
        itv = m.call_sync(g, [itv])
        ty = g.sig["out"]
        f = next_inst(m, ty)
        if f is None:
            raise Unsupported("iterator of type " + m.T.name(ty))
    loc = m.alloc(itv)
    n = 0
    while True:
        v = m.call_sync(f, [Ptr(loc, ())])
        if v.v == 0:
            break
        n += 1
        if n > 600:
            raise Unsupported("long iteration")
        yield v.f[0]
    del m.st.heap[loc]


@inh("extend")
def _(m, fn, a, *r):
    ity = sig_in(fn, 1)
    if m.T[ity]["k"] == "ref":
        return DECLINED
    snap(m)
    for v in iterate(m, a[1], ity):
        s = getseq(m, a[0])
        if s.cap is not None and len(s.f) >= s.cap:
            raise PathEnd("panic", "extension beyond the capacity of an ArrayVec", m.site())
        setseq(m, a[0], s.f + (v,))
    return UNIT


@inh("from_iter")
def _(m, fn, a, *r):
    out = []
    snap(m)
    for v in iterate(m, a[0], sig_in(fn, 0)):
        out.append(v)
    s = new_seq(m, fn.sig["out"], out)
    if s.cap is not None and len(out) > s.cap:
        raise PathEnd("panic", "collection beyond the capacity of an ArrayVec", m.site())
    return s


@inh("into_iter")
def _(m, fn, a, *r):
    if type(a[0]) is Seq:
        return Seq("it", a[0].f)
    return DECLINED


@inh("retain", "retain_mut")
def _(m, fn, a, *r):
    snap(m)
    s = getseq(m, a[0])
    keep = []
    for i in range(len(s.f)):
        p = Ptr(a[0].loc, a[0].path + (i,))
        if m.branch(call_closure(m, fn, 1, a[1], [p])):
            keep.append(getseq(m, a[0]).f[i])
    setseq(m, a[0], keep)
    return UNIT


@inh("from", "from_array_empty")
def _(m, fn, a, *r):
    if not a:
        return new_seq(m, fn.sig["out"])
    v = a[0]
    if type(v) is Agg and v.v is None:
        return new_seq(m, fn.sig["out"], v.f)
    if type(v) is Ptr and v.len is not None:
        return new_seq(m, fn.sig["out"], slice_items(m, v))
    raise Unsupported(fn.name)


@rx(r"^(" + CONT + r")(?:::<.*?>)?::(\w+)$")
def _(mm, fn, m):
    g = INH.get(mm.group(2))
    return guard(g, fn)


def guard(g, fn):
    if g is None:
        return lambda m, fn, a, *r: _uns("container operation " + fn.name)
    return g


@rx(r"^<&?(?:'\w+ )?(?:mut )?(" + CONT + r")(?:<.*?>)? as ([\w:]+)(?:<.*>)?>::(\w+)$")
def _(mm, fn, m):
    name = mm.group(3)
    if name == "drop":
        return lambda m, fn, a, *r: UNIT
    if name in ("into_iter",) and fn.deff.startswith("<&"):
        # iterator over a borrowed container: interpret its body, which goes through deref
        return None
    if name in ("eq", "ne", "partial_cmp", "cmp", "fmt", "hash"):
        return None
    if "fmt::Write" in mm.group(2):
        return None
    return guard(INH.get(name), fn)


# owned iterators made by the models above
@rx(r"^<(?:.*(?:Drain|IntoIter|ArrayVecIterator|TinyVecIterator|ArrayVecDrain|TinyVecDrain)\b.*) as core::iter::(\w+)(?:<.*>)?>::(\w+)$")
def _(mm, fn, m):
    name = mm.group(2)

    def f(m, fn, a, *r):
        p = a[0]
        if type(p) is Seq and name == "into_iter":
            return p
        if type(p) is not Ptr:
            return DECLINED
        s = m.load(p.loc, p.path)
        if type(s) is not Seq:
            return DECLINED
        if name == "next":
            if not s.f:
                return NONE
            m.store(p.loc, p.path, Seq(s.kind, s.f[1:]))
            return some(s.f[0])
        if name == "next_back":
            if not s.f:
                return NONE
            m.store(p.loc, p.path, Seq(s.kind, s.f[:-1]))
            return some(s.f[-1])
        if name == "size_hint":
            return Agg(0, (len(s.f), some(len(s.f))))
        if name == "len":
            return len(s.f)
        raise Unsupported(fn.name)
    return f


# ------------------------------------------------------------------ sorting
def call_closure(m, fn, argi, cl, args):
    """call a closure argument synchronously"""
    ty = sig_in(fn, argi)
    r = m.call_value_sync(ty, cl, Agg(0, tuple(args)))
    return r


def call_value_sync(self, ty, selfv, tup):
    d = len(self.st.frames)
    if self.sync == 0 and self.snapshot is None:
        self.before_sync()
    self.sync += 1
    try:
        r = self.call_value(ty, selfv, tup, None, None, True)
        if r is PUSHED:
            r = self._loop(d)
        return r
    finally:
        self.sync -= 1


Machine.call_value_sync = call_value_sync


def less(m, a, b, ty):
    """a < b for totally ordered scalar / tuple values: returns -1, 0, 1"""
    if type(a) is Agg and type(b) is Agg:
        if a.v != b.v:
            return -1 if a.v < b.v else 1
        t = m.T[ty]
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            et = t["e"][i] if t["k"] == "tuple" else (t["vars"][a.v]["f"][i][1] if t["k"] == "adt" else None)
            if et is None:
                raise Unsupported("ordering of " + m.T.name(ty))
            c = less(m, x, y, et)
            if c:
                return c
        return 0
    if type(a) is Ptr or type(b) is Ptr:
        t = m.T[ty]
        return less(m, m.load(a.loc, a.path), m.load(b.loc, b.path), t["e"])
    bits = m.T.bits(ty) or 64
    sg = m.T.signed(ty)
    if m.T[ty]["k"] == "adt":
        raise Unsupported("ordering of " + m.T.name(ty))
    if m.branch(mk("lt", num(a), num(b), bits, sg)):
        return -1
    if m.branch(mk("eq", a, b, bits, sg)):
        return 0
    return 1


def sort_items(m, items, cmp, stable):
    """insertion sort with a three-way comparison; unstable sorts may order ties either way"""
    out = []
    swaps = 0
    for x in items:
        j = len(out)
        if not stable and swaps >= 2:
            # the remaining ties keep their order: enough to show a dependence on it, not to exclude one
            k = "unstable sort: not every order of equal elements explored"
            m.undecided[k] = m.undecided.get(k, 0) + 1
            stable = True
        if stable and j > 6:
            lo, hi = 0, j
            while lo < hi:
                mid = (lo + hi) // 2
                if cmp(out[mid], x) <= 0:
                    lo = mid + 1
                else:
                    hi = mid
            out.insert(lo, x)
            continue
        while j > 0:
            c = cmp(out[j - 1], x)
            if c > 0:
                j -= 1
                continue
            if c == 0 and not stable and out[j - 1] != x:
                if m.choose(2):
                    swaps += 1
                    j -= 1
                    continue
            break
        out.insert(j, x)
    return out


def _strictly(items, cmp):
    return all(cmp(items[i], items[i + 1]) <= 0 for i in range(len(items) - 1))


def do_sort(m, fn, a, kind, stable):
    snap(m)
    p = a[0]
    items = slice_items(m, p)
    ety = m.T[deref_ty(m, sig_in(fn, 0))]["e"]
    if len(items) <= 1:
        return UNIT
    if kind == "key":
        kty = None
        keys = {}
        for i in range(len(items)):
            keys[i] = call_closure(m, fn, 1, a[1], [elem_ptr(p, i)])
        # the key type: the closure's result; scalars of unknown type compare as unsigned
        kty = fn.targs[1] if fn.targs and len(fn.targs) > 1 and isinstance(fn.targs[1], int) else None
        idx = list(range(len(items)))

        def cmp(i, j):
            return less(m, keys[i], keys[j], kty)
        idx = sort_items(m, idx, cmp, stable)
        slice_store(m, p, [items[i] for i in idx])
        return UNIT
    if kind == "by":
        tmp = m.alloc(Agg(None, tuple(items)))

        def cmp(i, j):
            r = call_closure(m, fn, 1, a[1], [Ptr(tmp, (i,)), Ptr(tmp, (j,))])
            if type(r) is not Agg:
                raise Unsupported("comparison result")
            return r.v - 1
        idx = sort_items(m, list(range(len(items))), cmp, stable)
        del m.st.heap[tmp]
        slice_store(m, p, [items[i] for i in idx])
        return UNIT
    out = sort_items(m, items, lambda x, y: less(m, x, y, ety), stable)
    slice_store(m, p, out)
    return UNIT


@rx(r"^(?:alloc|core|std)::slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key)$")
def _(mm, fn, m):
    n = mm.group(1)
    stable = "unstable" not in n
    kind = "key" if n.endswith("key") else "by" if n.endswith("_by") else "ord"
    return lambda m, fn, a, *r: do_sort(m, fn, a, kind, stable)


@rx(r"^core::slice::<impl \[T\]>::(swap|reverse|rotate_left|rotate_right|copy_within|fill|copy_from_slice|clone_from_slice)$")
def _(mm, fn, m):
    n = mm.group(1)

    def f(m, fn, a, *r):
        p = a[0]
        items = slice_items(m, p)
        k = len(items)
        if n == "swap":
            i, j = m.concretise(a[1]), m.concretise(a[2])
            m.oblige("index out of bounds")
            if i >= k or j >= k:
                raise PathEnd("panic", "index out of bounds", m.site())
            items[i], items[j] = items[j], items[i]
        elif n == "reverse":
            items.reverse()
        elif n in ("rotate_left", "rotate_right"):
            i = m.concretise(a[1])
            m.oblige("rotation amount")
            if i > k:
                raise PathEnd("panic", "rotation beyond the slice", m.site())
            if n == "rotate_right":
                i = k - i
            items = items[i:] + items[:i]
        elif n == "fill":
            items = [a[1]] * k
        elif n in ("copy_from_slice", "clone_from_slice"):
            src = slice_items(m, a[1])
            m.oblige("slice lengths")
            if len(src) != k:
                raise PathEnd("panic", "slice length mismatch", m.site())
            items = src
        else:
            s, e = checked_range(m, k, a[1], ty_name(m, sig_in(fn, 1)))
            s, e, d = m.concretise(s), m.concretise(e), m.concretise(a[2])
            m.oblige("copy_within bounds")
            if d + e - s > k:
                raise PathEnd("panic", "copy_within out of bounds", m.site())
            items[d:d + e - s] = items[s:e]
        slice_store(m, p, items)
        return UNIT
    return f


@rx(r"^(?:alloc|std)::slice::<impl \[T\]>::(to_vec|into_vec)$")
def _(mm, fn, m):
    return lambda m, fn, a, *r: new_seq(m, fn.sig["out"], slice_items(m, a[0]))


# ------------------------------------------------------------------ strings: handled by clients
@model("core::str::<impl str>::chars")
def _chars(m, fn, a, *r):
    c = m.client
    h = getattr(c, "str_chars", None)
    if h is None:
        raise Unsupported("str::chars")
    return h(m, a[0])


@rx(r"^core::str::<impl str>::(trim\w*|strip_prefix|strip_suffix|is_ascii|starts_with|ends_with|contains|eq_ignore_ascii_case|len|is_empty)$")
def _(mm, fn, m):
    name = mm.group(1)

    def f(m, fn, a, *r):
        h = getattr(m.client, "str_op", None)
        if h is None:
            return DECLINED
        return h(m, name, fn, a)
    return f


@rx(r"^<core::str::Chars<'a> as core::iter::(Iterator|DoubleEndedIterator)>::(\w+)$")
def _(mm, fn, m):
    name = mm.group(2)

    def f(m, fn, a, *r):
        h = getattr(m.client, "chars_method", None)
        if h is None:
            return DECLINED
        x = h(m, name, fn, a)
        if x is DECLINED:
            stub = m.P.roots.get("autho::anchor_chars_" + name)
            if stub is not None and len(r) == 3:
                m.push(m.P.fns[stub] if type(stub) is int else stub, list(a), *r)
                return PUSHED
        return x
    return f


@rx(r"^<core::str::Chars<'a> as core::clone::Clone>::clone$")
def _(mm, fn, m):
    def f(m, fn, a, *r):
        h = getattr(m.client, "chars_clone", None)
        if h is None:
            return DECLINED
        return h(m, a[0])
    return f
