"""Executor models of compiler intrinsics and of the allocator.  Everything
else in core/alloc/std is executed from its own MIR."""
import re
from . import expr as X
from .expr import E, c, TRUE, FALSE
from .exe import Ptr, En, Un, UNINIT, UNIT, Fork, Call, Unsupported, PanicNow, Fp, usz, Opq, merge, Seq, NeedFork

INTR = {}
def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d

def _T(ex, inst, n=0):
    return inst["gargs"][n]

@intr("size_of")
def _(ex, st, inst, a): return usz(ex.p.size(_T(ex, inst)))
@intr("min_align_of", "align_of", "pref_align_of")
def _(ex, st, inst, a):
    t = ex.p.tname(_T(ex, inst))
    return usz({"u8": 1, "u16": 2, "u32": 4}.get(t, 8))
@intr("size_of_val")
def _(ex, st, inst, a):
    k = ex.p.kind(_T(ex, inst))
    if k[0] == "slice":
        return X.mul(a[0].meta, usz(ex.p.size(k[1])))
    if k[0] == "str":
        return a[0].meta
    return usz(ex.p.size(_T(ex, inst)))
@intr("needs_drop")
def _(ex, st, inst, a): return FALSE
@intr("ctlz", "ctlz_nonzero")
def _(ex, st, inst, a): return X.trunc(X.ctlz(a[0]), 32) if a[0].w >= 32 else X.zext(X.ctlz(a[0]), 32)
@intr("cttz", "cttz_nonzero")
def _(ex, st, inst, a): return X.trunc(X.cttz(a[0]), 32) if a[0].w >= 32 else X.zext(X.cttz(a[0]), 32)
@intr("ctpop")
def _(ex, st, inst, a): return X.trunc(X.ctpop(a[0]), 32) if a[0].w >= 32 else X.zext(X.ctpop(a[0]), 32)
@intr("bswap")
def _(ex, st, inst, a): return X.bswap(a[0])
@intr("bitreverse")
def _(ex, st, inst, a): return X.bitrev(a[0])
@intr("wrapping_add", "unchecked_add")
def _(ex, st, inst, a): return X.add(*a)
@intr("wrapping_sub", "unchecked_sub")
def _(ex, st, inst, a): return X.sub(*a)
@intr("wrapping_mul", "unchecked_mul")
def _(ex, st, inst, a): return X.mul(*a)
@intr("unchecked_div", "exact_div")
def _(ex, st, inst, a): return X.sdiv(*a) if ex.p.signed(_T(ex, inst)) else X.udiv(*a)
@intr("unchecked_rem")
def _(ex, st, inst, a): return X.srem(*a) if ex.p.signed(_T(ex, inst)) else X.urem(*a)
def _ovf(op):
    def f(ex, st, inst, a):
        return ex.checked(op, a[0], a[1], _T(ex, inst))
    return f
INTR["add_with_overflow"] = _ovf("Add")
INTR["sub_with_overflow"] = _ovf("Sub")
INTR["mul_with_overflow"] = _ovf("Mul")
@intr("integer_max", "integer_min")
def _(ex, st, inst, a):
    sg = ex.p.signed(_T(ex, inst))
    big = inst["intr"] == "integer_max"
    lt = X.slt(*a) if sg else X.ult(*a)
    return X.ite(lt, a[1], a[0]) if big else X.ite(lt, a[0], a[1])
@intr("saturating_add")
def _(ex, st, inst, a):
    r, o = ex.checked("Add", a[0], a[1], _T(ex, inst))
    if ex.p.signed(_T(ex, inst)): raise Unsupported("sat signed")
    return X.ite(o, c(-1, r.w), r)
@intr("saturating_sub")
def _(ex, st, inst, a):
    r, o = ex.checked("Sub", a[0], a[1], _T(ex, inst))
    if ex.p.signed(_T(ex, inst)): raise Unsupported("sat signed")
    return X.ite(o, c(0, r.w), r)
@intr("unchecked_shl", "unchecked_shr")
def _(ex, st, inst, a):
    return ex.binop(st, None, "Shl" if inst["intr"].endswith("shl") else "Shr", a[0], a[1], _T(ex, inst), None)
@intr("rotate_left", "rotate_right")
def _(ex, st, inst, a):
    w = a[0].w
    s = a[1]
    if not s.const: raise Unsupported("symbolic rotate")
    k = s.val % w
    if inst["intr"] == "rotate_right": k = (w - k) % w
    if k == 0: return a[0]
    return X.bor(X.shl(a[0], c(k, w)), X.lshr(a[0], c(w - k, w)))
@intr("transmute", "transmute_unchecked")
def _(ex, st, inst, a): return ex.transmute_ptr(a[0], _T(ex, inst, 0), _T(ex, inst, 1))
@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def _(ex, st, inst, a):
    p, q = a
    if isinstance(p, E) and isinstance(q, E):
        return X.sub(p, q)
    x = p.path[-1]; y = q.path[-1]
    if isinstance(x, tuple) or isinstance(y, tuple):
        n = x[2]
        return usz((x[1] - y[1]) // n)
    x = x if isinstance(x, E) else usz(x)
    y = y if isinstance(y, E) else usz(y)
    return X.sub(x, y)
@intr("offset", "arith_offset")
def _(ex, st, inst, a): return ex.offset_ptr(a[0], a[1])
@intr("copy_nonoverlapping", "copy")
def _(ex, st, inst, a):
    ex.copy_elems(st, a[0], a[1], a[2]); return UNIT
@intr("write_bytes")
def _(ex, st, inst, a):
    n = ex.idx_const(a[2])
    if n is None or not a[1].const: raise Unsupported("write_bytes")
    t = _T(ex, inst)
    sz = ex.p.size(t)
    v = ex.decode(t, {"b": [a[1].val] * sz, "p": []}, 0)
    for i in range(n):
        ex.store(st, ex.offset_ptr(a[0], i), v)
    return UNIT
@intr("read_via_copy", "volatile_load", "unaligned_volatile_load")
def _(ex, st, inst, a): return ex.load(st, a[0])
@intr("write_via_move", "volatile_store")
def _(ex, st, inst, a):
    ex.store(st, a[0], a[1]); return UNIT
@intr("assume", "cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "forget")
def _(ex, st, inst, a): return UNIT
@intr("likely", "unlikely", "black_box")
def _(ex, st, inst, a): return a[0]
@intr("ub_checks", "contract_checks", "overflow_checks")
def _(ex, st, inst, a): return FALSE
@intr("is_val_statically_known")
def _(ex, st, inst, a): return FALSE
@intr("discriminant_value")
def _(ex, st, inst, a):
    v = ex.load(st, a[0])
    t = _T(ex, inst)
    if isinstance(v, En):
        l = ex.p.types[t]["layout"]["v"]
        d = ex.discr_value(t, v)
        # isize-typed unless repr given; width decided by the consumer
        return c(d, 64) if not getattr(ex, "discr_w", None) else c(d, ex.discr_w(t))
    raise Unsupported("discriminant_value of %r" % (v,))
@intr("three_way_compare")
def _(ex, st, inst, a):
    sg = ex.p.signed(_T(ex, inst))
    lt = X.slt(*a) if sg else X.ult(*a)
    e = X.eq(*a)
    return Fork([(lt, En(0, ())), (e, En(1, ())), (X.band(X.bnot(lt), X.bnot(e)), En(2, ()))])
@intr("raw_eq")
def _(ex, st, inst, a):
    return val_eq(ex, ex.load(st, a[0]), ex.load(st, a[1]))
def val_eq(ex, x, y):
    while isinstance(x, Un): x = x.x
    while isinstance(y, Un): y = y.x
    if isinstance(x, E):
        return X.eq(x, y)
    if isinstance(x, tuple):
        r = TRUE
        for p, q in zip(x, y):
            r = X.band(r, val_eq(ex, p, q))
        return r
    raise Unsupported("val_eq %r" % (x,))
@intr("compare_bytes")
def _(ex, st, inst, a):
    n = ex.idx_const(a[2])
    if n is None: raise Unsupported("compare_bytes symbolic")
    r = c(0, 32)
    for i in reversed(range(n)):
        x = ex.load(st, ex.offset_ptr(a[0], i)); y = ex.load(st, ex.offset_ptr(a[1], i))
        r = X.ite(X.eq(x, y), r, X.ite(X.ult(x, y), c(-1, 32), c(1, 32)))
    return r
@intr("typed_swap_nonoverlapping")
def _(ex, st, inst, a):
    x = ex.load(st, a[0]); y = ex.load(st, a[1])
    ex.store(st, a[0], y); ex.store(st, a[1], x)
    return UNIT
@intr("select_unpredictable")
def _(ex, st, inst, a):
    if a[0].const: return a[1] if a[0].val else a[2]
    try: return merge(a[0], a[1], a[2])
    except NeedFork: return Fork([(a[0], a[1]), (X.bnot(a[0]), a[2])])
@intr("abort")
def _(ex, st, inst, a): raise PanicNow("abort")
@intr("ptr_metadata")
def _(ex, st, inst, a): return a[0].meta if isinstance(a[0], Ptr) and a[0].meta is not None else UNIT
@intr("slice_get_unchecked")
def _(ex, st, inst, a):
    return Ptr(a[0].cell, ex.index_path(a[0].path, True, a[1]), None)
@intr("const_eval_select")
def _(ex, st, inst, a):
    # run-time branch: third argument's function type
    t = inst["gargs"][2]
    ii = ex.p.fn_tys.get(t)
    if ii is None: raise Unsupported("const_eval_select")
    return Call(ii, list(a[0]))
@intr("caller_location")
def _(ex, st, inst, a): return Ptr(("loc",), ())
@intr("type_id")
def _(ex, st, inst, a): raise Unsupported("type_id")
@intr("variant_count")
def _(ex, st, inst, a): return usz(len(ex.p.kind(_T(ex, inst))[3]))
@intr("ptr_guaranteed_cmp")
def _(ex, st, inst, a): return c(2, 8)
@intr("carrying_mul_add")
def _(ex, st, inst, a):
    if ex.p.signed(_T(ex, inst)) or a[0].w > 64: raise Unsupported("carrying_mul_add")
    w = a[0].w
    t = X.add(X.add(X.mul(X.zext(a[0], 2*w), X.zext(a[1], 2*w)), X.zext(a[2], 2*w)), X.zext(a[3], 2*w))
    return (X.trunc(t, w), X.trunc(X.lshr(t, c(w, 2*w)), w))

# ---------------- allocator ----------------
NAMES = []
def name(rx):
    def d(f):
        NAMES.append((re.compile(rx), f))
        return f
    return d

def leafptr(v):
    while isinstance(v, tuple):
        v = v[0]
    return v
def heapcell(ex, st):
    return Ptr(ex.newcell(st, ()), (0,), None)
def mkuniq(ptr):
    """Unique<T>"""
    return ((ptr,), UNIT)
def mkraw(ptr):
    """NonNull<u8> of RawVecInner"""
    return (ptr,)

def grow_to(ex, st, self_ptr, need):
    """self_ptr: &mut RawVecInner"""
    v = ex.load(st, self_ptr)
    p = leafptr(v[0])
    cap = v[1][0]
    if not isinstance(p, Ptr):
        p = heapcell(ex, st)
    ncap = need
    if cap.const and need.const:
        ncap = usz(max(cap.val * 2, need.val, 4))
    ex.store(st, self_ptr, (mkraw(p), (ncap,), v[2] if len(v) > 2 else UNIT))

@name(r"raw_vec::RawVec::<.*>::grow_one$")
def _(ex, st, inst, a):
    v = ex.load(st, a[0])
    cap = v[0][1][0]
    grow_to(ex, st, Ptr(a[0].cell, a[0].path + (0,)), X.add(cap, usz(1)))
    return UNIT
@name(r"raw_vec::RawVecInner(::<.*>)?::reserve$|raw_vec::RawVecInner(::<.*>)?::reserve::do_reserve_and_handle")
def _(ex, st, inst, a):
    ln, add = a[1], a[2]
    v = ex.load(st, a[0])
    cap = v[1][0]
    need = X.add(ln, add)
    if cap.const and need.const:
        if need.val > cap.val or not isinstance(leafptr(v[0]), Ptr):
            grow_to(ex, st, a[0], need)
        return UNIT
    grow_to(ex, st, a[0], need)
    return UNIT
@name(r"raw_vec::RawVecInner(::<.*>)?::(grow_amortized|grow_exact)$")
def _(ex, st, inst, a):
    grow_to(ex, st, a[0], X.add(a[1], a[2]))
    return En(0, (UNIT,))
@name(r"raw_vec::RawVecInner(::<.*>)?::(reserve_exact|try_reserve_exact|try_reserve)$")
def _(ex, st, inst, a):
    grow_to(ex, st, a[0], X.add(a[1], a[2]))
    return UNIT if inst["name"].endswith("::reserve_exact") else En(0, (UNIT,))
@name(r"raw_vec::RawVecInner(::<.*>)?::(with_capacity_in|with_capacity_zeroed_in)$")
def _(ex, st, inst, a):
    return (mkraw(heapcell(ex, st)), (a[0],), UNIT)
@name(r"^<(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|bool) as std::vec::spec_from_elem::SpecFromElem>::from_elem::<")
def _(ex, st, inst, a):
    # vec![integer; n]
    n = ex.idx_const(a[1])
    if n is None: raise Unsupported("vec! of symbolic length")
    p = heapcell(ex, st)
    ex.store(st, Ptr(p.cell, p.path[:-1], None), (a[0],) * n)
    return ((mkraw(p), (a[1],), UNIT), UNIT), a[1]
@name(r"raw_vec::RawVecInner(::<.*>)?::try_allocate_in$")
def _(ex, st, inst, a):
    return En(0, ((mkraw(heapcell(ex, st)), (a[0],), UNIT),))
@name(r"raw_vec::RawVec(Inner)?(::<.*>)?::(shrink_to_fit|shrink|shrink_unchecked|deallocate)$")
def _(ex, st, inst, a): return UNIT if not inst["name"].endswith(("shrink", "shrink_unchecked")) else En(0, (UNIT,))
@name(r"^std::boxed::Box::<.*>::new$|^alloc::boxed::Box::<.*>::new$")
def _(ex, st, inst, a):
    return (mkuniq(Ptr(ex.newcell(st, a[0]), (), None)), UNIT)
@name(r"alloc::(exchange_malloc|alloc::exchange_malloc)$|^std::alloc::exchange_malloc$")
def _(ex, st, inst, a):
    return Ptr(ex.newcell(st, UNINIT), (), None)
@name(r"^std::boxed::Box::<.*>::new_uninit(_in)?$|boxed::box_new_uninit")
def _(ex, st, inst, a):
    return (mkuniq(Ptr(ex.newcell(st, UNINIT), (), None)), UNIT)
@name(r"^std::alloc::dealloc$|^alloc::alloc::dealloc$|Global as std::alloc::Allocator>::deallocate$")
def _(ex, st, inst, a): return UNIT
@name(r"::precondition_check$")
def _(ex, st, inst, a): return UNIT
@name(r"^(core|std)::panicking::(panic|panic_fmt|panic_display|panic_str|panic_explicit|assert_failed|panic_bounds_check|unreachable_display|panic_const|panic_nounwind|assert_failed_inner|panic_str_2015)|^std::rt::begin_panic|::panic_cold_explicit$|^(core|std)::panicking::")
def _(ex, st, inst, a): raise PanicNow(inst["name"])
@name(r"^std::option::(unwrap_failed|expect_failed)$|^std::result::unwrap_failed")
def _(ex, st, inst, a): raise PanicNow(inst["name"])
@name(r"^std::fmt::|core::fmt::|fmt::Arguments")
def _(ex, st, inst, a): return Opq("fmt", None)
# values whose drop only frees memory (their elements have no effects of their own)
MEM = r"std::(vec::Vec|vec::IntoIter|boxed::Box|rc::Rc|sync::Arc|string::String|collections::\w+::\w+|collections::\w+)\b|raw_vec::|alloc::"
@name(r"^<(%s).* as std::ops::Drop>::drop$" % MEM)
def _(ex, st, inst, a): return UNIT
_nodrop = re.compile(r"drop_(?:in_place|glue)::<(%s|std::option::Option<(%s)|std::result::Result<(%s)|\[?zkp_u256::|zkp_\w+::(?!mmap)\w|dyn )" % (MEM, MEM, MEM))
def nodrop(ex, inst):
    return _nodrop.search(inst["name"]) is not None
@name(r"^std::mem::(drop|forget)::")
def _(ex, st, inst, a): return UNIT

# ---------------- logging and prefetching have no effect on values
@name(r"^log::max_level$")
def _(ex, st, inst, a): return En(0, ())
@name(r"^<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::(le|lt)$")
def _(ex, st, inst, a): return FALSE
@name(r"Prefetch(Index)?>::prefetch_|_mm_prefetch$|::prefetch$")
def _(ex, st, inst, a): return UNIT
# ---------------- anonymous memory maps: fresh memory (contract of memmap)
@name(r"^memmap::MmapOptions::new$")
def _(ex, st, inst, a): return Opq("mmapopt", None)
@name(r"^memmap::MmapOptions::len$")
def _(ex, st, inst, a): return a[0]
@name(r"^memmap::MmapOptions::map_anon$")
def _(ex, st, inst, a): return En(0, (Opq("mmap", heapcell(ex, st)),))
@name(r"^<memmap::MmapMut as std::ops::Deref(Mut)?>::deref(_mut)?$")
def _(ex, st, inst, a):
    v = ex.load(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "mmap"): raise Unsupported("mmap")
    return Ptr(v.x.cell, v.x.path, usz(1 << 40))
@name(r"^std::result::Result::<memmap::MmapMut, .*>::(expect|unwrap)$")
def _(ex, st, inst, a):
    if a[0].v: raise PanicNow("mmap")
    return a[0].f[0]
@name(r"drop_(in_place|glue)::<memmap::")
def _(ex, st, inst, a): return UNIT
# ---------------- rayon: items in order, run one after the other (its own
# contract: every item exactly once; closures are Fn + Sync over disjoint items)
def _chunks(ex, st, a):
    p, n = a
    k, m = ex.idx_const(n), ex.idx_const(p.meta)
    if m is None: raise Unsupported("parallel chunks of symbolic length")
    if k is None:
        # any chunk size (it may depend on the number of threads): the caller splits
        lo = n.lo
        if lo >= m: k = max(m, 1)
        else: raise Unsupported("parallel chunks of symbolic size")
    if k == 0: raise PanicNow("chunk size 0")
    return Opq("par", tuple(Ptr(p.cell, p.path[:-1] + (p.path[-1] + i,), usz(min(k, m - i))) for i in range(0, m, k)))
@name(r" as rayon::slice::ParallelSlice(Mut)?<.*>>::par_chunks(_mut)?$")
def _(ex, st, inst, a): return _chunks(ex, st, a)
@name(r" as rayon::iter::IntoParallelRef(Mut)?Iterator<?.*>::par_iter(_mut)?$")
def _(ex, st, inst, a):
    p = a[0]
    v = p
    if not isinstance(p, Ptr) or p.meta is None: raise Unsupported("par_iter of %r" % (p,))
    return Opq("par", tuple(ex.offset_ptr(Ptr(p.cell, p.path), i) for i in range(ex.idx_const(p.meta))))
@name(r" as rayon::iter::IndexedParallelIterator>::enumerate$")
def _(ex, st, inst, a): return Opq("par", tuple((usz(i), x) for i, x in enumerate(a[0].x)))
@name(r" as rayon::iter::IndexedParallelIterator>::zip::")
def _(ex, st, inst, a): return Opq("par", tuple(zip(a[0].x, a[1].x)))
@name(r"^rayon_core::current_num_threads$|^rayon::current_num_threads$")
def _(ex, st, inst, a): return ex.threads(st)
@name(r" as rayon::iter::ParallelIterator>::for_each::<")
def _(ex, st, inst, a):
    body = None
    for t in inst["gargs"]:
        if isinstance(t, int) and ex.p.kind(t)[0] == "closure": body = ex.p.kind(t)[4]
    if body is None: raise Unsupported("for_each of a function")
    env = Ptr(ex.newcell(st, a[1]), ())
    return Seq([(body, [env, (x,)]) for x in a[0].x])

_cache = {}
def lookup(ex, inst):
    key = (id(ex.p), inst["i"])
    r = _cache.get(key, 0)
    if r != 0:
        return r
    r = None
    if inst.get("intr"):
        r = INTR.get(inst["intr"])
        if r is None and "body" not in inst:
            def r(ex, st, inst, a):
                raise Unsupported("intrinsic " + inst["intr"])
    if r is None:
        for rx, f in NAMES:
            if rx.search(inst["name"]):
                r = f
                break
    _cache[key] = r
    return r
