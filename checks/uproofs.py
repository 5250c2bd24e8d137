"""Proof obligations for the A properties."""
from mirv.core import *
from mirv import expr as X
from mirv.exe import Opq, Unsupported, Ptr, En, Fork, PanicNow
from checks.cproofs import u, PRIME
BE = False
# ---------------------------------------------------------------- A01
MV = r"^zkp_mmap_vec::MmapVec::<ops_crypto::Dr>::"
MI = r"^<zkp_mmap_vec::MmapVec<ops_crypto::Dr> as "
def el(n): return Opq("el", n)
def a01(c):
    """elements are opaque tokens of an arbitrary type; clones and drops of elements are recorded"""
    def ev(st, *e): st.ghost["ev"] = st.ghost.get("ev", ()) + (e,)
    def elems(ex, st, p):
        if not p.meta.const: raise Unsupported("slice of symbolic length")
        return [ex.load(st, Ptr(p.cell, p.path[:-1] + (p.path[-1] + i,), None)) for i in range(p.meta.val)]
    def clone(ex, st, i, a):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "el"): raise Unsupported("element %r" % (v,))
        ev(st, "clone", v.x)
        return el("copy of " + v.x)
    def drop1(ex, st, i, a):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "el"): raise Unsupported("drop of %r" % (v,))
        ev(st, "drop", v.x)
        return ()
    def dropn(ex, st, i, a):
        for v in elems(ex, st, a[0]):
            if not (isinstance(v, Opq) and v.kind == "el"): raise Unsupported("drop of %r" % (v,))
            ev(st, "drop", v.x)
        return ()
    def dropvec(ex, st, i, a):
        return ()
    K = [(r"^<ops_crypto::Dr as std::clone::Clone>::clone$", clone), (r"^std::ptr::drop_(in_place|glue)::<ops_crypto::Dr>$", drop1), (r"^std::ptr::drop_(in_place|glue)::<\[ops_crypto::Dr\]>$", dropn)]
    def val(env, toks, cap):
        for t in env.prog.types:
            k = env.prog.kind(t)
            if k[0] == "adt" and re.match(r"^zkp_mmap_vec::MmapVec<(\w+::)*Dr>$", env.prog.tname(t)): break
        else: raise Unsupported("no vector type")
        env.vals.ncell -= 1
        env.vals.cells[env.vals.ncell] = tuple(el(x) for x in toks)
        d = {"mmap": Opq("mmap", Ptr(env.vals.ncell, (0,), None)), "length": u(len(toks)), "capacity": u(cap) if isinstance(cap, int) else cap, "_t": ()}
        fs = [f[0] for f in k[3][0]["fields"]]
        if sorted(fs) != sorted(d): raise Unsupported("fields of the vector")
        return tuple(d[f] for f in fs)
    def content(s, v):
        m, = [x for x in v if isinstance(x, Opq) and x.kind == "mmap"]
        n, cap = [x for x in v if isinstance(x, E)]
        if not n.const: raise Unsupported("symbolic length")
        p = m.x
        cell = s.cells.get(p.cell, ())
        for q in p.path[:-1]: cell = cell[q]
        o = p.path[-1]
        return [x.x if isinstance(x, Opq) and x.kind == "el" else "?" for x in cell[o:o + n.val]], cap
    def one(op, nm, inst, argf, want, cap, fails=None, pre=None, keep=True):
        """want: contents, list of clones and of drops afterwards (or a function of the arguments)"""
        def post(s, a, r):
            got, cp = content(s, s.cells[a[0].cell] if isinstance(a[0], Ptr) else a[0])
            evs = s.ghost.get("ev", ())
            W, C, D = want
            return [("contents", X.boolc(got == W)), ("clones", X.boolc([e[1] for e in evs if e[0] == "clone"] == C)), ("drops", X.boolc(sorted(e[1] for e in evs if e[0] == "drop" and e[1] != "fill") == sorted(D))),
                    ("capacity", X.eq(cp, u(cap) if isinstance(cap, int) else cap))]
        kw = {"pre": pre, "feasible": True} if pre else {}
        c.prove(op, post, inst=inst, argf=argf, contracts=K, name=nm, cex=False, panics=(lambda *a: fails) if fails is not None else None, **kw)
    names = lambda n: ["e%d" % i for i in range(n)]
    ref = lambda n, cap: (lambda env: env.vals.ref(val(env, names(n), cap)))
    CAP = X.var("capacity", 64)
    for n in (0, 1, 2, 3, 4, 7, 16, 33):
        one("mm_drop", "push on %d elements, any capacity" % n, MV + "push$", lambda env, ats, n=n: [ref(n, CAP)(env), el("new")], (names(n) + ["new"], [], []), CAP, fails=X.eq(CAP, u(n)), pre=lambda *a, n=n: [X.ule(u(n), CAP)])
        one("mm_drop", "clear of %d elements" % n, MV + "clear$", lambda env, ats, n=n: [ref(n, CAP)(env)], ([], [], names(n)), CAP)
        one("mm_drop", "drop of a vector of %d elements" % n, MI + r"std::ops::Drop>::drop$", lambda env, ats, n=n: [ref(n, CAP)(env)], ([], [], names(n)), CAP)
        for k in range(0, n + 1) if n < 8 else (0, 1, n // 2, n - 1, n):
            one("mm_drop", "truncation of %d elements to %d" % (n, k), MV + "truncate$", lambda env, ats, n=n, k=k: [ref(n, CAP)(env), u(k)], (names(k), [], names(n)[k:]), CAP)
        kk = X.var("k", 64)
        one("mm_drop", "truncation of %d elements to any larger length" % n, MV + "truncate$", lambda env, ats, n=n: [ref(n, CAP)(env), kk], (names(n), [], []), CAP, pre=lambda *a, n=n: [X.ule(u(n), kk)])
        for k in sorted({0, 1, 2, 3, 4, n - 1, n, n + 1, n + 3, 20} - {-1}):
            one("mm_drop", "resizing %d elements to %d, any capacity" % (n, k), MV + "resize$", lambda env, ats, n=n, k=k: [ref(n, CAP)(env), u(k), el("fill")],
                (names(min(n, k)) + ["copy of fill"] * (k - n), ["fill"] * (k - n), names(n)[k:]), CAP, fails=X.ult(CAP, u(k)), pre=lambda *a, n=n: [X.ule(u(n), CAP)])
        one("mm_drop", "resizing %d elements beyond any capacity" % n, MV + "resize$", lambda env, ats, n=n: [ref(n, CAP)(env), kk, el("fill")], ([], [], []), CAP, fails=X.TRUE, pre=lambda *a, n=n: [X.ule(u(n), CAP), X.ult(CAP, kk)])
        for m in (0, 1, 2, 3, 9, 32):
            new = ["s%d" % i for i in range(m)]
            cps = ["copy of " + x for x in new]
            full = X.ult(CAP, u(n + m))
            p = lambda *a, n=n: [X.ule(u(n), CAP)]
            one("mm_drop", "%d elements extended by a slice of %d" % (n, m), MV + "extend_from_slice$", lambda env, ats, n=n, new=new: [ref(n, CAP)(env), env.vals.slice([el(x) for x in new])], (names(n) + cps, new, []), CAP, fails=full, pre=p)
            one("mm_drop", "%d elements extended by %d references" % (n, m), MI + r"std::iter::Extend<&ops_crypto::Dr>>::extend::<", lambda env, ats, n=n, new=new: [ref(n, CAP)(env), slice_iter(env, [el(x) for x in new])], (names(n) + cps, new, []), CAP, fails=full, pre=p)
            one("mm_drop", "%d elements extended by a vector of %d" % (n, m), MI + r"std::iter::Extend<ops_crypto::Dr>>::extend::<std::vec::Vec<", lambda env, ats, n=n, new=new: [ref(n, CAP)(env), env.vals.vec([el(x) for x in new])], (names(n) + new, [], []), CAP, fails=full, pre=p)
        def cl(s, a, r, n=n):
            got, cp = content(s, r)
            old, _ = content(s, s.cells[a[0].cell])
            evs = s.ghost.get("ev", ())
            m1, m2 = ([x for x in v if isinstance(x, Opq) and x.kind == "mmap"][0].x.cell for v in (r, s.cells[a[0].cell]))
            return [("copies of the elements", X.boolc(got == ["copy of e%d" % i for i in range(n)])), ("the original is kept", X.boolc(old == names(n))), ("each element cloned once, none dropped", X.boolc(evs == tuple(("clone", x) for x in names(n)))),
                    ("capacity", X.eq(cp, u(n + 2))), ("memory of its own", X.boolc(m1 != m2))]
        c.prove("mm_drop", cl, inst=MI + r"std::clone::Clone>::clone$", argf=lambda env, ats, n=n: [ref(n, n + 2)(env)], contracts=K, name="clone of %d elements" % n, cex=False)
        for what, rx in (("as_slice", MV + "as_slice$"), ("as_mut_slice", MV + "as_mut_slice$"), ("deref", MI + r"std::ops::Deref>::deref$"), ("deref_mut", MI + r"std::ops::DerefMut>::deref_mut$")):
            def sl(s, a, r, n=n):
                m, = [x for x in s.cells[a[0].cell] if isinstance(x, Opq) and x.kind == "mmap"]
                return [("the memory of the vector, its length", X.band(X.boolc(r.cell == m.x.cell and r.path == m.x.path), X.eq(r.meta, u(n))))]
            c.prove("mm_drop", sl, inst=rx, argf=lambda env, ats, n=n: [ref(n, CAP)(env)], contracts=K, name="%s of %d elements" % (what, n), cex=False)
        c.prove("mm_drop", lambda s, a, r, n=n: [("length", X.eq(r, u(n)))], inst=MV + "len$", argf=lambda env, ats, n=n: [ref(n, CAP)(env)], contracts=K, name="length of %d elements" % n, cex=False)
        c.prove("mm_drop", lambda s, a, r, n=n: [("emptiness", X.eq(r, X.boolc(n == 0)))], inst=MV + "is_empty$", argf=lambda env, ats, n=n: [ref(n, CAP)(env)], contracts=K, name="emptiness of %d elements" % n, cex=False)
    # memory for the capacity, for every capacity; an overflowing one fails
    def ln(ex, st, i, a):
        st.ghost["size"] = a[1]
        return a[0]
    size = [None]
    def sz(env):
        for t in env.prog.types:
            if re.match(r"^(\w+::)*Dr$", env.prog.tname(t)): size[0] = env.prog.size(t)
        return size[0]
    def wc(s, a, r):
        n, cap = [x for x in r if isinstance(x, E)]
        need = X.mul(X.zext(CAP, 128), X.c(size[0], 128))
        g = s.ghost.get("size")
        return [("empty", X.eq(n, u(0))), ("capacity", X.eq(cap, CAP)), ("memory for every element, at least one byte", X.FALSE if g is None else X.band(X.ule(need, X.zext(g, 128)), X.ult(u(0), g)))]
    c.prove("mm_drop", wc, inst=MV + "with_capacity$", argf=lambda env, ats: [sz(env), CAP][1:], contracts=[(r"^memmap::MmapOptions::len$", ln)] + K, name="a new vector of any capacity", cex=False,
            panics=lambda *a: X.bnot(X.ult(X.mul(X.zext(CAP, 128), X.c(size[0], 128)), X.c(1 << 64, 128))))
    # equality
    def vals(env, pre, n):
        env.vals.ncell -= 1
        env.vals.cells[env.vals.ncell] = tuple(X.var("%s%d" % (pre, i), 64) for i in range(n))
        return env.vals.ref((Opq("mmap", Ptr(env.vals.ncell, (0,), None)), u(n), u(n), ()))
    for n in range(0, 4):
        for m in range(0, 4):
            def eq(s, a, r, n=n, m=m):
                w = X.boolc(n == m)
                for i in range(min(n, m)): w = X.band(w, X.eq(X.var("a%d" % i, 64), X.var("b%d" % i, 64)))
                return [("equal exactly as sequences", X.eq(r, w if n == m else X.FALSE))]
            c.prove("mm_u64", eq, inst=r"^<zkp_mmap_vec::MmapVec<u64> as std::cmp::PartialEq>::eq$", argf=lambda env, ats, n=n, m=m: [vals(env, "a", n), vals(env, "b", m)], name="equality of %d and %d numbers" % (n, m), cex=False)
def slice_iter(env, xs):
    """a slice::Iter over these values"""
    env.vals.ncell -= 1
    k = env.vals.ncell
    env.vals.cells[k] = tuple(xs)
    return ((Ptr(k, (0,), None),), Ptr(k, (len(xs),), None), ())
# ---------------------------------------------------------------- A02
def a02(c):
    for n in list(range(0, 34)) + [40, 64]:
        bs = [X.var("b%d" % i, 8) for i in range(n)]
        def post(s, a, r, n=n, bs=bs):
            if n > 32: return [("more than 32 bytes are an error", X.boolc(r.v == 1))]
            if r.v: return [("up to 32 bytes are accepted", X.FALSE)]
            all_ = list(reversed(bs)) + [X.c(0, 8)] * (32 - n)
            return [("limb %d" % i, X.eq(r.f[0][i], X.concat(list(reversed(all_[8 * i:8 * i + 8])) if BE else all_[8 * i:8 * i + 8]))) for i in range(4)]
        c.prove("lm_fe", post, inst=r"^zkp_macros_lib::bytes_to_limbs$", argf=lambda env, ats, bs=bs: [env.vals.slice(bs)], name="limbs of any %d bytes" % n, cex=False,
                contracts=[(r"^syn::(error::)?Error::new::<|^proc_macro2::Span::call_site$", lambda ex, st, i, a: Opq("error", 0))])
    # conversion into the internal form: any four words, reduced or not
    x = [X.var("x%d" % i, 64) for i in range(4)]
    SB = r"^zkp_macros_lib::montgomery_convert::sbb$"
    def sbb(ex, st, i, a):
        k = len(st.ghost.get("sbb", ()))
        st.ghost["sbb"] = st.ghost.get("sbb", ()) + (tuple(a),)
        return (X.var("d%d" % k, 64), X.var("w%d" % k, 64))
    def mont(ie, a, r):
        cs = ie.state.ghost.get("sbb", ())
        g = []
        if cs:
            # a subtraction of the prime, word by word (contract of sbb below): the value before it
            m = [PRIME >> (64 * i) & (1 << 64) - 1 for i in range(4)]
            ok = len(cs) == 4 and all(cs[i][1].const and cs[i][1].val == m[i] and (cs[i][2].const and cs[i][2].val == 0 if i == 0 else cs[i][2] is X.var("w%d" % (i - 1), 64)) for i in range(4)) and all(r[i] is X.var("d%d" % i, 64) for i in range(4))
            if not ok: raise Unsupported("shape of the final subtraction")
            t = ie.limbs([q[0] for q in cs])
            g = [("at least the prime before the subtraction", ie.zp(t) >= PRIME), ("less than the prime after it", ie.zp(t) < 2 * PRIME)]
        else:
            t = ie.limbs(list(r))
            g = [("fully reduced", ie.zp(t) < PRIME)]
        return [("r * 2^256 = x * 2^512 mod the prime", Cong(t.scale(1 << 256).add(ie.limbs(x).scale((1 << 512) % PRIME), -1), PRIME))] + g
    c.prove("lm_fe", mont, mode="int", inst=r"^zkp_macros_lib::montgomery_convert$", argf=lambda env, ats: [tuple(x)], name="internal form of any number", cex=False, timeout=60, contracts=[(SB, sbb)])
    a, b, w = X.var("a", 64), X.var("b", 64), X.var("w", 64)
    def psb(s, args, r):
        e = X.sub(X.sub(X.zext(a, 66), X.zext(b, 66)), X.zext(X.lshr(w, X.c(63, 64)), 66))
        neg = X.eq(X.extract(e, 65, 1), X.c(1, 1))
        return [("difference", X.eq(r[0], X.trunc(e, 64))), ("borrow", X.eq(r[1], X.ite(neg, X.c((1 << 64) - 1, 64), X.c(0, 64))))]
    c.prove("lm_fe", psb, inst=SB, argf=lambda env, ats: [a, b, w], name="word subtraction with borrow", cex=False)
