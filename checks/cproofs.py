"""Proof obligations for H01, M01-M03: the real code, all inputs of the entry point."""
from mirv.core import *
from mirv import expr as X, hashes as HS
PRIME = (1 << 251) + (17 << 192) + 1
def u(n): return X.c(n, 64)
Z = u(0)
def p2(n): return X.band(X.ne(n, Z), X.eq(X.band(n, X.sub(n, u(1))), Z))
def opt(v, some, val):
    """v is Some(val) exactly when `some`"""
    if not isinstance(v, En): raise Unsupported("option %r" % (v,))
    if v.v == 0: return X.bnot(some)
    return X.band(some, X.eq(v.f[0], val))
def okres(r, valid, goals):
    """Ok(payload) exactly when valid, with the goals on the payload"""
    if not isinstance(r, En): raise Unsupported("result %r" % (r,))
    if r.v == 1: return [("an error only for an invalid request", X.bnot(valid))]
    return [("accepted only if valid", valid)] + goals(r.f[0])
def anyof(cs):
    r = X.FALSE
    for x in cs: r = X.bor(r, x)
    return r
NODEMAX = 1 << 62
def m01(c):
    pre = lambda n, o, *r: [X.ule(n, u(NODEMAX))]
    valid = lambda n, o: X.band(p2(n), X.ult(o, n))
    def ix(s, a, r):
        n, o = a
        i = X.bor(n, o)
        def g(v):
            (num, dep, off), (root, left, right), (lm, rm) = v
            return [("number", X.eq(X.add(num, u(1)), i)), ("depth", X.band(X.ult(dep, u(63)), X.eq(X.shl(u(1), dep), n))), ("offset", X.eq(off, o)),
                    ("is_root", X.eq(root, X.eq(n, u(1)))), ("is_left", X.eq(left, X.band(X.ne(n, u(1)), X.eq(X.band(o, u(1)), Z)))),
                    ("is_right", X.eq(right, X.eq(X.band(o, u(1)), u(1)))), ("is_left_most", X.eq(lm, X.eq(o, Z))),
                    ("is_right_most", X.eq(rm, X.eq(o, X.sub(n, u(1)))))]
        return okres(r, valid(n, o), g)
    c.prove("ix", ix, pre=pre, feasible=True)
    def rel(s, a, r):
        n, o = a
        notroot = X.ne(n, u(1))
        num = lambda d, f: X.sub(X.bor(d, f), u(1))
        h = X.lshr(n, u(1))
        def g(v):
            return [("parent", opt(v[0], notroot, num(h, X.lshr(o, u(1))))), ("sibling", opt(v[1], notroot, num(n, X.bxor(o, u(1))))),
                    ("left neighbour", opt(v[2], X.ne(o, Z), num(n, X.sub(o, u(1))))), ("right neighbour", opt(v[3], X.ne(o, X.sub(n, u(1))), num(n, X.add(o, u(1)))))]
        return okres(r, valid(n, o), g)
    c.prove("ix_rel", rel, pre=pre, feasible=True)
    def child(s, a, r):
        n, o = a
        i = X.bor(n, o)
        return okres(r, valid(n, o), lambda v: [("left", X.eq(v[0], X.sub(X.shl(i, u(1)), u(1)))), ("right", X.eq(v[1], X.shl(i, u(1))))])
    c.prove("ix_child", child, pre=pre, feasible=True)
    def lca(s, a, r):
        """the answer is an ancestor of both, and its two children are not (unless it is the leaf itself)"""
        n, x, y = a
        def g(v):
            i, j, k = X.bor(n, x), X.bor(n, y), X.add(v, u(1))
            # number of levels between the answer and the leaves, by the leading digits
            d = X.sub(X.ctlz(k), X.ctlz(n))
            return [("a node", X.band(X.ne(k, Z), X.ule(X.ctlz(n), X.ctlz(k)))), ("above the first", X.eq(X.lshr(i, d), k)), ("above the second", X.eq(X.lshr(j, d), k)),
                    ("lowest", X.bor(X.eq(d, Z), X.ne(X.lshr(i, X.sub(d, u(1))), X.lshr(j, X.sub(d, u(1))))))]
        return okres(r, X.band(valid(n, x), X.ult(y, n)), g)
    c.prove("ix_lca", lca, pre=pre, feasible=True, timeout=90)
    def lca2(s, a, r):
        """any two nodes, of any depths"""
        i, j, k = a[0][0], a[1][0], r[0]
        di, dj = X.sub(X.ctlz(k), X.ctlz(i)), X.sub(X.ctlz(k), X.ctlz(j))
        up = lambda q, d: X.lshr(q, X.sub(d, u(1)))
        return [("a node", X.band(X.ne(k, Z), X.band(X.ule(X.ctlz(i), X.ctlz(k)), X.ule(X.ctlz(j), X.ctlz(k))))), ("above the first", X.eq(X.lshr(i, di), k)),
                ("above the second", X.eq(X.lshr(j, dj), k)), ("lowest", X.bor(X.bor(X.eq(di, Z), X.eq(dj, Z)), X.ne(up(i, di), up(j, dj))))]
    c.prove("ix_lca", lca2, inst=r"index::Index::last_common_ancestor$", pre=lambda a, b: [X.ne(a[0], Z), X.ne(b[0], Z)], timeout=90, name="last_common_ancestor of any two nodes")
    def srt(k):
        def argf(env, ats):
            return [X.var("n", 64), env.vals.vec([X.var("o%d" % i, 64) for i in range(k)])]
        O = [X.var("o%d" % i, 64) for i in range(k)]
        def post(s, a, r):
            n = a[0]
            ok = X.bor(p2(n), X.FALSE)
            for o in O: ok = X.band(ok, X.ult(o, n))
            def g(v):
                es = vecval(s, v)
                out = [("strictly increasing %d" % i, X.ult(es[i], es[i + 1])) for i in range(len(es) - 1)]
                num = [X.sub(X.bor(n, o), u(1)) for o in O]
                for i, e in enumerate(es): out.append(("%d is requested" % i, anyof([X.eq(e, q) for q in num])))
                for i, q in enumerate(num): out.append(("request %d is there" % i, anyof([X.eq(e, q) for e in es])))
                return out
            return okres(r, ok, g)
        c.prove("ix_sort", post, argf=argf, pre=lambda n, v: [X.ule(n, u(1 << 63))], feasible=True, name="sort_indices of %d" % k, timeout=90)
    for k in (1, 2, 3): srt(k)
    def psz(k):
        O = [X.var("o%d" % i, 64) for i in range(k)]
        def argf(env, ats): return [X.var("n", 64), env.vals.vec(O)]
        def post(s, a, r):
            n = a[0]
            ok = p2(n)
            for o in O: ok = X.band(ok, X.ult(o, n))
            dep = X.cttz(n)
            if k == 1: want = dep
            else:
                # two paths of length dep share everything above their last common ancestor, whose two children are known
                same = X.eq(O[0], O[1])
                d = X.ctlz(X.bxor(O[0], O[1]))       # first differing bit
                want = X.ite(same, dep, X.sub(X.add(dep, dep), X.add(X.sub(d, X.add(X.ctlz(n), u(1))), u(2))))
            return okres(r, ok, lambda v: [("number of hashes", X.eq(v, want))])
        c.prove("m_psize", post, argf=argf, pre=lambda n, v: [X.ule(n, u(NODEMAX))], feasible=True, name="proof_size of %d" % k, timeout=90)
    psz(1); psz(2)
    def mc(s, a, r):
        n, h = a
        return okres(r, X.bor(X.eq(n, Z), p2(n)), lambda v: [("size", X.eq(v[0], n)), ("hash", veq(v[1], h))])
    c.prove("m_commit", mc, feasible=True)
def veq(a, b):
    if isinstance(a, E): return X.eq(a, b)
    r = X.TRUE
    if len(a) != len(b): return X.FALSE
    for x, y in zip(a, b): r = X.band(r, veq(x, y))
    return r
def hbytes(v):
    while isinstance(v, tuple) and len(v) == 1: v = v[0]
    if not isinstance(v, tuple): raise Unsupported("hash %r" % (v,))
    return list(v)
def same_bytes(got, want):
    if len(got) != len(want): return X.FALSE
    r = X.TRUE
    for a, b in zip(got, want): r = X.band(r, X.eq(a, b))
    return r
def kgoal(r, parts, inner=()):
    """the result is the masked digest of these bytes (which contain the digests of the inner lists)"""
    want = HS.masked(parts)
    g = same_bytes(hbytes(r), want)
    for q in list(inner) + [parts]:
        for k in HS.congruence("keccak256", q): g = X.bor(X.bnot(k), g)
    return g
def lhash(hs): return hs[0] if len(hs) == 1 else HS.masked([b for h in hs for b in h])
def h01(c):
    K = HS.keccak_contracts()
    B = lambda nm, n: [X.var("%s_%d" % (nm, i), 8) for i in range(n)]
    def chunks(ls):
        bs = [B("b%d" % i, n) for i, n in enumerate(ls)]
        return Prove("h_keccak", lambda s, a, r: [("masked digest of the concatenation", kgoal(r, sum(bs, [])))],
                     argf=lambda env, ats: [env.vals.vec([(env.vals.vec(b),) for b in bs])], contracts=K, name="chunks of %s bytes" % list(ls), cex=False)
    import itertools
    c.many("MaskedKeccak over chunks of any content", [chunks(l) for l in [(), (0,), (1,), (32,), (135,), (136,), (137,), (300,), (0, 0), (1, 1), (32, 32), (20, 12), (5, 0, 7), (136, 136), (1, 2, 3, 4, 5)]])
    # any state, any slice of any length
    seg = lambda nm: (nm, X.var(nm + "_len", 64))
    P0 = (("bytes", "earlier", (0,), X.var("n0", 64)),)
    def upd_args(env, ats): return [env.vals.ref((HS.state("keccak256", P0),)), Ptr("input", (0,), X.var("n1", 64))]
    def upd_post(s, a, r):
        h = s.cells[a[0].cell][0]
        return [("the state is extended by exactly the input", X.boolc(isinstance(h, Opq) and h.x == ("keccak256", P0 + (("bytes", "input", (0,), X.var("n1", 64)),))))]
    c.prove("h_keccak", upd_post, inst=r"^zkp_hash::(masked_keccak::)?MaskedKeccak::update$", argf=upd_args, contracts=K, name="update appends an input of any length to any state", cex=False)
    def fin_post(s, a, r): return [("20 bytes of the digest, then zeros", same_bytes(hbytes(r), HS.masked(P0)))]
    c.prove("h_keccak", fin_post, inst=r"^zkp_hash::(masked_keccak::)?MaskedKeccak::hash$", argf=lambda env, ats: [(HS.state("keccak256", P0),)], contracts=K, name="hash of any state", cex=False)
    c.prove("h_default", lambda s, a, r: [("empty", kgoal(r, []))], contracts=K, cex=False)
    c.prove("h_hash", lambda s, a, r: [("itself", same_bytes(hbytes(r), hbytes(a[0])))])
    c.prove("h_new", lambda s, a, r: [("the bytes", same_bytes(list(vecval(s, r[0])), hbytes(a[0])))])
    ube = lambda v: HS.be(HS.limbs(v))
    for op in ("h_u", "h_ur"): c.prove(op, lambda s, a, r: [("big-endian bytes", same_bytes(hbytes(r), ube(a[0])))])
    L4 = lambda nm: (tuple(X.var("%s_%d" % (nm, i), 64) for i in range(4)),)
    F4 = lambda nm: (L4(nm), ())
    c.prove("h_fe", lambda s, a, r: [("big-endian bytes of the Montgomery form", same_bytes(hbytes(r), ube(L4("f"))))], argf=lambda env, ats: [F4("f")], pre=lambda f: [X.ult(HS.limbs(f[0]), X.c(PRIME, 256))])
    # for canonical elements, as just proved, without repeating its assertion
    K2 = K + [(r"PrimeField::<zkp_primefield::(proth_field::)?Proth>::as_montgomery$", lambda ex, st, i, a: Ptr(a[0].cell, a[0].path + (0,), None))]
    def lists(op, mk, hs, ns):
        def one(n):
            es = ["e%d" % i for i in range(n)]
            return Prove(op, lambda s, a, r: [("hash", same_or(r, [hs(e) for e in es]))], argf=lambda env, ats: [env.vals.vec([mk(e) for e in es])], contracts=K2, name="%d elements" % n, cex=False)
        c.many("%s: lists of any elements" % op, [one(n) for n in ns])
    def same_or(r, hs, inner=()):
        if len(hs) == 1:
            g = same_bytes(hbytes(r), hs[0])
            for q in inner:
                for k in HS.congruence("keccak256", q): g = X.bor(X.bnot(k), g)
            return g
        return kgoal(r, [b for h in hs for b in h], inner)
    N = list(range(0, 9)) + [16, 33]
    for op in ("h_vfe", "h_sfe"): lists(op, F4, lambda e: ube(L4(e)), N)
    lists("h_vu", L4, lambda e: ube(L4(e)), N)
    lists("h_vh", lambda e: (tuple(B(e, 32)),), lambda e: B(e, 32), N)
    def nested(w, n):
        es = ["e%d" % i for i in range(n)]
        rows = [[ube(L4(e)) for e in es[i:i + w]] for i in range(0, n, w)]
        def post(s, a, r): return [("hash", same_or(r, [lhash(q) for q in rows], [[b for h in q for b in h] for q in rows if len(q) != 1]))]
        return Prove("h_vv", post, argf=lambda env, ats: [u(w), env.vals.vec([L4(e) for e in es])], contracts=K, name="%d elements in rows of %d" % (n, w), cex=False)
    c.many("h_vv: rows of any elements", [nested(w, n) for w in (1, 2, 3) for n in (0, 1, 2, 3, 4, 5, 6, 7)])
    c.prove("h_eq", lambda s, a, r: [("bytewise", X.eq(r, same_bytes(hbytes(a[0]), hbytes(a[1]))))])
    h2 = lambda nm: (tuple(B(nm, 32)),)
    def nodep(s, a, r): return [("masked digest of left then right", kgoal(r, B("l", 32) + B("r", 32)))]
    c.prove("m_root", nodep, inst=r"node::Node<?.*>? as zkp_hash::Hashable>::hash$", argf=lambda env, ats: [env.vals.ref((env.vals.ref(h2("l")), env.vals.ref(h2("r"))))], contracts=K, name="hash of an inner node", cex=False)
def subsets(n): return [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]
def U_(nm): return X.var(nm, 256)
def W4(e): return (tuple(X.extract(e, 64 * j, 64) for j in range(4)),)
def troot(ls):
    while len(ls) > 1: ls = [HS.node(a, b) for a, b in zip(ls[::2], ls[1::2])]
    return ls[0]
def m02(c):
    def tree_ops(n, skip, idxs):
        L = [U_("L%d" % i) for i in range(n)]
        T = [HS.leaf(l) for l in L]
        lv = env_leaves = lambda env: env.vals.vec([W4(x) for x in L])
        def okv(r):
            if not isinstance(r, En): raise Unsupported("result")
            return r.v == 0
        def root(s, a, r):
            if not okv(r): return [("accepted", X.FALSE)]
            return [("size", X.eq(r.f[0][0], u(n))), ("root", HS.eq(HS.term(None, s, r.f[0][1]), troot(T)))]
        subs = [Prove("m_root_skip", root, argf=lambda env, ats: [lv(env), u(skip)], contracts=HS.contracts(), feasible=True, cex=False, name="root")]
        if skip == 1: subs.append(Prove("m_root", root, argf=lambda env, ats: [lv(env)], contracts=HS.contracts(), feasible=True, cex=False, name="commit"))
        levels = [T]
        while len(levels[-1]) > 1: levels.append([HS.node(a, b) for a, b in zip(levels[-1][::2], levels[-1][1::2])])
        def nodes(s, a, r):
            if not okv(r): return [("accepted", X.FALSE)]
            vs, want = vecval(s, r.f[0]), [h for l in levels for h in l]
            if len(vs) != len(want): return [("number of nodes", X.FALSE)]
            return [("node %d" % i, HS.eq(HS.term(None, s, v), w)) for i, (v, w) in enumerate(zip(vs, want))]
        subs.append(Prove("m_nodes", nodes, argf=lambda env, ats: [lv(env), u(skip)], contracts=HS.contracts(), feasible=True, cex=False, name="nodes"))
        def opening(idx):
            known, want, cur = None, [], sorted(set(idx))
            for l in levels[:-1]:
                s = set(cur)
                want += [l[i ^ 1] for i in cur if i ^ 1 not in s]
                cur = sorted({i >> 1 for i in cur})
            return want
        for idx in idxs:
            def post(s, a, r, idx=idx):
                if not okv(r): return [("opened", X.FALSE)]
                vs, want = vecval(s, r.f[0]), opening(idx)
                if len(vs) != len(want): return [("number of hashes", X.FALSE)]
                return [("opened", X.TRUE)] + [("hash %d" % i, HS.eq(HS.term(None, s, v), w)) for i, (v, w) in enumerate(zip(vs, want))]
            def rt(s, a, r, idx=idx): return [("the opening verifies", X.boolc(okv(r)))]
            af = lambda env, ats, idx=idx: [lv(env), u(skip), env.vals.vec([u(i) for i in idx])]
            subs.append(Prove("m_open", post, argf=af, contracts=HS.contracts(), feasible=True, cex=False, name="open %s" % idx))
            subs.append(Prove("m_rt", rt, argf=af, contracts=HS.contracts(), feasible=True, cex=False, name="round trip %s" % idx))
        for i in range(0, len(subs), 40): c.many("any %d leaves, %d skipped layers (%d of %d)" % (n, skip, i // 40 + 1, -(-len(subs) // 40)), subs[i:i + 40])
    def other(n, skip):
        """a size without a tree: 0 has the zero root, anything that is no power of two is an error"""
        def post(s, a, r):
            if not isinstance(r, En): raise Unsupported("result")
            if n: return [("an error", X.boolc(r.v == 1))]
            if r.v: return [("accepted", X.FALSE)]
            return [("size", X.eq(r.f[0][0], u(0))), ("zero root", HS.eq(HS.term(None, s, r.f[0][1]), ("c", bytes(32))))]
        return Prove("m_root_skip", post, argf=lambda env, ats: [env.vals.vec([W4(U_("L%d" % i)) for i in range(n)]), u(skip)], contracts=HS.contracts(), feasible=True, cex=False, name="%d leaves, %d skipped" % (n, skip))
    c.many("other sizes", [other(n, k) for n in (0, 3, 5, 6, 7, 9, 12) for k in (0, 1, 2)])
    for n in (1, 2, 4):
        for skip in (0, 1, 2, 3): tree_ops(n, skip, subsets(n) + ([[1, 0], [1, 1, 0]] if n > 1 else [[0, 0]]) + ([[3, 1, 3, 0]] if n == 4 else []))
    tree_ops(8, 1, subsets(8))
    tree_ops(8, 2, [[i] for i in range(8)] + [[i, j] for i in range(8) for j in range(i)])
    tree_ops(64, 2, [[0], [31, 32], [63, 0, 5], list(range(0, 64, 3)), list(range(64))])
    tree_ops(128, 1, [[127], list(range(0, 128, 5)), list(range(50, 114)), list(range(128))])
    for skip in (1, 3): tree_ops(16, skip, [[], [0], [5], [15], [0, 1], [7, 8], [0, 15], [3, 4, 11], [0, 1, 2, 3, 4, 5, 6, 7], list(range(16)), [14, 2, 14, 7]])
def m03_case(n, idx, cidx, nh, nm):
    """commitment to any n leaves; a proof for idx of any nh hashes; claims of any values at cidx"""
    L = [U_("L%d" % i) for i in range(n)]
    C = [U_("C%d" % i) for i in range(len(cidx))]
    def argf(env, ats):
        root = HS.hv(troot([HS.leaf(l) for l in L])) if n else HS.hv(("c", bytes(32)))
        return [u(n), root, env.vals.vec([u(i) for i in idx]), env.vals.vec([HS.hv(HS.given("h%d" % i)) for i in range(nh)]), env.vals.vec([u(i) for i in cidx]), env.vals.vec([W4(x) for x in C])]
    from mirv import starkpy as SP
    fits = set(idx) == set(cidx) and nh == (SP.proof_size(n, idx) if idx else 0) and all(i < n for i in idx)
    def post(s, a, r):
        if not isinstance(r, En): raise Unsupported("result")
        if r.v == 1: return [("rejected", X.TRUE)]
        return [("accepted: the proof is for these positions and has the right size", X.boolc(fits))] + [("accepted: the leaf at %d is the committed one" % i, X.eq(C[j], L[i])) for j, i in enumerate(cidx) if i < n]
    return Prove("m_verify", post, argf=argf, contracts=HS.contracts(), feasible=True, cex=False, name=nm, ends=False)
def m03(c):
    from mirv import starkpy as SP
    for n in (1, 2, 4, 8):
        subs = []
        for idx in subsets(n):
            k = SP.proof_size(n, idx) if idx else 0
            subs.append(m03_case(n, idx, idx, k, "%s" % idx))
        for i in range(0, len(subs), 32): c.many("soundness, %d leaves, opened as claimed (%d of %d)" % (n, i // 32 + 1, -(-len(subs) // 32)), subs[i:i + 32])
    c.many("soundness, 16 leaves, one or two opened", [m03_case(16, i, i, SP.proof_size(16, i), "%s" % i) for i in [[q] for q in range(16)] + [[q, q + d] for d in (1, 2, 5, 8) for q in range(16 - d)]])
    for n in (1, 2, 4):
        subs = []
        for idx in subsets(n):
            k = SP.proof_size(n, idx) if idx else 0
            for cid in subsets(n):
                if cid != idx: subs.append(m03_case(n, idx, cid, k, "%s claimed %s" % (idx, cid)))
            for q in (k - 1, k + 1):
                if q >= 0: subs.append(m03_case(n, idx, idx, q, "%s with %d hashes" % (idx, q)))
            for cid in (idx + idx[:1], idx[::-1], idx + [n], idx + [2 * n], idx + idx): subs.append(m03_case(n, idx, cid, k, "%s claimed %s" % (idx, cid)))
        for i in range(0, len(subs), 32): c.many("soundness, %d leaves, other claims (%d of %d)" % (n, i // 32 + 1, -(-len(subs) // 32)), subs[i:i + 32])
