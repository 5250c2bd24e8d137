"""Symbolic hash layer.  A Hash of a proof is Opq("hash", term): a leaf value
("l", 256-bit expression), an inner node ("n", left, right) or a given value
("v", name).  Node hashing is a free constructor, i.e. collision-free (the
property's own cryptographic assumption); that `Node::hash` and the hashing of
values are the masked Keccak of the concatenated bytes is proved in H01."""
from . import expr as X
from .exe import Opq, Unsupported, deref
H = r"zkp_hash::(hash::)?Hash"
def hv(t): return Opq("hash", t)
def leaf(e): return ("l", e)
def given(n): return ("v", n)
def node(a, b): return ("n", a, b)
def eq(a, b):
    if a == b: return X.TRUE
    if a[0] == b[0] == "n": return X.band(eq(a[1], b[1]), eq(a[2], b[2]))
    if a[0] == b[0] == "l": return X.eq(a[1], b[1])
    if a[0] == b[0] == "c": return X.FALSE
    a, b = sorted((repr(a), repr(b)))
    return X.var("same:%s=%s" % (a, b), 0)
def term(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, Opq) and v.kind == "hash": return v.x
    w = v
    while isinstance(w, tuple) and len(w) == 1: w = w[0]
    if isinstance(w, tuple) and len(w) == 32:
        if all(e.const for e in w): return ("c", bytes(e.val for e in w))
    raise Unsupported("hash %r" % (v,))
def limbs(v):
    while isinstance(v, tuple) and len(v) == 1: v = v[0]
    return X.concat(list(v))
def contracts():
    def nodeh(ex, st, i, a):
        n = deref(ex, st, a[0])
        return hv(node(term(ex, st, n[0]), term(ex, st, n[1])))
    def uh(ex, st, i, a):
        v = deref(ex, st, a[0])
        return hv(leaf(limbs(v)))
    return [(r"^<(zkp_merkle_tree::)?(node::)?Node<?.*>? as zkp_hash::Hashable>::hash$", nodeh), (r"^<zkp_u256::U256 as zkp_hash::Hashable>::hash$", uh),
            (r"^<%s as std::clone::Clone>::clone$" % H, lambda ex, st, i, a: hv(term(ex, st, a[0]))),
            (r"^<%s as std::cmp::PartialEq>::eq$" % H, lambda ex, st, i, a: eq(term(ex, st, a[0]), term(ex, st, a[1]))),
            (r"^<%s as std::cmp::PartialEq>::ne$" % H, lambda ex, st, i, a: X.bnot(eq(term(ex, st, a[0]), term(ex, st, a[1])))),
            (r"^<%s as std::default::Default>::default$" % H, lambda ex, st, i, a: hv(("c", bytes(32))))]

# ---- Keccak / SHA-3 as an uninterpreted digest of the list of bytes fed to it
DIGESTS = {}
def digest(fn, parts, n=32):
    """n bytes; the same function of the same bytes gives the same symbols"""
    k = (fn, tuple(parts), n)
    r = DIGESTS.get(k)
    if r is None:
        import hashlib
        h = hashlib.sha1(repr(k).encode()).hexdigest()[:12]
        r = DIGESTS[k] = [X.var("%s_%s_%d" % (fn, h, i), 8) for i in range(n)]
    return r
def congruence(fn, parts, n=32):
    """for every digest seen so far: equal inputs have equal digests"""
    mine = digest(fn, parts, n)
    out = []
    for (f, q, m), v in list(DIGESTS.items()):
        if f != fn or m != n or len(q) != len(parts) or v is mine: continue
        same = X.TRUE
        for a, b in zip(q, parts): same = X.band(same, X.eq(a, b) if isinstance(a, X.E) and isinstance(b, X.E) else X.boolc(a == b))
        e = X.TRUE
        for a, b in zip(v, mine): e = X.band(e, X.eq(a, b))
        out.append(X.bor(X.bnot(same), e))
    return out
def state(fn, parts=()): return Opq("hasher", (fn, tuple(parts)))
def keccak_contracts():
    K = r"tiny_keccak::(keccak::Keccak|sha3::Sha3)"
    def new(ex, st, i, a): return state("keccak256" if "keccak::Keccak" in i["name"] else "sha3_256")
    def upd(ex, st, i, a):
        h, p = deref(ex, st, a[0]), a[1]
        if not (isinstance(h, Opq) and h.kind == "hasher"): raise Unsupported("hasher %r" % (h,))
        n = ex.idx_const(p.meta)
        more = tuple(ex.load_slice(st, p)) if n is not None else (("bytes", p.cell, p.path, p.meta),)
        ex.store(st, a[0], state(h.x[0], h.x[1] + more))
        return ()
    def fin(ex, st, i, a):
        h, p = deref(ex, st, a[0]), a[1]
        n = ex.idx_const(p.meta)
        if n is None: raise Unsupported("digest into a slice of symbolic length")
        if n != 32: raise Unsupported("digest of %d bytes" % n)
        for j, b in enumerate(digest(h.x[0], h.x[1], n)): ex.store(st, ex.index_ptr(p, j) if hasattr(ex, "index_ptr") else ex.offset_ptr(p, j), b)
        return ()
    return [(r"^%s::v256$" % K, new), (r"^<%s as tiny_keccak::Hasher>::update$" % K, upd), (r"^<%s as tiny_keccak::Hasher>::finalize$" % K, fin),
            (r"^<%s as std::clone::Clone>::clone$" % K, lambda ex, st, i, a: deref(ex, st, a[0]))]
def masked(parts):
    """the bytes of the masked digest: the first 20, then zeros"""
    return digest("keccak256", parts)[:20] + [X.c(0, 8)] * 12
def be(e): return [X.extract(e, 8 * (31 - i), 8) for i in range(32)]
