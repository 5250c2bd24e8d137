"""H01, M01-M03: hashing and Merkle trees.  Oracle: Keccak and trees written
in Python (mirv/keccak.py, mirv/starkpy.py)."""
from mirv.core import *
from mirv import expr as X
from mirv import starkpy as SP
from mirv.keccak import masked
from checks.field import gfe

class Hs(bytes):
    """32-byte hash"""
def be32(x): return int(x).to_bytes(32, "big")
def gbytes(r, n=None):
    if n is None: n = r.choice([0, 1, 31, 32, 33, 64, 135, 136, 137, 271, 272, 273, r.randrange(600)])
    return bytes(r.getrandbits(8) for _ in range(n)) if r.randrange(4) else bytes([r.choice([0, 255, 1])]) * n
def ghash(r): return gbytes(r, 32)
def lst(g, r, sizes=(0, 1, 1, 2, 2, 3, 4, 5, 8, 17)):
    return [g(r) for _ in range(r.choice(sizes))]

def h01():
    c = Check("H01", "crypto")
    c.search("h_keccak", lambda r: [lst(gbytes, r, (0, 1, 1, 2, 3, 5))], lambda v: masked(b"".join(v)), n=250)
    c.search("h_default", gens(), lambda: masked(b""), n=1)
    for op in ("h_hash", "h_new"):
        c.search(op, gens(ghash), lambda h: h, n=60)
    for op in ("h_u", "h_ur"):
        c.search(op, gens(gu256), be32, n=200)
    mont = lambda x: SP.be(int(x))
    c.search("h_fe", gens(gfe("f")), mont, n=200)
    def listhash(hs): return hs[0] if len(hs) == 1 else masked(b"".join(hs))
    for op in ("h_vfe", "h_sfe"):
        c.search(op, lambda r: [lst(gfe("f"), r)], lambda v: listhash([mont(x) for x in v]), n=150)
    c.search("h_vu", lambda r: [lst(gu256, r)], lambda v: listhash([be32(x) for x in v]), n=150)
    def gvv(r):
        w = r.choice([1, 1, 2, 3])
        return [w, [gu256(r) for _ in range(r.choice([0, 1, 2, 3, 5]) * w + r.choice([0, 0, 1]))]]
    def ovv(w, v):
        return listhash([listhash([be32(x) for x in v[i:i + w]]) for i in range(0, len(v), w)])
    c.search("h_vv", gvv, ovv, n=150)
    c.search("h_vh", lambda r: [lst(ghash, r)], listhash, n=100)
    def pair(r):
        a = ghash(r)
        q = r.randrange(3)
        if q == 0: return [a, a]
        if q == 1:
            i = r.randrange(32)
            return [a, a[:i] + bytes([a[i] ^ (1 << r.randrange(8))]) + a[i + 1:]]
        return [a, ghash(r)]
    c.search("h_eq", pair, lambda a, b: int(a == b), n=200)
    from checks import cproofs
    cproofs.h01(c)
    return c

# ---------------------------------------------------------------- M01
def gsize(r):
    q = r.randrange(6)
    if q == 0: return 1 << r.randrange(0, 64)
    if q == 1: return r.choice([0, 3, 5, 6, 7, 12, (1 << 63) + 1, M64, 1 << 63, 1 << 62])
    return 1 << r.randrange(0, 12)
def goff(r, n):
    q = r.randrange(8)
    if q == 0: return max(0, n - 1)
    if q == 1: return min(M64, n)
    if q == 2: return 0
    if q == 3: return r.getrandbits(64)
    return r.randrange(max(1, n))
def pow2(n): return n > 0 and n & (n - 1) == 0
def node(size, off):
    """number in the path representation, or None"""
    return size | off if pow2(size) and off < size else None
def m01():
    c = Check("M01", "crypto")
    def one(r):
        n = gsize(r)
        return [n, goff(r, n)]
    D = lambda i: i.bit_length() - 1
    def big(i): return i >> 63          # beyond depth 62 the number of a neighbour or child may not fit
    def info(size, off):
        i = node(size, off)
        if i is None: return ERR
        return Ok_(((i - 1, D(i), off), (int(i == 1), int(i % 2 == 0), int(i > 1 and i % 2 == 1)), (int(off == 0), int(off == size - 1))))
    def rel(size, off):
        i = node(size, off)
        if i is None: return ERR
        return Ok_((None if i == 1 else Some((i >> 1) - 1), None if i == 1 else Some((i ^ 1) - 1),
                    None if off == 0 else Some(i - 2), None if off == size - 1 else Some(i)))
    def child(size, off):
        i = node(size, off)
        return ERR if i is None else Ok_((2 * i - 1, 2 * i))
    ok62 = lambda a: [a[0] if a[0] != 1 << 63 else 1 << 62, a[1]]
    c.search("ix", lambda r: ok62(one(r)), info, n=1200)
    c.search("ix_rel", lambda r: ok62(one(r)), rel, n=1200)
    c.search("ix_child", lambda r: ok62(one(r)), child, n=600)
    def lca(a, b):
        while a != b:
            if a > b: a >>= 1
            else: b >>= 1
        return a
    def two(r):
        n = gsize(r)
        if n == 1 << 63: n = 1 << 62
        a = goff(r, n)
        q = r.randrange(5)
        b = goff(r, n) if q > 2 else a ^ r.getrandbits(r.randrange(1, 8)) if q else a
        return [n, a, b & M64]
    def olca(n, a, b):
        a, b = node(n, a), node(n, b)
        return ERR if a is None or b is None else Ok_(lca(a, b) - 1)
    c.search("ix_lca", two, olca, n=1200)
    def anc(r):
        n = 1 << r.randrange(0, 63)
        a, b = r.randrange(n), r.randrange(n)
        if r.randrange(2): b = a ^ (r.getrandbits(r.randrange(1, 6)) % n)
        d = n.bit_length() - 1
        return [n, a, r.randrange(d + 1), b, r.choice([r.randrange(d + 1), 0, min(d, 2)])]
    c.search("ix_anc", anc, lambda n, a, ua, b, ub: Ok_(lca((n | a) >> ua, (n | b) >> ub) - 1), n=1500)
    def srt(r):
        n = gsize(r)
        k = r.choice([0, 1, 2, 3, 6])
        return [n, [goff(r, n) if r.randrange(12) == 0 else (r.randrange(n) if n else 0) for _ in range(k)] * r.choice([1, 1, 2])]
    def osrt(n, v):
        v = [node(n, x) for x in v]
        if n and not pow2(n): return ERR
        return ERR if None in v else Ok_([i - 1 for i in sorted(set(v))])
    c.search("ix_sort", srt, osrt, n=800)
    c.search("m_commit", lambda r: [gsize(r), ghash(r)], lambda n, h: Ok_((n, h)) if n == 0 or pow2(n) else ERR, n=200)
    from checks import cproofs
    cproofs.m01(c)
    return c

# ---------------------------------------------------------------- M02
def gleaves(r, maxd=6):
    q = r.randrange(10)
    if q == 0: return lst(gu256, r, (0, 3, 5, 6, 7, 12))
    n = 1 << r.randrange(maxd + 1)
    pool = [gu256(r) for _ in range(r.choice([1, 3, n]))]
    return [r.choice(pool) for _ in range(n)]
def gidx(r, n, out=0.05):
    k = r.choice([0, 1, 1, 2, 3, 4, 7, n, 2 * n])
    v = [r.randrange(max(1, n)) for _ in range(min(k, 40))]
    q = r.randrange(6)
    if q == 0: v = list(range(n))
    if q == 1 and n: v = [i for i in v for _ in range(2)]
    if q == 2: v.sort()
    if q == 3 and n > 1: v = [i ^ 1 for i in v] + v
    if q == 4 and n > 3: v = [n - 1, n - 2, 0, n // 2, n // 2 - 1]
    if r.random() < out: v = v + [r.choice([n, n + 1, M64])]
    return v
def tree(leaves): return SP.Tree([be32(x) for x in leaves])
def m02():
    c = Check("M02", "crypto")
    def oroot(leaves, skip=0):
        n = len(leaves)
        if n == 0: return Ok_((0, bytes(32)))
        if not pow2(n): return ERR
        return Ok_((n, tree(leaves).root()))
    c.search("m_root", lambda r: [gleaves(r)], oroot, n=60)
    c.search("m_root_skip", lambda r: [gleaves(r), r.randrange(9)], oroot, n=120)
    def gw(r):
        w = r.choice([1, 2, 3])
        return [w, [gu256(r) for _ in range(w << r.randrange(5))]]
    c.search("m_root_w", gw, lambda w, v: Ok_((len(v) // w, SP.Tree([SP.leafhash([be32(x) for x in v[i:i + w]]) for i in range(0, len(v), w)]).root())), n=60)
    def nodes(leaves, skip):
        n = len(leaves)
        t = tree(leaves)
        out, k = [], n
        while k >= 1:
            out += t.h[k:2 * k]
            k //= 2
        return Ok_(out)
    c.search("m_nodes", lambda r: [[gu256(r) for _ in range(1 << r.randrange(6))], r.randrange(8)], nodes, n=80)
    def go(r):
        l = gleaves(r)
        return [l, r.randrange(9), gidx(r, len(l))]
    def oopen(l, s, idx):
        n = len(l)
        if n and not pow2(n): return ERR
        if any(i >= n for i in idx): return ERR
        return Ok_(tree(l).open(idx) if n else [])
    c.search("m_open", go, oopen, n=250)
    def ort(l, s, idx):
        r = oopen(l, s, idx)
        return r if r == ERR else Ok_(())
    c.search("m_rt", go, ort, n=250)
    def gp(r):
        n = gsize(r)
        v = gidx(r, n if n < 4096 else 4096)
        if pow2(n) and n > 4096: v = [r.randrange(n) for _ in v]
        return [n, v]
    def opsize(n, v):
        if n and not pow2(n): return ERR
        if any(i >= n for i in v): return ERR
        return Ok_(SP.proof_size(n, v) if v else 0)
    c.search("m_psize", gp, opsize, n=600)
    from checks import cproofs
    cproofs.m02(c)
    return c

# ---------------------------------------------------------------- M03
def accepts(n, root, idx, hashes, cidx, cleaf):
    """the specification: acceptance means the claimed leaves at exactly the opened
    positions, with the hashes as siblings, hash to the root"""
    if n and not pow2(n): return False
    if any(i >= n for i in idx + cidx): return False
    if len(hashes) != (SP.proof_size(n, idx) if idx else 0): return False
    if set(cidx) != set(idx): return False
    have = {}
    for i, l in zip(cidx, cleaf):
        if have.setdefault(n + i, be32(l)) != be32(l): return False
    if not have: return True
    hs, level = list(hashes), have
    while 1 not in level:
        nxt = {}
        for i in sorted(level):
            if i // 2 in nxt: continue
            if i ^ 1 in level: a, b = level[i & ~1], level[i | 1]
            else:
                s = hs.pop(0)
                a, b = (level[i], s) if i % 2 == 0 else (s, level[i])
            nxt[i // 2] = masked(a + b)
        level = nxt
    return level[1] == root
def m03():
    c = Check("M03", "crypto")
    def flip(r, b):
        i = r.randrange(32)
        return b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
    def g(r):
        n = 1 << r.randrange(0, 6)
        leaves = [gu256(r) for _ in range(n)]
        if r.randrange(4) == 0: leaves = [leaves[0]] * n
        t = tree(leaves)
        idx = gidx(r, n, out=0)[:12]
        if r.randrange(5) and not idx: idx = [r.randrange(n)]
        root, hs = t.root(), (t.open(idx) if idx else [])
        cidx = list(idx)
        if r.randrange(3) == 0: r.shuffle(cidx)
        cl = [leaves[i] for i in cidx]
        q = r.randrange(16)
        k = r.randrange(len(cl)) if cl else 0
        if q == 1 and cl: cl[k] = U(cl[k] ^ (1 << r.randrange(256)))
        elif q == 2 and cl: cidx[k] = r.randrange(n)
        elif q == 3 and cl: cidx[k] = r.choice([n, n + 1, 2 * n, M64, cidx[k] + n])
        elif q == 4 and cl: del cidx[k], cl[k]
        elif q == 5: cidx, cl = cidx + [r.randrange(n)], cl + [gu256(r)]
        elif q == 6: j = r.randrange(n); cidx, cl = cidx + [j], cl + [leaves[j]]
        elif q == 7 and hs: j = r.randrange(len(hs)); hs[j] = flip(r, hs[j])
        elif q == 8 and hs: del hs[r.randrange(len(hs))]
        elif q == 9: hs.insert(r.randrange(len(hs) + 1), ghash(r) if r.randrange(2) or not hs else r.choice(hs))
        elif q == 10 and len(hs) > 1: i, j = r.randrange(len(hs)), r.randrange(len(hs)); hs[i], hs[j] = hs[j], hs[i]
        elif q == 11: root = flip(r, root)
        elif q == 12: return [r.choice([0, n * 2, n // 2, 3, 6, 1 << 63, 1 << 62]), root, idx, hs, cidx, cl]
        elif q == 13: cidx, cl = [], []
        elif q == 14:
            # prove other positions whose proof has the same number of hashes
            cidx = [(i ^ 1) % n for i in cidx]
            if r.randrange(2): cl = [leaves[i] for i in cidx]
        elif q == 15 and cl: cidx, cl = cidx + [cidx[k]], cl + [r.choice([cl[k], U(cl[k] ^ 1)])]
        return [n, root, idx, hs, cidx, cl]
    c.search("m_verify", g, lambda *a: Ok_(()) if accepts(*a) else ERR, n=2500)
    # every single alteration of one proof, exhaustively for small trees
    def extra(nat, rng, tier):
        cases = []
        for d in range(0, 4 if tier == "quick" else 5):
            n = 1 << d
            leaves = [U(rng.getrandbits(256)) for _ in range(n)]
            t = tree(leaves)
            for mask in range(1, 1 << n):
                if n > 8 and rng.randrange(200): continue
                idx = [i for i in range(n) if mask >> i & 1]
                hs = t.open(idx)
                base = [n, t.root(), idx, hs, idx, [leaves[i] for i in idx]]
                cases.append((base, True))
                for k in range(len(idx)):
                    cases.append((base[:5] + [[U(l ^ (1 << rng.randrange(256))) if j == k else l for j, l in enumerate(base[5])]], False))
                    cases.append((base[:4] + [idx[:k] + idx[k + 1:], base[5][:k] + base[5][k + 1:]], False))
                    for j in range(n):
                        if j not in idx:
                            cases.append((base[:4] + [idx[:k] + [j] + idx[k + 1:], base[5]], False))
                            if k == 0: cases.append((base[:4] + [idx + [j], base[5] + [leaves[j]]], False))
                for k in range(len(hs)):
                    cases.append((base[:3] + [hs[:k] + [bytes([hs[k][0]]) + bytes([hs[k][1] ^ 1]) + hs[k][2:]] + hs[k + 1:]] + base[4:], False))
                    cases.append((base[:3] + [hs[:k] + hs[k + 1:]] + base[4:], False))
                cases.append((base[:3] + [hs + [hs[-1] if hs else bytes(32)]] + base[4:], False))
        res = nat.run([("m_verify", a) for a, _ in cases])
        bad = []
        for (a, ok), r in zip(cases, res):
            if r != (Ok_(()) if ok else ERR):
                bad.append(("m_verify(%s) returned %s, should %s" % (" ".join(map(show, a)), r, "accept" if ok else "reject"),
                            {"op": "m_verify", "args": [show(x) for x in a], "result": str(r)}))
        return bad, {"evaluations": len(cases), "distinct": len(cases), "samples": [],
                     "exhaustive": "all non-empty position sets of trees with up to 8 leaves, each with every single leaf, index and hash alteration"}
    c.extra = extra
    from checks import cproofs
    cproofs.m03(c)
    return c
CHECKS = {"H01": h01, "M01": m01, "M02": m02, "M03": m03}
