"""Reference STARK prover (and the pieces of its protocol), written from the
documentation of zkp-stark on Python integers.  `Prover` can deviate from the
protocol at one step at a time (`adv`), staying consistent with the transcript
everywhere else, so that exactly one check of the verifier stands between the
deviation and acceptance."""
from .keccak import keccak256, masked
from .core import PF
RR = (1 << 256) % PF
RI = pow(RR, -1, PF)
GEN = 3
def root(n):
    return pow(GEN, (PF - 1) // n, PF)
def inv(x): return pow(x, -1, PF)
def be(x): return (x * RR % PF).to_bytes(32, "big")
def rev(n, i):
    b = n.bit_length() - 1
    return int(format(i, "0%db" % b)[::-1], 2) if b else 0

# ---------------------------------------------------------------- polynomials
def ev(p, x):
    r = 0
    for c in reversed(p): r = (r * x + c) % PF
    return r
def dft(a, w):
    n = len(a)
    if n == 1: return list(a)
    e, o = dft(a[::2], w * w % PF), dft(a[1::2], w * w % PF)
    r, t = [0] * n, 1
    for i in range(n // 2):
        u = t * o[i] % PF
        r[i], r[i + n // 2] = (e[i] + u) % PF, (e[i] - u) % PF
        t = t * w % PF
    return r
def interp(vals, shift=1):
    """coefficients of the polynomial with the given values at shift * w^i"""
    n = len(vals)
    k = inv(n)
    c = [x * k % PF for x in dft(vals, inv(root(n)))]
    s, si = 1, inv(shift)
    for i in range(n):
        c[i] = c[i] * s % PF
        s = s * si % PF
    return c
def coset(p, n, shift):
    """values of p at shift * w^i, i < n"""
    c, s = [], 1
    for x in p:
        c.append(x * s % PF)
        s = s * shift % PF
    return dft(c + [0] * (n - len(c)), root(n))
def lde(p, n):
    v = coset(p, n, GEN)
    return [v[rev(n, i)] for i in range(n)]

# ---------------------------------------------------------------- expressions
# ("x",) ("c",v) ("t",i,j) ("p",coeffs,a) ("q",i,d,a) ("+",a,b) ("*",a,b) ("~",a) ("i",a) ("e",a,n)
def text(e):
    t = e[0]
    if t == "x": return "x"
    if t == "c": return "c%x" % (e[1] * RR % PF)
    if t == "t": return "t%d_%d" % (e[1], e[2])
    if t == "p": return text(e[2]) + ":p" + "/".join("%x" % (c * RR % PF) for c in e[1])
    if t == "q": return text(e[3]) + ":q%d_%d" % (e[1], e[2])
    if t in "+*": return text(e[1]) + ":" + text(e[2]) + ":" + t
    if t == "e": return text(e[1]) + ":e%d" % e[2]
    return text(e[1]) + ":" + t
def untext(s):
    st = []
    for t in s.split(":"):
        k, r = t[0], t[1:]
        if k == "x": st.append(("x",))
        elif k == "c": st.append(("c", int(r, 16) * RI % PF))
        elif k == "t":
            i, j = r.split("_"); st.append(("t", int(i), int(j)))
        elif k == "p": st.append(("p", [int(c, 16) * RI % PF for c in r.split("/")], st.pop()))
        elif k == "q":
            i, d = r.split("_"); st.append(("q", int(i), int(d), st.pop()))
        elif k in "+*":
            b = st.pop(); a = st.pop(); st.append((k, a, b))
        elif k == "e": st.append(("e", st.pop(), int(r)))
        elif k in "~i": st.append((k, st.pop()))
        else: raise ValueError(t)
    assert len(st) == 1
    return st[0]
def C(v): return ("c", v % PF)
X = ("x",)
def T(i, j): return ("t", i, j)
def add(*a):
    r = a[0]
    for b in a[1:]: r = ("+", r, b)
    return r
def mul(*a):
    r = a[0]
    for b in a[1:]: r = ("*", r, b)
    return r
def sub(a, b): return ("+", a, ("~", b))
def div(a, b): return ("*", a, ("i", b))
def pw(a, n): return ("e", a, n)
class DivZero(Exception): pass
def value(e, x, tr, claims=()):
    t = e[0]
    if t == "x": return x
    if t == "c": return e[1]
    if t == "t": return tr(e[1], e[2])
    if t == "p": return ev(e[1], value(e[2], x, tr, claims))
    if t == "q": return ev(claims[e[1]], value(e[3], x, tr, claims))
    if t == "+": return (value(e[1], x, tr, claims) + value(e[2], x, tr, claims)) % PF
    if t == "*": return value(e[1], x, tr, claims) * value(e[2], x, tr, claims) % PF
    if t == "~": return -value(e[1], x, tr, claims) % PF
    if t == "i":
        v = value(e[1], x, tr, claims)
        if v == 0: raise DivZero
        return inv(v)
    if t == "e": return pow(value(e[1], x, tr, claims), e[2], PF)
def pdeg(p):
    d = len(p) - 1
    while d > 0 and p[d] == 0: d -= 1
    return d
def degree(e, xd, td):
    t = e[0]
    if t == "x": return (xd, 0)
    if t == "c": return (0, 0)
    if t == "t": return (td, 0)
    if t in "pq":
        n, d = degree(e[-1], xd, td)
        k = pdeg(e[1]) if t == "p" else e[2]
        return (k * max(n, d), k * d)
    if t == "~": return degree(e[1], xd, td)
    if t == "i":
        n, d = degree(e[1], xd, td)
        return (d, n)
    if t == "e":
        n, d = degree(e[1], xd, td)
        return (n * e[2], d * e[2])
    (an, ad), (bn, bd) = degree(e[1], xd, td), degree(e[2], xd, td)
    if t == "*": return (an + bn, ad + bd)
    return (max(an + bd, bn + ad), ad + bd)
def targs(e):
    if e[0] == "t": return {(e[1], e[2])}
    return set().union(set(), *[targs(a) for a in e[1:] if isinstance(a, tuple)])

# ---------------------------------------------------------------- transcript
class Coin:
    def seed(self, b): self.d, self.c = keccak256(b), 0
    def write(self, b): self.d, self.c = keccak256(self.d + b), 0
    def bytes(self):
        r = keccak256(self.d + b"\0" * 24 + self.c.to_bytes(8, "big"))
        self.c += 1
        return r
    def num(self): return int.from_bytes(self.bytes(), "big")
    def fe(self):
        while True:
            x = self.num() & ((1 << 252) - 1)
            if x < PF: return x * RI % PF
    def challenge(self):
        self.c += 1
        return self.d
    def indices(self, num, bits):
        q = []
        while len(q) < num:
            v = self.num()
            q += [(v >> s) & M64 & ((1 << bits) - 1) for s in (192, 128, 64, 0)]
        return sorted(q[:num])
M64 = (1 << 64) - 1
def pow_seed(seed, bits):
    return keccak256(bytes.fromhex("0123456789abcded") + seed + bytes([bits]))
def pow_work(s, nonce):
    return 256 - int.from_bytes(keccak256(s + nonce.to_bytes(8, "big")), "big").bit_length()
def pow_solve(seed, bits):
    s, n = pow_seed(seed, bits), 0
    while pow_work(s, n) < bits: n += 1
    return n

# ---------------------------------------------------------------- Merkle
def leafhash(vals):
    """vals: list of 32-byte strings"""
    return vals[0] if len(vals) == 1 else masked(b"".join(vals))
class Tree:
    def __init__(self, hashes):
        n = len(hashes)
        self.n = n
        self.h = [None] * n + list(hashes)
        for i in range(n - 1, 0, -1):
            self.h[i] = masked(self.h[2 * i] + self.h[2 * i + 1])
    def root(self): return self.h[1]
    def open(self, idx):
        level = sorted({self.n + i for i in idx})
        out = []
        while level and level[0] > 1:
            nxt, k = [], 0
            while k < len(level):
                i = level[k]
                if i % 2 == 0 and k + 1 < len(level) and level[k + 1] == i + 1:
                    k += 1
                else:
                    out.append(self.h[i ^ 1])
                nxt.append(i >> 1)
                k += 1
            level = nxt
        return out
def proof_size(n, idx):
    level, c = sorted({n + i for i in idx}), 0
    while level and level[0] > 1:
        s = set(level)
        c += sum((i ^ 1) not in s for i in level)
        level = sorted({i >> 1 for i in level})
    return c

# ---------------------------------------------------------------- prover
class Claim:
    """a statement: sizes, parameters, constraint expressions, claim polynomials"""
    def __init__(self, n, w, exprs, seed=b"", blowup=8, pow=0, queries=5, layout=(1,), claims=()):
        self.n, self.w, self.exprs, self.seed = n, w, exprs, seed
        self.blowup, self.pow, self.queries, self.layout, self.claims = blowup, pow, queries, list(layout), list(claims)
    def head(self):
        return ("%d/%d/%s/%d/%d/%d/%s" % (self.n, self.w, "x" + self.seed.hex(), self.blowup, self.pow, self.queries, "_".join(map(str, self.layout)))).encode()
    def degree(self):
        return max(a - b for a, b in (degree(e, 0, 1) for e in self.exprs))
    def epow(self):
        d = self.degree()
        return 1 << max(0, (d - 1).bit_length())
    def combined(self, co):
        target = self.degree() * self.n - 1
        out = []
        for e, lo, hi in zip(self.exprs, co[::2], co[1::2]):
            nu, de = degree(e, 1, self.n - 1)
            out.append((e, lo, hi, target + de - nu))
        return out
    def comb_value(self, co, x, tr):
        s = 0
        for e, lo, hi, adj in self.combined(co):
            s += (lo + hi * pow(x, adj, PF)) * value(e, x, tr, self.claims)
        return s % PF
    def targs(self):
        return sorted(set().union(*[targs(e) for e in self.exprs]))
    def wellformed(self):
        t = self.degree() * self.n - 1
        ok = self.degree() >= 1 and self.epow() <= self.blowup
        for e in self.exprs:
            nu, de = degree(e, 1, self.n - 1)
            ok = ok and t + de >= nu
        return ok

def prove(cl, trace, adv=None):
    """trace: rows of column values -> proof bytes"""
    adv = adv or {}
    n, w, N = cl.n, cl.w, cl.n * cl.blowup
    coin, out = Coin(), []
    coin.seed(cl.seed)
    def write(b):
        out.append(b)
        coin.write(b)
    g = root(n)
    tp = [interp([trace[i][j] for i in range(n)]) for j in range(w)]
    tl = [lde(p, N) for p in tp]
    th = [leafhash([be(c[i]) for c in tl]) for i in range(N)]
    if "trace_cell" in adv:
        # one leaf of the committed trace is another one
        i = adv["trace_cell"]
        tlc = [[(v + 1) % PF if k == i else v for k, v in enumerate(c)] for c in tl]
        th[i] = leafhash([be(c[i]) for c in tlc])
    else: tlc = tl
    ttree = Tree(th)
    write(bad(ttree.root()) if adv.get("trace_root") else ttree.root())
    co = [coin.fe() for _ in range(2 * len(cl.exprs))]
    if adv.get("coeff"): co[adv["coeff"] - 1] = (co[adv["coeff"] - 1] + 1) % PF
    d = cl.epow()
    wv = root(n * d)
    tcos = [coset(p, n * d, GEN) for p in tp]
    vals, x = [], GEN
    for i in range(n * d):
        vals.append(cl.comb_value(co, x, lambda c, j: tcos[c][(i + d * j) % (n * d)]))
        x = x * wv % PF
    cc = interp(vals, GEN)
    ap = [cc[i::d] for i in range(d)]
    al = [lde(p, N) for p in ap]
    atree = Tree([leafhash([be(c[i]) for c in al]) for i in range(N)])
    write(bad(atree.root()) if adv.get("constraint_root") else atree.root())
    z = coin.fe()
    if adv.get("oods_point"): z = (z + 1) % PF
    args = cl.targs()
    pts = [z * pow(g, j, PF) % PF for _, j in args]
    tv = [ev(tp[c], p) for (c, _), p in zip(args, pts)]
    if "trace_value" in adv:
        tv[adv["trace_value"] % len(tv)] += 1
    zd = pow(z, d, PF)
    av = [ev(p, zd) for p in ap]
    if "constraint_value" in adv: av[adv["constraint_value"] % len(av)] += 1
    if adv.get("fit_oods"):
        # adjust the first constraint value so that the out-of-domain equation holds
        m = {a: v % PF for a, v in zip(args, tv)}
        want = cl.comb_value(co, z, lambda c, j: m[(c, j)])
        have = sum(pow(z, i, PF) * v for i, v in enumerate(av)) % PF
        k = adv["fit_oods"] % len(av)
        av[k] = (av[k] + (want - have) * inv(pow(z, k, PF))) % PF
    for v in tv + av: write(be(v % PF))
    oc = [coin.fe() for _ in range(len(tv) + len(av))]
    # combined polynomial, evaluated pointwise so that deviations need not be polynomials
    L, xs = [0] * N, coset([0, 1], N, GEN)
    xr = [xs[rev(N, i)] for i in range(N)]
    for (c, _), p, v, k in zip(args, pts, tv, oc):
        for i in range(N): L[i] = (L[i] + k * (tl[c][i] - v) * inv(xr[i] - p)) % PF
    for a, v, k in zip(al, av, oc[len(tv):]):
        for i in range(N): L[i] = (L[i] + k * (a[i] - v) * inv(xr[i] - zd)) % PF
    layer, size = L, N
    trees, layers = [], []
    for li, red in enumerate(cl.layout):
        cs = 1 << red
        if adv.get("layer_poly") == li + 1:
            # an unrelated low-degree layer
            q = [7 + i for i in range(max(1, size // cl.blowup))]
            layer = [coset(q, size, 1)[rev(size, i)] for i in range(size)]
        com = layer
        if "layer_cell" in adv and adv["layer_cell"][0] == li + 1:
            # one committed value differs; the next layer is folded from the original values
            com = list(layer)
            com[adv["layer_cell"][1]] = (com[adv["layer_cell"][1]] + 1) % PF
        t = Tree([leafhash([be(com[i * cs + j]) for j in range(cs)]) for i in range(size // cs)])
        trees.append((t, cs))
        layers.append(com)
        write(bad(t.root()) if adv.get("fri_root") == li + 1 else t.root())
        c = coin.fe()
        if adv.get("fold") == li + 1: c = (c + 1) % PF
        for _ in range(red):
            wi = inv(root(size))
            pw_ = [pow(wi, rev(size // 2, i), PF) for i in range(size // 2)]
            layer = [((layer[2 * i] + layer[2 * i + 1]) + c * pw_[i] * (layer[2 * i] - layer[2 * i + 1])) % PF for i in range(size // 2)]
            size //= 2
            c = c * c % PF
    m = size // cl.blowup
    # the first m entries (bit reversed) are the values on the subgroup of order m
    last = interp([layer[rev(m, i)] for i in range(m)])
    if "last" in adv: last[adv["last"] % m] = (last[adv["last"] % m] + 1) % PF
    if "last_agree" in adv:
        # a wrong final polynomial that agrees with the folded values at the given positions
        xs, z_ = [pow(root(size), rev(size, i), PF) for i in adv["last_agree"]], [5]
        for x in xs: z_ = [((z_[i - 1] if i else 0) - x * (z_[i] if i < len(z_) else 0)) % PF for i in range(len(z_) + 1)]
        assert len(z_) <= m
        for i, v in enumerate(z_): last[i] = (last[i] + v) % PF
    write(b"".join(be(v) for v in last))
    ch = coin.challenge()
    nonce = pow_solve(ch, cl.pow)
    if "pow" in adv:
        s = pow_seed(ch, cl.pow)
        # least nonce whose work is exactly the given number of bits below the difficulty
        nonce = next(k for k in range(1 << 20) if pow_work(s, k) == cl.pow - adv["pow"])
    if "pow_bits" in adv: nonce = pow_solve(ch, adv["pow_bits"])
    if "nonce" in adv: nonce = adv["nonce"]
    if "grind" in adv:
        # nonce for which the sorted positions in the last layer satisfy the predicate
        keep, sh = coin.d, sum(cl.layout)
        nonce = 0
        while True:
            coin.d, coin.c = keep, 0
            coin.write(nonce.to_bytes(8, "big"))
            qs = coin.indices(cl.queries, N.bit_length() - 1)
            if adv["grind"](qs if adv.get("raw") else sorted({i >> sh for i in qs})): break
            nonce += 1
            if nonce > 60000: return None
        coin.d, coin.c = keep, 0
    write(nonce.to_bytes(8, "big"))
    q = coin.indices(cl.queries, N.bit_length() - 1)
    if adv.get("positions"): q = sorted(adv["positions"](list(q), N))
    if adv.get("query"): q = sorted((i + 1) % N if k == 0 else i for k, i in enumerate(q))
    for (t, cols) in ((ttree, tlc), (atree, al)):
        for i in q:
            for c in cols:
                v = c[i]
                out.append(be(v))
        # the transcript absorbs the values too, but no challenge is drawn after this point
        out.extend(t.open(q))
    prev = q
    for (t, cs), layer in zip(trees, layers):
        new = sorted({i // cs for i in prev})
        ps = set(prev)
        for i in new:
            for j in range(cs):
                if i * cs + j not in ps: out.append(be(layer[i * cs + j]))
        out.extend(t.open(new))
        prev = new
    return b"".join(out)
def nonce_offset(cl):
    """position of the proof-of-work nonce in a proof"""
    m = cl.n >> sum(cl.layout)
    return 32 * (2 + len(cl.targs()) + cl.epow() + len(cl.layout) + m)
def bad(h): return bytes([h[0] ^ 1]) + h[1:]
