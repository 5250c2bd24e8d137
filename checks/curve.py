"""E01-E03: elliptic curve and signatures.  Oracle: textbook affine group law
and the ECDSA equation on Python integers (mirv/ecpy.py)."""
import hashlib
from mirv.core import *
from mirv import ecpy as EC, expr as X, loops as Lp
from mirv.field import Ring, Layer, fe, FV
from mirv.exe import Ptr, Opq, Fork, En
from mirv.group import Group, pt
from checks.field import gfe, nz

def mw(x): return "%x" % (int(x) % PF * R256 % PF)
class Pt(Raw):
    """affine point argument"""
    def __new__(cls, P):
        o = Raw.__new__(cls, "inf" if P is None else mw(P[0]) + "/" + mw(P[1]))
        o.P = P
        return o
class Jc(Raw):
    """Jacobian argument standing for the point P"""
    def __new__(cls, P, z=None, x=None, y=None):
        if P is None: t = (x, y, 0)
        else: t = (P[0] * z * z, P[1] * z ** 3, z)
        o = Raw.__new__(cls, "/".join(mw(c) for c in t))
        o.P = P
        return o
def aff(r):
    """native result -> point"""
    if r is None: return None
    if isinstance(r, tuple) and len(r) == 2: return (int(r[0]), int(r[1]))
    raise ValueError
def jac(r):
    if not (isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, int) for x in r)): raise ValueError
    x, y, z = (int(c) for c in r)
    if z == 0: return None
    i = pow(z, -1, PF)
    return (x * i * i % PF, y * i ** 3 % PF)
def judged(conv, o):
    def j(args, res):
        want = o(*args)
        try: got = conv(res)
        except (ValueError, TypeError): return "bad result %r" % (res,)
        return None if got == want else "gives %r, the group law gives %r" % (got, want)
    return j

POOL = {}
def point(r):
    """points: infinity, small multiples of the generator and their negatives, random"""
    q = r.randrange(12)
    if q == 0: return None
    if q <= 4:
        k = r.randrange(1, 40)
        if k not in POOL: POOL[k] = EC.mul(k, EC.GEN)
        P = POOL[k]
    elif q <= 6:
        P = EC.lift(r.randrange(64))
    else:
        P = EC.lift(r.getrandbits(252))
    return EC.neg(P) if r.randrange(2) else P
def zed(r):
    return int(r.choice([1, 1, 2, PF - 1, r.randrange(1, 50), r.randrange(1, PF), nz("f")(r)]))
def mkj(r, P):
    if P is None:
        return Jc(None, x=r.choice([1, r.randrange(PF)]), y=r.choice([1, 0, r.randrange(PF)]))
    return Jc(P, zed(r))
def pairs(r):
    P = point(r)
    q = r.randrange(6)
    if q == 0: return P, P
    if q == 1: return P, EC.neg(P)
    if q == 2: return P, EC.add(P, P)
    if q == 3: return P, EC.neg(EC.add(P, P))
    return P, point(r)

def e01():
    c = Check("E01", "field")
    A2 = lambda r: [Pt(x) for x in pairs(r)]
    J2 = lambda r: [mkj(r, x) for x in pairs(r)]
    def JA(r):
        P, Q = pairs(r)
        return [mkj(r, P), Pt(Q)]
    A1 = lambda r: [Pt(point(r))]
    J1 = lambda r: [mkj(r, point(r))]
    oadd = lambda p, q: EC.add(p.P, q.P)
    osub = lambda p, q: EC.add(p.P, EC.neg(q.P))
    for v in "rr rv vr vv ar".split():
        n = 250 if v in ("ar", "rr") else 80
        c.search("a_add_" + v, A2, judge=judged(aff, oadd), n=n)
        c.search("a_sub_" + v, A2, judge=judged(aff, osub), n=n)
        c.search("j_add_" + v, J2, judge=judged(jac, oadd), n=n * 2)
        c.search("j_sub_" + v, J2, judge=judged(jac, osub), n=n)
    for v in "ra":
        c.search("ja_add_" + v, JA, judge=judged(jac, oadd), n=500)
    c.search("ja_sub_a", JA, judge=judged(jac, osub), n=300)
    for pre, g, cv in (("a_", A1, aff), ("j_", J1, jac)):
        for v in ("neg", "neg_a"):
            c.search(pre + v, g, judge=judged(cv, lambda p: EC.neg(p.P)), n=80)
        for v in ("dbl", "dbl_a"):
            c.search(pre + v, g, judge=judged(cv, lambda p: EC.add(p.P, p.P)), n=200)
        for v in ("zero", "default"):
            c.search(pre + v, gens(), judge=judged(cv, lambda: None), n=1)
    c.search("a_to_j", A1, judge=judged(jac, lambda p: p.P), n=80)
    c.search("ar_to_j", A1, judge=judged(jac, lambda p: p.P), n=80)
    c.search("j_to_a", J1, judge=judged(aff, lambda p: p.P), n=200)
    c.search("a_eq", A2, lambda p, q: int(p.P == q.P), n=200)
    c.search("j_eq", J2, lambda p, q: int(p.P == q.P), n=400)
    xs = lambda P, i: None if P is None else Some(FE(P[i]))
    c.search("a_x", A1, lambda p: xs(p.P, 0), n=30)
    c.search("a_y", A1, lambda p: xs(p.P, 1), n=30)
    for op in ("a_coords", "a_into"):
        c.search(op, A1, lambda p: None if p.P is None else Some((FE(p.P[0]), FE(p.P[1]))), n=30)
    def off(r):
        P = point(r)
        if P is not None and r.randrange(2):
            q = r.randrange(5)
            P = [(P[0], (P[1] + 1) % PF), ((P[0] + 1) % PF, P[1]), (0, 0), (P[1], P[0]), (int(gfe("f")(r)), int(gfe("f")(r)))][q]
        return P
    c.search("a_on_curve", lambda r: [Pt(off(r))], lambda p: int(EC.on(p.P)), n=200)
    c.search("j_on_curve", lambda r: [mkj(r, off(r))], lambda p: int(EC.on(p.P)), n=200)
    c.search("generator", gens(), judge=judged(aff, lambda: EC.GEN), n=1)
    c.search("beta", gens(), lambda: FE(EC.BETA), n=1)
    proofs(c)
    return c

# ---------------------------------------------------------------- proofs
class Gen:
    """symbolic points of one case: P any point of the curve, Q in the given relation to it"""
    def __init__(self):
        self.r = Ring(PF)
        self.L = Layer(self.r)
    def f(self, x): return x * x * x + x + EC.BETA
    def point(self, i, x=None):
        if x is None: x = self.r.sym("x%d" % i)
        y = self.r.sym("y%d" % i, nonzero=True)     # no point of order two: lemma `no 2-torsion`
        self.r.rule(y, self.f(x))
        return (x, y)
    def two(self, rel):
        """pair of points"""
        O = None
        if rel == "O,O": return O, O
        P = self.point(1)
        if rel == "O,P": return O, P
        if rel == "P,O": return P, O
        if rel == "P,P": return P, P
        if rel == "P,-P": return P, (P[0], -P[1])
        d = self.r.sym("d", nonzero=True)           # x coordinates differ
        return P, self.point(2, P[0] + d)
    def law(self, P, Q):
        if P is None: return Q
        if Q is None: return P
        if P[0].same(Q[0]):
            if not P[1].same(Q[1]): return None
            m = (3 * P[0] * P[0] + 1) / (2 * P[1])
        else: m = (Q[1] - P[1]) / (Q[0] - P[0])
        x = m * m - P[0] - Q[0]
        return (x, m * (P[0] - x) - P[1])
    def neg(self, P): return None if P is None else (P[0], -P[1])
    def aff(self, P): return En(0, ()) if P is None else En(1, (fe(P[0]), fe(P[1])))
    def jac(self, P, i):
        if P is None: return (fe(self.r.sym("X%d" % i)), fe(self.r.sym("Y%d" % i)), fe(self.r.const(0)))
        z = self.r.sym("z%d" % i, nonzero=True)
        return (fe(P[0] * z * z), fe(P[1] * z * z * z), fe(z))
    def is_aff(self, s, v, want):
        if want is None: return [("infinity", X.boolc(v.v == 0))]
        if v.v == 0: return [("a finite point", X.FALSE)]
        return [("x", self.L.eq(s, v.f[0], want[0])), ("y", self.L.eq(s, v.f[1], want[1]))]
    def is_jac(self, s, v, want):
        x, y, z = (self.L.val(a) for a in v)
        if want is None: return [("infinity", self.r.iszero(z))]
        return [("z is not zero", X.bnot(self.r.iszero(z))), ("x", self.L.eq(s, x, want[0] * z * z)), ("y", self.L.eq(s, y, want[1] * z * z * z))]
RELS = ("O,O", "O,P", "P,O", "P,P", "P,-P", "P,Q")
def no2torsion(env, v):
    """x^3 + x + BETA has no root in the field: gcd with x^p - x is constant"""
    p, b = PF, EC.BETA
    def red(a):
        a = a + [0] * (5 - len(a))
        for i in (4, 3):
            k = a[i]
            a[i] = 0
            a[i - 2] = (a[i - 2] - k) % p
            a[i - 3] = (a[i - 3] - k * b) % p
        return a[:3]
    def mul(u, w):
        r = [0] * 5
        for i in range(3):
            for j in range(3): r[i + j] = (r[i + j] + u[i] * w[j]) % p
        return red(r)
    h, base, e = [1, 0, 0], [0, 1, 0], p
    while e:
        if e & 1: h = mul(h, base)
        base = mul(base, base)
        e >>= 1
    g = [(h[0]) % p, (h[1] - 1) % p, h[2]]
    def trim(a):
        while a and a[-1] % p == 0: a.pop()
        return a
    a, q = [b, 1, 0, 1], trim(g)
    while q:
        k = pow(q[-1], -1, p)
        while len(a) >= len(q):
            f = a[-1] * k % p
            for i in range(len(q)): a[len(a) - len(q) + i] = (a[len(a) - len(q) + i] - f * q[i]) % p
            a = trim(a)
        a, q = q, a
    v.goals += 1
    if len(a) == 1:
        v.discharged += 1
        v.back["gcd"] = 1
    else: v.failed.append("no 2-torsion: sat")
def proofs(c):
    c.custom("no 2-torsion", [], no2torsion)
    def pr(op, nm, mk):
        """mk(g) -> (arguments, post)"""
        g = Gen()
        args, post = mk(g)
        c.prove(op, post, argf=lambda env, ats: list(args), contracts=g.L.contracts, feasible=True, name="%s (%s)" % (op, nm), timeout=90)
    for rel in RELS:
        for sub in (False, True):
            def w(g, P, Q, sub=sub): return g.law(P, g.neg(Q) if sub else Q)
            nm = "sub" if sub else "add"
            for v in "rr rv vr vv ar".split():
                def mk(g, rel=rel, w=w):
                    P, Q = g.two(rel)
                    return [g.aff(P), g.aff(Q)], lambda s, a, r: g.is_aff(s, r, w(g, P, Q))
                pr("a_%s_%s" % (nm, v), rel, mk)
                def mk(g, rel=rel, w=w):
                    P, Q = g.two(rel)
                    return [g.jac(P, 1), g.jac(Q, 2)], lambda s, a, r: g.is_jac(s, r, w(g, P, Q))
                pr("j_%s_%s" % (nm, v), rel, mk)
            def mk(g, rel=rel, w=w):
                P, Q = g.two(rel)
                return [g.jac(P, 1), g.aff(Q)], lambda s, a, r: g.is_jac(s, r, w(g, P, Q))
            for v in "a" if sub else "ra": pr("ja_%s_%s" % (nm, v), rel, mk)
        def same(rel): return X.boolc(rel in ("O,O", "P,P"))
        def mk(g, rel=rel):
            P, Q = g.two(rel)
            return [g.aff(P), g.aff(Q)], lambda s, a, r: [("equal", X.eq(r, same(rel)))]
        pr("a_eq", rel, mk)
        def mk(g, rel=rel):
            P, Q = g.two(rel)
            return [g.jac(P, 1), g.jac(Q, 2)], lambda s, a, r: [("equal", X.eq(r, same(rel)))]
        pr("j_eq", rel, mk)
    for nm, fin in (("O", False), ("P", True)):
        def one(op, arg, res, want):
            def mk(g):
                P = g.point(1) if fin else None
                A = g.aff(P) if arg == "a" else g.jac(P, 1)
                return [A], lambda s, a, r: (g.is_aff if res == "a" else g.is_jac)(s, r, want(g, P))
            pr(op, nm, mk)
        for k in "aj":
            for v in ("neg", "neg_a"): one("%s_%s" % (k, v), k, k, lambda g, P: g.neg(P))
            for v in ("dbl", "dbl_a"): one("%s_%s" % (k, v), k, k, lambda g, P: g.law(P, P))
        one("a_to_j", "a", "j", lambda g, P: P)
        one("ar_to_j", "a", "j", lambda g, P: P)
        one("j_to_a", "j", "a", lambda g, P: P)
        for op, i in (("a_x", 0), ("a_y", 1), ("a_coords", 2), ("a_into", 2)):
            def mk(g, i=i, fin=fin):
                P = g.point(1) if fin else None
                def post(s, a, r):
                    if not fin: return [("None", X.boolc(r.v == 0))]
                    if r.v == 0: return [("Some", X.FALSE)]
                    if i < 2: return [("coordinate", g.L.eq(s, r.f[0], P[i]))]
                    return [("x", g.L.eq(s, r.f[0][0], P[0])), ("y", g.L.eq(s, r.f[0][1], P[1]))]
                return [g.aff(P)], post
            pr(op, nm, mk)
        # membership: any pair of coordinates, on the curve or not
        def mk(g, fin=fin):
            P = (g.r.sym("x"), g.r.sym("y")) if fin else None
            return [g.aff(P)], lambda s, a, r: [("iff the equation holds", X.eq(r, g.r.iszero(P[1] * P[1] - g.f(P[0])) if fin else X.TRUE))]
        pr("a_on_curve", nm, mk)
        def mk(g, fin=fin):
            P = (g.r.sym("x"), g.r.sym("y")) if fin else None
            return [g.jac(P, 1)], lambda s, a, r: [("iff the equation holds", X.eq(r, g.r.iszero(P[1] * P[1] - g.f(P[0])) if fin else X.TRUE))]
        pr("j_on_curve", nm, mk)
    for k in "aj":
        for op in ("zero", "default"):
            pr("%s_%s" % (k, op), "", lambda g, k=k: ([], lambda s, a, r: (g.is_aff if k == "a" else g.is_jac)(s, r, None)))
    pr("generator", "", lambda g: ([], lambda s, a, r: g.is_aff(s, r, tuple(g.r.const(x) for x in EC.GEN))))
    pr("beta", "", lambda g: ([], lambda s, a, r: [("beta", g.L.eq(s, r, g.r.const(EC.BETA)))]))

# ---------------------------------------------------------------- scalars
def scal(r):
    """scalars whose signed-window recodings hit carries, digit extremes and both ends"""
    q = r.randrange(9)
    if q == 0: k = r.randrange(0, 140)
    elif q == 1: k = PS - r.randrange(1, 140)
    elif q == 2: k = (1 << r.randrange(252)) + r.randrange(-3, 4)
    elif q == 3: k = sum(r.choice([0, 1, 15, 16, 17, 31]) << (5 * i) for i in range(51))
    elif q == 4: k = sum(r.choice([0, 1, 63, 64, 65, 127]) << (7 * i) for i in range(36))
    elif q == 5:
        a, b = sorted((r.randrange(252), r.randrange(252)))
        k = (1 << (b + 1)) - (1 << a)
    elif q == 6: k = r.getrandbits(r.randrange(1, 253))
    elif q == 7: k = (PS - 1) // 2 + r.randrange(-3, 4)
    else: k = r.randrange(PS)
    return SE(k % PS)

# ---------------------------------------------------------------- E02 proofs
def mul_case(op, m):
    """scalars k with 2^m <= k < 2^(m+1) (m = -1: zero)"""
    G = Group()
    k = X.c(0, 256) if m < 0 else X.c(1, 256) if m == 0 else X.concat([X.var("k", m), X.c(1, 256 - m)])
    words = (tuple(X.extract(k, 64 * i, 64) for i in range(4)),)
    TU = (r"^zkp_primefield::PrimeField::<[\w:]*Order>::to_uint$", lambda ex, st, i, a: words)
    def post(s, a, r):
        return G.equals(r, {"P": [(1 << i, X.zext(X.extract(k, i, 1), 64)) for i in range(m)] + ([(1 << m, None)] if m >= 0 else [])}, 300)
    return Prove(op, post, argf=lambda env, ats: [pt("P"), env.vals.sym(ats[1], "k")], contracts=[TU] + G.contracts, merge=True, cex=False, feasible=None, name="2^%d <= k" % m)
def digit(nm, i, w):
    h = X.add(X.shl(X.sext(X.var("%s_h%d" % (nm, i), w - 1), 16), X.c(1, 16)), X.c(1, 16))
    return X.ite(X.var("%s_nz%d" % (nm, i), 0), h, X.c(0, 16))
def naf_case(w, t):
    """one iteration of the recoding loop from any state of its invariant whose rest is odd * 2^t (t None: zero).
    Invariant: digits below index i are 0 or odd and smaller than 2^(w-1), the others 0; the rest S is at most
    2^(252-i) (1 at i = 253); ghost: sum of digits * 2^index + S * 2^i = scalar.  The ghost part follows from
    S = 2^t * (n + 2^w * S'), i' = i + t + w and the digit n stored at index i + t."""
    i = X.var("i", 64)
    S = X.c(0, 256) if t is None else X.concat(([X.c(0, t)] if t else []) + [X.c(1, 1)] + ([X.var("hi", 253 - t - 1)] if t < 252 else []) + [X.c(0, 3)])
    W = lambda e: (tuple(X.extract(e, 64 * j, 64) for j in range(4)),)
    def flat(v):
        while isinstance(v, tuple) and len(v) == 1: v = v[0]
        return X.concat(list(v))
    def bound(i, S):
        p = X.lshr(X.c(1 << 252, 256), X.zext(i, 256))
        return X.bor(X.eq(S, X.c(0, 256)), X.bor(X.band(X.ule(i, X.c(252, 64)), X.ule(S, p)), X.band(X.eq(i, X.c(253, 64)), X.eq(S, X.c(1, 256)))))
    dg = lambda j: X.ite(X.ult(X.c(j, 64), i), digit("d", j, w), X.c(0, 16))
    def roles(vs):
        want = {"zkp_u256::U256": None, "usize": None, "[i16; 257]": None}
        for l, (ty, _) in vs.items():
            if want.get(ty, 0) is not None: raise Unsupported("loop variables %s" % sorted(x for x, _ in vs.values()))
            want[ty] = l
        if None in want.values(): raise Unsupported("loop variables %s" % sorted(x for x, _ in vs.values()))
        return [want["zkp_u256::U256"], want["usize"], want["[i16; 257]"]]
    def begin(ex, st, vs):
        s, n, d = roles(vs)
        k = st.ghost["scalar"]
        goals = [] if t is not None else [("nothing recoded yet", X.eq(flat(vs[s][1]), k)), ("index 0", X.eq(vs[n][1], X.c(0, 64))), ("bound", bound(vs[n][1], k)),
                 ("no digits", X.boolc(all(isinstance(e, E) and e.const and e.val == 0 for e in vs[d][1])))]
        return goals, {s: W(S), n: i, d: tuple(dg(j) for j in range(257))}, [bound(i, S)]
    def again(ex, st, vs):
        s, n, d = roles(vs)
        S2, i2, d2 = flat(vs[s][1]), vs[n][1], vs[d][1]
        if t is None: return [("ends at zero", X.FALSE)]
        at = X.add(i, X.c(t, 64))
        b = X.extract(S, t, w) if t + w <= 256 else X.concat([X.extract(S, t, 256 - t), X.c(0, t + w - 256)])
        n_ = X.sext(b, 16)      # the odd residue of S / 2^t modulo 2^w of least absolute value
        half = 1 << (w - 1)
        up = X.zext(X.extract(b, w - 1, 1), 256)
        goals = [("index", X.eq(i2, X.add(at, X.c(w, 64)))), ("rest", X.eq(S2, X.add(X.lshr(S, X.c(t + w, 256)), up))),
                 ("odd digit", X.eq(X.extract(n_, 0, 1), X.c(1, 1))), ("small digit", X.band(X.slt(n_, X.c(half, 16)), X.slt(X.c(-half % 65536, 16), n_))),
                 ("bound", bound(i2, S2))]
        ok = X.TRUE
        for j in range(257): ok = X.band(ok, X.eq(d2[j], X.ite(X.eq(at, X.c(j, 64)), n_, dg(j))))
        return goals + [("digit stored, others kept", ok)]
    def argf(env, ats): return [env.vals.ref(Opq("scalar", None)), X.c(w, 64)]
    k = X.zext(X.var("k", 252), 256)
    def touint(ex, st, inst, a):
        st.ghost["scalar"] = k
        return W(k)
    def setup(env, ex, args):
        ix, = [q for q, x in enumerate(env.prog.insts) if x["name"].endswith("wnaf::non_adjacent_form")]
        Lp.install(ex, ix, Lp.Cut(begin, again))
    def post(s, a, r): return [("the digits", X.boolc(len(r) == 257 and all(x is y or X.eq(x, y) is X.TRUE for x, y in zip(r, (dg(j) for j in range(257)))))), ("rest is zero", X.eq(S, X.c(0, 256)))]
    return Prove("w_mul", post, argf=argf, contracts=[(r"^zkp_primefield::PrimeField::<[\w:]*Order>::to_uint$", touint)], setup=setup, inst=r"wnaf::non_adjacent_form$",
                 name="rest %s" % ("zero" if t is None else "odd*2^%d" % t), cex=False, feasible=True, ends=t is None)
def e02_proofs(c):
    for w in (5, 7):
        subs = [naf_case(w, t) for t in [None] + list(range(253))]
        for i in range(0, len(subs), 64): c.many("non_adjacent_form, window %d (any scalar, %d of %d)" % (w, i // 64 + 1, -(-len(subs) // 64)), subs[i:i + 64])
    for v in "rr rv vr vv ar av".split():
        for k in "aj":
            op = "%s_mul_%s" % (k, v)
            subs = [mul_case(op, m) for m in (range(-1, 252) if v == "rr" else list(range(-1, 6)) + [64, 128, 251])]
            for i in range(0, len(subs), 32):
                c.many("%s (any point, scalars %d of %d)" % (op, i // 32 + 1, -(-len(subs) // 32)), subs[i:i + 32])
    # signed digit expansions, over the contract of the recoding: digits 0 or odd below 2^(w-1) with sum d_i 2^i = k
    def wn(op, spec):
        G = Group()
        def naf(ex, st, inst, a):
            w = ex.idx_const(a[1])
            v = a[0]
            while isinstance(v, Ptr): v = ex.load(st, v)
            while isinstance(v, tuple): v = v[0]
            nm = re.match(r"\w", v.args[0] if v.op == "var" else "?").group(0)
            if w is None or not 2 <= w <= 14: raise Unsupported("window")
            used = st.ghost.get("naf", ())
            st.ghost["naf"] = used + ((nm, w),)
            return tuple(digit(nm, i, w) for i in range(257))
        NAF = (r"wnaf::non_adjacent_form$", naf)
        def post(s, a, r):
            d = dict(s.ghost.get("naf", ()))
            if set(d) != {k for k, _ in spec}: raise Unsupported("recodes %s" % (d,))
            return G.equals(r, {P: [(1 << i, X.sext(digit(k, i, d[k]), 64)) for i in range(257)] for k, P in spec}, 300)
        def argf(env, ats):
            out = []
            for j, (k, P) in enumerate(spec): out += [pt(P), env.vals.sym(ats[2 * j + 1], k)]
            return out
        c.prove(op, post, argf=argf, contracts=[NAF] + G.contracts, merge=True, cex=False, feasible=None, name="%s (any points, any digits)" % op, timeout=120)
    wn("w_mul", [("k", "P")])
    wn("w_base", [("k", "P")])
    wn("w_dmul", [("k", "P"), ("l", "Q")])
    wn("w_dbase", [("k", "P"), ("l", "Q")])
    # the batch conversion: same points, entries at infinity in any place
    allz = lambda n: ["".join(str(i) for i in range(n) if m >> i & 1) for m in range(1 << n)]
    for n in (1, 2, 3, 8):
        def bc(z, n=n):
            r = Ring(PF)
            L = Layer(r)
            js = []
            for i in range(n):
                Z = r.const(0) if str(i) in z else r.sym("z%d" % i, nonzero=True)
                js.append((r.sym("x%d" % i), r.sym("y%d" % i), Z))
            def argf(env, ats):
                ins = env.vals.slice([tuple(fe(v) for v in j) for j in js])
                out = env.vals.slice([En(0, ()) for _ in js])
                return [ins, out]
            def post(s, a, res):
                g = []
                for i, (x, y, Z) in enumerate(js):
                    v = s.cells[a[1].cell][i]
                    if str(i) in z: g.append(("%d at infinity" % i, X.boolc(v.v == 0)))
                    elif v.v == 0: g.append(("%d finite" % i, X.FALSE))
                    else: g += [("x%d" % i, L.eq(s, v.f[0], x / (Z * Z))), ("y%d" % i, L.eq(s, v.f[1], y / (Z * Z * Z)))]
                return g
            return Prove("w_dbase", post, argf=argf, inst=r"wnaf::batch_convert$", contracts=L.contracts, feasible=True, cex=False, name="batch_convert of %d%s" % (n, " with infinity at " + z if z else ""))
        c.many("batch_convert of %d (any points, infinity at any places)" % n, [bc(z) for z in allz(n)])
    for n in (1, 2, 8, 32):
        G = Group()
        def post(s, a, r, n=n, G=G):
            out = vecval(s, r)
            return [("length", X.boolc(len(out) == n))] + [("%d: %s" % (i, q[0]), q[1]) for i, e in enumerate(out) for q in G.equals(e, {"P": [(2 * i + 1, None)]}, 300)]
        c.prove("w_table", post, argf=lambda env, ats, n=n: [pt("P"), X.c(n, 64)], contracts=G.contracts, name="window_table of %d" % n, feasible=True, cex=False)
def e02():
    c = Check("E02", "field")
    o1 = lambda p, k: EC.mul(int(k), p.P)
    A1 = lambda r: [Pt(point(r)), scal(r)]
    J1 = lambda r: [mkj(r, point(r)), scal(r)]
    for v in "rr rv vr vv ar av".split():
        c.search("a_mul_" + v, A1, judge=judged(aff, o1), n=60 if v == "rr" else 15)
        c.search("j_mul_" + v, J1, judge=judged(jac, o1), n=120 if v == "rr" else 15)
    small = [SE(i) for i in range(70)] + [SE(PS - i) for i in range(1, 40)]
    fx = [[Pt(EC.GEN), k] for k in small] + [[Pt(None), k] for k in small[:8]]
    c.search("w_mul", A1, judge=judged(jac, o1), n=250, fixed=fx)
    c.search("w_base", A1, judge=judged(jac, o1), n=250, fixed=fx)
    def D(r):
        P, Q = pairs(r)
        k, l = scal(r), scal(r)
        q = r.randrange(6)
        if q == 0: l = k
        if q == 1: l = SE(-k % PS)
        if q == 2: k, l = SE(r.randrange(40)), SE(r.randrange(40))
        return [Pt(P), k, Pt(Q), l]
    o2 = lambda p, k, q, l: EC.add(EC.mul(int(k), p.P), EC.mul(int(l), q.P))
    c.search("w_dmul", D, judge=judged(jac, o2), n=200)
    c.search("w_dbase", D, judge=judged(jac, o2), n=200)
    def tab(args, res):
        P, n = args[0].P, args[1]
        want = [EC.mul(2 * i + 1, P) for i in range(n)]
        try: got = [aff(x) for x in res]
        except (ValueError, TypeError): return "bad result"
        return None if got == want else "table entry differs from the odd multiple"
    e02_proofs(c)
    c.search("w_table", lambda r: [Pt(point(r)), r.randrange(1, 40)], judge=tab, n=25)
    return c

# ---------------------------------------------------------------- ECDSA
def b32(x): return int(x).to_bytes(32, "big")
def nonce(k, d, i):
    return int.from_bytes(hashlib.sha3_256(b32(k) + b32(d) + b32(i)).digest(), "big") % PS
def ecdsa_ok(P, d, r, w):
    Q = EC.add(EC.mul(int(d) * int(w), EC.GEN), EC.mul(int(r) * int(w), P))
    return Q is not None and Q[0] % PS == int(r)
def e_sign(k, d):
    for i in range(1000):
        n = nonce(k, d, i)
        if n == 0: continue
        r = EC.mul(n, EC.GEN)[0] % PS
        if r == 0: continue
        s = (r * int(k) + int(d)) % PS
        if s == 0: continue
        return r, n * pow(s, -1, PS) % PS
# ---------------------------------------------------------------- E03 proofs
def e03_layer():
    """scalars as polynomials over F_n; curve multiples and x coordinates opaque, over the contracts of E01/E02/F05"""
    g = Ring(PS)
    L = Layer(g, "Order")
    def tab(ex, st, inst, a): return Ptr(ex.newcell(st, (Opq("table", None),)), (0,), X.c(32, 64))
    def cell(ex, st, a):
        while isinstance(a, Ptr) and a.meta is None: a = ex.load(st, a)
        return a
    def istab(ex, st, a):
        a = cell(ex, st, a)
        if isinstance(a, Ptr): a = ex.load(st, Ptr(a.cell, ()))
        while isinstance(a, tuple) and a: a = a[0]
        return isinstance(a, Opq) and a.kind == "table"
    def mul(ex, st, k, P=None, l=None):
        n = st.ghost.get("muls", 0)
        st.ghost["muls"] = n + 1
        st.ghost["mul%d" % n] = (k, P, l)
        return Opq("cp", n)
    def base(ex, st, inst, a):
        if not istab(ex, st, a[0]): raise Unsupported("another table")
        return mul(ex, st, L.get(ex, st, a[1]))
    def dbase(ex, st, inst, a):
        if not istab(ex, st, a[0]): raise Unsupported("another table")
        P = cell(ex, st, a[2])
        if not (isinstance(P, Opq) and P.kind == "key"): raise Unsupported("another point")
        return mul(ex, st, L.get(ex, st, a[1]), P.x, L.get(ex, st, a[3]))
    def conv(ex, st, inst, a):
        p = cell(ex, st, a[0])
        if not (isinstance(p, Opq) and p.kind == "cp"): return NotImplemented
        i = X.var("infinity%d" % p.x, 0)
        return Fork([(i, En(0, ())), (X.bnot(i), En(1, (Opq("xc", p.x), Opq("yc", p.x))))])
    xs = {}
    def uint(ex, st, inst, a):
        v = cell(ex, st, a[0])
        if not (isinstance(v, Opq) and v.kind == "xc"): return NotImplemented
        return Opq("xu", v.x)
    def xr(n):
        if n not in xs: xs[n] = g.sym("x%d" % n)
        return xs[n]
    def fromu(ex, st, inst, a):
        v = cell(ex, st, a[0])
        if isinstance(v, Opq) and v.kind == "su": return fe(v.x)
        if not (isinstance(v, Opq) and v.kind == "xu"): return NotImplemented
        return fe(xr(v.x))
    def suint(ex, st, inst, a):
        """the canonical integer of a scalar"""
        return Opq("su", L.get(ex, st, a[0]))
    def ueq(ex, st, inst, a):
        """equality of integers: two scalars' integers agree when the scalars do; an x coordinate may be equal to a scalar modulo n without being equal to its integer"""
        u, v = cell(ex, st, a[0]), cell(ex, st, a[1])
        if not all(isinstance(t, Opq) and t.kind in ("su", "xu") for t in (u, v)): return NotImplemented
        if u.kind == v.kind == "su": r = g.iszero(u.x - v.x)
        elif u.kind == v.kind: r = X.TRUE if u.x == v.x else X.var("same%d.%d" % (u.x, v.x), 0)
        else:
            if u.kind == "xu": u, v = v, u
            r = X.band(X.var("x%d below the order" % v.x, 0), g.iszero(xr(v.x) - u.x))
        return X.bnot(r) if inst.name.endswith("ne") else r
    AF, JA = "zkp_elliptic_curve::(curve::)?Affine", "zkp_elliptic_curve::(jacobian::)?Jacobian"
    SC = r"zkp_primefield::PrimeField<[\w:]*Order>"
    C = [(r"GENERATOR_TABLE as std::ops::Deref>::deref$", tab), (r"wnaf::base_mul$|^zkp_elliptic_curve::base_mul$", base), (r"double_base_mul$", dbase),
         (r"^<%s as std::convert::From<&?%s>>::from$|<impl std::convert::From<&?%s> for %s>::from$" % (AF, JA, JA, AF), conv), (r"^zkp_primefield::PrimeField::<[\w:]*Proth>::to_uint$", uint),
         (r"<impl std::convert::From<&?zkp_primefield::PrimeField<[\w:]*Proth>> for zkp_u256::U256>::from$|^<zkp_u256::U256 as std::convert::From<&?zkp_primefield::PrimeField<[\w:]*Proth>>>::from$", uint),
         (r"^<%s as std::convert::From<zkp_u256::U256>>::from$|<impl std::convert::From<zkp_u256::U256> for %s>::from$" % (SC, SC), fromu), (r"^zkp_primefield::PrimeField::<[\w:]*Order>::from_uint_reduce$", fromu),
         (r"^zkp_primefield::PrimeField::<[\w:]*Order>::to_uint$", suint), (r"^<zkp_u256::U256 as std::cmp::PartialEq>::(eq|ne)$|<impl std::cmp::PartialEq for zkp_u256::U256>::(eq|ne)$|^std::cmp::impls::<impl std::cmp::PartialEq<&zkp_u256::U256> for &zkp_u256::U256>::(eq|ne)$", ueq),
         (r"Affine::is_on_curve$", lambda ex, st, i, a: X.TRUE),
         (r"<%s as std::clone::Clone>::clone$" % AF, lambda ex, st, i, a: cell(ex, st, a[0]))] + L.contracts
    return g, L, C, xr
def e03_proofs(c):
    g, L, C, xr = e03_layer()
    d, r, w = g.sym("digest"), g.sym("r", nonzero=True), g.sym("w", nonzero=True)
    def post(s, a, res, g=g, L=L, xr=xr):
        if s.ghost.get("muls") != 1: raise Unsupported("not one double multiplication")
        k, P, l = s.ghost["mul0"]
        if P is None: raise Unsupported("not a double multiplication")
        inf = X.var("infinity0", 0)
        return [("generator times digest*w", L.eq(s, k, d * w)), ("key times r*w", L.eq(s, l, r * w)),
                ("accepts exactly when the x coordinate reduces to r", X.eq(res, X.band(X.bnot(inf), g.iszero(xr(0) - r))))]
    c.prove("ec_verify", post, argf=lambda env, ats: [Opq("key", "Q"), fe(d), fe(r), fe(w)], contracts=C, feasible=True, cex=False, name="verify (any key on the curve, digest, non-zero r and w)")
    g, L, C, xr = e03_layer()
    key, dd = g.sym("key"), g.sym("digest")
    ks = {}
    def hash_(ex, st, inst, a, g=g, L=L):
        n = a[2]
        if not (isinstance(n, E) and n.const): raise Unsupported("nonce")
        x = a[0]
        while isinstance(x, Ptr): x = ex.load(st, x)
        if isinstance(x, tuple): x = x[0]
        if not (L.val(x).same(key) and L.get(ex, st, a[1]).same(dd)): raise Unsupported("hashes something else")
        if n.val > 2: return Fork([(X.FALSE, fe(key))])         # bound of this obligation
        if n.val not in ks: ks[n.val] = g.sym("k%d" % n.val)
        return fe(ks[n.val])
    def spost(s, a, res, g=g, L=L, xr=xr):
        n = s.ghost.get("muls", 0) - 1
        if n < 0: raise Unsupported("no multiplication")
        k = s.ghost["mul%d" % n][0]
        r, w = (L.val(x) for x in res)
        return [("r is the x coordinate of k*G", L.eq(s, r, xr(n))), ("w = k / (r*key + digest)", L.eq(s, w * (r * key + dd), k)),
                ("r is not zero", X.bnot(g.iszero(r))), ("k is not zero", X.bnot(g.iszero(k))),
                ("the verification equation: (digest + r*key)*w*G = k*G", L.eq(s, dd * w + r * w * key, k))]
    c.prove("ec_sign", spost, argf=lambda env, ats: [fe(key), fe(dd)], contracts=[(r"private_key::PrivateKey::hash$|PrivateKey::hash$", hash_)] + C, feasible=True, cex=False,
            name="sign (any key and digest; one of the first three nonces succeeds)")
    g, L, C, xr = e03_layer()
    kk = g.sym("key")
    def ppost(s, a, res, g=g, L=L):
        if s.ghost.get("muls") != 1: raise Unsupported("not one multiplication")
        k, P, l = s.ghost["mul0"]
        i = X.var("infinity0", 0)
        ok = isinstance(res, En) and ((res.v == 0) or (isinstance(res.f[0], Opq) and res.f[0].kind == "xc" and isinstance(res.f[1], Opq) and res.f[1].kind == "yc"))
        return [("key times the generator", L.eq(s, k, kk) if P is None else X.FALSE), ("returned as it is", X.boolc(ok)), ("infinity", X.eq(X.boolc(res.v == 0), i))]
    c.prove("ec_pub", ppost, argf=lambda env, ats: [fe(kk)], contracts=C, feasible=True, cex=False, name="public key (any private key)")

def e03():
    c = Check("E03", "field")
    key = lambda r: SE(scal(r))
    c.search("ec_pub", lambda r: [key(r)], judge=judged(aff, lambda k: EC.mul(int(k), EC.GEN)), n=80, fixed=[[SE(1)], [SE(0)], [SE(PS - 1)]])
    c.search("ec_pub_u", lambda r: [U(r.choice([gu256(r), key(r), PS + r.randrange(9)]))], judge=judged(aff, lambda k: EC.mul(int(k), EC.GEN)), n=60)
    def signed(args, res):
        k, d = args
        if not (isinstance(res, tuple) and all(isinstance(x, SE) for x in res)): return "no signature: %r" % (res,)
        r, w = res
        if not r or not w: return "zero component"
        if not ecdsa_ok(EC.mul(int(k), EC.GEN), d, r, w): return "the signature does not satisfy the ECDSA equation"
        return None
    nzk = lambda r: [SE(key(r) or 1), scal(r)]
    c.search("ec_sign", nzk, judge=signed, n=60)
    c.search("ec_sign", nzk, lambda k, d: tuple(SE(x) for x in e_sign(k, d)), n=25)   # deterministic nonce of key and digest
    c.search("ec_rt", nzk, lambda k, d: 1, n=60)
    def claim(r):
        """valid signatures (built here), then alterations of one component"""
        k = int(key(r)) or 1
        d = int(scal(r))
        P = EC.mul(k, EC.GEN)
        while True:
            n = int(scal(r))
            if not n: continue
            rr = EC.mul(n, EC.GEN)[0] % PS
            s = (rr * k + d) % PS
            if rr and s: break
        w = n * pow(s, -1, PS) % PS
        q = r.randrange(14)
        if q == 3: d = (d + r.choice([1, PS - 1, 1 << r.randrange(250)])) % PS
        if q == 4: rr = (rr + r.choice([1, PS - 1, 1 << r.randrange(250)])) % PS
        if q == 5: w = (w + r.choice([1, PS - 1, 1 << r.randrange(250)])) % PS
        if q == 6: w = -w % PS          # the documented malleability: still satisfies the equation
        if q == 7: rr = -rr % PS
        if q == 8: P = EC.neg(P)
        if q == 9: P = EC.add(P, EC.GEN)
        if q == 10: P = None
        if q == 11: d = 0
        if q == 12: d = -rr * k % PS    # point at infinity when w, r unchanged
        if q == 13: rr, w = w, rr
        return [Pt(P), SE(d), SE(rr or 1), SE(w or 1)]
    def high(r):
        """signatures whose point has an x coordinate of at least the group order (no discrete logarithm known: the key is derived from the point)"""
        while True:
            x = PS + r.randrange(1, r.choice([1 << 8, EC.p - PS]))
            y = EC.sqrt((x ** 3 + x + EC.BETA) % EC.p)
            if y is not None: break
        rr, d, w = x - PS, int(scal(r)), int(scal(r)) or 1
        Q = EC.mul(pow(rr * w, -1, PS), EC.add((x, y), EC.mul(-d * w % PS, EC.GEN)))
        q = r.randrange(4)
        if q == 2: rr = (rr + 1) % PS
        if q == 3: w = (w + 1) % PS
        return [Pt(Q), SE(d), SE(rr or 1), SE(w or 1)]
    c.search("ec_verify", high, lambda P, d, r, w: int(ecdsa_ok(P.P, d, r, w)), n=60)
    c.search("ec_verify", claim, lambda P, d, r, w: int(ecdsa_ok(P.P, d, r, w)), n=250)
    e03_proofs(c)
    return c

CHECKS = {"E01": e01, "E02": e02, "E03": e03}
