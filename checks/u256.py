"""U01-U07: 256-bit integers.  Oracles: Python integers."""
import math
import z3
from mirv.core import *
from mirv import expr as X
from mirv.u256c import ADDITIVE
R = R256
MP = 0x0800000000000011000000000000000000000000000000000000000000000001
MG = 0x0800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f

def W(v):
    """the 256-bit word of a mirv U256 value"""
    return X.concat(list(u256(v)))
def is_(cond):
    return [("result", cond)]
UU = gens(gu256, gu256)
U1 = gens(gu256)
def close(r):
    """pairs that are equal or differ slightly, so carries and comparisons run across limbs"""
    a = gu256(r)
    k = r.randrange(6)
    if k == 0: b = a
    elif k == 1: b = U((a + r.choice([-1, 1])) % R)
    elif k == 2: b = U(a ^ (1 << r.randrange(256)))
    elif k == 3: b = U((R - a + r.choice([-1, 0, 1])) % R)
    elif k == 4: b = U((a & ~(M64 << (64 * r.randrange(4)))) | (limb(r) << (64 * r.randrange(4))) % R)
    else: b = gu256(r)
    return [a, U(b % R)]

def u01():
    c = Check("U01", "u256")
    add = lambda a, b: (a + b) % R
    sub = lambda a, b: (a - b) % R
    for op in "add_vr add_vv add_rr add_rv add_ar add_av add_inl add_inla".split():
        c.prove(op, lambda s, a, r: is_(X.eq(W(r), X.add(W(a[0]), W(a[1])))))
        c.search(op, close, add, n=150)
    for op in "sub_vr sub_vv sub_rr sub_rv sub_ar sub_av sub_inl sub_inla".split():
        c.prove(op, lambda s, a, r: is_(X.eq(W(r), X.sub(W(a[0]), W(a[1])))))
        c.search(op, close, sub, n=150)
    def z(v, w): return X.zext(v, w)
    for op in ("add_full", "add_fulla"):
        c.prove(op, lambda s, a, r: is_(X.eq(X.add(z(W(r[0]), 320), X.shl(z(r[1], 320), X.c(256, 320))),
                                             X.add(z(W(a[0]), 320), z(W(a[1]), 320)))))
        c.search(op, close, lambda a, b: ((a + b) % R, (a + b) // R), n=150)
    for op in ("sub_full", "sub_fulla"):
        c.prove(op, lambda s, a, r: [("difference", X.eq(W(r[0]), X.sub(W(a[0]), W(a[1])))),
                                     ("borrow", X.eq(r[1], X.ite(X.ult(W(a[0]), W(a[1])), X.c(1, 64), X.c(0, 64))))])
        c.search(op, close, lambda a, b: ((a - b) % R, int(a < b)), n=150)
    c.prove("sub_from", lambda s, a, r: is_(X.eq(W(r), X.sub(W(a[1]), W(a[0])))))
    c.search("sub_from", close, lambda a, b: (b - a) % R, n=150)
    c.prove("sub_from_full", lambda s, a, r: [("difference", X.eq(W(r[0]), X.sub(W(a[1]), W(a[0])))),
                                              ("borrow", X.eq(r[1], X.ite(X.ult(W(a[1]), W(a[0])), X.c(1, 64), X.c(0, 64))))])
    c.search("sub_from_full", close, lambda a, b: ((b - a) % R, int(b < a)), n=150)
    for op in "neg_v neg_r neg_inl neg_inla".split():
        c.prove(op, lambda s, a, r: is_(X.eq(W(r), X.sub(X.c(0, 256), W(a[0])))))
        c.search(op, U1, lambda a: -a % R, n=150)
    lt = lambda a: X.ult(W(a[0]), W(a[1]))
    eq = lambda a: X.eq(W(a[0]), W(a[1]))
    rel = {"lt": (lt, lambda a, b: int(a < b)), "le": (lambda a: X.bor(lt(a), eq(a)), lambda a, b: int(a <= b)),
           "gt": (lambda a: X.bnot(X.bor(lt(a), eq(a))), lambda a, b: int(a > b)),
           "ge": (lambda a: X.bnot(lt(a)), lambda a, b: int(a >= b)),
           "eq": (eq, lambda a, b: int(a == b)), "ne": (lambda a: X.bnot(eq(a)), lambda a, b: int(a != b))}
    for op, (f, o) in rel.items():
        c.prove(op, lambda s, a, r, f=f: is_(X.eq(r, f(a))))
        c.search(op, close, o, n=300)
    sg = lambda a, b: (a > b) - (a < b)
    for op in ("cmp", "pcmp"):
        c.prove(op, lambda s, a, r: is_(X.eq(r, X.ite(lt(a), X.c(255, 8), X.ite(eq(a), X.c(0, 8), X.c(1, 8))))))
        c.search(op, close, sg, n=300)
    for op, f in (("max", lambda a: X.ite(lt(a), W(a[1]), W(a[0]))), ("min", lambda a: X.ite(lt(a), W(a[0]), W(a[1])))):
        c.prove(op, lambda s, a, r, f=f: is_(X.eq(W(r), f(a))))
        c.search(op, close, {"max": max, "min": min}[op], n=150)
    c.prove("sum0", lambda s, a, r: is_(X.eq(W(r), X.c(0, 256))))
    c.search("sum0", gens(), lambda: 0, n=1)
    c.prove("sum1", lambda s, a, r: is_(X.eq(W(r), W(a[0]))))
    c.search("sum1", U1, lambda a: a, n=50)
    c.prove("sum3", lambda s, a, r: is_(X.eq(W(r), X.add(X.add(W(a[0]), W(a[1])), W(a[2])))))
    c.search("sum3", gens(gu256, gu256, gu256), lambda a, b, d: (a + b + d) % R, n=150)
    c.prove("is_zero", lambda s, a, r: is_(X.eq(r, X.eq(W(a[0]), X.c(0, 256)))))
    c.search("is_zero", U1, lambda a: int(a == 0), n=100)
    c.prove("is_one", lambda s, a, r: is_(X.eq(r, X.eq(W(a[0]), X.c(1, 256)))))
    c.search("is_one", U1, lambda a: int(a == 1), n=100)
    c.prove("consts", lambda s, a, r: [(n, X.eq(W(r[i]), X.c(k, 256))) for i, (n, k) in enumerate((("zero", 0), ("one", 1), ("min", 0), ("max", R - 1)))])
    c.search("consts", gens(), lambda: (0, 1, 0, R - 1), n=1)
    c.prove("consts2", lambda s, a, r: [(n, X.eq(W(r[i]), X.c(k, 256))) for i, (n, k) in enumerate((("zero", 0), ("one", 1), ("max", R - 1)))])
    c.search("consts2", gens(), lambda: (0, 1, R - 1), n=1)
    z2 = lambda e: X.zext(e, 192)
    c.prove("adc_", lambda s, a, r: is_(X.eq(X.add(z2(r[0]), X.shl(z2(r[1]), X.c(64, 192))), X.add(X.add(z2(a[0]), z2(a[1])), z2(a[2])))))
    c.search("adc_", gens(gu64, gu64, gu64), lambda a, b, d: ((a + b + d) & M64, (a + b + d) >> 64))
    one = lambda a: [X.ule(a[2], X.c(1, 64))]
    c.prove("sbb_", lambda s, a, r: is_(X.eq(X.sub(z2(r[0]), X.shl(z2(r[1]), X.c(64, 192))), X.sub(X.sub(z2(a[0]), z2(a[1])), z2(a[2])))),
            pre=lambda *a: one(a))
    c.search("sbb_", gens(gu64, gu64, lambda r: r.randrange(2)), lambda a, b, d: ((a - b - d) & M64, int(a - b - d < 0)))
    c.bounded = ["sums of iterators are proved for lengths 0, 1 and 3 (the fold itself is core::iter code)"]
    return c

def u02():
    c = Check("U02", "u256")
    def sh(dirn):
        def f(s, a, r):
            n = a[1]
            big = X.bnot(X.ult(n, X.c(256, 64)))
            nn = X.zext(n, 256)
            e = X.shl(W(a[0]), nn) if dirn == "l" else X.lshr(W(a[0]), nn)
            return [("within", X.bor(big, X.eq(W(r), e))), ("beyond", X.bor(X.bnot(big), X.eq(W(r), X.c(0, 256))))]
        return f
    def gn(r):
        return r.choice([r.randrange(260), r.choice([0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 1 << 32, 1 << 63, M64, (1 << 64) - 64, 512, 768])])
    for op in ("shl", "shl_a"):
        c.prove(op, sh("l"), timeout=100)
        c.search(op, gens(gu256, gn), lambda a, n: (a << n) % R if n < 256 else 0, n=1500)
    for op in ("shr", "shr_a"):
        c.prove(op, sh("r"), timeout=100)
        c.search(op, gens(gu256, gn), lambda a, n: a >> n if n < 256 else 0, n=1500)
    c.prove("not_", lambda s, a, r: is_(X.eq(W(r), X.bnot(W(a[0])))))
    c.search("not_", U1, lambda a: R - 1 - a)
    for nm, f, o in (("and", X.band, lambda a, b: a & b), ("or", X.bor, lambda a, b: a | b), ("xor", X.bxor, lambda a, b: a ^ b)):
        for v in "vr vv rr a".split():
            op = nm + "_" + v
            c.prove(op, lambda s, a, r, f=f: [("limb%d" % i, X.eq(u256(r)[i], f(u256(a[0])[i], u256(a[1])[i]))) for i in range(4)])
            c.search(op, UU, o, n=150)
    c.prove("and64", lambda s, a, r: is_(X.eq(r, X.band(u256(a[0])[0], a[1]))))
    c.search("and64", gens(gu256, gu64), lambda a, b: a & b)
    # single bit: i < 256 gives the bit; beyond: false
    c.prove("bit", lambda s, a, r: [("bit", X.bor(X.bnot(X.ult(a[1], X.c(256, 64))), X.eq(r, X.eq(X.trunc(X.lshr(W(a[0]), X.zext(a[1], 256)), 1), X.c(1, 1))))),
                                    ("beyond", X.bor(X.ult(a[1], X.c(256, 64)), X.bnot(r)))], timeout=60)
    c.search("bit", gens(gu256, lambda r: r.choice([r.randrange(256), r.choice([0, 63, 64, 127, 128, 191, 192, 255, 256, 300, 1 << 40])])),
             lambda a, i: (a >> i) & 1 if i < 256 else 0, n=1500)
    def pop(e, w=64):
        r = X.c(0, w)
        for l in u256(e):
            r = X.add(r, X.ctpop(l))
        return r
    c.prove("count_ones", lambda s, a, r: is_(X.eq(r, pop(a[0]))))
    c.search("count_ones", U1, lambda a: bin(a).count("1"))
    c.prove("count_zeros", lambda s, a, r: is_(X.eq(r, pop([X.bnot(l) for l in u256(a[0])]))), timeout=30)
    c.search("count_zeros", U1, lambda a: 256 - bin(a).count("1"))
    # leading zeros: value < 2^(256-r), and (r = 256 or the bit below is set)
    def lz(r_, a):
        k = X.zext(r_, 512)
        v = X.zext(W(a[0]), 512)
        p = lambda n: X.shl(X.c(1, 512), n)
        return [("range", X.ule(r_, X.c(256, 64))),
                ("upper", X.ult(v, p(X.sub(X.c(256, 512), k)))),
                ("tight", X.bor(X.eq(r_, X.c(256, 64)), X.bnot(X.ult(v, p(X.sub(X.c(255, 512), k))))))]
    c.prove("leading_zeros", lambda s, a, r: lz(r, a), timeout=60)
    c.search("leading_zeros", U1, lambda a: 256 - int(a).bit_length(), n=1500)
    c.prove("bits", lambda s, a, r: lz(X.sub(X.c(256, 64), r), a), timeout=60)
    c.search("bits", U1, lambda a: int(a).bit_length(), n=600)
    c.prove("msbit", lambda s, a, r: [("none iff zero", X.eq(X.c(int(r.v == 0), 0), X.eq(W(a[0]), X.c(0, 256))))] +
            (lz(X.sub(X.c(255, 64), r.f[0]), a) if r.v == 1 else []), timeout=60)
    c.search("msbit", U1, lambda a: Some(int(a).bit_length() - 1) if a else None, n=600)
    def tz(s, a, r):
        v = W(a[0])
        k = X.zext(r, 256)
        return [("range", X.ule(r, X.c(256, 64))),
                ("zero", X.eq(X.eq(r, X.c(256, 64)), X.eq(v, X.c(0, 256)))),
                ("set", X.bor(X.eq(r, X.c(256, 64)), X.eq(X.trunc(X.lshr(v, k), 1), X.c(1, 1)))),
                ("clear", X.eq(X.band(v, X.sub(X.shl(X.c(1, 256), k), X.c(1, 256))) if True else 0, X.ite(X.eq(r, X.c(256, 64)), v, X.c(0, 256))))]
    c.prove("trailing_zeros", tz, timeout=60)
    c.search("trailing_zeros", U1, lambda a: (a & -a).bit_length() - 1 if a else 256, n=1500)
    c.prove("num_bits", lambda s, a, r: is_(X.eq(r, X.c(256, 64))))
    c.search("num_bits", gens(), lambda: 256, n=1)
    return c

def P(ie, v):
    return ie.limbs(u256(v))
def mod256(ie, p):
    return ie.divmod2k(p, 256)[1]

def u03():
    c = Check("U03", "u256")
    full = lambda ie, a, r: [("product", ie.limbs(u256(r[0]) + u256(r[1])).add(P(ie, a[0]).mul(P(ie, a[1])), -1))]
    def low(x, y):
        # r - x*y is a multiple of 2^256 (all coefficients divisible)
        def f(ie, a, r):
            return [("product mod 2^256", Cong(P(ie, r).add(x(ie, a).mul(y(ie, a)), -1), R))]
        return f
    A0 = lambda ie, a: P(ie, a[0])
    A1 = lambda ie, a: P(ie, a[1])
    for op in "mul_vr mul_vv mul_rr mul_rv mul_ar mul_av mul_inl mul_inla".split():
        c.prove(op, low(A0, A1), mode="int")
        c.search(op, UU, lambda a, b: a * b % R, n=400)
    for op in ("mul_full", "mul_full_inla"):
        c.prove(op, full, mode="int")
        c.search(op, UU, lambda a, b: (a * b % R, a * b // R), n=1500)
    for op in ("square", "square_a"):
        c.prove(op, low(A0, A0), mode="int")
        c.search(op, U1, lambda a: a * a % R, n=1000)
    for op in ("square_full", "square_full_a"):
        c.prove(op, lambda ie, a, r: [("square", ie.limbs(u256(r[0]) + u256(r[1])).add(P(ie, a[0]).mul(P(ie, a[0])), -1))], mode="int")
        c.search(op, U1, lambda a: (a * a % R, a * a // R), n=2000)
    S1 = lambda ie, a: ie.conv(a[1])
    U64 = gens(gu256, gu64)
    for op in "mul64_v mul64_r mul64_a mul64_rev mul64_revr mul64_inl".split():
        c.prove(op, low(A0, S1), mode="int")
        c.search(op, U64, lambda a, b: a * b % R, n=400)
    for op in ("mul64_full", "mul64_fulla"):
        c.prove(op, lambda ie, a, r: [("product", ie.limbs(u256(r[0]) + (r[1],)).add(P(ie, a[0]).mul(ie.conv(a[1])), -1))], mode="int")
        c.search(op, U64, lambda a, b: (a * b % R, a * b // R), n=400)
    c.prove("mac_", lambda ie, a, r: [("mac", ie.limbs(r).add(ie.conv(a[0]).add(ie.conv(a[1]).mul(ie.conv(a[2]))).add(ie.conv(a[3])), -1))], mode="int")
    c.search("mac_", gens(gu64, gu64, gu64, gu64), lambda a, b, d, e: ((a + b * d + e) & M64, (a + b * d + e) >> 64))
    c.prove("msb_", lambda ie, a, r: [("msb", ie.conv(r[0]).add(ie.conv(r[1]), -(1 << 64)).add(ie.conv(a[0]).add(ie.conv(a[1]).mul(ie.conv(a[2])), -1).add(ie.conv(a[3]), -1), -1))], mode="int")
    c.search("msb_", gens(gu64, gu64, gu64, gu64), lambda a, b, d, e: ((a - b * d - e) & M64, -((a - b * d - e) >> 64)))
    c.prove("mul_add", lambda ie, a, r: [("a*b+d", Cong(P(ie, r).add(A0(ie, a).mul(A1(ie, a)), -1).add(P(ie, a[2]), -1), R))], mode="int")
    c.prove("mul_add_a", lambda ie, a, r: [("a*b+d", Cong(P(ie, r).add(A0(ie, a).mul(A1(ie, a)), -1).add(P(ie, a[2]), -1), R))], mode="int")
    for op in ("mul_add", "mul_add_a"):
        c.search(op, gens(gu256, gu256, gu256), lambda a, b, d: (a * b + d) % R)
    c.prove("prod0", lambda ie, a, r: [("one", P(ie, r).add(Poly.const(-1)))], mode="int")
    c.search("prod0", gens(), lambda: 1, n=1)
    c.prove("prod1", lambda ie, a, r: [("same", P(ie, r).add(P(ie, a[0]), -1))], mode="int")
    c.search("prod1", U1, lambda a: a, n=50)
    c.search("prod3", gens(gu256, gu256, gu256), lambda a, b, d: a * b * d % R)
    c.search("pow", gens(gu256, lambda r: r.choice([r.randrange(20), r.getrandbits(r.randrange(1, 65)), r.choice([0, 1, 2, M64, 1 << 63])])),
             lambda a, n: pow(int(a), n, R), n=600)
    c.search("mulmod", gens(gu256, gu256, lambda r: U(gu256(r) or 1)), lambda a, b, m: a * b % m, n=3000)
    c.bounded = ["pow, mulmod and three-factor products: native runs only here (mulmod's division core is proved under U04)"]
    return c


# ---- division
W4 = 320
def val(es, w=W4):
    r = X.c(0, w)
    for i, e in enumerate(es):
        r = X.add(r, X.shl(X.zext(e, w), X.c(64 * i, w)))
    return r
def d3_pre(n, d):
    return [X.ule(X.c(1 << 63, 64), d[1]), X.ule(val(n[1:]), val(d))]
def d3_post(n, d, q):
    """q is the quotient digit of n by d, saturated at 2^64-1 when the top limbs are equal"""
    N, D, Q = val(n), val(d), X.zext(q, W4)
    one = X.c(1, W4)
    sat = X.eq(val(n[1:]), val(d))
    inr = X.band(X.ule(X.mul(Q, D), N), X.ult(N, X.mul(X.add(Q, one), D)))
    return [X.bor(X.band(sat, X.eq(q, X.c(M64, 64))), X.band(X.bnot(sat), inr))]
def c_div3by2(ex, st, inst, args):
    n, d = [ex.load(st, a) for a in args]
    for g in d3_pre(n, d):
        ex.obligations.append((list(st.pc), g, "div_3by2 precondition"))
    q = X.fresh("qhat", 64)
    sat = X.eq(val(n[1:]), val(d))
    N, D, Q = val(n), val(d), X.zext(q, W4)
    inr = X.band(X.ule(X.mul(Q, D), N), X.ult(N, X.mul(X.add(Q, X.c(1, W4)), D)))
    return Fork([(sat, X.c(M64, 64)), (X.band(X.bnot(sat), inr), q)])
D3 = (r"knuth_division::div_3by2$", c_div3by2)

def u04():
    c = Check("U04", "u256")
    def a3(env, ats):
        n = tuple(X.var("n%d" % i, 64) for i in range(3))
        d = (X.var("d0", 64), X.var("d1", 64, 1 << 63, M64))
        return [Ptr(1), Ptr(2)], {1: n, 2: d}
    def get(env_args):
        return (tuple(X.var("n%d" % i, 64) for i in range(3)), (X.var("d0", 64), X.var("d1", 64, 1 << 63, M64)))
    c.prove("div_rem", lambda ie, a, r: [("digit", g) for g in d3_post(*get(a), r)], mode="int", inst=D3[0], argf=a3,
            pre=lambda *a: d3_pre(*get(a)), name="div_3by2 contract", timeout=60)
    def dv(n, s, lo=None):
        # Divisors with n limbs whose top limb has s leading zeros.  Every pair (numerator, divisor) of that
        # shape is written as (A >> s, B >> s) with A, B multiples of 2^s: A five limbs, B's top bit set.
        sh = lambda e, k: X.lshr(e, X.c(k, 64)) if k else e
        up = lambda e, k: X.shl(e, X.c(k, 64))
        def low(nm):
            if lo is not None: return X.c(lo[nm == "B"] << s, 64)
            return up(X.var(nm + "0", 64, 0, (1 << (64 - s)) - 1), s) if s else X.var(nm + "0", 64)
        def down(ls, i, top):
            # limb i of the value shifted right by s
            if s == 0: return ls[i]
            e = sh(ls[i], s)
            return X.add(e, up(ls[i + 1], 64 - s)) if i + 1 < top else e
        def f(env, ats):
            A = [low("A")] + [X.var("A%d" % i, 64) for i in (1, 2, 3)] + [X.var("A4", 64, 0, (1 << s) - 1)]
            B = [low("B")] + [X.var("B%d" % i, 64) for i in range(1, n - 1)] + [X.var("B%d" % (n - 1), 64, 1 << 63, M64)]
            a = tuple(down(A, i, 5) for i in range(4))
            b = tuple([down(B, i, n) for i in range(n)] + [X.c(0, 64)] * (4 - n))
            return [(a,), (b,)]
        return f
    def post(ie, a, r):
        if r.v != 1:
            return [("some", X.c(0, 0))]
        q, m = r.f[0]
        # q*d + r = n as polynomials over the same atoms, r < d
        qd = P(ie, q).mul(P(ie, a[1]))
        return [("n = q*d + r", qd.add(P(ie, m)).add(P(ie, a[0]), -1)), ("r < d", ie.zp(P(ie, m).add(P(ie, a[1]), -1)) < 0)]
    for n in (2, 3, 4):
        for lo in ((0, 0), (0, 1), (1, 0), (1, 1)):
            c.prove("div_rem", post, mode="int", argf=dv(n, 63, lo), contracts=[D3], name="div_rem %d limbs, shift 63, low bits %s" % (n, lo), timeout=40, feasible="int", cex=False, strategies=("named", True))
        for s in range(62, -1, -1):
            c.prove("div_rem", post, mode="int", argf=dv(n, s), contracts=[D3], name="div_rem %d limbs, shift %d" % (n, s), timeout=40, feasible="int", cex=False)
    c.prove("div_rem", post, mode="int", name="div_rem 1 limb", timeout=30,
            argf=lambda env, ats: [env.vals.sym(ats[0], "a"), ((X.var("b_0", 64, 1, M64),) + (X.c(0, 64),) * 3,)])
    none0 = lambda s_, a, r: [("none", X.c(int(r.v == 0), 0))]
    c.prove("div_rem", none0, name="div_rem by zero", argf=lambda env, ats: [env.vals.sym(ats[0], "a"), ((X.c(0, 64),) * 4,)])
    c.prove("div_rem64", none0, name="div_rem64 by zero", argf=lambda env, ats: [env.vals.sym(ats[0], "a"), X.c(0, 64)])
    def post64(ie, a, r):
        if r.v != 1:
            return [("some", X.c(0, 0))]
        q, m = r.f[0]
        return [("n = q*d + r", P(ie, q).mul(ie.conv(a[1])).add(ie.conv(m)).add(P(ie, a[0]), -1)), ("r < d", X.ult(m, a[1]))]
    c.prove("div_rem64", post64, mode="int", name="div_rem64", timeout=30,
            argf=lambda env, ats: [env.vals.sym(ats[0], "a"), X.var("b", 64, 1, M64)])
    # operator forms: the quotient / remainder of div_rem (here an uninterpreted contract), panic on zero
    def c_divrem(ex, st, inst, args):
        a, b = [W(ex.load(st, x)) for x in args]
        z = X.eq(b, X.c(0, 256))
        rt = argtypes(ex.p, inst)[1] if False else None
        mk = lambda nm: (tuple(X.var("%s_%d" % (nm, i), 64) for i in range(4)),)
        st.ghost["dr"] = st.ghost.get("dr", 0) + 1
        st.ghost["dr_args"] = (a, b)
        return Fork([(z, En(0, ())), (X.bnot(z), En(1, ((mk("Q"), mk("R")),)))])
    DR = (r"DivRem<&zkp_u256::U256> for zkp_u256::U256>::div_rem$", c_divrem)
    for op, nm in (("div_rr", "Q"), ("div_vr", "Q"), ("div_vv", "Q"), ("div_a", "Q"), ("rem_rr", "R"), ("rem_vr", "R"), ("rem_vv", "R"), ("rem_a", "R")):
        def pf(s_, a, r, nm=nm):
            if s_.ghost.get("dr") != 1:
                raise Unsupported("operator does not call div_rem exactly once")
            x, y = s_.ghost["dr_args"]
            return [("of self", X.eq(x, W(a[0]))), ("by rhs", X.eq(y, W(a[1])))] + [("limb%d" % i, X.eq(u256(r)[i], X.var("%s_%d" % (nm, i), 64))) for i in range(4)]
        c.prove(op, pf, contracts=[DR], panics=lambda *a: X.eq(W(a[1]), X.c(0, 256)), name=op + " via div_rem contract")
    c.prove("div_2_1_", lambda ie, a, r: [("lo + 2^64 hi = q*d + r", ie.limbs((a[0], a[1])).add(ie.conv(r[0]).mul(ie.conv(a[2])), -1).add(ie.conv(r[1]), -1)), ("r < d", X.ult(r[1], a[2]))],
            mode="int", pre=lambda *a: [X.ult(a[1], a[2])], argf=lambda env, ats: [X.var("a", 64), X.var("b", 64), X.var("d", 64, 1, M64)])
    def g21(r):
        d = limb(r) or 1
        return [limb(r), r.choice([limb(r) % d, d - 1, 0]), d]
    c.search("div_2_1_", g21, lambda lo, hi, d: divmod(lo + (hi << 64), d), n=300)
    def gd(r):
        """divisors with every limb count; numerators near multiples, with equal leading limbs"""
        k = r.randrange(8)
        b = gu256(r) >> (64 * r.randrange(4))
        if k < 2:
            return [gu256(r), U(b)]
        if k == 2:
            return [gu256(r), U(r.choice([0, 1, 2, 3, M64, 1 << 64, R - 1, 1 << 255]))]
        if k == 3 and b:
            q = gu256(r) >> r.randrange(256)
            return [U((q * b + r.choice([-1, 0, 1, b - 1])) % R), U(b)]
        if k in (4, 5):
            # leading limbs of numerator and (normalised) divisor equal
            n = r.randrange(2, 5)
            top = limb(r) | 1 << 63
            d = [limb(r) for _ in range(n - 1)] + [top]
            m = r.randrange(0, 5 - n)
            nn = [limb(r) for _ in range(4)]
            nn[n - 1 + m] = r.choice([top, top - 1, nn[n - 1 + m]])
            nn[n - 2 + m] = r.choice([d[n - 2], (d[n - 2] + 1) & M64, (d[n - 2] - 1) & M64])
            if n + m < 4:
                nn[n + m] = 0
            f = lambda l: sum(x << (64 * i) for i, x in enumerate(l))
            s = r.choice([0, 0, r.randrange(64)])
            return [U(f(nn) >> s), U(f(d) >> s)]
        if k == 6:
            a = gu256(r)
            return [a, U(max(0, a + r.choice([-1, 0, 1])) % R)]
        return [gu256(r), gu256(r)]
    dr = lambda a, b: Some((a // b, a % b)) if b else None
    c.search("div_rem", gd, dr, n=6000)
    for op in ("div_rr", "div_vr", "div_vv", "div_a"):
        c.search(op, gd, lambda a, b: a // b if b else PANIC, n=200)
    for op in ("rem_rr", "rem_vr", "rem_vv", "rem_a"):
        c.search(op, gd, lambda a, b: a % b if b else PANIC, n=200)
    c.search("div_rem64", gens(gu256, gu64), lambda a, b: Some((a // b, a % b)) if b else None, n=1500)
    def gm(r):
        m = gu256(r) >> (64 * r.randrange(4)) or 1
        a, b = gu256(r), gu256(r)
        if r.randrange(3) == 0: a, b = U(a % m), U(b % m)
        if r.randrange(4) == 0: b = U(m - 1); a = U((m - 1 - r.randrange(3)) % m)
        return [U(a), U(b), U(m)]
    c.search("mulmod", gm, lambda a, b, m: a * b % m, n=3000)
    c.bounded = ["mulmod (eight by n limb division through the same divrem_nbym): native runs only"]
    return c

def cfpair(r):
    """pairs with a chosen continued fraction, so every exit of the Lehmer loop is reached"""
    g = r.choice([1, 1, 1, 2, 3, limb(r) or 1, (gu256(r) >> 128) or 1])
    a, b = g, 0
    top = r.choice([256, 256, 255, 192, 193, 128, 129, 64, 65, r.randrange(2, 257)])
    style = r.randrange(4)
    while True:
        if style == 0: q = 1
        elif style == 1: q = r.choice([1, 1, 2, 3, 16, 17, 18, 19, 20, 21])
        elif style == 2: q = r.choice([1, 2, 1 << 31, (1 << 32) - 1, 1 << 32, r.getrandbits(33) + 1])
        else: q = r.choice([1, 1, 1, 2, r.getrandbits(r.randrange(1, 100)) + 1])
        n = q * a + b
        if n.bit_length() > top or n >= R:
            break
        a, b = n, a
    return (a, b) if r.randrange(2) else (b, a)
def gg(r):
    k = r.randrange(4)
    if k == 0: return [gu256(r), gu256(r)]
    a, b = cfpair(r)
    return [U(a), U(b)]

def u05():
    c = Check("U05", "u256")
    # ---- the linear-combination kernel, for all inputs
    def two(env, ats):
        A = (tuple(X.var("a_%d" % i, 64) for i in range(4)),)
        B = (tuple(X.var("b_%d" % i, 64) for i in range(4)),)
        q = tuple(X.var("q%d" % i, 64) for i in range(4))
        return [Ptr(1), Ptr(2), q], {1: A, 2: B}
    def mm(ie, a, r):
        st = ie.state
        na, nb = st.cells[1], st.cells[2]
        A = ie.limbs([X.var("a_%d" % i, 64) for i in range(4)])
        B = ie.limbs([X.var("b_%d" % i, 64) for i in range(4)])
        q = [ie.conv(X.var("q%d" % i, 64)) for i in range(4)]
        return [("a' = q00 a - q01 b mod 2^256", Cong(P(ie, na).add(q[0].mul(A), -1).add(q[1].mul(B)), R)),
                ("b' = q11 b - q10 a mod 2^256", Cong(P(ie, nb).add(q[3].mul(B), -1).add(q[2].mul(A)), R))]
    c.prove("gcd_ext", mm, mode="int", inst=r"lehmer_gcd::mat_mul$", argf=two, name="mat_mul", cex=False)
    # ---- div1: quotient of two words
    c.prove("gcd_ext", lambda ie, a, r: [("q*b <= a", ie.zp(ie.conv(r).mul(ie.conv(a[1])).add(ie.conv(a[0]), -1)) <= 0),
                                         ("a < (q+1)*b", ie.zp(ie.conv(a[0]).add(ie.conv(r).mul(ie.conv(a[1])), -1).add(ie.conv(a[1]), -1)) < 0)],
            mode="int", inst=r"lehmer_gcd::div1$", name="div1", argf=lambda env, ats: [X.var("a", 64), X.var("b", 64, 1, M64)],
            pre=lambda a, b: [X.ule(b, a)], cex=False, timeout=40, feasible="int")
    u05_outer(c)
    c.obs.append(newton())
    def jg(args, res):
        a, b = args
        g = math.gcd(a, b)
        if not isinstance(res, tuple): return "expected a result"
        rg, u, v, even = res
        if rg != g: return "gcd is %s" % hex(g)
        if (u * a - v * b if even else v * b - u * a) != g: return "Bezout identity fails"
    c.search("gcd", gg, lambda a, b: math.gcd(a, b), n=3000)
    c.search("gcd_ext", gg, judge=jg, n=4000)
    def inv(a, m):
        return Some(pow(int(a), -1, m)) if math.gcd(a, m) == 1 else None
    def gi(r):
        k = r.randrange(5)
        if k == 0: return [gu256(r), U(MP)]
        if k == 1: return [gu256(r), U(gu256(r) or 2)]
        a, b = gg(r)
        return [a, b] if b > 1 else [a, U(2)]
    c.search("inv_mod", lambda r: [(lambda x: [x[0], U(max(2, x[1]))])(gi(r))][0], inv, n=4000)
    c.search("inv256", U1, lambda a: Some(pow(int(a), -1, R)) if a & 1 else None, n=2000)
    c.bounded = ["the Lehmer loop's choice of matrix: native runs on pairs with chosen continued fractions"]
    return c

# ---- the outer loops of the greatest common divisor, over the contract of lehmer_double
from mirv.enc import Poly
from mirv import loops as Lp
def zv(n): return Poly({(n,): 1})
def zc(k): return Poly.const(k)
def zzero(p):
    """the condition that p is zero"""
    if p.is_const(): return X.boolc(p.cval() == 0)
    return X.var("zero:%r" % (min(p.key(), p.scale(-1).key()),), 0)
def zneg(p):
    """the condition that p is negative"""
    if p.is_const(): return X.boolc(p.cval() < 0)
    k, m = p.key(), p.scale(-1).key()
    n = X.band(X.var("neg:%r" % (min(k, m),), 0), X.bnot(zzero(p)))
    return n if k < m else X.band(X.bnot(n), X.bnot(zzero(p)))
class Zi:
    """U256 values as integer polynomials (wrapping operations: equal modulo 2^256; the invariant bounds the values, see u05_outer)"""
    def __init__(self):
        self.cells = 0
    def get(self, ex, st, a):
        while isinstance(a, Ptr): a = ex.load(st, a)
        if isinstance(a, Opq) and a.kind == "zi": return a.x
        if isinstance(a, tuple) and len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 4 and all(isinstance(x, E) and x.const for x in a[0]):
            return zc(sum(x.val << (64 * i) for i, x in enumerate(a[0])))
        raise Unsupported("not an abstract integer: %r" % (a,))
    def contracts(self):
        g = self.get
        z = lambda p: Opq("zi", p)
        H = lambda tr, names, f: (r"^(zkp_u256::\w+::<impl [\w:]*%s(<&?zkp_u256::U256>)? for &?zkp_u256::U256>|<&?zkp_u256::U256 as [\w:]*%s(<&?zkp_u256::U256>)?>)::(%s)$" % (tr, tr, names), f)
        def bn(f): return lambda ex, st, i, a: z(f(g(ex, st, a[0]), g(ex, st, a[1])))
        def asg(f):
            def h(ex, st, i, a):
                ex.store(st, a[0], z(f(g(ex, st, a[0]), g(ex, st, a[1]))))
                return ()
            return h
        def div(ex, st, i, a):
            st.ghost["steps"] = st.ghost.get("steps", ()) + (("div", g(ex, st, a[0]), g(ex, st, a[1])),)
            return z(zc(1).add(zv("e")))        # r0 >= r1 > 0 by the invariant: the quotient is at least one
        def rem(ex, st, i, a):
            st.ghost["rem"] = (g(ex, st, a[0]), g(ex, st, a[1]))
            ex.store(st, a[0], z(g(ex, st, a[0]).add(zv("c").mul(g(ex, st, a[1])), -1)))
            return ()
        def cmp(op):
            def h(ex, st, i, a):
                p, q = g(ex, st, a[0]), g(ex, st, a[1])
                d = p.add(q, -1)
                if op in ("eq", "ne"):
                    r = zzero(d)
                    return X.bnot(r) if op == "ne" else r
                if op in ("gt", "le"): p, q = q, p
                r = zneg(p.add(q, -1))
                return r if op in ("lt", "gt") else X.bnot(r)
            return h
        sub, mul, add = lambda p, q: p.add(q, -1), lambda p, q: p.mul(q), lambda p, q: p.add(q)
        w = lambda e: zc(e.val) if e.const else zv(e.args[0]) if e.op == "var" else None
        def mat(ex, st, i, a):
            p, q = g(ex, st, a[0]), g(ex, st, a[1])
            m = [w(x) for x in a[2]]
            if None in m: raise Unsupported("matrix entry")
            ex.store(st, a[0], z(m[0].mul(p).add(m[1].mul(q), -1)))
            ex.store(st, a[1], z(m[3].mul(q).add(m[2].mul(p), -1)))
            return ()
        def ld(ex, st, i, a):
            p, q = g(ex, st, a[0]), g(ex, st, a[1])
            st.ghost["lehmer"] = (p, q)
            st.ghost["steps"] = st.ghost.get("steps", ())
            v = tuple(X.var(n, 64) for n in ("q00", "q01", "q10", "q11"))
            return Fork([(X.var("lehmer gives up", 0), (X.c(1, 64), X.c(0, 64), X.c(0, 64), X.c(1, 64), X.boolc(True))),
                         (X.band(X.bnot(X.var("lehmer gives up", 0)), X.var("lehmer even", 0)), v + (X.boolc(True),)),
                         (X.band(X.bnot(X.var("lehmer gives up", 0)), X.bnot(X.var("lehmer even", 0))), v + (X.boolc(False),))])
        out = [H("Clone", "clone", lambda ex, st, i, a: z(g(ex, st, a[0]))), H("Mul", "mul", bn(mul)), H("Sub", "sub", bn(sub)), H("Add", "add", bn(add)), H("Div", "div", div),
               H("RemAssign", "rem_assign", rem), H("SubAssign", "sub_assign", asg(sub)), H("AddAssign", "add_assign", asg(add)), H("MulAssign", "mul_assign", asg(mul)),
               (r"lehmer_gcd::mat_mul$", mat), (r"lehmer_gcd::lehmer_double$", ld)]
        for op in ("eq", "ne"): out.append(H("PartialEq", op, cmp(op)))
        for op in ("lt", "gt", "le", "ge"): out.append(H("PartialOrd", op, cmp(op)))
        return out
def psub(p, m):
    """substitute polynomials for atoms"""
    r = zc(0)
    for mon, v in p.d.items():
        t = zc(v)
        for x in mon: t = t.mul(m.get(x, zv(x)))
        r = r.add(t)
    return r
def rewrite(p, mon, by):
    """replace the product of the two atoms `mon` until it no longer occurs"""
    for _ in range(50):
        for q, v in p.d.items():
            if mon[0] in q and mon[1] in q:
                rest = list(q)
                rest.remove(mon[0]); rest.remove(mon[1])
                p = p.add(Poly({q: v}), -1).add(Poly({tuple(rest): v}).mul(by))
                break
        else: return p
    raise Unsupported("rewriting does not end")
def nonneg(p): return all(v >= 0 for v in p.d.values())
def u05_outer(c):
    """inv_mod, gcd and gcd_extended: the loop invariant, for every pair of arguments.

    Contract of lehmer_double (assumed here; bounded native check): on r0 >= r1 > 0 it returns the identity or a matrix with
    q00 <= q10, q01 <= q11, determinant q00 q11 - q01 q10 = 1 (even) or -1 (odd) and r0' >= r1' >= 0 for the combined values.
    Invariant: r0 = S0 a + T0 b and r1 = S1 a + T1 b with alternating signs given by `even`, |T0| <= |T1|, |S0 T1 - S1 T0| = 1,
    hence r0 |T1| + r1 |T0| = a and (extended) r0 |S1| + r1 |S0| = b: every value is at most a or b and so held exactly."""
    for fn, op in (("inv_mod", "inv_mod"), ("gcd", "gcd"), ("gcd_extended", "gcd_ext")):
        for ev in (True, False) if fn != "gcd" else (True,):
            c.obs.append(outer(fn, op, ev))
def outer(fn, op, ev):
    Z = Zi()
    z = lambda p: Opq("zi", p)
    a, b = zv("a"), zv("b")
    sg = 1 if ev else -1
    A0, A1 = zv("A0"), zv("A1")
    S0, S1 = (zv("B0").scale(sg), zv("B1").scale(-sg)) if fn == "gcd_extended" else (zv("K0"), zv("K1"))
    T0, T1 = A0.scale(-sg), A1.scale(sg)
    R0, R1 = (zv("r0"), zv("r1")) if fn == "gcd" else (S0.mul(a).add(T0.mul(b)), S1.mul(a).add(T1.mul(b)))
    if fn == "gcd_extended": det = ("B0", "A1"), (zc(1) if ev else zc(-1)).add(zv("B1").mul(A0))
    else: det = ("K0", "A1"), zc(1).add(zv("K1").mul(A0), -1)
    def roles(vs):
        us = sorted(i for i, (t, _) in vs.items() if t == "zkp_u256::U256")
        bs = [i for i, (t, _) in vs.items() if t == "bool"]
        n = {"inv_mod": (4, 1), "gcd": (2, 0), "gcd_extended": (6, 1)}[fn]
        if (len(us), len(bs)) != n or len(vs) != sum(n): raise Unsupported("loop variables")
        return us, bs
    def begin(ex, st, vs):
        us, bs = roles(vs)
        P = {i: Z.get(ex, st, vs[i][1]) for i in us}
        if fn == "gcd_extended": order = us
        else:
            cs = sorted((p.cval(), i) for i, p in P.items() if p.is_const())
            nc = [i for i in us if not P[i].is_const()]
            order = nc + [i for _, i in cs]
        # which of the remaining two is r0: the larger by the path condition (in the order of declaration)
        r0, r1 = order[:2]
        st.ghost["order"] = (tuple(order), tuple(bs))
        x, y = P[r0], P[r1]
        st.ghost["swapped"] = x.key() != a.key()
        g = []
        lt = lambda p, q: zneg(p.add(q, -1))
        if fn == "inv_mod":
            rem = st.ghost.get("rem")
            ok = x.key() == a.key() and (y.key() == b.key() if rem is None else y.key() == b.add(zv("c").mul(a), -1).key() and rem[0].key() == b.key() and rem[1].key() == a.key())
            g.append(("the modulus and the number reduced by it", X.boolc(ok)))
            if rem is None: g.append(("the number is below the modulus", lt(b, a)))
        else:
            ok = {x.key(), y.key()} == {a.key(), b.key()}
            g.append(("the two arguments", X.boolc(ok)))
            g.append(("the larger first", X.bnot(lt(x, y))))
        if fn == "inv_mod": g.append(("cofactors 0 and 1", X.boolc([P[i].cval() for i in order[2:]] == [0, 1] and all(P[i].is_const() for i in order[2:]))))
        if fn == "gcd_extended": g.append(("unit matrix", X.boolc([P[i].cval() for i in order[2:]] == [1, 0, 0, 1] and all(P[i].is_const() for i in order[2:]))))
        if bs: g.append(("even", vs[bs[0]][1]))
        new = {r0: z(R0), r1: z(R1)}
        if fn == "inv_mod": new.update({order[2]: z(T0), order[3]: z(T1)})
        if fn == "gcd_extended": new.update(dict(zip(order[2:], map(z, (S0, S1, T0, T1)))))
        if bs: new[bs[0]] = X.boolc(ev)
        st.ghost["steps"] = ()
        return g, new, []
    d0, d1 = zv("d0"), zv("d1")
    def again(ex, st, vs):
        order, bs = st.ghost["order"]
        P = [Z.get(ex, st, vs[i][1]) for i in order]
        n0, n1 = P[:2]
        g = []
        L = st.ghost.get("lehmer")
        q = [zv(x) for x in ("q00", "q01", "q10", "q11")]
        steps = st.ghost["steps"]
        ok = False
        kind = None
        if len(steps) == 1 and steps[0][1].key() == R0.key() and steps[0][2].key() == R1.key():
            Q = zc(1).add(zv("e"))
            ok = n0.key() == R1.key() and n1.key() == R0.add(Q.mul(R1), -1).key()
            kind = "euclid"
        elif not steps and L is not None and L[0].key() == R0.key() and L[1].key() == R1.key():
            for k, s in (("even", 1), ("odd", -1)):
                if n0.key() == q[0].mul(R0).add(q[1].mul(R1), -1).scale(s).key() and n1.key() == q[3].mul(R1).add(q[2].mul(R0), -1).scale(s).key(): ok, kind = True, k
        g.append(("the next two remainders", X.boolc(ok)))
        if kind in ("even", "odd"):
            g.append(("matrix used with its sign", X.var("lehmer even", 0) if kind == "even" else X.bnot(X.var("lehmer even", 0))))
        if fn == "gcd" or not ok: return g
        e2 = vs[bs[0]][1]
        if not e2.const: raise Unsupported("parity")
        s2 = 1 if e2.val else -1
        S = {"q10": q[0].add(d0), "q11": q[1].add(d1)}
        dq = {"even": zc(1).add(q[1].mul(d0)), "odd": q[1].mul(d0).add(zc(1), -1), "euclid": zc(0)}[kind]
        def nf(p):
            p = rewrite(psub(p, S), ("q00", "d1"), dq)
            return rewrite(p, *det)
        t0, t1 = (P[2], P[3]) if fn == "inv_mod" else (P[4], P[5])
        a0, a1 = t0.scale(-s2), t1.scale(s2)
        g.append(("signs of the cofactors alternate", X.boolc(nonneg(psub(a0, S)) and nonneg(psub(a1, S)))))
        g.append(("cofactors grow", X.boolc(nonneg(psub(a1.add(a0, -1), S)))))
        # the coefficient of a in r0' - t0' b
        def coef(r, t):
            p = r.add(t.mul(b), -1)
            if not all("a" in m for m in p.d): return None
            out = {}
            for m, v in p.d.items():
                m = list(m); m.remove("a"); out[tuple(m)] = v
            return Poly(out)
        k0, k1 = coef(n0, t0), coef(n1, t1)
        g.append(("the remainders are the combinations named by the cofactors", X.boolc(k0 is not None and k1 is not None)))
        if k0 is not None and k1 is not None:
            g.append(("r0 |T1| + r1 |T0| stays", X.boolc(nf(n0.mul(a1).add(n1.mul(a0)).add(a, -1)).key() == ())))
            if fn == "gcd_extended":
                g.append(("other cofactors", X.boolc(P[2].key() == k0.key() and P[3].key() == k1.key())))
                b0, b1 = P[2].scale(s2), P[3].scale(-s2)
                g.append(("signs of the other cofactors alternate", X.boolc(nonneg(psub(b0, S)) and nonneg(psub(b1, S)))))
                g.append(("r0 |S1| + r1 |S0| stays", X.boolc(nf(n0.mul(b1).add(n1.mul(b0)).add(b, -1)).key() == ())))
        return g
    def argf(env, ats):
        if fn == "inv_mod": return [env.vals.ref(z(a)), env.vals.ref(z(b))]
        return [z(a), z(b)]
    def post(s, args, r):
        end, one = zzero(R1), zzero(R0.add(zc(1), -1))
        g = [("ends when the remainder is zero", end)]
        val = lambda v: Z.get(None, s, v)
        if fn == "inv_mod":
            if r.v == 0: return g + [("no inverse only if the divisor is not one", X.bnot(one))]
            return g + [("an inverse only if the divisor is one", one), ("the cofactor, made positive", X.boolc(val(r.f[0]).key() == (a.add(A0, -1) if ev else A0).key()))]
        if fn == "gcd": return g + [("the last remainder", X.boolc(val(r).key() == R0.key()))]
        d, u, v, even = r[0], r[1], r[2], r[3]
        if not even.const: raise Unsupported("parity of the result")
        u, v = val(u), val(v)
        sw = s.ghost["swapped"]
        x, y = (b, a) if sw else (a, b)         # the original first and second argument
        t = u.mul(x).add(v.mul(y), -1)
        if not even.val: t = t.scale(-1)
        return g + [("the last remainder", X.boolc(val(d).key() == R0.key())), ("Bezout identity", X.boolc(t.key() == R0.key())), ("positive cofactors", X.boolc(nonneg(u) and nonneg(v)))]
    def setup(env, ex, args):
        ix, = [q for q, x in enumerate(env.prog.insts) if x["name"].endswith("lehmer_gcd::" + fn)]
        Lp.install(ex, ix, Lp.Cut(begin, again))
    return Prove(op, post, argf=argf, contracts=Z.contracts(), setup=setup, inst=r"lehmer_gcd::%s$" % fn, name="outer loop of %s%s" % (fn, "" if fn == "gcd" else ", %s steps so far" % ("even" if ev else "odd")), cex=False, feasible=True)

# ---- inversion modulo 2^256 by Newton's iteration
def val2(n, top):
    k = 0
    while k < top and not n >> k & 1: k += 1
    return k
class Newton:
    """values as polynomials in the argument A and one earlier approximation R at a time (a ring homomorphism modulo 2^w);
    with u = A R = 1 mod 2^k known for R, an approximation p has A p = f(u), and f(1 + 2^k t) = 1 mod 2^K coefficient by coefficient"""
    def __init__(self):
        self.a = [X.var("a_%d" % i, 64) for i in range(4)]
        a128 = X.bor(X.shl(X.zext(self.a[1], 128), X.c(64, 128)), X.zext(self.a[0], 128))
        self.isa = {self.a[0].id, a128.id, X.zext(self.a[0], 128).id}
        self.polys, self.levels, self.defs = {}, {}, {}
    def atom(self, e):
        n = "R%d" % e.id
        self.defs[n] = e
        return zv(n)
    def poly(self, e):
        r = self.polys.get(e.id)
        if r is not None: return r
        if e.const: r = zc(e.val)
        elif e.id in self.isa and e.w <= 128 and not (e.op == "zext" and e.w == 128): r = zv("A")
        elif e.op in ("add", "sub", "mul"):
            p, q = self.poly(e.args[0]), self.poly(e.args[1])
            r = p.add(q) if e.op == "add" else p.add(q, -1) if e.op == "sub" else p.mul(q)
        elif e.op == "trunc": r = self.poly(e.args[0])
        elif e.op == "zext": r = self.atom(e.args[0])
        else: r = self.atom(e)
        self.polys[e.id] = r
        return r
    def level(self, p, w):
        """the largest k <= w found with A p = 1 mod 2^k"""
        atoms = {x for m in p.d for x in m if x != "A"}
        if len(atoms) != 1: raise Unsupported("not an iteration over one approximation")
        n, = atoms
        f = {}
        for m, v in p.d.items():
            i = m.count(n)
            if len(m) - i + 1 != i: raise Unsupported("not a polynomial in the product")
            f[i] = f.get(i, 0) + v
        k0 = self.base(self.defs[n])
        co = {}
        for i, v in f.items():
            for j in range(i + 1): co[j] = co.get(j, 0) + (v * math.comb(i, j) << (k0 * j))
        co[0] = co.get(0, 0) - 1
        return min(val2(v, w) for v in co.values())
    def base(self, e):
        if e.id in self.levels: return self.levels[e.id]
        p = self.poly(e)
        if p.key() != self.atom(e).key(): k = self.level(p, e.w)
        else:
            import z3
            from mirv.enc import BV
            b = BV()
            k = 0
            for j in (5, 4, 3, 2, 1):
                s = z3.Solver()
                s.set("timeout", 5000)
                s.add(z3.Extract(0, 0, b.conv(self.a[0])) == 1, z3.Extract(j - 1, 0, b.conv(self.a[0]) * b.conv(e)) != 1)
                if s.check() == z3.unsat:
                    k = j
                    break
        self.levels[e.id] = k
        return k
def newton():
    N = Newton()
    Z = Zi()
    z = lambda p: Opq("zi", p)
    old = Z.get
    def get(ex, st, v):
        while isinstance(v, Ptr): v = ex.load(st, v)
        if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple) and all(x is y for x, y in zip(v[0], N.a)): return zv("A")
        return old(ex, st, v)
    Z.get = get
    def frm(ex, st, i, a):
        return z(zc(a[0].val) if a[0].const else N.atom(a[0]))
    def post(s, args, r):
        odd = X.eq(X.trunc(N.a[0], 1), X.c(1, 1))
        if r.v == 0: return [("no inverse only for even numbers", X.bnot(odd))]
        k = N.level(get(None, s, r.f[0]), 256)
        if k < 256: raise Unsupported("the product with the argument is only known to be one modulo 2^%d" % k)
        return [("an inverse only for odd numbers", odd), ("A r = 1 modulo 2^256", X.boolc(True))]
    return Prove("inv256", post, argf=lambda env, ats: [env.vals.ref((tuple(N.a),))], inst=r"impl [\w:]*Inv for &zkp_u256::U256>::inv$", name="inverse modulo 2^256", cex=False,
                 contracts=[(r"impl [\w:]*From<u128> for zkp_u256::U256>::from$", frm)] + Z.contracts())

# ---- Montgomery
def u06():
    c = Check("U06", "u256")
    for k, M in (("p_", MP), ("g_", MG)):
        Mi = pow(M, -1, R)
        Ri = pow(R, -1, M)
        arg = lambda env, ats: None
        def redm(ie, a, r, prod, M=M):
            pr = P(ie, r)
            return [("r * 2^256 = product mod M", Cong(pr.scale(R).add(prod(ie, a), -1), M)), ("r < M", ie.zp(pr) < M)]
        def lt(M=M, *ix):
            return lambda *a: [X.ult(W(a[i]), X.c(M, 256)) for i in ix]
        def bounds(prod, M=M):
            return prod
        A0 = lambda ie, a: P(ie, a[0])
        c.prove(k + "mul", lambda ie, a, r, f=redm: f(ie, a, r, lambda ie, a: P(ie, a[0]).mul(P(ie, a[1]))), mode="int",
                pre=lambda *a, M=M: [X.ult(W(x), X.c(M, 256)) for x in a], lemmas=prodlemma(M, 0, 1), timeout=60, contracts=ADDITIVE, name=k + "mul_redc",
                strategies=("named", True) if k == "g_" else (True, False))
        # square_redc: with the contract of square_full (U03): x^2 = L + 2^256 H; x < M gives H < M
        def c_sq(ex, st, inst, args, M=M):
            L, H = [(tuple(X.var("%s_%d" % (nm, i), 64) for i in range(4)),) for nm in "LH"]
            st.ghost["sq"] = st.ghost.get("sq", 0) + 1
            st.ghost["sqarg"] = W(ex.load(st, args[0]))
            return Fork([(X.ult(W(H), X.c(M, 256)), (L, H))])
        SQ = (r"SquareFullInline for zkp_u256::U256>::square_full_inline$", c_sq)
        def psq(ie, a, r, f=redm):
            if ie.state.ghost.get("sq") != 1: raise Unsupported("square_redc does not square once")
            LH = [X.var("%s_%d" % (nm, i), 64) for nm in "LH" for i in range(4)]
            return f(ie, a, r, lambda ie, a: ie.limbs(LH)) + [("squares its argument", X.eq(ie.state.ghost["sqarg"], W(a[0])))]
        c.prove(k + "sqr", psq, mode="int", contracts=[SQ] + ADDITIVE, timeout=60, name=k + "square_redc", cex=False,
                pre=lambda *a, M=M: [X.ult(W(a[0]), X.c(M, 256))])
        c.prove(k + "redc", lambda ie, a, r, f=redm: f(ie, a, r, lambda ie, a: ie.limbs(u256(a[0]) + u256(a[1]))), mode="int",
                pre=lambda *a, M=M: [X.ult(W(a[1]), X.c(M, 256))], timeout=100, name=k + "redc", contracts=ADDITIVE)
        c.prove(k + "from", lambda ie, a, r, f=redm: f(ie, a, r, lambda ie, a: P(ie, a[0])), mode="int", timeout=100, name=k + "from_montgomery", contracts=ADDITIVE,
                pre=(lambda *a, M=M: [X.ult(W(a[0]), X.c(M, 256))]) if k == "g_" else None)
        c.prove(k + "reduce1", lambda s, a, r, M=M: [("r = a or a - M", X.eq(W(r), X.ite(X.ult(W(a[0]), X.c(M, 256)), W(a[0]), X.sub(W(a[0]), X.c(M, 256)))))])
        def params(s, a, r, M=M):
            return [("M64", X.eq(r[2], X.c(-pow(M, -1, 1 << 64) % (1 << 64), 64))), ("MODULUS", X.eq(W(r[0]), X.c(M, 256)))] + \
                   [("R%d" % (i + 1), X.eq(W(r[1][i]), X.c(pow(R, i + 1, M), 256))) for i in range(3)]
        b = below(M)
        c.search(k + "mul", gens(b, b), lambda x, y, M=M, Ri=Ri: x * y * Ri % M, n=3000)
        c.search(k + "sqr", gens(b), lambda x, M=M, Ri=Ri: x * x * Ri % M, n=2000)
        c.search(k + "redc", gens(gu256, b), lambda lo, hi, M=M, Ri=Ri: (lo + hi * R) * Ri % M, n=2000)
        c.search(k + "from", gens(gu256), lambda x, M=M, Ri=Ri: x * Ri % M, n=1000)
        c.search(k + "to", gens(b), lambda x, M=M: x * R % M, n=1000)
        c.search(k + "reduce1", gens(lambda r, M=M: U(r.choice([below(M)(r), M + below(M)(r), M, M - 1, 2 * M - 1]))), lambda x, M=M: x % M, n=500)
        c.search(k + "inv", gens(b), lambda x, M=M: Some(pow(int(x) * pow(R, -1, M) % M, -1, M) * R % M) if x else None, n=600)
        c.search(k + "mulmod", gens(b, b), lambda x, y, M=M: x * y % M, n=600)
        c.search("to_mont_const", lambda r, M=M, b=b: [b(r), U(M), -pow(M, -1, 1 << 64) % (1 << 64), U(R * R % M)], lambda x, m, m64, r2: x * R % m, n=800)
        # to_montgomery / mul_mod: through the product contract
        def c_mulredc(ex, st, inst, args, M=M):
            x, y = [ex.load(st, a) for a in args]
            n = st.ghost.get("mr", 0)
            st.ghost["mr"] = n + 1
            st.ghost["mr%d" % n] = (W(x), W(y))
            return (tuple(X.var("T%d_%d" % (n, i), 64) for i in range(4)),)
        MR = (r"U256 as zkp_u256::(traits::)?Montgomery>::mul_redc(_inline)?::<.*>$", c_mulredc)
        def pto(s, a, r, M=M):
            if s.ghost.get("mr") != 1: raise Unsupported("to_montgomery does not use one product")
            x, y = s.ghost["mr0"]
            r2 = X.c(R * R % M, 256)
            return [("product with R2", X.bor(X.band(X.eq(x, W(a[0])), X.eq(y, r2)), X.band(X.eq(y, W(a[0])), X.eq(x, r2)))),
                    ("returned", X.eq(W(r), X.concat([X.var("T0_%d" % i, 64) for i in range(4)])))]
        c.prove(k + "to", pto, contracts=[MR], name=k + "to_montgomery via mul_redc contract")
    c.assumptions = ["Montgomery parameters used: the StarkWare prime (Proth path) and the StarkWare curve order (generic path)"]
    c.bounded = ["inv_redc, mul_mod, to_montgomery_const: native runs only"]
    return c

def prodlemma(M, i, j):
    def f(ie, args, res, pcs):
        Y = P(ie, args[j])
        out = []
        for k, x in enumerate(u256(args[i])):
            out += ie.lemma_product(ie.conv(x), 0, M64 if k < 3 else M >> 192, Y, 0, M - 1)
        return out
    return f


# ---- conversions
def u07():
    c = Check("U07", "u256")
    be = lambda v: [X.trunc(X.lshr(W(v), X.c(8 * (31 - i), 256)), 8) for i in range(32)]
    c.prove("to_be", lambda s, a, r: [("byte%d" % i, X.eq(x, y)) for i, (x, y) in enumerate(zip(be(a[0]), r))])
    c.search("to_be", U1, lambda a: list(int(a).to_bytes(32, "big")), n=200)
    c.prove("from_be", lambda s, a, r: is_(X.eq(W(r), X.concat(list(reversed(a[0]))))))
    c.search("from_be", lambda r: [list(int(gu256(r)).to_bytes(32, "big"))], lambda b: int.from_bytes(bytes(b), "big"), n=200)
    ints = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
    sints = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
    for t, w in ints.items():
        c.prove("from_" + t, lambda s, a, r: is_(X.eq(W(r), X.zext(a[0], 256))))
        c.search("from_" + t, gens(gint(w, False)), lambda a: a, n=60)
    for t, w in sints.items():
        c.prove("from_" + t, lambda s, a, r: is_(X.eq(W(r), X.sext(a[0], 256))))
        c.search("from_" + t, gens(gint(w, True)), lambda a: a % R, n=60)
    c.prove("from_bool", lambda s, a, r: is_(X.eq(W(r), X.ite(a[0], X.c(1, 256), X.c(0, 256)))))
    c.search("from_bool", lambda r: [bool(r.randrange(2))], lambda a: int(a), n=4)
    for t, w in list(ints.items()) + list(sints.items()):
        c.prove("as_" + t, lambda s, a, r, w=w: is_(X.eq(r, X.trunc(W(a[0]), w))))
        sg = t[0] == "i"
        c.search("as_" + t, U1, lambda a, w=w, sg=sg: (a % (1 << w)) - ((1 << w) if sg and (a >> (w - 1)) & 1 else 0), n=120)
    c.prove("fromp_u64", lambda s, a, r: [("value", X.eq(W(r.f[0]), X.zext(a[0], 256)) if r.v == 1 else X.c(0, 0))])
    c.search("fromp_u64", gens(gint(64, False)), lambda a: Some(a), n=60)
    c.prove("fromp_i64", lambda s, a, r: [("value", X.eq(W(r.f[0]), X.sext(a[0], 256)) if r.v == 1 else X.c(0, 0))])
    c.search("fromp_i64", gens(gint(64, True)), lambda a: Some(a % R), n=100)
    def tob(w, sg):
        def f(s, a, r):
            fits = X.ult(W(a[0]), X.c(1 << (w - (1 if sg else 0)), 256))
            if r.v == 1:
                return [("in range", fits), ("value", X.eq(r.f[0], X.trunc(W(a[0]), w)))]
            return [("none only out of range", X.bnot(fits))]
        return f
    def gt(w):
        def g(r):
            if r.randrange(2): return [gu256(r)]
            return [U(max(0, (1 << r.choice([w, w - 1])) + r.randrange(-2, 3)))]
        return g
    for t in ("u8", "u32", "u64", "usize", "u128"):
        w = ints[t]
        c.prove("to_" + t, tob(w, False))
        c.search("to_" + t, gt(w), lambda a, w=w: Some(a) if a < 1 << w else None, n=200)
    # signed: the value when it fits a non-negative signed integer (the type is unsigned), None above
    for t in ("i8", "i32", "i64", "i128"):
        w = sints[t]
        c.prove("to_" + t, tob(w, True))
        c.search("to_" + t, gt(w), lambda a, w=w: Some(a) if a < 1 << (w - 1) else None, n=200)
    c.prove("limb", lambda s, a, r: [("limb", X.bor(X.bnot(X.eq(a[1], X.c(i, 64))), X.eq(r, u256(a[0])[i]))) for i in range(4)] +
            [("beyond", X.bor(X.ult(a[1], X.c(4, 64)), X.eq(r, X.c(0, 64))))])
    c.search("limb", gens(gu256, lambda r: r.randrange(6)), lambda a, i: (a >> (64 * i)) & M64, n=100)
    c.prove("from_limbs", lambda s, a, r: is_(X.eq(W(r), X.concat(list(a[0])))))
    c.search("from_limbs", lambda r: [[limb(r) for _ in range(4)]], lambda l: sum(x << (64 * i) for i, x in enumerate(l)), n=50)
    c.prove("as_limbs", lambda s, a, r: is_(X.eq(X.concat(list(r)), W(a[0]))))
    c.search("as_limbs", U1, lambda a: [(a >> (64 * i)) & M64 for i in range(4)], n=50)
    c.search("set_limb", lambda r: [gu256(r), r.randrange(4), limb(r)], lambda a, i, v: a & ~(M64 << (64 * i)) | (v << (64 * i)), n=100)
    # text
    st = lambda x: str(x).encode()
    c.search("to_dec", U1, lambda a: st(int(a)), n=300, fixed=[[U(10 ** k)] for k in range(78)] + [[U(10 ** k - 1)] for k in range(78)])
    def gdec(r):
        k = r.randrange(8)
        if k == 0: return [str(R - 1 + r.randrange(-3, 4))]
        if k == 1: return [str(int(gu256(r)))]
        if k == 2: return [str(R + r.getrandbits(r.randrange(1, 60)))]
        if k == 3: return [str(r.getrandbits(r.randrange(1, 300)))]
        if k == 4: return ["".join(r.choice("0123456789") for _ in range(r.randrange(1, 90)))]
        if k == 5: return ["0" * r.randrange(1, 90) + str(int(gu256(r)))]
        if k == 6:
            s_ = list(str(int(gu256(r))))
            s_.insert(r.randrange(len(s_) + 1), r.choice(list("abzA +-_. ,x/:")))
            return ["".join(s_)]
        return [str(R // 10 + r.randrange(-1, 2)) + r.choice("0123456789")]
    def dec(s_):
        if not all(ch in "0123456789" for ch in s_): return ERR
        if not s_: return ERR
        v = int(s_)
        return Ok_(v) if v < R else ERR
    c.search("from_dec", gdec, dec, n=1500, fixed=[[str(R - 1)], [str(R)], [str(R + 1)], [str(R // 10 * 10)], [str(R // 10 * 10 + 9)], ["\u00e9"], ["1\u00e92"], ["\u0663"], [""]])
    c.search("to_hex", U1, lambda a: ("0x%064x" % a).encode(), n=200)
    c.search("from_hex", lambda r: [(lambda v: r.choice(["%x", "0x%x", "%064x", "0x%064x"]) % v)(gu256(r))], lambda s_: int(s_, 16), n=400)
    c.search("serde_json_rt", U1, judge=lambda a, r: None if isinstance(r, tuple) and r[1] == a[0] else "round trip", n=100)
    c.search("bincode_rt", U1, judge=lambda a, r: None if isinstance(r, tuple) and r[1] == a[0] else "round trip", n=100)
    c.bounded = ["decimal and hexadecimal text, serde: native runs only"]
    return c

CHECKS = {"U01": u01, "U02": u02, "U03": u03, "U04": u04, "U05": u05, "U06": u06, "U07": u07}
