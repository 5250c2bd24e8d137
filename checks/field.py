"""F01-F05: prime fields.  Oracle: Python integers modulo the prime."""
import math
from mirv.core import *
from mirv import expr as X
from mirv.u256c import ADDITIVE
from mirv.field import Ring, Layer, PowLayer, DlogLayer, DLDEFS, fe, FV, PFT
from checks.u256 import W, is_, P, prodlemma
R = R256
PR = {"f": PF, "s": PS}
CL = {"f": FE, "s": SE}

def gfe(k):
    """field elements whose stored words and whose residues are corner-biased"""
    C, p = CL[k], PR[k]
    b = below(p)
    ri = pow(R, -1, p)
    def g(r):
        if r.randrange(2): return C(b(r))
        return C(b(r) * ri % p)
    return g
def nz(k):
    g = gfe(k)
    def h(r):
        while True:
            x = g(r)
            if x: return x
    return h
def pair(k):
    g, C, p = gfe(k), CL[k], PR[k]
    def h(r):
        a = g(r)
        q = r.randrange(5)
        if q == 0: return [a, C(-a % p)]
        if q == 1: return [a, C(a)]
        if q == 2: return [a, C((-a + r.choice([1, -1])) % p)]
        return [a, g(r)]
    return h
def lists(k, lens=(0, 1, 2, 3, 5, 8, 17), z=True):
    g = gfe(k) if z else nz(k)
    return lambda r: [[g(r) for _ in range(r.choice(lens))]]
def redpre(k):
    return lambda *a: [X.ult(W(x), X.c(PR[k], 256)) for x in a]

def modadd(a, b, p):
    s = X.add(W(a), W(b))           # below 2^253: no overflow
    return X.ite(X.ult(s, X.c(p, 256)), s, X.sub(s, X.c(p, 256)))
def modsub(a, b, p):
    return X.ite(X.ult(W(a), W(b)), X.add(X.sub(W(a), W(b)), X.c(p, 256)), X.sub(W(a), W(b)))

def c_redc(p, square=False):
    """contract of mul_redc/square_redc (proved in U06 and, for these primes, in F01):
    operands below p  ->  fresh word T below p, standing for x*y/2^256 mod p"""
    def f(ex, st, inst, args):
        xs = [W(ex.load(st, a)) for a in args]
        if square: xs = xs * 2
        for x in xs:
            ex.obligations.append((list(st.pc), X.ult(x, X.c(p, 256)), "redc operand reduced"))
        n = st.ghost.get("mr", 0)
        st.ghost["mr"] = n + 1
        st.ghost["mr%d" % n] = tuple(xs)
        T = (tuple(X.var("T%d_%d" % (n, i), 64) for i in range(4)),)
        return Fork([(X.ult(W(T), X.c(p, 256)), T)])
    return f
def REDC(p):
    return [(r"Montgomery( for zkp_u256::U256)?>::mul_redc(_inline)?::<", c_redc(p)),
            (r"Montgomery( for zkp_u256::U256)?>::square_redc(_inline)?::<", c_redc(p, True))]
def one_product(p):
    def post(s, a, r):
        if s.ghost.get("mr") != 1: raise Unsupported("not a single Montgomery product")
        x, y = s.ghost["mr0"]
        a0, a1 = W(a[0]), W(a[-1])
        return [("operands", X.bor(X.band(X.eq(x, a0), X.eq(y, a1)), X.band(X.eq(x, a1), X.eq(y, a0)))),
                ("returns the product", X.eq(W(r), X.concat([X.var("T0_%d" % i, 64) for i in range(4)])))]
    return post

def f01():
    c = Check("F01", "field")
    for k in "fs":
        p, C = PR[k], CL[k]
        pre = redpre(k)
        pp = pair(k)
        for v in "rr rv vr vv ar av i1 i2 i3 i4".split():
            c.prove("%s_add_%s" % (k, v), lambda s, a, r, p=p: is_(X.eq(W(r), modadd(a[0], a[1], p))), pre=pre, contracts=ADDITIVE)
            c.search("%s_add_%s" % (k, v), pp, lambda a, b, p=p, C=C: C((a + b) % p), n=80)
            c.prove("%s_sub_%s" % (k, v), lambda s, a, r, p=p: is_(X.eq(W(r), modsub(a[0], a[1], p))), pre=pre, contracts=ADDITIVE)
            c.search("%s_sub_%s" % (k, v), pp, lambda a, b, p=p, C=C: C((a - b) % p), n=80)
            c.prove("%s_mul_%s" % (k, v), one_product(p), pre=pre, contracts=ADDITIVE + REDC(p), feasible=True, cex=True)
            c.search("%s_mul_%s" % (k, v), pp, lambda a, b, p=p, C=C: C(a * b % p), n=150)
        for v in "r v i1 i2 i4".split():
            c.prove("%s_neg_%s" % (k, v), lambda s, a, r, p=p: is_(X.eq(W(r), X.ite(X.eq(W(a[0]), X.c(0, 256)), X.c(0, 256), X.sub(X.c(p, 256), W(a[0]))))), pre=pre, contracts=ADDITIVE)
            c.search("%s_neg_%s" % (k, v), gens(gfe(k)), lambda a, p=p, C=C: C(-a % p), n=80)
        for v in ("sq", "sq_i1", "sq_i2", "sq_i4"):
            c.prove("%s_%s" % (k, v), one_product(p), pre=pre, contracts=ADDITIVE + REDC(p), feasible=True)
            c.search("%s_%s" % (k, v), gens(gfe(k)), lambda a, p=p, C=C: C(a * a % p), n=300)
        c.prove(k + "_dbl", lambda s, a, r, p=p: is_(X.eq(W(r), modadd(a[0], a[0], p))), pre=pre, contracts=ADDITIVE)
        c.search(k + "_dbl", gens(gfe(k)), lambda a, p=p, C=C: C(2 * a % p), n=200)
        def tpl(s, a, r, p=p):
            two = modadd(a[0], a[0], p)
            t = X.add(two, W(a[0]))
            return is_(X.eq(W(r), X.ite(X.ult(t, X.c(p, 256)), t, X.sub(t, X.c(p, 256)))))
        c.prove(k + "_tpl", tpl, pre=pre, contracts=ADDITIVE)
        c.search(k + "_tpl", gens(gfe(k)), lambda a, p=p, C=C: C(3 * a % p), n=200)
        # the products themselves, whole code of the field's own instance, no contract below the additive layer
        def redm(ie, a, r, prod, p=p):
            q = P(ie, r)
            return [("r * 2^256 = product mod p", Cong(q.scale(R).add(prod(ie, a), -1), p)), ("r < p", ie.zp(q) < p)]
        c.prove(k + "_mul_i1", lambda ie, a, r, f=redm: f(ie, a, r, lambda ie, a: P(ie, a[0]).mul(P(ie, a[1]))), mode="int", pre=pre,
                lemmas=prodlemma(p, 0, 1), timeout=90, contracts=ADDITIVE, name=k + "_mul (full code)",
                strategies=("named", True) if k == "s" else (True, False))
        def c_sq(ex, st, inst, args, p=p):
            L, H = [(tuple(X.var("%s_%d" % (nm, i), 64) for i in range(4)),) for nm in "LH"]
            st.ghost["sq"] = st.ghost.get("sq", 0) + 1
            st.ghost["sqarg"] = W(ex.load(st, args[0]))
            return Fork([(X.ult(W(H), X.c(p, 256)), (L, H))])
        SQ = (r"SquareFullInline for zkp_u256::U256>::square_full_inline$", c_sq)
        def psq(ie, a, r, f=redm):
            if ie.state.ghost.get("sq") != 1: raise Unsupported("does not square once")
            LH = [X.var("%s_%d" % (nm, i), 64) for nm in "LH" for i in range(4)]
            return f(ie, a, r, lambda ie, a: ie.limbs(LH)) + [("squares its argument", X.eq(ie.state.ghost["sqarg"], W(a[0])))]
        c.prove(k + "_sq_i1", psq, mode="int", contracts=[SQ] + ADDITIVE, timeout=90, name=k + "_sq (full code)", cex=False, pre=pre)
        for op, v in (("zero", 0), ("default", 0), ("one", 1)):
            c.prove("%s_%s" % (k, op), lambda s, a, r, v=v, p=p: is_(X.eq(W(r), X.c(v * R % p, 256))))
            c.search("%s_%s" % (k, op), gens(), lambda v=v, C=C: C(v), n=1)
        c.prove(k + "_is_zero", lambda s, a, r: is_(X.eq(r, X.eq(W(a[0]), X.c(0, 256)))), pre=pre)
        c.search(k + "_is_zero", gens(gfe(k)), lambda a: int(a == 0), n=60)
        c.prove(k + "_is_one", lambda s, a, r, p=p: is_(X.eq(r, X.eq(W(a[0]), X.c(R % p, 256)))), pre=pre)
        c.search(k + "_is_one", gens(gfe(k)), lambda a: int(a == 1), n=60)
        c.prove(k + "_eq", lambda s, a, r: is_(X.eq(r, X.eq(W(a[0]), W(a[1])))), pre=pre)
        c.search(k + "_eq", pp, lambda a, b: int(a == b), n=200)
        c.prove(k + "_ne", lambda s, a, r: is_(X.eq(r, X.bnot(X.eq(W(a[0]), W(a[1]))))), pre=pre)
        c.search(k + "_ne", pp, lambda a, b: int(a != b), n=200)
        c.prove(k + "_clone", lambda s, a, r: is_(X.eq(W(r), W(a[0]))), pre=pre)
        c.search(k + "_clone", gens(gfe(k)), lambda a: a, n=50)
        for op in ("sum", "sumr"):
            c.search("%s_%s" % (k, op), lists(k), lambda v, p=p, C=C: C(sum(v) % p), n=40)
        for op in ("prod", "prodr"):
            c.search("%s_%s" % (k, op), lists(k), lambda v, p=p, C=C: C(math.prod(v) % p), n=40)
        c.search(k + "_to_uint", gens(gfe(k)), lambda a: int(a), n=200)
        c.prove(k + "_to_uint", lambda ie, a, r, p=p: [("r * 2^256 = word mod p", Cong(P(ie, r).scale(R).add(P(ie, a[0]), -1), p)), ("r < p", ie.zp(P(ie, r)) < p)],
                mode="int", pre=pre, contracts=ADDITIVE, timeout=90)
    c.assumptions = ["the hash of an element is std's derived hash of its stored word (not verified)"]
    c.bounded = ["sums and products of iterators: native runs"]
    return c

def factors(n):
    out = []
    q = 2
    while q < 1 << 20 and n > 1:
        if n % q == 0:
            out.append(q)
            while n % q == 0: n //= q
        q += 1
    return out, n

WHICH = {"f": "Proth", "s": "Order"}
def c_inv_mod(ex, st, inst, args):
    """contract of U256::inv_mod for a prime modulus (U05): None for 0, else T with n*T = 1 (mod m), T < m"""
    n, m = (W(ex.load(st, a)) for a in args)
    st.ghost["im"] = st.ghost.get("im", 0) + 1
    st.ghost["im0"] = (n, m)
    T = (tuple(X.var("I_%d" % i, 64) for i in range(4)),)
    return Fork([(X.eq(n, X.c(0, 256)), En(0, ())), (X.band(X.ne(n, X.c(0, 256)), X.ult(W(T), m)), En(1, (T,)))])
def f02_proofs(c, k):
    p = PR[k]
    R3 = pow(R, 3, p)
    def inv(s, a, r):
        if s.ghost.get("im") != 1: raise Unsupported("not one modular inversion")
        n, m = s.ghost["im0"]
        pre = [("inverts the word modulo p", X.band(X.eq(n, W(a[0])), X.eq(m, X.c(p, 256))))]
        if r.v == 0: return pre + [("None only for zero", X.eq(W(a[0]), X.c(0, 256)))]
        if s.ghost.get("mr") != 1: raise Unsupported("not a single Montgomery product")
        x, y = s.ghost["mr0"]
        t, r3 = X.concat([X.var("I_%d" % i, 64) for i in range(4)]), X.c(R3, 256)
        return pre + [("times 2^768", X.bor(X.band(X.eq(x, t), X.eq(y, r3)), X.band(X.eq(y, t), X.eq(x, r3)))),
                      ("that product", X.eq(W(r.f[0]), X.concat([X.var("T0_%d" % i, 64) for i in range(4)])))]
    c.prove(k + "_inv", inv, pre=redpre(k), contracts=ADDITIVE + REDC(p) + [(r"InvMod( for zkp_u256::U256)?>::inv_mod$", c_inv_mod)], feasible=True)
    def alg(op, nm, mk, **kw):
        ring = Ring(p)
        L = Layer(ring, WHICH[k])
        args, post = mk(ring, L)
        c.prove("%s_%s" % (k, op), post, argf=lambda env, ats: args(env) if callable(args) else list(args), contracts=L.contracts, feasible=True, name="%s_%s (%s)" % (k, op, nm), **kw)
    for v in "rr rv vr vv ar av".split():
        def mk(g, L):
            a, b = g.sym("a"), g.sym("b", nonzero=True)
            return [fe(a), fe(b)], lambda s, _, r: [("a/b", L.eq(s, r, a / b))]
        alg("div_" + v, "any a, b not 0", mk)
        alg("div_" + v, "b = 0", lambda g, L: ([fe(g.sym("a")), fe(g.const(0))], lambda s, _, r: []), panics=lambda *a: X.TRUE)
    for n in (0, 1, 2, 3, 5, 8):
        def mk(g, L, n=n):
            xs = [g.sym("x%d" % i, nonzero=True) for i in range(n)]
            return (lambda env: [env.vals.vec([fe(x) for x in xs])]), lambda s, _, r: [("length", X.boolc(len(vecval(s, r)) == n))] + [("inverse %d" % i, L.eq(s, e, xs[i].inv())) for i, e in enumerate(vecval(s, r))]
        alg("batch", "%d elements, none zero" % n, mk)
        def mk(g, L, n=n):
            xs = [g.sym("x%d" % i, nonzero=True) for i in range(n)]
            ds = [g.sym("d%d" % i) for i in range(n)]
            return (lambda env: [env.vals.vec([fe(x) for x in xs]), env.vals.vec([fe(x) for x in ds])]), lambda s, _, r: [("length", X.boolc(len(vecval(s, r)) == n))] + [("inverse %d" % i, L.eq(s, e, xs[i].inv())) for i, e in enumerate(vecval(s, r))]
        alg("batch_sd", "%d elements, none zero" % n, mk)
    # powers: any base, any exponent, split by the exponent's highest bit
    for op, w in (("pow_u", 64), ("pow_ur", 64), ("pow_256", 256), ("pow_i", 64)):
        subs = []
        for m in range(-1, w if op != "pow_i" else 63):
            for sg in (1, -1) if op == "pow_i" and m >= 0 else (1,):
                subs.append(pow_case(k, op, w, m, sg))
        for i in range(0, len(subs), 16 if w == 256 else 64):
            q = subs[i:i + (16 if w == 256 else 64)]
            c.many("%s_%s (any base, exponents %d of %d)" % (k, op, i // len(q) + 1, -(-len(subs) // len(q))), q)
def pow_case(k, op, w, m, sg):
    """exponents e with 2^m <= |e| < 2^(m+1) (m = -1: zero)"""
    PL = PowLayer(2 * w + 16, WHICH[k])
    if m < 0: e = X.c(0, w)
    elif m == 0: e = X.c(1, w)
    else: e = X.concat([X.var("e", m), X.c(1, w - m)])
    if sg < 0: e = X.neg(e)
    def argf(env, ats):
        v = e
        if w == 256: v = (tuple(X.extract(e, 64 * i, 64) for i in range(4)),)
        return [PL.base(), v]
    def post(s, a, r):
        z = X.var("base is zero", 0)
        if op == "pow_i":
            neg = X.boolc(sg < 0)
            if r.v == 0: return [("None only for a negative power of zero", X.band(neg, z))]
            return [("Some unless a negative power of zero", X.bnot(X.band(neg, z))), ("exponent", X.eq(PL.get(None, s, r.f[0]).e, X.sext(e, PL.W)))]
        return [("exponent", X.eq(PL.get(None, s, r).e, X.zext(e, PL.W)))]
    return Prove("%s_%s" % (k, op), post, argf=argf, contracts=PL.contracts, merge=True, feasible=None, name="|e| in 2^%d.." % m, cex=False)
def f02():
    c = Check("F02", "field")
    for k in "fs":
        p, C = PR[k], CL[k]
        inv = lambda a, p=p, C=C: C(pow(int(a), -1, p))
        c.search(k + "_inv", gens(gfe(k)), lambda a, inv=inv: Some(inv(a)) if a else None, n=1500)
        for v in "rr rv vr vv ar av".split():
            c.search("%s_div_%s" % (k, v), gens(gfe(k), nz(k)), lambda a, b, p=p, C=C: C(int(a) * pow(int(b), -1, p) % p), n=60)
        ge = lambda r: r.choice([0, 1, 2, 3, 4, 5, 7, 8, r.randrange(300), r.getrandbits(r.randrange(1, 65)), 1 << r.randrange(64), (1 << r.randrange(1, 65)) - 1, M64, 1 << 63])
        for op in ("pow_u", "pow_ur"):
            c.search("%s_%s" % (k, op), gens(gfe(k), ge), lambda a, e, p=p, C=C: C(pow(int(a), e, p)), n=400)
        c.search(k + "_pow_256", gens(gfe(k), gu256), lambda a, e, p=p, C=C: C(pow(int(a), int(e), p)), n=300,
                 fixed=[[C(5), U(p - 1)], [C(5), U(p)], [C(5), U(p - 2)], [C(0), U(0)]])
        gi = lambda r: r.choice([0, 1, -1, 2, -2, r.randrange(-50, 50), r.randrange(-(1 << 63) + 1, 1 << 63)])
        def powi(a, e, p=p, C=C):
            if e >= 0: return Some(C(pow(int(a), e, p)))
            return Some(C(pow(int(a), e, p))) if a else None
        c.search(k + "_pow_i", gens(gfe(k), gi), powi, n=200)
        L = (1, 2, 3, 4, 5, 7, 8, 16, 33, 100)
        c.search(k + "_batch", lists(k, L, z=False), lambda v, inv=inv: [inv(x) for x in v], n=60)
        f02_proofs(c, k)
        c.search(k + "_batch_sd", lambda r, k=k: [(l := lists(k, L, z=False)(r)[0]), [gfe(k)(r) for _ in l]], lambda v, d, inv=inv: [inv(x) for x in v], n=60)
    return c

def f03():
    c = Check("F03", "field")
    for k in "fs":
        p, C = PR[k], CL[k]
        small, rest = factors(p - 1)
        # for the orders used below every prime factor is in `small`
        def order_ok(args, res, p=p, small=small):
            n = int(args[0])
            if n == 0: return None if res == Some(CL[k](1)) else "root of order 0 must be one"
            if (p - 1) % n: return None if res is None else "no root of this order exists"
            if not isinstance(res, Some): return "a root of order %d exists" % n
            x = int(res.x)
            if pow(x, n, p) != 1: return "not an n-th root of unity"
            m = n
            for q in list(small):
                if m % q == 0:
                    if pow(x, n // q, p) == 1: return "order is smaller than %d" % n
                    while m % q == 0: m //= q
            if m > 1 and pow(x, n // m, p) == 1: return "order is smaller than %d" % n
            return None
        def gn(r, p=p, small=small):
            q = r.randrange(4)
            if q == 0: return r.randrange(0, 70)
            if q == 1:
                n = 1
                for _ in range(r.randrange(1, 30)):
                    m = n * r.choice(small)
                    if m <= M64 and (p - 1) % m == 0: n = m
                return n
            if q == 2: return 1 << r.randrange(64)
            return r.getrandbits(r.randrange(1, 65))
        c.search(k + "_root", gens(gn), judge=order_ok, n=400, fixed=[[i] for i in range(40)] + [[1 << i] for i in range(64)])
        def gn2(r, p=p, small=small):
            q = r.randrange(3)
            if q == 0: return U(gn(r))
            if q == 1:
                n = 1
                for _ in range(r.randrange(1, 250)):
                    m = n * r.choice(small)
                    if (p - 1) % m == 0: n = m
                return U(n)
            return U((p - 1) // r.choice([1] + small))
        c.search(k + "_root_256", gens(gn2), judge=order_ok, n=300, fixed=[[U(p - 1)], [U(p)], [U(0)], [U(1)], [U((p - 1) // 2)]])
        leg = lambda a, p=p: a == 0 or pow(int(a), (p - 1) // 2, p) == 1
        def gsq(r, k=k, p=p, C=C):
            a = gfe(k)(r)
            q = r.randrange(4)
            if q == 0: return [C(a * a % p)]
            if q == 1: return [C(3 * a * a % p)]
            if q == 2: return [C(pow(3, (p - 1) >> r.randrange(0, min(193, ((p - 1) & -(p - 1)).bit_length())), p))]
            return [a]
        def sq_ok(args, res, p=p, leg=leg):
            a = int(args[0])
            if not leg(a): return None if res is None else "non-residue has no root"
            if not isinstance(res, Some): return "a square root exists"
            return None if int(res.x) ** 2 % p == a else "does not square back"
        c.search(k + "_sqrt", gsq, judge=sq_ok, n=60, fixed=[[C(0)], [C(1)], [C(p - 1)], [C(4)], [C(3)]])
        c.search(k + "_is_qr", gsq, lambda a, leg=leg: int(leg(a)), n=200, fixed=[[C(0)], [C(1)], [C(p - 1)]])
        def gen_ok(args, res, p=p, small=small, rest=rest):
            x = int(res)
            if x % p == 0: return "zero"
            for q in small + ([rest] if rest > 1 else []):
                if pow(x, (p - 1) // q, p) == 1: return "generator lies in the subgroup of index %d" % q
            return None
        c.search(k + "_gen", gens(), judge=gen_ok, n=1)
        c.search(k + "_order", gens(), lambda p=p: p - 1, n=1)
        c.search(k + "_modulus", gens(), lambda p=p: p, n=1)
        c.prove(k + "_order", lambda s, a, r, p=p: is_(X.eq(W(r), X.c(p - 1, 256))))
        c.prove(k + "_modulus", lambda s, a, r, p=p: is_(X.eq(W(r), X.c(p, 256))))
        f03_proofs(c, k, p, small, rest)
    return c

def f03_proofs(c, k, p, small, rest):
    N = p - 1
    # the generator: a constant of full order (N is factored, the factors are prime)
    def full(s, a, r):
        w = r[0]
        while len(w) != 4: w = w[0]
        if not all(isinstance(x, E) and x.const for x in w): raise Unsupported("not a constant")
        x = sum(q.val << (64 * i) for i, q in enumerate(w)) * pow(1 << 256, -1, p) % p
        return [("generates the group: index %d" % q, X.boolc(pow(x, N // q, p) != 1)) for q in small + ([rest] if rest > 1 else [])]
    c.prove(k + "_gen", full, name=k + "_gen has full order")
    # roots of unity: g^(N / n) for every n dividing N (g of full order, so its order is n), over the contracts of div_rem and pow
    T = PFT % WHICH[k]
    for op in ("root", "root_256"):
        def c_div(ex, st, i, a):
            n = ex.load(st, a[0])
            n = W(n)
            if not (n.const and n.val == N): raise Unsupported("not a division of the group order")
            d = a[1]
            while isinstance(d, Ptr): d = ex.load(st, d)
            big = isinstance(d, tuple)
            d = W(d) if big else X.zext(d, 256)
            st.ghost["divisor"] = d
            z = X.eq(d, X.c(0, 256))
            q = (tuple(X.var("Q_%d" % j, 64) for j in range(4)),)
            r = (tuple(X.var("R_%d" % j, 64) for j in range(4)),) if big else X.var("R_0", 64)
            return Fork([(z, En(0, ())), (X.bnot(z), En(1, ((q, r),)))])
        def c_pow(ex, st, i, a):
            b = ex.load(st, a[0])
            if not (isinstance(b, Opq) and b.kind == "gen"): raise Unsupported("not a power of the generator")
            e = a[1]
            while isinstance(e, Ptr): e = ex.load(st, e)
            return Opq("gpow", W(e) if isinstance(e, tuple) else X.zext(e, 256))
        cs = [(r"DivRem<.*> for zkp_u256::U256>::div_rem$|<zkp_u256::U256 as [\w:]*DivRem<.*>>::div_rem$", c_div), (r"^<&%s as num_traits::Pow<.*>>::pow$" % T, c_pow),
              (r"^%s::generator$" % T.replace("Field<", "Field::<"), lambda ex, st, i, a: Opq("gen", 0)), (r"^<%s as num_traits::One>::one$" % T, lambda ex, st, i, a: Opq("one", 0))]
        def post(s, a, r, op=op):
            n = W(a[0]) if op == "root_256" else X.zext(a[0], 256)
            Q = X.concat([X.var("Q_%d" % j, 64) for j in range(4)])
            R = X.concat([X.var("R_%d" % j, 64) for j in range(4)]) if op == "root_256" else X.zext(X.var("R_0", 64), 256)
            d = s.ghost.get("divisor")
            if d is None: raise Unsupported("the group order is not divided")
            z = X.eq(n, X.c(0, 256))
            g = [("divided by the order asked for", X.eq(d, n))]
            if r.v == 0: return g + [("no root only if the order does not divide", X.band(X.bnot(z), X.bnot(X.eq(R, X.c(0, 256)))))]
            v = r.f[0]
            if not isinstance(v, Opq): raise Unsupported("value of the root")
            if v.kind == "one": return g + [("one only for order zero or one", X.bor(z, X.eq(n, X.c(1, 256))))]
            if v.kind != "gpow": raise Unsupported("value of the root")
            return g + [("a root only if the order divides", X.band(X.bnot(z), X.eq(R, X.c(0, 256)))), ("exponent", X.eq(v.x, Q))]
        c.prove("%s_%s" % (k, op), post, contracts=cs, name="%s_%s for every order" % (k, op), cex=False)
    # square roots: the argument is zero or g^log
    D = DlogLayer(p, WHICH[k])
    def sargs(env, ats):
        del DLDEFS[:]
        return [D.arg()]
    even = X.eq(X.extract(D.k, 0, 1), X.c(0, 1))
    def isqr(s, a, r): return [("residue iff the logarithm is even", X.eq(r, even))]
    c.prove(k + "_is_qr", isqr, argf=sargs, contracts=D.contracts, name=k + "_is_qr for every non-zero element", cex=False)
    def lemmas(s):
        """facts `the order of root^2 / a divides 2^(s-1-i)` along the loop, each proved from the previous one and one definition"""
        out, bv = [], BV()
        cur = None
        for v, d in list(DLDEFS):
            n = len(out) + 2
            if n > D.s: break
            t = X.add(D.k, X.add(v, v))
            f = X.eq(X.extract(t, 0, n), X.c(0, n))
            hyp = out[-1:] + [X.eq(v, d)] + ([] if out else [even])
            if BV().check(hyp + [X.bnot(f)], 20000)[0] != "unsat": break
            out.append(f)
        return out
    def sq(s, a, r):
        if r.v == 0: return [("no root only for a non-residue", X.bnot(even))]
        v = D.get(None, s, r.f[0])
        ds = [X.eq(x, d) for x, d in DLDEFS]
        ls = lemmas(s)
        hyp = X.boolc(True)
        for h in ls[-1:] if len(ls) == len(DLDEFS) else ds + ls: hyp = X.band(hyp, h)
        return [("a root only for a residue", even), ("squares back", X.bor(X.bnot(hyp), D.same((2 * v[0] % N, 2 * v[1] % N, X.add(v[2], v[2])), (1, 0, X.c(0, D.s)))))]
    c.prove(k + "_sqrt", sq, argf=sargs, contracts=D.contracts, merge=True, name=k + "_sqrt for every non-zero element", cex=False, timeout=100)
    c.prove(k + "_sqrt", lambda s, a, r: [("zero", X.boolc(r.v == 1) if r.v != 1 else X.eq(W(raw(r.f[0])), X.c(0, 256)))], argf=lambda env, ats: [((((X.c(0, 64),) * 4,)), ())], name=k + "_sqrt of zero")
    c.prove(k + "_is_qr", lambda s, a, r: [("zero is a square", r)], argf=lambda env, ats: [((((X.c(0, 64),) * 4,)), ())], name=k + "_is_qr of zero")
def raw(v):
    w = v[0]
    return w

W_ = {}
def root_of(n):
    if n not in W_: W_[n] = pow(3, (PF - 1) // n, PF) if n > 1 else 1
    return W_[n]
def brev(n, i):
    b = n.bit_length() - 1
    return int(bin(i)[2:].zfill(b)[::-1], 2) if b else 0
def npfft(v, w):
    """plain radix-2 evaluation: out[i] = sum v[j] w^(ij) (natural order)"""
    n = len(v)
    if n == 1: return list(v)
    w2 = w * w % PF
    e, o = npfft(v[::2], w2), npfft(v[1::2], w2)
    out = [0] * n
    t = 1
    for i in range(n // 2):
        x = o[i] * t % PF
        out[i] = (e[i] + x) % PF
        out[i + n // 2] = (e[i] - x) % PF
        t = t * w % PF
    return out
def rev(v):
    n = len(v)
    return [v[brev(n, i)] for i in range(n)]
def FL(v): return [FE(x) for x in v]
def vec(logs, dense=True):
    g = gfe("f")
    def h(r):
        n = 1 << r.choice(logs)
        if n > 256:
            return [FE(r.getrandbits(252) % PF) for _ in range(n)]
        return [g(r) for _ in range(n)]
    return h

def f04():
    c = Check("F04", "field")
    o_fft = lambda v: FL(rev(npfft(v, root_of(len(v)))))
    small = list(range(0, 9))
    big = [9, 10, 11, 12]
    V, VB = vec(small), vec(big)
    g = gfe("f")
    def o_cof(v, s):
        n = len(v)
        return FL(rev(npfft([x * pow(int(s), i, PF) % PF for i, x in enumerate(v)], root_of(n))))
    def o_ifft(v):
        n = len(v)
        ni = pow(n, -1, PF)
        return FL([x * ni % PF for x in rev(npfft(v, pow(root_of(n), -1, PF)))])
    def o_icof(v, s):
        si = pow(int(s), -1, PF)
        return FL([int(x) * pow(si, i, PF) % PF for i, x in enumerate(o_ifft(v))])
    def both(op, gen, gb, o, n=40, nb=4):
        c.search(op, gen, o, n=n)
        for l in big:
            vb = vec([l])
            c.search(op, (lambda r, vb=vb: gb(r, vb)), o, n=nb if l < 12 else 1)
    both("fft", lambda r: [V(r)], lambda r, vb: [vb(r)], o_fft)
    both("ifft", lambda r: [V(r)], lambda r, vb: [vb(r)], o_ifft)
    both("fft_cof", lambda r: [V(r), nz("f")(r)], lambda r, vb: [vb(r), nz("f")(r)], o_cof)
    both("ifft_cof", lambda r: [V(r), nz("f")(r)], lambda r, vb: [vb(r), nz("f")(r)], o_icof)
    def groot(r, vv):
        v = vv(r)
        n = len(v)
        return [v, FE(pow(root_of(n), r.randrange(1, max(2, n), 2) if n > 1 else 1, PF))]
    o_root = lambda v, w: FL(rev(npfft(v, int(w))))
    both("fft_root", lambda r: groot(r, V), lambda r, vb: groot(r, vb), o_root)
    c.search("fft_rec", lambda r: groot(r, V), o_root, n=40)
    for l in range(1, 13):
        c.search("radix_sqrt", lambda r, l=l: groot(r, vec([l])), o_root, n=3 if l < 11 else 1)
    c.search("radix_2", lambda r: [[g(r), g(r)]], lambda v: FL([(v[0] + v[1]) % PF, (v[0] - v[1]) % PF]), n=60)
    c.search("radix_4", lambda r: groot(r, vec([2])), o_root, n=60)
    c.search("radix_8", lambda r: groot(r, vec([3])), o_root, n=60)
    c.search("twiddles", lambda r: [FE(root_of(n := 1 << r.randrange(1, 9))), n],
             lambda w, n: FL(rev([pow(int(w), i, PF) for i in range(n // 2)])) if n > 1 else [], n=20)
    def gcs(r):
        n = r.choice([1, 2, 5, 64, 1024, 1025, 2048, 3000, 9000])
        return [[g(r) for _ in range(n)], [g(r) for _ in range(n)], nz("f")(r)]
    c.search("clone_shifted", gcs,
             lambda d, v, s: FL([x * pow(int(s), i, PF) % PF for i, x in enumerate(v)]), n=12)
    gp = lambda r: (lambda b: [1 << b, r.getrandbits(b) if b else 0])(r.choice([r.randrange(0, 12), r.randrange(0, 64)]))
    c.search("permute_index", gp, lambda n, i: brev(n, i), n=800)
    c.search("permute", lambda r: [[r.getrandbits(64) for _ in range(1 << r.randrange(0, 11))]], lambda v: rev(v), n=60)
    def tr(r):
        n = 1 << r.randrange(1, 6)
        s = r.choice([1, 2])
        return [[r.getrandbits(40) for _ in range(n * n * s)], n, s]
    def o_tr(v, n, s):
        out = [0] * len(v)
        for i in range(n):
            for j in range(n):
                for q in range(s):
                    out[(j * n + i) * s + q] = v[(i * n + j) * s + q]
        return out
    c.search("transpose", tr, o_tr, n=40)
    c.search("roots", lambda r: [1 << r.randrange(0, 9)], lambda n: FL([pow(root_of(n), i, PF) for i in range(n)]), n=12)
    f04_proofs(c)
    return c

def dft(xs, w, ring):
    """sum_j x_j w^(ij) for every i"""
    n = len(xs)
    out = []
    for i in range(n):
        acc = {}
        for j, x in enumerate(xs):
            k = pow(w, i * j, PF)
            for m, q in x.n.items():
                acc[m] = (acc.get(m, 0) + q * k) % PF
        out.append(FV(ring, {m: q for m, q in acc.items() if q}, None))
    return out
def f04_proofs(c):
    def alg(op, nm, mk, **kw):
        bits = kw.pop("bits", 3)
        ring = Ring(PF, bits=bits)
        L = Layer(ring, "Proth")
        cx = []
        def args(env, ats):
            if not cx: cx.append(mk(ring))
            return cx[0][0](env, ats)
        def post(s, _, r):
            out, want = vecval(s, r), cx[0][1]
            return [("length", X.boolc(len(out) == len(want)))] + [("element %d" % i, L.eq(s, e, x)) for i, (e, x) in enumerate(zip(out, want))]
        kw.setdefault("feasible", True)
        c.prove("%s" % op, post, argf=args, contracts=L.contracts, name="%s (%s)" % (op, nm), **kw)
    V = lambda env, xs: env.vals.vec([fe(x) for x in xs])
    W_ = lambda env, ats, w, i=1: env.vals.conc(ats[i], FE(w))
    rv = lambda xs: [xs[brev(len(xs), i)] for i in range(len(xs))]
    def size(l):
        n = 1 << l
        w = root_of(n)
        wi = pow(w, -1, PF)
        ni = pow(n, -1, PF)
        def xs(g, n=n): return [g.sym("x%d" % i) for i in range(n)]
        def fwd(g, w=w):
            x = xs(g)
            return (lambda env, ats: [V(env, x)]), rv(dft(x, w, g))
        def inv(g, wi=wi, ni=ni):
            x = xs(g)
            return (lambda env, ats: [V(env, x)]), rv([y * ni for y in dft(x, wi, g)])
        alg("fft", "any %d values" % n, fwd)
        alg("ifft", "any %d values" % n, inv)
        if l > 8: return
        if l <= 5:
            def cof(g, w=w):
                x, k = xs(g), g.sym("cofactor")
                return (lambda env, ats: [V(env, x), fe(k)]), rv(dft([y * k ** i for i, y in enumerate(x)], w, g))
            def icof(g, wi=wi, ni=ni):
                x, k = xs(g), g.sym("cofactor", nonzero=True)
                ki = k.inv()
                return (lambda env, ats: [V(env, x), fe(k)]), [y * ni * ki ** i for i, y in enumerate(rv(dft(x, wi, g)))]
            alg("fft_cof", "any %d values, any cofactor" % n, cof, bits=10)
            alg("ifft_cof", "any %d values, any cofactor but 0" % n, icof, bits=10)
        for op in ("fft_root", "fft_rec", "radix_sqrt") + (("radix_4",) if l == 2 else ()) + (("radix_8",) if l == 3 else ()):
            for e in sorted({1, n - 1, 3 % n} - {0}) if n > 2 else [1]:
                we = pow(w, e, PF)
                def rt(g, we=we):
                    x = xs(g)
                    return (lambda env, ats: [V(env, x), W_(env, ats, we)]), rv(dft(x, we, g))
                alg(op, "any %d values, root ^%d" % (n, e), rt)
        def tw(g, w=w, n=n):
            t = [g.const(pow(w, i, PF)) for i in range(n // 2)]
            return (lambda env, ats: [W_(env, ats, w, 0), X.c(n, 64)]), rv(t)
        if l: alg("twiddles", "%d" % n, tw)
        alg("roots", "%d" % n, lambda g, w=w, n=n: ((lambda env, ats: [X.c(n, 64)]), [g.const(pow(w, i, PF)) for i in range(n)]))
    for l in [10] + list(range(0, 10)): size(l)
    def r2(g):
        x = [g.sym("x0"), g.sym("x1")]
        return (lambda env, ats: [V(env, x)]), [x[0] + x[1], x[0] - x[1]]
    alg("radix_2", "any 2 values", r2)
    for n in (0, 1, 2, 3, 7, 16):
        def cs(g, n=n):
            x, y, k = [g.sym("s%d" % i) for i in range(n)], [g.sym("d%d" % i) for i in range(n)], g.sym("cofactor")
            return (lambda env, ats: [V(env, y), V(env, x), fe(k)]), [v * k ** i for i, v in enumerate(x)]
        alg("clone_shifted", "any %d values, any cofactor, any number of threads" % n, cs, bits=8)
    # permutations of any content
    def words(op, nm, n, args, want, **kw):
        vs = [X.var("v%d" % i, 64) for i in range(n)]
        def post(s, a, r):
            out = vecval(s, r)
            return [("length", X.boolc(len(out) == n))] + [("element %d" % i, X.eq(e, vs[q])) for i, (e, q) in enumerate(zip(out, want))]
        c.prove(op, post, argf=lambda env, ats: [env.vals.vec(vs)] + args, name="%s (%s)" % (op, nm), feasible=True, **kw)
    for l in range(0, 9):
        n = 1 << l
        words("permute", "any %d values" % n, n, [], [brev(n, i) for i in range(n)])
    for n in (2, 4, 6, 8, 16):
        for q in (1, 2):
            want = [0] * (n * n * q)
            for i in range(n):
                for j in range(n):
                    for t in range(q): want[(j * n + i) * q + t] = (i * n + j) * q + t
            words("transpose", "any %d x %d of %d" % (n, n, q), n * n * q, [X.c(n, 64), X.c(q, 64)], want)
    # every power of two and every index
    for l in range(0, 64):
        n = 1 << l
        i = X.zext(X.var("i", l), 64) if l else X.c(0, 64)
        def post(s, a, r, l=l):
            if l == 0: return [("0", X.eq(r, X.c(0, 64)))]
            return [("reversed", X.eq(r, X.zext(X.bitrev(X.var("i", l)), 64)))]
        c.prove("permute_index", post, argf=lambda env, ats, n=n, i=i: [X.c(n, 64), i], name="permute_index (size 2^%d, any index)" % l, feasible=True)
# ---------------------------------------------------------------- residues of words
class Resid:
    """ghost residues: every word returned by a reduction stands for a residue (a polynomial
    in the residues of the words first read); contracts proved in U06/F01"""
    def __init__(self, k):
        self.k, self.p = k, PR[k]
        self.ring = Ring(self.p)
        self.ri = self.ring.ri
        p = self.p
        T = r"zkp_primefield::PrimeField<[\w:]*%s>" % WHICH[k]
        self.contracts = [(r"Montgomery( for zkp_u256::U256)?>::redc_inline::<", self.redc),
                          (r"Montgomery( for zkp_u256::U256)?>::mul_redc(_inline)?::<", self.mul),
                          (r"^<&?%s as [\w:]+>::(neg|neg_inline)$|^zkp_primefield::ops::<impl std::ops::Neg for &?%s>::neg$" % (T, T), self.neg)] + ADDITIVE
    def res(self, st, w):
        if w.const: return self.ring.const(w.val)
        m = st.ghost.get("res", ())
        for e, v in m:
            if e is w: return v
        v = self.ring.sym("w%d" % len(self.ring.names))
        st.ghost["res"] = m + ((w, v),)
        return v
    def new(self, st, v):
        n = st.ghost.get("nT", 0)
        st.ghost["nT"] = n + 1
        T = tuple(X.var("T%d_%d" % (n, i), 64) for i in range(4))
        st.ghost["res"] = st.ghost.get("res", ()) + ((X.concat(list(T)), v),)
        return (T,)
    def out(self, st, v):
        T = self.new(st, v)
        return Fork([(X.ult(W(T), X.c(self.p, 256)), T)])
    def redc(self, ex, st, inst, a):
        lo, hi = (W(ex.load(st, x)) for x in a)
        ex.obligations.append((list(st.pc), X.ult(hi, X.c(self.p, 256)), "high word reduced"))
        return self.out(st, (self.res(st, lo) + self.res(st, hi) * R) * self.ri)
    def mul(self, ex, st, inst, a):
        x, y = (W(ex.load(st, q)) for q in a)
        for q in (x, y): ex.obligations.append((list(st.pc), X.ult(q, X.c(self.p, 256)), "operand reduced"))
        return self.out(st, self.res(st, x) * self.res(st, y) * self.ri)
    def neg(self, ex, st, inst, a):
        x = a[0]
        while isinstance(x, Ptr): x = ex.load(st, x)
        w = W(x)
        ex.obligations.append((list(st.pc), X.ult(w, X.c(self.p, 256)), "operand reduced"))
        T = self.new(st, -self.res(st, w))
        return Fork([(X.ult(W(T), X.c(self.p, 256)), (T, ()))])
    def stands_for(self, st, r, a):
        """goals: the word r is the Montgomery form of the (256-bit, signed) integer a"""
        w = W(r)
        p = X.c(self.p, 256)
        for e, v in st.ghost.get("res", ()):
            if e is w: break
        else:
            if w.const: return [("the residue", X.FALSE if not a.const else X.boolc(w.val == a.val * R % self.p))]
            raise Unsupported("the result is not the outcome of a reduction")
        for e, s in st.ghost["res"]:
            if len(s.n) == 1 and e.op != "var" and v.same(s * R): return [("the residue of the input", X.bor(X.eq(e, a), X.eq(e, X.add(a, p))))]
            if v.same(s * (-R)): return [("minus the residue of the absolute value", X.bor(X.eq(e, X.neg(a)), X.eq(e, X.sub(X.neg(a), p))))]
        raise Unsupported("residue %r" % (v,))
def f05_proofs(c, k):
    p = PR[k]
    def conv(op, w, signed):
        Z = Resid(k)
        def post(s, a, r):
            x = a[0]
            v = W(x) if w == 256 else (X.sext if signed else X.zext)(x, 256) if w < 256 else x
            return Z.stands_for(s, r, v) + [("reduced", X.ult(W(r), X.c(p, 256)))]
        c.prove("%s_%s" % (k, op), post, contracts=Z.contracts, feasible=True, name="%s_%s (any value)" % (k, op),
                pre=(lambda a: [X.ult(W(a), X.c(p, 256))]) if op == "from_uint" else None)
    for t, w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64), ("u128", 128)): conv("from_" + t, w, False)
    for t, w in (("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("isize", 64), ("i128", 128)): conv("from_" + t, w, True)
    for op in ("from_u256", "from_red", "from_uint"): conv(op, 256, False)
    # back to machine integers, over the contract of to_uint (F01): a word V below p, the residue
    def c_uint(ex, st, inst, a):
        st.ghost["tu"] = st.ghost.get("tu", 0) + 1
        x = a[0]
        while isinstance(x, Ptr): x = ex.load(st, x)
        st.ghost["tuarg"] = W(x)
        V = (tuple(X.var("V_%d" % i, 64) for i in range(4)),)
        return Fork([(X.ult(W(V), X.c(p, 256)), V)])
    TU = [(r"^zkp_primefield::PrimeField::<[\w:]*%s>::to_uint$" % WHICH[k], c_uint)] + ADDITIVE
    V = X.concat([X.var("V_%d" % i, 64) for i in range(4)])
    Pc = X.c(p, 256)
    def back(op, f, **kw):
        def post(s, a, r):
            if not s.ghost.get("tu"): raise Unsupported("does not convert with to_uint")
            return [("of the argument", X.eq(s.ghost["tuarg"], W(a[0])))] + f(r)
        c.prove("%s_%s" % (k, op), post, contracts=TU, pre=redpre(k), feasible=True, name="%s_%s (any value)" % (k, op), cex=False, **kw)
    def optv(r, fits, val):
        if not isinstance(r, En): raise Unsupported("option")
        if r.v == 0: return [("None only if it does not fit", X.bnot(fits))]
        return [("Some only if it fits", fits), ("value", X.eq(r.f[0], val))]
    for t, w in (("u8", 8), ("u32", 32), ("u64", 64), ("usize", 64), ("u128", 128)):
        back("to_" + t, lambda r, w=w: optv(r, X.ult(V, X.c(1 << w, 256)), X.extract(V, 0, w)))
    for t, w in (("i8", 8), ("i32", 32), ("i64", 64), ("isize", 64), ("i128", 128)):
        def g(r, w=w):
            h = X.c(1 << (w - 1), 256)
            pos, neg = X.ult(V, h), X.ule(X.sub(Pc, V), h)
            return optv(r, X.bor(pos, neg), X.extract(X.ite(pos, V, X.sub(V, Pc)), 0, w))
        back("to_" + t, g)
    for op in ("into_r", "into_v"): back(op, lambda r: [("value", X.eq(W(r), V))])
    c.prove(k + "_as_mont", lambda s, a, r: is_(X.eq(W(r), W(a[0]))), pre=redpre(k), contracts=ADDITIVE)
    c.prove(k + "_from_mont", lambda s, a, r: is_(X.eq(W(r), W(a[0]))), pre=redpre(k), contracts=ADDITIVE)
    # geometric series: any base and ratio, lengths as given
    def series(op, nm, extra, want, one=False):
        ring = Ring(p)
        L = Layer(ring, WHICH[k])
        b, q = ring.sym("base"), ring.sym("ratio")
        def pw(ex, st, inst, a):
            e = a[1]
            while isinstance(e, Ptr): e = ex.load(st, e)
            if not (isinstance(e, E) and e.const) or e.val > 1000: return NotImplemented
            return fe(L.get(ex, st, a[0]) ** e.val)
        PW = [(r"^<&?%s as [\w:]*Pow<&?usize>>::pow$" % (PFT % WHICH[k]), pw)]
        def post(s, a, r):
            w = [b * q ** i for i in want]
            if one == "opt":
                if r.v == 0: return [("None only past the end", X.boolc(not w))]
                return [("Some only before the end", X.boolc(bool(w)))] + ([("element", L.eq(s, r.f[0], w[0]))] if w else [])
            if one: return [("element", L.eq(s, r, w[0]))]
            out = vecval(s, r)
            return [("length", X.boolc(len(out) == len(w)))] + [("element %d" % i, L.eq(s, x, y)) for i, (x, y) in enumerate(zip(out, w))]
        c.prove("%s_%s" % (k, op), post, argf=lambda env, ats: [fe(b), fe(q)] + [X.c(x, 64) for x in extra], contracts=L.contracts + PW, feasible=True,
                name="%s_%s (any base and ratio, %s)" % (k, op, nm))
    # every operation of the series for any length and any argument, over the power contract (F02)
    def whole(fn, op, nargs, spec, ref=False, nm="", panics=None):
        ring = Ring(p)
        L = Layer(ring, WHICH[k])
        b, q = ring.sym("current"), ring.sym("ratio")
        ln, n = X.var("length", 64), X.var("argument", 64)
        pws = {}
        def power(base, e):
            if e.const and e.val < 1000: return base ** e.val
            key = (repr(base), e)
            if key not in pws: pws[key] = ring.sym("power%d" % len(pws))
            return pws[key]
        def pw(ex, st, inst, a):
            e = a[1]
            while isinstance(e, Ptr): e = ex.load(st, e)
            return fe(power(L.get(ex, st, a[0]), e))
        PW = [(r"^<&?%s as [\w:]*Pow<&?usize>>::pow$" % (PFT % WHICH[k]), pw)]
        order = []
        def argf(env, ats):
            from checks.sproofs import struct
            nm_ = [env.prog.tname(t) for t in env.prog.types if re.match(r"zkp_primefield::(geometric_series::)?GeometricIter<%s>$" % (PFT % WHICH[k]), env.prog.tname(t))]
            if not nm_: raise Unsupported("no series type")
            mark = {"current": 0, "step": 1, "length": 2}
            order[:] = struct(env.prog, nm_[0], **mark)
            v = struct(env.prog, nm_[0], current=fe(b), step=fe(q), length=ln)
            return [env.vals.ref(v) if ref else v] + [n] * nargs
        def fields(v): return [v[order.index(i)] for i in range(3)]
        def post(s, a, r):
            st = None
            if ref: st = fields(s.load(a[0]) if hasattr(s, "load") else s.cells[a[0].cell])
            return spec(s, L, b, q, ln, n, power, fields(r) if isinstance(r, tuple) and len(r) == 3 else r, st)
        c.prove("%s_%s" % (k, op), post, inst=r"GeometricIter(::)?<%s>( as [\w:]*Iterator>)?::%s$" % (PFT % WHICH[k], fn), argf=argf, contracts=L.contracts + PW, feasible=True, cex=False,
                panics=(lambda *a: panics(n)) if panics else None, name="%s series: %s for any length and argument" % (k, fn))
    Z64 = X.c(0, 64)
    def keep(s, L, x, v, ln): return X.bor(X.eq(ln, Z64), L.eq(s, x, v))
    whole("at", "gs_at", 1, lambda s, L, b, q, ln, n, power, r, st: [("element", L.eq(s, r, b * power(q, n)))], ref=True)
    def sk(s, L, b, q, ln, n, power, r, st):
        w = X.ite(X.ult(ln, n), Z64, X.sub(ln, n))
        return [("length", X.eq(r[2], w)), ("first element", keep(s, L, r[0], b * power(q, n), w)), ("ratio", keep(s, L, r[1], q, w))]
    whole("skip", "gs_skip", 1, sk)
    def tk(s, L, b, q, ln, n, power, r, st):
        w = X.ite(X.ult(ln, n), ln, n)
        return [("length", X.eq(r[2], w)), ("first element", keep(s, L, r[0], b, w)), ("ratio", keep(s, L, r[1], q, w))]
    whole("take", "gs", 1, tk)
    def sb(s, L, b, q, ln, n, power, r, st):
        w = X.add(X.udiv(ln, n), X.ite(X.eq(X.urem(ln, n), Z64), Z64, X.c(1, 64)))
        return [("length", X.eq(r[2], w)), ("first element", keep(s, L, r[0], b, ln)), ("ratio", X.bor(X.ule(w, X.c(1, 64)), L.eq(s, r[1], power(q, n))))]
    whole("step_by", "gs_step", 1, sb, panics=lambda n: X.eq(n, Z64))
    def nx(s, L, b, q, ln, n, power, r, st):
        if r.v == 0: return [("None only at the end", X.eq(ln, Z64)), ("stays at the end", X.eq(st[2], Z64))]
        w = X.sub(ln, X.c(1, 64))
        return [("Some only before the end", X.bnot(X.eq(ln, Z64))), ("element", L.eq(s, r.f[0], b)), ("length", X.eq(st[2], w)), ("next element", keep(s, L, st[0], b * q, w)), ("ratio", keep(s, L, st[1], q, w))]
    whole("next", "gs", 0, nx, ref=True)
    for n in range(0, 9): series("gs", "length %d" % n, [n], range(n))
    for n in range(0, 8): series("gs_at", "position %d" % n, [n], [n], one=True)
    for n in range(0, 7):
        for q in range(0, 9):
            series("gs_skip", "length %d, skip %d" % (n, q), [n, q], list(range(n))[q:])
            if q: series("gs_step", "length %d, step %d" % (n, q), [n, q], list(range(n))[::q])
            series("gs_nth", "length %d, position %d" % (n, q), [n, q], list(range(n))[q:q + 1], one="opt")
def f05():
    c = Check("F05", "field")
    ints = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
    sints = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
    for k in "fs":
        p, C = PR[k], CL[k]
        for t, w in ints.items():
            c.search("%s_from_%s" % (k, t), gens(gint(w, False)), lambda a, p=p, C=C: C(a % p), n=60)
        for t, w in sints.items():
            c.search("%s_from_%s" % (k, t), gens(gint(w, True)), lambda a, p=p, C=C: C(a % p), n=60)
        g256 = lambda r, p=p: [U(r.choice([gu256(r), p, p - 1, p + 1, 2 * p - 1, 2 * p, 31 * p, 32 * p % R, R - 1, below(p)(r), (p * r.randrange(32) + below(p)(r)) % R]))]
        c.search(k + "_from_u256", g256, lambda a, p=p, C=C: C(a % p), n=300)
        c.search(k + "_from_red", g256, lambda a, p=p, C=C: C(a % p), n=300)
        c.search(k + "_from_uint", gens(below(p)), lambda a, p=p, C=C: C(a % p), n=200)
        for op in ("to_uint", "into_r", "into_v"):
            c.search("%s_%s" % (k, op), gens(gfe(k)), lambda a: int(a), n=100)
        c.search(k + "_as_mont", gens(gfe(k)), lambda a, p=p: int(a) * R % p, n=60)
        c.search(k + "_from_mont", gens(below(p)), lambda a, p=p, C=C: C(a * pow(R, -1, p) % p), n=60)
        def gval(w, s, p=p, C=C):
            gi = gint(w, s)
            g0 = gfe(k)
            def h(r):
                q = r.randrange(3)
                if q == 0: return [C((gi(r) + r.choice([0, 0, 1, -1])) % p)]
                if q == 1: return [C((r.choice([1, -1]) * ((1 << r.choice([w, w - 1, w + 1, 64, 128, 192])) + r.randrange(-2, 3))) % p)]
                return [g0(r)]
            return h
        for t, w in (("u8", 8), ("u32", 32), ("u64", 64), ("usize", 64), ("u128", 128)):
            c.search("%s_to_%s" % (k, t), gval(w, False), lambda a, w=w: Some(int(a)) if a < 1 << w else None, n=150)
        for t, w in (("i8", 8), ("i32", 32), ("i64", 64), ("isize", 64), ("i128", 128)):
            def o(a, w=w, p=p):
                h = 1 << (w - 1)
                if a < h: return Some(int(a))
                if p - a <= h: return Some(int(a) - p)
                return None
            c.search("%s_to_%s" % (k, t), gval(w, True), o, n=150)
        def serde_ok(args, res):
            if not isinstance(res, tuple): return "round trip fails"
            return None if int(res[1]) == int(args[0]) else "round trip changes the value"
        c.search(k + "_serde", gens(gfe(k)), judge=serde_ok, n=60)
        gb, g0 = gfe(k), nz(k)
        ser = lambda b, s, n, p=p, C=C: [C(b * pow(int(s), i, p) % p) for i in range(n)]
        c.search(k + "_gs", gens(gb, gb, lambda r: r.randrange(12)), ser, n=60)
        c.search(k + "_gs_at", gens(gb, gb, lambda r: r.choice([r.randrange(10), r.getrandbits(63)])), lambda b, s, n, p=p, C=C: C(b * pow(int(s), n, p) % p), n=80)
        gn = lambda r: r.randrange(20)
        c.search(k + "_gs_skip", gens(gb, gb, gn, gn), lambda b, s, n, q, ser=ser: ser(b, s, n)[q:], n=120)
        c.search(k + "_gs_step", gens(gb, gb, gn, lambda r: r.randrange(1, 9)), lambda b, s, n, q, ser=ser: ser(b, s, n)[::q], n=120)
        f05_proofs(c, k)
        def gl(r): return r.choice([0, 1, 2, r.randrange(40), r.getrandbits(r.randrange(1, 65)), M64, M64, M64 - r.randrange(3), 1 << 63])
        def gsa(b, s, n, q, y, p=p, C=C):
            m = max(0, n - q)
            t = (m + y - 1) // y
            el = lambda i: Some(C(b * pow(int(s), q + i * y, p) % p)) if i < t else None
            return (t, el(0), el(1))
        c.search(k + "_gs_any", gens(gb, gb, gl, lambda r: r.choice([0, 0, 1, gl(r)]), lambda r: max(1, gl(r))), gsa, n=200)
        c.search(k + "_gs_at_take", gens(gb, gb, gl, lambda r: r.choice([0, 1, r.randrange(40), r.getrandbits(64)])), lambda b, s, n, i, p=p, C=C: C(b * pow(int(s), int(i), p) % p), n=100)
        c.search(k + "_gs_nth", gens(gb, gb, gn, gn), lambda b, s, n, q, ser=ser: Some(ser(b, s, n)[q]) if q < n else None, n=60)
    c.search("from_uint_const", gens(below(PF)), lambda a: FE(int(a)), n=300)
    return c

CHECKS = {"F01": f01, "F02": f02, "F03": f03, "F04": f04, "F05": f05}
