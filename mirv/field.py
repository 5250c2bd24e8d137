"""Symbolic field layer.  A field element of a proof is Opq("fe", FV): a
fraction of polynomials over F_p in the symbols of the proof, reduced modulo
side relations s^2 = poly (curve equations).  The operators of PrimeField are
replaced by their contracts (proved from the code for all words in F01; the
inverse in F02/U05), so that the code under proof computes polynomials, and a
goal is an identity of polynomials modulo p, decided by normalisation.

Zero tests of a polynomial that is neither constant nor a product of symbols
declared non-zero become boolean variables named after the canonical
polynomial; a path then carries the facts it assumed."""
import re
from . import expr as X
from .expr import E
from .exe import Opq, Ptr, En, Fork, Unsupported, PanicNow, deref

class Ring:
    def __init__(self, p, R=1 << 256, bits=20):
        self.p = p
        self.B = bits               # bits per exponent, the top one a guard
        self.M = (1 << bits) - 1
        self.guard = 0
        self.names = []
        self.nz = set()             # indices of symbols that are not zero
        self.rules = {}             # symbol index -> polynomial for its square
        self.tests = {}             # canonical polynomial -> bool var
        self.ri = pow(R, -1, p)
    def sym(self, name, nonzero=False):
        i = len(self.names)
        self.names.append(name)
        if nonzero:
            self.nz.add(i)
        self.guard |= 1 << (self.B * i + self.B - 1)
        return FV(self, {1 << (self.B * i): 1}, None)
    def const(self, v):
        v %= self.p
        return FV(self, {0: v} if v else {}, None)
    def rule(self, s, sq):
        """declare s^2 = sq (a polynomial)"""
        (m, c), = s.n.items()
        assert c == 1 and sq.d is None
        self.rules[(m.bit_length() - 1) // self.B] = sq.n
    # -------- polynomials
    def padd(self, a, b, k=1):
        if not b: return a
        r = dict(a)
        p = self.p
        for m, c in b.items():
            v = (r.get(m, 0) + k * c) % p
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def pmul(self, a, b):
        p = self.p
        if len(a) > len(b): a, b = b, a
        if len(a) * len(b) > 4000000:
            raise Unsupported("polynomial too large")
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = m + n
                r[k] = r.get(k, 0) + c * d
        o = 0
        for k in r: o |= k
        if o & self.guard: raise Unsupported("degree too large")
        r = {k: v % p for k, v in r.items() if v % p}
        if self.rules:
            r = self.reduce(r)
        return r
    def reduce(self, r):
        for s, sq in self.rules.items():
            sh = self.B * s
            while True:
                hi = [m for m in r if (m >> sh) & self.M >= 2]
                if not hi: break
                out = {m: c for m, c in r.items() if (m >> sh) & self.M < 2}
                acc = {}
                for m in hi:
                    base = m - (2 << sh)
                    c = r[m]
                    for n, d in sq.items():
                        if (base + n) & self.guard: raise Unsupported("degree too large")
                        acc[base + n] = acc.get(base + n, 0) + c * d
                r = self.padd(out, {k: v % self.p for k, v in acc.items() if v % self.p})
        return r
    def content(self, a):
        """largest monomial of non-zero symbols dividing every term"""
        if not a: return 0
        r = 0
        for i in self.nz:
            sh = self.B * i
            e = min((m >> sh) & self.M for m in a)
            r += e << sh
        return r
    def strip(self, a):
        k = self.content(a)
        return {m - k: c for m, c in a.items()} if k else a
    def canon(self, a):
        a = self.strip(a)
        # a single ruled non-zero symbol, e.g. 2*y with y != 0
        if len(a) == 1:
            (m, c), = a.items()
            for i in self.nz:
                m &= ~(self.M << (self.B * i))
            a = {m: 1}
        else:
            lead = max(a)
            k = pow(a[lead], -1, self.p)
            a = {m: c * k % self.p for m, c in a.items()}
        return a
    def iszero(self, v):
        """TRUE / FALSE / boolean variable"""
        if not v.n: return X.TRUE
        a = self.canon(v.n)
        if len(a) == 1 and 0 in a: return X.FALSE
        key = tuple(sorted(a.items()))
        t = self.tests.get(key)
        if t is None:
            t = X.var("zero:%d:%s" % (len(self.tests), self.show(a)[:60]), 0)
            self.tests[key] = t
        return t
    def show(self, a):
        out = []
        for m, c in sorted(a.items()):
            t = []
            for i, n in enumerate(self.names):
                e = (m >> (self.B * i)) & self.M
                if e: t.append(n + ("^%d" % e if e > 1 else ""))
            cc = c if c < self.p // 2 else c - self.p
            out.append("%s%s" % (cc if abs(cc) < 10**6 else "k", "*" + "*".join(t) if t else ""))
        return " + ".join(out) or "0"

class FV:
    """fraction n/d; d None means 1; d is known to be non-zero"""
    __slots__ = ("r", "n", "d")
    def __init__(self, r, n, d):
        self.r, self.n, self.d = r, n, d
    def norm(self):
        r = self.r
        if self.d is None: return self
        if not self.n: return FV(r, {}, None)
        k1, k2 = r.content(self.n), r.content(self.d)
        if k1 and k2:
            g = 0
            for i in r.nz:
                sh = r.B * i
                g += min((k1 >> sh) & r.M, (k2 >> sh) & r.M) << sh
            if g:
                self = FV(r, {m - g: c for m, c in self.n.items()}, {m - g: c for m, c in self.d.items()})
        if len(self.d) == 1 and 0 in self.d:
            k = pow(self.d[0], -1, r.p)
            return FV(r, {m: c * k % r.p for m, c in self.n.items()}, None)
        if self.n == self.d:
            return r.const(1)
        return self
    def isconst(self):
        return self.d is None and (not self.n or (len(self.n) == 1 and 0 in self.n))
    def cval(self):
        return self.n.get(0, 0)
    def lift(self, o):
        return o if isinstance(o, FV) else self.r.const(o)
    def __add__(self, o, k=1):
        o = self.lift(o)
        r = self.r
        if self.d is None and o.d is None:
            return FV(r, r.padd(self.n, o.n, k), None)
        if self.d == o.d:
            return FV(r, r.padd(self.n, o.n, k), self.d).norm()
        a, b = self.d or {0: 1}, o.d or {0: 1}
        return FV(r, r.padd(r.pmul(self.n, b), r.pmul(o.n, a), k), r.pmul(a, b)).norm()
    __radd__ = __add__
    def __sub__(self, o): return self.__add__(o, -1)
    def __rsub__(self, o): return self.lift(o) - self
    def __neg__(self): return FV(self.r, {m: self.r.p - c for m, c in self.n.items()}, self.d)
    def __mul__(self, o):
        o = self.lift(o)
        r = self.r
        d = self.d if o.d is None else o.d if self.d is None else r.pmul(self.d, o.d)
        return FV(r, r.pmul(self.n, o.n), d).norm()
    __rmul__ = __mul__
    def inv(self):
        if not self.n: raise ZeroDivisionError
        return FV(self.r, self.d or {0: 1}, self.n).norm()
    def __truediv__(self, o): return self * self.lift(o).inv()
    def __pow__(self, e):
        r, b = self.r.const(1), self
        while e:
            if e & 1: r = r * b
            e >>= 1
            if e: b = b * b
        return r
    def same(self, o):
        return not (self - o).n
    def __repr__(self):
        return self.r.show(self.n) + ("" if self.d is None else " / (%s)" % self.r.show(self.d))

def fe(v): return Opq("fe", v)

PFT = r"zkp_primefield::PrimeField<[\w:]*%s>"
class Layer:
    """contracts of the operators of one field"""
    def __init__(self, ring, which="Proth"):
        self.ring = ring
        T = PFT % which
        self.T = T
        head = r"^(<&?%s as [\w:]+(<&?%s>)?>|zkp_primefield::ops::<impl std::ops::\w+(<&?%s>)? for &?%s>)::" % (T, T, T, T)
        H = lambda names, f: (head + "(%s)$" % names, f)
        self.contracts = [
            H("add|add_inline", self.bin(lambda a, b: a + b)), H("sub|sub_inline", self.bin(lambda a, b: a - b)), H("mul|mul_inline", self.bin(lambda a, b: a * b)),
            H("add_assign|add_assign_inline", self.asg(lambda a, b: a + b)), H("sub_assign|sub_assign_inline", self.asg(lambda a, b: a - b)),
            H("mul_assign|mul_assign_inline", self.asg(lambda a, b: a * b)),
            H("neg|neg_inline", self.un(lambda a: -a)), H("square|square_inline", self.un(lambda a: a * a)), H("clone", self.un(lambda a: a)),
            H("neg_assign|neg_assign_inline", self.asg1(lambda a: -a)), H("square_assign|square_assign_inline", self.asg1(lambda a: a * a)),
            H("is_zero", lambda ex, st, i, a: ring.iszero(self.get(ex, st, a[0]))), H("is_one", lambda ex, st, i, a: ring.iszero(self.get(ex, st, a[0]) - 1)),
            H("eq", lambda ex, st, i, a: ring.iszero(self.get(ex, st, a[0]) - self.get(ex, st, a[1]))),
            H("ne", lambda ex, st, i, a: X.bnot(ring.iszero(self.get(ex, st, a[0]) - self.get(ex, st, a[1])))),
            H("zero|default", lambda ex, st, i, a: fe(ring.const(0))), H("one", lambda ex, st, i, a: fe(ring.const(1))),
            H("inv", self.inv), H("div", self.div), H("div_assign", self.div_assign),
            (r"^zkp_primefield::PrimeField::<[\w:]*%s>::double$" % which, self.un(lambda a: a + a)),
            (r"^zkp_primefield::PrimeField::<[\w:]*%s>::triple$" % which, self.un(lambda a: a + a + a)),
        ]
    def val(self, v):
        """field value of an executor value"""
        if isinstance(v, Opq) and v.kind == "fe": return v.x
        if isinstance(v, tuple) and len(v) == 2 and v[1] == ():
            w = v[0]
            while len(w) != 4: w = w[0]
            if all(isinstance(x, E) and x.const for x in w):
                n = sum(x.val << (64 * i) for i, x in enumerate(w))
                if n >= self.ring.p: raise Unsupported("constant that is not reduced")
                return self.ring.const(n * self.ring.ri)
        raise Unsupported("field element %r" % (v,))
    def get(self, ex, st, a): return self.val(deref(ex, st, a))
    def bin(self, f):
        def g(ex, st, inst, a):
            if len(a) != 2: return NotImplemented
            return fe(f(self.get(ex, st, a[0]), self.get(ex, st, a[1])))
        return g
    def un(self, f):
        return lambda ex, st, inst, a: fe(f(self.get(ex, st, a[0])))
    def asg(self, f):
        def g(ex, st, inst, a):
            ex.store(st, a[0], fe(f(self.get(ex, st, a[0]), self.get(ex, st, a[1]))))
            return ()
        return g
    def asg1(self, f):
        def g(ex, st, inst, a):
            ex.store(st, a[0], fe(f(self.get(ex, st, a[0]))))
            return ()
        return g
    def inv(self, ex, st, inst, a):
        x = self.get(ex, st, a[0])
        z = self.ring.iszero(x)
        if z is X.TRUE: return En(0, ())
        s = En(1, (fe(x.inv()),))
        if z is X.FALSE: return s
        return Fork([(z, En(0, ())), (X.bnot(z), s)])
    def div(self, ex, st, inst, a):
        return self._div(ex, st, a, lambda s, v: fe(v))
    def div_assign(self, ex, st, inst, a):
        x = self.get(ex, st, a[1])
        if self.ring.iszero(x) is not X.FALSE: return NotImplemented
        ex.store(st, a[0], fe(self.get(ex, st, a[0]) / x))
        return ()
    def _div(self, ex, st, a, k):
        x = self.get(ex, st, a[1])
        if self.ring.iszero(x) is not X.FALSE: return NotImplemented    # the code below decides (it panics for zero)
        return k(st, self.get(ex, st, a[0]) / x)
    # ------------ goals
    def facts(self, st):
        """True if the path assumed some polynomial to be zero"""
        ts = {id(t) for t in self.ring.tests.values()}
        return any(id(c) in ts for c in st.pc)
    def eq(self, st, a, b):
        a, b = (self.val(x) if not isinstance(x, FV) else x for x in (a, b))
        if a.same(b): return X.TRUE
        if self.facts(st): raise Unsupported("identity needs the facts of the path")
        # a non-zero polynomial: it does not vanish everywhere (degree far below p)
        return X.FALSE
    def nonzero(self, st, a):
        z = self.ring.iszero(self.val(a) if not isinstance(a, FV) else a)
        return X.bnot(z)

# ---------------------------------------------------------------- powers
class Pw:
    """base^e with a symbolic integer exponent e, |e| <= bound < 2^(W-1)"""
    __slots__ = ("e", "b", "pos")
    def __init__(self, e, b, pos=True):
        if b >> (e.w - 2): raise Unsupported("exponent may overflow")
        self.e, self.b, self.pos = e, b, pos
from .exe import MERGE
def _mpw(p, a, b):
    for x, y, q in ((a, b, p), (b, a, X.bnot(p))):      # y plus one more digit if q
        if x.e.op == "or" and y.e in x.e.args:
            d, = [t for t in x.e.args if t is not y.e]
            return Pw(X.bor(y.e, X.ite(q, d, X.c(0, d.w))), max(a.b, b.b), a.pos and b.pos)
    return Pw(X.ite(p, a.e, b.e), max(a.b, b.b), a.pos and b.pos)
MERGE["pw"] = _mpw
class PowLayer:
    """the operators of one field acting on powers of one element (the field is a
    commutative ring: x^i * x^j = x^(i+j); contracts proved in F01)"""
    def __init__(self, W, which="Proth"):
        self.W = W
        T = PFT % which
        head = r"^(<&?%s as [\w:]+(<&?%s>)?>|zkp_primefield::ops::<impl std::ops::\w+(<&?%s>)? for &?%s>)::" % (T, T, T, T)
        H = lambda names, f: (head + "(%s)$" % names, f)
        def mul(a, b):
            for x, y in ((a, b), (b, a)):       # disjoint digits
                if y.e.const and y.e.val and y.b == y.e.val and x.b < (y.b & -y.b) and x.pos: return Pw(X.bor(x.e, y.e), x.b + y.b)
            return Pw(X.add(a.e, b.e), a.b + b.b, a.pos and b.pos)
        dbl = lambda a: mul(a, a)
        def bn(ex, st, i, a): return Opq("pw", mul(self.get(ex, st, a[0]), self.get(ex, st, a[1])))
        def asg(ex, st, i, a):
            ex.store(st, a[0], Opq("pw", mul(self.get(ex, st, a[0]), self.get(ex, st, a[1]))))
            return ()
        def sqa(ex, st, i, a):
            ex.store(st, a[0], Opq("pw", dbl(self.get(ex, st, a[0]))))
            return ()
        def inv(ex, st, i, a):
            x = self.get(ex, st, a[0])
            if not (x.e.const and x.e.val == 1): raise Unsupported("inverse of a power")
            return Fork([(X.var("base is zero", 0), En(0, ())), (X.bnot(X.var("base is zero", 0)), En(1, (Opq("pw", Pw(X.neg(x.e), x.b, False)),)))])
        self.contracts = [
            H("mul|mul_inline", bn), H("mul_assign|mul_assign_inline", asg), H("square|square_inline", lambda ex, st, i, a: Opq("pw", dbl(self.get(ex, st, a[0])))),
            H("square_assign|square_assign_inline", sqa), H("clone", lambda ex, st, i, a: Opq("pw", self.get(ex, st, a[0]))),
            H("one", lambda ex, st, i, a: self.exp(0)), H("inv", inv)]
    def exp(self, k): return Opq("pw", Pw(X.c(k, self.W), abs(k)))
    def base(self): return self.exp(1)
    def get(self, ex, st, a):
        while isinstance(a, Ptr): a = ex.load(st, a)
        if isinstance(a, Opq) and a.kind == "pw": return a.x
        raise Unsupported("not a power: %r" % (a,))

class DlogLayer:
    """the operators of one field acting on non-zero elements written as powers of a generator g of the whole multiplicative group
    (order N = 2^s * m, m odd): an element is g^(al*k + be + m*ta), al and be integers, k the unknown logarithm of the argument
    (known modulo 2^s as a bit-vector) and ta a bit-vector of s bits.  Two such elements are equal iff the exponents agree modulo N;
    decided here when the difference is a multiple of m."""
    def __init__(self, p, which):
        self.p, self.N = p, p - 1
        self.s = ((p - 1) & -(p - 1)).bit_length() - 1
        self.m = (p - 1) >> self.s
        self.k = X.var("log", self.s)
        T = PFT % which
        head = r"^(<&?%s as [\w:]+(<&?[^<>]*(<[^<>]*>)?[^<>]*>)?>|zkp_primefield::ops::<impl std::ops::\w+(<&?%s>)? for &?%s>|zkp_primefield::prime_field::<impl [^{}]* for &?%s>|%s)::" % (T, T, T, T, T.replace("Field<", "Field::<"))
        H = lambda names, f: (head + "(%s)$" % names, f)
        g = lambda ex, st, a: self.get(ex, st, a)
        def bn(f):
            return lambda ex, st, i, a: self.el(*f(g(ex, st, a[0]), g(ex, st, a[1])))
        def un(f):
            return lambda ex, st, i, a: self.el(*f(g(ex, st, a[0])))
        def asg(f):
            def h(ex, st, i, a):
                ex.store(st, a[0], self.el(*f(*[g(ex, st, x) for x in a])))
                return ()
            return h
        mul = lambda x, y: (x[0] + y[0], x[1] + y[1], X.add(x[2], y[2]))
        sq = lambda x: mul(x, x)
        neg = lambda x: (x[0], x[1] + self.N // 2, x[2])
        inv = lambda x: (-x[0], -x[1], X.neg(x[2]))
        def pw(ex, st, i, a):
            x = g(ex, st, a[0])
            e = a[1]
            while isinstance(e, Ptr): e = ex.load(st, e)
            e = X.concat(list(e[0])) if isinstance(e, tuple) else e
            if not e.const: raise Unsupported("exponent is not fixed")
            e = e.val
            return self.el(x[0] * e, x[1] * e, X.mul(x[2], X.c(e % (1 << self.s), self.s)))
        self.contracts = [H("mul|mul_inline", bn(mul)), H("mul_assign|mul_assign_inline", asg(mul)), H("square|square_inline", un(sq)), H("square_assign|square_assign_inline", asg(sq)),
            H("clone", un(lambda x: x)), H("neg|neg_inline", un(neg)), H("one", lambda ex, st, i, a: self.el(0, 0, 0)), H("generator", lambda ex, st, i, a: self.el(0, 1, 0)),
            H("is_zero", lambda ex, st, i, a: (g(ex, st, a[0]), X.boolc(False))[1]), H("inv", lambda ex, st, i, a: En(1, (self.el(*inv(g(ex, st, a[0]))),))),
            H("is_one", lambda ex, st, i, a: (self.same(g(ex, st, a[0]), (0, 0, X.c(0, self.s))))),
            H("eq", lambda ex, st, i, a: (self.same(g(ex, st, a[0]), g(ex, st, a[1])))), H("ne", lambda ex, st, i, a: (X.bnot(self.same(g(ex, st, a[0]), g(ex, st, a[1]))))),
            H("pow", pw)]
    def el(self, al, be, ta):
        if isinstance(ta, int): ta = X.c(ta, self.s)
        q, be = divmod(be % self.N, self.m)
        return Opq("dl", (al % self.N, be, X.add(ta, X.c(q, self.s))))
    def arg(self): return self.el(1, 0, 0)
    def get(self, ex, st, a):
        while isinstance(a, Ptr): a = ex.load(st, a)
        if isinstance(a, Opq) and a.kind == "dl": return a.x
        if isinstance(a, tuple) and len(a) == 2 and a[1] == ():
            w = a[0]
            while len(w) != 4: w = w[0]
            if all(isinstance(x, E) and x.const for x in w):
                n = sum(x.val << (64 * i) for i, x in enumerate(w)) * pow(1 << 256, -1, self.p) % self.p
                if n in (1, self.p - 1): return (0, 0 if n == 1 else self.N // 2, X.c(0, self.s))
        raise Unsupported("not a power of the generator: %r" % (a,))
    def zero_mod(self, x):
        """s-bit term that is zero iff the element is one"""
        al, be, ta = x
        if al % self.m or be % self.m: raise Unsupported("the comparison is not within the 2-part")
        c = lambda v: X.c(v // self.m % (1 << self.s), self.s)
        return X.add(X.add(X.mul(c(al), self.k), c(be)), ta)
    def same(self, x, y):
        d = ((x[0] - y[0]) % self.N, (x[1] - y[1]) % self.N, X.sub(x[2], y[2]))
        return X.eq(self.zero_mod(d), X.c(0, self.s))
def _mdl(p, a, b):
    if a[:2] != b[:2]: raise Unsupported("different powers meet")
    if a[2] is b[2]: return a
    v = X.fresh("dl", a[2].w)
    DLDEFS.append((v, X.ite(p, a[2], b[2])))
    return (a[0], a[1], v)
DLDEFS = []     # variables introduced where paths meet, with their definitions
MERGE["dl"] = _mdl
