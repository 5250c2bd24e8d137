"""Back ends for the expression DAG.

BV : exact bit-vector semantics (z3).
Int: every machine word is a polynomial over integer atoms; reduction modulo a
     power of two introduces the (integer) quotient as a new atom, so a carry
     chain telescopes to a polynomial identity.  Products of atoms are opaque
     monomials for the solver (linear arithmetic), bounded by interval products
     and by explicitly added product lemmas.  Over-approximates: 'proved' is
     sound, a model may be spurious."""
import time
import z3
from . import expr as X
from .expr import E

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}
STATS = Stats()

def topo(es):
    """nodes reachable from es, children first (iterative)"""
    seen = set()
    out = []
    stack = [(e, False) for e in es]
    while stack:
        e, d = stack.pop()
        if d:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        stack.append((e, True))
        for a in e.args:
            if isinstance(a, E) and a.id not in seen:
                stack.append((a, False))
    return out

_VARS = {}
def varsof(e):
    """names of the variables of an expression"""
    r = _VARS.get(e)
    if r is not None: return r
    st = [e]
    while st:
        x = st[-1]
        if x in _VARS:
            st.pop(); continue
        ch = [a for a in x.args if isinstance(a, X.E) and a not in _VARS]
        if ch: st.extend(ch); continue
        st.pop()
        if x.op == "var": _VARS[x] = frozenset([x.args[0]])
        else:
            s = frozenset()
            for a in x.args:
                if isinstance(a, X.E) and not _VARS[a] <= s: s = s | _VARS[a] if s else _VARS[a]
            _VARS[x] = s
    return _VARS[e]
def related(conds):
    vs = [varsof(x) for x in conds]
    k = max((i for i, v in enumerate(vs) if v), default=len(conds) - 1)
    keep, cur = {len(conds) - 1, k}, set(vs[k])
    ch = True
    while ch:
        ch = False
        for i, v in enumerate(vs):
            if i not in keep and v and not cur.isdisjoint(v):
                keep.add(i)
                cur |= v
                ch = True
    return [x for i, x in enumerate(conds) if i in keep]

class BV:
    def __init__(self):
        self.m = {}
        self.side = []
    def conv(self, e):
        r = self.m.get(e.id)
        if r is not None:
            return r
        for n in topo([e]):
            if n.id not in self.m:
                self.m[n.id] = self._one(n)
        return self.m[e.id]
    def _one(self, n):
        o = n.op
        w = n.w
        if o == "c":
            return z3.BitVecVal(n.val, w) if w else z3.BoolVal(bool(n.val))
        if o == "var":
            if not w:
                return z3.Bool(n.args[0])
            v = z3.BitVec(n.args[0], w)
            if n.lo > 0:
                self.side.append(z3.UGE(v, n.lo))
            if n.hi < X.mask(w):
                self.side.append(z3.ULE(v, n.hi))
            return v
        a = [self.m[x.id] if isinstance(x, E) else x for x in n.args]
        if o == "add": return a[0] + a[1]
        if o == "sub": return a[0] - a[1]
        if o == "mul": return a[0] * a[1]
        if o == "udiv": return z3.UDiv(a[0], a[1])
        if o == "urem": return z3.URem(a[0], a[1])
        if o == "sdiv": return a[0] / a[1]
        if o == "srem": return z3.SRem(a[0], a[1])
        if o == "and": return a[0] & a[1] if w else z3.And(a[0], a[1])
        if o == "or": return a[0] | a[1] if w else z3.Or(a[0], a[1])
        if o == "xor": return a[0] ^ a[1] if w else z3.Xor(a[0], a[1])
        if o == "not": return ~a[0] if w else z3.Not(a[0])
        if o == "shl": return a[0] << a[1]
        if o == "lshr": return z3.LShR(a[0], a[1])
        if o == "ashr": return a[0] >> a[1]
        if o == "zext": return z3.ZeroExt(w - n.args[0].w, a[0])
        if o == "sext": return z3.SignExt(w - n.args[0].w, a[0])
        if o == "trunc": return z3.Extract(w - 1, 0, a[0])
        if o == "eq": return a[0] == a[1]
        if o == "ult": return z3.ULT(a[0], a[1])
        if o == "ule": return z3.ULE(a[0], a[1])
        if o == "slt": return a[0] < a[1]
        if o == "ite": return z3.If(a[0], a[1], a[2])
        if o == "uaddo":
            return z3.ULT(a[0] + a[1], a[0])
        if o == "umulo":
            return z3.Not(z3.BVMulNoOverflow(a[0], a[1], False))
        if o == "saddo":
            return z3.Or(z3.Not(z3.BVAddNoOverflow(a[0], a[1], True)), z3.Not(z3.BVAddNoUnderflow(a[0], a[1])))
        if o == "ssubo":
            return z3.Or(z3.Not(z3.BVSubNoOverflow(a[0], a[1])), z3.Not(z3.BVSubNoUnderflow(a[0], a[1], True)))
        if o == "smulo":
            return z3.Or(z3.Not(z3.BVMulNoOverflow(a[0], a[1], True)), z3.Not(z3.BVMulNoUnderflow(a[0], a[1])))
        if o == "ctlz":
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return r
        if o == "cttz":
            r = z3.BitVecVal(w, w)
            for i in reversed(range(w)):
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(i, w), r)
            return r
        if o == "ctpop":
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a[0])) if w > 1 else r
            return r
        if o.startswith("uf:"):
            srt = [x.sort() for x in a if not isinstance(x, (str, int))]
            args = [x for x in a if not isinstance(x, (str, int))]
            nm = o[3:] + "".join("_" + str(x) for x in a if isinstance(x, (str, int)))
            rng = z3.BitVecSort(w) if w else z3.BoolSort()
            if not args:
                return z3.Const(nm, rng)
            return z3.Function(nm, *srt, rng)(*args)
        raise NotImplementedError("BV " + o)

    def check(self, conds, timeout_ms=10000):
        """conds: list of boolean E; -> ('sat', model dict) / ('unsat', None) / ('unknown', None)"""
        if len(conds) > 12:
            # the hypotheses that share variables with the goal (the last condition) often suffice
            cone = related(conds)
            if len(cone) < len(conds):
                r = self.check1(cone, min(timeout_ms, 5000))
                if r[0] == "unsat": return r
        return self.check1(conds, timeout_ms)
    def check1(self, conds, timeout_ms):
        s = z3.SolverFor("QF_AUFBV") if False else z3.Solver()
        s.set("timeout", timeout_ms)
        zs = [self.conv(x) for x in conds]
        for x in zs:
            s.add(x)
        for x in self.side:
            s.add(x)
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        STATS.by["z3-bv"] = STATS.by.get("z3-bv", 0) + 1
        if r == z3.unsat:
            return ("unsat", None)
        if r == z3.sat:
            m = s.model()
            d = {}
            for v in m.decls():
                if v.arity() == 0:
                    x = m[v]
                    try:
                        d[v.name()] = x.as_long()
                    except AttributeError:
                        d[v.name()] = z3.is_true(x)
            return ("sat", d)
        return ("unknown", None)

# ------------------------------------------------------------------ Int
class Poly:
    """immutable: dict monomial(tuple of sorted atom ids) -> int"""
    __slots__ = ("d", "_k")
    def __init__(self, d):
        self.d = d
        self._k = None
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k
    @staticmethod
    def const(v):
        return Poly({(): v} if v else {})
    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)
    def cval(self):
        return self.d.get((), 0)
    def add(self, o, k=1):
        d = dict(self.d)
        for m, v in o.d.items():
            t = d.get(m, 0) + k * v
            if t:
                d[m] = t
            else:
                d.pop(m, None)
        return Poly(d)
    def scale(self, k):
        return Poly({m: v * k for m, v in self.d.items()}) if k else Poly({})
    def mul(self, o):
        d = {}
        for m, v in self.d.items():
            for n, u in o.d.items():
                q = tuple(sorted(m + n))
                t = d.get(q, 0) + v * u
                if t:
                    d[q] = t
                else:
                    d.pop(q, None)
        return Poly(d)

class IntEnc:
    def __init__(self, tight=True):
        self.tight = tight
        self.m = {}          # expr id -> Poly  (ints)
        self.bm = {}         # expr id -> z3 bool
        self.atoms = []      # (name, lo, hi)
        self.divs = {}       # (poly key, 2^k) -> atom poly
        self.quot = {}       # monomial of a quotient atom -> dividend
        self.z = {}          # monomial -> z3 Int
        self.side = []
        self.varatom = {}
        self.monb = set()
        self.rems = {}       # quotient atom -> [(remainder poly, its coefficient there, lo, hi)]
        self.bcache = {}
        self.quotk = {}      # same, with the power of two
        self.uqh = set()     # high parts (quotient / 2^k) of such atoms
        self.uq = set()      # quotient atoms of divisions by a variable
    def atom(self, name, lo, hi):
        i = len(self.atoms)
        self.atoms.append((name, lo, hi))
        return Poly({(i,): 1})
    def mono_bounds(self, m):
        lo, hi = 1, 1
        for i in m:
            _, l, h = self.atoms[i]
            c = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(c), max(c)
        return lo, hi
    def bounds(self, p):
        """interval of p: naive, intersected with the one obtained by splitting
        off remainders (a quotient atom q with coefficient -c*2^k stands for
        c * (B - 2^k q) with 0 <= B - 2^k q < 2^k)"""
        k = p.key()
        r = self.bcache.get(k)
        if r is not None:
            return r
        lo, hi = self.bounds0(p)
        rest, l, h = p, 0, 0
        n = 0
        while n < 40:
            best = None
            for m, v in rest.d.items():
                if len(m) == 1 and m[0] in self.rems and (best is None or m[0] > best[0]):
                    for K, kc, kl, kh in self.rems[m[0]]:
                        if v % kc == 0:
                            best = (m[0], v // kc, K, kl, kh)
                            break
            if best is None:
                break
            n += 1
            _, cc, K, kl, kh = best
            rest = rest.add(K, -cc)
            l, h = (l + cc * kl, h + cc * kh) if cc > 0 else (l + cc * kh, h + cc * kl)
            a, b = self.bounds0(rest)
            lo, hi = max(lo, a + l), min(hi, b + h)
        self.bcache[k] = (lo, hi)
        return lo, hi
    def bounds0(self, p):
        lo = hi = 0
        for m, v in p.d.items():
            l, h = self.mono_bounds(m)
            if v > 0:
                lo += v * l
                hi += v * h
            else:
                lo += v * h
                hi += v * l
        return lo, hi
    def zm(self, m):
        r = self.z.get(m)
        if r is None:
            if len(m) == 1:
                r = z3.Int("%s~%d" % (self.atoms[m[0]][0], m[0]))
            else:
                r = z3.Int("m_" + "_".join(map(str, m)))
            self.z[m] = r
            l, h = self.mono_bounds(m)
            self.side.append(r >= l)
            self.side.append(r <= h)
            if len(m) == 2:
                (_, xl, xh), (_, yl, yh) = self.atoms[m[0]], self.atoms[m[1]]
                for u, o in (m, m[::-1]):
                    if u in self.uq and self.atoms[o][1] >= 0:
                        self.side.append(z3.Or(self.zm((u,)) >= 1 << 64, r <= ((1 << 64) - 1) * self.zm((o,))))
                for u, o in (m, m[::-1]):
                    if u in self.uqh:
                        self.side.append(z3.Or(self.zm((u,)) != 0, r == 0))
                for u, o in (m, m[::-1]):
                    _, ul, uh = self.atoms[u]
                    if 2 <= uh - ul <= 4 and not self.atoms[u][0][0].isupper():
                        for val in range(ul, uh + 1):
                            self.side.append(z3.Implies(self.zm((u,)) == val, r == val * self.zm((o,))))
                # (upper-case names are free inputs: no case lemmas for them)
                sm = [self.atoms[u][2] - self.atoms[u][1] for u in m if not self.atoms[u][0][0].isupper()]
                if (sm and min(sm) <= 16) or m[0] in self.uq or m[1] in self.uq:
                    x, y = self.zm((m[0],)), self.zm((m[1],))
                    self.side += [r >= xl * y + yl * x - xl * yl, r >= xh * y + yh * x - xh * yh,
                                  r <= xh * y + yl * x - xh * yl, r <= xl * y + yh * x - xl * yh]
        return r
    def zp(self, p):
        if p.is_const():
            return z3.IntVal(p.cval())
        ts = []
        for m, v in p.d.items():
            if m == ():
                ts.append(z3.IntVal(v))
            else:
                ts.append(self.zm(m) if v == 1 else z3.IntVal(v) * self.zm(m))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    def neg(self, B, lo, hi):
        """atom in {0,1}: [B < 0], for lo <= B <= hi"""
        while len(B.d) == 1:
            (m, v), = B.d.items()
            if v == 1 and m in self.quot:      # sign of floor(B0 / 2^k) is the sign of B0
                B = self.quot[m]
                lo, hi = self.bounds(B)
            else:
                break
        if lo >= 0:
            return Poly({})
        if hi < 0:
            return Poly.const(1)
        key = (B.key(), "neg")
        n = self.divs.get(key)
        if n is None:
            n = self.atom("n", 0, 1)
            self.divs[key] = n
            zb, zn = self.zp(B), self.zp(n)
            self.side += [zb >= lo * zn, zb <= hi - (hi + 1) * zn]
        return n
    def note_rem(self, n, r, M):
        if len(n.d) == 1 and () not in n.d:
            i = next(iter(n.d))[0]
            if all(x[1] != M for x in self.rems.get(i, [])) and r.d.get((i,)) == M:
                self.rems.setdefault(i, []).append((r, M, 0, M - 1))
            self.bcache[r.key()] = (0, M - 1)
    def divmod2k(self, p, k, qlo=None, qhi=None):
        """-> (q, r) polys with p = 2^k q + r, 0 <= r < 2^k"""
        M = 1 << k
        A, B = {}, {}
        for m, v in p.d.items():
            q, r = divmod(v, M)
            if r > M // 2 and m != ():
                q += 1
                r -= M
            if q:
                A[m] = q
            if r:
                B[m] = r
        if () in B and len(B) > 1:
            # a constant such as 2^k - 1 stands for -1 when that keeps B small
            c0 = B[()]
            rest = Poly({m: v for m, v in B.items() if m != ()})
            l0, h0 = self.bounds(rest)
            if not (0 <= l0 + c0 and h0 + c0 < M) and -M <= l0 + c0 - M and h0 + c0 - M < M:
                B[()] = c0 - M
                A[()] = A.get((), 0) + 1
                if not A[()]:
                    del A[()]
        A, B = Poly(A), Poly(B)
        lo, hi = self.bounds(B)
        if 0 <= lo and hi < M:
            return A, B
        if lo // M == hi // M:
            s = lo // M
            return A.add(Poly.const(s)), B.add(Poly.const(-s * M))
        if self.tight and (B.key(), k) not in self.divs:
            # p itself (without whole multiples of M of sign atoms) may span two cells only
            C = {m: v for m, v in p.d.items() if not (v % M == 0 and (m == () or (len(m) == 1 and self.atoms[m[0]][0] == "n")))}
            C = Poly(C)
            D = p.add(C, -1)
            D = Poly({m: v // M for m, v in D.d.items()})
            l2, h2 = self.bounds(C)
            s2 = l2 // M
            if s2 == h2 // M:
                return D.add(Poly.const(s2)), C.add(Poly.const(-s2 * M))
            if h2 // M == s2 + 1:
                C = C.add(Poly.const(-(s2 + 1) * M))
                n = self.neg(C, l2 - (s2 + 1) * M, h2 - (s2 + 1) * M)
                r = C.add(n, M)
                self.note_rem(n, r, M)
                return D.add(Poly.const(s2 + 1)).add(n, -1), r
        if len(B.d) == 1:
            (m, v), = B.d.items()
            if v == 1 and m in self.quotk:
                # floor(floor(B0 / 2^j) / 2^k) = floor(B0 / 2^(j+k))
                B0, j = self.quotk[m]
                q, _ = self.divmod2k(B0, j + k)
                return A.add(q), B.add(q, -M)
        g = 0
        for v in B.d.values():
            g |= v
        tz = (g & -g).bit_length() - 1
        if tz > 0:
            # floor(2^t B' / 2^k) = floor(B' / 2^(k-t))
            q2, r2 = self.divmod2k(Poly({m: v >> tz for m, v in B.d.items()}), k - tz)
            return A.add(q2), r2.scale(1 << tz)
        if -M <= lo and hi < M:
            # floor(B / 2^k) = -[B < 0], whatever k
            n = self.neg(B, lo, hi)
            r = B.add(n, M)
            self.note_rem(n, r, M)
            return A.add(n, -1), r
        key = (B.key(), k)
        q = self.divs.get(key)
        if q is None:
            q = self.atom("q", lo // M, hi // M)
            self.divs[key] = q
            self.quot[next(iter(q.d))] = B
            self.quotk[next(iter(q.d))] = (B, k)
            if len(B.d) == 1 and len(next(iter(B.d))) == 1 and next(iter(B.d))[0] in self.uq:
                self.uqh.add(next(iter(q.d))[0])
            r = B.add(q, -M)
            self.rems[next(iter(q.d))[0]] = [(r, -M, 0, M - 1)]
            self.bcache[r.key()] = (0, M - 1)
            zr = self.zp(r)
            self.side.append(zr >= 0)
            self.side.append(zr <= M - 1)
        return A.add(q), B.add(q, -M)
    def name_rem(self, r, w):
        """in the encoding that names intermediate words: a fresh atom equal to
        the remainder polynomial r, so that bounds stay those of the word"""
        if self.tight != "named" or len(r.d) <= 1:
            return r
        key = (r.key(), "named")
        t = self.divs.get(key)
        if t is None:
            t = self.atom("t", 0, (1 << w) - 1)
            self.divs[key] = t
            self.side.append(self.zp(t) == self.zp(r))
        return t
    def conv(self, e):
        """E (word) -> Poly"""
        r = self.m.get(e.id)
        if r is not None:
            return r
        for n in topo([e]):
            if n.w:
                if n.id not in self.m:
                    self.m[n.id] = self._one(n)
            else:
                if n.id not in self.bm:
                    self.bm[n.id] = self._bool(n)
        return self.m[e.id]
    def convb(self, e):
        r = self.bm.get(e.id)
        if r is not None:
            return r
        for n in topo([e]):
            if n.w:
                if n.id not in self.m:
                    self.m[n.id] = self._one(n)
            elif n.id not in self.bm:
                self.bm[n.id] = self._bool(n)
        return self.bm[e.id]
    def opaque(self, n):
        return self.atom("t%d" % n.id, n.lo, n.hi)
    def _one(self, n):
        o, w = n.op, n.w
        M = self.m
        if o == "c":
            return Poly.const(n.val)
        if o == "var":
            a = self.varatom.get(n.args[0])
            if a is None:
                a = self.atom(n.args[0], n.lo, n.hi)
                self.varatom[n.args[0]] = a
            return a
        if o in ("zext",):
            return M[n.args[0].id]
        if o == "trunc":
            a = M[n.args[0].id]
            if n.args[0].hi <= X.mask(w):
                return a
            return self.name_rem(self.divmod2k(a, w)[1], w)
        if o == "add":
            a, b = n.args
            p = M[a.id].add(M[b.id])
            if a.hi + b.hi <= X.mask(w):
                return p
            return self.divmod2k(p, w)[1]
        if o == "sub":
            a, b = n.args
            p = M[a.id].add(M[b.id], -1)
            if a.lo >= b.hi:
                return p
            return self.divmod2k(p, w)[1]
        if o == "mul":
            a, b = n.args
            p = M[a.id].mul(M[b.id])
            if a.hi * b.hi <= X.mask(w):
                return p
            return self.name_rem(self.divmod2k(p, w)[1], w)
        if o == "shl" and n.args[1].const:
            a = n.args[0]
            k = n.args[1].val
            p = M[a.id].scale(1 << k)
            if a.hi << k <= X.mask(w):
                return p
            return self.divmod2k(p, w)[1]
        if o == "lshr" and n.args[1].const:
            return self.divmod2k(M[n.args[0].id], n.args[1].val)[0]
        if o == "not":
            return Poly.const(X.mask(w)).add(M[n.args[0].id], -1)
        if o in ("udiv", "urem"):
            a, b = n.args
            pa, pb = M[a.id], M[b.id]
            if b.const and b.val:
                key = (pa.key(), "d", b.val)
                q = self.divs.get(key)
                if q is None:
                    lo, hi = self.bounds(pa)
                    q = self.atom("q", max(0, lo // b.val), max(0, hi // b.val))
                    self.divs[key] = q
                    r = self.zp(pa.add(q, -b.val))
                    self.side += [r >= 0, r <= b.val - 1]
                return q if o == "udiv" else pa.add(q, -b.val)
            key = (pa.key(), "dd", pb.key())
            q = self.divs.get(key)
            if q is None:
                q = self.atom("q", 0, a.hi // max(1, b.lo))
                self.uq.add(next(iter(q.d))[0])
                self.divs[key] = q
                r = self.zp(pa.add(q.mul(pb), -1))
                self.side += [z3.Implies(self.zp(pb) > 0, z3.And(r >= 0, r < self.zp(pb)))]
                # q >= 2^64 -> q*b >= 2^64*b   (b >= 0)
                zq, zqb = self.zp(q), self.zp(q.mul(pb))
                self.side += [z3.Or(zq <= (1 << 64) - 1, zqb >= (1 << 64) * self.zp(pb))]
            return q if o == "udiv" else pa.add(q.mul(pb), -1)
        if o == "ite":
            p, a, b = n.args
            pa, pb = M[a.id], M[b.id]
            if pa.is_const() and pb.is_const():
                t = self.atom("i", 0, 1)
                cz = self.bm[p.id]
                zt = self.zp(t)
                self.side += [z3.Implies(cz, zt == 1), z3.Implies(z3.Not(cz), zt == 0)]
                return pb.add(t, pa.cval() - pb.cval())
            v = self.atom("ite", n.lo, n.hi)
            cz = self.bm[p.id]
            zv = self.zp(v)
            self.side += [z3.Implies(cz, zv == self.zp(pa)), z3.Implies(z3.Not(cz), zv == self.zp(pb))]
            return v
        if o == "and" and n.args[1].const:
            mval = n.args[1].val
            # high mask / single contiguous mask
            tz = (mval & -mval).bit_length() - 1
            mm = mval >> tz
            if mm & (mm + 1) == 0:
                q = self.divmod2k(M[n.args[0].id], tz)[0]
                r = self.divmod2k(q, mm.bit_length())[1]
                return r.scale(1 << tz)
        return self.opaque(n)
    def _bool(self, n):
        o = n.op
        if o == "c":
            return z3.BoolVal(bool(n.val))
        if o == "var":
            return z3.Bool(n.args[0])
        M, B = self.m, self.bm
        if o in ("and", "or", "xor", "not", "ite"):
            a = [B[x.id] for x in n.args]
            if o == "and": return z3.And(*a)
            if o == "or": return z3.Or(*a)
            if o == "xor": return z3.Xor(*a)
            if o == "not": return z3.Not(a[0])
            return z3.If(*a)
        if o == "eq":
            a, b = n.args
            if a.w == 0:
                return B[a.id] == B[b.id]
            d = M[a.id].add(M[b.id], -1)
            if d.is_const():
                return z3.BoolVal(d.cval() == 0)
            return self.zp(d) == 0
        if o in ("ult", "ule"):
            d = M[n.args[0].id].add(M[n.args[1].id], -1)
            if d.is_const():
                return z3.BoolVal(d.cval() < 0 if o == "ult" else d.cval() <= 0)
            return self.zp(d) < 0 if o == "ult" else self.zp(d) <= 0
        if o == "slt":
            a, b = n.args
            h = 1 << (a.w - 1)
            def sg(x):
                p = self.zp(M[x.id])
                if x.hi < h: return p
                return z3.If(p >= h, p - (1 << x.w), p)
            return sg(a) < sg(b)
        if o == "uaddo":
            a, b = n.args
            return self.zp(M[a.id].add(M[b.id])) > X.mask(a.w)
        if o == "umulo":
            a, b = n.args
            return self.zp(M[a.id].mul(M[b.id])) > X.mask(a.w)
        # opaque boolean
        return z3.Bool("ob%d" % n.id)
    # convenience
    def limbs(self, es, w=64):
        es = list(es)
        p = Poly({})
        i = 0
        while i < len(es):
            # four limbs cut from one word are that word
            if w == 64 and i + 4 <= len(es) and any(x.op == "trunc" for x in es[i:i + 4]):
                cc = X.reassemble(es[i:i + 4])
                if cc is not None:
                    p = p.add(self.conv(cc), 1 << (w * i))
                    i += 4
                    continue
            p = p.add(self.conv(es[i]), 1 << (w * i))
            i += 1
        return p
    def lemma_product(self, a, alo, ahi, b, blo, bhi):
        """McCormick envelopes for polys a in [alo,ahi], b in [blo,bhi] (the
        bounds must themselves be entailed)."""
        ab = a.mul(b)
        z = self.zp(ab)
        za, zb = self.zp(a), self.zp(b)
        return [z >= alo * zb + blo * za - alo * blo, z >= ahi * zb + bhi * za - ahi * bhi,
                z <= ahi * zb + blo * za - ahi * blo, z <= alo * zb + bhi * za - alo * bhi]
    def check(self, zconds, timeout_ms=20000):
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        for x in zconds:
            s.add(x)
        n = 0
        for x in self.side:
            s.add(x)
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        STATS.by["z3-lia"] = STATS.by.get("z3-lia", 0) + 1
        if r == z3.unsat:
            return ("unsat", None)
        if r == z3.sat:
            m = s.model()
            d = {}
            for nm, a in self.varatom.items():
                (mon,) = a.d.keys()
                if mon in self.z:
                    x = m.eval(self.z[mon], model_completion=True)
                    d[nm] = x.as_long()
            return ("sat", d)
        return ("unknown", None)
