"""Symbolic group layer: a curve point of a proof is Opq("pt", Lin), an integer
combination of named points whose coefficients are constants times small
symbolic integers.  The operations of Affine and Jacobian are replaced by their
contracts (the group law, proved from the code in E01)."""
from . import expr as X
from .expr import E
from .exe import Opq, Ptr, En, Unsupported, MERGE, NeedFork
BND = {}                # term -> bound on its absolute value
class Lin:
    """sum of coeff * term * point; term None means 1, else a signed 64-bit expression"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = {k: v for k, v in t.items() if v}
    def __add__(self, o, s=1):
        t = dict(self.t)
        for k, v in o.t.items(): t[k] = t.get(k, 0) + s * v
        return Lin(t)
    def __neg__(self): return Lin({k: -v for k, v in self.t.items()})
    def part(self, pt): return {e: v for (p, e), v in self.t.items() if p == pt}
    def __repr__(self): return "Lin(%r)" % (self.t,)
def pt(name): return Opq("pt", Lin({(name, None): 1}))
def small(d):
    """value of {term: coeff} as one 64-bit expression, with its bound"""
    b = 0
    r = X.c(0, 64)
    for e, v in d.items():
        if abs(v) > 1 << 30: raise NeedFork()
        q = BND[e] if e is not None else 1
        b += abs(v) * q
        r = X.add(r, X.c(v % (1 << 64), 64) if e is None else X.mul(e, X.c(v % (1 << 64), 64)) if v not in (1, -1) else e if v == 1 else X.neg(e))
    if b > 1 << 40: raise NeedFork()
    return r, b
def _merge(p, a, b):
    out, pts = {}, {k[0] for k in list(a.t) + list(b.t)}
    for n in pts:
        x, y = a.part(n), b.part(n)
        for e in list(x):
            if y.get(e) == x[e]:
                out[n, e] = x.pop(e)
                del y[e]
        if not x and not y: continue
        k = y.get(None, 0) & ~1     # the common, doubled part of the constants
        if k and x.get(None, 0) & ~1 == k:
            out[n, None] = out.get((n, None), 0) + k
            for q in (x, y):
                q[None] -= k
                if not q[None]: del q[None]
        (u, i), (v, j) = small(x), small(y)
        t = X.ite(p, u, v)
        if t.const: out[n, None] = out.get((n, None), 0) + (t.val - (1 << 64) if t.val >> 63 else t.val)
        else:
            BND[t] = max(i, j)
            out[n, t] = out.get((n, t), 0) + 1
    return Lin(out)
MERGE["pt"] = _merge
J, A = r"zkp_elliptic_curve::(jacobian::)?Jacobian", r"zkp_elliptic_curve::(curve::)?Affine"
class Group:
    def __init__(self):
        T = "(%s|%s)" % (J, A)
        h = r"^(<&?%s as [^>]*(<&?%s>)?>|zkp_elliptic_curve::\w+::<impl [^>]*(<&?%s>)? for &?%s>)::" % (T, T, T, T)
        g = self.get
        def asg(f):
            def q(ex, st, i, a):
                ex.store(st, a[0], Opq("pt", f(*[g(ex, st, x) for x in a])))
                return ()
            return q
        fn = lambda f: lambda ex, st, i, a: Opq("pt", f(*[g(ex, st, x) for x in a]))
        dbl = lambda x: x + x
        self.contracts = [
            (h + "add_assign$", asg(lambda x, y: x + y)), (h + "sub_assign$", asg(lambda x, y: x.__add__(y, -1))), (h + "add$", fn(lambda x, y: x + y)),
            (h + "sub$", fn(lambda x, y: x.__add__(y, -1))), (h + "(neg|neg_inline)$", fn(lambda x: -x)), (h + "(clone|from|into)$", fn(lambda x: x)),
            (r"^%s::double_assign$" % T, asg(dbl)), (r"^%s::double$" % T, fn(dbl)), (r"^%s::neg_assign$" % T, asg(lambda x: -x)),
            (h + "(neg_assign|neg_assign_inline)$", asg(lambda x: -x)), (h + "default$", lambda ex, st, i, a: Opq("pt", Lin({}))),
            (r"wnaf::batch_convert$", self.batch)]
    def batch(self, ex, st, inst, a):
        """contract of batch_convert: every entry the same point (proved in E02)"""
        xs = [self.val(v) for v in ex.load_slice(st, a[0])]
        n = ex.idx_const(a[1].meta)
        if n != len(xs): return NotImplemented
        for i, x in enumerate(xs): ex.store(st, ex.offset_ptr(Ptr(a[1].cell, a[1].path), i), Opq("pt", x))
        return ()
    def val(self, v):
        if isinstance(v, Opq) and v.kind == "pt": return v.x
        if isinstance(v, En) and v.v == 0: return Lin({})
        if isinstance(v, tuple) and len(v) == 3:
            w = v[2]
            while isinstance(w, tuple) and len(w) != 4: w = w[0]
            if isinstance(w, tuple) and all(isinstance(x, E) and x.const and x.val == 0 for x in w): return Lin({})
        raise Unsupported("not a point: %r" % (v,))
    def get(self, ex, st, a):
        while isinstance(a, Ptr): a = ex.load(st, a)
        return self.val(a)
    def equals(self, r, pts, W):
        """goals: r is the combination given by {point: [(coeff, signed 64-bit term or None)]}"""
        r = self.val(r)
        out = [("a combination of the given points", X.TRUE)]
        for n in sorted({k[0] for k in r.t} | set(pts)):
            have, want = r.part(n), pts.get(n, [])
            h = {}
            for e, v in have.items(): h.setdefault(v, []).append(e)
            w = {}
            for v, e in want: w.setdefault(v, []).append(e)
            one = lambda e: X.c(1, 64) if e is None else e
            if set(h) == set(w) and all(len(h[v]) == 1 and len(w[v]) == 1 for v in h):
                for v in sorted(set(h) | set(w)):
                    a, b = (one(q[v][0]) if v in q else X.c(0, 64) for q in (h, w))
                    out.append(("coefficient of %d*%s" % (v, n), X.eq(a, b)))
            else:
                tot = lambda L: __import__("functools").reduce(X.add, [X.mul(X.sext(one(e), W), X.c(v % (1 << W), W)) for v, e in L], X.c(0, W))
                out.append(("multiple of %s" % n, X.eq(tot([(v, e) for e, v in have.items()]), tot(want))))
        return out
