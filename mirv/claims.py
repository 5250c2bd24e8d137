"""Generator of satisfiable claims: a trace together with constraints that it
satisfies, each constraint also given by its meaning (rows where it applies,
numerator), so that violations can be placed and located independently."""
from . import starkpy as SP
from .starkpy import C, X, T, add, sub, mul, div, pw, PF
def val(r):
    return r.choice([0, 1, 2, PF - 1, r.randrange(PF), r.randrange(1 << 64), r.randrange(PF)])

class Con:
    """numerator (over trace offsets and X), rows on which it must vanish"""
    def __init__(self, num, rows, expr):
        self.num, self.rows, self.expr = num, rows, expr
    def holds(self, trace, row, g, claims=()):
        n = len(trace)
        return SP.value(self.num, pow(g, row, PF), lambda c, j: trace[(row + j) % n][c], claims) == 0

def poly_of(r, w, offs, deg, terms):
    """random polynomial expression in the cells of the given rows"""
    def mono():
        k = r.randrange(0, deg + 1)
        f = [T(r.randrange(w), r.choice(offs)) for _ in range(k)]
        c = C(val(r))
        if not f: return c
        if k >= 2 and r.randrange(3) == 0:
            f = [pw(f[0], k)]
        m = mul(*f)
        q = r.randrange(3)
        return m if q == 0 else mul(c, m) if q == 1 else ("~", m)
    return add(*[mono() for _ in range(terms)])

def unit(r, n, periodic, cosets=False):
    """a factor that is a polynomial in X of small degree, written in an unusual way"""
    q = r.randrange(6, 11) if cosets else r.randrange(11)
    k = r.choice([x for x in (1, 2, 4, 8) if x <= n])
    if q > 5:
        # powers, inverses, sums and products of X^m whose values repeat after few points
        m = max(1, n * r.choice([1, 1, 2, 2, 2, 4, 4, 8]) // 4)
        p, e = pw(X, m), r.choice([2, 3, 3, 4, 5, 6, 7])
        c = lambda: C(r.randrange(1, PF))
        if q == 6: return div(pw(mul(c(), p), e), pw(X, m * (e - 1)))
        if q == 7: return mul(add(("i", mul(c(), p)), c()), p)
        if q == 8: return add(mul(c(), p), ("~", mul(p, c())), ("i", pw(("i", p), 1)))
        if q == 9: return mul(("p", [r.randrange(1, PF) for _ in range(r.choice([1, 2, 4]))], ("i", p)), pw(p, 3))
        return div(mul(pw(X, m), pw(X, 2 * m), pw(mul(c(), p), 2)), pw(X, r.choice([3, 4]) * m))
    if q == 0: return C(r.randrange(1, PF))
    if q == 1: return add(pw(X, r.randrange(0, 3)), C(r.randrange(1, PF)))
    if q == 2:
        # random coefficients, so that the factor vanishes on no row
        p = [r.randrange(1, PF) for _ in range(k)]
        return ("p", p, pw(X, n // k)) if periodic else C(5)
    if q == 3:
        a, b = add(X, C(r.randrange(2, PF))), add(pw(X, 2), C(r.randrange(2, PF)))
        return div(mul(a, b), a)
    if q == 4:
        a = sub(pw(X, n), C(r.randrange(2, 50)))
        return ("i", ("i", div(mul(a, C(3)), a)))
    return mul(("~", C(r.randrange(1, PF))), pw(C(r.randrange(1, PF)), r.randrange(0, 4)))

def make(r, n=None, rich=True, maxdeg=4, w=None, dirs=None, cosets=False):
    n = n or r.choice([2, 4, 4, 8, 8, 16, 16, 32])
    w = w or r.choice([1, 1, 2, 3])
    g = SP.root(n)
    # direction: next row from the current one, or from the previous (negative offsets), or two back
    kind = dirs or r.choice(["fwd", "fwd", "back", "two"]) if n > 2 else "fwd"
    deg = r.choice([1, 1, 2, 2, 3])
    periodic = None
    if n >= 4 and r.randrange(2):
        k = r.choice([x for x in (1, 2, 4, 8) if x < n])
        periodic = (k, [val(r) for _ in range(k)])
    claims = []
    if rich and r.randrange(4) == 0:
        claims = [[val(r) for _ in range(r.choice([1, 2]))]]
    F = []
    offs = {"fwd": [0], "back": [-1], "two": [-1, -2]}[kind]
    for j in range(w):
        e = poly_of(r, w, offs, deg, r.choice([1, 2, 3]))
        if periodic and r.randrange(2): e = add(e, ("p", SP.interp(periodic[1]), pw(X, n // periodic[0])))
        if claims and r.randrange(2):
            e = add(e, ("q", 0, len(claims[0]) - 1, C(r.randrange(9)))) if r.randrange(2) else add(e, ("q", 0, len(claims[0]) - 1, X))
        F.append(e)
    start = {"fwd": 1, "back": 1, "two": 2}[kind]
    rows = [[val(r) for _ in range(w)] for _ in range(start)]
    for i in range(start, n):
        # in 'fwd' the constraint at row i-1 defines row i; otherwise at row i
        at = i - 1 if kind == "fwd" else i
        rows.append([SP.value(F[j], pow(g, at, PF), lambda c, o: rows[at + o][c], claims) for j in range(w)])
    cons = []
    Zn = sub(pw(X, n), C(1))
    for j in range(w):
        if kind == "fwd":
            num, ex, app = sub(T(j, 1), F[j]), [n - 1], range(n - 1)
        else:
            num, ex, app = sub(T(j, 0), F[j]), list(range(start)), range(start, n)
        f = num
        for k in ex: f = mul(f, sub(X, C(pow(g, k, PF))))
        if rich and (cosets or r.randrange(3) == 0): f = mul(f, unit(r, n, True, cosets))
        q = r.randrange(3)
        e = div(f, Zn) if q == 0 else mul(("i", Zn), f) if q == 1 else div(f, add(pw(pw(X, n // 2), 2), ("~", C(1))))
        cons.append(Con(num, list(app), e))
    for _ in range(r.choice([1, 1, 2, 3])):
        k, j = r.choice([0, n - 1, r.randrange(n)]), r.randrange(w)
        num = sub(T(j, 0), C(rows[k][j]))
        o = r.choice([0, 0, 1, -1])
        if o and n > 2: num = sub(T(j, o), C(rows[(k + o) % n][j]))
        d = sub(X, C(pow(g, k, PF)))
        cons.append(Con(num, [k], div(num, d)))
    if rich and r.randrange(3) == 0:
        # a column fixed by a periodic polynomial on every row, or a relation on every k-th row
        w += 1
        k = r.choice([x for x in (1, 2, 4) if x <= n])
        v = [val(r) for _ in range(k)]
        for i in range(n): rows[i] = rows[i] + [v[i % k]]
        num = sub(T(w - 1, 0), ("p", SP.interp(v), pw(X, n // k)))
        if r.randrange(2): cons.append(Con(num, list(range(n)), div(num, Zn)))
        else:
            num = sub(T(w - 1, 0), C(v[0]))
            cons.append(Con(num, list(range(0, n, k)), div(num, sub(pw(X, n // k), C(1)))))
    if rich and r.randrange(4) == 0: r.shuffle(cons)
    return n, w, rows, cons, claims

def layout(r, n):
    """reductions per layer, each between 1 and 4, not below one coefficient"""
    left = n.bit_length() - 1
    total = r.choice([left, r.randrange(1, left + 1)])
    out = []
    while total:
        k = min(total, r.randrange(1, 5))
        out.append(k)
        total -= k
    return out

def claim(r, **k):
    """-> (Claim, trace rows, list of Con); the claim is well formed and satisfied"""
    opts = {x: k.pop(x) for x in ("pow", "queries", "blowup", "lay", "seedlen") if x in k}
    while True:
        n, w, rows, cons, cl = make(r, **k)
        c = SP.Claim(n, w, [x.expr for x in cons], claims=cl)
        try:
            if c.degree() < 1 or c.epow() > 8 or not c.wellformed(): continue
        except ValueError: continue
        ts = c.targs()
        if not ts or any(abs(j) >= n for _, j in ts): continue
        c.blowup = opts.get("blowup") or max(c.epow(), r.choice([2, 4, 8, 16 if n <= 8 else 8]))
        if c.blowup < c.epow(): continue
        c.layout = opts.get("lay") or layout(r, n)
        c.queries = opts.get("queries") or r.choice([1, 2, 3, 4, 5, 7, 12, 20])
        c.pow = opts.get("pow", r.choice([0, 0, 1, 3, 5, 8]))
        L = opts.get("seedlen")
        c.seed = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 31, 32, 33, 64, 135, 136, 137]) if L is None else L))
        return c, rows, cons
