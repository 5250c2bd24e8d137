"""S01-S08: the STARK prover and verifier.  Oracle: an independent prover in
Python (mirv/starkpy.py), claims with known ground truth (mirv/claims.py)."""
import multiprocessing as mp
from mirv.core import *
from mirv import starkpy as SP, claims as CL
from mirv.starkpy import C as K, X as XX, T as TR, add, sub, mul, div, pw
from checks.field import gfe
import random as _random

def polyarg(p): return Raw("/".join("%x" % (c * SP.RR % PF) for c in p))
def cargs(cl): return [cl.head(), [Raw(SP.text(e)) for e in cl.exprs], [polyarg(p) for p in cl.claims]]
def tr(rows): return [FE(v) for r in rows for v in r]
def pool(f, items, n=8):
    if not items: return []
    with mp.get_context("fork").Pool(n) as p: return p.map(f, items, chunksize=1)
class Bad:
    def __init__(self): self.v, self.n, self.samples = [], 0, []
    def add(self, what, op, args, res):
        self.v.append((what, {"op": op, "args": [show(a) for a in args], "result": str(res)[:2000], "why": what}))
    def out(self, **k):
        return self.v, dict({"evaluations": self.n, "distinct": self.n, "samples": self.samples[:5]}, **k)

# ---------------------------------------------------------------- corpus
def job(a):
    seed, kw = a
    r = _random.Random(seed)
    cl, rows, cons = CL.claim(r, **kw)
    return cl, rows, cons, SP.prove(cl, rows)
def corpus(seed, num, **kw): return pool(job, [(seed * 100003 + i, kw) for i in range(num)])
def renonce(a):
    cl, rows, nonce = a
    return SP.prove(cl, rows, {"nonce": nonce})
def compare(nat, L, bad, want=("start", "constraint", "oods", "fri", "last", "nonce", "rest"), prefix=True):
    """real proofs against the reference; reports the first part that differs if it is
    in `want`. Any accepted nonce is as good as the reference's."""
    res = nat.run([("s_prove", cargs(cl) + [tr(rows)]) for cl, rows, _, _ in L], timeout=300)
    bad.n += len(L)
    again = []
    for k, ((cl, rows, _, ref), r) in enumerate(zip(L, res)):
        if not isinstance(r, Ok_):
            bad.add("proving a satisfied claim gave %s" % (r,), "s_prove", cargs(cl) + [tr(rows)], r)
            continue
        o = SP.nonce_offset(cl)
        na, nt = len(cl.targs()), cl.epow()
        cuts = [("start", 32), ("constraint", 64), ("oods", 64 + 32 * (na + nt)), ("fri", 64 + 32 * (na + nt + len(cl.layout))), ("last", o)]
        p, lo, part = r.x, 0, None
        for name, hi in cuts:
            if p[lo:hi] != ref[lo:hi]:
                part = name
                break
            lo = hi
        if part is None and p[o:] != ref[o:]:
            nonce = int.from_bytes(p[o:o + 8], "big")
            if len(p) < o + 8 or SP.pow_work(SP.pow_seed(challenge(cl, ref), cl.pow), nonce) < cl.pow: part = "nonce"
            elif p[o:o + 8] == ref[o:o + 8]: part = "rest"
            else: again.append((k, cl, rows, nonce, p))
        if part in want: report(bad, cl, rows, p, ref, part)
    for (k, cl, rows, nonce, p), ref in zip(again, pool(renonce, [(x[1], x[2], x[3]) for x in again])):
        if p != ref and "rest" in want: report(bad, cl, rows, p, ref, "rest")
    return res
def report(bad, cl, rows, p, ref, part):
    i = next((i for i in range(min(len(p), len(ref))) if p[i] != ref[i]), min(len(p), len(ref)))
    bad.add("the proof differs from the protocol's at byte %d of %d (part '%s'); n=%d blowup=%d queries=%d layout=%s" % (
        i, len(ref), part, cl.n, cl.blowup, cl.queries, cl.layout), "s_prove", cargs(cl) + [tr(rows)], Ok_(p))
def challenge(cl, proof):
    """transcript state from which the proof of work starts"""
    coin = SP.Coin()
    coin.seed(cl.seed)
    o, na, nt, nl = 0, len(cl.targs()), cl.epow(), len(cl.layout)
    for _ in range(2 + na + nt + nl):
        coin.write(proof[o:o + 32]); o += 32
    coin.write(proof[o:SP.nonce_offset(cl)])
    return coin.d
def verifies(nat, cases, bad, why):
    """cases: (claim args, proof, accept?, description)"""
    res = nat.run([("s_verify", a + [p]) for a, p, _, _ in cases], timeout=300)
    bad.n += len(cases)
    for (a, p, ok, d), r in zip(cases, res):
        if (r == Ok_(())) != ok:
            bad.add("%s: verification %s (%s)" % (why, "rejected a valid proof" if ok else "accepted", d), "s_verify", a + [p], r)
    return res

# ---------------------------------------------------------------- S01
def s01():
    c = Check("S01", "crypto")
    def extra(nat, rng, tier):
        bad = Bad()
        L = corpus(rng.randrange(1 << 30), 96 if tier == "quick" else 1600)
        L += corpus(rng.randrange(1 << 30), 8 if tier == "quick" else 60, n=64)
        for s in range(0, 300 if tier != "quick" else 40, 1 if tier != "quick" else 5):
            L += [job((rng.randrange(1 << 30), dict(n=4, w=1, seedlen=s, queries=r))) for r in (1 + s % 9,)]
        # long messages: seeds, last layers and rows of kilobytes
        L += pool(job, [(rng.randrange(1 << 30), o) for o in [dict(n=512, w=1, lay=[1], blowup=2, queries=3), dict(n=256, w=2, lay=[1], blowup=2, queries=3), dict(n=4, w=64, blowup=2, queries=3),
            dict(n=4, w=1, seedlen=4097, queries=2), dict(n=4, w=1, seedlen=70000, queries=2)]])
        compare(nat, L, bad)
        verifies(nat, [(cargs(cl), ref, True, "reference proof") for cl, _, _, ref in L], bad, "lockstep")
        bad.samples = [{"claim": str(cl.head())} for cl, *_ in L[:5]]
        return bad.out()
    c.extra = extra
    from checks import sproofs
    sproofs.s01(c)
    return c

# ---------------------------------------------------------------- S02
def pjob(a):
    seed, bits = a
    r = _random.Random(seed)
    cl, rows, cons = CL.claim(r, pow=bits, n=r.choice([2, 4]), w=1, rich=False)
    ref = SP.prove(cl, rows)
    s = SP.pow_seed(challenge(cl, ref), bits)
    out = [(ref, True, "least accepted nonce")]
    # nonces of every amount of work around the difficulty, small and large
    seen = {}
    for base in (0, 1 << 32, (1 << 64) - (1 << 14), r.getrandbits(63)):
        for k in range(base, base + (1 << 14)):
            w = SP.pow_work(s, k)
            if abs(w - bits) <= 2 and (w, base) not in seen: seen[(w, base)] = k
    for (w, base), k in seen.items():
        out.append((SP.prove(cl, rows, {"nonce": k}), w >= bits, "work %d for difficulty %d, nonce %x" % (w, bits, k)))
    return cl, rows, ref, out
def s02():
    c = Check("S02", "crypto")
    def extra(nat, rng, tier):
        bad = Bad()
        bits = list(range(0, 15)) * (2 if tier == "quick" else 20) + ([16, 17] if tier != "quick" else [])
        L = pool(pjob, [(rng.randrange(1 << 30), b) for b in bits])
        V = [(cargs(cl), p, ok, d) for cl, _, _, o in L for p, ok, d in o]
        # the same proof under another difficulty: accepted exactly when the nonce is sufficient for it
        for cl, rows, ref, o in L:
            o_ = SP.nonce_offset(cl)
            for b in {0, 1, cl.pow - 1, cl.pow + 1, cl.pow + 7, 200} - {cl.pow, -1}:
                d = SP.Claim(cl.n, cl.w, cl.exprs, cl.seed, cl.blowup, b, cl.queries, cl.layout, cl.claims)
                n = int.from_bytes(ref[o_:o_ + 8], "big")
                V.append((cargs(d), ref, SP.pow_work(SP.pow_seed(challenge(cl, ref), b), n) >= b, "difficulty %d for a proof of %d" % (b, cl.pow)))
        verifies(nat, V, bad, "proof of work")
        # the solver
        res = nat.run([("s_prove", cargs(cl) + [tr(rows)]) for cl, rows, _, _ in L], timeout=300)
        bad.n += len(res)
        for (cl, rows, ref, _), r in zip(L, res):
            o_ = SP.nonce_offset(cl)
            if not isinstance(r, Ok_):
                bad.add("no proof", "s_prove", cargs(cl) + [tr(rows)], r)
                continue
            if r.x[:o_] != ref[:o_]: continue
            n = int.from_bytes(r.x[o_:o_ + 8], "big")
            w = SP.pow_work(SP.pow_seed(challenge(cl, ref), cl.pow), n)
            if w < cl.pow: bad.add("the solver returned nonce %x with %d bits of work for difficulty %d" % (n, w, cl.pow), "s_prove", cargs(cl) + [tr(rows)], r)
        bad.samples = [{"difficulty": b} for b in bits[:5]]
        return bad.out()
    c.extra = extra
    from checks import sproofs
    sproofs.s02(c)
    return c

# ---------------------------------------------------------------- S03
def gpoly(r, maxlog=6, sizes=None):
    n = r.choice(sizes) if sizes else 1 << r.randrange(maxlog + 1)
    q = r.randrange(6)
    g = gfe("f")
    if q == 0: return [FE(0)] * n
    if q == 1: return [FE(0) if r.randrange(3) else g(r) for _ in range(n)]
    if q == 2:
        k = r.randrange(n)
        return [g(r) if i <= k else FE(0) for i in range(n)]
    return [g(r) for _ in range(n)]
def fes(v): return [FE(x % PF) for x in v]
def s03():
    c = Check("S03", "crypto")
    g = gfe("f")
    for op in ("p_new", "p_mmap"):
        c.search(op, lambda r: [gpoly(r) if r.randrange(5) else [FE(1)] * r.choice([0, 3, 5, 6, 7, 12])],
                 lambda v: (len(v), list(v)) if v and len(v) & (len(v) - 1) == 0 else PANIC, n=80)
    c.search("p_zeros", lambda r: [r.choice([1, 2, 4, 8, 64, 128, 0, 3, 6])], lambda n: [FE(0)] * n if n and n & (n - 1) == 0 else PANIC, n=30)
    c.search("p_degree", lambda r: [gpoly(r)], lambda v: SP.pdeg(v), n=300)
    c.search("p_eval", lambda r: [gpoly(r), g(r)], lambda v, x: FE(SP.ev(v, x)), n=400)
    def olde(v, b): return fes(SP.lde([int(x) for x in v], len(v) * b))
    c.search("p_lde", lambda r: [gpoly(r, 5), 1 << r.randrange(5)], olde, n=80)
    def odiv(v, z, k, t):
        q, rem = [0] * len(v), 0
        for i in range(len(v) - 1, -1, -1):
            q[i] = rem
            rem = (rem * z + v[i]) % PF
        return fes([a + int(k) * b for a, b in zip(t, q)])
    def gdiv(r):
        v = gpoly(r)
        return [v, g(r), g(r), [g(r) if r.randrange(2) else FE(0) for _ in v]]
    c.search("p_div", gdiv, odiv, n=300)
    def geq(r):
        a = gpoly(r, 4)
        q = r.randrange(4)
        b = list(a)
        if q == 1: b = b + [FE(0)] * len(b)
        if q == 2: i = r.randrange(len(b)); b[i] = FE((b[i] + 1) % PF)
        if q == 3: b = gpoly(r, 4)
        return [a, b]
    def trim(v): return [int(x) for x in v[:SP.pdeg(v) + 1]]
    c.search("p_eq", geq, lambda a, b: int(trim(a) == trim(b)), n=200)
    def gtab(r):
        rows, cols = 1 << r.randrange(6), r.choice([1, 1, 2, 3, 5])
        return [rows, cols, [g(r) for _ in range(rows * cols)]]
    c.search("t_interp", gtab, lambda R, W, v: [fes(SP.interp([int(v[i * W + j]) for i in range(R)])) for j in range(W)], n=80)
    def gacc(r):
        a = gtab(r)
        return a + [r.randrange(a[0]), r.randrange(a[1])]
    def oacc(R, W, v, i, j):
        col = [v[k * W + j] for k in range(R)]
        return (v[i * W:(i + 1) * W], col, col, FE((v[i * W + j] + 1) % PF))
    c.search("t_acc", gacc, oacc, n=80)
    def extra(nat, rng, tier):
        # one large extension (the transform's recursive and parallel branches), spot checked
        bad = Bad()
        sizes = [(1 << 11, 4), (1 << 12, 2)] if tier == "quick" else [(1 << 11, 4), (1 << 13, 4), (1 << 15, 2)]
        jobs = [([FE(rng.randrange(PF)) for _ in range(n)], b) for n, b in sizes]
        res = nat.run([("p_lde", list(j)) for j in jobs])
        for (v, b), r in zip(jobs, res):
            N = len(v) * b
            w = SP.root(N)
            for i in [0, 1, len(v) - 1, len(v), N - 1] + [rng.randrange(N) for _ in range(60)]:
                bad.n += 1
                x = 3 * pow(w, SP.rev(N, i), PF) % PF
                if not isinstance(r, list) or int(r[i]) != SP.ev([int(y) for y in v], x):
                    bad.add("low-degree extension of %d coefficients by %d is wrong at position %d" % (len(v), b, i), "p_lde", [len(v), b], "")
                    break
        return bad.out()
    from checks import sproofs
    sproofs.s03(c)
    c.extra = extra
    return c

# ---------------------------------------------------------------- S04
def gexpr(r, depth, w, offs, claims=0, inner=False):
    """random expression; Polynomial nodes only over arguments without trace"""
    v = CL.val
    if depth == 0 or r.randrange(8) == 0:
        q = r.randrange(4)
        if q == 0: return XX
        if q == 1 or inner: return K(v(r))
        return TR(r.randrange(w), r.choice(offs))
    q = r.randrange(9)
    sub_ = lambda: gexpr(r, depth - 1, w, offs, claims, inner)
    if q in (0, 1): return ("+", sub_(), sub_())
    if q in (2, 3): return ("*", sub_(), sub_())
    if q == 4: return ("~", sub_())
    if q == 5: return ("i", sub_())
    if q == 6: return ("e", sub_(), r.choice([0, 1, 2, 3, 5, 8]))
    if q == 7: return ("p", [v(r) for _ in range(r.choice([1, 2, 4]))], gexpr(r, depth - 1, w, offs, claims, True))
    if claims: return ("q", r.randrange(claims), 3, sub_())
    return ("*", sub_(), sub_())
def s04():
    c = Check("S04", "crypto")
    g = gfe("f")
    def gev(r):
        w, lo = r.choice([1, 2, 3]), -r.choice([0, 1, 2])
        return [Raw(SP.text(gexpr(r, r.randrange(1, 6), w, [lo, 0, 1]))), g(r), w, lo, [g(r) for _ in range(w * (2 - lo))]]
    def oev(e, x, w, lo, t):
        try: return FE(SP.value(SP.untext(e), int(x), lambda i, j: int(t[(j - lo) * w + i])))
        except SP.DivZero: return PANIC
    c.search("e_eval", gev, oev, n=1500)
    def odeg(e, d):
        e = SP.untext(e)
        return (SP.degree(e, 1, d), SP.degree(e, 0, 1))
    c.search("e_degree", lambda r: [Raw(SP.text(gexpr(r, r.randrange(0, 5), 2, [-1, 0, 1], claims=2))), r.choice([0, 1, 3, 7, 255, r.randrange(1, 1 << 12)])], odeg, n=800)
    c.search("e_args", lambda r: [Raw(SP.text(gexpr(r, r.randrange(0, 6), 3, [-5, -1, 0, 1, 2, 7])))], lambda e: sorted(SP.targs(SP.untext(e))), n=400)
    def polys(r): return [[CL.val(r) for _ in range(r.choice([1, 2, 4]))] for _ in range(2)]
    # substitution and mapping, judged by value
    def num(e, claims, x, seed):
        f = lambda i, j: pow(seed + i * 7 + j * 131, 5, PF)
        try: return SP.value(e, x, f, claims)
        except SP.DivZero: return "div"
    def osub(a, r):
        if not isinstance(r, bytes): return "no expression"
        claims = [[int(t, 16) * SP.RI % PF for t in p.split("/")] for p in a[1]]
        e, f = SP.untext(a[0]), SP.untext(r.decode())
        for k in range(3):
            if num(e, claims, 12345 + k, 99 + k) != num(f, (), 12345 + k, 99 + k): return "another value at X=%d" % (12345 + k)
    c.search("e_subst", lambda r: [Raw(SP.text(gexpr(r, r.randrange(1, 5), 2, [0, 1], claims=2))), [polyarg(p) for p in polys(r)]], judge=osub, n=300)
    def omap(a, r):
        if not isinstance(r, bytes): return "no expression"
        e, f, k = SP.untext(a[0]), SP.untext(r.decode()), a[1]
        for q in range(3):
            x, s = 4321 + q, 55 + q
            h = lambda i, j: pow(s + i * 7 + j * 131, 5, PF)
            def v(e, x, h):
                try: return SP.value(e, x, h)
                except SP.DivZero: return "div"
            if v(e, x * x % PF, lambda i, j: h(i + k, j)) != v(f, x, h): return "another value"
    c.search("e_map", lambda r: [Raw(SP.text(gexpr(r, r.randrange(1, 5), 2, [0, 1]))), r.randrange(3)], judge=omap, n=200)
    def extra(nat, rng, tier):
        """evaluation graph: the committed constraint polynomials and the out-of-domain values
        of real proofs equal those computed from the expression trees"""
        bad = Bad()
        L = corpus(rng.randrange(1 << 30), 96 if tier == "quick" else 1200, queries=1, pow=0)
        L += corpus(rng.randrange(1 << 30), 16 if tier == "quick" else 100, n=64, queries=1, pow=0)
        L += corpus(rng.randrange(1 << 30), 4 if tier == "quick" else 20, n=256, w=1, queries=1, pow=0, blowup=8)
        L += corpus(rng.randrange(1 << 30), 160 if tier == "quick" else 1200, cosets=True, queries=1, pow=0)
        compare(nat, L, bad, want=("constraint", "oods"))
        # a domain larger than one chunk of the prover's evaluation: wrong constraint polynomials are not accepted
        for a in large(rng):
            r, = nat.run([("s_traits", a)], timeout=600)
            bad.n += 1
            if not isinstance(r, Ok_) or r.x[1] != 1: bad.add("the constraint polynomials of a large domain are wrong: the proof is not accepted", "s_traits", a[:3], str(r)[:100])
        bad.samples = [{"claim": str(cl.head()), "constraint": SP.text(cl.exprs[0])[:300]} for cl, *_ in L[:5]]
        return bad.out()
    from checks import sproofs
    sproofs.s04(c)
    c.extra = extra
    return c

# ---------------------------------------------------------------- S05
def lays(k):
    """all layouts with reductions 1..4 that fold at most 2^k coefficients"""
    out = []
    def rec(p, left):
        if p: out.append(p)
        for q in range(1, min(4, left) + 1): rec(p + [q], left - q)
    rec([], k)
    return out
def s05():
    c = Check("S05", "crypto")
    def extra(nat, rng, tier):
        bad = Bad()
        jobs = []
        for lay in lays(5):
            n = 1 << rng.randrange(sum(lay), 6)
            jobs.append((rng.randrange(1 << 30), dict(n=n, w=1, lay=lay, rich=False, queries=rng.choice([3, 6, 12]), pow=0)))
        six = lays(7)
        for _ in range(24 if tier == "quick" else 400):
            lay = rng.choice(six)
            n = 1 << max(2, sum(lay))
            jobs.append((rng.randrange(1 << 30), dict(n=n, w=1, lay=lay, rich=False, queries=rng.choice([1, 9, 30]), pow=0, blowup=rng.choice([4, 4, 8]))))
        L = pool(job, jobs)
        # layer commitments, last layer and openings of the prover
        compare(nat, L, bad, want=("fri", "last", "rest"))
        # the verifier's folding at every queried position
        verifies(nat, [(cargs(cl), ref, True, "layout %s" % cl.layout) for cl, _, _, ref in L], bad, "FRI folding")
        # larger domains: honest proofs are accepted under every size of the first fold
        for n, lay, b in ((1 << 11, [4, 3], 8), (1 << 12, [3, 4, 1], 4), (1 << 12, [2, 2, 3, 4], 8), (1 << 11, [1, 4, 2, 3], 16)):
            for a in large(rng, n, lay, b, 40):
                r, = nat.run([("s_traits", a)], timeout=600)
                bad.n += 1
                if not isinstance(r, Ok_) or r.x[1] != 1: bad.add("a large honest proof with layout %s is not accepted" % lay, "s_traits", a[:3], str(r)[:100])
        bad.samples = [{"layout": cl.layout, "n": cl.n, "blowup": cl.blowup} for cl, *_ in L[:5]]
        return bad.out(layouts=len({tuple(cl.layout) for cl, *_ in L}))
    from checks import sproofs
    sproofs.s05(c)
    c.extra = extra
    return c

# ---------------------------------------------------------------- S06
def falsify(r, rows, cons, cl):
    """a trace that violates a constraint"""
    g = SP.root(cl.n)
    for _ in range(50):
        t = [list(x) for x in rows]
        i, j = r.randrange(len(t)), r.randrange(cl.w)
        t[i][j] = (t[i][j] + r.choice([1, PF - 1, r.randrange(1, PF)])) % PF
        if any(not k.holds(t, row, g, cl.claims) for k in cons for row in k.rows): return t
    return None
def nonconst(rows): return all(len({x[j] for x in rows}) > 1 for j in range(len(rows[0])))
# shapes beyond the common ones: many layers, columns, queries, blowups, high difficulty
WIDE = [dict(n=64, w=1, lay=[1] * 6, queries=16), dict(n=64, w=2, lay=[1, 1, 2, 1, 1], queries=20), dict(n=16, w=12, lay=[2, 1], queries=14), dict(n=32, w=2, lay=[2, 2], queries=70), dict(n=16, w=1, lay=[3], pow=12, queries=11),
        dict(n=8, w=3, lay=[1, 1], blowup=32, queries=9), dict(n=64, w=4, lay=[4, 2], queries=33), dict(n=16, w=2, lay=[1, 1, 1, 1], queries=12), dict(n=32, w=5, lay=[4], queries=40, blowup=16)]
def advjob(a):
    seed, spec = a if isinstance(a, tuple) else (a, None)
    r = _random.Random(seed)
    while True:
        if spec: kw = dict(dict(pow=0, blowup=8, rich=False), **spec)
        else: kw = dict(pow=r.choice([0, 0, 3, 6]), queries=r.randrange(10, 16), blowup=r.choice([8, 8, 16]), n=r.choice([8, 16]), w=r.choice([1, 2, 3]))
        cl, rows, cons = CL.claim(r, **kw)
        if nonconst(rows): break
    ref = SP.prove(cl, rows)
    out = [(cargs(cl), ref, True, "honest proof")]
    def put(adv, d, t=rows, c=cl):
        p = SP.prove(c, t, adv)
        if p is not None and p != ref: out.append((cargs(c), p, False, d))
    f = falsify(r, rows, cons, cl)
    if f:
        put({}, "trace violating a constraint", f)
        put({"fit_oods": 1 + r.randrange(4)}, "violating trace, out-of-domain values made to fit", f)
    for k in range(1, len(cl.layout) + 1):
        put({"layer_poly": k}, "FRI layer %d replaced by an unrelated polynomial" % k)
        put({"fri_root": k}, "commitment of FRI layer %d altered" % k)
        put({"fold": k}, "FRI layer %d folded with another challenge" % k)
    put({"trace_root": 1}, "trace commitment altered")
    put({"constraint_root": 1}, "constraint commitment altered")
    put({"oods_point": 1}, "another out-of-domain point")
    for k in {1, 2 * len(cl.exprs), 1 + r.randrange(2 * len(cl.exprs))}: put({"coeff": k}, "another constraint coefficient %d" % k)
    m = cl.n >> sum(cl.layout)
    for k in {0, m - 1}: put({"last": k}, "last layer coefficient %d altered" % k)
    for k in range(len(cl.targs())):
        put({"trace_value": k}, "out-of-domain trace value %d altered" % k)
        put({"trace_value": k, "fit_oods": 1}, "out-of-domain trace value %d altered, constraint value adapted" % k)
    for k in range(cl.epow()):
        put({"constraint_value": k}, "out-of-domain constraint value %d altered" % k)
        if cl.epow() > 1: put({"constraint_value": k, "fit_oods": 1 + (k + 1) % cl.epow()}, "two out-of-domain constraint values altered consistently")
    put({"query": 1}, "opened at other positions")
    put({"positions": lambda q, N: [(i + 1) % N for i in q]}, "opened one position further")
    if cl.pow: put({"pow": 1}, "nonce one bit short of the difficulty")
    if spec:
        # every word of the proof
        for i in range(0, len(ref), 32):
            j = min(len(ref) - 1, i + r.randrange(32))
            out.append((cargs(cl), ref[:j] + bytes([ref[j] ^ (1 << r.randrange(8))]) + ref[j + 1:], False, "bit flipped in byte %d of %d" % (j, len(ref))))
    # truncated and extended
    for cut in {1, 8, 32, len(ref) // 2, len(ref) - SP.nonce_offset(cl), len(ref)}:
        out.append((cargs(cl), ref[:len(ref) - cut], False, "last %d bytes missing" % cut))
    for e in (b"\0", b"\1", bytes(32), ref[-32:], ref): out.append((cargs(cl), ref + e, False, "%d bytes appended" % len(e)))
    # other claims
    def other(d, **k):
        a = dict(n=cl.n, w=cl.w, exprs=cl.exprs, seed=cl.seed, blowup=cl.blowup, pow=cl.pow, queries=cl.queries, layout=cl.layout, claims=cl.claims)
        a.update(k)
        c2 = SP.Claim(**a)
        out.append((cargs(c2), ref, False, d))
    other("seed extended", seed=cl.seed + b"\0")
    other("other seed", seed=bytes([cl.seed[0] ^ 1]) + cl.seed[1:] if cl.seed else b"x")
    if cl.seed: other("seed shortened", seed=cl.seed[:-1]); other("last seed byte", seed=cl.seed[:-1] + bytes([cl.seed[-1] ^ 128]))
    other("one query fewer", queries=cl.queries - 1)
    other("one query more", queries=cl.queries + 1)
    other("other blowup", blowup=cl.blowup * 2)
    if cl.blowup // 2 >= cl.epow(): other("other blowup", blowup=cl.blowup // 2)
    for lay in (cl.layout + [1], cl.layout[:-1], [x for x in reversed(cl.layout)], [sum(cl.layout)] if sum(cl.layout) < 5 else [1, sum(cl.layout) - 1]):
        if lay and lay != cl.layout and sum(lay) <= cl.n.bit_length() - 1: other("other FRI layout %s" % lay, layout=lay)
    other("a difficulty the nonce does not meet", pow=60)
    g = SP.root(cl.n)
    tp = [SP.interp([x[j] for x in rows]) for j in range(cl.w)]
    def differs(a, b, claims, claims2=None):
        try: return SP.value(a, 99, lambda c, j: SP.ev(tp[c], 99 * pow(g, j, PF) % PF), claims) != SP.value(b, 99, lambda c, j: SP.ev(tp[c], 99 * pow(g, j, PF) % PF), claims2 or claims)
        except SP.DivZero: return False
    def tweak(e, n):
        """change the n-th constant or cell of an expression"""
        c = [n]
        def rec(e):
            if e[0] == "c":
                c[0] -= 1
                if c[0] == -1: return ("c", (e[1] + 1) % PF)
            if e[0] == "t" and cl.w > 1:
                c[0] -= 1
                if c[0] == -1: return ("t", (e[1] + 1) % cl.w, e[2])
            return tuple(rec(x) if isinstance(x, tuple) else x for x in e)
        return rec(e)
    for _ in range(4):
        i = r.randrange(len(cl.exprs))
        e = tweak(cl.exprs[i], r.randrange(4))
        if e == cl.exprs[i]: continue
        # (a change after which the constraint takes the same values on this trace leaves the proof valid)
        if not differs(e, cl.exprs[i], cl.claims): continue
        c2 = SP.Claim(cl.n, cl.w, cl.exprs[:i] + [e] + cl.exprs[i + 1:], cl.seed, cl.blowup, cl.pow, cl.queries, cl.layout, cl.claims)
        try:
            if not c2.wellformed(): continue
        except ValueError: continue
        other("another constraint", exprs=c2.exprs)
    if len(cl.exprs) > 1: other("constraint missing", exprs=cl.exprs[:-1])
    if cl.claims:
        q = [[(cl.claims[0][0] + 1) % PF] + cl.claims[0][1:]]
        if any(differs(e, e, cl.claims, q) for e in cl.exprs): other("another claim polynomial", claims=q)
    return out
def agreejob(a):
    """few queries; all but one of them see nothing wrong"""
    seed, which = a
    r = _random.Random(seed)
    while True:
        cl, rows, cons = CL.claim(r, pow=0, queries=4, blowup=r.choice([2, 4]), n=16, lay=[1] if r.randrange(2) else [1, 1], w=r.choice([1, 2]))
        if nonconst(rows): break
    out = []
    N, sh = cl.n * cl.blowup, sum(cl.layout)
    m = cl.n >> sh
    good = r.sample(range(N >> sh), m - 1)
    def one(pos):
        b = [i for i in pos if i not in good]
        k = {"first": 0, "middle": len(pos) // 2, "last": -1}[which]
        return len(pos) > 2 and len(b) == 1 and pos[k] == b[0]
    p = SP.prove(cl, rows, {"last_agree": good, "grind": one})
    if p: out.append((cargs(cl), p, False, "the last layer is wrong at the %s opened position only" % which))
    for li in range(1, len(cl.layout) + 1):
        # one wrong value in one FRI layer, hit through one query
        before = sum(cl.layout[:li - 1])
        cell = r.randrange(N >> before)
        coset = cell >> cl.layout[li - 1]
        def hit(qs):
            u = sorted(set(qs))
            b = [i for i in u if i >> (before + cl.layout[li - 1]) == coset]
            k = {"first": 0, "middle": len(u) // 2, "last": -1}[which]
            return len(u) > 2 and len(b) == 1 and u[k] == b[0]
        p = SP.prove(cl, rows, {"layer_cell": (li, cell), "grind": hit, "raw": 1})
        if p: out.append((cargs(cl), p, False, "FRI layer %d has one wrong value, seen by the %s query only" % (li, which)))
    cell = r.randrange(N)
    def hit(qs):
        u = sorted(set(qs))
        k = {"first": 0, "middle": len(u) // 2, "last": -1}[which]
        return len(u) > 2 and u[k] == cell
    p = SP.prove(cl, rows, {"trace_cell": cell, "grind": hit, "raw": 1})
    if p: out.append((cargs(cl), p, False, "the committed trace is wrong at the %s queried position only" % which))
    return out
def s06():
    c = Check("S06", "crypto")
    def extra(nat, rng, tier):
        bad = Bad()
        L = corpus(rng.randrange(1 << 30), 64 if tier == "quick" else 800)
        res = nat.run([("s_traits", cargs(cl) + [tr(rows)]) for cl, rows, _, _ in L], timeout=300)
        bad.n += len(L)
        real = []
        for (cl, rows, _, _), r in zip(L, res):
            if not isinstance(r, Ok_) or r.x[1] != 1: bad.add("an honest proof is not accepted", "s_traits", cargs(cl) + [tr(rows)], r)
            else: real.append((cl, rows, r.x[0]))
        V = [x for o in pool(advjob, [rng.randrange(1 << 30) for _ in range(24 if tier == "quick" else 300)]) for x in o]
        V += [x for o in pool(advjob, [(rng.randrange(1 << 30), w) for w in WIDE] * (1 if tier == "quick" else 8)) for x in o]
        V += [x for o in pool(agreejob, [(rng.randrange(1 << 30), w) for w in ("first", "middle", "last")] * 1 * (4 if tier == "quick" else 40)) for x in o]
        verifies(nat, V, bad, "soundness")
        # every byte of some real proofs
        flips = []
        for _ in range(3 if tier == "quick" else 12):
            while True:
                cl, rows, cons = CL.claim(rng, n=8, pow=0, queries=8, blowup=8, w=rng.choice([1, 2]))
                if nonconst(rows): break
            p = SP.prove(cl, rows)
            flips.append((cargs(cl), p, True, "honest"))
            for i in range(len(p)):
                flips.append((cargs(cl), p[:i] + bytes([p[i] ^ (1 << rng.randrange(8))]) + p[i + 1:], False, "bit flipped in byte %d of %d" % (i, len(p))))
        verifies(nat, flips, bad, "altered proof")
        # whole words exchanged in real proofs
        sw = []
        for cl, rows, p in real[:40]:
            if cl.n * cl.blowup < 64 or cl.queries < 7: continue
            for _ in range(6):
                i, j = rng.randrange(len(p) // 32), rng.randrange(len(p) // 32)
                q = bytearray(p)
                q[32 * i:32 * i + 32], q[32 * j:32 * j + 32] = p[32 * j:32 * j + 32], p[32 * i:32 * i + 32]
                if bytes(q) != p: sw.append((cargs(cl), bytes(q), False, "words %d and %d exchanged" % (i, j)))
        verifies(nat, sw, bad, "altered proof")
        # end-to-end on the repository's own test component, with a wrong claim
        E = []
        for _ in range(6):
            E.append((1 << rng.randrange(3, 6), rng.choice([1, 2, 3]), FE(rng.randrange(PF)), FE(rng.randrange(PF)), FE(rng.randrange(PF))))
        for a, r in zip(E, nat.run([("k_test_e2e", list(a) + [FE((a[3] + 1) % PF)]) for a in E], timeout=300)):
            bad.n += 1
            if r != Ok_((1, 1, 0)): bad.add("test component: (check, verify, verify with a wrong claim) = %s" % (r,), "k_test_e2e", list(a), r)
        # a domain larger than one chunk of the prover's evaluation
        big = large(rng)
        for a in big:
            r, = nat.run([("s_traits", a)], timeout=600)
            bad.n += 1
            if not isinstance(r, Ok_) or r.x[1] != 1: bad.add("a large honest proof is not accepted", "s_traits", a[:3], str(r)[:100])
        bad.samples = [{"claim": str(V[i][0][0]), "what": V[i][3], "accept": V[i][2]} for i in range(0, len(V), max(1, len(V) // 5))]
        return bad.out(adversarial=len(V), byte_flips=len(flips))
    from checks import sproofs
    sproofs.s06(c)
    c.extra = extra
    return c
def large(rng, n=1 << 15, lay=(4, 3, 2, 1), blowup=4, queries=20):
    """x[i+1] = x[i]^3 + a + periodic: degree 3, so four times n evaluations"""
    a, x = rng.randrange(PF), rng.randrange(PF)
    per = [rng.randrange(PF) for _ in range(4)]
    rows, x0 = [], x
    for i in range(n):
        rows.append([x])
        x = (pow(x, 3, PF) + a + per[i % 4]) % PF
    g = SP.root(n)
    f = mul(sub(TR(0, 1), add(pw(TR(0, 0), 3), K(a), ("p", SP.interp(per), pw(XX, n // 4)))), sub(XX, K(pow(g, n - 1, PF))))
    cl = SP.Claim(n, 1, [div(f, sub(pw(XX, n), K(1))), div(sub(TR(0, 0), K(x0)), sub(XX, K(1)))], b"large", blowup, 0, queries, list(lay))
    return [cargs(cl) + [tr(rows)]]

# ---------------------------------------------------------------- S07
def first_violation(cl, trace, cons):
    g = SP.root(cl.n)
    for row in range(cl.n):
        for k, con in enumerate(cons):
            if row in con.rows and not con.holds(trace, row, g, cl.claims): return (row, k)
    return None
def subst(e, claims):
    if e[0] == "q": return ("p", claims[e[1]], subst(e[3], claims))
    return tuple(subst(x, claims) if isinstance(x, tuple) else x for x in e)
def s07():
    c = Check("S07", "crypto")
    def extra(nat, rng, tier):
        bad = Bad()
        N = 150 if tier == "quick" else 3000
        calls, want = [], []
        def put(op, args, w): calls.append((op, args)); want.append(w)
        for _ in range(N):
            cl, rows, cons = CL.claim(rng)
            e = [subst(x, cl.claims) for x in cl.exprs]
            head, ex = cl.head(), [Raw(SP.text(x)) for x in e]
            put("c_check", [head, ex, tr(rows)], None)
            put("c_info", [head, ex], ((cl.n, cl.w, len(e)), (cl.degree(), cl.seed), cl.targs()))
            for _ in range(4):
                t = falsify(rng, rows, cons, cl)
                if t is None: break
                v = first_violation(cl, t, cons)
                put("c_check", [head, ex, tr(t)], Some(v))
                g = SP.root(cl.n)
                for _ in range(3):
                    row, k = rng.randrange(cl.n), rng.randrange(len(cons))
                    if rng.randrange(2): row, k = v
                    ok = row not in cons[k].rows or cons[k].holds(t, row, g, cl.claims)
                    put("c_spec", [head, ex, tr(t), row, k], Ok_(()) if ok else ERR)
        # single cells at any offset from any row
        for _ in range(N):
            n, w = rng.choice([2, 4, 8, 16]), rng.choice([1, 2, 3])
            g = SP.root(n)
            t = [[rng.randrange(1, PF) for _ in range(w)] for _ in range(n)]
            cons = []
            for _ in range(rng.choice([1, 2, 3])):
                i, o, k = rng.randrange(w), rng.randrange(1 - n, n), rng.randrange(n)
                if rng.randrange(4): t[(k + o) % n][i] = 0
                if rng.randrange(4): num, rows_, ex_ = SP.T(i, o), [k], SP.div(SP.T(i, o), SP.sub(SP.X, SP.C(pow(g, k, PF))))
                else:
                    num = SP.mul(SP.T(i, o), SP.T(rng.randrange(w), rng.randrange(1 - n, n)))
                    rows_, ex_ = list(range(n)), SP.div(num, SP.sub(SP.pw(SP.X, n), SP.C(1)))
                cons.append(CL.Con(num, rows_, ex_))
            cl = SP.Claim(n, w, [x.expr for x in cons])
            bad_ = [(row, k) for row in range(n) for k, x in enumerate(cons) if row in x.rows and not x.holds(t, row, g)]
            head, ex = cl.head(), [Raw(SP.text(x.expr)) for x in cons]
            put("c_check", [head, ex, tr(t)], Some(bad_[0]) if bad_ else None)
            for _ in range(2):
                row, k = rng.randrange(n), rng.randrange(len(cons))
                put("c_spec", [head, ex, tr(t), row, k], ERR if (row, k) in bad_ else Ok_(()))
        res = nat.run(calls, timeout=300)
        bad.n += len(calls)
        for (op, a), r, w in zip(calls, res, want):
            if r != w: bad.add("%s returned %s, should be %s" % (op, r, w), op, a, r)
        # the combination: coefficient pairs and degree adjustment, by value
        cc = []
        for _ in range(N):
            cl, rows, cons = CL.claim(rng)
            cl.exprs = [subst(x, cl.claims) for x in cl.exprs]
            co = [rng.randrange(PF) for _ in range(2 * len(cl.exprs))]
            if rng.randrange(4) == 0: co = [rng.choice([0, 1]) for _ in co]
            cc.append((cl, co, ("c_combine", [cl.head(), [Raw(SP.text(x)) for x in cl.exprs], fes(co)])))
        for (cl, co, call), r in zip(cc, nat.run([x[2] for x in cc], timeout=300)):
            bad.n += 1
            if not isinstance(r, bytes):
                bad.add("combining gave %s" % (r,), call[0], call[1], r)
                continue
            e = SP.untext(r.decode())
            for q in range(2):
                x = rng.randrange(PF)
                f = lambda i, j: pow(x + i * 7 + j * 131 + 5, 5, PF)
                if SP.value(e, x, f) != cl.comb_value(co, x, f):
                    bad.add("the combined constraint has another value at X=%d" % x, call[0], call[1], r)
                    break
            t = cl.degree() * cl.n - 1
            nu, de = SP.degree(e, 1, cl.n - 1)
        # violating traces never lead to an accepted proof
        V = []
        while len(V) < (60 if tier == "quick" else 800):
            cl, rows, cons = CL.claim(rng, queries=12, n=rng.choice([4, 8, 16]), pow=0)
            t = falsify(rng, rows, cons, cl)
            if t is None: continue
            V.append((cl, t, first_violation(cl, t, cons)))
        for (cl, t, v), r in zip(V, nat.run([("s_traits", cargs(cl) + [tr(t)]) for cl, t, _ in V], timeout=300)):
            bad.n += 1
            if isinstance(r, Ok_) and r.x[1]: bad.add("a proof of a trace violating constraint %d at row %d is accepted" % (v[1], v[0]), "s_traits", cargs(cl) + [tr(t)], r)
        bad.samples = [{"claim": str(x[0].head()), "violated": x[2]} for x in V[:5]]
        return bad.out()
    from checks import sproofs
    sproofs.s07(c)
    c.extra = extra
    return c

# ---------------------------------------------------------------- S08
def s08():
    c = Check("S08", "crypto")
    def vals(exprs, pts): # multiset of value vectors
        out = []
        for e in exprs:
            v = []
            for x, f in pts:
                try: v.append(SP.value(e, x, f))
                except SP.DivZero: v.append(-1)
            out.append(tuple(v))
        return sorted(out)
    def points(k): return [(97 + 13 * i, (lambda s: lambda c, j: pow(s + 7 * c + 131 * j, 5, PF))(1000 + i)) for i in range(k)]
    def fold_pts(pts, red):
        return [(x, (lambda f: lambda c, j: f(c // red, red * j + SP.rev(red, c % red)))(f)) for x, f in pts]
    def ex(exprs): return [SP.untext(str(e)) for e in exprs]
    def judge(pred):
        def j(a, r):
            if not isinstance(r, tuple): return "no component: %s" % (r,)
            (np, sz), table, es = r
            es = [SP.untext(e.decode()) for e in es]
            w = pred(*a)
            if (np, sz) != w[0]: return "size %s, should be %s" % ((np, sz), w[0])
            if [int(x) for x in table] != [int(x) for x in w[1]]: return "another trace"
            pts = points(2)
            if sorted(x for q in w[2](pts) for x in [q]) != vals(es, pts): return "other constraints"
        return j
    def gw(r, rows, cols): return [gfe("f")(r) for _ in range(rows * cols)]
    def ges(r, cols, k=None):
        return [Raw(SP.text(gexpr(r, r.randrange(1, 4), cols, [-1, 0, 1, 2]))) for _ in range(r.choice([0, 1, 2, 3]) if k is None else k)] if cols else []
    def gsz(r): return 1 << r.randrange(5), r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9])
    def fold_table(rows, cols, w, red):
        W = -(-cols // red)
        t = [0] * (rows * red * W)
        for r in range(rows):
            for q in range(cols): t[(r * red + SP.rev(red, q % red)) * W + q // red] = int(w[r * cols + q])
        return (W, rows * red), t
    def gfold(r):
        rows, cols = gsz(r)
        return [rows, cols, ges(r, cols), gw(r, rows, cols), r.randrange(4)]
    def ofold(rows, cols, es, w, folds):
        red = 1 << folds
        sz, t = fold_table(rows, cols, w, red)
        return sz, t, lambda pts: vals(ex(es), fold_pts(pts, red))
    from checks import sproofs
    sproofs.s08(c)
    c.search("k_fold", gfold, judge=judge(ofold), n=300)
    c.search("k_foldup", lambda r: [8, 9, r.randrange(6), r.randrange(1 << 20), r.randrange(1 << 12)],
             lambda R, W, k, row, col: ((row << k) + SP.rev(1 << k, col % (1 << k)), col >> k), n=300)
    def ghor(r):
        rows, c1 = gsz(r)
        _, c2 = gsz(r)
        return [rows, c1, ges(r, c1), gw(r, rows, c1), c2, ges(r, c2), gw(r, rows, c2)]
    def ohor(rows, c1, e1, w1, c2, e2, w2):
        t = []
        for i in range(rows): t += list(w1[i * c1:(i + 1) * c1]) + list(w2[i * c2:(i + 1) * c2])
        def es(pts):
            sh = [(x, (lambda f: lambda q, j: f(q + c1, j))(f)) for x, f in pts]
            return sorted(vals(ex(e1), pts) + vals(ex(e2), sh))
        return (c1 + c2, rows), t, es
    c.search("k_horiz", ghor, judge=judge(ohor), n=250)
    def gver(r):
        rows, cols = gsz(r)
        n = 1 << r.randrange(4)
        return [rows, cols or 1, ges(r, cols or 1), n, gw(r, rows * n, cols or 1)]
    def over(rows, cols, es, n, w):
        return (cols, rows * n), list(w), lambda pts: vals(ex(es), [(pow(x, n, PF), f) for x, f in pts])
    c.search("k_vert", gver, judge=judge(over), n=250)
    def gnest(r):
        rows, cols = gsz(r)
        cols = cols or 1
        n, folds = 1 << r.randrange(3), r.randrange(3)
        return [rows, cols, ges(r, cols), n, folds, gw(r, rows * n, cols)]
    def onest(rows, cols, es, n, folds, w):
        red = 1 << folds
        parts = [fold_table(rows, cols, w[i * rows * cols:(i + 1) * rows * cols], red) for i in range(n)]
        W = parts[0][0][0]
        one = [x for p in parts for x in p[1]]
        t = []
        for i in range(rows * red * n): t += one[i * W:(i + 1) * W] + [0] + one[i * W:(i + 1) * W]
        def f(pts):
            a = vals(ex(es), fold_pts([(pow(x, n, PF), g) for x, g in pts], red))
            b = vals(ex(es), fold_pts([(pow(x, n, PF), (lambda g: lambda q, j: g(q + W + 1, j))(g)) for x, g in pts], red))
            return sorted(a + b)
        return (2 * W + 1, rows * red * n), t, f
    c.search("k_nest", gnest, judge=judge(onest), n=150)
    def oempty(rows, cols): return (cols, rows), [0] * (rows * cols), lambda pts: []
    c.search("k_empty", lambda r: list(gsz(r)), judge=judge(oempty), n=60)
    c.search("k_gen", lambda r: (lambda R, W: [R, W, ges(r, W), gw(r, R, W)])(*gsz(r)), judge=judge(lambda R, W, e, w: ((W, R), list(w), lambda pts: vals(ex(e), pts))), n=60)
    # the test component: sequence and constraints by their meaning
    def otest(rows, cols, seed, a, b):
        xs = [int(seed), int(b)]
        for i in range(rows * cols): xs.append((xs[-2] * xs[-1] + int(a)) % PF)
        t = xs[:rows * cols]
        om = SP.root(rows)
        def cell(f, i, d): # cell d positions before column i of the current row
            k = i - d
            return f(k % cols, k // cols)
        def es(pts):
            out = []
            if rows * cols >= 1: out.append(lambda x, f: (f(0, 0) - int(seed)) * SP.inv((x - 1) % PF) % PF)
            if rows * cols >= 3:
                for i in range(cols):
                    def q(x, f, i=i):
                        e = 1
                        if cols == 1: e = (x - 1) * (x - om)
                        elif i < 2: e = x - 1
                        return (f(i, 0) - cell(f, i, 2) * cell(f, i, 1) - int(a)) * e * SP.inv((pow(x, rows, PF) - 1) % PF) % PF
                    out.append(q)
            return sorted(tuple(q(x, f) for x, f in pts) for q in out)
        return (cols, rows), t, es
    c.search("k_test", lambda r: list(gsz(r)) + [gfe("f")(r) for _ in range(3)], judge=judge(otest), n=150)
    def extra(nat, rng, tier):
        """composed components on satisfied and violated parts: check accepts exactly the satisfied ones"""
        bad = Bad()
        calls, want = [], []
        for _ in range(80 if tier == "quick" else 1500):
            cl, rows, cons = CL.claim(rng, n=rng.choice([4, 8]), rich=False)
            if cl.claims: continue
            folds = rng.randrange(3)
            red = 1 << folds
            t = falsify(rng, rows, cons, cl) if rng.randrange(2) else rows
            if t is None: continue
            calls.append(("k_fold", [cl.n, cl.w, [Raw(SP.text(e)) for e in cl.exprs], tr(t), folds]))
            want.append((cl, t is rows))
        res = nat.run(calls)
        c2, w2 = [], []
        for (cl, ok), r, call in zip(want, res, calls):
            if not isinstance(r, tuple):
                bad.add("folding failed", call[0], call[1], r)
                continue
            (W, R), table, es = r
            h = SP.Claim(R, W, [], b"", 16, 0, 4, [1]).head()
            c2.append(("c_check", [h, [Raw(e.decode()) for e in es], list(table)]))
            w2.append((ok, call))
        for (ok, call), r, q in zip(w2, nat.run(c2), c2):
            bad.n += 1
            if (r is None) != ok: bad.add("the folded component's check gives %s for a trace that %s" % (r, "satisfies its part" if ok else "violates its part"), call[0], call[1], r)
        return bad.out()
    c.extra = extra
    return c
CHECKS = {"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S06": s06, "S07": s07, "S08": s08}
