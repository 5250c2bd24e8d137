"""A01 memory-mapped vectors, A02 literal macros."""
from mirv.core import *
from checks.field import gfe
MARK = 1 << 60
def script(r, cap, kind):
    """random script; values 13 / 17 (panicking drop / clone) only for the accounted type"""
    toks, cur = [], []
    special = r.choice([0, 0, 13, 17]) if kind == "drop" else 0
    def v(): 
        x = r.choice([0, 1, 2, 5, r.randrange(200), r.randrange(200)])
        return x if x not in (13, 17) else 0
    for _ in range(r.randrange(1, 25)):
        q = r.choice("pppptcrrexxyyklqqsswgggee")
        n = len(cur)
        room = cap - n
        if q == "p":
            x = v()
            if special and n < cap and r.randrange(3) == 0 and not (special == 13 and 13 in cur): x = special
            toks.append("p%d" % x)
            if n < cap: cur.append(x)
        elif q == "t":
            k = r.choice([0, n, n + 1, max(0, n - 1), r.randrange(n + 2), cap + 3])
            toks.append("t%d" % k); del cur[k:]
        elif q == "c": toks.append("c"); cur = []
        elif q == "r":
            k = r.choice([0, n, n + 1, max(0, n - 1), cap, cap + 1, r.randrange(cap + 2)])
            x = v()
            if special == 17 and r.randrange(4) == 0: x = 17
            toks.append("r%d_%d" % (k, x))
            if k <= cap:
                if k <= n: del cur[k:]
                elif x != 17: cur += [x] * (k - n)
        elif q in "exy":
            k = r.choice([0, 1, 2, room, room + 1, r.randrange(max(0, room) + 2)])
            xs = [v() for _ in range(k)]
            if special == 17 and q != "x" and xs and r.randrange(4) == 0: xs[r.randrange(len(xs))] = 17
            toks.append(q + "_".join(map(str, xs)))
            if n + k <= cap:
                cur += xs[:xs.index(17)] if 17 in xs and q != "x" else xs
            elif q != "e":
                xs = xs[:room]
                cur += xs[:xs.index(17)] if 17 in xs and q != "x" else xs
        elif q in "klq":
            if 13 in cur: continue
            if q == "q": toks.append("q" + "_".join(map(str, r.choice([[y for y in cur if y != 17], cur[:-1] if 17 not in cur else [], [v()] * len(cur)]))))
            else: toks.append(q)
        elif q in "sw":
            if not n: toks.append("s0_1"); continue
            i = r.choice([0, n - 1, n, r.randrange(n)])
            if i < n and cur[i] == 13: continue
            x = v()
            toks.append("%s%d_%d" % (q, i, x))
            if i < n: cur[i] = x
        else: toks.append("g%d" % r.choice([0, n, max(0, n - 1), r.randrange(n + 1)]))
    return ";".join(toks)
def model(cap, s, lines, mod=None):
    """None, or what is wrong; the model follows an ordinary list"""
    w = (lambda x: x % 256) if mod else (lambda x: x)
    cur = []
    toks = [t for t in s.split(";") if t]
    if len(lines) != len(toks): return "number of steps"
    for t, line in zip(toks, lines):
        k, ns = t[0], [int(x) for x in t[1:].split("_") if x]
        m = line.index(MARK)
        ok, res, n, empty, got = line[0], line[1:m], line[m + 1], line[m + 2], line[m + 3:]
        old = list(cur)
        exp, fail, prefix = [], False, None
        if k == "p":
            if len(cur) >= cap: fail = True
            else: cur.append(w(ns[0]))
        elif k == "t":
            fail = 13 in cur[ns[0]:]; del cur[ns[0]:]
        elif k == "c": fail = 13 in cur; cur = []
        elif k == "r":
            if ns[0] > cap: fail = True; prefix = [w(ns[1])] * (cap - len(cur))
            elif ns[0] <= len(cur): fail = 13 in cur[ns[0]:]; del cur[ns[0]:]
            elif ns[1] == 17 and not mod: fail = True
            else: cur += [w(ns[1])] * (ns[0] - len(cur))
        elif k in "exy":
            new = [w(x) for x in ns]
            cl = new.index(17) if k != "x" and 17 in new and not mod else None
            if len(cur) + len(new) > cap: fail, prefix = True, new[:cap - len(cur)]
            if cl is not None: fail, prefix = True, new[:cl] if prefix is None else prefix[:cl]
            if not fail: cur += new
        elif k in "kl":
            fail = 17 in cur and not mod
            if k == "l" and not fail: exp = list(cur)
        elif k == "q": exp = [int(cur == [w(x) for x in ns])]
        elif k in "sw":
            if ns[0] >= len(cur): fail = True
            else: cur[ns[0]] = w(ns[1])
        elif k == "g":
            if ns[0] >= len(cur): fail = True
            else: exp = [cur[ns[0]]]
        if (ok == 0) != fail: return "step %s on %s (capacity %d) %s" % (t, old, cap, "fails" if not ok else "does not fail")
        if fail and prefix is not None:
            # what an ordinary vector would have appended before the failure, or nothing
            if not (got[:len(old)] == old and got[len(old):] == prefix[:len(got) - len(old)]): return "after the failed %s on %s the vector holds %s" % (t, old, got)
            cur = got
        if not fail and res != exp: return "step %s on %s returned %s, should be %s" % (t, old, res, exp)
        if got != cur or n != len(cur) or empty != int(not cur): return "after %s on %s the vector holds %s (length %d), should be %s" % (t, old, got, n, cur)
    return None
def a01():
    c = Check("A01", "crypto")
    def gen(kind):
        def g(r):
            cap = r.choice([0, 1, 2, 3, 4, 7, 8, 16])
            return [cap, script(r, cap, kind)]
        return g
    def judge(mod=None):
        def j(a, r):
            if not isinstance(r, list): return "gave %s" % (r,)
            return model(a[0], a[1], r, mod)
        return j
    c.search("mm_u64", gen("u64"), judge=judge(), n=1500)
    c.search("mm_u8", gen("u8"), judge=judge(1), n=500)
    c.search("mm_string", gen("string"), judge=judge(), n=800)
    def jd(a, r):
        if not isinstance(r, tuple): return "gave %s" % (r,)
        x = model(a[0], a[1], r[0])
        if x: return x
        if r[1]: return "%d elements are never dropped" % r[1]
        if r[2]: return "%d drops of elements that are not live" % r[2]
    c.search("mm_drop", gen("drop"), judge=jd, n=3000)
    # (capacities of 2^40 elements and more are not requested: the request must fail, whatever the machine has)
    c.search("mm_big", lambda r: [(1 << 59) + r.choice([0, 1, 2, 1 << 58, r.randrange(1 << 59)])], lambda n: PANIC, n=40)
    c.search("mm_zero", lambda r: [r.choice([0, 1, 2, 511, 512, 513, r.randrange(3000)])], lambda n: [0] * n, n=30)
    def extra(nat, rng, tier):
        # all scripts of up to three steps from a small alphabet, every small capacity
        import itertools
        al = ["p1", "p2", "t0", "t1", "t2", "c", "r0_3", "r1_3", "r2_3", "r3_3", "e", "e4", "e4_5", "x4", "x4_5", "y4_5", "k", "q1", "q1_2", "s0_6", "s1_6", "w0_7", "g0", "g1"]
        cases = []
        for cap in range(0, 4):
            for L in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                for t in itertools.product(al, repeat=L):
                    if L >= 3 and rng.randrange(4 if L == 3 else 60): continue
                    cases.append([cap, ";".join(t)])
        res = nat.run([("mm_drop", a) for a in cases], timeout=300)
        bad = []
        for a, r in zip(cases, res):
            x = jd(a, r)
            if x: bad.append(("mm_drop capacity %d script %s: %s" % (a[0], a[1], x), {"op": "mm_drop", "args": [show(q) for q in a], "result": str(r)}))
        return bad, {"evaluations": len(cases), "distinct": len(cases), "samples": []}
    c.extra = extra
    from checks import uproofs
    uproofs.a01(c)
    return c

# ---------------------------------------------------------------- A02
def ghex(r):
    q = r.randrange(14)
    n = r.choice([0, 1, 2, 7, 8, 9, 16, 24, 31, 32, 32, 32, 33, 40])
    b = bytes(r.choice([0, 255, r.getrandbits(8), r.getrandbits(8)]) for _ in range(n))
    if q == 0: b = (PF + r.choice([-2, -1, 0, 1, 2])).to_bytes(32, "big")
    if q == 1: b = (r.choice([2, 3, 7, 15, 30]) * PF + r.randrange(-2, 3)).to_bytes(32, "big")
    if q == 2: b = (R256 - 1 - r.randrange(3)).to_bytes(32, "big")
    if q == 3: b = int(gu256(r)).to_bytes(32, "big")
    s = b.hex()
    if r.randrange(3) == 0: s = s.upper()
    if r.randrange(5) == 0: s = "".join(x.upper() if r.randrange(2) else x for x in s)
    m = r.randrange(16)
    if m == 0: s = s[:-1]
    if m == 1: s = "0x" + s
    if m == 2 and s: i = r.randrange(len(s)); s = s[:i] + r.choice("gGzZ /:@`-_+.\n\0é") + s[i + 1:]
    if m == 3: s = s + " "
    return s
def dec(s):
    import re as _re
    if len(s) % 2 or _re.fullmatch("[0-9a-fA-F]*", s) is None: return None
    return bytes.fromhex(s)
def limbs(t):
    return sum(int(x) << (64 * i) for i, x in enumerate(re.findall(r"(\d+)u64", t)))
def unbyte(t):
    i, j = t.index('"') + 1, t.rindex('"')
    out, E_ = [], {"0": 0, "n": 10, "r": 13, "t": 9, "\\": 92, '"': 34, "'": 39}
    while i < j:
        if t[i] == "\\":
            if t[i + 1] == "x": out.append(int(t[i + 2:i + 4], 16)); i += 4
            else: out.append(E_[t[i + 1]]); i += 2
        else: out.append(ord(t[i])); i += 1
    return bytes(out)
def a02():
    c = Check("A02", "crypto")
    def wrap(f, limit):
        def j(a, r):
            if not isinstance(r, bytes): return "gave %s" % (r,)
            t, b = r.decode(), dec(a[0])
            bad = "compile_error" in t
            if b is None or (limit and len(b) > 32): return None if bad else "malformed text is accepted: " + t
            if bad: return "a valid literal is rejected: " + t
            return f(t, b)
        return j
    def jh(t, b): return None if unbyte(t) == b else "denotes " + t
    def ju(t, b): return None if limbs(t) == int.from_bytes(b, "big") and len(re.findall(r"\d+u64", t)) == 4 else "denotes " + t
    def jf(t, b): return None if limbs(t) == int.from_bytes(b, "big") * R256 % PF else "denotes the stored word %x" % limbs(t)
    g = lambda r: [ghex(r)]
    c.search("lm_hex", g, judge=wrap(jh, False), n=800)
    c.search("lm_u256h", g, judge=wrap(ju, True), n=1500)
    c.search("lm_fe", g, judge=wrap(jf, True), n=3000)
    U_ = [0, 0x0123456789abcdef, 0xf123456789abcdef0fedcba9876543210011223344556677ffeeddccbbaa9988]
    F_ = [0, 1, 0x0400000000000008800000000000000000000000000000000000000000000001, 0x03dbc3ea1d1cd1d3e3a1d1e9f1b1a1c1d1e1f101112131415161718191a1b1c1]
    c.search("lm_decl", gens(), lambda: (U_, [FE(x) for x in F_], [b"\0\xff\x10", b""]), n=1)
    from checks import uproofs
    uproofs.a02(c)
    return c
CHECKS = {"A01": a01, "A02": a02}
