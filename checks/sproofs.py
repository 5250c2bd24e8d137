"""Proof obligations for the S properties: the real functions of crypto/stark, reached from prove and verify."""
import re
from mirv.core import *
from mirv import expr as X, hashes as HS
from mirv.exe import deref, Seq
from checks.cproofs import u, hbytes, same_bytes, PRIME
B = lambda nm, n: [X.var("%s_%d" % (nm, i), 8) for i in range(n)]
CH = r"zkp_stark::channel::"
FET = r"zkp_primefield::PrimeField<zkp_primefield::(proth_field::)?Proth>"
L4 = lambda nm: (tuple(X.var("%s_%d" % (nm, i), 64) for i in range(4)),)
F4 = lambda nm: (L4(nm), ())
ube = lambda v: HS.be(HS.limbs(v))
def beint(bs): return X.concat(list(reversed(bs)))
def keq(got, parts, inner=()):
    """these bytes are the Keccak-256 digest of those (inner: digests that occur in them)"""
    g = same_bytes(list(got), HS.digest("keccak256", parts))
    for q in list(inner) + [parts]:
        for k in HS.congruence("keccak256", q): g = X.bor(X.bnot(k), g)
    return g
D0, N0 = B("digest", 32), X.var("counter", 64)
COIN = (tuple(D0), N0)
def bebytes(e): return [X.extract(e, 8 * (7 - i), 8) for i in range(8)]
def W4(e): return (tuple(X.extract(e, 64 * j, 64) for j in range(4)),)
NOWRAP = X.ult(N0, u((1 << 64) - 2))
def canonical(*names): return [X.ult(HS.limbs(L4(n)), X.c(PRIME, 256)) for n in names]
ASM = (r"PrimeField::<zkp_primefield::(proth_field::)?Proth>::as_montgomery$", lambda ex, st, i, a: Ptr(a[0].cell, a[0].path + (0,), None))
def fmont(ex, st, i, a): return (a[0], ())
FRM = (r"PrimeField::<zkp_primefield::(proth_field::)?Proth>::from_montgomery(_const)?$", fmont)
def coin(v): return list(v[0]), v[1]
def s01(c):
    K = HS.keccak_contracts()
    anyslice = lambda nm: Ptr(nm, (0,), X.var(nm + "_len", 64))
    token = lambda nm: ("bytes", nm, (0,), X.var(nm + "_len", 64))
    def one(name, inst, argf, post, contracts=K, **kw):
        c.prove("s_verify" if "Verifier" in inst or "verifier" in inst else "s_prove", post, inst=inst, argf=argf, contracts=contracts, name=name, cex=False, **kw)
    self_ = lambda s, a: s.cells[a[0].cell]
    # ---- the public coin: every state, every input of every length
    def seed(s, a, r):
        d, n = coin(self_(s, a))
        return [("digest of the seed", keq(d, [token("input")])), ("counter", X.eq(n, u(0)))]
    one("the coin after seeding, any seed", CH + r"PublicCoin::seed$", lambda env, ats: [env.vals.ref(COIN), anyslice("input")], seed)
    def wr(s, a, r):
        d, n = coin(self_(s, a))
        return [("digest of the digest and the message", keq(d, D0 + [token("input")])), ("counter", X.eq(n, u(0)))]
    one("the coin after any message", r"^<%sPublicCoin as %sWritable<&\[u8\]>>::write$" % (CH, CH), lambda env, ats: [env.vals.ref(COIN), anyslice("input")], wr)
    DRAW = D0 + [X.c(0, 8)] * 24 + bebytes(N0)
    def rb(s, a, r):
        d, n = coin(self_(s, a))
        return [("digest of the digest and the counter", keq(r, DRAW)), ("digest kept", same_bytes(d, D0)), ("counter", X.eq(n, X.add(N0, u(1))))]
    one("draw of 32 bytes", r"^<%sPublicCoin as %sRandomGenerator<\[u8; 32\]>>::get_random$" % (CH, CH), lambda env, ats: [env.vals.ref(COIN)], rb, pre=lambda a: [NOWRAP])
    def ru(s, a, r):
        d, n = coin(self_(s, a))
        return [("the drawn bytes as a big-endian number", keq(ube(r), DRAW)), ("digest kept", same_bytes(d, D0)), ("counter", X.eq(n, X.add(N0, u(1))))]
    for who, st in (("PublicCoin", COIN),):
        one("draw of a number", r"^<%s%s as %sRandomGenerator<zkp_u256::U256>>::get_random$" % (CH, who, CH), lambda env, ats: [env.vals.ref(COIN)], ru, pre=lambda a: [NOWRAP])
    def rs(s, a, r):
        d, n = coin(self_(s, a))
        return [("the digest", same_bytes(hbytes(r), D0)), ("digest kept", same_bytes(d, D0)), ("counter", X.eq(n, X.add(N0, u(1))))]
    one("draw of a proof-of-work seed", r"^<%sPublicCoin as %sRandomGenerator<zkp_stark::proof_of_work::ChallengeSeed>>::get_random$" % (CH, CH), lambda env, ats: [env.vals.ref(COIN)], rs, pre=lambda a: [NOWRAP])
    # ---- a field element: the first draw below the prime in its low 252 bits; one arbitrary iteration of the loop
    from mirv import loops as Lp
    V = X.var("draw", 256)
    VM = X.band(V, X.c((1 << 252) - 1, 256))
    small = X.ult(VM, X.c(PRIME, 256))
    def draw(ex, st, i, a):
        st.ghost["draws"] = st.ghost.get("draws", 0) + 1
        return W4(V)
    DR = [(r"RandomGenerator<zkp_u256::U256>>::get_random$", draw), FRM]
    def setup(env, ex, args):
        ix, = [q for q, x in enumerate(env.prog.insts) if re.search(r"^<%sPublicCoin as %sRandomGenerator<%s>>::get_random$" % (CH, CH, FET), x["name"])]
        def begin(ex, st, vs): return [("no draw before the loop", X.boolc(st.ghost.get("draws", 0) == 0))], {i: v for i, (t, v) in vs.items()}, []
        def again(ex, st, vs): return [("one draw in an iteration", X.boolc(st.ghost.get("draws", 0) == 1)), ("another draw only if this one is not below the prime", X.bnot(small))]
        Lp.install(ex, ix, Lp.Cut(begin, again))
    def rf(s, a, r): return [("one draw", X.boolc(s.ghost.get("draws") == 1)), ("below the prime", small), ("its low 252 bits are the Montgomery form", X.eq(HS.limbs(r[0]), VM))]
    one("draw of a field element", r"^<%sPublicCoin as %sRandomGenerator<%s>>::get_random$" % (CH, CH, FET), lambda env, ats: [env.vals.ref(COIN)], rf, contracts=DR, setup=setup, feasible=True)
    # ---- channels draw from their coin
    def delegate(side, T, val):
        def post(s, a, r): return [("the coin's draw", X.boolc(r == ("the draw",) and s.ghost.get("coin") == (a[0].cell, a[0].path + (0,))))]
        def con(ex, st, i, a):
            st.ghost["coin"] = (a[0].cell, a[0].path)
            return ("the draw",)
        chan = (COIN, None, u(0)) if side == "Verifier" else (COIN, None)
        one("%sChannel draws from its coin: %s" % (side, val), r"^<%s%sChannel as %sRandomGenerator<%s>>::get_random$" % (CH, side, CH, T), lambda env, ats: [env.vals.ref(chan)], post,
            contracts=[(r"^<%sPublicCoin as %sRandomGenerator<%s>>::get_random$" % (CH, CH, T), con)])
    for side in ("Prover", "Verifier"):
        for T, v in (("zkp_u256::U256", "number"), (FET, "field element"), (r"zkp_stark::proof_of_work::ChallengeSeed", "proof-of-work seed")): delegate(side, T, v)
    # ---- prover messages: bytes appended to the proof, and one coin write per message part
    OLD = B("old", 3)
    def chain(parts):
        d, inner = D0, []
        for p in parts:
            inner.append(list(d) + list(p))
            d = HS.digest("keccak256", inner[-1])
        return inner
    def written(parts):
        def post(s, a, r):
            (d, n), proof = self_(s, a)[0], vecval(s, self_(s, a)[1])
            inner = chain(parts)
            out = [("bytes of the proof", same_bytes(list(proof), OLD + [b for p in parts for b in p]))]
            if inner: out += [("digest", keq(d, inner[-1], inner[:-1])), ("counter", X.eq(n, u(0)))]
            else: out += [("coin kept", X.band(same_bytes(list(d), D0), X.eq(n, N0)))]
            return out
        return post
    def prover(name, T, arg, parts, **kw):
        return Prove("s_prove", written(parts), inst=r"^<%sProverChannel as %sWritable<%s>>::write$" % (CH, CH, T), argf=lambda env, ats: [env.vals.ref((COIN, env.vals.vec(OLD)))] + [arg(env)],
                     contracts=K + [ASM], name=name, cex=False, **kw)
    S = []
    for k in (0, 1, 8, 32, 40): S.append(prover("%d bytes" % k, r"&\[u8\]", lambda env, k=k: env.vals.slice(B("m", k)), [B("m", k)]))
    S.append(prover("nonce", r"zkp_stark::proof_of_work::Response", lambda env: (X.var("nonce", 64),), [bebytes(X.var("nonce", 64))]))
    S.append(prover("hash", r"&zkp_hash::Hash", lambda env: env.vals.ref((tuple(B("h", 32)),)), [B("h", 32)]))
    S.append(prover("commitment", r"&zkp_merkle_tree::Commitment", lambda env: env.vals.ref((X.var("size", 64), (tuple(B("h", 32)),))), [B("h", 32)]))
    S.append(prover("element", r"&%s" % FET, lambda env: env.vals.ref(F4("f")), [ube(L4("f"))]))
    S.append(prover("number", r"zkp_u256::U256", lambda env: L4("x"), [ube(L4("x"))]))
    for k in (0, 1, 2, 3, 5): S.append(prover("%d numbers" % k, r"std::vec::Vec<zkp_u256::U256>", lambda env, k=k: env.vals.vec([L4("x%d" % i) for i in range(k)]), [ube(L4("x%d" % i)) for i in range(k)]))
    for k in (0, 1, 2, 3, 5): S.append(prover("%d elements" % k, r"&\[%s\]" % FET, lambda env, k=k: env.vals.slice([F4("f%d" % i) for i in range(k)]), [[b for i in range(k) for b in ube(L4("f%d" % i))]]))
    c.many("every prover message is appended and absorbed", S)
    # ---- verifier: any proof bytes; what is read, the new position and the coin
    def reader(name, inst, L, at, size, val, extra=(), parts=None, **kw):
        P = B("p", L)
        got = [P[i] if i < L else X.c(0, 8) for i in range(at, at + size)]
        ps = parts(got) if parts else [got]
        def post(s, a, r):
            (d, n), pr, ix = self_(s, a)
            if at + size > L: return [("never at the end again", X.ult(u(L), ix))]
            inner = chain(ps)
            out = [("position", X.eq(ix, u(at + size))), ("proof kept", same_bytes(list(vecval(s, pr)), P))] + val(s, r, got)
            if inner: out += [("digest", keq(d, inner[-1], inner[:-1])), ("counter", X.eq(n, u(0)))]
            else: out += [("coin kept", X.band(same_bytes(list(d), D0), X.eq(n, N0)))]
            return out
        return Prove("s_verify", post, inst=inst, argf=lambda env, ats: [env.vals.ref((COIN, env.vals.vec(P), u(at)))] + [u(x) for x in extra], contracts=K + [FRM], name=name, cex=False, **kw)
    VR = lambda T, f="replay": r"^<%sVerifierChannel as %sReplayable<%s>>::%s$" % (CH, CH, T, f)
    S = []
    for L, at in ((40, 0), (40, 8), (40, 5), (40, 9), (40, 30), (40, 40), (40, 45), (0, 0), (32, 0), (33, 1), (33, 2), (8, 0), (9, 1), (8, 4)):
        w = "%d bytes of proof, at %d" % (L, at)
        S.append(reader("hash; " + w, VR("zkp_hash::Hash"), L, at, 32, lambda s, r, g: [("bytes", same_bytes(hbytes(r), g))]))
        S.append(reader("element; " + w, VR(FET), L, at, 32, lambda s, r, g: [("Montgomery form", X.eq(HS.limbs(r[0]), beint(g)))]))
        S.append(reader("nonce; " + w, VR("zkp_stark::proof_of_work::Response"), L, at, 8, lambda s, r, g: [("nonce", X.eq(r[0], beint(g)))]))
    chunks = lambda g: [g[i:i + 32] for i in range(0, len(g), 32)]
    for k in (0, 1, 2, 3):
        for L, at in ((96, 0), (104, 8), (64, 1), (50, 0)):
            w = "%d; %d bytes of proof, at %d" % (k, L, at)
            S.append(reader("hashes " + w, VR("zkp_hash::Hash", "replay_many"), L, at, 32 * k, lambda s, r, g: [("hash %d" % i, same_bytes(hbytes(v), q)) for i, (v, q) in enumerate(zip(vecval(s, r), chunks(g)))] + [("count", X.boolc(len(vecval(s, r)) == len(chunks(g))))], (k,), chunks))
            S.append(reader("elements " + w, VR(FET, "replay_many"), L, at, 32 * k, lambda s, r, g: [("element %d" % i, X.eq(HS.limbs(v[0]), beint(q))) for i, (v, q) in enumerate(zip(vecval(s, r), chunks(g)))] + [("count", X.boolc(len(vecval(s, r)) == len(chunks(g))))], (k,), chunks))
            S.append(reader("layer " + w, CH + r"VerifierChannel::replay_fri_layer$", L, at, 32 * k, lambda s, r, g: [("element %d" % i, X.eq(HS.limbs(v[0]), beint(q))) for i, (v, q) in enumerate(zip(vecval(s, r), chunks(g)))] + [("count", X.boolc(len(vecval(s, r)) == len(chunks(g))))], (k,), lambda g: [g]))
    for i in range(0, len(S), 24): c.many("every verifier read (%d of %d)" % (i // 24 + 1, -(-len(S) // 24)), S[i:i + 24])
    def atend(L, at):
        return Prove("s_verify", lambda s, a, r: [("exactly at the end", X.eq(r, X.boolc(L == at)))], inst=CH + r"VerifierChannel::at_end$", argf=lambda env, ats: [(COIN, env.vals.vec(B("p", L)), u(at))], name="%d of %d" % (at, L), cex=False)
    c.many("the proof is consumed exactly", [atend(L, at) for L in (0, 1, 5) for at in (0, 1, 4, 5, 6)])
    def vnew(s, a, r): return [("nothing read", X.eq(r[2], u(0))), ("the proof", same_bytes(list(vecval(s, r[1])), B("p", 5))), ("coin", X.band(same_bytes(list(r[0][0]), [X.c(0, 8)] * 32), X.eq(r[0][1], u(0))))]
    one("a new verifier channel", CH + r"VerifierChannel::new$", lambda env, ats: [env.vals.vec(B("p", 5))], vnew)
    for side in ("Prover", "Verifier"):
        def ini(s, a, r):
            (d, n) = self_(s, a)[0]
            return [("digest of the seed", keq(d, [token("input")])), ("counter", X.eq(n, u(0)))]
        one("%sChannel::initialize" % side, CH + r"%sChannel::initialize$" % side, lambda env, ats, side=side: [env.vals.ref((COIN, env.vals.vec(OLD)) + ((u(0),) if side == "Verifier" else ())), anyslice("input")], ini)
    # ---- queries: both sides take the same indices from the same draws
    def nth(ex, st, i, a):
        k = st.ghost.get("draws", 0)
        st.ghost["draws"] = k + 1
        return W4(X.var("draw%d" % k, 256))
    def sort(ex, st, i, a):
        vs = sortnet(list(ex.load_slice(st, a[0])))
        for j, v in enumerate(vs): ex.store(st, ex.offset_ptr(a[0], j), v)
        return ()
    SORT = (r"^core::slice::<impl \[usize\]>::sort_unstable$", sort)
    def indices(side, num, bits):
        def post(s, a, r):
            q = []
            for k in range(-(-num // 4)):
                d = X.var("draw%d" % k, 256)
                q += [X.band(X.extract(d, o, 64), u((1 << bits) - 1)) for o in (192, 128, 64, 0)]
            want, got = sortnet(q[:num]), vecval(s, r)
            return [("count", X.boolc(len(got) == num)), ("draws", X.boolc(s.ghost.get("draws", 0) == -(-num // 4)))] + [("index %d" % i, X.eq(x, y)) for i, (x, y) in enumerate(zip(got, want))]
        return Prove("s_verify" if side == "verifier" else "s_prove", post, inst=r"^zkp_stark::%s::get_indices$" % side, argf=lambda env, ats: [u(num), X.c(bits, 32), env.vals.ref(())],
                     contracts=[(r"RandomGenerator<zkp_u256::U256>>::get_random$", nth), SORT], name="%s, %d queries of %d bits" % (side, num, bits), cex=False, feasible=True)
    c.many("query indices", [indices(sd, n, b) for sd in ("prover", "verifier") for n, b in [(0, 4), (1, 4), (2, 1), (3, 10), (4, 20), (5, 32), (7, 40), (8, 63), (9, 0)]])
    def coeffs(side, n):
        def post(s, a, r):
            got = vecval(s, r)
            return [("count", X.boolc(len(got) == n and s.ghost.get("draws", 0) == n))] + [("draw %d" % i, X.boolc(v == ("draw", i))) for i, v in enumerate(got)]
        def con(ex, st, i, a):
            k = st.ghost.get("draws", 0)
            st.ghost["draws"] = k + 1
            return ("draw", k)
        P, V = side == "prover", side == "verifier"
        return Prove("s_prove" if P else "s_verify", post, inst=r"^zkp_stark::prover::get_coefficients$" if P else CH + r"VerifierChannel::get_coefficients$", argf=lambda env, ats: [env.vals.ref(()), u(n)],
                     contracts=[(r"RandomGenerator<%s>>::get_random$" % FET, con)], name="%s, %d" % (side, n), cex=False)
    c.many("coefficients are the draws in order", [coeffs(s, n) for s in ("prover", "verifier") for n in (0, 1, 2, 5, 16)])
def sortnet(vs):
    """ascending, by exchanges"""
    vs = list(vs)
    for i in range(len(vs)):
        for j in range(len(vs) - 1 - i):
            a, b = vs[j], vs[j + 1]
            l = X.ult(b, a)
            vs[j], vs[j + 1] = X.ite(l, b, a), X.ite(l, a, b)
    return vs
POW = r"zkp_stark::proof_of_work::"
def s02(c):
    K = HS.keccak_contracts()
    SD, DF, NO = B("seed", 32), X.var("difficulty", 64), X.var("nonce", 64)
    PRE = [X.c(b, 8) for b in bytes.fromhex("0123456789abcded")]
    def wd(s, a, r):
        return [("difficulty", X.eq(r[1], DF)), ("seed", keq(r[0], PRE + SD + [X.extract(DF, 0, 8)]))]
    c.prove("s_verify", wd, inst=POW + r"ChallengeSeed::with_difficulty$", argf=lambda env, ats: [(tuple(SD),), DF], pre=lambda *a: [X.ult(DF, u(256))], contracts=K, name="the challenge of any seed and difficulty", cex=False)
    def vf(s, a, r):
        parts = SD + bebytes(NO)
        d = X.concat(list(reversed(HS.digest("keccak256", parts))))
        # at least DF leading zero bits
        g = X.eq(r, X.ule(DF, X.zext(X.ctlz(d), 64) if X.ctlz(d).w < 64 else X.trunc(X.ctlz(d), 64)))
        for k in HS.congruence("keccak256", parts): g = X.bor(X.bnot(k), g)
        return [("accepted exactly when there are enough leading zero bits", g)]
    c.prove("s_verify", vf, inst=POW + r"Challenge::verify$", argf=lambda env, ats: [env.vals.ref((tuple(SD), DF)), (NO,)], contracts=K, name="verify: any challenge and nonce", cex=False, timeout=90)
    c.prove("s_prove", lambda s, a, r: [("the nonce", X.eq(r, NO))], inst=POW + r"Response::nonce$", argf=lambda env, ats: [(NO,)], name="nonce", cex=False)
    c.prove("s_verify", lambda s, a, r: [("the nonce", X.eq(r[0], NO))], inst=POW + r"Response::from_nonce$", argf=lambda env, ats: [NO], name="from_nonce", cex=False)
    # ---- one worker of the solver, any number of threads, any interference: one arbitrary iteration
    from mirv import loops as Lp
    T, OFF, CUR, SEEN = X.var("threads", 64), X.var("offset", 64), X.var("position", 64), X.var("loaded", 64)
    ACC = X.var("accepted", 0)
    def worker(first):
        N = OFF if first else X.add(CUR, X.sub(T, u(1)))
        def ver(ex, st, i, a):
            st.ghost["tried"] = st.ghost.get("tried", ()) + ((a[0].cell, a[1][0]),)
            return ACC
        def rec(ex, st, i, a):
            st.ghost["stored"] = st.ghost.get("stored", ()) + ((a[0].cell, a[1]),)
            return X.var("previous", 64)
        def load(ex, st, i, a):
            st.ghost["loads"] = st.ghost.get("loads", ()) + (a[0].cell,)
            return SEEN
        cells = {}
        def argf(env, ats):
            v = env.vals
            ch, n, at = v.ref(((tuple(SD)), DF)), v.ref(T), v.ref(("the minimum",))
            cells.update(ch=ch.cell, at=at.cell)
            return [v.ref((n, v.ref(ch), at)), (OFF,)]
        def common(st):
            tr, sd, ld = st.ghost.get("tried", ()), st.ghost.get("stored", ()), st.ghost.get("loads", ())
            g = [("one nonce tried against this challenge", X.boolc(len(tr) == 1 and tr[0][0] == cells["ch"])), ("the next nonce of this worker", X.eq(tr[0][1], N) if tr else X.FALSE),
                 ("recorded exactly when accepted", ACC if len(sd) == 1 else X.bnot(ACC) if not sd else X.FALSE), ("only the shared minimum is consulted", X.boolc(all(q == cells["at"] for q in ld)))]
            if sd: g += [("the accepted nonce is recorded", X.band(X.boolc(sd[0][0] == cells["at"]), X.eq(sd[0][1], N)))]
            return g
        def roles(vs):
            it = [i for i, (t, v) in vs.items() if t.startswith("std::iter::StepBy<")]
            if len(it) != 1: raise Unsupported("loop variables")
            return it[0]
        def begin(ex, st, vs):
            it = roles(vs)
            (st_, step, ft) = vs[it][1][0], vs[it][1][1], vs[it][1][2]
            goals = [("starts at the offset", X.eq(st_[0], OFF)), ("steps of the number of threads", X.eq(step, X.sub(T, u(1)))), ("from the first", ft)]
            new = {i: v for i, (t, v) in vs.items()}
            if not first: new[it] = ((CUR,), step, X.FALSE)
            return goals, new, []
        def again(ex, st, vs):
            it = roles(vs)
            (st_, step, ft) = vs[it][1][0], vs[it][1][1], vs[it][1][2]
            return common(st) + [("goes on only below the minimum", X.band(X.boolc(bool(st.ghost.get("loads"))), X.ult(N, SEEN))), ("position", X.band(X.eq(st_[0], X.add(N, u(1))), X.bnot(ft))), ("step kept", X.eq(step, X.sub(T, u(1))))]
        def post(s, a, r): return common(s) + [("stops only at or above a recorded nonce", X.bor(X.boolc(bool(s.ghost.get("stored"))), X.band(X.boolc(bool(s.ghost.get("loads"))), X.ule(SEEN, N))))]
        def setup(env, ex, args):
            ix, = [q for q, x in enumerate(env.prog.insts) if re.search(POW + r"Challenge::solve::\{closure#0\}$", x["name"])]
            Lp.install(ex, ix, Lp.Cut(begin, again))
        c.prove("s_prove", post, inst=POW + r"Challenge::solve::\{closure#0\}$", argf=argf, setup=setup, contracts=[(POW + r"Challenge::verify$", ver), (POW + r"fetch_min$", rec), (r"^std::sync::atomic::Atomic(U64|::<u64>)::load$", load)],
                pre=lambda *a: [X.ult(u(0), T), X.ult(T, u(1 << 32)), X.ult(OFF, T), X.ult(CUR, u(1 << 63))], name="solver: %s iteration of any worker" % ("the first" if first else "any later"), cex=False, feasible=True)
    worker(True); worker(False)
    # ---- recording a nonce, under any interference
    VAL = X.var("value", 64)
    def fm(which):
        """which: only the arrival at the loop, or one arbitrary iteration"""
        def load(ex, st, i, a): return X.var("loaded", 64)
        def cas(ex, st, i, a):
            st.ghost["cas"] = st.ghost.get("cas", ()) + ((a[1], a[2]),)
            def won(s2): s2.ghost["won"] = True; return En(0, (a[1],))
            return Fork([(X.var("cas", 0), lambda s2, *q: (s2.ghost.__setitem__("won", True), En(0, (a[1],)))[1]), (X.bnot(X.var("cas", 0)), En(1, (X.var("other", 64),)))])
        PREV = X.var("previous", 64)
        def begin(ex, st, vs):
            w = [i for i, (t, v) in vs.items() if t == "u64"]
            if len(w) != 1 or len(vs) != 1: raise Unsupported("loop variables")
            return [("starts from the current minimum", X.eq(vs[w[0]][1], X.var("loaded", 64)))], {w[0]: PREV}, []
        def again(ex, st, vs):
            (t, v), = vs.values()
            return [("another attempt only after a lost exchange", X.boolc(not st.ghost.get("won") and len(st.ghost.get("cas", ())) == 1)), ("from what was found", X.eq(v, X.var("other", 64))), tried(st)]
        def tried(st):
            q = st.ghost.get("cas", ())
            return ("exchanges a larger minimum for the value", X.TRUE if not q else X.band(X.band(X.eq(q[0][0], PREV), X.eq(q[0][1], VAL)), X.ult(VAL, PREV)))
        def post(s, a, r):
            q = s.ghost.get("cas", ())
            return [tried(s), ("done when the minimum is small enough or was exchanged", X.TRUE if s.ghost.get("won") else X.band(X.boolc(not q), X.ule(PREV, VAL)))]
        def setup(env, ex, args):
            ix, = [q for q, x in enumerate(env.prog.insts) if re.search(POW + r"fetch_min$", x["name"])]
            Lp.install(ex, ix, Lp.Cut(begin, again))
        c.prove("s_prove", post, inst=POW + r"fetch_min$", argf=lambda env, ats: [env.vals.ref(("the minimum",)), VAL], setup=setup,
                contracts=[(r"^std::sync::atomic::Atomic(U64|::<u64>)::load$", load), (r"^std::sync::atomic::Atomic(U64|::<u64>)::compare_exchange(_weak)?$", cas)], name="recording a nonce under interference", cex=False)
    fm(0)
    # ---- the solver: the workers of all offsets below the number of threads, all on one minimum that starts at the largest number
    def inner(v):
        while isinstance(v, tuple) and len(v) == 1: v = v[0]
        return v
    def wrap(v, new): return (wrap(v[0], new),) if isinstance(v, tuple) else new
    TH, FOUND = X.var("threads", 64), X.var("found", 64)
    def par(ex, st, i, a): return Opq("range", (a[0][0], a[0][1]))
    def each(ex, st, i, a):
        env = a[1]
        if not (isinstance(a[0], Opq) and a[0].kind == "range"): raise Unsupported("parallel iterator")
        vs = [ex.load(st, q) for q in env]
        at = [(q, v) for q, v in zip(env, vs) if isinstance(v, tuple)]
        n = [v for v in vs if isinstance(v, E)]
        me = [v for v in vs if isinstance(v, Ptr)]
        if len(at) != 1 or len(n) != 1 or len(me) != 1: raise Unsupported("captures of the worker")
        st.ghost["run"] = (a[0].x, n[0], me[0].cell, inner(at[0][1]))
        ex.store(st, at[0][0], wrap(at[0][1], FOUND))
        return ()
    def sol(s, a, r):
        q = s.ghost.get("run")
        if q is None: return [("the workers run", X.FALSE)]
        (lo, hi), n, me, start = q
        return [("every offset below the number of threads", X.band(X.eq(lo, u(0)), X.eq(hi, TH))), ("steps of the number of threads", X.eq(n, TH)), ("this challenge", X.boolc(me == a[0].cell)),
                ("the minimum starts at the largest number", X.eq(start, u((1 << 64) - 1))), ("the minimum is the answer", X.eq(r[0], FOUND))]
    c.prove("s_prove", sol, inst=POW + r"Challenge::solve$", argf=lambda env, ats: [env.vals.ref((tuple(SD), DF))], pre=lambda *a: [X.ult(u(0), TH)], name="solver: any number of workers", cex=False,
            contracts=[(r"^rayon_core::current_num_threads$", lambda ex, st, i, a: TH), (r"^rayon::range::<impl rayon::iter::IntoParallelIterator for std::ops::Range<u64>>::into_par_iter$", par), (r" as rayon::iter::ParallelIterator>::for_each::<", each)])

# ---------------------------------------------------------------- S03
from mirv.field import Ring, Layer, FV, fe
from mirv.exe import Opq, Unsupported, PanicNow
def alg(c, op, nm, mk, post=None, bits=10, **kw):
    """an identity of polynomials: mk(ring) -> (arguments, what is expected)"""
    ring = kw.pop("ring", Ring)(PRIME, bits=bits)
    L = Layer(ring, "Proth")
    cx = []
    def args(env, ats):
        if not cx: cx.append(mk(ring))
        return cx[0][0](env, ats)
    def same(s, r, want, at=""):
        if isinstance(want, list):
            out = vecval(s, r)
            return [("length" + at, X.boolc(len(out) == len(want)))] + [g for i, (e, x) in enumerate(zip(out, want)) for g in same(s, e, x, at + "[%d]" % i)]
        if isinstance(want, tuple): return [g for i, (e, x) in enumerate(zip(r, want)) for g in same(s, e, x, at + ".%d" % i)]
        if isinstance(want, int): return [("value" + at, X.eq(r, X.c(want, r.w)))]
        return [("value" + at, L.eq(s, r, want))]
    def p(s, a, r):
        if post: return post(s, a, r, L, cx[0][1])
        return same(s, r, cx[0][1])
    kw.setdefault("feasible", True)
    c.prove(op, p, argf=args, contracts=L.contracts + list(kw.pop("more", [])), name="%s (%s)" % (op, nm), **kw)
def symvec(g, nm, n): return [g.sym("%s%d" % (nm, i)) for i in range(n)]
def VV(env, xs): return env.vals.vec([fe(x) for x in xs])
def horner(xs, x, g):
    r = g.const(0)
    for k in reversed(xs): r = r * x + k
    return r
def s03(c):
    SIZES = (1, 2, 4, 8, 16, 32)
    for n in SIZES:
        def new(g, n=n):
            x = symvec(g, "a", n)
            return (lambda env, ats: [VV(env, x)]), (n, x)
        for op in ("p_new", "p_mmap"): alg(c, op, "any %d coefficients" % n, new, bits=3)
        alg(c, "p_zeros", "%d" % n, lambda g, n=n: ((lambda env, ats: [u(n)]), [g.const(0)] * n), bits=3)
        def ev(g, n=n):
            x, z = symvec(g, "a", n), g.sym("z")
            w = g.const(0)
            for i in range(n): w = w + x[i] * z ** i
            return (lambda env, ats: [VV(env, x), fe(z)]), w
        alg(c, "p_eval", "any %d coefficients, any point" % n, ev)
        def dv(g, n=n):
            x, t, z, k = symvec(g, "a", n), symvec(g, "t", n), g.sym("z"), g.sym("c")
            # quotient of p(X) - p(z) by X - z: coefficient i is sum_{j>i} a_j z^(j-i-1)
            want = []
            for i in range(n):
                q = g.const(0)
                for j in range(i + 1, n): q = q + x[j] * z ** (j - i - 1)
                want.append(t[i] + k * q)
            return (lambda env, ats: [VV(env, x), fe(z), fe(k), VV(env, t)]), want
        alg(c, "p_div", "any %d coefficients, any point, weight and accumulator" % n, dv)
        if n <= 16:
            def dg(g, n=n):
                x = symvec(g, "a", n)
                return (lambda env, ats: [VV(env, x)]), x
            def dpost(s, a, r, L, x):
                nz = [X.bnot(L.ring.iszero(v)) for v in x]
                gs = [("in range", X.ult(r, u(len(x))))]
                for i in range(len(x)):
                    at = X.eq(r, u(i))
                    if i: gs.append(("coefficient %d is not zero if it is the degree" % i, X.bor(X.bnot(at), nz[i])))
                    gs.append(("no higher coefficient than %d" % i, X.bor(X.bnot(at), conj([X.bnot(q) for q in nz[i + 1:]]))))
                return gs
            alg(c, "p_degree", "any %d coefficients" % n, dg, post=dpost, bits=3)
    def conc_root(w): return w
    W_ = lambda n: pow(3, (PRIME - 1) // n, PRIME)
    rv = lambda n, i: int(bin(i)[2:].zfill(n.bit_length() - 1)[::-1], 2) if n > 1 else 0
    for n, b in ((1, 1), (1, 4), (2, 1), (2, 2), (2, 8), (4, 1), (4, 2), (4, 4), (8, 2), (8, 4), (16, 2), (16, 4), (32, 2), (64, 4)):
        def lde(g, n=n, b=b):
            N = n * b
            w = W_(N)
            x = symvec(g, "a", n)
            out = []
            for i in range(N):
                pt = 3 * pow(w, rv(N, i), PRIME) % PRIME
                r, q = {}, 1
                v = FV(g, {}, None)
                for j in range(n):
                    v = v + x[j] * g.const(q)
                    q = q * pt % PRIME
                out.append(v)
            return (lambda env, ats: [VV(env, x), u(b)]), out
        alg(c, "p_lde", "any %d coefficients, blowup %d" % (n, b), lde, bits=3)
    for R, C in ((1, 1), (2, 1), (2, 3), (4, 1), (4, 2), (8, 2), (16, 3)):
        def it(g, R=R, C=C):
            w = W_(R)
            x = symvec(g, "a", R * C)
            out, ni = [], pow(R, -1, PRIME)
            for j in range(C):
                col = []
                for k in range(R):
                    v = g.const(0)
                    for i in range(R): v = v + x[i * C + j] * g.const(pow(w, -i * k, PRIME) * ni)
                    col.append(v)
                out.append(col)
            return (lambda env, ats: [u(R), u(C), VV(env, x)]), out
        def ipost(s, a, r, L, want):
            out = vecval(s, r)
            gs = [("columns", X.boolc(len(out) == len(want)))]
            for j, (p, q) in enumerate(zip(out, want)):
                es = polyval(s, p)
                gs.append(("length %d" % j, X.boolc(len(es) == len(q))))
                gs += [("column %d coefficient %d" % (j, k), L.eq(s, e, x)) for k, (e, x) in enumerate(zip(es, q))]
            return gs
        alg(c, "t_interp", "any table of %d x %d" % (R, C), it, post=ipost, bits=3)
        for i, j in sorted({(0, 0), (R - 1, C - 1), (R // 2, C // 2)}):
            def acc(g, R=R, C=C, i=i, j=j):
                x = symvec(g, "a", R * C)
                col = [x[k * C + j] for k in range(R)]
                return (lambda env, ats: [u(R), u(C), VV(env, x), u(i), u(j)]), (x[i * C:(i + 1) * C], col, col, x[i * C + j] + 1)
            alg(c, "t_acc", "any table of %d x %d, cell %d, %d" % (R, C, i, j), acc, bits=3)
def conj(gs):
    r = X.TRUE
    for g in gs: r = X.band(r, g)
    return r
def mmapval(s, v):
    """the elements of an MmapVec {map, length, capacity}"""
    m, n = v[0], v[1]
    if not (isinstance(m, Opq) and m.kind == "mmap" and n.const): raise Unsupported("memory-mapped vector %r" % (v,))
    b = s.cells[m.x.cell]
    if len(b) < n.val: raise Unsupported("memory-mapped vector layout")
    return b[:n.val]
def polyval(s, p):
    """the coefficients of a DensePolynomial"""
    while len(p) == 1: p = p[0]
    return mmapval(s, p)

# ---------------------------------------------------------------- S05
def mm(env, xs):
    """an MmapVec with these elements"""
    env.vals.ncell -= 1
    env.vals.cells[env.vals.ncell] = tuple(xs)
    n = u(len(xs))
    return (Opq("mmap", Ptr(env.vals.ncell, (0,), None)), n, n, ())
def brv(n, i): return int(bin(i)[2:].zfill(n.bit_length() - 1)[::-1], 2) if n > 1 else 0
def rootof(n): return pow(3, (PRIME - 1) // n, PRIME)
def evc(co, pt, g):
    """polynomial with symbolic coefficients at a constant"""
    v, q = g.const(0), 1
    for a in co:
        v = v + a * g.const(q)
        q = q * pt % PRIME
    return v
def evals(co, N, g):
    w = rootof(N)
    return [evc(co, pow(w, brv(N, i), PRIME), g) for i in range(N)]
def foldp(co, k):
    """2 (f_even + k f_odd)"""
    co = co + [co[0] * 0] if len(co) % 2 else co
    return [(co[2 * i] + k * co[2 * i + 1]) * 2 for i in range(len(co) // 2)]
def foldn(co, k, n):
    for _ in range(n):
        co = foldp(co, k)
        k = k * k
    return co
def event(st, *e): st.ghost["ev"] = st.ghost.get("ev", ()) + (e,)
def elems(ex, st, p):
    n = p.meta
    if not n.const: raise Unsupported("slice of symbolic length")
    return tuple(ex.load(st, Ptr(p.cell, p.path[:-1] + (p.path[-1] + i,), None)) for i in range(n.val))
def falg(c, inst, nm, mk, post, more=(), bits=10, **kw):
    """an obligation on a private function over the field contracts"""
    ring = kw.pop("ring", Ring)(PRIME, bits=bits)
    L = Layer(ring, "Proth")
    cx = []
    def args(env, ats):
        if not cx: cx.append(mk(ring))
        return cx[0][0](env, ats)
    def con(f): return lambda ex, st, i, a: f(ex, st, i, a, ring, cx[0][1])
    kw.setdefault("feasible", True)
    c.prove(kw.pop("op", None) or ("s_verify" if "verif" in inst else "s_prove"), lambda s, a, r: post(s, a, r, L, cx[0][1]), inst=inst, argf=args,
            contracts=[(rx, con(f)) for rx, f in more] + L.contracts, name=nm, cex=False, **kw)
def s05(c):
    # the verifier's fold of one pair, any values, any point but zero
    def one(g):
        a, b, x, k = g.sym("a"), g.sym("b"), g.sym("x", nonzero=True), g.sym("c")
        return (lambda env, ats: [env.vals.ref(fe(q)) for q in (a, b, x, k)]), (a + b) + k / x * (a - b)
    falg(c, r"^zkp_stark::verifier::fri_single_fold$", "verifier: fold of a pair, any values", one, lambda s, a, r, L, w: [("value", L.eq(s, r, w))])
    # the verifier's fold of a coset of a polynomial with any coefficients: the value of the folded polynomial
    def cosets(N, k, n, depth):
        """domain N, 2^k values per coset, n coefficients, after depth foldings of a larger domain"""
        def case(i):
            def mk(g):
                co, ch = symvec(g, "a", n), g.sym("c")
                vals = evals(co, N, g)
                N0 = N << depth
                w0 = rootof(N0)
                ex_ = [g.const(pow(w0, j, PRIME)) for j in range(N0)]
                m = 1 << k
                want = evc(foldn(co, ch, k), pow(rootof(N >> k), brv(N >> k, i), PRIME), g)
                return (lambda env, ats: [env.vals.slice([fe(v) for v in vals[i * m:(i + 1) * m]]), env.vals.ref(fe(ch)), u(1 << depth), u((m // 2) * i), u(N),
                                          env.vals.slice([fe(v) for v in ex_])]), want
            falg(c, r"^zkp_stark::verifier::fri_fold$", "verifier: fold of coset %d of %d, domain %d (of %d), %d coefficients" % (i, N >> k, N, N << depth, n), mk,
                 lambda s, a, r, L, w: [("value of the folded polynomial", L.eq(s, r, w))])
        for i in range(N >> k): case(i)
    for N, k, n, d in ((4, 1, 4, 0), (4, 2, 4, 1), (8, 1, 4, 0), (8, 1, 4, 2), (8, 2, 8, 0), (8, 2, 4, 1), (8, 3, 8, 0), (16, 1, 8, 1), (16, 2, 16, 0), (16, 3, 16, 1), (16, 4, 16, 0), (32, 3, 8, 1)):
        cosets(N, k, n, d)
    # the prover's layers, any polynomial, any challenges
    def tree(ex, st, i, a, g, w): return En(0, ((Opq("commitment", a[0]), ("nodes",), a[0]),))
    def commit(ex, st, i, a, g, w):
        event(st, "commit", ex.load(st, a[1]))
        return ()
    def rand(ex, st, i, a, g, w):
        event(st, "draw")
        return fe(w["ch"][sum(e[0] == "draw" for e in st.ghost["ev"]) - 1])
    def last(ex, st, i, a, g, w):
        event(st, "last", elems(ex, st, a[1]))
        return ()
    CHN = r"^<zkp_stark::channel::ProverChannel as zkp_stark::channel::"
    more = [(r"^zkp_merkle_tree::Tree::<zkp_stark::prover::FriLeaves>::from_leaves$", tree), (CHN + r"Writable<&zkp_merkle_tree::Commitment>>::write$", commit),
            (CHN + r"RandomGenerator<%s>>::get_random$" % FET, rand), (CHN + r"Writable<&\[%s\]>>::write$" % FET, last)]
    def layers(n, blow, lay):
        def mk(g):
            co, ch = symvec(g, "a", n), symvec(g, "c", len(lay))
            ps = [co]
            for k, x in zip(lay, ch): ps.append(foldn(ps[-1], x, k))
            w = {"ch": ch, "ps": ps, "n": n * blow}
            return (lambda env, ats: [mm(env, [fe(v) for v in evals(co, n * blow, g)]), env.vals.ref((COIN, ())), env.vals.slice([u(x) for x in lay]), u(blow)]), w
        def post(s, a, r, L, w):
            gs = [("no error", X.boolc(r.v == 0))]
            ts = vecval(s, r.f[0])
            gs.append(("one tree per layer", X.boolc(len(ts) == len(lay))))
            N = w["n"]
            for q, (t, k) in enumerate(zip(ts, lay)):
                cs, layer = t[2]
                es = mmapval(s, layer)
                gs.append(("coset size %d" % q, X.eq(cs, u(1 << k))))
                gs.append(("size of layer %d" % q, X.boolc(len(es) == N)))
                gs += [("layer %d position %d" % (q, i), L.eq(s, e, v)) for i, (e, v) in enumerate(zip(es, evals(w["ps"][q], N, L.ring)))]
                N >>= k
            ev = s.ghost.get("ev", ())
            gs.append(("commitment and challenge alternate, the last layer ends", X.boolc([e[0] for e in ev] == ["commit", "draw"] * len(lay) + ["last"])))
            for q, e in enumerate([e for e in ev if e[0] == "commit"]):
                gs.append(("the commitment of layer %d" % q, X.boolc(isinstance(e[1], Opq) and q < len(ts) and e[1] == ts[q][0])))
            out = ev[-1][1] if ev and ev[-1][0] == "last" else ()
            want = w["ps"][-1]
            gs.append(("number of last coefficients", X.boolc(len(out) == len(want))))
            gs += [("last coefficient %d" % i, L.eq(s, e, v)) for i, (e, v) in enumerate(zip(out, want))]
            return gs
        falg(c, r"^zkp_stark::prover::perform_fri_layering$", "prover: layers of any polynomial of %d coefficients, blowup %d, layout %s" % (n, blow, lay), mk, post, more=more)
    for n, b, lay in ((2, 2, [1]), (4, 2, [1]), (4, 2, [2]), (4, 4, [1, 1]), (8, 2, [3]), (8, 2, [2, 1]), (8, 2, [1, 2]), (8, 2, [1, 1, 1]), (8, 4, [1]), (16, 2, [4]), (16, 2, [3, 1]), (16, 2, [2, 2]), (16, 4, [1, 3]), (16, 2, [3]), (16, 2, [1, 1, 1, 1]), (32, 2, [4, 1]), (32, 2, [1, 4]), (32, 2, [2, 1, 1, 1]), (32, 4, [2, 3]), (16, 8, [2, 1]), (64, 4, [4, 2]), (128, 2, [3, 3, 1]), (64, 2, [1] * 6)):
        layers(n, b, lay)

# ---------------------------------------------------------------- S04
VAR = ["X", "Constant", "Trace", "Polynomial", "ClaimPolynomial", "Add", "Neg", "Mul", "Inv", "Exp"]
RE = r"^zkp_stark::RationalExpression::"
def variants(prog):
    """names and field types of the expression variants, from the program"""
    for t in prog.types:
        k = prog.kind(t)
        if k[0] == "adt" and prog.tname(t) == "zkp_stark::RationalExpression": return [v["name"] for v in k[3]]
    raise Unsupported("no expression type")
class Tree:
    """expression values whose children are opaque: an arbitrary expression of each shape"""
    def __init__(self, env):
        self.env = env
        self.v = variants(env.prog)
    def box(self, v):
        self.env.vals.ncell -= 1
        self.env.vals.cells[self.env.vals.ncell] = v
        return (((Ptr(self.env.vals.ncell, ()),), ()), ())
    def child(self, n): return self.box(Opq("expr", n))
    def node(self, nm, *fs): return En(self.v.index(nm), tuple(fs))
def unbox(s, b):
    while isinstance(b, tuple): b = b[0]
    if not isinstance(b, Ptr): raise Unsupported("box %r" % (b,))
    v = s.cells.get(b.cell)
    for q in b.path: v = v[q]
    return v
I_, J_, D_, E_ = X.var("i", 64), X.var("j", 64), X.var("bound", 64), X.var("e", 64)
def shape(T, nm, poly=None):
    """an arbitrary node of this kind"""
    c = T.child
    return {"X": lambda: T.node("X"), "Constant": lambda: T.node("Constant", fe(poly)), "Trace": lambda: T.node("Trace", I_, J_),
            "Polynomial": lambda: T.node("Polynomial", Opq("poly", "p"), c("a")), "ClaimPolynomial": lambda: T.node("ClaimPolynomial", I_, D_, c("a"), En(0, ())),
            "Add": lambda: T.node("Add", c("a"), c("b")), "Neg": lambda: T.node("Neg", c("a")), "Mul": lambda: T.node("Mul", c("a"), c("b")),
            "Inv": lambda: T.node("Inv", c("a")), "Exp": lambda: T.node("Exp", c("a"), E_)}[nm]()
DYN = r"dyn .*Fn<?\(usize, isize\).* as .*Fn<\(usize, isize\)>>::call$|dyn for.*Fn.*\(usize, isize\).*::call$"
POWU = r"^(<&?%s as zkp_primefield::Pow<usize>>|zkp_primefield::\w+::<impl zkp_primefield::Pow<usize> for &?%s>)::pow$" % (FET, FET)
def s04(c):
    def prep(g):
        w = {"x": g.sym("x"), "c": g.sym("c"), "t": g.sym("trace value"), "pw": {}}
        for n in "ab": w[n] = g.sym("value of " + n)
        return w
    def power(w, g, base, e):
        """the power contract (F02): a function of base and exponent"""
        if e.const: return base ** e.val
        k = (repr(base), e)
        if k not in w["pw"]: w["pw"][k] = g.sym("power%d" % len(w["pw"]))
        return w["pw"][k]
    def c_pow(ex, st, i, a, g, w):
        b = a[0]
        while isinstance(b, Ptr): b = ex.load(st, b)
        return fe(power(w, g, b.x, a[1]))
    def c_eval(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "expr"): return NotImplemented
        ex.obligations.append((list(st.pc), X.boolc(ex.load(st, a[1]).x.same(w["x"]) and a[2] == w["dyn"]), "children are evaluated at the same point of the same trace"))
        return fe(w[v.x])
    def c_poly(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "poly"): return NotImplemented
        y = ex.load(st, a[1]).x
        k = ("poly", repr(y))
        if k not in w["pw"]: w["pw"][k] = g.sym("polynomial%d" % len(w["pw"]))
        return fe(w["pw"][k])
    def c_trace(ex, st, i, a, g, w):
        t = a[1] if len(a) == 2 else a[1:]
        ex.obligations.append((list(st.pc), X.band(X.eq(t[0], I_), X.eq(t[1], J_)), "the trace is read at the column and offset of the node"))
        return fe(w["t"])
    more = [(RE + "evaluate$", c_eval), (r"^zkp_stark::DensePolynomial::evaluate$", c_poly), (DYN, c_trace), (POWU, c_pow)]
    VAL = {"X": lambda w, g: w["x"], "Constant": lambda w, g: w["c"], "Trace": lambda w, g: w["t"], "Polynomial": lambda w, g: w["pw"].get(("poly", repr(w["a"]))),
           "Add": lambda w, g: w["a"] + w["b"], "Neg": lambda w, g: -w["a"], "Mul": lambda w, g: w["a"] * w["b"], "Inv": lambda w, g: w["a"].inv(), "Exp": lambda w, g: power(w, g, w["a"], E_)}
    def args(g, w, nm):
        def f(env, ats):
            T = Tree(env)
            w["dyn"] = env.vals.ref(Opq("trace", 0))
            return [env.vals.ref(shape(T, nm, w["c"])), env.vals.ref(fe(w["x"])), w["dyn"]]
        return f
    def ev(nm):
        def mk(g):
            w = prep(g)
            return args(g, w, nm), w
        def post(s, a, r, L, w):
            v = VAL[nm](w, L.ring)
            return [("value", X.FALSE if v is None else L.eq(s, r, v))]
        kw = {}
        if nm == "Inv": kw["panics"] = lambda *a: zero_a[0]()
        zero_a = [None]
        def mk2(g):
            x = mk(g)
            zero_a[0] = lambda: g.iszero(x[1]["a"])
            return x
        falg(c, RE + "evaluate$", "value of an expression: %s of arbitrary expressions" % nm, mk2, post, more=more, **kw)
    for nm in VAL: ev(nm)
    # ---- degrees: of an arbitrary node over arbitrary children
    xd, td = X.var("x degree", 64), X.var("trace degree", 64)
    na, da, nb, db, pd = (X.var(q, 64) for q in ("numerator a", "denominator a", "numerator b", "denominator b", "polynomial degree"))
    CHD = {"a": (na, da), "b": (nb, db)}
    def c_deg(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "expr"): return NotImplemented
        ex.obligations.append((list(st.pc), X.band(X.eq(a[1], xd), X.eq(a[2], td)), "children are measured with the same degrees"))
        return CHD[v.x]
    def c_pdeg(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        return pd if isinstance(v, Opq) and v.kind == "poly" else NotImplemented
    mx = lambda p, q: X.ite(X.ult(p, q), q, p)
    Z = X.c(0, 64)
    DEG = {"X": (xd, Z), "Constant": (Z, Z), "Trace": (td, Z), "Polynomial": (X.mul(pd, mx(na, da)), X.mul(pd, da)), "ClaimPolynomial": (X.mul(D_, mx(na, da)), X.mul(D_, da)),
           "Add": (mx(X.add(na, db), X.add(nb, da)), X.add(da, db)), "Neg": (na, da), "Mul": (X.add(na, nb), X.add(da, db)), "Inv": (da, na), "Exp": (X.mul(E_, na), X.mul(E_, da))}
    small = [X.ult(v, u(1 << 31)) for v in (xd, td, na, da, nb, db, pd, D_, E_)]
    for nm in VAR:
        falg(c, RE + "degree_impl$", "degree of an expression: %s of arbitrary expressions" % nm,
             lambda g, nm=nm: ((lambda env, ats: [env.vals.ref(shape(Tree(env), nm, g.sym("c"))), xd, td]), {}),
             lambda s, a, r, L, w, nm=nm: [("numerator", X.eq(r[0], DEG[nm][0])), ("denominator", X.eq(r[1], DEG[nm][1]))],
             more=[(RE + "degree_impl$", c_deg), (r"^zkp_stark::DensePolynomial::degree$", c_pdeg)], pre=lambda *a: small)
    # ---- substitution of claim polynomials: every node
    def c_map(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "expr"): return NotImplemented
        ex.obligations.append((list(st.pc), X.boolc(v.x in ("a", "b")), "children are mapped once"))
        return Opq("expr", "mapped " + v.x)
    def c_clone(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        return v if isinstance(v, Opq) and v.kind in ("expr", "poly") else NotImplemented
    def c_cdeg(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        return X.var("degree of " + v.x, 64) if isinstance(v, Opq) and v.kind == "poly" else NotImplemented
    def same(s, v, t):
        """value v is the tree t: (variant, fields...) | opaque | value"""
        if isinstance(t, tuple) and t and t[0] == "node":
            if not isinstance(v, En) or VN[0][v.v] != t[1] or len(v.f) != len(t) - 2: return X.FALSE
            r = X.TRUE
            for x, y in zip(v.f, t[2:]): r = X.band(r, same(s, x, y))
            return r
        if isinstance(t, tuple) and t and t[0] == "box": return same(s, unbox(s, v), t[1])
        if isinstance(t, E): return X.eq(v, t)
        if isinstance(t, FV): return X.boolc(isinstance(v, Opq) and v.kind == "fe" and v.x.same(t))
        if isinstance(t, Opq): return X.boolc(isinstance(v, Opq) and (v.kind, v.x) == (t.kind, t.x))
        return X.boolc(v == t)
    VN = [None]
    M = lambda q: ("box", Opq("expr", "mapped " + q))
    def sub(nm, ci=None):
        def mk(g):
            cc = g.sym("c")
            def f(env, ats):
                T = Tree(env)
                VN[0] = T.v
                v = shape(T, nm, cc)
                if ci is not None: v = En(v.v, (u(ci),) + tuple(v.f[1:]))
                return [env.vals.ref(v), env.vals.slice([Opq("poly", "q0"), Opq("poly", "q1")])]
            return f, cc
        def post(s, a, r, L, cc):
            want = {"X": ("node", "X"), "Constant": ("node", "Constant", cc), "Trace": ("node", "Trace", I_, J_), "Polynomial": ("node", "Polynomial", Opq("poly", "p"), M("a")),
                    "ClaimPolynomial": ("node", "Polynomial", Opq("poly", "q%s" % ci), M("a")), "Add": ("node", "Add", M("a"), M("b")), "Neg": ("node", "Neg", M("a")),
                    "Mul": ("node", "Mul", M("a"), M("b")), "Inv": ("node", "Inv", M("a")), "Exp": ("node", "Exp", M("a"), E_)}[nm]
            return [("the same expression with the claim polynomials put in", same(s, r, want))]
        kw = {}
        if ci is not None: kw["panics"] = lambda *a: X.TRUE if ci > 1 else X.ult(D_, X.var("degree of q%d" % ci, 64))
        falg(c, RE + "substitute_claim$", "substitution of claims: %s of arbitrary expressions" % nm + ("" if ci is None else ", claim %d of 2" % ci), mk, post,
             more=[(RE + r"map::<", c_map), (r"^<zkp_stark::RationalExpression as std::clone::Clone>::clone$|^<zkp_stark::DensePolynomial as std::clone::Clone>::clone$", c_clone),
                   (r"^zkp_stark::DensePolynomial::degree$", c_cdeg)], **kw)
    for nm in VAR:
        if nm == "ClaimPolynomial":
            for ci in (0, 1, 2): sub(nm, ci)
        else: sub(nm)
    graph(c)

# ---- the evaluation graph: the prover's constraint polynomials of whole expressions
class Generic(Ring):
    """values in general position: a test for zero holds only of what is zero identically"""
    def iszero(self, v): return X.boolc(not v.n)
def xsize(n, d): return n * d
def tbuild(T, t, w):
    b = lambda x: T.box(tbuild(T, x, w))
    if t == "x": return T.node("X")
    k = t[0]
    if k == "c": return T.node("Constant", fe(w["c"][t[1]]))
    if k == "k": return T.node("Constant", fe(w["g"].const(t[1])))
    if k == "t": return T.node("Trace", u(t[1]), u(t[2] % (1 << 64)))
    if k == "p": return T.node("Polynomial", (mm(T.env, [fe(v) for v in w["p"][:t[1]]]),), b(t[2]))
    if k == "q": return T.node("ClaimPolynomial", u(t[1]), u(t[2]), b(t[3]), En(0, ()))
    if k == "e": return T.node("Exp", b(t[1]), u(t[2]))
    return T.node({"+": "Add", "*": "Mul", "-": "Neg", "i": "Inv"}[k], *[b(x) for x in t[1:]])
def tvalue(t, w, x, cell):
    """the value of a tree at x, cells given by a function"""
    v = lambda y: tvalue(y, w, x, cell)
    if t == "x": return x
    k = t[0]
    if k == "c": return w["c"][t[1]]
    if k == "k": return w["g"].const(t[1])
    if k == "t": return cell(t[1], t[2])
    if k == "+": return v(t[1]) + v(t[2])
    if k == "*": return v(t[1]) * v(t[2])
    if k == "-": return -v(t[1])
    if k == "i": return v(t[1]).inv()
    if k == "e": return v(t[1]) ** t[2]
    if k == "p": return horner(w["p"][:t[1]], v(t[2]), w["g"])
    if k == "q": return w["uf"]("claim", t[1], t[2], v(t[3]))
    raise AssertionError(t)
def rvalue(s, e, names, w, x, cell):
    """the value of an expression of the program at x"""
    if not isinstance(e, En): raise Unsupported("expression %r" % (e,))
    nm, v = names[e.v], lambda b: rvalue(s, unbox(s, b), names, w, x, cell)
    if nm == "X": return x
    if nm == "Constant": return e.f[0].x if isinstance(e.f[0], Opq) else Layer(w["g"], "Proth").val(e.f[0])
    if nm == "Trace":
        if not (e.f[0].const and e.f[1].const): raise Unsupported("symbolic cell")
        return cell(e.f[0].val, sval(e.f[1]))
    if nm == "Polynomial": return horner([q.x for q in polyval(s, e.f[0])], v(e.f[1]), w["g"])
    if nm == "ClaimPolynomial": return w["uf"]("claim", e.f[0].val, e.f[1].val, v(e.f[2]))
    if nm == "Add": return v(e.f[0]) + v(e.f[1])
    if nm == "Neg": return -v(e.f[0])
    if nm == "Mul": return v(e.f[0]) * v(e.f[1])
    if nm == "Inv": return v(e.f[0]).inv()
    if nm == "Exp": return v(e.f[0]) ** e.f[1].val
    raise Unsupported("expression " + nm)
def graph(c):
    """trees: "x", ("c", k) a symbolic constant, ("k", v) a number, ("t", i, o), ("+", a, b), ("*", a, b), ("-", a), ("i", a), ("e", a, n), ("p", k, a)"""
    quiet = [(r"^std::io::_eprint$", lambda ex, st, i, a, g, w: ()), (r"^core::fmt::rt::Argument::<'_>::new_\w+::<", lambda ex, st, i, a, g, w: Opq("fmt", 0)),
             (r"^std::fmt::Arguments::<'_>::(new|from_str)", lambda ex, st, i, a, g, w: Opq("fmt", 0))]
    build = tbuild
    def value(t, w, j):
        v = lambda x: value(x, w, j)
        if t == "x": return w["g"].const(3 * pow(rootof(w["N"]), j, PRIME))
        k = t[0]
        if k == "c": return w["c"][t[1]]
        if k == "k": return w["g"].const(t[1])
        if k == "t": return w["v"][t[1]][brv(w["M"], (j + w["d"] * t[2]) % w["N"] * (w["M"] // w["N"]))]
        if k == "+": return v(t[1]) + v(t[2])
        if k == "*": return v(t[1]) * v(t[2])
        if k == "-": return -v(t[1])
        if k == "i": return v(t[1]).inv()
        if k == "e": return v(t[1]) ** t[2]
        if k == "p": return horner(w["p"][:t[1]], v(t[2]), w["g"])
        raise AssertionError(t)
    def text(t):
        if t == "x": return "X"
        k = t[0]
        if k == "c": return "abcdef"[t[1]]
        if k == "k": return str(t[1])
        if k == "t": return "T(%d,%d)" % t[1:]
        if k == "e": return "%s^%d" % (text(t[1]), t[2])
        if k == "p": return "P%d[%s]" % (t[1], text(t[2]))
        if k in "+*": return "(%s %s %s)" % (text(t[1]), k, text(t[2]))
        return {"-": "-", "i": "1/"}[k] + text(t[1])
    # contracts
    def mont(ex, st, i, a, g, w): return Ptr(ex.newcell(st, Opq("mont", deref(ex, st, a[0]).x)), ()) if isinstance(deref(ex, st, a[0]), Opq) else NotImplemented
    def tobytes(ex, st, i, a, g, w):
        v = deref(ex, st, a[0])
        if not (isinstance(v, Opq) and v.kind == "mont"): return NotImplemented
        return tuple(Opq("byte", (k, repr(v.x))) for k in range(32))
    def entropy(ex, st, i, a, g, w):
        h = deref(ex, st, a[0])
        if not (isinstance(h, Opq) and h.kind == "hasher"): raise Unsupported("hasher")
        k = repr([b.val if isinstance(b, E) and b.const else (b.kind, b.x) if isinstance(b, Opq) else repr(b) for b in h.x[1]])
        if k not in w["h"]: w["h"][k] = g.sym("hash%d" % len(w["h"]), nonzero=True)
        return fe(w["h"][k])
    def ifft(ex, st, i, a, g, w):
        p = a[0]
        st.ghost["in"] = st.ghost.get("in", ()) + (tuple(v.x if isinstance(v, Opq) else v for v in elems(ex, st, p)),)
        for j in range(ex.idx_const(p.meta)): ex.store(st, ex.offset_ptr(p, j), fe(w["y"][j]))
        return ()
    def combine(ex, st, i, a, g, w): return w["tree"]
    def same(ex, st, i, a, g, w): return deref(ex, st, a[0])
    more = [(r"^zkp_primefield::PrimeField::<.*>::as_montgomery$", mont), (r"U256>?::to_bytes_be$", tobytes), (r"^zkp_stark::algebraic_dag::from_entropy$", entropy),
            (r"Fft<%s>>::ifft$|Fft<%s> for \[%s\]>::ifft$" % (FET, FET, FET), ifft), (r"^zkp_stark::Constraints::combine$", combine), (RE + "substitute_claim$", same),
            (r"^zkp_stark::Constraints::degree$", lambda ex, st, i, a, g, w: u(w["deg"])), (r"^zkp_stark::Constraints::substitute$", lambda ex, st, i, a, g, w: ())]
    def one(t, n=16, deg=2, blow=4, cols=2):
        d = 1 << (deg - 1).bit_length()
        N, M = n * d, n * blow
        def mk(g):
            w = {"g": g, "c": symvec(g, "c", 3), "p": symvec(g, "p", 4), "v": [symvec(g, "v%d_" % j, M) for j in range(cols)], "y": symvec(g, "y", N), "h": {}, "N": N, "M": M, "d": d, "deg": deg}
            def f(env, ats):
                T = Tree(env)
                w["tree"] = build(T, t, w)
                K = struct(env.prog, "zkp_stark::Constraints", channel_seed=env.vals.vec([]), trace_nrows=u(n), trace_ncolumns=u(cols), expressions=env.vals.vec([]), blowup=u(blow), pow_bits=u(0), num_queries=u(0),
                           fri_layout=env.vals.vec([]), claim_polynomials=env.vals.vec([]))
                return [env.vals.ref((env.vals.vec([mm(env, [fe(x) for x in q]) for q in w["v"]]),)), env.vals.ref(K), env.vals.slice([fe(w["c"][0])]), u(n)]
            return f, w
        def post(s, a, r, L, w):
            g = L.ring
            ins = s.ghost.get("in", ())
            if len(ins) != 1: raise Unsupported("interpolation")
            gs = [("the whole domain is evaluated", X.boolc(len(ins[0]) == N))]
            gs += [("value at point %d" % j, L.eq(s, fe(v) if isinstance(v, FV) else v, value(t, w, j))) for j, v in enumerate(ins[0])]
            out = [polyval(s, q) for q in vecval(s, r)]
            gs.append(("parts", X.boolc(len(out) == d and all(len(q) == n for q in out))))
            gi = pow(3, -1, PRIME)
            for i, q in enumerate(out):
                for k, v in enumerate(q): gs.append(("coefficient %d of part %d" % (k, i), L.eq(s, v, w["y"][brv(N, k * d + i)] * g.const(pow(gi, k * d + i, PRIME)))))
            return gs
        falg(c, r"^zkp_stark::prover::get_constraint_polynomials$", "constraint polynomials: %s over %d points" % (text(t), N), mk, post, op="s_prove", bits=16, more=more + [(rx, lambda ex, st, i, a, g, w, f=f: f(ex, st, i, a)) for rx, f in HS.keccak_contracts()] + quiet, ring=Generic)
    # ---- every operator over every kind of leaf, then deeper trees
    import random
    def cosets(N): return [("e", "x", N // k) for k in (1, 2, 4, 16) if 1 < k < N] + [("e", "x", 3), ("e", "x", N)]
    a, b, T0, T1 = ("c", 0), ("c", 1), ("t", 0, 1), ("t", 1, -1)
    U = [("-",), ("i",)] + [("e", k) for k in (0, 1, 2, 3, 4, 6)] + [("p", k) for k in (1, 2, 4)]
    def un(o, t): return (o[0], t) + o[1:] if o[0] != "p" else ("p", o[1], t)
    def ok(t):
        """defined for general values"""
        q = Generic(PRIME, bits=16)
        w = {"g": q, "c": [q.const(v) for v in (1234567, 7654321, 999331)], "p": [q.const(v) for v in (5, 77, 1001, 424243)], "v": [[q.const(v * v + 17 * j + 3) for v in range(64)] for j in range(2)], "N": 32, "M": 64, "d": 2}
        try: value(t, w, 5)
        except ZeroDivisionError: return False
        return True
    seen = set()
    def add(t, **k):
        if ok(t) and (repr(t), repr(k)) not in seen:
            seen.add((repr(t), repr(k)))
            one(t, **k)
    lv = ["x", a, T0, T1, ("k", 0), ("k", 1)] + cosets(32)
    for t in lv: add(t)
    for o in U:
        for t in lv: add(un(o, t))
    for i, t in enumerate(lv):
        for j, r in enumerate(lv):
            if i <= j or (i < 4 and j < 4): add(("+", t, r))
            if i >= j or (i < 4 and j < 4): add(("*", t, r))
    rnd = random.Random(20)
    def tree(k, lv):
        if k == 0: return rnd.choice(lv)
        q = rnd.randrange(4)
        if q == 0: return un(rnd.choice(U), tree(k - 1, lv))
        return (rnd.choice("+*"), tree(k - 1, lv), tree(rnd.randrange(k), lv))
    for _ in range(90): add(tree(2, lv + [b]))
    for _ in range(30): add(tree(3, lv + [b, ("t", 0, 0), ("t", 1, 3)]))
    for n, deg, blow in ((2, 1, 2), (4, 1, 2), (2, 2, 4), (4, 2, 2), (16, 1, 2), (8, 3, 4), (16, 4, 4), (64, 1, 2), (4, 8, 8)):
        N = n << (deg - 1).bit_length()
        sm = ["x", a, ("t", 0, 0), ("t", 0, 1), ("t", 1, -1)] + [("e", "x", max(1, N // k)) for k in (1, 2, 4, 16)]
        for t in sm[2:5]: add(("*", ("+", t, a), ("+", "x", b)), n=n, deg=deg, blow=blow)
        for _ in range(5): add(tree(2, sm), n=n, deg=deg, blow=blow)

# ---------------------------------------------------------------- S06
def hv(nm): return (tuple(B(nm, 32)),)
def mkvec(ex, st, xs):
    n = u(len(xs))
    return ((((Ptr(ex.newcell(st, tuple(xs)), (0,)),), (n,), ()), ()), n)
def sval(e): return e.val - (1 << 64) if e.val >> 63 else e.val
def mkey(k):
    """a concrete map key, in the order of its type (usize, or a pair usize and isize)"""
    if isinstance(k, Ptr): raise Unsupported("key behind a pointer")
    if isinstance(k, tuple) and len(k) == 2 and k[0].const and k[1].const: return (k[0].val, sval(k[1]))
    if isinstance(k, E) and k.const: return k.val
    raise Unsupported("symbolic map key")
BT = r"std::collections::BTreeMap"
def bmap(ex, st, p):
    while isinstance(p, Ptr): p = ex.load(st, p)
    if not (isinstance(p, Opq) and p.kind == "map"): raise Unsupported("map %r" % (p,))
    return p.x
def btree():
    """ordered maps with concrete keys (library contract)"""
    def new(ex, st, i, a, g, w): return Opq("map", ())
    def insert(ex, st, i, a, g, w):
        m = dict(bmap(ex, st, a[0]))
        k = mkey(a[1])
        old = En(1, (m[k][1],)) if k in m else En(0, ())
        m[k] = (a[1], a[2])
        ex.store(st, a[0], Opq("map", tuple(sorted(m.items()))))
        return old
    def get(ex, st, i, a, g, w):
        m = dict(bmap(ex, st, a[0]))
        k = a[1]
        while isinstance(k, Ptr): k = ex.load(st, k)
        k = mkey(k)
        return En(1, (Ptr(ex.newcell(st, m[k][1]), ()),)) if k in m else En(0, ())
    def index(ex, st, i, a, g, w):
        r = get(ex, st, i, a, g, w)
        if r.v == 0: raise PanicNow("no entry for this key")
        return r.f[0]
    def ln(ex, st, i, a, g, w): return u(len(bmap(ex, st, a[0])))
    def build(ex, st, i, a, g, w):
        m = {}
        for k, v in vecval(st, a[0]): m[mkey(k)] = (k, v)
        return Opq("map", tuple(sorted(m.items())))
    def srt(ex, st, i, a, g, w):
        xs = sorted(elems(ex, st, a[0]), key=lambda t: mkey(t[0]))
        p = a[0]
        for j, v in enumerate(xs): ex.store(st, Ptr(p.cell, p.path[:-1] + (p.path[-1] + j,), None), v)
        return ()
    return [(r"^%s::<.*>::new$" % BT, new), (r"^%s::<.*>::insert$" % BT, insert), (r"^%s::<.*>::get::<" % BT, get), (r"^<%s<.* as std::ops::Index<.*>>::index$" % BT, index),
            (r"^%s::<.*>::len$" % BT, ln), (r"^%s::<.*>::bulk_build_from_sorted_iter::<std::vec::Vec<" % BT, build), (r"^std::slice::<impl \[.*\]>::sort_by::<\{closure@<%s<" % BT, srt)]
def struct(prog, name, **kw):
    """a struct value by field names"""
    for t in prog.types:
        k = prog.kind(t)
        if k[0] == "adt" and prog.tname(t) == name:
            fs = [f[0] for f in k[3][0]["fields"]]
            if sorted(fs) != sorted(kw): raise Unsupported("fields of " + name)
            return tuple(kw[f] for f in fs)
    raise Unsupported("no type " + name)
VCH = r"^<zkp_stark::channel::VerifierChannel as zkp_stark::channel::"
class Uf:
    """functions of their arguments, as symbols of the ring"""
    def __init__(self, g): self.g, self.t = g, {}
    def key(self, v):
        if isinstance(v, FV): return "F" + repr(v)
        if isinstance(v, Opq) and v.kind == "fe": return "F" + repr(v.x)
        if isinstance(v, (tuple, list)): return "(" + ",".join(self.key(x) for x in v) + ")"
        if isinstance(v, Opq): return "%s:%s" % (v.kind, self.key(v.x))
        return repr(v)
    def __call__(self, nm, *args):
        k = nm + self.key(args)
        if k not in self.t: self.t[k] = self.g.sym("%s%d" % (nm, len(self.t)))
        return self.t[k]
def symb(w, nm):
    if nm not in w["syms"]: w["syms"][nm] = w["g"].sym(nm)
    return w["syms"][nm]
def mproof(n, idx):
    """number of hashes of a Merkle decommitment, independently"""
    cur, k = sorted({n + i for i in idx}), 0
    while cur and cur[0] > 1:
        s = set(cur)
        k += sum(1 for x in cur if x ^ 1 not in s)
        cur = sorted({x >> 1 for x in cur})
    return k
def s06(c):
    PROOF = B("proof", 3)
    SEED = B("seed", 2)
    def cnt(st, what): return sum(e[0] == what for e in st.ghost.get("ev", ()))
    def nxt(st, what, *info):
        nm = "%s%d" % (what, cnt(st, what))
        event(st, what, nm, *info)
        return nm
    def k_(n):
        if not n.const: raise Unsupported("symbolic length")
        return n.val
    def new(ex, st, i, a, g, w):
        event(st, "new", tuple(vecval(st, a[0])))
        return Opq("chan", 0)
    def init(ex, st, i, a, g, w):
        event(st, "init", elems(ex, st, a[1]))
        return ()
    def rhash(ex, st, i, a, g, w): return hv(nxt(st, "hash"))
    def rhashes(ex, st, i, a, g, w):
        nm = nxt(st, "hashes", k_(a[1]))
        return mkvec(ex, st, [hv("%s.%d" % (nm, j)) for j in range(k_(a[1]))])
    def many(what):
        def f(ex, st, i, a, g, w):
            nm = w["alias"](nxt(st, what, k_(a[1])))
            return mkvec(ex, st, [fe(symb(w, "%s.%d" % (nm, j))) for j in range(k_(a[1]))])
        return f
    def one(what):
        def f(ex, st, i, a, g, w): return fe(symb(w, nxt(st, what)))
        return f
    def pseed(ex, st, i, a, g, w): return (tuple(B(nxt(st, "powseed"), 32)),)
    def presp(ex, st, i, a, g, w): return (X.var(nxt(st, "nonce"), 64),)
    def pdiff(ex, st, i, a, g, w): return Opq("challenge", (a[0], a[1]))
    def check(st, *e): st.ghost["ck"] = st.ghost.get("ck", ()) + (e,)
    def pverify(ex, st, i, a, g, w):
        check(st, "pow", ex.load(st, a[0]), a[1])
        return X.var("pow ok", 0)
    def indices(ex, st, i, a, g, w):
        event(st, "indices")
        ex.obligations.append((list(st.pc), X.band(X.eq(a[0], w["nq"]), X.eq(a[1], X.c(w["N"].bit_length() - 1, 32))), "as many queries as required, each of the evaluation domain"))
        return mkvec(ex, st, [u(q) for q in w["q"]])
    def fromh(ex, st, i, a, g, w):
        cm = ex.load(st, a[0])
        return En(0, (Opq("mproof", (cm, elems(ex, st, a[1]), elems(ex, st, a[2]))),))
    def mverify(ex, st, i, a, g, w):
        p = ex.load(st, a[0])
        if not (isinstance(p, Opq) and p.kind == "mproof"): raise Unsupported("merkle proof")
        vals = tuple((t[0], tuple(vecval(st, t[1]))) for t in elems(ex, st, a[1]))
        root = [f for f in p.x[0] if isinstance(f, tuple)]
        h = root[0]
        while isinstance(h[0], tuple): h = h[0]
        nm = repr(h[0]) if isinstance(h[0], E) else "?"
        check(st, "merkle", p.x, vals)
        ok = X.var("merkle ok " + nm, 0)
        return Fork([(ok, En(0, ((),))), (X.bnot(ok), En(1, (En(0, ()),)))])
    def atend(ex, st, i, a, g, w):
        event(st, "end")
        return X.var("at end", 0)
    def cclone(ex, st, i, a, g, w): return Opq("constraints", "copy")
    def csub(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        ex.store(st, a[0], Opq("constraints", "substituted " + (v.x if isinstance(v, Opq) else "original")))
        return ()
    def cargs(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        ex.obligations.append((list(st.pc), X.boolc(isinstance(v, Opq) and "substituted" in v.x or a[0] == w["con"]), "the arguments of the constraints"))
        return mkvec(ex, st, [(u(p), u(q)) for p, q in w["targs"]])
    def cdeg(ex, st, i, a, g, w): return u(w["deg"])
    def clen(ex, st, i, a, g, w): return u(w["ncon"])
    def ood(ex, st, i, a, g, w):
        x = ex.load(st, a[0]).x
        m = bmap(ex, st, a[4])
        ex.obligations.append((list(st.pc), X.eq(a[7], u(w["rows"])), "the length of the trace"))
        r = w["uf"]("deep", x, elems(ex, st, a[1]), elems(ex, st, a[2]), ex.load(st, a[3]).x, [k for k, _ in m], [v[1] for _, v in m], elems(ex, st, a[5]), elems(ex, st, a[6]))
        return En(0, (fe(r),))
    def fold(ex, st, i, a, g, w):
        co = elems(ex, st, a[0])
        m = len(co)
        step, idx, ln = (k_(v) for v in a[2:5])
        full = elems(ex, st, a[5])
        w0 = rootof(w["N"])
        ex.obligations.append((list(st.pc), X.boolc(m >= 2 and m & (m - 1) == 0 and step * ln == w["N"] and idx % (m // 2) == 0 and len(full) == w["N"]
                               and all(v.x.same(g.const(pow(w0, j, PRIME))) for j, v in enumerate(full))), "fold of a coset of the domain"))
        return fe(w["uf"]("fold", co, ex.load(st, a[1]).x, ln, idx // (m // 2)))
    def pnew(ex, st, i, a, g, w): return Opq("poly", elems(ex, st, a[0]))
    def peval(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "poly"): return NotImplemented
        return fe(w["uf"]("eval", v.x, ex.load(st, a[1]).x))
    def left(ex, st, i, a, g, w):
        p = a[0]
        while isinstance(p, Ptr) and p != w["con"]: p = ex.load(st, p)
        ex.obligations.append((list(st.pc), X.boolc(p == w["con"]), "the constraints of the claim"))
        m = bmap(ex, st, a[2])
        return fe(w["uf"]("trace side", elems(ex, st, a[1]), [k for k, _ in m], [v[1] for _, v in m], ex.load(st, a[3]).x))
    def right(ex, st, i, a, g, w): return fe(w["uf"]("constraint side", elems(ex, st, a[0]), ex.load(st, a[1]).x))
    V = r"^zkp_stark::verifier::"
    K = r"^zkp_stark::Constraints::"
    more = [(r"^zkp_stark::channel::VerifierChannel::new$", new), (r"^zkp_stark::channel::VerifierChannel::initialize$", init), (VCH + r"Replayable<zkp_hash::Hash>>::replay$", rhash),
            (VCH + r"Replayable<zkp_hash::Hash>>::replay_many$", rhashes), (VCH + r"Replayable<%s>>::replay_many$" % FET, many("values")), (VCH + r"Replayable<%s>>::replay$" % FET, one("value")),
            (VCH + r"RandomGenerator<%s>>::get_random$" % FET, one("draw")), (r"^zkp_stark::channel::VerifierChannel::get_coefficients$", many("coefficients")),
            (r"^zkp_stark::channel::VerifierChannel::replay_fri_layer$", many("row")), (VCH + r"RandomGenerator<zkp_stark::proof_of_work::ChallengeSeed>>::get_random$", pseed),
            (VCH + r"Replayable<zkp_stark::proof_of_work::Response>>::replay$", presp), (r"^zkp_stark::proof_of_work::ChallengeSeed::with_difficulty$", pdiff), (r"^zkp_stark::proof_of_work::Challenge::verify$", pverify), (V + "get_indices$", indices),
            (r"^zkp_merkle_tree::Proof::from_hashes$", fromh), (r"^zkp_merkle_tree::Proof::verify::<", mverify), (r"^zkp_stark::channel::VerifierChannel::at_end$", atend),
            (r"^<zkp_stark::Constraints as std::clone::Clone>::clone$", cclone), (K + "substitute$", csub), (K + "trace_arguments$", cargs), (K + "degree$", cdeg), (K + "len$", clen),
            (V + "out_of_domain_element$", ood), (V + "fri_fold$", fold), (r"^zkp_stark::DensePolynomial::new$", pnew), (r"^zkp_stark::DensePolynomial::evaluate$", peval),
            (V + "oods_value_from_trace_values$", left), (V + "oods_value_from_constraint_values$", right)] + btree()
    def case(rows, cols, blow, lay, qs, targs, deg, ncon):
        N = rows * blow
        D = 1 << (deg - 1).bit_length()
        qs = sorted(qs)
        def spec(w):
            """the protocol: channel events, checks and the equations"""
            g, uf = w["g"], w["uf"]
            S = lambda nm, n: [symb(w, "%s.%d" % (w["alias"](nm), j)) for j in range(n)]
            ev, n = [], {}
            def e(what, *info):
                nm = "%s%d" % (what, n.get(what, 0))
                n[what] = n.get(what, 0) + 1
                ev.append((what, nm) + info)
                return nm
            ev += [("new", tuple(PROOF)), ("init", tuple(SEED))]
            r0 = e("hash")
            cc = S(e("coefficients", 2 * ncon), 2 * ncon)
            r1 = e("hash")
            z = symb(w, e("draw"))
            tv = S(e("values", len(targs)), len(targs))
            cv = S(e("values", D), D)
            oc = S(e("coefficients", len(targs) + D), len(targs) + D)
            roots, ch, size = [], [], N
            for k in lay:
                size >>= k
                roots.append((e("hash"), size))
                ch.append(symb(w, e("draw")))
            last = S(e("row", size // blow), size // blow)
            ps, nonce = e("powseed"), e("nonce")
            ev.append(("indices",))
            lv = [S(e("row", cols), cols) for _ in qs]
            hs = mproof(N, qs)
            h0 = (e("hashes", hs), hs)
            kv = [S(e("row", D), D) for _ in qs]
            h1 = (e("hashes", hs), hs)
            H = lambda h: [hv("%s.%d" % (h[0], j)) for j in range(h[1])]
            ck = [("merkle", N, r0, qs, H(h0), list(zip(qs, lv))), ("merkle", N, r1, qs, H(h1), list(zip(qs, kv)))]
            m = sorted(zip(targs, tv))
            eqs = []
            w0 = rootof(N)
            known = {}
            for q, a, b in zip(qs, lv, kv):
                if q in known: continue
                known[q] = uf("deep", g.const(pow(w0, brv(N, q), PRIME)), a, b, z, [k for k, _ in m], [v for _, v in m], cv, oc)
            ln = N
            for k, (r, size), x in zip(lay, roots, ch):
                cs = 1 << k
                out, vals = {}, []
                for i in sorted({q // cs for q in known}):
                    coset = [known[i * cs + j] if i * cs + j in known else symb(w, e("value")) for j in range(cs)]
                    vals.append((i, coset))
                    out[i] = uf("fold", coset, x, ln, i)
                hn = mproof(size, [i for i, _ in vals])
                ck.append(("merkle", size, r, [i for i, _ in vals], H((e("hashes", hn), hn)), vals))
                known, ln = out, size
            ev.append(("end",))
            wl = rootof(ln)
            for i, v in known.items(): eqs.append((uf("eval", last, g.const(pow(wl, brv(ln, i), PRIME))), v))
            eqs.append((uf("trace side", cc, [k for k, _ in m], [v for _, v in m], z), uf("constraint side", cv, z)))
            return ev, ck, eqs, (ps, nonce)
        def alias(nm):
            """rows opened twice at one position: the Merkle check accepts only equal ones (M03)"""
            if not nm.startswith("row") or nm == "row0": return nm
            k, j = divmod(int(nm[3:]) - 1, len(qs))
            return "row%d" % (1 + k * len(qs) + qs.index(qs[j]))
        def mk(g):
            w = {"g": g, "syms": {}, "alias": alias, "uf": Uf(g), "N": N, "rows": rows, "q": qs, "targs": [(p, q % (1 << 64)) for p, q in targs], "deg": deg, "ncon": ncon, "nq": X.var("num_queries", 64)}
            def f(env, ats):
                con = struct(env.prog, "zkp_stark::Constraints", channel_seed=env.vals.vec(SEED), trace_nrows=u(rows), trace_ncolumns=u(cols), expressions=Opq("expressions", 0),
                             blowup=u(blow), pow_bits=X.var("pow_bits", 64), num_queries=w["nq"], fri_layout=env.vals.vec([u(k) for k in lay]), claim_polynomials=Opq("claims", 0))
                w["con"] = env.vals.ref(con)
                return [w["con"], env.vals.ref((env.vals.vec(PROOF),))]
            return f, w
        def post(s, a, r, L, w):
            ev, ck, eqs, (ps, nonce) = spec(w)
            g = w["g"]
            conds = [X.var("pow ok", 0), X.var("at end", 0)] + [X.var("merkle ok " + repr(hv(k[2])[0][0]), 0) for k in ck] + [g.iszero(x - y) for x, y in eqs]
            if r.v != 0: return [("rejection only when a check fails", X.bnot(conj(conds)))]
            gs = [("acceptance needs check %d" % j, q) for j, q in enumerate(conds)]
            got = [e for e in s.ghost.get("ev", ())]
            gs.append(("the messages of the protocol in order", X.boolc(got == ev)))
            cs = s.ghost.get("ck", ())
            pw = [k for k in cs if k[0] == "pow"]
            gs.append(("proof of work: one check", X.boolc(len(pw) == 1)))
            for k in pw:
                if not (isinstance(k[1], Opq) and k[1].kind == "challenge"): raise Unsupported("challenge")
                seed, df = k[1].x
                gs.append(("proof of work: the seed, difficulty and nonce", conj([same_bytes(list(seed[0]), B(ps, 32)), X.eq(df, X.var("pow_bits", 64)),
                                                                                  X.eq(k[2][0] if isinstance(k[2], tuple) else k[2], X.var(nonce, 64))])))
            mk_ = [k for k in cs if k[0] == "merkle"]
            def norm(k):
                (cm, idx, hs), vals = k[1], k[2]
                return (uf.key(cm), uf.key(idx), uf.key(hs), uf.key([(i, list(v)) for i, v in vals]))
            uf = w["uf"]
            def wnorm(k):
                cm = struct_(w, k[1], k[2])
                return (uf.key(cm), uf.key([u(i) for i in k[3]]), uf.key(k[4]), uf.key([(u(i), list(v)) for i, v in k[5]]))
            want = sorted(wnorm(k) for k in ck)
            gs.append(("the Merkle checks: commitments, indices, hashes and values", X.boolc(sorted(set(norm(k) for k in mk_)) == want)))
            return gs
        def struct_(w, size, root): return struct(PROG[0], "zkp_merkle_tree::Commitment", size=u(size), hash=hv(root))
        PROG = [None]
        def mk2(g):
            f, w = mk(g)
            def f2(env, ats):
                PROG[0] = env.prog
                return f(env, ats)
            return f2, w
        falg(c, r"^zkp_stark::verify$", "verifier: %d rows, %d columns, blowup %d, layout %s, queries %s, arguments %s, degree %d, %d constraints" % (rows, cols, blow, lay, qs, targs, deg, ncon), mk2, post, more=more)
    A0, A1, A2 = [(0, 0)], [(0, -1), (0, 0), (1, 3)], [(0, 0), (0, 1), (1, -2), (2, 0), (2, 5)]
    cases = [(2, 1, 2, [1], [q], A0, 1, 1) for q in range(4)] + [(2, 1, 2, [1], [0, 2], A0, 1, 2), (2, 1, 2, [1], [0, 1, 2, 3], A0, 2, 1), (2, 1, 4, [1], [3, 3, 5], A0, 1, 1),
             (4, 2, 2, [1], [2, 7], A1, 2, 2), (4, 2, 2, [2], [0, 3, 5], A1, 2, 2), (4, 2, 2, [1, 1], [1, 6], A1, 3, 3), (4, 2, 2, [1, 1], [0, 1, 4, 4, 7], A1, 1, 1),
             (4, 3, 4, [2], [9], A2, 2, 1), (8, 3, 2, [2, 1], [4, 5, 11], A2, 2, 4), (8, 3, 2, [1, 2], [0, 8, 15], A2, 2, 2), (8, 2, 4, [1, 1, 1], [3, 17, 30], A1, 4, 2),
             (8, 2, 2, [3], [2, 12, 13], A1, 2, 2), (16, 2, 2, [2, 1, 1], [6, 7, 20, 31], A1, 2, 2), (16, 1, 2, [3], [0, 8, 30], [(0, 0), (0, 1)], 2, 3), (16, 2, 4, [1, 3], [11, 40, 63], A1, 8, 2), (16, 1, 2, [1, 1, 1, 1], [0, 3, 29], A0, 1, 1), (32, 1, 2, [1, 1, 1, 1, 1], [5, 40], A0, 2, 1)]
    cases += [(16, 12, 2, [2], [1, 9], [(i, 0) for i in range(12)], 2, 5), (32, 1, 2, [2, 2], sorted((i * i * 7 + 3 * i) % 64 for i in range(40)), A0, 2, 1),
              (64, 1, 4, [4, 2], [0, 17, 18, 140, 255], A0, 2, 1), (64, 1, 2, [1] * 6, [9, 90], A0, 1, 1), (16, 1, 16, [3], [0, 100, 255], A0, 16, 1), (16, 1, 2, [4], [3, 30], A0, 1, 1)]
    for p in cases: case(*p)
    # ---- the composition at a query: any values, any point
    def miter(ex, st, i, a, g, w): return Opq("mapit", (bmap(ex, st, a[0]), 0))
    def mnext(ex, st, i, a, g, w):
        it = ex.load(st, a[0])
        m, k = it.x
        if k == len(m): return En(0, ())
        ex.store(st, a[0], Opq("mapit", (m, k + 1)))
        key, v = m[k][1]
        return En(1, ((Ptr(ex.newcell(st, key), ()), Ptr(ex.newcell(st, v), ())),))
    def mhint(ex, st, i, a, g, w):
        m, k = ex.load(st, a[0]).x
        return (u(len(m) - k), En(1, (u(len(m) - k),)))
    IT = r"^<std::collections::btree_map::Iter<.*> as std::iter::Iterator>::"
    maps = [(r"^%s::<.*>::iter$" % BT, miter), (IT + "next$", mnext), (IT + "size_hint$", mhint)] + btree()
    def comp(rows, targs, D):
        cols = 1 + max([p for p, _ in targs], default=0)
        m = sorted(targs)
        def mk(g):
            x, z = g.sym("x"), g.sym("z", nonzero=True)
            tv, cv, ov, kv, oc = symvec(g, "t", cols), symvec(g, "c", D), symvec(g, "v", len(m)), symvec(g, "k", D), symvec(g, "a", len(m) + D)
            w0 = rootof(rows)
            X3 = x * g.const(3)
            den = [X3 - g.const(pow(w0, o % rows, PRIME)) * z for _, o in m] + [X3 - z ** D] * D
            num = [tv[p] - v for (p, _), v in zip(m, ov)] + [q - k for q, k in zip(cv, kv)]
            w = {"den": den, "num": num, "oc": oc}
            def f(env, ats):
                mp = Opq("map", tuple(((p, o), ((u(p), u(o % (1 << 64))), fe(v))) for (p, o), v in zip(m, ov)))
                R = env.vals.ref
                S = lambda l: env.vals.slice([fe(v) for v in l])
                return [R(fe(x)), S(tv), S(cv), R(fe(z)), R(mp), S(kv), S(oc), u(rows)]
            ctx[0] = (g, w)
            return f, w
        ctx = [None]
        def post(s, a, r, L, w):
            g = L.ring
            acc = None
            for n, d, k in zip(w["num"], w["den"], w["oc"]):
                t = n / d * k
                acc = t if acc is None else acc + t
            if r.v != 0: return [("no error", X.FALSE)]
            return [("the random combination of the quotients", L.eq(s, r.f[0], acc))]
        def panics(*a):
            g, w = ctx[0]
            o = X.FALSE
            for d in w["den"]: o = X.bor(o, g.iszero(d))
            return o
        falg(c, r"^zkp_stark::verifier::out_of_domain_element$", "verifier: composition at a query, trace of %d rows, arguments %s, degree %d" % (rows, targs, D), mk, post, more=maps, panics=panics, bits=8)
    for rows, t, D in ((2, A0, 1), (4, A0, 2), (4, [(0, 0), (0, 1)], 1), (8, [(0, -1), (1, 3)], 1), (8, [(1, 0)], 4), (16, [(0, -3), (0, 0), (1, 15)], 1), (16, [(0, 1)], 2), (4, [(0, 0)], 8)):
        comp(rows, t, D)
    def split(n):
        def mk(g):
            v, z = symvec(g, "v", n), g.sym("z")
            return (lambda env, ats: [env.vals.slice([fe(x) for x in v]), env.vals.ref(fe(z))]), evs(v, z, g)
        falg(c, V + "oods_value_from_constraint_values$", "verifier: claimed constraint value from %d parts" % n, mk, lambda s, a, r, L, w: [("value", L.eq(s, r, w))])
    def evs(v, z, g):
        acc, pw = g.const(0), g.const(1)
        for x in v: acc, pw = acc + x * pw, pw * z
        return acc
    for n in (1, 2, 3, 4, 8, 16): split(n)
    # ---- the constraint value from the trace values: evaluation of the combined constraint at the claimed values
    def looked(which):
        m = sorted(A2)
        def mk(g):
            ov, cf, z = symvec(g, "v", len(m)), symvec(g, "a", 4), g.sym("z")
            w = {"ov": ov, "z": z, "cf": cf}
            def f(env, ats):
                T = Tree(env)
                w["tree"] = T.node("X") if which is None else T.node("Trace", u(which[0]), u(which[1] % (1 << 64)))
                mp = Opq("map", tuple(((p, o), ((u(p), u(o % (1 << 64))), fe(v))) for (p, o), v in zip(m, ov)))
                w["con"] = env.vals.ref(struct(env.prog, "zkp_stark::Constraints", channel_seed=Opq("seed", 0), trace_nrows=u(8), trace_ncolumns=u(3), expressions=Opq("expressions", 0), blowup=u(2),
                                               pow_bits=u(0), num_queries=u(1), fri_layout=Opq("layout", 0), claim_polynomials=env.vals.vec([Opq("poly", "q0")])))
                w["cfp"] = env.vals.slice([fe(v) for v in cf])
                return [w["con"], w["cfp"], env.vals.ref(mp), env.vals.ref(fe(z))]
            return f, w
        def comb(ex, st, i, a, g, w):
            ex.obligations.append((list(st.pc), X.boolc(a[0] == w["con"] and len(elems(ex, st, a[1])) == 4 and all(x.x.same(y) for x, y in zip(elems(ex, st, a[1]), w["cf"]))), "all constraints, all coefficients"))
            return Opq("combined", 0)
        def subs(ex, st, i, a, g, w):
            v = ex.load(st, a[0])
            e = elems(ex, st, a[1])
            ex.obligations.append((list(st.pc), X.boolc(isinstance(v, Opq) and v.kind == "combined" and [(x.kind, x.x) for x in e] == [("poly", "q0")]), "the claim polynomials put in"))
            return w["tree"]
        def post(s, a, r, L, w):
            return [("value", L.eq(s, r, w["z"] if which is None else w["ov"][m.index(which)]))] if which is None or which in m else [("a missing value is an error", X.FALSE)]
        falg(c, V + "oods_value_from_trace_values$", "verifier: value of the combined constraint, reading %s" % (which or "the point",), mk, post, more=[(K + "combine$", comb), (RE + "substitute_claim$", subs)] + btree(),
             panics=lambda *a: X.boolc(which is not None and which not in m))
    for q in [None, (1, 1)] + A2: looked(q)
    prover(c)

# ---------------------------------------------------------------- S07
def s07(c):
    def prep(g, ok=()):
        w = {"x": g.sym("x"), "c": g.sym("c"), "t": g.sym("trace value"), "uf": Uf(g), "ok": {n: (X.TRUE if n in ok else X.var("ok " + n, 0)) for n in "ab"}}
        for n in "ab": w[n] = g.sym("value of " + n)
        return w
    def c_check(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "expr"): return NotImplemented
        ex.obligations.append((list(st.pc), X.boolc(ex.load(st, a[1]).x.same(w["x"]) and a[2] == w["dyn"]), "children are checked at the same point of the same trace"))
        return (fe(w[v.x]), w["ok"][v.x])
    def c_pow(ex, st, i, a, g, w):
        b = a[0]
        while isinstance(b, Ptr): b = ex.load(st, b)
        return fe(w["uf"]("power", b.x, a[1]))
    def c_poly(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "poly"): return NotImplemented
        return fe(w["uf"]("polynomial", ex.load(st, a[1]).x))
    def c_trace(ex, st, i, a, g, w):
        t = a[1] if len(a) == 2 else a[1:]
        ex.obligations.append((list(st.pc), X.band(X.eq(t[0], I_), X.eq(t[1], J_)), "the trace is read at the column and offset of the node"))
        return fe(w["t"])
    def c_clone(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        return v if isinstance(v, Opq) and v.kind in ("expr", "poly") else NotImplemented
    CL = (r"^<zkp_stark::RationalExpression as std::clone::Clone>::clone$|^<zkp_stark::DensePolynomial as std::clone::Clone>::clone$", c_clone)
    more = [(RE + "check$", c_check), (r"^zkp_stark::DensePolynomial::evaluate$", c_poly), (DYN, c_trace), (POWU, c_pow), CL]
    def var(nm, mkn, ok, want, sure=""):
        """want(w, g) -> list of (condition, value): defined exactly when one condition holds, with that value"""
        def mk(g):
            w = prep(g, sure)
            def f(env, ats):
                w["dyn"] = env.vals.ref(Opq("trace", 0))
                return [env.vals.ref(mkn(Tree(env), w)), env.vals.ref(fe(w["x"])), w["dyn"]]
            return f, w
        def post(s, a, r, L, w):
            cs = want(w, L.ring)
            any_ = X.FALSE
            for q, _ in cs: any_ = X.bor(any_, q)
            gs = [("defined exactly when it is", X.eq(r[1], any_))]
            for q, v in cs:
                same = r[0].x.same(v)
                gs.append(("value", X.TRUE if same else X.bnot(X.band(r[1], q))))
            return gs
        falg(c, RE + "check$", "checked value of an expression: %s" % nm, mk, post, more=more, op="c_check")
    A, Bk = (lambda w: w["ok"]["a"]), (lambda w: w["ok"]["b"])
    N = X.bnot
    SH = lambda nm: (lambda T, w: shape(T, nm, w["c"]))
    var("X", SH("X"), "", lambda w, g: [(X.TRUE, w["x"])])
    var("Constant", SH("Constant"), "", lambda w, g: [(X.TRUE, w["c"])])
    var("Trace", SH("Trace"), "", lambda w, g: [(X.TRUE, w["t"])])
    var("Polynomial of an arbitrary expression", SH("Polynomial"), "", lambda w, g: [(A(w), w["uf"]("polynomial", w["a"]))])
    var("Add of arbitrary expressions", SH("Add"), "", lambda w, g: [(X.band(A(w), Bk(w)), w["a"] + w["b"])])
    var("Neg of an arbitrary expression", SH("Neg"), "", lambda w, g: [(A(w), -w["a"])])
    def mul(w, g):
        a, b, za, zb = A(w), Bk(w), g.iszero(w["a"]), g.iszero(w["b"])
        z = g.const(0)
        return [(X.band(a, b), w["a"] * w["b"]), (X.band(X.band(a, N(b)), za), z), (X.band(X.band(N(a), b), zb), z)]
    var("Mul of arbitrary expressions", SH("Mul"), "", mul)
    var("Exp of an arbitrary expression", SH("Exp"), "", lambda w, g: [(A(w), w["uf"]("power", w["a"], E_))])
    var("Inv of an arbitrary defined expression", SH("Inv"), "", lambda w, g: [(N(g.iszero(w["a"])), w["a"].inv())], sure="a")
    var("Inv of Inv of an arbitrary defined expression", lambda T, w: T.node("Inv", T.box(T.node("Inv", T.child("a")))), "", lambda w, g: [(X.TRUE, w["a"])], sure="a")
    # ---- the checker: every row and constraint in order, for any table
    def table(env, n, m, vals): return struct(env.prog, "zkp_stark::TraceTable", trace_length=u(n), num_columns=u(m), values=mm(env, [fe(v) for v in vals]))
    def cons(env, n, m, ex):
        return struct(env.prog, "zkp_stark::Constraints", channel_seed=Opq("seed", 0), trace_nrows=u(n), trace_ncolumns=u(m), expressions=env.vals.vec(ex), blowup=u(2), pow_bits=u(0), num_queries=u(1),
                      fri_layout=Opq("layout", 0), claim_polynomials=Opq("claims", 0))
    def checker(n, m, cells):
        """constraint k holds in a row unless the cell (column, offset) relative to that row is c_k + d_k X"""
        def mk(g):
            t = [symvec(g, "t%d" % r, m) for r in range(n)]
            cs, ds = symvec(g, "c", len(cells)), symvec(g, "d", len(cells))
            w = {"t": t, "c": cs, "d": ds}
            def f(env, ats):
                T = Tree(env)
                bx = T.box
                es = [T.node("Inv", bx(T.node("Add", bx(T.node("Trace", u(i), u(j % (1 << 64)))), bx(T.node("Neg", bx(T.node("Add", bx(T.node("Constant", fe(k))), bx(T.node("Mul", bx(T.node("Constant", fe(d))), bx(T.node("X"))))))))))) for (i, j), k, d in zip(cells, cs, ds)]
                return [env.vals.ref(cons(env, n, m, es)), env.vals.ref(table(env, n, m, [x for r in t for x in r]))]
            return f, w
        def post(s, a, r, L, w):
            g = L.ring
            gs, before = [], X.TRUE
            w0 = rootof(n)
            for row in range(n):
                for k, (i, j) in enumerate(cells):
                    bad = g.iszero(w["t"][(row + j) % n][i] - w["c"][k] - w["d"][k] * g.const(pow(w0, row, PRIME)))
                    first = X.band(before, bad)
                    got = X.FALSE if r.v == 0 else X.band(X.eq(r.f[0][0], u(row)), X.eq(r.f[0][1], u(k)))
                    gs.append(("first violation at row %d of constraint %d" % (row, k), X.eq(first, got)))
                    before = X.band(before, N(bad))
            gs.append(("accepted exactly without violation", X.eq(X.boolc(r.v == 0), before)))
            return gs
        falg(c, r"^zkp_stark::(constraint_check::)?check_constraints$", "checker: any table of %d rows, %d columns, cells %s" % (n, m, cells), mk, post, op="c_check")
    for n, m, cells in ((1, 1, [(0, 0)]), (2, 1, [(0, 0), (0, 1)]), (2, 2, [(1, -1)]), (4, 1, [(0, 1), (0, -2)]), (4, 2, [(1, 3), (0, -3), (1, 0)]), (8, 1, [(0, 7)]), (8, 3, [(2, -1), (1, 2)])): checker(n, m, cells)
    # ---- the combination: any values of the constraints, any coefficients
    def tree_value(s, v, x, vals, g):
        if isinstance(v, Ptr) or isinstance(v, tuple): return tree_value(s, unbox(s, v), x, vals, g)
        if isinstance(v, Opq) and v.kind == "expr": return vals[v.x]
        if not isinstance(v, En): raise Unsupported("expression %r" % (v,))
        nm = VN[0][v.v]
        sub = lambda q: tree_value(s, v.f[q], x, vals, g)
        if nm == "X": return x
        if nm == "Constant": return v.f[0].x
        if nm == "Add": return sub(0) + sub(1)
        if nm == "Mul": return sub(0) * sub(1)
        if nm == "Neg": return -sub(0)
        if nm == "Exp" and v.f[1].const: return sub(0) ** v.f[1].val
        raise Unsupported("node " + nm)
    VN = [None]
    def c_deg(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "expr"): return NotImplemented
        nu, de = w["deg"][v.x]
        t = a[1].val if len(a) > 1 and a[1].const else None
        return (u(nu[0] * t + nu[1]), u(de[0] * t + de[1]))
    def c_tdeg(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "expr"): return NotImplemented
        nu, de = w["tdeg"][v.x]
        return (u(nu), u(de))
    def combine(n, degs):
        """degs: per constraint, trace degrees of numerator and denominator, and degrees as a*t+b"""
        def mk(g):
            k = len(degs)
            w = {"tdeg": [d[0] for d in degs], "deg": [d[1] for d in degs], "v": symvec(g, "v", k), "co": symvec(g, "a", 2 * k), "x": g.sym("x")}
            def f(env, ats):
                VN[0] = variants(env.prog)
                return [env.vals.ref(cons(env, n, 1, [Opq("expr", j) for j in range(k)])), env.vals.slice([fe(v) for v in w["co"]])]
            return f, w
        def post(s, a, r, L, w):
            g = L.ring
            D = max(p - q for p, q in w["tdeg"])
            acc = g.const(0)
            for j, ((nu, de), v) in enumerate(zip(w["deg"], w["v"])):
                adj = D * n - 1 + (de[0] * (n - 1) + de[1]) - (nu[0] * (n - 1) + nu[1])
                acc = acc + (w["co"][2 * j] + w["co"][2 * j + 1] * w["x"] ** adj) * v
            return [("the sum of the adjusted constraints", L.eq(s, tree_value(s, r, w["x"], w["v"], g), acc))]
        falg(c, r"^zkp_stark::Constraints::combine$", "combination: %d rows, degrees %s" % (n, degs), mk, post, more=[(RE + "degree$", c_deg), (RE + "trace_degree$", c_tdeg), CL], bits=9)
    lin = ((1, 0), ((1, 0), (0, 1)))           # (t - c) / (X - g)
    sq = ((2, 1), ((2, 1), (1, 1)))            # (t^2 ...)(X - g) / (X^n - 1)
    cub = ((3, 1), ((3, 1), (1, 1)))
    for n, d in ((2, [lin]), (4, [lin, lin]), (4, [sq]), (8, [lin, sq]), (8, [cub, lin, sq]), (16, [sq, sq, lin, cub])): combine(n, d)
    # ---- the degree of the constraints, and which cells they read
    def cdeg(ds):
        falg(c, r"^zkp_stark::Constraints::degree$", "degree of the constraints: %s" % ds, lambda g: ((lambda env, ats: [env.vals.ref(cons(env, 4, 1, [Opq("expr", j) for j in range(len(ds))]))]), {"tdeg": ds}),
             lambda s, a, r, L, w: [("the largest", X.eq(r, u(max([p - q for p, q in ds], default=0))))], more=[(RE + "trace_degree$", c_tdeg)], panics=lambda *a: X.boolc(not ds))
    for ds in ([], [(1, 0)], [(2, 1), (1, 0)], [(1, 0), (2, 1), (4, 1)], [(3, 1), (5, 4), (2, 1)]): cdeg(ds)
    def c_args(ex, st, i, a, g, w):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and v.kind == "expr"): return NotImplemented
        ex.obligations.append((list(st.pc), X.boolc(a[1] == w["set"]), "into the same set"))
        event(st, "child", v.x)
        return ()
    def c_ins(ex, st, i, a, g, w):
        ex.obligations.append((list(st.pc), X.boolc(a[0] == w["set"]), "into the same set"))
        event(st, "cell", a[1][0], a[1][1])
        return X.var("new", 0)
    for nm in VAR:
        if nm == "ClaimPolynomial": continue
        def mk(g, nm=nm):
            w = {}
            def f(env, ats):
                w["set"] = env.vals.ref(Opq("set", 0))
                return [env.vals.ref(shape(Tree(env), nm, g.sym("c"))), w["set"]]
            return f, w
        want = [("cell", I_, J_)] if nm == "Trace" else [] if nm in ("X", "Constant") else [("child", "a")] + ([("child", "b")] if nm in ("Add", "Mul") else [])
        falg(c, RE + "trace_arguments_impl$", "cells read by an expression: %s of arbitrary expressions" % nm, mk,
             lambda s, a, r, L, w, want=want: [("its own cell and those of its children", X.boolc(sorted(map(repr, set(s.ghost.get("ev", ())))) == sorted(map(repr, want))))],
             more=[(RE + "trace_arguments_impl$", c_args), (r"^std::collections::BTreeSet::<\(usize, isize\)>::insert$", c_ins)])

def prover(c):
    """the prover's composition polynomial, openings and final self-check"""
    PCH = r"^<zkp_stark::channel::ProverChannel as zkp_stark::channel::"
    quiet = [(r"^std::io::_eprint$", lambda ex, st, i, a, g, w: ()), (r"^core::fmt::rt::Argument::<'_>::new_\w+::<", lambda ex, st, i, a, g, w: Opq("fmt", 0)),
             (r"^std::fmt::Arguments::<'_>::(new|from_str)", lambda ex, st, i, a, g, w: Opq("fmt", 0))]
    def draw(ex, st, i, a, g, w):
        k = sum(e[0] == "draw" for e in st.ghost.get("ev", ()))
        event(st, "draw", k)
        return fe(symb(w, "draw%d" % k))
    def wfe(ex, st, i, a, g, w):
        event(st, "value", ex.load(st, a[1]).x)
        return ()
    def quot(co, y, g):
        """the coefficients of (P(X) - P(y)) / (X - y)"""
        out, acc = [], g.const(0)
        for k in range(len(co) - 1, 0, -1):
            acc = acc * y + co[k]
            out.append(acc)
        return out[::-1] + [g.const(0)]
    def comp(n, cols, targs, D):
        def mk(g):
            T, C = [symvec(g, "p%d" % j, n) for j in range(cols)], [symvec(g, "q%d" % j, n) for j in range(D)]
            w = {"g": g, "syms": {}, "T": T, "C": C}
            symb(w, "draw0")
            P = lambda env, co: (mm(env, [fe(v) for v in co]),)
            return (lambda env, ats: [env.vals.ref(Opq("chan", 0)), env.vals.slice([P(env, t) for t in T]), env.vals.slice([(u(p), u(o % (1 << 64))) for p, o in targs]), env.vals.slice([P(env, t) for t in C])]), w
        def ev(co, y, g):
            acc = g.const(0)
            for v in reversed(co): acc = acc * y + v
            return acc
        def post(s, a, r, L, w):
            g = L.ring
            z = symb(w, "draw0")
            w0 = rootof(n)
            pts = [z * g.const(pow(w0, o % n, PRIME)) for _, o in targs] + [z ** D] * D
            pol = [w["T"][p] for p, _ in targs] + w["C"]
            got = s.ghost.get("ev", ())
            want = [("draw", 0)] + [("value", ev(co, y, g)) for co, y in zip(pol, pts)] + [("draw", 1 + k) for k in range(len(pol))]
            ok = len(got) == len(want) and all(x[0] == y[0] and (x[1] == y[1] if x[0] == "draw" else x[1].same(y[1])) for x, y in zip(got, want))
            gs = [("point, evaluations and coefficients in order", X.boolc(ok))]
            acc = [g.const(0)] * n
            for k, (co, y) in enumerate(zip(pol, pts)):
                f = symb(w, "draw%d" % (1 + k))
                acc = [x + f * q for x, q in zip(acc, quot(co, y, g))]
            out = polyval(s, r)
            gs.append(("size", X.boolc(len(out) == n)))
            gs += [("coefficient %d of the combination of the quotients" % k, L.eq(s, x, y)) for k, (x, y) in enumerate(zip(out, acc))]
            return gs
        falg(c, r"^zkp_stark::prover::oods_combine$", "prover: composition polynomial, %d coefficients, %d columns, arguments %s, degree %d" % (n, cols, targs, D), mk, post, op="s_prove", bits=8,
             more=[(PCH + r"RandomGenerator<%s>>::get_random$" % FET, draw), (PCH + r"Writable<&%s>>::write$" % FET, wfe)] + quiet)
    for p in ((2, 1, [(0, 0)], 1), (4, 1, [(0, 0), (0, 1)], 1), (4, 2, [(0, -1), (1, 3)], 2), (8, 2, [(0, 0), (1, -5), (1, 1)], 1), (4, 1, [(0, 0)], 4), (8, 1, [(0, 2)], 2)): comp(*p)
    # ---- the rows opened: position by position
    def coset(n, blow, cols, size):
        N = n * blow
        def mk(g):
            v = [symvec(g, "v%d" % j, N) for j in range(cols)]
            return (lambda env, ats: [env.vals.ref((env.vals.vec([mm(env, [fe(x) for x in t]) for t in v]),)), u(size)]), v
        def post(s, a, r, L, v):
            m = [f for f in r if isinstance(f, tuple)]
            if len(m) != 1: raise Unsupported("trace table")
            es = mmapval(s, m[0])
            gs = [("size", X.boolc(len(es) == size * cols))]
            for i in range(size):
                for j in range(cols): gs.append(("row %d column %d" % (i, j), L.eq(s, es[i * cols + j], v[j][brv(N, i * N // size)])))
            return gs
        falg(c, r"^zkp_stark::prover::extract_trace_coset$", "prover: coset of %d rows of %d columns from %d values" % (size, cols, N), mk, post, op="s_prove", more=quiet)
    for p in ((2, 2, 1, 4), (4, 2, 2, 4), (4, 2, 1, 8), (4, 4, 3, 8), (8, 4, 1, 16)): coset(*p)
    # ---- the FRI openings: the values the verifier cannot compute, then the Merkle proof, layer by layer
    def opened(ex, st, i, a, g, w):
        t = ex.load(st, a[0])
        event(st, "open", t[0].x, tuple(e.val for e in elems(ex, st, a[1])))
        bad = X.var("open fails %d" % t[0].x, 0)
        return Fork([(X.bnot(bad), En(0, (Opq("opening", t[0].x),))), (bad, En(1, (En(0, ()),)))])
    def wproof(ex, st, i, a, g, w):
        v = ex.load(st, a[1])
        event(st, "proof", v.x if isinstance(v, Opq) and v.kind == "opening" else "?")
        return ()
    def leaves(ex, st, i, a, g, w): return Ptr(a[0].cell, a[0].path + (2,))
    def fri(N, lay, qs):
        qs = sorted(qs)
        def mk(g):
            v, n = [], N
            for j, k in enumerate(lay):
                v.append(symvec(g, "l%d." % j, n))
                n >>= k
            w = {"v": v}
            def f(env, ats):
                trees = [(Opq("treeid", j), ("nodes",), struct(env.prog, "zkp_stark::prover::FriLeaves", coset_size=u(1 << k), layer=mm(env, [fe(x) for x in l]))) for j, (k, l) in enumerate(zip(lay, v))]
                return [env.vals.slice(trees), env.vals.slice([u(q) for q in qs]), env.vals.ref(Opq("chan", 0))]
            return f, w
        def post(s, a, r, L, w):
            fails = [X.var("open fails %d" % j, 0) for j in range(len(lay))]
            if r.v != 0: return [("an error only if a tree cannot be opened", X.bnot(conj([X.bnot(b) for b in fails])))]
            want, known = [], set(qs)
            for j, k in enumerate(lay):
                cs = sorted({q >> k for q in known})
                for i in cs: want += [("value", w["v"][j][(i << k) + q]) for q in range(1 << k) if (i << k) + q not in known]
                want += [("open", j, tuple(cs)), ("proof", j)]
                known = set(cs)
            got = s.ghost.get("ev", ())
            ok = len(got) == len(want) and all(x[0] == y[0] and (x[1].same(y[1]) if x[0] == "value" else x == y) for x, y in zip(got, want))
            return [("values, positions and proofs in order", X.boolc(ok))]
        falg(c, r"^zkp_stark::prover::decommit_fri_layers_and_trees$", "prover: FRI openings, domain %d, layout %s, queries %s" % (N, lay, qs), mk, post, op="s_prove",
             more=[(PCH + r"Writable<&%s>>::write$" % FET, wfe), (PCH + r"Writable<&zkp_merkle_tree::Proof>>::write$", wproof), (r"^zkp_merkle_tree::Tree::<zkp_stark::prover::FriLeaves>::open$", opened),
                   (r"^zkp_merkle_tree::Tree::<zkp_stark::prover::FriLeaves>::leaves$", leaves)] + quiet)
    for p in ((4, [1], [0]), (4, [1], [1, 3]), (8, [1, 1], [2, 7]), (8, [2], [0, 1, 2, 3]), (8, [2, 1], [5, 5]), (16, [1, 2], [0, 7, 9]), (16, [3, 1], [1, 14]), (32, [2, 1, 1], [4, 5, 6, 30]), (32, [1, 1, 1, 1], [3, 16, 31]), (64, [4, 2], [0, 15, 16, 63]), (64, [1] * 6, [5, 41]), (64, [2, 2, 1], sorted((i * i * 7 + 3 * i) % 64 for i in range(30)))): fri(*p)
    # ---- the whole: a proof is returned only if the verifier accepts it for the given constraints; the messages in order
    def whole(rows, cols, blow, lay, qs, D, ncon):
        SEED = B("seed", 2)
        BYTES = B("proof", 3)
        fork = lambda nm, ok, err=None: Fork([(X.bnot(X.var(nm, 0)), En(0, (ok,))), (X.var(nm, 0), En(1, (En(0, ()) if err is None else err,)))])
        def default(ex, st, i, a, g, w): return struct(ex.p, "zkp_stark::channel::ProverChannel", coin=Opq("coin", 0), proof=mkvec(ex, st, BYTES))
        def init(ex, st, i, a, g, w):
            event(st, "init", elems(ex, st, a[1]))
            return ()
        def interp(ex, st, i, a, g, w):
            ex.obligations.append((list(st.pc), X.boolc(a[0] == w["table"]), "the given table"))
            return mkvec(ex, st, [Opq("poly", "t%d" % j) for j in range(cols)])
        def lde(ex, st, i, a, g, w):
            ex.obligations.append((list(st.pc), X.eq(a[1], u(blow)), "the blowup of the constraints"))
            return Opq("lde", ex.load(st, a[0]).x)
        def commit(ex, st, i, a, g, w):
            v = a[0]
            while isinstance(v, Ptr): v = ex.load(st, v)
            ids = tuple(q.x for q in vecval(st, v[0]))
            return fork("commit fails %s" % (ids,), (Opq("commitment", ids), Opq("tree", ids)))
        def wcom(ex, st, i, a, g, w):
            event(st, "root", ex.load(st, a[1]).x)
            return ()
        def gcp(ex, st, i, a, g, w):
            v = a[0]
            while isinstance(v, Ptr): v = ex.load(st, v)
            co = elems(ex, st, a[2])
            ex.obligations.append((list(st.pc), X.boolc(isinstance(v, Opq) and v.kind == "leaves" and v.x == tuple("t%d" % j for j in range(cols)) and len(co) == 2 * ncon and all(x.x.same(symb(w, "draw%d" % j)) for j, x in enumerate(co))
                                                        and a[3].const and a[3].val == rows), "the constraint polynomials of the committed trace with the drawn coefficients"))
            return mkvec(ex, st, [Opq("poly", "c%d" % j) for j in range(D)])
        def leaves_(ex, st, i, a, g, w): return Ptr(ex.newcell(st, Opq("leaves", ex.load(st, a[0]).x)), ())
        def targs(ex, st, i, a, g, w): return mkvec(ex, st, [(u(0), u(0))])
        def comb(ex, st, i, a, g, w):
            t, ar, cp = elems(ex, st, a[1]), elems(ex, st, a[2]), elems(ex, st, a[3])
            event(st, "compose", tuple(x.x for x in t), tuple(mkey(k) for k in ar), tuple(x.x for x in cp))
            return Opq("poly", "composition")
        def layering(ex, st, i, a, g, w):
            event(st, "layers", a[0].x if isinstance(a[0], Opq) else "?", tuple(e.val for e in elems(ex, st, a[2])), a[3].val)
            return fork("layering fails", mkvec(ex, st, [Opq("tree", "fri")]))
        def seed(ex, st, i, a, g, w):
            event(st, "powseed")
            return Opq("seed", 0)
        def diff(ex, st, i, a, g, w): return Opq("challenge", a[1])
        def solve(ex, st, i, a, g, w):
            return Opq("response", ex.load(st, a[0]).x)
        def pver(ex, st, i, a, g, w): return X.TRUE
        def wresp(ex, st, i, a, g, w):
            event(st, "response", a[1].x if isinstance(a[1], Opq) else "?")
            return ()
        def indices(ex, st, i, a, g, w):
            ex.obligations.append((list(st.pc), X.band(X.eq(a[0], X.var("num_queries", 64)), X.eq(a[1], X.c((rows * blow).bit_length() - 1, 32))), "as many queries as required, each of the evaluation domain"))
            event(st, "indices")
            return mkvec(ex, st, [u(q) for q in qs])
        def leaf(ex, st, i, a, g, w): return Opq("leaf", (ex.load(st, a[0]).x, a[1].val))
        def wleaf(ex, st, i, a, g, w):
            event(st, "leaf", a[1].x if isinstance(a[1], Opq) else "?")
            return ()
        def open_(ex, st, i, a, g, w):
            k = (ex.load(st, a[0]).x, tuple(e.val for e in elems(ex, st, a[1])))
            return fork("open fails %s" % (k,), Opq("opening", k))
        def decom(ex, st, i, a, g, w):
            event(st, "fri", tuple(x.x for x in elems(ex, st, a[0])), tuple(e.val for e in elems(ex, st, a[1])))
            return fork("decommit fails", ())
        def clone(ex, st, i, a, g, w):
            v = ex.load(st, a[0])
            return v
        def ver(ex, st, i, a, g, w):
            v = ex.load(st, a[0])
            p = ex.load(st, a[1])
            bs = vecval(st, p[0])
            ex.obligations.append((list(st.pc), X.boolc(v == w["cv"] and list(bs) == BYTES), "the returned proof is verified against the given constraints"))
            event(st, "verify")
            return fork("verify fails", (), En(1, ()))
        def clen(ex, st, i, a, g, w): return u(ncon)
        def mk(g):
            w = {"g": g, "syms": {}}
            def f(env, ats):
                w["cv"] = struct(env.prog, "zkp_stark::Constraints", channel_seed=env.vals.vec(SEED), trace_nrows=u(rows), trace_ncolumns=u(cols), expressions=Opq("expressions", 0), blowup=u(blow),
                                 pow_bits=X.var("pow_bits", 64), num_queries=X.var("num_queries", 64), fri_layout=env.vals.vec([u(k) for k in lay]), claim_polynomials=Opq("claims", 0))
                w["table"] = env.vals.ref(struct(env.prog, "zkp_stark::TraceTable", trace_length=u(rows), num_columns=u(cols), values=Opq("values", 0)))
                return [env.vals.ref(w["cv"]), w["table"]]
            return f, w
        T, Cn = tuple("t%d" % j for j in range(cols)), tuple("c%d" % j for j in range(D))
        def post(s, a, r, L, w):
            if r.v != 0: return [("an error only for a reason", X.bnot(conj([X.bnot(X.var(n, 0)) for n in ["commit fails %s" % (T,), "commit fails %s" % (Cn,), "layering fails", "decommit fails", "verify fails"]
                                                                              + ["open fails %s" % ((t, tuple(qs)),) for t in (T, Cn)]])))]
            want = [("init", tuple(SEED)), ("root", T)] + [("draw", j) for j in range(2 * ncon)] + [("root", Cn), ("compose", T, ((0, 0),), Cn), ("layers", "composition", tuple(lay), blow), ("powseed",), ("response", X.var("pow_bits", 64)), ("indices",)]
            for t in (T, Cn): want += [("leaf", (t, q)) for q in qs] + [("proof", (t, tuple(qs)))]
            want += [("fri", ("fri",), tuple(qs)), ("verify",)]
            return [("the messages in order", X.boolc(list(s.ghost.get("ev", ())) == want)), ("the returned proof is the verified one", X.boolc(list(vecval(s, r.f[0][0])) == BYTES)),
                    ("only if verified", X.bnot(X.var("verify fails", 0)))]
        P, K, PL = r"^zkp_stark::prover::", r"^zkp_stark::Constraints::", r"^zkp_merkle_tree::Tree::<zkp_stark::prover::PolyLDE>::"
        more = [(r"^<zkp_stark::channel::ProverChannel as std::default::Default>::default$", default), (r"^zkp_stark::channel::ProverChannel::initialize$", init), (r"^zkp_stark::TraceTable::interpolate$", interp),
                (r"^zkp_stark::DensePolynomial::low_degree_extension$", lde), (r"^<zkp_stark::prover::PolyLDE as zkp_merkle_tree::VectorCommitment>::commit$", commit),
                (PCH + r"Writable<&zkp_merkle_tree::Commitment>>::write$", wcom), (PCH + r"RandomGenerator<%s>>::get_random$" % FET, draw), (P + "get_constraint_polynomials$", gcp), (PL + "leaves$", leaves_),
                (K + "trace_arguments$", targs), (P + "oods_combine$", comb), (P + "perform_fri_layering$", layering), (PCH + r"RandomGenerator<zkp_stark::proof_of_work::ChallengeSeed>>::get_random$", seed),
                (r"^zkp_stark::proof_of_work::ChallengeSeed::with_difficulty$", diff), (r"^zkp_stark::proof_of_work::Challenge::solve$", solve), (r"^zkp_stark::proof_of_work::Challenge::verify$", pver),
                (PCH + r"Writable<zkp_stark::proof_of_work::Response>>::write$", wresp), (P + "get_indices$", indices), (PL + "leaf$", leaf), (PCH + r"Writable<std::vec::Vec<zkp_u256::U256>>>::write$", wleaf),
                (PL + "open$", open_), (PCH + r"Writable<&zkp_merkle_tree::Proof>>::write$", wproof), (P + "decommit_fri_layers_and_trees$", decom), (r"^<zkp_stark::Constraints as std::clone::Clone>::clone$", clone),
                (r"^zkp_stark::verify$", ver), (K + "len$", clen), (r"^zkp_stark::DensePolynomial::degree$", lambda ex, st, i, a, g, w: u(0))] + quiet
        falg(c, r"^zkp_stark::prove$", "prover: %d rows, %d columns, blowup %d, layout %s, queries %s, degree %d, %d constraints" % (rows, cols, blow, lay, qs, D, ncon), mk, post, op="s_prove", more=more)
    for p in ((2, 1, 2, [1], [1], 1, 1), (4, 2, 2, [1, 1], [0, 6], 2, 2), (8, 3, 4, [2, 1], [3, 3, 31], 4, 3), (16, 2, 8, [2, 2], [1, 2, 5, 100], 2, 1), (16, 10, 2, [1, 1, 1, 1], [0, 30], 2, 2), (32, 1, 4, [4], list(range(0, 128, 5)), 2, 12), (64, 1, 16, [1] * 6, [7, 1000], 8, 1)): whole(*p)

# ---------------------------------------------------------------- S08
def s08(c):
    """Composition over arbitrary components.  A component is given by the contract of its trait:
    a number of polynomials, a size, a list of constraints, and a trace, which is a sequence of
    writes within its own bounds; the combinators are proved to place every write and every
    cell of every constraint where the layout says."""
    CO = r"zkp_stark::component::Component"
    G = "ops_crypto::Gen"
    KI = {"fold": r"zkp_stark::component::Fold<%s>" % G, "horizontal": r"zkp_stark::component::Horizontal<%s, %s>" % (G, G), "vertical": r"zkp_stark::component::Vertical<%s>" % G}
    OP = {"fold": "k_fold", "horizontal": "k_horiz", "vertical": "k_vert"}
    def fn(k, f): return r"^<%s as %s>::%s$" % (KI[k], CO, f)
    small = lambda *vs: [X.ult(v, u(1 << 31)) for v in vs]
    NL, NR, SL, SR = (X.var(q, 64) for q in ("columns", "columns of the right", "rows", "rows of the right"))
    part = lambda q: Opq("part", q)
    def comp_(env, k, x):
        T = {"fold": "Fold", "horizontal": "Horizontal", "vertical": "Vertical"}[k]
        f = {"fold": lambda: {"element": part("l"), "folds": u(x)}, "horizontal": lambda: {"left": part("l"), "right": part("r")}, "vertical": lambda: {"element": part("l"), "size": u(x)}}[k]()
        for t in env.prog.types:
            q = env.prog.kind(t)
            if q[0] == "adt" and re.match(r"zkp_stark::component::%s<(ops_crypto::)?Gen(, (ops_crypto::)?Gen)?>$" % T, env.prog.tname(t)):
                fs = [y[0] for y in q[3][0]["fields"]]
                if sorted(fs) != sorted(f): raise Unsupported("fields of " + T)
                return tuple(f[y] for y in fs)
        raise Unsupported("no type " + T)
    def who(ex, st, a):
        v = deref(ex, st, a[0])
        if not (isinstance(v, Opq) and v.kind == "part"): raise Unsupported("component %r" % (v,))
        return v.x
    def c_np(ex, st, i, a, g, w): return {"l": NL, "r": NR}[who(ex, st, a)]
    def c_sz(ex, st, i, a, g, w): return {"l": SL, "r": w.get("sr", SL)}[who(ex, st, a)]
    def c_claim(ex, st, i, a, g, w): return ()
    def c_cons(ex, st, i, a, g, w): return mkvec(ex, st, [w["build"](t) for t in w["cons"][who(ex, st, a)]])
    def wr(ex, inst):
        """the write method of the writer this trace is given"""
        P = inst["name"][inst["name"].index("::trace::<") + len("::trace::<"):-1]
        for k, x in enumerate(ex.p.insts):
            if x["name"] == "<%s as zkp_stark::component::PolynomialWriter>::write" % P: return k
        raise Unsupported("writer")
    def c_trace(ex, st, i, a, g, w):
        q = who(ex, st, a)
        wit = ex.load(st, a[2])
        tag = wit.x if isinstance(wit, Opq) else "?"
        ex.obligations.append((list(st.pc), X.boolc(isinstance(wit, Opq) and wit.kind == "witness"), "a part is traced with its own witness"))
        k = wr(ex, i)
        n = st.ghost.get("writes", 0)
        st.ghost["writes"] = n + 2
        st.ghost["given"] = st.ghost.get("given", ()) + ((q, tag, n), (q, tag, n + 1))
        return Seq([(k, [a[1], X.var("p%d" % j, 64), X.var("l%d" % j, 64), fe(symb(w, "v%d" % j))]) for j in (n, n + 1)])
    def c_write(ex, st, i, a, g, w):
        event(st, "write", a[1], a[2], a[3].x if isinstance(a[3], Opq) else None)
        return ()
    base = [(r"^<%s as %s>::num_polynomials$" % (G, CO), c_np), (r"^<%s as %s>::polynomial_size$" % (G, CO), c_sz), (r"^<%s as %s>::claim$" % (G, CO), c_claim), (r"^<%s as %s>::constraints$" % (G, CO), c_cons),
            (r"^<%s as %s>::trace::<" % (G, CO), c_trace), (r"^<zkp_stark::TraceTable as zkp_stark::component::PolynomialWriter>::write$", c_write)]
    def rv(k, e):
        """the low k bits of e reversed"""
        r = u(0)
        for b in range(k): r = X.bor(r, X.shl(X.band(X.lshr(e, u(b)), u(1)), u(k - 1 - b)))
        return r
    def low(k, e): return X.band(e, u((1 << k) - 1))
    def place(k, x, q, tag, p, l):
        """where the layout puts cell (p, l) of a part"""
        if k == "fold": return X.lshr(p, u(x)), X.add(X.mul(l, u(1 << x)), rv(x, low(x, p)))
        if k == "horizontal": return (p, l) if q == "l" else (X.add(p, NL), l)
        return p, X.add(l, X.mul(u(tag), SL))
    # ---- sizes
    def sizes(k, x):
        wp, ws = {"fold": (X.lshr(X.add(NL, u((1 << x) - 1)), u(x)) if k == "fold" else None, X.mul(SL, u(1 << x)) if k == "fold" else None), "horizontal": (X.add(NL, NR), SL), "vertical": (NL, X.mul(SL, u(x or 1)))}[k]
        nm = "%s%s of arbitrary components: " % (k, "" if x is None else " %d" % x)
        mk = lambda g: ((lambda env, ats: [env.vals.ref(comp_(env, k, x))]), {"sr": SR})
        falg(c, fn(k, "num_polynomials"), nm + "number of polynomials", mk, lambda s, a, r, L, w: [("columns", X.eq(r, wp))], op=OP[k], more=base, pre=lambda *a: small(NL, NR, SL, SR))
        kw = {"panics": lambda *a: X.bnot(X.eq(SL, SR))} if k == "horizontal" else {}
        if k == "horizontal": kw["more"] = base + [(r"^core::panicking::assert_failed::<", lambda ex, st, i, a, g, w: NotImplemented)]
        else: kw["more"] = base
        falg(c, fn(k, "polynomial_size"), nm + "size", mk, lambda s, a, r, L, w: [("rows", X.eq(r, ws))], op=OP[k], pre=lambda *a: small(NL, NR, SL, SR), **kw)
    cases = [("fold", x) for x in range(6)] + [("horizontal", None)] + [("vertical", x) for x in (1, 2, 4, 8, 64)]
    for k, x in cases: sizes(k, x)
    # ---- traces: any write of any part
    def trace(k, x):
        parts = [("l", 0)] if k == "fold" else [("l", "a"), ("r", "b")] if k == "horizontal" else [("l", i) for i in range(x)]
        W = [part_ for part_ in parts for _ in (0, 1)]
        def mk(g):
            w = {"g": g, "syms": {}}
            for j in range(len(W)): symb(w, "v%d" % j)
            def f(env, ats):
                wt = lambda t: Opq("witness", t)
                wit = wt(0) if k == "fold" else (wt("a"), wt("b")) if k == "horizontal" else env.vals.vec([wt(i) for i in range(x)])
                return [env.vals.ref(comp_(env, k, x)), env.vals.ref(Opq("table", 0)), env.vals.ref(wit)]
            return f, w
        def pre(*a):
            out = small(NL, NR, SL)
            for j, (q, _) in enumerate(W): out += [X.ult(X.var("p%d" % j, 64), NL if q == "l" else NR), X.ult(X.var("l%d" % j, 64), SL)]
            return out
        def post(s, a, r, L, w):
            ev = [e for e in s.ghost.get("ev", ()) if e[0] == "write"]
            giv = s.ghost.get("given", ())
            gs = [("every part is traced once, with its own witness", X.boolc(sorted((str(q), str(t)) for q, t, _ in giv) == sorted((str(q), str(t)) for q, t in W))), ("every write arrives once", X.boolc(len(ev) == len(W)))]
            for (q, t, j), e in zip(giv, ev):
                p, l = place(k, x, q, t, X.var("p%d" % j, 64), X.var("l%d" % j, 64))
                gs += [("column of write %d" % j, X.eq(e[1], p)), ("row of write %d" % j, X.eq(e[2], l)), ("value of write %d" % j, X.boolc(e[3] is not None and e[3].same(symb(w, "v%d" % j))))]
            return gs
        falg(c, fn(k, r"trace::<zkp_stark::TraceTable>"), "%s%s of arbitrary components: every write" % (k, "" if x is None else " %d" % x), mk, post, op=OP[k], more=base, pre=pre)
    for k, x in cases:
        if x != 64: trace(k, x)
    # ---- cells of constraints: any cell
    OFF = X.var("o", 64)
    def cell(k, x):
        q = "r" if k == "horizontal" else "l"
        def mk(g):
            w = {"cons": {"l": ["l"], "r": ["r"]}}
            def f(env, ats):
                T = Tree(env)
                w["names"] = T.v
                w["build"] = lambda t: T.node("Trace", X.var("col_" + t, 64), X.var("off_" + t, 64))
                return [env.vals.ref(comp_(env, k, x)), env.vals.ref(env.vals.vec([()] * (x or 0)) if k == "vertical" else ((), ()) if k == "horizontal" else ())]
            return f, w
        def pre(*a): return small(NL, NR) + [X.ult(X.var("col_" + t, 64), n) for t, n in (("l", NL), ("r", NR))] + [X.ult(X.add(X.var("off_" + t, 64), u(1 << 31)), u(1 << 32)) for t in "lr"]
        def post(s, a, r, L, w):
            es = vecval(s, r)
            want = {"fold": ["l"], "vertical": ["l"], "horizontal": ["l", "r"]}[k]
            gs = [("number of constraints", X.boolc(len(es) == len(want)))]
            for t, e in zip(want, es):
                i, o = X.var("col_" + t, 64), X.var("off_" + t, 64)
                wi, wo = i, o
                if k == "fold": wi, wo = X.lshr(i, u(x)), X.add(X.mul(o, u(1 << x)), rv(x, low(x, i)))
                if k == "horizontal" and t == "r": wi = X.add(i, NL)
                ok = isinstance(e, En) and w["names"][e.v] == "Trace"
                gs += [("a cell stays a cell", X.boolc(ok))] + ([("column", X.eq(e.f[0], wi)), ("row offset", X.eq(e.f[1], wo))] if ok else [])
            return gs
        falg(c, fn(k, "constraints"), "%s%s of arbitrary components: any cell of a constraint" % (k, "" if x is None else " %d" % x), mk, post, op=OP[k], more=base, pre=pre)
    for k, x in cases: cell(k, x)
    # ---- whole constraints: every operator over cells, by value
    TREES = ["x", ("c", 0), ("t", 0, 0), ("t", 3, -1), ("+", ("t", 1, 1), ("*", "x", ("c", 1))), ("*", ("-", ("t", 2, 2)), ("i", ("+", ("e", "x", 4), ("k", PRIME - 1)))), ("e", ("+", ("t", 4, -2), "x"), 3),
             ("p", 4, ("e", "x", 2)), ("*", ("q", 0, 3, "x"), ("t", 5, 0)), ("i", ("*", ("t", 6, 1), ("p", 2, "x"))), ("-", ("-", ("e", ("i", ("t", 7, 0)), 2))), ("+", ("p", 1, ("t", 1, 0)), ("q", 1, 2, ("+", "x", ("t", 2, -1))))]
    def whole(k, x, cols, L_, R_):
        def mk(g):
            w = {"g": g, "c": symvec(g, "c", 3), "p": symvec(g, "p", 4), "uf": Uf(g), "x": g.sym("x"), "cons": {"l": L_, "r": R_}}
            def f(env, ats):
                T = Tree(env)
                w["names"] = T.v
                tr_ = {repr(t): tbuild(T, t, w) for t in L_ + R_}
                w["build"] = lambda t: tr_[repr(t)]
                return [env.vals.ref(comp_(env, k, x)), env.vals.ref(env.vals.vec([()] * (x or 0)) if k == "vertical" else ((), ()) if k == "horizontal" else ())]
            return f, w
        def post(s, a, r, L, w):
            es, g = vecval(s, r), w["g"]
            tcell = lambda i, o: w["uf"]("cell", i, o)
            if k == "fold": cl = lambda i, o: tcell(i >> x, (o << x) + brv(1 << x, i % (1 << x)))
            else: cl = tcell
            X_ = w["x"] ** x if k == "vertical" else w["x"]
            want = [tvalue(t, w, X_, cl) for t in L_] + ([tvalue(t, w, w["x"], lambda i, o: tcell(i + cols, o)) for t in R_] if k == "horizontal" else [])
            got = [rvalue(s, e, w["names"], w, w["x"], tcell) for e in es]
            left = list(got)
            for t in want:
                for q in left:
                    if q.same(t):
                        left.remove(q)
                        break
            return [("number of constraints", X.boolc(len(got) == len(want))), ("each constraint of the parts, on its cells", X.boolc(not left))]
        falg(c, fn(k, "constraints"), "%s%s: %d constraints of %d columns" % (k, "" if x is None else " %d" % x, len(L_) + (len(R_) if k == "horizontal" else 0), cols), mk, post, op=OP[k],
             more=[(r"^<%s as %s>::num_polynomials$" % (G, CO), lambda ex, st, i, a, g, w: u(cols))] + base)
    for k, x in cases:
        if x != 64: whole(k, x, 8, TREES, [])
    for x in (16, 32, 64): whole("vertical", x, 21, TREES, [])
    for x in (1, 2, 3, 4, 5, 6): whole("fold", x, 70, TREES + [("+", ("t", 69, -3), ("t", 63, 5)), ("t", 64, -1), ("*", ("t", 33, -2), ("t", 32, 0))], [])
    whole("horizontal", None, 40, TREES[4:], TREES[2:] + [("t", 31, -7)])
    whole("horizontal", None, 8, TREES[:4], TREES)
    whole("horizontal", None, 5, [], TREES)
    # ---- whole trace tables of real parts, every value symbolic
    def table(k, x, rows, cols, rc=0):
        gen = lambda env, r, q: struct_gen(env, r, q)
        def struct_gen(env, r, q):
            for t in env.prog.types:
                y = env.prog.kind(t)
                if y[0] == "adt" and re.match(r"(ops_crypto::)?Gen$", env.prog.tname(t)): return tuple({"rows": u(r), "cols": u(q), "ex": env.vals.vec([])}[z[0]] for z in y[3][0]["fields"])
            raise Unsupported("no Gen")
        def mk(g):
            n = x if k == "vertical" else 1
            w = {"l": [symvec(g, "l%d_" % i, rows * cols) for i in range(n)], "r": symvec(g, "r", rows * rc)}
            def f(env, ats):
                cv = comp_(env, k, x)
                put = lambda v: gen(env, rows, cols) if isinstance(v, Opq) and v.x == "l" else gen(env, rows, rc) if isinstance(v, Opq) else v
                wv = [VV(env, q) for q in w["l"]]
                wit = wv[0] if k == "fold" else (wv[0], VV(env, w["r"])) if k == "horizontal" else env.vals.vec(wv)
                return [env.vals.ref(tuple(put(v) for v in cv)), env.vals.ref(wit)]
            return f, w
        def post(s, a, r, L, w):
            want, l = {}, w["l"]
            for j, q in enumerate(l):
                for i in range(rows):
                    for p in range(cols):
                        at = {"fold": (i << (x or 0)) + brv(1 << (x or 0), p % (1 << (x or 0))), "horizontal": i, "vertical": j * rows + i}[k]
                        want[at, p >> x if k == "fold" else p] = q[i * cols + p]
            for i in range(rows):
                for p in range(rc): want[i, cols + p] = w["r"][i * rc + p]
            H = {"fold": rows << (x or 0), "horizontal": rows, "vertical": rows * (x or 1)}[k]
            W = {"fold": -(-cols // (1 << (x or 0))), "horizontal": cols + rc, "vertical": cols}[k]
            m = [f for f in r if isinstance(f, tuple)]
            if len(m) != 1: raise Unsupported("trace table")
            es = mmapval(s, m[0])
            gs = [("size", X.boolc(len(es) == H * W))]
            for i in range(H):
                for p in range(W): gs.append(("row %d column %d" % (i, p), L.eq(s, es[i * W + p], want.get((i, p), L.ring.const(0)))))
            return gs
        falg(c, fn(k, "trace_table"), "%s%s: trace table of %d rows, %d%s columns" % (k, "" if x is None else " %d" % x, rows, cols, " and %d" % rc if k == "horizontal" else ""), mk, post, op=OP[k])
    for x, rows, cols in ((0, 2, 3), (1, 1, 1), (1, 2, 3), (2, 2, 5), (2, 4, 4), (3, 1, 9), (3, 2, 8), (4, 2, 18), (5, 1, 33)): table("fold", x, rows, cols)
    for rows, cols, rc in ((1, 1, 1), (2, 3, 2), (4, 1, 3), (2, 0, 2), (2, 2, 0), (8, 7, 5)): table("horizontal", None, rows, cols, rc)
    for x, rows, cols in ((1, 2, 2), (2, 2, 3), (4, 1, 2), (4, 2, 1), (8, 2, 2), (16, 1, 3), (32, 2, 2)): table("vertical", x, rows, cols)
    # ---- coordinates
    RO, CL_ = X.var("row", 64), X.var("column", 64)
    for x in range(7):
        falg(c, r"^zkp_stark::component::Fold::<%s>::map_up$" % G, "fold %d: coordinates of a cell" % x, lambda g, x=x: ((lambda env, ats: [env.vals.ref(comp_(env, "fold", x)), RO, CL_]), {}),
             lambda s, a, r, L, w, x=x: [("row", X.eq(r[0], X.add(X.mul(RO, u(1 << x)), rv(x, low(x, CL_))))), ("column", X.eq(r[1], X.lshr(CL_, u(x))))], op="k_foldup", more=base, pre=lambda *a: small(RO, CL_))
