"""Loop invariants.  A cut at the header of a loop: on arrival from outside the
invariant is an obligation, the variables the loop changes are replaced by
arbitrary values satisfying it, one arbitrary iteration is executed from the
real body, and on the way back the invariant is an obligation again."""
from . import expr as X
from .exe import UNINIT, Unsupported
from .merge import succs, liveness, RET, _pl

def loops(body):
    """outermost loops: [(header, blocks)]; loops with several entries are refused"""
    r = body.get("_loops")
    if r is not None: return r
    n = len(body["blocks"])
    S = [[s for s in succs(b[1]) if s != RET] for b in body["blocks"]]
    idx, low, st, on, out, cnt = {}, {}, [], set(), [], [0]
    def dfs(v):
        work = [(v, iter(S[v]))]
        idx[v] = low[v] = cnt[0]; cnt[0] += 1
        st.append(v); on.add(v)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]; cnt[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(S[w])))
                    break
                if w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop(); on.discard(w); c.add(w)
                        if w == v: break
                    if len(c) > 1 or v in S[v]: out.append(c)
    dfs(0)
    res = []
    for c in out:
        ent = {s for b in idx if b not in c for s in S[b] if s in c}
        if len(ent) != 1: raise Unsupported("loop with several entries")
        res.append((ent.pop(), c))
    body["_loops"] = res
    return res
def changed(body, blocks):
    """locals assigned in the blocks, or borrowed mutably anywhere"""
    m = set()
    for b, (ss, t, _) in enumerate(body["blocks"]):
        for s in ss:
            if s[0] == "=":
                if b in blocks and not any(q[0] == "*" for q in s[1][1]): m.add(s[1][0])
                if s[2][0] in ("ref", "addr") and "Mut" in str(s[2][1]) and not any(q[0] == "*" for q in s[2][2][1]): m.add(s[2][2][0])
            elif s[0] == "sd" and b in blocks: m.add(s[1][0])
        if b in blocks and t[0] == "call" and not any(q[0] == "*" for q in t[3][1]): m.add(t[3][0])
    return m
class Cut:
    """inv(ex, st, vars) with vars = {local: (type, value)} of the variables the loop carries:
    begin(ex, st, vars) -> (goals, {local: new value}, assumptions)
    again(ex, st, vars) -> goals"""
    def __init__(self, begin, again): self.begin, self.again = begin, again
def install(ex, inst, cut, which=0):
    body = ex.p.insts[inst]["body"]
    ls = sorted(loops(body), key=lambda x: x[0])
    if len(ls) <= which: raise Unsupported("no such loop")
    h, blocks = ls[which]
    ex.loop_inv[inst, h] = (cut, blocks, changed(body, blocks))
    ex.cut_state = {}
def at_block(ex, st, fr):
    q = ex.loop_inv.get((fr.inst["i"], fr.bb))
    if q is None: return None
    cut, blocks, mod = q
    key = ("cut", fr.inst["i"], fr.bb, fr.base)
    live, addr = liveness(fr.body)
    vs = {}
    for i in mod:
        v = st.cells.get(fr.base + i, UNINIT)
        if v is UNINIT or not (i in live[fr.bb] or i in addr): continue
        vs[i] = (ex.p.tname(fr.body["locals"][i]), v)
    if key not in st.ghost:
        goals, new, assume = cut.begin(ex, st, vs)
        for lab, g in goals: ex.obligations.append((list(st.pc), g, "invariant on entry: " + lab))
        if set(new) != set(vs): raise Unsupported("loop variables %s" % sorted(t for t, _ in vs.values()))
        for i, v in new.items(): st.cells[fr.base + i] = v
        st.pc.extend(assume)
        st.ghost[key] = tuple(sorted(vs))
        ex.cut_state[key] = dict(st.cells)
        return None
    carried = st.ghost[key]
    nl = len(fr.body["locals"])
    for k, v in ex.cut_state[key].items():      # frame condition: nothing else changed
        if not fr.base <= k < fr.base + nl and st.cells.get(k) is not v: raise Unsupported("the loop writes through a pointer")
    goals = cut.again(ex, st, {i: vs[i] for i in carried if i in vs})
    for lab, g in goals: ex.obligations.append((list(st.pc), g, "invariant kept: " + lab))
    return []
