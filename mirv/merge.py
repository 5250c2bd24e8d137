"""Control-flow facts for merging states at the join of a branch: immediate
post-dominators and live locals of a MIR body."""
RET = -1
def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [b for _, b in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "assert": return [t[4]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "return": return [RET]
    return []
def ipdoms(body):
    """block -> immediate post-dominator (RET: the return), ignoring blocks that never return"""
    r = body.get("_ipdom")
    if r is not None: return r
    n = len(body["blocks"])
    S = {b: succs(body["blocks"][b][1]) for b in range(n)}
    # blocks that can return
    good = {RET}
    ch = True
    while ch:
        ch = False
        for b in range(n):
            if b not in good and any(s in good for s in S[b]):
                good.add(b)
                ch = True
    ids = [b for b in range(n) if b in good]
    full = (1 << (n + 1)) - 1
    bit = lambda b: 1 << (b + 1)
    pd = {b: full for b in ids}
    pd[RET] = bit(RET)
    ch = True
    while ch:
        ch = False
        for b in reversed(ids):
            m = full
            for s in S[b]:
                if s in good: m &= pd[s]
            m |= bit(b)
            if m != pd[b]:
                pd[b] = m
                ch = True
    out = {}
    for b in ids:
        # the nearest: the one post-dominated by all other strict post-dominators
        c = [x for x in ids + [RET] if x != b and pd[b] & bit(x)]
        best = RET
        for x in c:
            if bin(pd[x]).count("1") > (bin(pd[best]).count("1") if best is not None else 0): best = x
        out[b] = best
    body["_ipdom"] = out
    return out

def _pl(p, use):
    use.add(p[0])
    for q in p[1]:
        if q[0] == "[": use.add(q[1])
def _op(o, use):
    if o[0] in ("p", "m"): _pl(o[1], use)
def _rv(rv, use, addr):
    k = rv[0]
    if k in ("ref", "addr"):
        _pl(rv[2], use)
        if not any(q[0] == "*" for q in rv[2][1]): addr.add(rv[2][0])
    elif k == "use": _op(rv[1], use)
    elif k in ("bin", "chk"): _op(rv[2], use); _op(rv[3], use)
    elif k == "un": _op(rv[2], use)
    elif k == "cast": _op(rv[2], use)
    elif k in ("discr", "len"): _pl(rv[1], use)
    elif k == "repeat": _op(rv[1], use)
    elif k == "agg":
        for o in rv[2]: _op(o, use)
def liveness(body):
    """per block: set of locals live at its start; and the address-taken locals"""
    r = body.get("_live")
    if r is not None: return r
    n = len(body["blocks"])
    gen, kill, addr = [], [], set()
    def dest(p, g, k):
        u = set()
        if p[1]:
            _pl(p, u)
            g |= (u - k)
        else: k.add(p[0])
    for st, t, _ in body["blocks"]:
        g, k = set(), set()
        def uses(u): g.update(u - k)
        for s in st:
            u = set()
            if s[0] == "=":
                _rv(s[2], u, addr)
                uses(u)
                dest(s[1], g, k)
            elif s[0] == "sd":
                _pl(s[1], u); uses(u)
            elif s[0] == "cno":
                for o in s[1:4]: _op(o, u)
                uses(u)
        u = set()
        if t[0] in ("switch", "assert"): _op(t[1], u)
        elif t[0] == "drop":
            _pl(t[1], u); addr.add(t[1][0])
        elif t[0] == "call":
            _op(t[1], u)
            for o in t[2]: _op(o, u)
        elif t[0] == "return": u.add(0)
        uses(u)
        if t[0] == "call": dest(t[3], g, k)
        gen.append(g); kill.append(k)
    live = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in succs(body["blocks"][b][1]):
                if s != RET: o |= live[s]
            l = gen[b] | (o - kill[b])
            if l != live[b]:
                live[b] = l
                ch = True
    body["_live"] = (live, addr)
    return live, addr
