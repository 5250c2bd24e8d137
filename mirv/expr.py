"""Hash-consed expression DAG over fixed-width integers and booleans.

Every node carries an unsigned interval [lo, hi]; w == 0 marks a boolean.
Constants are folded, so running the executor on concrete inputs makes it a
plain interpreter."""
import sys
sys.setrecursionlimit(100000)

class E:
    __slots__ = ("op", "args", "w", "lo", "hi", "id", "tz")
    def __repr__(self):
        return show(self)
    @property
    def const(self):
        return self.op == "c"
    @property
    def val(self):
        return self.args[0]
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_table = {}
_n = 0

def mk(op, args, w, lo=None, hi=None, tz=0):
    global _n
    key = (op, w) + tuple((a.id if isinstance(a, E) else ("v", a)) for a in args)
    if op == "var":
        key += (lo, hi)
    elif lo is not None and lo == hi and op != "c":
        return c(lo, w)
    e = _table.get(key)
    if e is not None:
        return e
    e = E()
    e.op = op
    e.args = args
    e.w = w
    e.lo = 0 if lo is None else lo
    e.hi = ((1 << w) - 1 if w else 1) if hi is None else hi
    e.tz = tz
    e.id = _n
    _n += 1
    _table[key] = e
    return e

def c(v, w):
    v &= (1 << w) - 1 if w else 1
    tz = w if v == 0 else (v & -v).bit_length() - 1
    return mk("c", (v,), w, v, v, tz)

TRUE = c(1, 0)
FALSE = c(0, 0)
_fresh = 0
def boolc(b):
    return TRUE if b else FALSE
def var(name, w, lo=None, hi=None):
    if lo is not None and lo == hi:
        return c(lo, w)
    return mk("var", (name,), w, lo, hi)
def fresh(name, w, lo=None, hi=None):
    global _fresh
    _fresh += 1
    return var("%s!%d" % (name, _fresh), w, lo, hi)

def show(e, depth=6):
    if e.op == "c":
        return str(e.val) if e.w else ("T" if e.val else "F")
    if e.op == "var":
        return e.args[0]
    if depth == 0:
        return "..."
    return "(%s%s %s)" % (e.op, e.w, " ".join(show(a, depth - 1) if isinstance(a, E) else str(a) for a in e.args))

def mask(w):
    return (1 << w) - 1
def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v

# ---- arithmetic (wrapping, width w) ----
def add(a, b):
    w = a.w
    if a.const and b.const:
        return c(a.val + b.val, w)
    if a.const and a.val == 0:
        return b
    if b.const and b.val == 0:
        return a
    if a.id > b.id and not b.const or a.const:
        a, b = b, a
    # (x + c1) + c2
    if b.const and a.op == "add" and a.args[1].const:
        return add(a.args[0], c(a.args[1].val + b.val, w))
    if b.const and a.op == "sub" and a.args[1].const:
        return add(a.args[0], c(b.val - a.args[1].val, w)) if b.val >= a.args[1].val else sub(a.args[0], c(a.args[1].val - b.val, w))
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if hi >> w:
        if lo >> w and (lo >> w) == (hi >> w):
            lo, hi = lo & mask(w), hi & mask(w)
        else:
            lo, hi = 0, mask(w)
    return mk("add", (a, b), w, lo, hi, min(a.tz, b.tz))

def sub(a, b):
    w = a.w
    if a.const and b.const:
        return c(a.val - b.val, w)
    if b.const and b.val == 0:
        return a
    if a is b:
        return c(0, w)
    if b.const and a.op == "add" and a.args[1].const:
        return add(a.args[0], c(a.args[1].val - b.val, w))
    if a.const and b.op == "sub" and b.args[0].const:
        return add(b.args[1], c(a.val - b.args[0].val, w))
    if a.op == "add" and a.args[0] is b:
        return a.args[1]
    if a.op == "add" and a.args[1] is b:
        return a.args[0]
    lo, hi = a.lo - b.hi, a.hi - b.lo
    if lo < 0:
        if hi < 0:
            lo, hi = lo + (1 << w), hi + (1 << w)
        else:
            lo, hi = 0, mask(w)
    return mk("sub", (a, b), w, lo, hi, min(a.tz, b.tz))

def mul(a, b):
    w = a.w
    if a.const and b.const:
        return c(a.val * b.val, w)
    if a.const:
        a, b = b, a
    if b.const:
        if b.val == 0:
            return b
        if b.val == 1:
            return a
    elif a.id > b.id:
        a, b = b, a
    lo, hi = a.lo * b.lo, a.hi * b.hi
    if hi >> w:
        lo, hi = 0, mask(w)
    return mk("mul", (a, b), w, lo, hi, min(w, a.tz + b.tz))

def udiv(a, b):
    if a.const and b.const and b.val:
        return c(a.val // b.val, a.w)
    if b.const and b.val == 1:
        return a
    if b.const and b.val and (b.val & (b.val - 1)) == 0:
        return lshr(a, c(b.val.bit_length() - 1, a.w))
    hi = a.hi // max(b.lo, 1)
    lo = a.lo // b.hi if b.hi else 0
    if b.lo == 0:
        return mk("udiv", (a, b), a.w)
    return mk("udiv", (a, b), a.w, lo, hi)
def urem(a, b):
    if a.const and b.const and b.val:
        return c(a.val % b.val, a.w)
    if b.const and b.val and (b.val & (b.val - 1)) == 0:
        return band(a, c(b.val - 1, a.w))
    if b.lo > 0 and a.hi < b.lo:
        return a
    if b.lo == 0:
        return mk("urem", (a, b), a.w)
    return mk("urem", (a, b), a.w, 0, min(a.hi, b.hi - 1))
def sdiv(a, b):
    w = a.w
    if a.const and b.const and b.val:
        x, y = tosigned(a.val, w), tosigned(b.val, w)
        q = abs(x) // abs(y)
        return c(q if (x < 0) == (y < 0) else -q, w)
    return mk("sdiv", (a, b), w)
def srem(a, b):
    w = a.w
    if a.const and b.const and b.val:
        x, y = tosigned(a.val, w), tosigned(b.val, w)
        r = abs(x) % abs(y)
        return c(r if x >= 0 else -r, w)
    return mk("srem", (a, b), w)
def neg(a):
    return sub(c(0, a.w), a)

# ---- bit operations ----
def band(a, b):
    if a.w == 0:
        if a.const:
            return b if a.val else FALSE
        if b.const:
            return a if b.val else FALSE
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        return mk("and", (a, b), 0)
    w = a.w
    if a.const and b.const:
        return c(a.val & b.val, w)
    if a.const:
        a, b = b, a
    if b.const:
        if b.val == 0:
            return b
        if b.val == mask(w):
            return a
        m = b.val
        if (m & (m + 1)) == 0:  # low mask
            if a.hi <= m:
                return a
            k = m.bit_length()
            return zext(trunc(a, k), w)
        if a.op == "or":
            return bor(band(a.args[0], b), band(a.args[1], b))
        if a.op == "zext":
            return zext(band(a.args[0], c(m, a.args[0].w)), w)
    if a is b:
        return a
    if a.id > b.id and not b.const:
        a, b = b, a
    return mk("and", (a, b), w, 0, min(a.hi, b.hi), max(a.tz, b.tz))
def bor(a, b):
    if a.w == 0:
        if a.const:
            return TRUE if a.val else b
        if b.const:
            return TRUE if b.val else a
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        return mk("or", (a, b), 0)
    w = a.w
    if a.const and b.const:
        return c(a.val | b.val, w)
    if a.const:
        a, b = b, a
    if b.const:
        if b.val == 0:
            return a
        if b.val == mask(w):
            return b
    if a is b:
        return a
    # disjoint: addition
    if a.hi < (1 << b.tz) or b.hi < (1 << a.tz):
        return add(a, b)
    if a.id > b.id and not b.const:
        a, b = b, a
    hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
    return mk("or", (a, b), w, max(a.lo, b.lo), hi, min(a.tz, b.tz))
def bxor(a, b):
    if a.w == 0:
        if a.const:
            return bnot(b) if a.val else b
        if b.const:
            return bnot(a) if b.val else a
        if a is b:
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk("xor", (a, b), 0)
    w = a.w
    if a.const and b.const:
        return c(a.val ^ b.val, w)
    if a.const:
        a, b = b, a
    if b.const and b.val == 0:
        return a
    if b.const and b.val == mask(w):
        return bnot(a)
    if a is b:
        return c(0, w)
    if a.id > b.id and not b.const:
        a, b = b, a
    hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
    return mk("xor", (a, b), w, 0, hi, min(a.tz, b.tz))
_neg = {}
def bnot(a):
    if a.const:
        return c(~a.val, a.w)
    if a.op == "not":
        return a.args[0]
    if a.w == 0:
        if a.op == "ult":
            return ule(a.args[1], a.args[0])
        if a.op == "ule":
            return ult(a.args[1], a.args[0])
        return mk("not", (a,), 0)
    return mk("not", (a,), a.w, mask(a.w) - a.hi, mask(a.w) - a.lo)
def shl(a, s):
    """s is an expression of the same width, assumed < w (else result 0)."""
    w = a.w
    if s.const:
        k = s.val
        if k >= w:
            return c(0, w)
        if k == 0:
            return a
        if a.const:
            return c(a.val << k, w)
        lo, hi = a.lo << k, a.hi << k
        if hi >> w:
            lo, hi = 0, mask(w) & ~mask(k)
        return mk("shl", (a, s), w, lo, hi, min(w, a.tz + k))
    if a.const and a.val == 0:
        return a
    return mk("shl", (a, s), w)
def lshr(a, s):
    w = a.w
    if s.const:
        k = s.val
        if k >= w:
            return c(0, w)
        if k == 0:
            return a
        if a.const:
            return c(a.val >> k, w)
        if a.hi < (1 << k):
            return c(0, w)
        if a.op == "zext" :
            b = a.args[0]
            if k < b.w:
                return zext(lshr(b, c(k, b.w)), w)
        if a.op == "lshr" and a.args[1].const:
            return lshr(a.args[0], c(a.args[1].val + k, w))
        if a.op == "shl" and a.args[1].const and a.args[1].val == k and a.args[0].hi << k <= mask(w):
            return a.args[0]
        if a.op == "add":
            # (hi << k) + lo, lo < 2^k, no wrap
            x, y = a.args
            if x.hi + y.hi <= mask(w):
                if y.hi < (1 << k) and x.tz >= k:
                    return lshr(x, s)
                if x.hi < (1 << k) and y.tz >= k:
                    return lshr(y, s)
        return mk("lshr", (a, s), w, a.lo >> k, a.hi >> k, max(0, a.tz - k))
    if a.const and a.val == 0:
        return a
    return mk("lshr", (a, s), w, 0, a.hi)
def ashr(a, s):
    w = a.w
    if s.const:
        k = s.val
        if k == 0:
            return a
        if a.const:
            return c(tosigned(a.val, w) >> min(k, w - 1), w)
        if a.hi < (1 << (w - 1)):
            return lshr(a, s)
    return mk("ashr", (a, s), w)
def zext(a, w):
    if a.w == w:
        return a
    if a.w == 0:
        return ite(a, c(1, w), c(0, w))
    if a.const:
        return c(a.val, w)
    if a.op == "zext":
        return zext(a.args[0], w)
    return mk("zext", (a,), w, a.lo, a.hi, a.tz)
def sext(a, w):
    if a.w == w:
        return a
    if a.const:
        return c(tosigned(a.val, a.w), w)
    if a.hi < (1 << (a.w - 1)):
        return zext(a, w)
    if a.op == "sub" and a.args[0].const and a.args[0].val == 0 and a.lo >= (1 << (a.w - 1)):
        return neg(zext(a.args[1], w))
    return mk("sext", (a,), w)
def trunc(a, w):
    if a.w == w:
        return a
    if a.const:
        return c(a.val, w)
    if a.op in ("zext", "sext"):
        b = a.args[0]
        if b.w == w:
            return b
        if b.w > w:
            return trunc(b, w)
        return zext(b, w) if a.op == "zext" else sext(b, w)
    if a.op == "trunc":
        return trunc(a.args[0], w)
    if a.tz >= w:
        return c(0, w)
    if a.op == "ite" and a.args[1].const and a.args[2].const:
        return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    if a.op == "add":
        x, y = a.args
        if x.tz >= w:
            return trunc(y, w)
        if y.tz >= w:
            return trunc(x, w)
    if a.op in ("and", "or", "xor") and any(t.op in ("zext", "c") for t in a.args):
        f = {"and": band, "or": bor, "xor": bxor}[a.op]
        return f(trunc(a.args[0], w), trunc(a.args[1], w))
    if a.hi <= mask(w):
        return mk("trunc", (a,), w, a.lo, a.hi, min(a.tz, w))
    return mk("trunc", (a,), w, None, None, min(a.tz, w))

# ---- comparisons ----
def eq(a, b):
    if a is b:
        return TRUE
    if a.const and b.const:
        return boolc(a.val == b.val)
    if a.w == 0:
        if a.const:
            return b if a.val else bnot(b)
        if b.const:
            return a if b.val else bnot(a)
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if a.const:
        a, b = b, a
    if b.const:
        if a.op == "zext":
            return eq(a.args[0], c(b.val, a.args[0].w))
        if a.op == "trunc" and a.args[0].hi <= mask(a.w):
            return eq(a.args[0], c(b.val, a.args[0].w))
        if a.op == "ctpop" and b.val == 1:
            x = a.args[0]
            return band(bnot(eq(x, c(0, x.w))), eq(band(x, sub(x, c(1, x.w))), c(0, x.w)))
        if a.op == "ite" and a.args[1].const and a.args[2].const:
            t, f = a.args[1].val == b.val, a.args[2].val == b.val
            if t and f:
                return TRUE
            if t:
                return a.args[0]
            if f:
                return bnot(a.args[0])
            return FALSE
    elif a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), 0)
def ne(a, b):
    return bnot(eq(a, b))
def ult(a, b):
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi or a is b:
        return FALSE
    if b.const and b.val == 1:
        return eq(a, c(0, a.w))
    if a.op == "zext" and b.const and b.val >> a.args[0].w == 0:
        return ult(a.args[0], c(b.val, a.args[0].w))
    if b.op == "zext" and a.const and a.val >> b.args[0].w == 0:
        return ult(c(a.val, b.args[0].w), b.args[0])
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0])
    if a.op == "ite" and a.args[1].const and a.args[2].const and b.const:
        return ite(a.args[0], boolc(a.args[1].val < b.val), boolc(a.args[2].val < b.val))
    return mk("ult", (a, b), 0)
def ule(a, b):
    if a.hi <= b.lo or a is b:
        return TRUE
    if a.lo > b.hi:
        return FALSE
    if a.const and a.val == 1:
        return ne(b, c(0, a.w))
    if b.const and b.val == 0:
        return eq(a, b)
    if a.op == "zext" and b.const and b.val >> a.args[0].w == 0:
        return ule(a.args[0], c(b.val, a.args[0].w))
    if b.op == "zext" and a.const and a.val >> b.args[0].w == 0:
        return ule(c(a.val, b.args[0].w), b.args[0])
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ule(a.args[0], b.args[0])
    if b.op == "ite" and b.args[1].const and b.args[2].const and a.const:
        return ite(b.args[0], boolc(a.val <= b.args[1].val), boolc(a.val <= b.args[2].val))
    return mk("ule", (a, b), 0)
def slt(a, b):
    w = a.w
    if a.const and b.const:
        return boolc(tosigned(a.val, w) < tosigned(b.val, w))
    h = 1 << (w - 1)
    if a.hi < h and b.hi < h:
        return ult(a, b)
    if a is b:
        return FALSE
    if a.lo >= h:
        if b.hi < h: return TRUE
        if b.lo >= h: return ult(a, b)
    elif a.hi < h and b.lo >= h: return FALSE
    if a.op == "ite" and a.args[1].const and a.args[2].const and b.const:
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    return mk("slt", (a, b), 0)
def sle(a, b):
    return bnot(slt(b, a))
def ite(p, a, b):
    if p.const:
        return a if p.val else b
    if a is b:
        return a
    if p.op == "not":
        p, a, b = p.args[0], b, a
    if a.w == 0:
        if a.const and b.const:
            return p if a.val else bnot(p)
        if a.const:
            return bor(p, b) if a.val else band(bnot(p), b)
        if b.const:
            return bor(bnot(p), a) if b.val else band(p, a)
    if a.op == "ite" and a.args[0] is p:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is p:
        b = b.args[2]
    return mk("ite", (p, a, b), a.w, min(a.lo, b.lo), max(a.hi, b.hi), min(a.tz, b.tz))
# ---- overflow flags ----
def uaddo(a, b):
    if a.hi + b.hi <= mask(a.w):
        return FALSE
    if a.lo + b.lo > mask(a.w):
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("uaddo", (a, b), 0)
def usubo(a, b):
    return ult(a, b)
def umulo(a, b):
    if a.hi * b.hi <= mask(a.w):
        return FALSE
    if a.lo * b.lo > mask(a.w):
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("umulo", (a, b), 0)
def sovf(kind, a, b):
    w = a.w
    if a.const and b.const:
        x, y = tosigned(a.val, w), tosigned(b.val, w)
        r = x + y if kind == "add" else x - y if kind == "sub" else x * y
        return boolc(not (-(1 << (w - 1)) <= r < (1 << (w - 1))))
    h = 1 << (w - 1)
    if kind == "add" and a.hi + b.hi < h:
        return FALSE
    if kind == "sub" and a.hi < h and b.hi < h:
        return FALSE
    return mk("s%so" % kind, (a, b), 0)
def ctlz(a):
    if a.const:
        return c(a.w - a.val.bit_length(), a.w)
    return mk("ctlz", (a,), a.w, a.w - a.hi.bit_length(), a.w - a.lo.bit_length())
def cttz(a):
    if a.const:
        return c(a.w if a.val == 0 else (a.val & -a.val).bit_length() - 1, a.w)
    return mk("cttz", (a,), a.w, 0, a.w)
def ctpop(a):
    if a.const:
        return c(bin(a.val).count("1"), a.w)
    return mk("ctpop", (a,), a.w, 0, a.w)
def bswap(a):
    n = a.w // 8
    if n == 1:
        return a
    r = c(0, a.w)
    bs = [trunc(lshr(a, c(8 * i, a.w)), 8) for i in range(n)]
    return concat(list(reversed(bs)))
def bitrev(a):
    if a.const:
        return c(int(bin(a.val)[2:].zfill(a.w)[::-1], 2), a.w)
    return concat([trunc(lshr(a, c(i, a.w)), 1) for i in reversed(range(a.w))])
def extract(a, off, w):
    return trunc(lshr(a, c(off, a.w)), w)
def reassemble(parts):
    """the word of which `parts` are the consecutive pieces, or None"""
    w = sum(p.w for p in parts)
    src = None
    off = 0
    ok = True
    for p in parts:
        s, o = (p, 0)
        if p.op == "trunc":
            s = p.args[0]
            if s.op == "lshr" and s.args[1].const:
                s, o = s.args[0], s.args[1].val
        elif p.op == "lshr" and p.args[1].const:
            s, o = p.args[0], p.args[1].val
        if src is None:
            src = s
        if s is not src or o != off:
            ok = False
            break
        off += p.w
    if ok and src is not None and src.w == w:
        return src
    return None
def concat(parts):
    """little-endian list of expressions -> one wide expression"""
    w = sum(p.w for p in parts)
    src = reassemble(parts)
    if src is not None:
        return src
    r = c(0, w)
    off = 0
    for p in parts:
        r = bor(r, shl(zext(p, w), c(off, w)))
        off += p.w
    return r
def uf(name, args, w, lo=None, hi=None):
    return mk("uf:" + name, tuple(args), w, lo, hi)

def subst(e, m, memo=None):
    """e with the variables of m (E -> E) replaced, rebuilt with simplification"""
    memo = {} if memo is None else memo
    F2 = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "and": band, "or": bor, "xor": bxor,
          "shl": shl, "lshr": lshr, "ashr": ashr, "eq": eq, "ult": ult, "ule": ule, "slt": slt, "uaddo": uaddo, "umulo": umulo}
    F1 = {"not": bnot, "ctlz": ctlz, "cttz": cttz, "ctpop": ctpop}
    def rec(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == "c": r = x
        elif x.op == "var": r = m.get(x, x)
        else:
            a = [rec(y) for y in x.args]
            if all(p is q for p, q in zip(a, x.args)): r = x
            elif x.op in F2: r = F2[x.op](*a)
            elif x.op in F1: r = F1[x.op](*a)
            elif x.op == "ite": r = ite(*a)
            elif x.op == "zext": r = zext(a[0], x.w)
            elif x.op == "sext": r = sext(a[0], x.w)
            elif x.op == "trunc": r = trunc(a[0], x.w)
            else: r = x         # left as it is (equal under the equations)
        memo[x] = r
        return r
    return rec(e)
def eqs(pc):
    """variables fixed by the path"""
    m = {}
    for x in pc:
        if x.op == "eq" and x.args[0].op == "var" and x.args[1].const: m[x.args[0]] = x.args[1]
        elif x.op == "var" and x.w == 0: pass
    return m
def propagate(pc):
    m = eqs(pc)
    if not m: return pc, m
    memo = {}
    return [x if x.op == "eq" and x.args[0] in m and x.args[1].const else subst(x, m, memo) for x in pc], m
