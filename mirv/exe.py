"""Symbolic executor for monomorphic MIR (see DESIGN.md, section mirv)."""
import re
from . import expr as X
from .expr import E, c, TRUE, FALSE

class Unsupported(Exception):
    pass
class PanicNow(Exception):
    def __init__(self, msg):
        self.msg = msg

class En:
    """enum value"""
    __slots__ = ("v", "f")
    def __init__(self, v, f):
        self.v = v
        self.f = f
    def __repr__(self):
        return "En%d%r" % (self.v, self.f)
class Un:
    """union value: the last written field"""
    __slots__ = ("x",)
    def __init__(self, x):
        self.x = x
    def __repr__(self):
        return "Un(%r)" % (self.x,)
class _Uninit:
    def __repr__(self):
        return "UNINIT"
UNINIT = _Uninit()
class Ptr:
    __slots__ = ("cell", "path", "meta")
    def __init__(self, cell, path=(), meta=None):
        self.cell = cell
        self.path = path
        self.meta = meta
    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.cell, self.path, self.meta)
    def key(self):
        return (self.cell, self.path)
class TM:
    """path step: the value there seen as another type (pointer casts)"""
    __slots__ = ("src", "dst")
    def __init__(self, src, dst):
        self.src, self.dst = src, dst
    def __eq__(self, o):
        return isinstance(o, TM) and (self.src, self.dst) == (o.src, o.dst)
    def __hash__(self):
        return hash((self.src, self.dst))
class Fp:
    """function pointer"""
    __slots__ = ("inst",)
    def __init__(self, inst):
        self.inst = inst
class Opq:
    """opaque native value (contract-level object); immutable"""
    __slots__ = ("kind", "x")
    def __init__(self, kind, x):
        self.kind = kind
        self.x = x
    def __repr__(self):
        return "%s(%r)" % (self.kind, self.x)

class Frame:
    __slots__ = ("inst", "body", "base", "bb", "dest", "target", "loops", "post")
    def copy(self):
        f = Frame()
        f.inst, f.body, f.base, f.bb, f.dest, f.target = self.inst, self.body, self.base, self.bb, self.dest, self.target
        f.loops = dict(self.loops) if self.loops else None
        f.post = self.post
        return f
class State:
    __slots__ = ("cells", "frames", "pc", "ghost", "result")
    def fork(self):
        s = State()
        s.cells = dict(self.cells)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.result = None
        return s

U64 = 64
DROPPED = object()      # destination of drop glue calls
CHAIN = object()        # destination of all but the last call of a Seq
def usz(v):
    return c(v, 64)
UNIT = ()

MERGE = {}      # Opq kind -> function(cond, x, y)
def merge(p, a, b):
    """ite on structured values"""
    if a is b:
        return a
    if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind and a.kind in MERGE:
        return Opq(a.kind, MERGE[a.kind](p, a.x, b.x))
    if isinstance(a, E) and isinstance(b, E):
        return X.ite(p, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(p, x, y) for x, y in zip(a, b))
    if isinstance(a, En) and isinstance(b, En) and a.v == b.v and len(a.f) == len(b.f):
        return En(a.v, tuple(merge(p, x, y) for x, y in zip(a.f, b.f)))
    if isinstance(a, Un) and isinstance(b, Un):
        return Un(merge(p, a.x, b.x))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.key() == b.key():
        if a.meta is b.meta:
            return a
        if isinstance(a.meta, E) and isinstance(b.meta, E):
            return Ptr(a.cell, a.path, X.ite(p, a.meta, b.meta))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and len(a.path) == len(b.path) and a.path and a.path[:-1] == b.path[:-1] \
            and isinstance(a.path[-1], (int, E)) and isinstance(b.path[-1], (int, E)) and a.meta is None and b.meta is None:
        x, y = (q if isinstance(q, E) else usz(q) for q in (a.path[-1], b.path[-1]))
        return Ptr(a.cell, a.path[:-1] + (X.ite(p, x, y),))
    if a is UNINIT or b is UNINIT:
        return UNINIT
    raise NeedFork()
class NeedFork(Exception):
    pass
CLOSURE = re.compile(r"\{closure#\d+\}$")

class Executor:
    def __init__(self, prog, feasible=None, max_steps=3000000, max_paths=20000):
        self.p = prog
        self.contracts = []       # (regex, fn)
        self.ccache = {}
        self.feasible = feasible or (lambda pc: True)
        self.ncell = 1
        self.steps = 0
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.alloc_cells = {}     # allocid -> cell
        self.obligations = []     # (pc, cond, label)
        self.calls = {}           # inst index -> count: what was executed
        self.contract_uses = {}
        self.optype = {}
        self.loop_inv = {}        # handled by subclass hook
        self.base_cells = {}
        self.trace = False
        self.merging = False      # join states after branches
        self.nmerged = 0
        self.done = []

    def threads(self, st):
        """number of threads of the pool: any number from 1"""
        t = X.var("threads", 64, 1, (1 << 63) - 1)
        c0 = X.ule(usz(1), t)
        if c0 not in st.pc: st.pc.append(c0)
        return t

    # ---------- cells and values ----------
    def newcell(self, st, v):
        k = self.ncell
        self.ncell += 1
        st.cells[k] = v
        return k
    def getcell(self, st, cell):
        v = st.cells.get(cell)
        if v is None:
            v = self.base_cells.get(cell)
            if v is None:
                return UNINIT
        return v
    def idx_const(self, i):
        if isinstance(i, int):
            return i
        if i.const:
            return i.val
        return None
    def walk(self, v, path):
        for i in path:
            if v is UNINIT:
                return UNINIT
            if isinstance(i, TM):
                v = self.transmute(v, i.src, i.dst)
                continue
            if isinstance(i, tuple):  # ('sub', start, n)
                v = tuple(v[j] if j < len(v) else UNINIT for j in range(i[1], i[1] + i[2]))
                continue
            if isinstance(v, Opq):
                if v.kind == "transparent":
                    v = v.x
                    continue
                raise Unsupported("projection %r into %r" % (i, v))
            if isinstance(v, Un):
                v = v.x
                continue
            if isinstance(v, En):
                v = v.f[i]
                continue
            if isinstance(v, tuple):
                if isinstance(i, E) and not i.const:
                    if not v:
                        return UNINIT
                    lo, hi = max(i.lo, 0), min(i.hi, len(v) - 1)
                    if lo > hi:
                        raise Unsupported("symbolic index outside array")
                    r = v[hi]
                    for k in range(hi - 1, lo - 1, -1):
                        if v[k] is UNINIT:
                            continue
                        r = merge(X.eq(i, c(k, i.w)), v[k], r) if r is not UNINIT else v[k]
                    v = r
                    continue
                k = self.idx_const(i)
                if k >= len(v):
                    return UNINIT
                v = v[k]
                continue
            if isinstance(v, Ptr) or isinstance(v, E):
                # transparent wrapper around a scalar/pointer represented bare
                raise Unsupported("projection %r into scalar %r" % (i, v))
            raise Unsupported("walk %r" % type(v))
        return v
    def update(self, v, path, new):
        if not path:
            return new
        i = path[0]
        rest = path[1:]
        if isinstance(i, TM):
            return self.transmute(self.update(self.transmute(v, i.src, i.dst) if rest else None, rest, new), i.dst, i.src)
        if isinstance(i, tuple):
            assert not rest or True
            start, n = i[1], i[2]
            sub = tuple(v[j] if j < len(v) else UNINIT for j in range(start, start + n))
            sub = self.update(sub, rest, new)
            l = list(v)
            while len(l) < start + n:
                l.append(UNINIT)
            l[start:start + n] = sub
            return tuple(l)
        if isinstance(v, Un):
            return Un(self.update(v.x, rest, new))
        if isinstance(v, En):
            l = list(v.f)
            while len(l) <= i:
                l.append(UNINIT)
            l[i] = self.update(l[i], rest, new)
            return En(v.v, tuple(l))
        if isinstance(v, tuple):
            if isinstance(i, E) and not i.const:
                lo, hi = max(i.lo, 0), min(i.hi, len(v) - 1)
                l = list(v)
                for k in range(lo, hi + 1):
                    nv = self.update(l[k], rest, new)
                    l[k] = merge(X.eq(i, c(k, i.w)), nv, l[k])
                return tuple(l)
            k = self.idx_const(i)
            if k < len(v):
                return v[:k] + (self.update(v[k], rest, new),) + v[k + 1:]
            return v + (UNINIT,) * (k - len(v)) + (self.update(UNINIT, rest, new),)
        if v is UNINIT:
            k = self.idx_const(i)
            return (UNINIT,) * k + (self.update(UNINIT, rest, new),)
        raise Unsupported("update %r at %r" % (v, path))
    def load(self, st, ptr):
        if not isinstance(ptr, Ptr):
            raise Unsupported("load through %r" % (ptr,))
        v = self.getcell(st, ptr.cell)
        return self.walk(v, ptr.path)
    def load_slice(self, st, ptr):
        """tuple of the elements of a slice pointer"""
        n = self.idx_const(ptr.meta)
        if n is None:
            raise Unsupported("symbolic slice length")
        if n == 0:
            return ()
        v = self.walk(self.getcell(st, ptr.cell), ptr.path[:-1])
        s = self.idx_const(ptr.path[-1])
        if s is None:
            raise Unsupported("symbolic slice start")
        if v is UNINIT:
            return (UNINIT,) * n
        return tuple(v[j] if j < len(v) else UNINIT for j in range(s, s + n))
    def store(self, st, ptr, val):
        if not isinstance(ptr, Ptr):
            raise Unsupported("store through %r" % (ptr,))
        v = self.getcell(st, ptr.cell)
        st.cells[ptr.cell] = self.update(v, ptr.path, val)
    def offset_ptr(self, ptr, k):
        """element pointer arithmetic; k int or E (in elements, signed 64)"""
        if isinstance(ptr, E):
            kk = self.idx_const(k)
            if kk == 0:
                return ptr
            raise Unsupported("offset of an address")
        kc = self.idx_const(k)
        if kc is not None and kc >> 63:
            kc -= 1 << 64
        if kc == 0:
            return ptr
        last = ptr.path[-1] if ptr.path else 0
        base = ptr.path[:-1] if ptr.path else ()
        if isinstance(last, tuple):
            if kc is None or kc % last[2]:
                raise Unsupported("array pointer arithmetic")
            return Ptr(ptr.cell, base + (("sub", last[1] + kc * 0 + kc * last[2], last[2]),), ptr.meta)
        if kc is not None and isinstance(last, int):
            return Ptr(ptr.cell, base + (last + kc,), ptr.meta)
        le = last if isinstance(last, E) else usz(last)
        ke = k if isinstance(k, E) else usz(k)
        r = X.add(le, ke)
        return Ptr(ptr.cell, base + (r.val if r.const else r,), ptr.meta)

    # ---------- constants ----------
    def alloc_ptr(self, aid):
        if aid in self.alloc_cells:
            return self.alloc_cells[aid]
        k = self.ncell
        self.ncell += 1
        self.alloc_cells[aid] = k
        a = self.p.allocs[aid]
        if a[0] == "fn":
            self.alloc_cells[aid] = ("fn", a[1])
            return self.alloc_cells[aid]
        self.base_cells[k] = ("lazy", aid)
        return k
    def alloc_value(self, aid, ty):
        a = self.p.allocs[aid]
        if a[0] == "mem":
            return self.decode(ty, a[1], 0)
        if a[0] == "static":
            return self.decode(ty, a[3], 0)
        raise Unsupported("alloc kind %s" % a[0])
    def decode(self, ty, al, off):
        tr = self.p.transparent(ty)
        if tr is not None:
            if self.p.size(ty) and all(x < 0 for x in al["b"][off:off + self.p.size(ty)]): return UNINIT
            return self.decode(tr, al, off)
        p = self.p
        k = p.kind(ty)
        b = al["b"]
        kk = k[0]
        if kk in ("int", "uint", "char"):
            n = (k[1] if kk != "char" else 32) // 8
            bs = b[off:off + n]
            if any(x < 0 for x in bs):
                return UNINIT
            return c(int.from_bytes(bytes(bs), "little"), n * 8)
        if kk == "bool":
            return X.boolc(b[off] & 1) if b[off] >= 0 else UNINIT
        if kk == "pat":
            return self.decode(k[1], al, off)
        if kk in ("ref", "ptr"):
            prov = [x for x in al["p"] if x[0] == off]
            addr = int.from_bytes(bytes(x if x >= 0 else 0 for x in b[off:off + 8]), "little")
            pt = k[1]
            pk = p.kind(pt)[0]
            meta = None
            if pk in ("slice", "str"):
                meta = usz(int.from_bytes(bytes(b[off + 8:off + 16]), "little"))
            if pk == "dyn":
                pv = [x for x in al["p"] if x[0] == off + 8]
                meta = ("vt", self.p.allocs[pv[0][1]][1] if pv else None)
            if not prov:
                return c(addr, 64) if meta is None else Ptr(("addr", addr), (0,), meta)
            aid = prov[0][1]
            cell = self.alloc_ptr(aid)
            if isinstance(cell, tuple) and cell[0] == "fn":
                return Fp(cell[1])
            # materialise with the pointee type
            self.materialise(cell, aid, pt, meta)
            if pk in ("slice", "str"):
                es = 1 if pk == "str" else max(1, p.size(p.kind(pt)[1]))
                return Ptr(cell, (addr // es,), meta)
            if addr:
                raise Unsupported("constant pointer into middle of allocation")
            return Ptr(cell, (), meta)
        if kk == "fnptr":
            prov = [x for x in al["p"] if x[0] == off]
            cell = self.alloc_ptr(prov[0][1])
            return Fp(cell[1])
        if kk == "array":
            es = p.size(k[1])
            return tuple(self.decode(k[1], al, off + i * es) for i in range(k[2]))
        if kk == "tuple":
            offs = self.layout_offs(ty, len(k[1]))
            return tuple(self.decode(t, al, off + o) for t, o in zip(k[1], offs))
        if kk in ("fndef",):
            return UNIT
        if kk == "closure":
            up = p.kind(k[2])
            tys = up[1] if up[0] == "tuple" else []
            offs = self.layout_offs(ty, len(tys))
            return tuple(self.decode(t, al, off + o) for t, o in zip(tys, offs))
        if kk == "adt":
            if k[2].lower().startswith("union"):
                # decode the largest field
                best = None
                for nm, ft in k[3][0]["fields"]:
                    if best is None or (p.size(ft) or 0) > (p.size(best) or 0):
                        best = ft
                return Un(self.decode(best, al, off))
            if k[2].lower().startswith("enum"):
                return self.decode_enum(ty, k, al, off)
            fs = k[3][0]["fields"]
            offs = self.layout_offs(ty, len(fs))
            return tuple(self.decode(ft, al, off + o) for (nm, ft), o in zip(fs, offs))
        if kk == "never":
            return UNINIT
        if p.tname(ty) in ("f32", "f64"): return Opq("float", None)
        raise Unsupported("decode constant of type %s" % p.tname(ty))
    def materialise(self, cell, aid, pt, meta):
        cur = self.base_cells.get(cell)
        if not (isinstance(cur, tuple) and len(cur) == 2 and cur[0] == "lazy"):
            return
        a = self.p.allocs[aid]
        al = a[1] if a[0] == "mem" else a[3] if a[0] == "static" else None
        if al is None:
            self.base_cells[cell] = UNINIT
            return
        pk = self.p.kind(pt)
        self.base_cells[cell] = ()
        if pk[0] == "str":
            self.base_cells[cell] = tuple(c(x, 8) for x in al["b"])
        elif pk[0] == "slice":
            es = max(1, self.p.size(pk[1]))
            self.base_cells[cell] = tuple(self.decode(pk[1], al, i) for i in range(0, len(al["b"]) // es * es, es))
        else:
            self.base_cells[cell] = self.decode(pt, al, 0)
    def layout_offs(self, ty, n):
        l = self.p.types[ty].get("layout")
        if l is None or n == 0:
            return [0] * n
        f = l["f"]
        if f[0] == "offs":
            return f[1]
        if f[0] == "array":
            return [f[1] * i for i in range(n)]
        return [0] * n
    def variant_offs(self, ty, v, n):
        l = self.p.types[ty]["layout"]
        vs = l["v"]
        if vs[0] == "single":
            return self.layout_offs(ty, n)
        if vs[0] == "multi":
            o = vs[4][v]
            return o
        return [0] * n
    def decode_enum(self, ty, k, al, off):
        p = self.p
        l = p.types[ty]["layout"]
        vs = l["v"]
        variants = k[3]
        if vs[0] == "single":
            v = vs[1]
        elif vs[0] == "multi":
            tagsz = vs[1]
            enc = vs[2]
            tagoff = off + (l["f"][1][vs[3]] if l["f"][0] == "offs" else 0)
            prov = [x for x in al["p"] if x[0] == tagoff]
            bs = [x if x >= 0 else 0 for x in al["b"][tagoff:tagoff + tagsz]]
            tag = int.from_bytes(bytes(bs), "little")
            if enc[0] == "direct":
                v = None
                for i, x in enumerate(variants):
                    if int(x["discr"]) & X.mask(8 * tagsz) == tag:
                        v = i
            else:
                un, ns, ne_, start = enc[1], enc[2], enc[3], int(enc[4])
                rel = (tag - start) & X.mask(8 * tagsz)
                if prov or rel > ne_ - ns:
                    v = un
                else:
                    v = ns + rel
        else:
            return UNINIT
        fs = variants[v]["fields"]
        offs = self.variant_offs(ty, v, len(fs))
        return En(v, tuple(self.decode(ft, al, off + o) for (nm, ft), o in zip(fs, offs)))
    def const(self, op):
        ty, al = op[1], op[2]
        if al is None:
            return self.zst(ty)
        if "unk" in al:
            raise Unsupported("constant " + al["unk"][:80])
        key = (id(op))
        v = self.optype.get(("const", key))
        if v is None:
            v = self.decode(ty, al, 0)
            self.optype[("const", key)] = v
        return v
    def zst(self, ty):
        tr = self.p.transparent(ty)
        if tr is not None: return self.zst(tr)
        k = self.p.kind(ty)
        if k[0] in ("fndef", "tuple") and k[0] == "fndef":
            return UNIT
        if k[0] == "tuple":
            return tuple(self.zst(t) for t in k[1])
        if k[0] == "adt":
            if k[2].lower().startswith("enum"):
                l = self.p.types[ty].get("layout")
                n = l["v"][1] if l and l["v"][0] == "single" else 0
                return En(n, tuple(self.zst(ft) for nm, ft in k[3][n]["fields"]) if n < len(k[3]) else ())
            if k[2].lower().startswith("union"):
                return Un(UNINIT)
            return tuple(self.zst(ft) for nm, ft in k[3][0]["fields"])
        if k[0] == "array":
            return tuple(self.zst(k[1]) for _ in range(k[2]))
        return UNIT

    # ---------- flatten / rebuild (transmute) ----------
    def flatten(self, ty, v, off, out):
        tr = self.p.transparent(ty)
        if tr is not None: return self.flatten(tr, v, off, out)
        p = self.p
        k = p.kind(ty)
        kk = k[0]
        sz = p.size(ty)
        if sz == 0:
            return
        if v is UNINIT:
            out.append((off, sz, UNINIT))
            return
        if kk in ("int", "uint", "char", "bool", "fnptr", "pat"):
            out.append((off, sz, v))
        elif kk in ("ref", "ptr"):
            out.append((off, sz, v))
        elif kk == "array":
            es = p.size(k[1])
            for i in range(k[2]):
                self.flatten(k[1], v[i] if i < len(v) else UNINIT, off + i * es, out)
        elif kk == "tuple":
            for t, o, x in zip(k[1], self.layout_offs(ty, len(k[1])), v):
                self.flatten(t, x, off + o, out)
        elif kk == "adt":
            if k[2].lower().startswith("union"):
                if v.x is UNINIT:
                    out.append((off, sz, UNINIT))
                    return
                best = None
                for nm, ft in k[3][0]["fields"]:
                    if best is None or (p.size(ft) or 0) > (p.size(best) or 0):
                        best = ft
                self.flatten(best, v.x, off, out)
            elif k[2].lower().startswith("enum"):
                out.append((off, sz, ("enum", ty, v)))
            else:
                fs = k[3][0]["fields"]
                if isinstance(v, Opq):
                    out.append((off, sz, v))
                    return
                for (nm, ft), o, x in zip(fs, self.layout_offs(ty, len(fs)), v):
                    self.flatten(ft, x, off + o, out)
        else:
            out.append((off, sz, v))
    def rebuild(self, ty, leaves, off):
        tr = self.p.transparent(ty)
        if tr is not None: 
            for (o, s_, v) in leaves:
                if o == off and s_ == self.p.size(ty) and v is UNINIT: return UNINIT
            return self.rebuild(tr, leaves, off)
        p = self.p
        k = p.kind(ty)
        kk = k[0]
        sz = p.size(ty)
        if sz == 0:
            return self.zst(ty)
        for (o, s, v) in leaves:
            if o == off and s == sz and not (isinstance(v, tuple) and v and v[0] == "enum") and kk in ("int", "uint", "char", "bool", "fnptr", "pat", "ref", "ptr"):
                if isinstance(v, E):
                    w = p.width(ty)
                    if kk == "bool" and v.w:
                        return X.ne(X.trunc(v, 1) if v.w > 1 else v, c(0, 1))
                    if kk != "bool" and v.w == 0:
                        return X.zext(v, w)
                return v
            if o == off and s == sz and isinstance(v, Opq):
                return v
        if kk in ("int", "uint", "char", "bool", "pat"):
            bs = []
            for j in range(sz):
                bs.append(self.byte_at(leaves, off + j))
            if any(x is UNINIT for x in bs):
                return UNINIT
            return X.concat(bs)
        if kk == "array":
            es = p.size(k[1])
            return tuple(self.rebuild(k[1], leaves, off + i * es) for i in range(k[2]))
        if kk == "tuple":
            return tuple(self.rebuild(t, leaves, off + o) for t, o in zip(k[1], self.layout_offs(ty, len(k[1]))))
        if kk == "adt":
            if k[2].lower().startswith("union"):
                best = None
                for nm, ft in k[3][0]["fields"]:
                    if best is None or (p.size(ft) or 0) > (p.size(best) or 0):
                        best = ft
                for (o, s, v) in leaves:
                    if o == off and s == sz and v is UNINIT:
                        return Un(UNINIT)
                return Un(self.rebuild(best, leaves, off))
            if k[2].lower().startswith("enum"):
                for (o, s, v) in leaves:
                    if o == off and s == sz and isinstance(v, tuple) and v[0] == "enum":
                        return v[2]
                # fieldless enum from integer
                l = p.types[ty]["layout"]
                vs = l["v"]
                if vs[0] == "multi" and vs[2][0] == "direct":
                    bs = [self.byte_at(leaves, off + j) for j in range(vs[1])]
                    tag = X.concat(bs)
                    if tag.const:
                        for i, x in enumerate(k[3]):
                            if int(x["discr"]) & X.mask(8 * vs[1]) == tag.val and not x["fields"]:
                                return En(i, ())
                if vs[0] == "multi" and vs[2][0] == "niche":
                    # pointer-like Option
                    for (o, s, v) in leaves:
                        if o == off and isinstance(v, Ptr):
                            un = vs[2][1]
                            fs = k[3][un]["fields"]
                            offs = self.variant_offs(ty, un, len(fs))
                            return En(un, tuple(self.rebuild(ft, leaves, off + oo) for (nm, ft), oo in zip(fs, offs)))
                    tagoff = off + (l["f"][1][vs[3]] if l["f"][0] == "offs" else 0)
                    bs = [self.byte_at(leaves, tagoff + j) for j in range(vs[1])]
                    if not any(x is UNINIT for x in bs):
                        tag = X.concat(bs)
                        un, ns, ne_, start = vs[2][1], vs[2][2], vs[2][3], int(vs[2][4])
                        v = None
                        if tag.const:
                            rel = (tag.val - start) & X.mask(8 * vs[1])
                            v = ns + rel if rel <= ne_ - ns else un
                        elif start + ne_ - ns <= X.mask(8 * vs[1]) and (tag.lo > start + ne_ - ns or tag.hi < start): v = un
                        if v is not None:
                            fs = k[3][v]["fields"]
                            offs = self.variant_offs(ty, v, len(fs))
                            return En(v, tuple(self.rebuild(ft, leaves, off + oo) for (nm, ft), oo in zip(fs, offs)))
                raise Unsupported("transmute to enum %s" % p.tname(ty))
            fs = k[3][0]["fields"]
            return tuple(self.rebuild(ft, leaves, off + o) for (nm, ft), o in zip(fs, self.layout_offs(ty, len(fs))))
        raise Unsupported("transmute to %s from %r" % (p.tname(ty), leaves[:3]))
    def byte_at(self, leaves, off):
        for (o, s, v) in leaves:
            if o <= off < o + s:
                if v is UNINIT:
                    return UNINIT
                if isinstance(v, tuple) and v[0] == "enum":
                    d = self.discr_value(v[1], v[2])
                    return X.trunc(X.lshr(c(d, 64), c(8 * (off - o), 64)), 8)
                if not isinstance(v, E):
                    raise Unsupported("bytes of %r" % (v,))
                if v.w == 0:
                    return X.zext(v, 8)
                return X.extract(v, 8 * (off - o), 8)
        return UNINIT
    def discr_value(self, ty, v):
        k = self.p.kind(ty)
        return int(k[3][v.v]["discr"])
    def transmute(self, v, st_, dt):
        out = []
        self.flatten(st_, v, 0, out)
        return self.rebuild(dt, out, 0)

    # ---------- places ----------
    def lval(self, st, fr, place):
        """-> (cell, path, meta, isslice)"""
        cell = fr.base + place[0]
        path = ()
        meta = None
        sl = False
        for pr in self.p.projections(fr.body, place):
            o = pr[0]
            if o == "*":
                v = self.walk(self.getcell(st, cell), path)
                while isinstance(v, tuple) and v and not isinstance(v, Ptr):
                    v = v[0]       # Box / NonNull wrappers
                if not isinstance(v, Ptr):
                    raise Unsupported("deref of %r" % (v,))
                cell, path, meta = v.cell, v.path, v.meta
                sl = meta is not None and not (isinstance(meta, tuple))
            elif o == ".":
                path = path + (pr[1],)
                sl = False
            elif o == "v":
                pass
            elif o == "[":
                i = self.getcell(st, fr.base + pr[1])
                path = self.index_path(path, sl, i)
                sl = False
            elif o == "c":
                off, fe = pr[1], pr[2]
                if fe:
                    n = self.idx_const(meta) if sl else len(self.walk(self.getcell(st, cell), path))
                    off = n - off
                path = self.index_path(path, sl, usz(off))
                sl = False
            elif o == "s":
                fro, to, fe = pr[1], pr[2], pr[3]
                n = self.idx_const(meta) if sl else len(self.walk(self.getcell(st, cell), path))
                end = n - to if fe else to
                if sl:
                    path = path[:-1] + (path[-1] + fro,)
                    meta = usz(end - fro)
                else:
                    path = path + (("sub", fro, end - fro),)
            else:
                raise Unsupported("projection " + o)
        return cell, path, meta, sl
    def index_path(self, path, sl, i):
        if sl:
            base, last = path[:-1], path[-1]
            if isinstance(last, tuple):
                raise Unsupported("slice of arrays index")
            r = X.add(i, last if isinstance(last, E) else usz(last))
        else:
            base, r = path, i
            if base and isinstance(base[-1], tuple):
                r = X.add(i, usz(base[-1][1]))
                base = base[:-1]
        return base + ((r.val if r.const else r),)
    def rplace(self, st, fr, place):
        if not place[1]:
            v = st.cells.get(fr.base + place[0], UNINIT)
            return v
        cell, path, meta, sl = self.lval(st, fr, place)
        return self.walk(self.getcell(st, cell), path)
    def wplace(self, st, fr, place, v):
        if not place[1]:
            st.cells[fr.base + place[0]] = v
            return
        cell, path, meta, sl = self.lval(st, fr, place)
        st.cells[cell] = self.update(self.getcell(st, cell), path, v)
    def operand(self, st, fr, op):
        o = op[0]
        if o == "p" or o == "m":
            v = self.rplace(st, fr, op[1])
            return v
        if o == "k":
            return self.const(op)
        if o == "rc":
            return FALSE       # runtime UB checks off; contract checks handled by `assert`s
        raise Unsupported("operand " + o)
    def opty(self, fr, op):
        key = id(op)
        t = self.optype.get(key)
        if t is None:
            t = self.p.operand_ty(fr.body, op)
            self.optype[key] = t
        return t

    # ---------- rvalues ----------
    def binop(self, st, fr, op, a, b, ty, tyb):
        p = self.p
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Fp):
            return self.ptrop(op, a, b)
        if op == "Offset":
            return self.offset_ptr(a, b)
        if isinstance(a, Opq) and a.kind == "float" and op in ("Add", "Sub", "Mul", "Div"): return a
        if a is UNINIT or b is UNINIT:
            raise Unsupported("arithmetic on uninitialised value in %s" % fr.inst["name"])
        if isinstance(a, tuple) and a == () and op in ("Eq", "Ne"):
            return TRUE if op == "Eq" else FALSE
        if not isinstance(a, E) or not isinstance(b, E):
            raise Unsupported("%s of %r and %r" % (op, a, b))
        sg = p.signed(ty)
        if op in ("Add", "AddUnchecked"):
            return X.add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return X.sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return X.mul(a, b)
        if op == "Div":
            return X.sdiv(a, b) if sg else X.udiv(a, b)
        if op == "Rem":
            return X.srem(a, b) if sg else X.urem(a, b)
        if op == "BitAnd":
            return X.band(a, b)
        if op == "BitOr":
            return X.bor(a, b)
        if op == "BitXor":
            return X.bxor(a, b)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            w = a.w
            if b.w > w:
                b = X.trunc(b, w) if w > 8 or True else b
            elif b.w < w:
                b = X.zext(b, w)
            if not (b.const and b.val < w):
                b = X.band(b, c(w - 1, w))
            if op.startswith("Shl"):
                return X.shl(a, b)
            return X.ashr(a, b) if sg else X.lshr(a, b)
        if op == "Eq":
            return X.eq(a, b)
        if op == "Ne":
            return X.ne(a, b)
        if a.w == 0 and op in ("Lt", "Le", "Gt", "Ge"):
            a, b = X.zext(a, 8), X.zext(b, 8)
        if op == "Lt":
            return X.slt(a, b) if sg else X.ult(a, b)
        if op == "Le":
            return X.sle(a, b) if sg else X.ule(a, b)
        if op == "Gt":
            return X.slt(b, a) if sg else X.ult(b, a)
        if op == "Ge":
            return X.sle(b, a) if sg else X.ule(b, a)
        if op == "Cmp":
            lt = X.slt(a, b) if sg else X.ult(a, b)
            return ("forkcmp", lt, X.eq(a, b))
        raise Unsupported("binop " + op)
    def ptrop(self, op, a, b):
        if op == "Offset":
            return self.offset_ptr(a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell == b.cell and (a.path[:-1] == b.path[:-1]):
                x = a.path[-1] if a.path else 0
                y = b.path[-1] if b.path else 0
                if isinstance(x, tuple) or isinstance(y, tuple):
                    x = x[1] if isinstance(x, tuple) else x
                    y = y[1] if isinstance(y, tuple) else y
                x = x if isinstance(x, E) else usz(x)
                y = y if isinstance(y, E) else usz(y)
                f = {"Eq": X.eq, "Ne": X.ne, "Lt": X.ult, "Le": X.ule, "Gt": lambda p, q: X.ult(q, p), "Ge": lambda p, q: X.ule(q, p)}.get(op)
                if f:
                    return f(x, y)
            if op == "Eq":
                return FALSE if a.cell != b.cell else X.boolc(a.path == b.path)
            if op == "Ne":
                return TRUE if a.cell != b.cell else X.boolc(a.path != b.path)
        elif isinstance(a, E) or isinstance(b, E):
            if op == "BitAnd" and isinstance(b, E) and b.const and b.val < 64:
                return usz(0)       # the alignment check of a dereference: allocations are aligned (assumed)
            if op == "Eq":
                return FALSE
            if op == "Ne":
                return TRUE
        raise Unsupported("pointer op %s %r %r" % (op, a, b))
    def checked(self, op, a, b, ty):
        sg = self.p.signed(ty)
        if op == "Add":
            return (X.add(a, b), X.sovf("add", a, b) if sg else X.uaddo(a, b))
        if op == "Sub":
            return (X.sub(a, b), X.sovf("sub", a, b) if sg else X.usubo(a, b))
        if op == "Mul":
            return (X.mul(a, b), X.sovf("mul", a, b) if sg else X.umulo(a, b))
        raise Unsupported("checked " + op)
    def cast(self, st, fr, rv):
        p = self.p
        kind, op, ty, sty = rv[1], rv[2], rv[3], rv[4]
        if kind.startswith("PointerCoercion(ReifyFnPointer"):
            t = self.opty(fr, op)
            return Fp(p.fnptr_tys.get(t, p.fn_tys.get(t)))
        v = self.operand(st, fr, op)
        if kind in ("IntToInt",):
            w = p.width(ty)
            if isinstance(v, En):
                v = c(self.discr_value(sty, v), w)
                return v
            if v is UNINIT:
                raise Unsupported("cast of uninit")
            if w > v.w:
                return X.sext(v, w) if p.signed(sty) and v.w else X.zext(v, w)
            return X.trunc(v, w) if w else X.ne(v, c(0, v.w))
        if kind == "PtrToPtr" or kind.startswith("PointerCoercion(MutToConst") or kind.startswith("PointerCoercion(ArrayToPointer") or kind == "FnPtrToPtr" or kind.startswith("PointerCoercion(UnsafeFn"):
            return self.ptrcast(v, sty, ty)
        if kind.startswith("PointerCoercion(Unsize"):
            return self.unsize(st, v, sty, ty)
        if kind.startswith("PointerCoercion(ClosureFnPointer"):
            raise Unsupported("closure fn pointer")
        if kind in ("Transmute", "BoxDerefTransmute"):
            return self.transmute_ptr(v, sty, ty)
        if kind in ("PointerExposeAddress", "PointerExposeProvenance"):
            if isinstance(v, E):
                return v
            return X.var("addr_%s" % (v.cell,), 64)
        if kind in ("PointerWithExposedProvenance",):
            return v
        if kind == "IntToFloat": return Opq("float", None)     # an opaque float: only ever printed
        raise Unsupported("cast " + kind)
    def transmute_ptr(self, v, sty, ty):
        p = self.p
        a, b = p.kind(sty), p.kind(ty)
        if a[0] in ("ref", "ptr") and b[0] in ("ref", "ptr"):
            return self.ptrcast(v, sty, ty)
        if a[0] in ("ref", "ptr") and b[0] == "adt" and isinstance(v, Ptr):
            # into NonNull-like wrappers: adapt pointee through the leaf type
            t = self.leaf_ptr_ty(ty)
            if t is not None:
                v = self.ptrcast(v, sty, t)
        if a[0] == "adt" and b[0] in ("ref", "ptr"):
            t = self.leaf_ptr_ty(sty)
            r = self.transmute(v, sty, ty)
            if t is not None and isinstance(r, Ptr):
                r = self.ptrcast(r, t, ty)
            return r
        return self.transmute(v, sty, ty)
    def leaf_ptr_ty(self, ty):
        p = self.p
        for _ in range(6):
            k = p.kind(ty)
            if k[0] in ("ref", "ptr"):
                return ty
            if k[0] == "pat":
                ty = k[1]
                continue
            if k[0] == "adt" and k[2].lower().startswith("struct"):
                nz = [ft for nm, ft in k[3][0]["fields"] if p.size(ft)]
                if len(nz) == 1:
                    ty = nz[0]
                    continue
            if k[0] == "adt" and k[2].lower().startswith("enum"):
                nz = [ft for v in k[3] for nm, ft in v["fields"] if p.size(ft)]
                if len(nz) == 1:
                    ty = nz[0]
                    continue
            return None
    def ptrcast(self, v, sty, ty):
        p = self.p
        if not isinstance(v, Ptr):
            return v
        spt, dpt = p.pointee(sty), p.pointee(ty)
        if spt is None or dpt is None or spt == dpt:
            return v
        sk, dk = p.kind(spt), p.kind(dpt)
        if dk[0] in ("slice", "str"):
            if sk[0] in ("slice", "str"):
                return v
            if v.meta is None:
                raise Unsupported("thin to slice cast")
            return v
        meta = v.meta if dk[0] == "dyn" else None
        if sk[0] in ("slice", "str") and dk[0] == "array":
            s = self.idx_const(v.path[-1])
            return Ptr(v.cell, v.path[:-1] + (("sub", s, dk[2]),), None)
        if sk[0] in ("slice", "str"):
            return Ptr(v.cell, v.path, meta)
        if sk[0] == "array" and (sk[1] == dpt or (dk[0] != "array" and p.size(sk[1]) == p.size(dpt))):
            if v.path and isinstance(v.path[-1], tuple):
                return Ptr(v.cell, v.path[:-1] + (v.path[-1][1],), meta)
            return Ptr(v.cell, v.path + (0,), meta)
        if dk[0] == "array" and dk[1] == spt:
            s = self.idx_const(v.path[-1])
            return Ptr(v.cell, v.path[:-1] + (("sub", s, dk[2]),), None)
        if (sk[0] in ("ref", "ptr") and dk[0] == "adt" or dk[0] in ("ref", "ptr") and sk[0] == "adt") and p.size(spt) == p.size(dpt) == 8:
            return Ptr(v.cell, v.path + (TM(spt, dpt),), meta)
        return Ptr(v.cell, v.path, meta if meta is not None else None)
    def unsize(self, st, v, sty, ty):
        p = self.p
        # Box<[T;N]> etc.: descend
        sk = p.kind(sty)
        if sk[0] in ("ref", "ptr"):
            spt, dpt = p.pointee(sty), p.pointee(ty)
            a, b = p.kind(spt), p.kind(dpt)
            if a[0] == "array" and b[0] == "slice":
                if v.path and isinstance(v.path[-1], tuple):
                    return Ptr(v.cell, v.path[:-1] + (v.path[-1][1],), usz(a[2]))
                return Ptr(v.cell, v.path + (0,), usz(a[2]))
            if b[0] == "dyn":
                if a[0] == "dyn":
                    return v
                return Ptr(v.cell, v.path, ("vt", spt))
            raise Unsupported("unsize %s -> %s" % (p.tname(sty), p.tname(ty)))
        if sk[0] == "adt" and p.transparent(sty) is not None: return self.unsize(st, v, p.transparent(sty), p.transparent(ty))
        if sk[0] == "adt":
            dk = p.kind(ty)
            sf, df = sk[3][0]["fields"], dk[3][0]["fields"]
            out = []
            for (n1, t1), (n2, t2), x in zip(sf, df, v):
                out.append(x if t1 == t2 or p.size(t1) == 0 else self.unsize(st, x, t1, t2))
            return tuple(out)
        if sk[0] == "pat":
            return self.unsize(st, v, sk[1], p.kind(ty)[1])
        raise Unsupported("unsize %s" % p.tname(sty))
    def rvalue(self, st, fr, rv):
        p = self.p
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "addr":
            cell, path, meta, sl = self.lval(st, fr, rv[2])
            pl = rv[2]
            if not sl and not isinstance(meta, tuple):
                meta2 = None
            else:
                meta2 = meta
            # a place ending in deref of fat pointer keeps its metadata
            if pl[1] and pl[1][-1][0] == "*":
                meta2 = meta
            elif pl[1] and pl[1][-1][0] == "s" and sl:
                meta2 = meta
            else:
                meta2 = None
            return Ptr(cell, path, meta2)
        if k == "bin":
            ta = self.opty(fr, rv[2])
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, fr, rv[1], a, b, ta, None)
        if k == "chk":
            ta = self.opty(fr, rv[2])
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.checked(rv[1], a, b, ta)
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                return X.bnot(v)
            if rv[1] == "Neg":
                return X.neg(v)
            if rv[1] == "PtrMetadata":
                if isinstance(v, Ptr):
                    return v.meta if v.meta is not None else UNIT
                return UNIT
            raise Unsupported("unop " + rv[1])
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "discr":
            v = self.rplace(st, fr, rv[1])
            if v is UNINIT and p.size(rv[2]) == 0 and p.types[rv[2]]["layout"]["v"][0] == "single":
                v = En(p.types[rv[2]]["layout"]["v"][1], ())
            if isinstance(v, En):
                w = p.width(rv[3])
                return c(self.discr_value(rv[2], v), w)
            if isinstance(v, Opq):
                raise Unsupported("discriminant of opaque %s" % v.kind)
            raise Unsupported("discriminant of %r" % (v,))
        if k == "len":
            cell, path, meta, sl = self.lval(st, fr, rv[1])
            if sl:
                return meta
            return usz(len(self.walk(self.getcell(st, cell), path)))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            return (v,) * rv[2]
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            ak = rv[1]
            if ak[0] in ("array", "tuple", "closure"):
                return tuple(ops)
            if ak[0] == "adt":
                tk = p.kind(ak[1])
                if p.transparent(ak[1]) is not None:
                    if tk[2].lower().startswith("union") and self.opty(fr, rv[2][0]) == tk[3][0]["fields"][0][1]: return UNINIT
                    return ops[-1]
                if tk[2].lower().startswith("union"):
                    return Un(ops[0])
                if tk[2].lower().startswith("enum"):
                    return En(ak[2], tuple(ops))
                return tuple(ops)
            if ak[0] == "rawptr":
                d, m = ops
                if isinstance(d, E):
                    return Ptr(("addr", d.val if d.const else 0), (0,), m) if m != () else d
                if m == ():
                    return Ptr(d.cell, d.path, None)
                return Ptr(d.cell, d.path if d.path else d.path, m)
        raise Unsupported("rvalue %s" % (rv[:2],))

    # ---------- calls ----------
    def lookup_contract(self, inst):
        i = inst["i"]
        r = self.ccache.get(i, 0)
        if r == 0:
            r = None
            for rx, fn in self.contracts:
                if rx.search(inst["name"]):
                    r = fn
                    break
            self.ccache[i] = r
        return r
    def push_frame(self, st, inst, args, dest, target):
        body = inst["body"]
        fr = Frame()
        fr.inst = inst
        fr.body = body
        fr.base = self.ncell
        self.ncell += len(body["locals"])
        fr.bb = 0
        fr.dest = dest
        fr.target = target
        fr.loops = None
        fr.post = None
        n = body["argc"]
        if CLOSURE.search(inst["def"]) and body.get("spread") is None and inst["kind"] == "item":
            # a closure body is only ever called through Fn*: (environment, tuple of arguments)
            if len(args) != 2 or not isinstance(args[1], tuple) or len(args[1]) != n - 1:
                raise Unsupported("closure call of %s with %r" % (inst["name"], args))
            args = [args[0]] + list(args[1])
        elif len(args) != n:
            if len(args) == 2 and isinstance(args[1], tuple) and len(args[1]) == n - 1:
                args = [args[0]] + list(args[1])
            elif body.get("spread") is not None:
                sp = body["spread"]
                args = list(args[:sp - 1]) + [tuple(args[sp - 1:])]
            else:
                raise Unsupported("arity mismatch calling %s: %d vs %d" % (inst["name"], len(args), n))
        for i, a in enumerate(args):
            st.cells[fr.base + 1 + i] = a
        st.frames.append(fr)
        self.calls[inst["i"]] = self.calls.get(inst["i"], 0) + 1

    def start(self, inst_idx, args, pc=(), cells=None):
        st = State()
        st.cells = dict(cells or {})
        st.frames = []
        st.pc = list(pc)
        st.ghost = {}
        st.result = None
        self.push_frame(st, self.p.insts[inst_idx], args, None, None)
        return st

    def run(self, st0):
        """finished states; st.result = ('ret', v) or ('panic', msg, where)"""
        self.done = []
        rest = self.explore(st0, None)
        assert not rest
        return self.done
    def explore(self, st0, stop):
        """runs until the state ends (collected in self.done) or gets to `stop`
        = (depth, base, block): in that frame before that block, or that frame
        has returned; -> the states that got there"""
        work = [st0]
        out = []
        while work:
            st = work.pop()
            while True:
                if stop is not None:
                    n = len(st.frames)
                    if n < stop[0] or (n == stop[0] and st.frames[-1].bb == stop[2] and st.frames[-1].base == stop[1]):
                        out.append(st)
                        break
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step limit")
                if self.merging:
                    fr = st.frames[-1]
                    pos = (len(st.frames), fr.base, fr.bb, fr.body)
                try:
                    r = self.step(st)
                except PanicNow as e:
                    st.result = ("panic", e.msg, self.where(st))
                    r = []
                except RecursionError:
                    raise Unsupported("python recursion")
                except Unsupported as e:
                    if st.frames and not getattr(e, "at", None):
                        e.at = " <- ".join(f.inst["name"][-90:] + ":%d" % f.bb for f in st.frames[::-1][:12])
                        e.args = ("%s [at %s]" % (e.args[0] if e.args else "", e.at),)
                    raise
                except (AttributeError, TypeError, IndexError, KeyError, AssertionError) as e:
                    if self.trace:
                        import traceback
                        traceback.print_exc()
                    raise Unsupported("executor: %s [at %s]" % (e, " <- ".join(f.inst["name"][-90:] + ":%d" % f.bb for f in st.frames[::-1][:12])))
                if r is None:
                    continue
                if st.result is not None and not r:
                    self.finish(st)
                    break
                if r == []:     # killed path
                    break
                if self.merging and len(r) > 1:
                    r = self.join(r, pos, stop)
                    if not r:
                        break
                fin = [s for s in r if s.result is not None]
                for s in fin:
                    self.finish(s)
                r = [s for s in r if s.result is None]
                if not r:
                    break
                work.extend(r[:-1])
                st = r[-1]
        return out
    def finish(self, st):
        self.done.append(st)
        if len(self.done) > self.max_paths:
            raise Unsupported("path limit")
    def join(self, states, pos, stop):
        """runs each state to the join of the branch at pos and merges them there"""
        from . import merge as M
        depth, base, bb, body = pos
        j = M.ipdoms(body).get(bb, M.RET)
        sub = (depth, base, j)
        got = []
        for s in states:
            if s.result is not None:
                self.finish(s)
            else:
                got.extend(self.explore(s, sub))
        out = []
        for s in got:
            for i, o in enumerate(out):
                m = self.merge_states(o, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        self.nmerged += len(got) - len(out)
        return out
    def merge_states(self, a, b):
        from . import merge as M
        if len(a.frames) != len(b.frames) or any(f.base != g.base or f.bb != g.bb for f, g in zip(a.frames, b.frames)):
            return None
        if a.ghost != b.ghost:
            return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ca, cb = TRUE, TRUE
        for x in a.pc[n:]: ca = X.band(ca, x)
        for x in b.pc[n:]: cb = X.band(cb, x)
        s = State()
        s.frames = [f.copy() for f in a.frames]
        s.pc = a.pc[:n]
        d = X.bor(ca, cb)
        if not (d.const and d.val) and X.bnot(ca) is not cb:
            s.pc.append(d)
        s.ghost = dict(a.ghost)
        s.result = None
        s.cells = {}
        dead = set()
        if s.frames:
            f = s.frames[-1]
            live, addr = M.liveness(f.body)
            for i in range(len(f.body["locals"])):
                if i not in live[f.bb] and i not in addr:
                    dead.add(f.base + i)
        for k, v in a.cells.items():
            if k in dead:
                continue
            if k not in b.cells:
                s.cells[k] = v
                continue
            w = b.cells[k]
            if v is w:
                s.cells[k] = v
                continue
            try:
                s.cells[k] = merge(ca, v, w)
            except NeedFork:
                if self.trace: print("no merge of cell", k, str(v)[:200], "/", str(w)[:200], [f.inst["name"][-60:] for f in a.frames[-2:]])
                return None
        for k, v in b.cells.items():
            if k not in a.cells and k not in dead:
                s.cells[k] = v
        return s
    def where(self, st):
        if not st.frames:
            return "?"
        fr = st.frames[-1]
        return "%s:%s" % (fr.inst["name"], fr.body["blocks"][fr.bb][2])
    def backtrace(self, st):
        return [f.inst["name"] + ":" + str(f.body["blocks"][f.bb][2]) for f in st.frames]

    def branch(self, st, options):
        """options: list of (cond, setup(st)) mutually exclusive. returns states"""
        out = []
        live = []
        for cond, fn in options:
            if cond.const and not cond.val:
                continue
            live.append((cond, fn))
        if not live:
            return []
        for n, (cond, fn) in enumerate(live):
            s = st if n == len(live) - 1 else st.fork()
            if not (cond.const and cond.val):
                s.pc.append(cond)
                if not self.feasible(s.pc):
                    continue
            try:
                fn(s)
            except PanicNow as e:
                s.result = ("panic", e.msg, self.where(s))
            out.append(s)
        return out

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.body["blocks"][fr.bb]
        if fr.loops is not None or self.loop_inv:
            h = self.at_block(st, fr)
            if h is not None:
                return h
        for s in blk[0]:
            k = s[0]
            if k == "=":
                rv = s[2]
                if rv[0] == "agg" and not rv[2] and False:
                    pass
                v = self.rvalue(st, fr, rv)
                if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], str) and v[0] == "forkcmp":
                    return self.fork_cmp(st, fr, s, v)
                self.wplace(st, fr, s[1], v)
            elif k == "sd":
                v = self.rplace(st, fr, s[1])
                self.wplace(st, fr, s[1], En(s[2], v.f if isinstance(v, En) else v if isinstance(v, tuple) else ()))
            elif k == "cno":
                self.copy_elems(st, self.operand(st, fr, s[1]), self.operand(st, fr, s[2]), self.operand(st, fr, s[3]))
            else:
                raise Unsupported("stmt " + k)
        return self.terminator(st, fr, blk[1])
    def fork_cmp(self, st, fr, s, v):
        # the Cmp rvalue: split into the three orderings, then re-execute the
        # block with the comparison decided (statements before it are pure
        # re-assignments of the same values).
        _, lt, eqv = v
        res = st.ghost.get("cmpres")
        opts = []
        tk = None
        def setter(variant):
            def f(s2):
                fr2 = s2.frames[-1]
                self.wplace(s2, fr2, s[1], En(variant, ()))
                self.rest_of_block(s2, fr2, s)
            return f
        return self._finish_cmp(st, [(lt, 0), (X.band(X.bnot(lt), eqv), 1), (X.band(X.bnot(lt), X.bnot(eqv)), 2)], s)
    def _finish_cmp(self, st, opts, stmt):
        out = []
        live = [(cnd, v) for cnd, v in opts if not (cnd.const and not cnd.val)]
        for n, (cnd, v) in enumerate(live):
            s2 = st if n == len(live) - 1 else st.fork()
            if not cnd.const:
                s2.pc.append(cnd)
                if not self.feasible(s2.pc):
                    continue
            fr2 = s2.frames[-1]
            self.wplace(s2, fr2, stmt[1], En(v, ()))
            blk = fr2.body["blocks"][fr2.bb]
            idx = [i for i, x in enumerate(blk[0]) if x is stmt][0]
            for s in blk[0][idx + 1:]:
                if s[0] == "=":
                    self.wplace(s2, fr2, s[1], self.rvalue(s2, fr2, s[2]))
                else:
                    raise Unsupported("stmt after Cmp")
            r = self.terminator(s2, fr2, blk[1])
            if r is None:
                out.append(s2)
            elif s2.result is not None:
                out.append(s2)
            else:
                out.extend(r)
        return out if out else []
    def copy_elems(self, st, src, dst, n):
        k = self.idx_const(n)
        if k is None:
            raise Unsupported("copy of symbolic length")
        if k == 0:
            return
        vals = [self.load(st, self.offset_ptr(src, i)) for i in range(k)]
        for i, v in enumerate(vals):
            self.store(st, self.offset_ptr(dst, i), v)
    def at_block(self, st, fr):
        from . import loops
        return loops.at_block(self, st, fr)

    def terminator(self, st, fr, t):
        k = t[0]
        if k == "goto":
            fr.bb = t[1]
            return None
        if k == "return":
            v = st.cells.get(fr.base, UNINIT)
            if v is UNINIT:
                v = UNIT
            st.frames.pop()
            for i in range(len(fr.body["locals"])):
                st.cells.pop(fr.base + i, None)
            if not st.frames:
                st.result = ("ret", v)
                return []
            return self.ret_to(st, fr.dest, fr.target, v)
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if isinstance(v, Ptr):
                raise Unsupported("switch on pointer")
            if v is UNINIT:
                raise Unsupported("switch on uninit in %s" % fr.inst["name"])
            if v.const:
                for val, tgt in t[2]:
                    w = v.w or 1
                    if (int(val) & X.mask(w)) == v.val:
                        fr.bb = tgt
                        return None
                fr.bb = t[3]
                return None
            opts = []
            rest = TRUE
            for val, tgt in t[2]:
                cnd = X.eq(v, c(int(val), v.w)) if v.w else (v if int(val) else X.bnot(v))
                opts.append((cnd, tgt))
                rest = X.band(rest, X.bnot(cnd))
            ob = fr.body["blocks"][t[3]]
            opts.append((rest, t[3]))
            def go(tgt):
                def f(s):
                    s.frames[-1].bb = tgt
                return f
            return self.branch(st, [(cnd, go(tgt)) for cnd, tgt in opts])
        if k == "drop":
            fr.bb = t[2]
            return self.do_drop(st, fr, t)
        if k == "assert":
            cond = self.operand(st, fr, t[1])
            if not t[2]:
                cond = X.bnot(cond)
            if cond.const:
                if cond.val:
                    fr.bb = t[4]
                    return None
                raise PanicNow(t[3])
            def ok(s):
                s.frames[-1].bb = t[4]
            def bad(s):
                raise PanicNow(t[3])
            return self.branch(st, [(X.bnot(cond), bad), (cond, ok)])
        if k == "call":
            return self.call(st, fr, t)
        if k == "unreachable":
            # compiler-proved unreachable
            return []
        if k == "abort" or k == "resume":
            raise PanicNow(k)
        raise Unsupported("terminator " + k)
    def do_drop(self, st, fr, t):
        """run the drop glue; the frame already points at the target block"""
        g = t[4] if len(t) > 4 else None
        if g is None:
            return None
        inst = self.p.insts[g]
        from . import natives
        if "body" not in inst or natives.nodrop(self, inst):
            return None
        cell, path, meta, sl = self.lval(st, fr, t[1])
        v = self.walk(self.getcell(st, cell), path)
        if v is UNINIT or isinstance(v, Opq):
            return None
        self.push_frame(st, inst, [Ptr(cell, path, meta if sl or isinstance(meta, tuple) else None)], DROPPED, t[2])
        return None
    def ret_to(self, st, dest, target, v):
        fr = st.frames[-1]
        if dest is CHAIN:
            return None
        if target is None:
            raise PanicNow("diverging call returned")
        if dest is DROPPED:
            fr.bb = target
            return None
        self.wplace(st, fr, dest, v)
        fr.bb = target
        return None

    def call(self, st, fr, t):
        func, args, dest, target = t[1], t[2], t[3], t[4]
        fty = self.opty(fr, func)
        k = self.p.kind(fty)
        if k[0] == "fndef":
            ii = self.p.fn_tys.get(fty)
            if ii is None:
                raise Unsupported("unresolved call %s" % k[1])
        else:
            v = self.operand(st, fr, func)
            if not isinstance(v, Fp):
                raise Unsupported("call through %r" % (v,))
            ii = v.inst
        inst = self.p.insts[ii]
        av = [self.operand(st, fr, a) for a in args]
        return self.invoke(st, inst, av, dest, target, fr, t)
    def invoke(self, st, inst, av, dest, target, fr=None, t=None):
        ct = self.lookup_contract(inst)
        if ct is not None:
            self.contract_uses[inst["name"]] = self.contract_uses.get(inst["name"], 0) + 1
            r = ct(self, st, inst, av)
            if r is not NotImplemented:
                return self.finish_native(st, r, dest, target)
        from . import natives
        nat = natives.lookup(self, inst)
        if nat is not None:
            r = nat(self, st, inst, av)
            if r is not NotImplemented:
                return self.finish_native(st, r, dest, target)
        if inst["kind"] == "virtual":
            return self.call_virtual(st, inst, av, dest, target)
        if inst.get("empty_shim"):
            return self.ret_to(st, dest, target, UNIT)
        if "body" not in inst:
            if target is None:
                raise PanicNow(inst["name"])
            # constructor of a tuple struct or variant used as a function
            k = self.p.kind(self.p.place_ty(st.frames[-1].body, dest)) if st.frames and dest else ("?",)
            if k[0] == "adt" and not k[2].lower().startswith("union"):
                nm = inst["def"].split("::")[-1]
                for i, v in enumerate(k[3]):
                    if v["name"] == nm and len(v["fields"]) == len(av):
                        return self.ret_to(st, dest, target, En(i, tuple(av)) if k[2].lower().startswith("enum") else tuple(av))
            raise Unsupported("no body: %s" % inst["name"])
        self.push_frame(st, inst, av, dest, target)
        return None
    def call_virtual(self, st, inst, av, dest, target):
        v = av[0] if av else None
        if re.search(r"^std::ops::Fn(Mut)?::call(_mut)?$", inst.get("def") or "") and isinstance(v, Ptr) and isinstance(v.meta, tuple) and v.meta[0] == "vt":
            k = self.p.kind(v.meta[1])
            if k[0] == "closure" and isinstance(k[4], int):
                return self.invoke(st, self.p.insts[k[4]], [Ptr(v.cell, v.path, None)] + list(av[1:]), dest, target)
        raise Unsupported("virtual call %s" % inst["name"])
    def finish_native(self, st, r, dest, target):
        if isinstance(r, Fork):
            def mkf(v):
                def f(s):
                    vv = v(s) if callable(v) else v
                    if isinstance(vv, Call):
                        self.do_call(s, vv, dest, target)
                    else:
                        self.ret_to(s, dest, target, vv)
                return f
            return self.branch(st, [(cnd, mkf(v)) for cnd, v in r.opts])
        if isinstance(r, Call):
            return self.do_call(st, r, dest, target)
        if isinstance(r, Seq):
            if not r.calls:
                return self.ret_to(st, dest, target, UNIT)
            for i, (inst, args) in enumerate(reversed(r.calls)):
                self.push_frame(st, self.p.insts[inst], list(args), CHAIN if i else dest, None if i else target)
            return None
        if r is DIVERGE:
            raise PanicNow("diverge")
        return self.ret_to(st, dest, target, r)
    def do_call(self, st, r, dest, target):
        return self.invoke(st, self.p.insts[r.inst], list(r.args), dest, target)

class Fork:
    """a native's answer with several outcomes: list of (cond, value | fn(state)->value)"""
    def __init__(self, opts):
        self.opts = opts
class Seq:
    """calls made one after the other; the last one's result is the answer"""
    def __init__(self, calls):
        self.calls = calls
class Call:
    """tail call"""
    def __init__(self, inst, args):
        self.inst = inst
        self.args = args
DIVERGE = object()

def deref(ex, st, v):
    """the value behind references and MaybeUninit wrappers"""
    while True:
        if isinstance(v, Ptr): v = ex.load(st, v)
        elif isinstance(v, Un): v = v.x[0] if isinstance(v.x, tuple) and len(v.x) == 1 else v.x
        else: return v
