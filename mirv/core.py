"""Check driver: builds the dump of /repo's current code, runs the proof
obligations in parallel, replays / searches on the compiled code, writes
evidence and prints the verdict."""
import hashlib, json, os, re, random, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp
import z3
from . import expr as X
from . import mir, exe
from .exe import Executor, Ptr, En, Un, Opq, Unsupported, Fork, Call
from .expr import E
from .enc import BV, IntEnc, Poly, STATS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
STOP = ("core::fmt::|std::fmt::|alloc::fmt|panicking|::panic|alloc::alloc|rayon|log::|"
        "std::io|std::sys|std::thread|::tests::|serde|bincode")
R256 = 1 << 256
M64 = (1 << 64) - 1

# ------------------------------------------------------------------ build
def sh(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)

class BuildError(Exception):
    pass

def crate_dir(crate):
    """copy of the ops crate in the build folder with a lock file (the lock of
    /repo is not tracked, so cargo is given the sandbox's own)"""
    src = os.path.join(VERIF, "ops", crate)
    dst = os.path.join(BUILD, "ops", crate)
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "ops", "support"), exist_ok=True)
    def cp(a, b):
        if not os.path.exists(b) or open(a, "rb").read() != open(b, "rb").read():
            shutil.copyfile(a, b)
    cp(os.path.join(VERIF, "ops", "support", "support.rs"), os.path.join(BUILD, "ops", "support", "support.rs"))
    for f in os.listdir(os.path.join(src, "src")):
        cp(os.path.join(src, "src", f), os.path.join(dst, "src", f))
    cp(os.path.join(src, "Cargo.toml"), os.path.join(dst, "Cargo.toml"))
    if not os.path.exists(os.path.join(dst, "Cargo.lock")):
        shutil.copyfile(os.path.join(VERIF, "ops", "Cargo.lock.base"), os.path.join(dst, "Cargo.lock"))
    return dst

def build_mirdump():
    r = sh(["cargo", "build", "--offline", "--release", "--target-dir", os.path.join(BUILD, "t_mirdump")],
           env={"RUSTUP_TOOLCHAIN": NIGHTLY, "RUSTFLAGS": "", "CARGO_NET_OFFLINE": "true"},
           cwd=os.path.join(VERIF, "mirdump"))
    if r.returncode:
        raise BuildError("mirdump: " + r.stdout[-3000:])
    return os.path.join(BUILD, "t_mirdump", "release", "mirdump")

def build_dump(crate, ops, tag):
    wrapper = build_mirdump()
    d = crate_dir(crate)
    out = os.path.join(BUILD, "dump_%s.json" % tag)
    if os.path.exists(out):
        os.remove(out)
    sysroot = sh(["rustc", "--print", "sysroot"], env={"RUSTUP_TOOLCHAIN": NIGHTLY}).stdout.strip()
    env = {"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_NET_OFFLINE": "true",
           "LD_LIBRARY_PATH": sysroot + "/lib", "RUSTC_WRAPPER": wrapper,
           "RUSTFLAGS": "--cap-lints allow -Zalways-encode-mir -Zmir-opt-level=1 -Zinline-mir=no -C target-cpu=x86-64-v2",
           "MIRDUMP_CRATE": "ops_" + crate, "MIRDUMP_OUT": out, "MIRDUMP_STOP": STOP,
           "MIRDUMP_ROOTS": "|".join(sorted(ops))}
    lib = os.path.join(d, "src", "lib.rs")
    os.utime(lib)
    r = sh(["cargo", "check", "--lib", "--offline", "--target-dir", os.path.join(BUILD, "t_dump_" + crate)],
           env=env, cwd=d)
    if r.returncode or not os.path.exists(out):
        raise BuildError("dump: " + r.stdout[-3000:])
    return out

def build_native(crate):
    d = crate_dir(crate)
    r = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, "t_native")],
           env={"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true",
                "RUSTFLAGS": "-C target-cpu=x86-64-v2 --cap-lints warn"}, cwd=d)
    if r.returncode:
        raise BuildError("native: " + r.stdout[-3000:])
    return os.path.join(BUILD, "t_native", "debug", "ops-" + crate)

# ------------------------------------------------------------------ native
class Some:
    __slots__ = ("x",)
    def __init__(self, x): self.x = x
    def __eq__(self, o): return isinstance(o, Some) and self.x == o.x
    def __hash__(self): return hash(("Some", self.x))
    def __repr__(self): return "Some(%r)" % (self.x,)
class Ok_:
    __slots__ = ("x",)
    def __init__(self, x): self.x = x
    def __eq__(self, o): return isinstance(o, Ok_) and self.x == o.x
    def __hash__(self): return hash(("Ok", self.x))
    def __repr__(self): return "Ok(%r)" % (self.x,)
ERR = "Err"
PANIC = "PANIC"
CRASH = "CRASH"

def parse(s):
    v, i = _parse(s, 0)
    assert i == len(s), s
    return v
_num = re.compile(r"-?0x[0-9a-f]+|-?\d+")
def _parse(s, i):
    if s.startswith("PANIC", i): return PANIC, i + 5
    if s.startswith("CRASH", i): return CRASH, i + 5
    if s.startswith("NOOP", i): raise RuntimeError("unknown op")
    if s.startswith("None", i): return None, i + 4
    if s.startswith("Err", i): return ERR, i + 3
    if s.startswith("Some(", i):
        v, i = _parse(s, i + 5); return Some(v), i + 1
    if s.startswith("Ok(", i):
        v, i = _parse(s, i + 3); return Ok_(v), i + 1
    if s[i] in "([":
        close = ")" if s[i] == "(" else "]"
        out = []
        o = s[i]
        i += 1
        while s[i] != close:
            v, i = _parse(s, i)
            out.append(v)
            if s[i] == ",":
                i += 1
        return (tuple(out) if o == "(" else out), i + 1
    if s[i] in "fs" and s.startswith("0x", i + 1):
        m = _num.match(s, i + 1)
        return (FE if s[i] == "f" else SE).mont(int(m.group(), 0)), m.end()
    if s[i] == "x":
        j = i + 1
        while j < len(s) and s[j] in "0123456789abcdef":
            j += 1
        return bytes.fromhex(s[i + 1:j]), j
    m = _num.match(s, i)
    if not m:
        raise ValueError("parse %r at %d" % (s, i))
    return int(m.group(), 0), m.end()

PF = (1 << 251) + 17 * (1 << 192) + 1
PS = 0x0800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f
class FE(int):
    """field element (canonical residue), passed and printed as its stored Montgomery word"""
    P = PF
    RI = pow(1 << 256, -1, PF)
    @classmethod
    def mont(cls, w):
        if w >= cls.P:
            return BadRep(w)
        return cls(w * cls.RI % cls.P)
    def __repr__(self): return "%s(%s)" % (type(self).__name__, hex(self))
class SE(FE):
    """element of the curve's scalar field"""
    P = PS
    RI = pow(1 << 256, -1, PS)
class BadRep:
    """a stored word that is not reduced"""
    def __init__(self, w): self.w = w
    def __repr__(self): return "unreduced word %x" % self.w
class Raw(str):
    """argument text passed as it is"""
class U(int):
    """a 256-bit argument (printed in hex)"""
def show(a):
    if isinstance(a, bool): return "1" if a else "0"
    if isinstance(a, FE): return "%x" % (int(a) % a.P * (1 << 256) % a.P)
    if isinstance(a, Raw): return str(a)
    if isinstance(a, U): return "%x" % a
    if isinstance(a, int): return str(a)
    if isinstance(a, bytes): return "x" + a.hex()
    if isinstance(a, str): return "x" + a.encode().hex()
    if isinstance(a, (list, tuple)): return "[" + ",".join(show(x) for x in a) + "]"
    raise TypeError(type(a))

class Native:
    def __init__(self, binary):
        self.bin = binary
        self.calls = 0
    def run(self, cases, timeout=120, per=20000):
        """cases: list of (op, args) -> list of parsed results; a case that ends the process or does not end is "CRASH\""""
        out = []
        i = bad = 0
        while i < len(cases):
            chunk = cases[i:i + per]
            lines, slow = self._go(chunk, timeout)
            if len(lines) < len(chunk):
                # the next case ended the process, or the time: on its own?
                if bad >= 4: lines += ["CRASH"] * (len(chunk) - len(lines))
                else:
                    one, slow1 = self._go([chunk[len(lines)]], 60 if not bad else 20)
                    if one: lines.append(one[0])
                    else:
                        lines.append("CRASH")
                        bad += slow1
                        timeout = 40 if bad else timeout
            out.extend(parse(x) for x in lines)
            i += len(lines)
        self.calls += len(cases)
        return out
    def _go(self, chunk, timeout):
        """-> complete lines of output, whether the time ran out"""
        inp = "".join(op + "".join(" " + show(a) for a in args) + "\n" for op, args in chunk)
        try:
            p = subprocess.run([self.bin], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
            return p.stdout.split("\n")[:-1], False
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b""
            if isinstance(o, bytes): o = o.decode(errors="replace")
            return o.split("\n")[:-1], True

# ------------------------------------------------------------------ values
class Vals:
    """symbolic / concrete mirv values from and to Python values, by type"""
    def __init__(self, prog):
        self.p = prog
        self.cells = {}
        self.ncell = 0
    def is_vec(self, ty):
        return self.p.kind(ty)[0] == "adt" and self.p.tname(ty).startswith("std::vec::Vec<")
    def vec(self, elems):
        """a Vec holding the given values (its buffer is a cell of self.cells)"""
        self.ncell -= 1
        self.cells[self.ncell] = tuple(elems)
        n = X.c(len(elems), 64)
        return ((((Ptr(self.ncell, (0,)),), (n,), ()), ()), n)
    def slice(self, elems):
        """&[T] or &mut [T] to the given values"""
        self.ncell -= 1
        self.cells[self.ncell] = tuple(elems)
        return Ptr(self.ncell, (0,), X.c(len(elems), 64))
    def ref(self, v):
        self.ncell -= 1
        self.cells[self.ncell] = v
        return Ptr(self.ncell, ())
    def is_u256(self, ty):
        k = self.p.kind(ty)
        return k[0] == "adt" and self.p.tname(ty).endswith("U256")
    def sym(self, ty, name, hint=None):
        k = self.p.kind(ty)
        if k[0] in ("int", "uint"):
            return X.var(name, k[1])
        if k[0] == "bool":
            return X.var(name, 0)
        if k[0] == "array":
            return tuple(self.sym(k[1], "%s_%d" % (name, i)) for i in range(k[2]))
        if k[0] == "tuple":
            return tuple(self.sym(t, "%s_%d" % (name, i)) for i, t in enumerate(k[1]))
        if k[0] == "adt" and k[2].lower().startswith("struct"):
            fs = k[3][0]["fields"]
            return tuple(self.sym(f[1], name if len(fs) == 1 else "%s_%s" % (name, f[0])) for f in fs)
        raise Unsupported("symbolic argument of type " + self.p.tname(ty))
    def conc(self, ty, v):
        """Python value -> mirv value"""
        k = self.p.kind(ty)
        if isinstance(v, FE):
            v = int(v) * R256 % v.P
        if k[0] in ("int", "uint"):
            return X.c(v & ((1 << k[1]) - 1), k[1])
        if k[0] == "bool":
            return X.c(1 if v else 0, 0)
        if k[0] == "array":
            if isinstance(v, int):
                v = [(v >> (64 * i)) & M64 for i in range(k[2])]
            return tuple(self.conc(k[1], x) for x in v)
        if k[0] == "tuple":
            return tuple(self.conc(t, x) for t, x in zip(k[1], v))
        if self.is_vec(ty):
            return self.vec([self.conc(k[4][0], x) for x in v])
        if k[0] == "adt" and isinstance(v, Raw):
            raise Unsupported("argument text")
        if k[0] == "adt" and k[2].lower().startswith("struct"):
            fs = k[3][0]["fields"]
            if len(fs) == 1:
                return (self.conc(fs[0][1], v),)
            if len(fs) == 2 and self.p.size(fs[1][1]) == 0:
                return (self.conc(fs[0][1], v), ())
            if isinstance(v, (list, tuple)) and len(v) == len(fs):
                return tuple(self.conc(ft, x) for (nm, ft), x in zip(fs, v))
        raise Unsupported("concrete argument of type " + self.p.tname(ty))
    def from_model(self, ty, name, model):
        k = self.p.kind(ty)
        if k[0] in ("int", "uint"):
            v = model.get(name, 0) & ((1 << k[1]) - 1)
            if k[0] == "int" and v >> (k[1] - 1):
                v -= 1 << k[1]
            return v
        if k[0] == "bool":
            return bool(model.get(name, 0))
        if k[0] == "adt" and "PrimeField<" in self.p.tname(ty):
            w = sum((int(model.get("%s_%d" % (name, i), 0)) & M64) << (64 * i) for i in range(4))
            C = FE if "Proth" in self.p.tname(ty) else SE
            return C(w * C.RI % C.P)
        if self.is_u256(ty):
            return U(sum((int(model.get("%s_%d" % (name, i), 0)) & M64) << (64 * i) for i in range(4)))
        if k[0] == "array":
            return [self.from_model(k[1], "%s_%d" % (name, i), model) for i in range(k[2])]
        if k[0] == "adt" and k[2].lower().startswith("struct"):
            f = k[3][0]["fields"][0]
            return self.from_model(f[1], name, model)
        raise Unsupported("model for type " + self.p.tname(ty))
    def py(self, ex, st, ty, v):
        """concrete mirv value -> Python value as printed by the ops server"""
        k = self.p.kind(ty)
        if k[0] in ("int", "uint"):
            x = v.val
            if k[0] == "int" and x >> (k[1] - 1):
                x -= 1 << k[1]
            return x
        if k[0] == "bool":
            return int(v.val)
        if k[0] == "array":
            return [self.py(ex, st, k[1], x) for x in v]
        if k[0] == "tuple":
            return tuple(self.py(ex, st, t, x) for t, x in zip(k[1], v))
        if self.is_u256(ty):
            return sum(e.val << (64 * i) for i, e in enumerate(v[0]))
        if k[0] == "adt" and "PrimeField<" in self.p.tname(ty) and len(v) == 2:
            return (FE if "Proth" in self.p.tname(ty) else SE).mont(sum(e.val << (64 * i) for i, e in enumerate(u256(v[0]))))
        if self.is_vec(ty):
            return [self.py(ex, st, k[4][0], x) for x in vecval(st, v, ex)]
        if k[0] == "adt" and self.p.tname(ty) == "zkp_hash::Hash":
            return bytes(x.val for x in v[0])
        if k[0] == "adt" and isinstance(v, En):
            vs = k[3][v.v]
            f = [self.py(ex, st, t[1], x) for t, x in zip(vs["fields"], v.f)]
            if vs["name"] == "None": return None
            if vs["name"] == "Some": return Some(f[0])
            if vs["name"] == "Ok": return Ok_(f[0])
            if vs["name"] == "Err": return ERR
        raise Unsupported("result of type " + self.p.tname(ty))

def vecval(st, v, ex=None):
    """elements of a Vec value"""
    p, n = v[0][0][0][0], v[1]
    if not n.const:
        raise Unsupported("vector of symbolic length")
    if n.val == 0:
        return ()
    b = st.cells.get(p.cell)
    if b is None and ex is not None:
        b = ex.base_cells.get(p.cell)
    s = p.path[-1]
    if len(p.path) != 1 or len(b) < s + n.val:
        raise Unsupported("vector layout")
    return b[s:s + n.val]

def u256(v):
    """limbs of a mirv U256 value (also of wrappers around one)"""
    while len(v) != 4:
        v = v[0]
    return v

# ------------------------------------------------------------------ proofs
class Verdict:
    def __init__(self, name):
        self.name = name
        self.status = "unknown"
        self.reason = ""
        self.goals = 0
        self.discharged = 0
        self.paths = 0
        self.models = []        # (op, args)
        self.funcs = {}
        self.contracts = {}
        self.time = 0.0
        self.queries = 0
        self.solver_s = 0.0
        self.back = {}
        self.failed = []
        self.sig = None         # of a private function: its argument and result types

class Env:
    def __init__(self, prog):
        self.prog = prog
        self.vals = Vals(prog)

def argtypes(prog, inst):
    b = prog.insts[inst]["body"]
    return [b["locals"][i + 1] for i in range(b["argc"])], b["locals"][0]

def signature(prog, inst):
    """the types of a private function with the fields of the repository's own structures: an obligation on it
    is about these, and says nothing about a function of that name with others"""
    import hashlib
    ats, rt = argtypes(prog, inst)
    seen, out = set(), []
    def walk(t):
        if t in seen: return
        seen.add(t)
        k = prog.kind(t)
        out.append(prog.tname(t))
        if k[0] == "adt":
            if prog.tname(t).startswith("zkp_"):
                for v in k[3]:
                    for nm, ft in v["fields"]:
                        out.append(nm)
                        walk(ft)
            else:
                for a in k[4]:
                    if isinstance(a, int): walk(a)
        else:
            for a in (k[1:2] if k[0] in ("ref", "ptr", "slice", "array", "tuple") else ()):
                for b in a if isinstance(a, list) else [a]: walk(b)
    for t in ats + [rt]: walk(t)
    return hashlib.sha256("|".join(out).encode()).hexdigest()[:16]

def rtypes(prog, op):
    return argtypes(prog, prog.root(op))

class Prove:
    """One obligation: the real code of entry point `op`, for all inputs.
    mode 'bv' (exact), 'int' (integer polynomials; over-approximating)."""
    def __init__(self, op, post, mode="bv", pre=None, argf=None, panics=None, contracts=(), name=None,
                 timeout=60, feasible=None, lemmas=None, max_steps=2000000, feas_int=False, cex=True,
                 max_paths=5000, setup=None, inst=None, ends=True, strategies=(True, False), merge=False):
        self.merge = merge
        self.strategies = strategies
        self.op = op
        self.post = post
        self.mode = mode
        self.pre = pre
        self.argf = argf
        self.panics = panics
        self.contracts = contracts
        self.name = name or op
        self.timeout = timeout
        self.feas = feasible
        self.lemmas = lemmas
        self.max_steps = max_steps
        self.cex = cex
        self.max_paths = max_paths
        self.setup = setup
        self.inst = inst            # regex: verify this (private) function instead of the entry point
        self.ends = ends            # some path has to return (else: a loop case that goes on)
        self.ops = [op]
    def run(self, env):
        v = Verdict(self.name)
        prog = env.prog
        t0 = time.time()
        if self.inst:
            rx = re.compile(self.inst)
            c_ = [i for i, x in enumerate(prog.insts) if rx.search(x["name"]) and "body" in x]
            if not c_:
                raise Unsupported("function %s is not in the program" % self.inst)
            inst = c_[0]
            v.sig = signature(prog, inst)
        else:
            inst = prog.root(self.op)
        ats, rt = argtypes(prog, inst)
        names = "abdefghk"
        ex = Executor(prog, max_steps=self.max_steps, max_paths=self.max_paths)
        ex.merging = self.merge
        for rx, fn in self.contracts:
            ex.contracts.append((re.compile(rx), fn))
        cells = {}
        if self.argf:
            env.vals.cells = {}
            args = self.argf(env, ats)
            if isinstance(args, tuple):
                args, cells = args
                ex.ncell = 1000
            cells = {**cells, **env.vals.cells}
        else:
            args = [env.vals.sym(t, names[i]) for i, t in enumerate(ats)]
        pc = list(self.pre(*args)) if self.pre else []
        enc_bv = BV()
        if self.feas == "int":
            def feas(pc_):
                ie_ = IntEnc()
                zc = [ie_.convb(c__) for c__ in pc_]
                return ie_.check(zc, 1500)[0] != "unsat"
            ex.feasible = feas
        elif self.feas:
            def feas(pc_):
                r, _ = enc_bv.check(pc_, 2000)
                return r != "unsat"
            ex.feasible = feas
        if self.setup:
            self.setup(env, ex, args)
        st = ex.start(inst, args, pc=pc, cells=cells)
        st.ghost["args"] = args
        self.ex = ex
        done = ex.run(st)
        v.paths = len(done)
        v.funcs = {prog.insts[i]["name"]: n for i, n in ex.calls.items()}
        v.contracts = dict(ex.contract_uses)
        live = 0
        for s in done + [None]:
            if s is None:
                # obligations collected along the way (contract preconditions)
                items = [(("pre", lab), pcs, cond) for pcs, cond, lab in ex.obligations]
            elif s.result[0] == "panic":
                if self.panics is None:
                    items = [(("no panic", s.result[1:]), s.pc, X.c(0, 0))]
                else:
                    items = [(("panic only if", s.result[1:]), s.pc, self.panics(*args))]
            else:
                live += 1
                if self.panics is not None:
                    items = [(("must panic", ""), s.pc, X.bnot(self.panics(*args)))]
                else:
                    items = []
                if self.mode == "bv":
                    items += [((lab, ""), s.pc, g) for lab, g in self.post(s, args, s.result[1])]
                else:
                    items += [((lab, ""), s.pc, g) for lab, g in [("post", None)]]
            for lab, pcs, g in items:
                if self.mode == "bv":
                    v.goals += 1
                    if g.const and g.val:
                        v.discharged += 1
                        v.back["simplifier"] = v.back.get("simplifier", 0) + 1
                        continue
                    r, m = enc_bv.check(pcs + [X.bnot(g)], int(self.timeout * 1000))
                    self.account(v, r, m, lab, env, ats, names)
                else:
                    self.int_goals(v, s, lab, pcs, g, args, env, ats, names)
        if live == 0 and self.panics is None and self.ends:
            v.status = "unknown"
            v.reason = "no returning path (vacuous)"
        elif v.discharged == v.goals and v.goals > 0:
            v.status = "proved"
        v.time = time.time() - t0
        v.queries, v.solver_s = STATS.queries, STATS.solver_s
        return v
    def int_goals(self, v, s, lab, pcs, g, args, env, ats, names):
        """goals over the integers; two sound encodings of the same formula are
        tried, a goal is discharged when either is unsatisfiable"""
        best = {}
        names_ = []
        pcs, fixed = X.propagate(list(pcs))
        if any(c.const and not c.val for c in pcs):
            pcs = [X.FALSE]
        if fixed and isinstance(g, E): g = X.subst(g, fixed)
        for tight in self.strategies:
            ie = IntEnc(tight)
            ie.state = s
            zp = [ie.convb(c) for c in pcs]
            gs = [(lab, g)] if g is not None else [((l, ""), x) for l, x in self.post(ie, args, s.result[1])]
            names_ = [l for l, _ in gs]
            for i, (lab2, gg) in enumerate(gs):
                if best.get(i, ("",))[0] == "unsat":
                    continue
                r, m, how = "sat", {}, "z3-lia"
                alts = [gg]
                if isinstance(gg, (Cong, Poly)):
                    M = gg.M if isinstance(gg, Cong) else 0
                    p = gg.poly if M else gg
                    rest = Poly({k: c % M for k, c in p.d.items() if c % M}) if M else p
                    if not rest.d:
                        best[i] = ("unsat", None, "polynomial-normalisation")
                        continue
                    alts = [ie.zp(rest) == 0]
                    if M and M & (M - 1):
                        lo, hi = ie.bounds(p)
                        kk = z3.FreshInt("k")
                        # p = M k + rem with 0 < rem < M is to be refuted
                        alts.append(("neg", [ie.zp(p) > M * kk, ie.zp(p) < M * kk + M]))
                        if tight == "named":
                            alts = alts[::-1][:1]
                elif isinstance(gg, E):
                    if gg.const and gg.val:
                        best[i] = ("unsat", None, "simplifier")
                        continue
                    alts = [ie.convb(gg)]
                for a in alts:
                    extra = self.lemmas(ie, args, s.result if s else None, pcs) if self.lemmas else []
                    neg = a[1] if isinstance(a, tuple) else [z3.Not(a)]
                    r, m = ie.check(zp + extra + neg, int(self.timeout * 1000))
                    if r == "unsat":
                        break
                best[i] = (r, m, how)
            if all(best[i][0] == "unsat" for i in range(len(gs))):
                break
        for i, lab2 in enumerate(names_):
            v.goals += 1
            r, m, how = best[i]
            if r == "unsat" and how != "z3-lia":
                v.discharged += 1
                v.back[how] = v.back.get(how, 0) + 1
            else:
                self.account(v, r, m, lab2, env, ats, names, exact=False)
    def account(self, v, r, m, lab, env, ats, names, exact=True):
        b = "z3-bv" if self.mode == "bv" else "z3-lia"
        if r == "unsat":
            v.discharged += 1
            v.back[b] = v.back.get(b, 0) + 1
            return
        v.failed.append("%s: %s" % (lab, r))
        if r == "sat":
            v.status = "refuted"
            if self.cex:
                try:
                  if not self.inst:
                    v.models.append((self.op, [env.vals.from_model(t, names[i], m) for i, t in enumerate(ats)]))
                except Unsupported:
                    pass
        if not v.reason:
            v.reason = "%s %s" % (lab, r)

class Cong:
    """goal: polynomial congruent to 0 modulo the constant M"""
    def __init__(self, poly, M):
        self.poly, self.M = poly, M
class Custom:
    """obligation given as a Python function of env returning a Verdict"""
    def __init__(self, name, ops, fn, timeout=120):
        self.name, self.ops, self.fn, self.timeout = name, ops, fn, timeout
    def run(self, env):
        v = Verdict(self.name)
        t0 = time.time()
        self.fn(env, v)
        if v.status == "unknown" and v.goals and v.goals == v.discharged:
            v.status = "proved"
        v.time = time.time() - t0
        v.queries, v.solver_s = STATS.queries, STATS.solver_s
        return v

class Many:
    """a family of obligations (an exhaustive case split) judged as one group"""
    def __init__(self, name, subs, timeout=120):
        self.name, self.subs, self.timeout = name, subs, timeout
        self.ops = sorted({o for s in subs for o in s.ops})
        self.op = subs[0].op
        self.inst = None
    def run(self, env):
        v = Verdict(self.name)
        t0 = time.time()
        st = []
        for s in self.subs:
            w = s.run(env)
            st.append(w.status)
            v.goals += w.goals
            v.discharged += w.discharged
            v.paths += w.paths
            v.models += w.models
            v.failed += ["%s: %s" % (s.name, f) for f in w.failed]
            if w.sig: v.sig = (v.sig or "") + w.sig
            for d, e in ((v.funcs, w.funcs), (v.contracts, w.contracts), (v.back, w.back)):
                for k, n in e.items(): d[k] = d.get(k, 0) + n
            if w.status != "proved" and not v.reason: v.reason = "%s: %s" % (s.name, w.reason)
        v.status = "refuted" if "refuted" in st else "proved" if all(x == "proved" for x in st) else "unknown"
        if v.sig: v.sig = hashlib.sha256(v.sig.encode()).hexdigest()[:16]
        v.time = time.time() - t0
        v.queries, v.solver_s = STATS.queries, STATS.solver_s
        return v

def _child(ob, env, conn):
    try:
        sys.setrecursionlimit(20000)
        STATS.queries = 0
        STATS.solver_s = 0.0
        v = ob.run(env)
    except Unsupported as e:
        v = Verdict(ob.name)
        v.reason = "outside the verifier's reach: %s" % (e,)
    except KeyError as e:
        v = Verdict(ob.name)
        v.reason = "missing: %s" % (e,)
    except Exception as e:
        v = Verdict(ob.name)
        v.reason = "internal: " + traceback.format_exc()[-600:]
    try:
        conn.send(v)
    except Exception as e:
        v2 = Verdict(ob.name)
        v2.reason = "result not transferable: %s" % e
        conn.send(v2)
    conn.close()

def run_obligations(obs, env, deadline, jobs=8):
    ctx = mp.get_context("fork")
    res = {}
    queue = list(enumerate(obs))[::-1]
    running = {}
    while queue or running:
        while queue and len(running) < jobs and time.time() < deadline:
            i, ob = queue.pop()
            a, b = ctx.Pipe()
            p = ctx.Process(target=_child, args=(ob, env, b), daemon=True)
            p.start()
            b.close()
            running[i] = (p, a, time.time() + ob.timeout * 2 + 10)
        if time.time() >= deadline:
            for i, ob in queue:
                v = Verdict(ob.name)
                v.reason = "time budget exhausted"
                res[i] = v
            queue = []
        mp.connection.wait([a for _, a, _ in running.values()], timeout=0.2)
        for i in list(running):
            p, a, dl = running[i]
            try:
                if a.poll():
                    res[i] = a.recv()
                    p.join()
                    del running[i]
                    continue
            except EOFError:
                v = Verdict(obs[i].name)
                v.reason = "verifier process died"
                res[i] = v
                p.join()
                del running[i]
                continue
            if time.time() > min(dl, deadline + 5):
                p.kill()
                p.join()
                v = Verdict(obs[i].name)
                v.reason = "timeout"
                res[i] = v
                del running[i]
    return [res[i] for i in range(len(obs))]
import multiprocessing.connection

# ------------------------------------------------------------------ search
class Search:
    """inputs for `op` judged by `oracle(*args) -> expected` or
    `judge(args, result) -> None | str`"""
    def __init__(self, op, gen, oracle=None, judge=None, n=400, known=None, fixed=()):
        self.op, self.gen, self.oracle, self.judge, self.n = op, gen, oracle, judge, n
        self.known = known
        self.fixed = list(fixed)
    def ok(self, args, res):
        if self.judge:
            return self.judge(args, res)
        exp = self.oracle(*args)
        if exp == res:
            return None
        return "expected %s" % (fmt(exp),)

def fmt(x):
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) > 1 << 32:
        return hex(x)
    if isinstance(x, (list, tuple)):
        return "(" + ", ".join(fmt(y) for y in x) + ")"
    if isinstance(x, Some): return "Some(" + fmt(x.x) + ")"
    if isinstance(x, Ok_): return "Ok(" + fmt(x.x) + ")"
    return repr(x)

# corner-biased generators
def limb(r):
    k = r.randrange(8)
    if k == 0: return 0
    if k == 1: return M64
    if k == 2: return r.choice([1, 2, M64 - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, (1 << 32) - 1])
    if k == 3: return 1 << r.randrange(64)
    if k == 4: return r.getrandbits(r.randrange(1, 65))
    return r.getrandbits(64)
def gu256(r):
    k = r.randrange(10)
    if k == 0: return U(r.choice([0, 1, 2, 3, R256 - 1, R256 - 2, 1 << 255, (1 << 255) - 1, 1 << 128, (1 << 128) - 1, 1 << 64, M64]))
    if k == 1: return U(r.getrandbits(256))
    if k == 2: return U((r.choice([1, r.getrandbits(8)]) << r.randrange(256)) % R256)
    if k == 3: return U(((1 << r.randrange(1, 257)) - r.randrange(3)) % R256)
    if k == 4: return U(r.getrandbits(r.randrange(1, 257)))
    return U(sum(limb(r) << (64 * i) for i in range(4)))
def gu64(r): return limb(r)
def below(m, special=()):
    sp = [0, 1, 2, m - 1, m - 2, m // 2, m // 2 + 1, R256 % m, (R256 - 1) % m, pow(R256, 2, m)] + list(special)
    def g(r):
        k = r.randrange(6)
        if k == 0: return U(r.choice(sp))
        if k == 1: return U((m - r.getrandbits(r.randrange(1, 70))) % m)
        if k == 2: return U(r.getrandbits(r.randrange(1, 257)) % m)
        return U(gu256(r) % m)
    return g
def gint(bits, signed):
    def g(r):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        k = r.randrange(4)
        if k == 0: return r.choice([lo, hi, lo + 1, hi - 1, 0, 1, max(lo, -1)])
        if k == 1:
            return max(lo, min(hi, r.choice([1, -1]) * ((1 << r.randrange(bits)) + r.randrange(-1, 2))))
        return r.randint(lo, hi)
    return g
def gens(*gs):
    return lambda r: [g(r) for g in gs]

# ------------------------------------------------------------------ check
class Check:
    def __init__(self, pid, crate, level="proof"):
        self.pid, self.crate, self.level = pid, crate, level
        self.obs = []
        self.searches = []
        self.assumptions = []
        self.bounded = []
        self.notes = []
        self.quick_budget = 240
    def prove(self, *a, **k):
        self.obs.append(Prove(*a, **k))
    def many(self, name, subs, **k):
        self.obs.append(Many(name, subs, **k))
    def custom(self, *a, **k):
        self.obs.append(Custom(*a, **k))
    def search(self, *a, **k):
        self.searches.append(Search(*a, **k))
    def run(self):
        t0 = time.time()
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        scale = 1 if tier == "quick" else 25
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ops = set()
        for o in self.obs:
            ops.update(o.ops)
        dumperr = None
        env = None
        try:
            native = build_native(self.crate)
        except BuildError as e:
            print("%s: the code does not build\n%s" % (self.pid, str(e)[-2500:]))
            return 2
        self.hash = ""
        if self.obs:
            try:
                path = build_dump(self.crate, ops, self.pid)
                env = Env(mir.Program(path))
                self.hash = program_hash(env.prog)
                os.remove(path)
            except BuildError as e:
                dumperr = str(e)
        nat = Native(native)
        t_build = time.time() - t0
        # --- proofs
        if env:
            budget = self.quick_budget * (1 if tier == "quick" else 6)
            if tier != "quick":
                for o in self.obs:
                    o.timeout *= 6
            verdicts = run_obligations(self.obs, env, time.time() + budget)
        else:
            verdicts = []
            for o in self.obs:
                v = Verdict(o.name)
                v.reason = "no dump: " + str(dumperr)
                verdicts.append(v)
        # --- validate the executor against the compiled code on concrete inputs
        valid = self.validate(env, nat, seed) if env else {}
        # --- search
        sby = {}
        for s in self.searches:
            sby.setdefault(s.op, []).append(s)
        cases = []
        rng = random.Random(seed * 1000003 + sum(map(ord, self.pid)))
        weak = {ob.op for ob, v in zip(self.obs, verdicts) if v.status != "proved" and isinstance(ob, (Prove, Many))}
        for s in self.searches:
            for a in s.fixed:
                cases.append((s, a))
            n = s.n * scale * (8 if s.op in weak else 1)
            for _ in range(n):
                cases.append((s, s.gen(rng)))
        nmod = len(cases)
        for v in verdicts:
            for op, args in v.models:
                for s in sby.get(op, []):
                    if not same_shape(args, s.gen(rng)): continue
                    cases.append((s, args))
                    for _ in range(200):
                        cases.append((s, perturb(rng, args)))
        t1 = time.time()
        res = nat.run([(s.op, a) for s, a in cases]) if cases else []
        viol = []
        distinct = set()
        seen_bad = set()
        for ix, ((s, a), r) in enumerate(zip(cases, res)):
            distinct.add((s.op, show(a)))
            try: bad = s.ok(a, r)
            except Exception:
                if ix < nmod: raise
                continue        # a solver model that is not an argument of the operation
            if bad and (s.op, show(a)) not in seen_bad:
                seen_bad.add((s.op, show(a)))
                viol.append((s, a, r, bad))
        t_search = time.time() - t1
        extra_viol, extra_cov = self.extra(nat, rng, tier) if hasattr(self, "extra") else ([], {})
        return self.report(tier, seed, t0, t_build, t_search, verdicts, valid, cases, distinct, viol, extra_viol, extra_cov)
    def validate(self, env, nat, seed):
        """concrete runs of the executor vs the compiled code"""
        rng = random.Random(seed)
        todo = []
        done = set()
        for ob in self.obs:
            for op in ob.ops:
                if op in done:
                    continue
                done.add(op)
                for s in self.searches:
                    if s.op == op:
                        for _ in range(2):
                            todo.append((op, s.gen(rng)))
                        break
        ok = bad = skip = 0
        bads = []
        if not todo:
            return {"agree": 0, "skipped": 0, "disagree": []}
        exp = nat.run(todo)
        for (op, args), e in zip(todo, exp):
            try:
                inst = env.prog.root(op)
                ats, rt = argtypes(env.prog, inst)
                ex = Executor(env.prog, max_steps=60000)
                env.vals.cells = {}
                cargs = [env.vals.conc(t, a) for t, a in zip(ats, args)]
                st = ex.start(inst, cargs, cells=env.vals.cells)
                d = ex.run(st)
                if len(d) != 1:
                    raise Unsupported("paths")
                got = PANIC if d[0].result[0] == "panic" else env.vals.py(ex, d[0], rt, d[0].result[1])
            except Exception as ee:
                skip += 1
                continue
            if got == e:
                ok += 1
            else:
                bad += 1
                bads.append("%s %s: executor %s, compiled %s" % (op, [show(a) for a in args], fmt(got), fmt(e)))
        return {"agree": ok, "skipped": skip, "disagree": bads}
    def report(self, tier, seed, t0, t_build, t_search, verdicts, valid, cases, distinct, viol, extra_viol, extra_cov):
        pid = self.pid
        known = load_known(pid)
        lines = []
        kf = []
        real = []
        for s, a, r, bad in viol:
            k = match_known(known, s.op, a)
            if k:
                kf.append(k)
            else:
                real.append(("%s(%s) returned %s; %s" % (s.op, ", ".join(show(x) for x in a), fmt(r), bad),
                             {"op": s.op, "args": [show(x) for x in a], "result": fmt(r), "why": bad}))
        for what, rec in extra_viol:
            k = match_known(known, rec.get("op", ""), rec.get("args", []), what)
            if k:
                kf.append(k)
            else:
                real.append((what, rec))
        refuted = [v for v in verdicts if v.status == "refuted"]
        disagree = valid.get("disagree", []) if valid else []
        funcs = {}
        back = {}
        contr = {}
        for v in verdicts:
            if v.status == "proved":
                for f, n in v.funcs.items():
                    funcs[f] = funcs.get(f, 0) + n
            for b, n in v.back.items():
                back[b] = back.get(b, 0) + n
            for b, n in v.contracts.items():
                contr[b] = contr.get(b, 0) + n
        goals = sum(v.goals for v in verdicts)
        disc = sum(v.discharged for v in verdicts)
        undecided = [{"obligation": v.name, "reason": v.reason[:700]} for v in verdicts if v.status != "proved"]
        fail_proof = []
        base = load_baseline(pid)
        sigs = (base or {}).get("sigs", {})
        for v in verdicts:
            if v.status != "proved" and v.sig and sigs.get(v.name, v.sig) != v.sig:
                v.status, v.reason, v.failed = "unknown", "the private function has other argument types than the obligation is about", []
        refuted = [v for v in verdicts if v.status == "refuted"]
        changed = bool(base) and self.hash != base["hash"]
        lost = [v for v in verdicts if v.status == "unknown" and v.failed and changed and v.name in base["proved"]]
        if (refuted or lost) and not real:
            fail_proof = [v for v in refuted + lost if not match_known(known, v.name, [])]
            if disagree:
                fail_proof = []
        if os.environ.get("VERIF_REBASE"):
            save_baseline(pid, {"hash": self.hash, "proved": sorted(v.name for v in verdicts if v.status == "proved"), "sigs": {v.name: v.sig for v in verdicts if v.sig}})
        vcount = len(real) + len(fail_proof)
        repo_funcs = sorted(f for f in funcs if "zkp_" in f)
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": self.level,
            "coverage": {
                "obligations": goals, "discharged": disc,
                "obligation_groups": len(verdicts),
                "groups_proved": sum(v.status == "proved" for v in verdicts),
                "paths": sum(v.paths for v in verdicts),
                "checker_cmd": "python3-vt /verif/run.py %s" % pid,
                "trusted_base": ["mirdump (rustc nightly front end, MIR export)", "mirv executor and encoders (Python)", "z3"] + self.assumptions_short(),
                "back_ends": back, "contracts_used_at_calls": contr,
                "solver_queries": sum(v.queries for v in verdicts),
                "solver_s": round(sum(v.solver_s for v in verdicts), 2),
                "functions_executed_for_all_inputs": repo_funcs[:400],
                "undecided": undecided,
                "groups": [{"name": v.name, "status": v.status, "goals": v.goals, "paths": v.paths, "s": round(v.time, 2)} for v in verdicts],
                "executor_validation": {k: (len(x) if isinstance(x, list) else x) for k, x in (valid or {}).items()},
                "executor_disagreements": disagree[:5],
                "evaluations": len(cases) + extra_cov.get("evaluations", 0),
                "distinct_nontrivial": len(distinct) + extra_cov.get("distinct", 0),
                "rule": "native runs of the compiled code on corner-biased pseudo-random inputs (limbs drawn from 0, 1, 2^64-1, powers of two, random), judged by an independent Python oracle; bounded, never counted as proved",
                "samples": [{"op": s.op, "args": [show(x) for x in a]} for s, a in cases[:: max(1, len(cases) // 5)][:5]] + extra_cov.get("samples", []),
                "extra": {k: v for k, v in extra_cov.items() if k not in ("samples",)},
            },
            "assumptions": self.assumptions,
            "bounded": self.bounded,
            "wall_s": round(time.time() - t0, 2),
            "build_s": round(t_build, 2), "search_s": round(t_search, 2),
            "violations": vcount,
        }
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for k in sorted(set(kf)):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("%s: %d/%d proof goals discharged in %d groups (%d undecided), %d native evaluations, %.0f s" % (
            pid, disc, goals, len(verdicts), len(undecided), len(cases) + extra_cov.get("evaluations", 0), time.time() - t0))
        for u in undecided:
            print("  undecided: %s: %s" % (u["obligation"], u["reason"][:300]))
        for d in disagree[:3]:
            print("  executor disagrees with the compiled code: " + d[:300])
        if real:
            p = replay_file(pid, {"property": pid, "seed": seed, "failing_inputs": [r for _, r in real[:20]],
                                  "failed_obligations": [f for v in verdicts for f in v.failed][:20],
                                  "how": "printf 'OP ARGS\\n' | %s" % os.path.join(BUILD, "t_native/debug/ops-" + self.crate)})
            for w, _ in real[:5]:
                print("  failing input: " + w[:600])
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        if fail_proof:
            p = replay_file(pid, {"property": pid, "seed": seed,
                                  "failed_obligations": [{"obligation": v.name, "goals": v.failed[:10], "models": [[op, [show(x) for x in a]] for op, a in v.models[:5]]} for v in fail_proof]})
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
            return 1
        return 0
    def assumptions_short(self):
        return []

def perturb(r, args):
    out = []
    for a in args:
        if isinstance(a, U):
            k = r.randrange(6)
            if k == 0: a = U((a + r.randrange(-2, 3)) % R256)
            elif k == 1: a = U(a ^ (1 << r.randrange(256)))
            elif k == 2: a = U(a & ~(M64 << (64 * r.randrange(4))) | (limb(r) << (64 * r.randrange(4))) % R256)
            a = U(a % R256)
        elif isinstance(a, int) and not isinstance(a, bool):
            if r.randrange(4) == 0 and 0 < a < M64:
                a = a + r.choice([-1, 1])
        out.append(a)
    return out

def program_hash(prog):
    """hash of the dumped MIR without source positions"""
    import hashlib
    def strip(b):
        return [b["argc"], b["locals"], [[x[0], x[1]] for x in b["blocks"]]]
    items = [[x["name"], x.get("kind"), strip(x["body"]) if "body" in x else None] for x in prog.insts]
    return hashlib.sha256(json.dumps(items, sort_keys=True).encode()).hexdigest()[:24]
BASE = os.path.join(VERIF, "baseline.json")
def load_baseline(pid):
    return json.load(open(BASE)).get(pid) if os.path.exists(BASE) else None
def save_baseline(pid, d):
    b = json.load(open(BASE)) if os.path.exists(BASE) else {}
    b[pid] = d
    json.dump(b, open(BASE, "w"), indent=0, sort_keys=True)

def same_shape(a, b):
    """a model's arguments look like generated ones"""
    k = lambda x: "list" if isinstance(x, (list, tuple)) else "int" if isinstance(x, int) else type(x).__name__
    return len(a) == len(b) and all(k(x) == k(y) for x, y in zip(a, b))
def replay_file(pid, d):
    p = os.path.join(VERIF, "evidence", "replay_%s.json" % pid)
    json.dump(d, open(p, "w"), indent=1)
    return p

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]
def match_known(known, op, args, what=None):
    for k in known:
        if k.get("op") == op and ("args" not in k or [str(x) for x in k["args"]] == [x if isinstance(x, str) else show(x) for x in args]):
            if "what" in k and what is not None and k["what"] not in what:
                continue
            return k["describe"]
    return None
