//! rustc wrapper.  For the crate named in MIRDUMP_CRATE it runs the compiler
//! and writes, to MIRDUMP_OUT, the monomorphised MIR of every function
//! reachable from that crate's non-generic functions (all crates, including
//! the code of /repo and of the standard library) as JSON.  Any other crate is
//! compiled by the real rustc, unchanged.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{
    AggregateKind, CastKind, ConstOperand, Operand, PointerCoercion, Rvalue, Terminator,
    TerminatorKind,
};
use rustc_public::ty::{
    Allocation, ClosureKind, ConstantKind, GenericArgKind, MirConst, RigidTy, Span, Ty, TyConst,
    TyKind,
};
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;
use std::process::{exit, Command};

struct Ctx {
    insts: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    out_insts: Vec<Value>,
    types: HashMap<Ty, usize>,
    type_queue: VecDeque<Ty>,
    out_types: Map<String, Value>,
    allocs: HashSet<AllocId>,
    alloc_queue: VecDeque<AllocId>,
    out_allocs: Map<String, Value>,
    fn_tys: Map<String, Value>,
    fnptr_tys: Map<String, Value>,
    stop: Vec<String>,
}

fn tyid(t: Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}
fn allocid(t: AllocId) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

impl Ctx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.insts.get(&i) {
            return n;
        }
        let n = self.out_insts.len();
        self.insts.insert(i, n);
        self.out_insts.push(Value::Null);
        self.queue.push_back((n, i));
        n
    }
    fn ty(&mut self, t: Ty) -> usize {
        let id = tyid(t);
        if self.types.insert(t, id).is_none() {
            self.type_queue.push_back(t);
        }
        id
    }
    fn allocation(&mut self, a: &Allocation) -> Value {
        for (_, p) in &a.provenance.ptrs {
            if self.allocs.insert(p.0) {
                self.alloc_queue.push_back(p.0);
            }
        }
        json!({
            "b": a.bytes.iter().map(|b| b.map(|x| x as i64).unwrap_or(-1)).collect::<Vec<_>>(),
            "p": a.provenance.ptrs.iter().map(|(o, p)| json!([o, allocid(p.0)])).collect::<Vec<_>>(),
        })
    }
    fn describe(&mut self, t: Ty) -> Value {
        let mut m = Map::new();
        m.insert("s".into(), json!(format!("{}", t)));
        if let Ok(l) = t.layout() {
            let s = l.shape();
            m.insert("layout".into(), conv_layout(&s));
        }
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!(["bool"]),
                RigidTy::Char => json!(["char"]),
                RigidTy::Int(i) => json!(["int", i.num_bytes() * 8]),
                RigidTy::Uint(i) => json!(["uint", i.num_bytes() * 8]),
                RigidTy::Float(_) => json!(["float"]),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let d = if def.kind().is_enum() {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        let fs: Vec<Value> = v
                            .fields()
                            .iter()
                            .map(|f| json!([f.name.to_string(), self.ty(f.ty_with_args(&args))]))
                            .collect();
                        vs.push(json!({"name": v.name().to_string(), "discr": d, "fields": fs}));
                    }
                    let a: Vec<Value> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
                            GenericArgKind::Const(c) => Some(json!(["const", c.eval_target_usize().ok()])),
                            _ => None,
                        })
                        .collect();
                    json!(["adt", def.name().to_string(), format!("{}", def.kind()), vs, a])
                }
                RigidTy::Foreign(_) => json!(["foreign"]),
                RigidTy::Str => json!(["str"]),
                RigidTy::Array(e, n) => json!(["array", self.ty(e), n.eval_target_usize().ok()]),
                RigidTy::Pat(e, _) => json!(["pat", self.ty(e)]),
                RigidTy::Slice(e) => json!(["slice", self.ty(e)]),
                RigidTy::RawPtr(e, m) => json!(["ptr", self.ty(e), format!("{:?}", m)]),
                RigidTy::Ref(_, e, m) => json!(["ref", self.ty(e), format!("{:?}", m)]),
                RigidTy::FnDef(def, args) => {
                    let name = def.name().to_string();
                    match Instance::resolve(def, &args) {
                        Ok(i) => {
                            let n = self.inst(i);
                            self.fn_tys.insert(tyid(t).to_string(), json!(n));
                        }
                        Err(_) => {}
                    }
                    let a: Vec<Value> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
                            _ => None,
                        })
                        .collect();
                    json!(["fndef", name, a])
                }
                RigidTy::FnPtr(_) => json!(["fnptr"]),
                RigidTy::Closure(def, args) => {
                    let mut kinds = Map::new();
                    for (nm, k) in [
                        ("once", ClosureKind::FnOnce),
                        ("mut", ClosureKind::FnMut),
                        ("fn", ClosureKind::Fn),
                    ] {
                        if let Ok(i) = Instance::resolve_closure(def, &args, k) {
                            // do not queue: resolved lazily via call sites
                            kinds.insert(nm.into(), json!(i.name().to_string()));
                        }
                    }
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => json!(self.ty(*t)),
                        _ => Value::Null,
                    };
                    // the body itself (callers such as rayon's drivers are not exported)
                    let body = match Instance::resolve_closure(def, &args, ClosureKind::Fn) {
                        Ok(i) => json!(self.inst(i)),
                        Err(_) => Value::Null,
                    };
                    json!(["closure", def.name().to_string(), up, kinds, body])
                }
                RigidTy::Dynamic(..) => json!(["dyn"]),
                RigidTy::Never => json!(["never"]),
                RigidTy::Tuple(ts) => {
                    let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!(["tuple", v])
                }
                _ => json!(["other"]),
            },
            _ => json!(["nonrigid"]),
        };
        m.insert("k".into(), k);
        Value::Object(m)
    }
}

fn scalar_bytes(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive as P, Scalar as S};
    let p = match s {
        S::Initialized { value, .. } => value,
        S::Union { value } => value,
    };
    match p {
        P::Int { length, .. } => length.bits() / 8,
        _ => 8,
    }
}

fn conv_layout(s: &rustc_public::abi::LayoutShape) -> Value {
    use rustc_public::abi::{FieldsShape as F, TagEncoding as T, VariantsShape as VS};
    let f = match &s.fields {
        F::Primitive => json!(["prim"]),
        F::Union(_) => json!(["union"]),
        F::Array { stride, count } => json!(["array", stride.bytes(), count]),
        F::Arbitrary { offsets } => json!(["offs", offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()]),
    };
    let v = match &s.variants {
        VS::Empty => json!(["empty"]),
        VS::Single { index } => json!(["single", serde_json::to_value(index).unwrap()]),
        VS::Multiple { tag, tag_encoding, tag_field, variants } => {
            let enc = match tag_encoding {
                T::Direct => json!(["direct"]),
                T::Niche { untagged_variant, niche_variants, niche_start } => json!([
                    "niche",
                    serde_json::to_value(untagged_variant).unwrap(),
                    serde_json::to_value(niche_variants.start()).unwrap(),
                    serde_json::to_value(niche_variants.end()).unwrap(),
                    niche_start.to_string()
                ]),
            };
            json!(["multi", scalar_bytes(tag), enc, tag_field,
                variants.iter().map(|v| v.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()).collect::<Vec<_>>()])
        }
    };
    json!({"size": s.size.bytes(), "f": f, "v": v})
}

struct V<'a> {
    cx: &'a mut Ctx,
}
impl<'a> MirVisitor for V<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.cx.ty(*ty);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        self.cx.ty(c.ty());
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            let _ = self.cx.allocation(a);
        }
        self.super_const_operand(c, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        match r {
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), op, _) => {
                if let Operand::Constant(c) = op {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() {
                        if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                            let n = self.cx.inst(i);
                            self.cx.fnptr_tys.insert(tyid(c.ty()).to_string(), json!(n));
                        }
                    }
                }
            }
            Rvalue::Aggregate(AggregateKind::Adt(def, _, args, _, _), _) => {
                let t = def.ty_with_args(args);
                self.cx.ty(t);
            }
            Rvalue::Aggregate(AggregateKind::Closure(def, args), _) => {
                let t = Ty::new_closure(*def, args.clone());
                self.cx.ty(t);
            }
            _ => {}
        }
        self.super_rvalue(r, l)
    }
}

fn conv_place(cx: &mut Ctx, p: &rustc_public::mir::Place) -> Value {
    use rustc_public::mir::ProjectionElem as P;
    let pr: Vec<Value> = p
        .projection
        .iter()
        .map(|e| match e {
            P::Deref => json!(["*"]),
            P::Field(i, t) => json!([".", i, cx.ty(*t)]),
            P::Index(l) => json!(["[", l]),
            P::ConstantIndex { offset, from_end, .. } => json!(["c", offset, from_end]),
            P::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
            P::Downcast(v) => json!(["v", serde_json::to_value(v).unwrap()]),
            P::OpaqueCast(_) => json!(["oc"]),
        })
        .collect();
    json!([p.local, pr])
}
fn conv_const(cx: &mut Ctx, c: &MirConst) -> Value {
    let t = cx.ty(c.ty());
    match c.kind() {
        ConstantKind::Allocated(a) => json!(["k", t, cx.allocation(a)]),
        ConstantKind::ZeroSized => json!(["k", t, Value::Null]),
        k => json!(["k", t, {"unk": format!("{:?}", k)}]),
    }
}
fn conv_op(cx: &mut Ctx, o: &Operand) -> Value {
    match o {
        Operand::Copy(p) => json!(["p", conv_place(cx, p)]),
        Operand::Move(p) => json!(["m", conv_place(cx, p)]),
        Operand::Constant(c) => conv_const(cx, &c.const_),
        Operand::RuntimeChecks(r) => json!(["rc", format!("{:?}", r)]),
    }
}
fn conv_rv(cx: &mut Ctx, r: &Rvalue, locals: &[rustc_public::mir::LocalDecl]) -> Value {
    match r {
        Rvalue::AddressOf(k, p) => json!(["addr", format!("{:?}", k), conv_place(cx, p)]),
        Rvalue::Aggregate(k, ops) => {
            let ops: Vec<Value> = ops.iter().map(|o| conv_op(cx, o)).collect();
            let k = match k {
                AggregateKind::Array(t) => json!(["array", cx.ty(*t)]),
                AggregateKind::Tuple => json!(["tuple"]),
                AggregateKind::Adt(def, v, args, _, f) => {
                    let t = cx.ty(def.ty_with_args(args));
                    json!(["adt", t, serde_json::to_value(v).unwrap(), f])
                }
                AggregateKind::Closure(d, a) => {
                    let t = cx.ty(Ty::new_closure(*d, a.clone()));
                    json!(["closure", t])
                }
                AggregateKind::RawPtr(t, _) => json!(["rawptr", cx.ty(*t)]),
                _ => json!(["other"]),
            };
            json!(["agg", k, ops])
        }
        Rvalue::BinaryOp(b, x, y) => {
            json!(["bin", format!("{:?}", b), conv_op(cx, x), conv_op(cx, y)])
        }
        Rvalue::CheckedBinaryOp(b, x, y) => {
            json!(["chk", format!("{:?}", b), conv_op(cx, x), conv_op(cx, y)])
        }
        Rvalue::Cast(k, o, t) => {
            let st = o.ty(locals).ok().map(|t| cx.ty(t));
            json!(["cast", format!("{:?}", k), conv_op(cx, o), cx.ty(*t), st])
        }
        Rvalue::CopyForDeref(p) => json!(["use", ["p", conv_place(cx, p)]]),
        Rvalue::Discriminant(p) => {
            let t = p.ty(locals).ok().map(|t| cx.ty(t));
            let rt = r.ty(locals).ok().map(|t| cx.ty(t));
            json!(["discr", conv_place(cx, p), t, rt])
        }
        Rvalue::Len(p) => json!(["len", conv_place(cx, p)]),
        Rvalue::Ref(_, k, p) => json!(["ref", format!("{:?}", k), conv_place(cx, p)]),
        Rvalue::Repeat(o, n) => json!(["repeat", conv_op(cx, o), n.eval_target_usize().ok()]),
        Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), conv_op(cx, o)]),
        Rvalue::Use(o, _) => json!(["use", conv_op(cx, o)]),
        other => json!(["unsupported", format!("{:?}", other)]),
    }
}

fn loc(s: Span) -> Value {
    json!([s.get_filename().to_string(), s.get_lines().start_line])
}

fn dump() -> ControlFlow<()> {
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .unwrap_or_default()
        .split('|')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut cx = Ctx {
        insts: HashMap::new(),
        queue: VecDeque::new(),
        out_insts: vec![],
        types: HashMap::new(),
        type_queue: VecDeque::new(),
        out_types: Map::new(),
        allocs: HashSet::new(),
        alloc_queue: VecDeque::new(),
        out_allocs: Map::new(),
        fn_tys: Map::new(),
        fnptr_tys: Map::new(),
        stop,
    };
    let wanted_s = std::env::var("MIRDUMP_ROOTS").unwrap_or_default();
    let wanted: HashSet<&str> = wanted_s.split('|').filter(|s| !s.is_empty()).collect();
    let mut roots = Map::new();
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in items {
        if it.kind() != ItemKind::Fn {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let nm = i.name().to_string();
            let parts: Vec<&str> = nm.split("::").collect();
            if parts.len() < 2 || parts[parts.len() - 2] != "ops" {
                continue;
            }
            if !wanted.is_empty() && !wanted.contains(parts.last().unwrap()) {
                continue;
            }
            let n = cx.inst(i);
            roots.insert(i.name().to_string(), json!(n));
        }
    }
    loop {
        if let Some((n, i)) = cx.queue.pop_front() {
            let name = i.name().to_string();
            let mut m = Map::new();
            m.insert("name".into(), json!(name));
            m.insert("def".into(), json!(i.def.name().to_string()));
            m.insert("kind".into(), json!(match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            }));
            if let Some(s) = i.intrinsic_name() {
                m.insert("intr".into(), json!(s.to_string()));
            }
            let gargs: Vec<Value> = i
                .args()
                .0
                .iter()
                .filter_map(|a| match a {
                    GenericArgKind::Type(t) => Some(json!(cx.ty(*t))),
                    GenericArgKind::Const(c) => Some(json!(["const", c.eval_target_usize().ok()])),
                    _ => None,
                })
                .collect();
            m.insert("gargs".into(), json!(gargs));
            m.insert("empty_shim".into(), json!(i.is_empty_shim()));
            let stopped = cx.stop.iter().any(|s| name.contains(s.as_str()));
            let body = if stopped || i.kind == InstanceKind::Intrinsic || i.kind == InstanceKind::LlvmIntrinsic || i.intrinsic_name().is_some() {
                None
            } else {
                i.body()
            };
            if let Some(b) = body {
                {
                    let mut v = V { cx: &mut cx };
                    v.visit_body(&b);
                }
                let locals: Vec<usize> = b.locals().iter().map(|l| cx.ty(l.ty)).collect();
                let mut blocks = vec![];
                for bb in &b.blocks {
                    let mut st = vec![];
                    for s in &bb.statements {
                        use rustc_public::mir::{NonDivergingIntrinsic as NI, StatementKind as S};
                        let v = match &s.kind {
                            S::Assign(p, r) => {
                                let pv = conv_place(&mut cx, p);
                                json!(["=", pv, conv_rv(&mut cx, r, b.locals())])
                            }
                            S::SetDiscriminant { place, variant_index } => {
                                json!(["sd", conv_place(&mut cx, place), serde_json::to_value(variant_index).unwrap()])
                            }
                            S::Intrinsic(NI::Assume(_)) => continue,
                            S::Intrinsic(NI::CopyNonOverlapping(c)) => {
                                json!(["cno", conv_op(&mut cx, &c.src), conv_op(&mut cx, &c.dst), conv_op(&mut cx, &c.count)])
                            }
                            S::StorageDead(_) | S::StorageLive(_) => continue,
                            _ => continue,
                        };
                        st.push(v);
                    }
                    let t: &Terminator = &bb.terminator;
                    let tv = match &t.kind {
                        TerminatorKind::Goto { target } => json!(["goto", target]),
                        TerminatorKind::SwitchInt { discr, targets } => {
                            let br: Vec<Value> = targets
                                .branches()
                                .map(|(v, t)| json!([v.to_string(), t]))
                                .collect();
                            json!(["switch", conv_op(&mut cx, discr), br, targets.otherwise()])
                        }
                        TerminatorKind::Resume => json!(["resume"]),
                        TerminatorKind::Abort => json!(["abort"]),
                        TerminatorKind::Return => json!(["return"]),
                        TerminatorKind::Unreachable => json!(["unreachable"]),
                        TerminatorKind::Drop { place, target, .. } => {
                            let pt = place.ty(b.locals()).ok();
                            let t = pt.map(|t| cx.ty(t));
                            // the drop glue, unless it does nothing
                            let g = pt.and_then(|t| {
                                let i = Instance::resolve_drop_in_place(t);
                                if i.is_empty_shim() { None } else { Some(cx.inst(i)) }
                            });
                            json!(["drop", conv_place(&mut cx, place), target, t, g])
                        }
                        TerminatorKind::Call { func, args, destination, target, .. } => {
                            let a: Vec<Value> = args.iter().map(|o| conv_op(&mut cx, o)).collect();
                            json!(["call", conv_op(&mut cx, func), a, conv_place(&mut cx, destination), target])
                        }
                        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                            let d = format!("{:?}", msg);
                            let d = d.split(|c| c == '(' || c == ' ').next().unwrap_or("").to_string();
                            let dd = match msg.description() {
                                Ok(s) => s.to_string(),
                                Err(_) => d,
                            };
                            json!(["assert", conv_op(&mut cx, cond), expected, dd, target])
                        }
                        TerminatorKind::InlineAsm { .. } => json!(["asm"]),
                    };
                    blocks.push(json!([st, tv, t.source_info.span.get_lines().start_line]));
                }
                let mut dbg = vec![];
                for v in &b.var_debug_info {
                    if let Some(l) = v.local() {
                        dbg.push(json!([v.name.to_string(), l]));
                    }
                }
                m.insert("body".into(), json!({
                    "locals": locals, "argc": b.arg_locals().len(), "spread": b.spread_arg(),
                    "blocks": blocks, "dbg": dbg, "loc": loc(b.span),
                }));
            }
            cx.out_insts[n] = Value::Object(m);
        } else if let Some(t) = cx.type_queue.pop_front() {
            let d = cx.describe(t);
            cx.out_types.insert(tyid(t).to_string(), d);
        } else if let Some(a) = cx.alloc_queue.pop_front() {
            let v = match GlobalAlloc::from(a) {
                GlobalAlloc::Memory(m) => json!(["mem", cx.allocation(&m)]),
                GlobalAlloc::Function(i) => json!(["fn", cx.inst(i)]),
                GlobalAlloc::Static(s) => {
                    let t = cx.ty(s.ty());
                    match s.eval_initializer() {
                        Ok(al) => json!(["static", s.name().to_string(), t, cx.allocation(&al)]),
                        Err(_) => json!(["static", s.name().to_string(), t, Value::Null]),
                    }
                }
                GlobalAlloc::VTable(t, _) => json!(["vtable", cx.ty(t)]),
                _ => json!(["other"]),
            };
            cx.out_allocs.insert(allocid(a).to_string(), v);
        } else {
            break;
        }
    }
    let out = json!({
        "roots": roots, "insts": cx.out_insts, "types": cx.out_types,
        "allocs": cx.out_allocs, "fn_tys": cx.fn_tys, "fnptr_tys": cx.fnptr_tys,
    });
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(&path, serde_json::to_vec(&out).unwrap()).unwrap();
    ControlFlow::Continue(())
}

#[allow(unused)]
fn unused(_: TyConst) {}

fn main() {
    // As RUSTC_WRAPPER: argv = [mirdump, rustc, args...]
    let args: Vec<String> = std::env::args().collect();
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut is_target = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == krate {
            is_target = true;
        }
    }
    if !is_target {
        let st = Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        exit(st.code().unwrap_or(1));
    }
    let rargs: Vec<String> = args[1..].to_vec();
    let r = run!(&rargs, dump);
    match r {
        Ok(_) => exit(0),
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            exit(1)
        }
    }
}
