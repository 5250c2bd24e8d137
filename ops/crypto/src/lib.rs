//! Entry points over zkp-hash, zkp-merkle-tree, zkp-stark, zkp-mmap-vec and
//! zkp-macros-lib (public API only).  Field elements are read and printed as
//! their stored (Montgomery) word.
#![allow(unused_imports)]
#[path = "../../support/support.rs"]
#[macro_use]
pub mod support;
use std::{cell::RefCell, collections::BTreeSet};
use support::{Arg, Bytes, Ret};
use zkp_hash::{Hash, Hashable, MaskedKeccak};
use zkp_merkle_tree::{Commitment, Proof as MProof, Tree, VectorCommitment};
use zkp_mmap_vec::MmapVec;
use zkp_primefield::{FieldElement, PrimeField, Parameters};
use zkp_stark::{
    check_constraints, component::{self, Component, PolynomialWriter}, prove, verify, Constraints, DensePolynomial, Proof, Provable, RationalExpression as RE, TraceTable, Verifiable,
};
use zkp_u256::U256;

impl Arg for U256 {
    fn parse(s: &str) -> Self {
        let s = format!("{:0>64}", s);
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_str_radix(&s[64 - 16 * (i + 1)..64 - 16 * i], 16).unwrap();
        }
        U256::from_limbs(l)
    }
}
impl Ret for U256 {
    fn show(&self) -> String {
        let l = self.as_limbs();
        format!("0x{:x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0])
    }
}
impl Arg for FieldElement {
    fn parse(s: &str) -> Self { PrimeField { uint: U256::parse(s), _parameters: std::marker::PhantomData } }
}
impl Ret for FieldElement { fn show(&self) -> String { format!("f{}", self.uint.show()) } }
impl Arg for Hash {
    fn parse(s: &str) -> Self { let mut h = [0; 32]; h.copy_from_slice(&Bytes::parse(s).0); Hash::new(h) }
}
impl Ret for Hash { fn show(&self) -> String { Bytes(self.as_bytes().to_vec()).show() } }

/// polynomial: coefficients separated by '/'
#[derive(Clone)]
pub struct Poly(DensePolynomial);
impl Arg for Poly {
    fn parse(s: &str) -> Self { Poly(DensePolynomial::new(&s.split('/').map(FieldElement::parse).collect::<Vec<_>>())) }
}
impl Ret for Poly { fn show(&self) -> String { self.0.coefficients().to_vec().show() } }

/// expression in postfix form, tokens separated by ':'
#[derive(Clone)]
pub struct Ex(RE);
impl Arg for Ex {
    fn parse(s: &str) -> Self {
        let mut st: Vec<RE> = vec![];
        for t in s.split(':') {
            let r = &t[1..];
            let e = match &t[..1] {
                "x" => RE::X,
                "c" => RE::Constant(Arg::parse(r)),
                "t" => { let v: Vec<&str> = r.split('_').collect(); RE::Trace(v[0].parse().unwrap(), v[1].parse().unwrap()) }
                "p" => { let a = st.pop().unwrap(); RE::Polynomial(Poly::parse(r).0, Box::new(a)) }
                "q" => { let a = st.pop().unwrap(); let v: Vec<&str> = r.split('_').collect(); RE::ClaimPolynomial(v[0].parse().unwrap(), v[1].parse().unwrap(), Box::new(a), None) }
                "+" => { let b = st.pop().unwrap(); let a = st.pop().unwrap(); RE::Add(Box::new(a), Box::new(b)) }
                "*" => { let b = st.pop().unwrap(); let a = st.pop().unwrap(); RE::Mul(Box::new(a), Box::new(b)) }
                "~" => { let a = st.pop().unwrap(); RE::Neg(Box::new(a)) }
                "i" => { let a = st.pop().unwrap(); RE::Inv(Box::new(a)) }
                "e" => { let a = st.pop().unwrap(); RE::Exp(Box::new(a), r.parse().unwrap()) }
                // the operator overloads and constructors of the public API
                "A" => { let b = st.pop().unwrap(); let a = st.pop().unwrap(); a + b }
                "S" => { let b = st.pop().unwrap(); let a = st.pop().unwrap(); a - b }
                "M" => { let b = st.pop().unwrap(); let a = st.pop().unwrap(); a * b }
                "D" => { let b = st.pop().unwrap(); let a = st.pop().unwrap(); a / b }
                "N" => { let a = st.pop().unwrap(); a.neg() }
                "I" => { let a = st.pop().unwrap(); a.inv() }
                "E" => { let a = st.pop().unwrap(); a.pow(r.parse().unwrap()) }
                "F" => { let c: FieldElement = Arg::parse(r); RE::from(c) }
                "G" => { let c: FieldElement = Arg::parse(r); RE::from(&c) }
                "J" => RE::from(r.parse::<i32>().unwrap()),
                "Z" => { let n: usize = r.parse().unwrap(); let v = st.split_off(st.len() - n); v.into_iter().sum() }
                _ => panic!("token"),
            };
            st.push(e);
        }
        assert!(st.len() == 1);
        Ex(st.pop().unwrap())
    }
}
fn show_ex(e: &RE, o: &mut String) {
    match e {
        RE::X => *o += "x",
        RE::Constant(c) => { *o += "c"; *o += &c.uint.show()[2..]; }
        RE::Trace(i, j) => { *o += &format!("t{}_{}", i, j); }
        RE::Polynomial(p, a) => {
            show_ex(a, o);
            *o += ":p";
            *o += &p.coefficients().iter().map(|c| c.uint.show()[2..].to_string()).collect::<Vec<_>>().join("/");
        }
        RE::ClaimPolynomial(i, d, a, _) => { show_ex(a, o); *o += &format!(":q{}_{}", i, d); }
        RE::Add(a, b) => { show_ex(a, o); *o += ":"; show_ex(b, o); *o += ":+"; }
        RE::Mul(a, b) => { show_ex(a, o); *o += ":"; show_ex(b, o); *o += ":*"; }
        RE::Neg(a) => { show_ex(a, o); *o += ":~"; }
        RE::Inv(a) => { show_ex(a, o); *o += ":i"; }
        RE::Exp(a, n) => { show_ex(a, o); *o += &format!(":e{}", n); }
    }
}
impl Ret for Ex {
    fn show(&self) -> String { let mut s = String::new(); show_ex(&self.0, &mut s); s.show() }
}

#[derive(Clone)]
pub struct Params { c: Constraints }
/// nrows/ncols/seed/blowup/pow/queries/l1_l2_.., then expressions and claim polynomials
fn constraints(head: &Bytes, ex: &[Ex], claims: &[Poly]) -> Constraints {
    let h = String::from_utf8(head.0.clone()).unwrap();
    let v: Vec<&str> = h.split('/').collect();
    let n = |i: usize| v[i].parse::<usize>().unwrap();
    let mut c = Constraints::from_expressions((n(0), n(1)), Bytes::parse(v[2]).0, ex.iter().map(|e| e.0.clone()).collect()).unwrap();
    c.blowup = n(3);
    c.pow_bits = n(4);
    c.num_queries = n(5);
    c.fri_layout = if v[6].is_empty() { vec![] } else { v[6].split('_').map(|x| x.parse().unwrap()).collect() };
    if !claims.is_empty() { c.add_claim_polynomials(claims.iter().map(|p| p.0.clone()).collect()); }
    c
}
fn table_of(rows: usize, cols: usize, vals: &[FieldElement]) -> TraceTable {
    let mut t = TraceTable::new(rows, cols);
    for i in 0..rows { for j in 0..cols { t[(i, j)] = vals[i * cols + j].clone(); } }
    t
}
fn table_vals(t: &TraceTable) -> Vec<FieldElement> {
    let mut v = vec![];
    for i in 0..t.num_rows() { for j in 0..t.num_columns() { v.push(t[(i, j)].clone()); } }
    v
}
struct Cl { c: Constraints }
impl Verifiable for Cl { fn constraints(&self) -> Constraints { self.c.clone() } }
impl Provable<&TraceTable> for Cl { fn trace(&self, w: &TraceTable) -> TraceTable { w.clone() } }

fn tree_of(width: usize, leaves: Vec<U256>) -> Vec<Vec<U256>> { leaves.chunks(width).map(|c| c.to_vec()).collect() }
fn opened<C: VectorCommitment>(t: &Tree<C>, idx: &[usize]) -> Result<Vec<Hash>, ()> {
    t.open(idx).map(|p| p.hashes().to_vec()).map_err(|_| ())
}

/// component with explicit expressions and an explicit trace as witness; the claim is a list of elements
#[derive(Clone)]
struct Gen { rows: usize, cols: usize, ex: Vec<Ex> }
impl Component for Gen {
    type Claim = ();
    type Witness = Vec<FieldElement>;
    fn claim(&self, _: &Vec<FieldElement>) {}
    fn num_polynomials(&self) -> usize { self.cols }
    fn polynomial_size(&self) -> usize { self.rows }
    fn constraints(&self, _: &()) -> Vec<RE> { self.ex.iter().map(|e| e.0.clone()).collect() }
    fn trace<P: PolynomialWriter>(&self, t: &mut P, w: &Vec<FieldElement>) {
        assert!(t.num_polynomials() == self.cols && t.polynomial_size() == self.rows);
        for i in 0..self.rows { for j in 0..self.cols { t.write(j, i, w[i * self.cols + j].clone()) } }
    }
}
type Comp = ((usize, usize), Vec<FieldElement>, Vec<Ex>);
fn comp<C: Component>(c: &C, w: &C::Witness) -> Comp {
    let t = c.trace_table(w);
    assert!(t.num_rows() == c.polynomial_size() && t.num_columns() == c.num_polynomials());
    ((c.num_polynomials(), c.polynomial_size()), table_vals(&t), c.constraints(&c.claim(w)).into_iter().map(Ex).collect())
}

// ---------------------------------------------------------------- drop accounting
thread_local! { static LIVE: RefCell<(u64, BTreeSet<u64>, u64)> = RefCell::new((1, BTreeSet::new(), 0)); }
/// an element whose drops are accounted: dropping one that is not live (twice, or a
/// slot never written) is counted as an error
pub struct Dr { id: u64, v: u64, h: Box<u64> }
fn dr(v: u64) -> Dr {
    LIVE.with(|l| { let mut l = l.borrow_mut(); let id = l.0; l.0 += 1; l.1.insert(id); Dr { id, v, h: Box::new(v ^ 77) } })
}
// cloning 17 and dropping 13 panic (the drop after it is accounted)
impl Clone for Dr { fn clone(&self) -> Self { if self.v == 17 { panic!("clone") } dr(self.v) } }
impl PartialEq for Dr { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
impl Drop for Dr {
    fn drop(&mut self) {
        let ok = LIVE.with(|l| { let mut l = l.borrow_mut(); let ok = l.1.remove(&self.id); if !ok { l.2 += 1; } ok });
        if !ok { std::mem::forget(std::mem::replace(&mut self.h, Box::new(0))); }
        else if self.v == 13 { panic!("drop") }
    }
}
/// runs a script on a MmapVec; every step reports its outcome, at the end (live elements, bad drops)
fn mmap_script<T: Clone + PartialEq>(cap: usize, script: &str, mk: &dyn Fn(u64) -> T, rd: &dyn Fn(&T) -> u64) -> Vec<Vec<u64>> {
    use std::panic::{catch_unwind, AssertUnwindSafe as A};
    let mut out = vec![];
    let mut v: MmapVec<T> = MmapVec::with_capacity(cap);
    for tok in script.split(';').filter(|t| !t.is_empty()) {
        let r = &tok[1..];
        let ns: Vec<u64> = r.split('_').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let res = catch_unwind(A(|| -> Vec<u64> {
            match &tok[..1] {
                "p" => v.push(mk(ns[0])),
                "t" => v.truncate(ns[0] as usize),
                "c" => v.clear(),
                "r" => { let f = mk(ns[1]); v.resize(ns[0] as usize, f) }
                "e" => { let s: Vec<T> = ns.iter().map(|&n| mk(n)).collect(); v.extend_from_slice(&s) }
                "x" => { let s: Vec<T> = ns.iter().map(|&n| mk(n)).collect(); v.extend(s) }
                "y" => { let s: Vec<T> = ns.iter().map(|&n| mk(n)).collect(); v.extend(s.iter()) }
                "k" => { let w = v.clone(); v = w }
                "l" => { let w = v.clone(); return w.iter().map(|x| rd(x)).collect() }
                "q" => { let mut w: MmapVec<T> = MmapVec::with_capacity(ns.len()); for n in &ns { w.push(mk(*n)) } return vec![(v == w) as u64] }
                "s" => v[ns[0] as usize] = mk(ns[1]),
                "w" => v.as_mut_slice()[ns[0] as usize] = mk(ns[1]),
                "g" => return vec![rd(&v.as_slice()[ns[0] as usize])],
                _ => panic!("token"),
            }
            vec![]
        }));
        let mut line = match res { Ok(x) => { let mut l = vec![1]; l.extend(x); l } Err(_) => vec![0] };
        line.push(1 << 60);
        line.push(v.len() as u64);
        line.push(v.is_empty() as u64);
        line.extend(v.iter().map(|x| rd(x)));
        out.push(line);
    }
    let _ = catch_unwind(A(move || drop(v)));
    out
}

fn tokens(f: &dyn Fn(proc_macro2::TokenStream) -> proc_macro2::TokenStream, s: &str) -> String {
    let lit = proc_macro2::Literal::string(s);
    f(proc_macro2::TokenStream::from(proc_macro2::TokenTree::from(lit))).to_string()
}

ops! {
// ---- hash
fn h_keccak(v: Vec<Bytes>) -> Hash { let mut k = MaskedKeccak::new(); for b in &v { k.update(&b.0) } k.hash() }
fn h_default() -> Hash { MaskedKeccak::default().hash() }
fn h_hash(h: Hash) -> Hash { h.hash() }
fn h_new(h: Hash) -> Bytes { Bytes(h.as_bytes().to_vec()) }
fn h_u(x: U256) -> Hash { x.hash() }
fn h_ur(x: U256) -> Hash { (&x).hash() }
fn h_fe(x: FieldElement) -> Hash { x.hash() }
fn h_vfe(x: Vec<FieldElement>) -> Hash { x.hash() }
fn h_sfe(x: Vec<FieldElement>) -> Hash { x.as_slice().hash() }
fn h_vu(x: Vec<U256>) -> Hash { x.hash() }
fn h_vv(w: usize, x: Vec<U256>) -> Hash { tree_of(w, x).hash() }
fn h_vh(x: Vec<Hash>) -> Hash { x.hash() }
fn h_eq(a: Hash, b: Hash) -> bool { a == b }
// ---- merkle
fn ix(size: usize, off: usize) -> Result<((usize, usize, usize), (bool, bool, bool), (bool, bool)), ()> {
    let c = Commitment::from_size_hash(size, &Hash::default()).map_err(|_| ())?;
    let i = c.sort_indices(&[off]).map_err(|_| ())?[0];
    Ok(((i.as_index(), i.depth(), i.offset()), (i.is_root(), i.is_left(), i.is_right()), (i.is_left_most(), i.is_right_most())))
}
fn ix_rel(size: usize, off: usize) -> Result<(Option<usize>, Option<usize>, Option<usize>, Option<usize>), ()> {
    let c = Commitment::from_size_hash(size, &Hash::default()).map_err(|_| ())?;
    let i = c.sort_indices(&[off]).map_err(|_| ())?[0];
    Ok((i.parent().map(|x| x.as_index()), i.sibling().map(|x| x.as_index()), i.left_neighbor().map(|x| x.as_index()), i.right_neighbor().map(|x| x.as_index())))
}
fn ix_child(size: usize, off: usize) -> Result<(usize, usize), ()> {
    let c = Commitment::from_size_hash(size, &Hash::default()).map_err(|_| ())?;
    let i = c.sort_indices(&[off]).map_err(|_| ())?[0];
    Ok((i.left_child().as_index(), i.right_child().as_index()))
}
fn ix_lca(size: usize, a: usize, b: usize) -> Result<usize, ()> {
    let c = Commitment::from_size_hash(size, &Hash::default()).map_err(|_| ())?;
    let a = c.sort_indices(&[a]).map_err(|_| ())?[0];
    let b = c.sort_indices(&[b]).map_err(|_| ())?[0];
    Ok(a.last_common_ancestor(b).as_index())
}
fn ix_anc(size: usize, a: usize, ua: usize, b: usize, ub: usize) -> Result<usize, ()> {
    let c = Commitment::from_size_hash(size, &Hash::default()).map_err(|_| ())?;
    let mut a = c.sort_indices(&[a]).map_err(|_| ())?[0];
    let mut b = c.sort_indices(&[b]).map_err(|_| ())?[0];
    for _ in 0..ua { a = a.parent().unwrap(); }
    for _ in 0..ub { b = b.parent().unwrap(); }
    Ok(a.last_common_ancestor(b).as_index())
}
fn ix_sort(size: usize, v: Vec<usize>) -> Result<Vec<usize>, ()> {
    let c = Commitment::from_size_hash(size, &Hash::default()).map_err(|_| ())?;
    Ok(c.sort_indices(&v).map_err(|_| ())?.into_iter().map(|i| i.as_index()).collect())
}
fn m_commit(size: usize, h: Hash) -> Result<(usize, Hash), ()> {
    let c = Commitment::from_size_hash(size, &h).map_err(|_| ())?;
    Ok((c.size(), c.hash().clone()))
}
fn m_psize(size: usize, v: Vec<usize>) -> Result<usize, ()> {
    Commitment::from_size_hash(size, &Hash::default()).map_err(|_| ())?.proof_size(&v).map_err(|_| ())
}
fn m_root(leaves: Vec<U256>) -> Result<(usize, Hash), ()> {
    let (c, t) = leaves.commit().map_err(|_| ())?;
    assert!(c.size() == t.commitment().size() && c.hash() == t.commitment().hash());
    Ok((c.size(), c.hash().clone()))
}
fn m_root_skip(leaves: Vec<U256>, skip: usize) -> Result<(usize, Hash), ()> {
    let t = Tree::from_leaves_skip_layers(leaves, skip).map_err(|_| ())?;
    Ok((t.commitment().size(), t.commitment().hash().clone()))
}
fn m_root_w(w: usize, leaves: Vec<U256>) -> Result<(usize, Hash), ()> {
    let t = Tree::from_leaves(tree_of(w, leaves)).map_err(|_| ())?;
    Ok((t.commitment().size(), t.commitment().hash().clone()))
}
fn m_nodes(leaves: Vec<U256>, skip: usize) -> Result<Vec<Hash>, ()> {
    let n = leaves.len();
    let t = Tree::from_leaves_skip_layers(leaves, skip).map_err(|_| ())?;
    let mut v = vec![];
    let mut s = n;
    // every node, from the leaves up, level by level
    let mut level: Vec<_> = t.commitment().sort_indices(&(0..n).collect::<Vec<_>>()).map_err(|_| ())?;
    loop {
        for i in &level { v.push(t.node_hash(*i)); }
        if s == 1 { break; }
        s /= 2;
        level = level.iter().filter(|i| i.is_left()).map(|i| i.parent().unwrap()).collect();
    }
    Ok(v)
}
fn m_open(leaves: Vec<U256>, skip: usize, idx: Vec<usize>) -> Result<Vec<Hash>, ()> {
    let t = Tree::from_leaves_skip_layers(leaves, skip).map_err(|_| ())?;
    opened(&t, &idx)
}
fn m_rt(leaves: Vec<U256>, skip: usize, idx: Vec<usize>) -> Result<(), ()> {
    let t = Tree::from_leaves_skip_layers(leaves.clone(), skip).map_err(|_| ())?;
    let p = t.open(&idx).map_err(|_| ())?;
    let claim: Vec<(usize, U256)> = idx.iter().map(|&i| (i, t.leaf(i))).collect();
    for (i, l) in &claim { assert!(*l == leaves[*i] && t.leaves()[*i] == *l); }
    p.verify(&claim).map_err(|_| ())
}
fn m_from(size: usize, root: Hash, idx: Vec<usize>, hashes: Vec<Hash>) -> Result<Vec<Hash>, ()> {
    let c = Commitment::from_size_hash(size, &root).map_err(|_| ())?;
    Ok(MProof::from_hashes(&c, &idx, &hashes).map_err(|_| ())?.hashes().to_vec())
}
fn m_verify(size: usize, root: Hash, idx: Vec<usize>, hashes: Vec<Hash>, cidx: Vec<usize>, cleaf: Vec<U256>) -> Result<(), ()> {
    let c = Commitment::from_size_hash(size, &root).map_err(|_| ())?;
    let p = MProof::from_hashes(&c, &idx, &hashes).map_err(|_| ())?;
    let claim: Vec<(usize, U256)> = cidx.into_iter().zip(cleaf).collect();
    p.verify(&claim).map_err(|_| ())
}
// ---- polynomials
fn p_new(v: Vec<FieldElement>) -> (usize, Vec<FieldElement>) { let p = DensePolynomial::new(&v); (p.len(), p.coefficients().to_vec()) }
fn p_mmap(v: Vec<FieldElement>) -> (usize, Vec<FieldElement>) {
    let mut m = MmapVec::with_capacity(v.len());
    for x in v { m.push(x) }
    let p = DensePolynomial::from_mmap_vec(m);
    (p.len(), p.coefficients().to_vec())
}
fn p_zeros(n: usize) -> Vec<FieldElement> { DensePolynomial::zeros(n).coefficients().to_vec() }
fn p_degree(v: Vec<FieldElement>) -> usize { DensePolynomial::new(&v).degree() }
fn p_eval(v: Vec<FieldElement>, x: FieldElement) -> FieldElement { DensePolynomial::new(&v).evaluate(&x) }
fn p_lde(v: Vec<FieldElement>, b: usize) -> Vec<FieldElement> { DensePolynomial::new(&v).low_degree_extension(b).to_vec() }
fn p_div(v: Vec<FieldElement>, z: FieldElement, c: FieldElement, t: Vec<FieldElement>) -> Vec<FieldElement> {
    let mut t = DensePolynomial::new(&t);
    DensePolynomial::new(&v).divide_out_point_into(&z, &c, &mut t);
    t.coefficients().to_vec()
}
fn p_eq(a: Vec<FieldElement>, b: Vec<FieldElement>) -> bool { DensePolynomial::new(&a) == DensePolynomial::new(&b) }
fn t_interp(rows: usize, cols: usize, v: Vec<FieldElement>) -> Vec<Poly> { table_of(rows, cols, &v).interpolate().into_iter().map(Poly).collect() }
fn t_acc(rows: usize, cols: usize, v: Vec<FieldElement>, i: usize, j: usize) -> (Vec<FieldElement>, Vec<FieldElement>, Vec<FieldElement>, FieldElement) {
    let mut t = table_of(rows, cols, &v);
    t[i][j] += FieldElement::from(1_u64);
    let d = t[i][j].clone();
    t[(i, j)] = v[i * cols + j].clone();
    (t.iter_row(i).cloned().collect(), t.iter_column(j).cloned().collect(), t.column_to_mmapvec(j).to_vec(), d)
}
// ---- expressions
fn e_show(e: Ex) -> Ex { e }
fn e_eval(e: Ex, x: FieldElement, cols: usize, lo: isize, t: Vec<FieldElement>) -> FieldElement {
    e.0.evaluate(&x, &|i, j| t[((j - lo) as usize) * cols + i].clone())
}
fn e_check(e: Ex, x: FieldElement, cols: usize, lo: isize, t: Vec<FieldElement>) -> (FieldElement, bool) {
    e.0.check(&x, &|i, j| t[((j - lo) as usize) * cols + i].clone())
}
fn e_degree(e: Ex, d: usize) -> ((usize, usize), (usize, usize)) { (e.0.degree(d), e.0.trace_degree()) }
fn e_args(e: Ex) -> Vec<(usize, isize)> { e.0.trace_arguments().into_iter().collect() }
fn e_subst(e: Ex, c: Vec<Poly>) -> Ex { Ex(e.0.substitute_claim(&c.into_iter().map(|p| p.0).collect::<Vec<_>>())) }
fn e_map(e: Ex, k: usize) -> Ex { Ex(e.0.map(&|n| match n { RE::Trace(i, j) => RE::Trace(i + k, j), RE::X => RE::X.pow(2), o => o })) }
// ---- constraints
fn c_info(h: Bytes, ex: Vec<Ex>) -> ((usize, usize, usize), (usize, Bytes), Vec<(usize, isize)>) {
    let c = constraints(&h, &ex, &[]);
    assert!(c.is_empty() == ex.is_empty());
    ((c.trace_nrows(), c.trace_ncolumns(), c.len()), (c.degree(), Bytes(c.channel_seed().to_vec())), c.trace_arguments())
}
fn c_default(rows: usize) -> Result<((usize, usize, usize), Vec<usize>), ()> {
    let c = Constraints::from_expressions((rows, 1), vec![], vec![RE::X]).map_err(|_| ())?;
    Ok(((c.blowup, c.pow_bits, c.num_queries), c.fri_layout))
}
fn c_combine(h: Bytes, ex: Vec<Ex>, co: Vec<FieldElement>) -> Ex { Ex(constraints(&h, &ex, &[]).combine(&co)) }
fn c_check(h: Bytes, ex: Vec<Ex>, t: Vec<FieldElement>) -> Option<(usize, usize)> {
    let c = constraints(&h, &ex, &[]);
    check_constraints(&c, &table_of(c.trace_nrows(), c.trace_ncolumns(), &t)).err()
}
fn c_spec(h: Bytes, ex: Vec<Ex>, t: Vec<FieldElement>, row: usize, which: usize) -> Result<(), ()> {
    let c = constraints(&h, &ex, &[]);
    let t = table_of(c.trace_nrows(), c.trace_ncolumns(), &t);
    Cl { c }.check_specified(&t, row, which)
}
// ---- proofs
fn s_prove(h: Bytes, ex: Vec<Ex>, claims: Vec<Poly>, t: Vec<FieldElement>) -> Result<Bytes, ()> {
    let c = constraints(&h, &ex, &claims);
    prove(&c, &table_of(c.trace_nrows(), c.trace_ncolumns(), &t)).map(|p| Bytes(p.as_bytes().to_vec())).map_err(|_| ())
}
fn s_verify(h: Bytes, ex: Vec<Ex>, claims: Vec<Poly>, p: Bytes) -> Result<(), ()> {
    verify(&constraints(&h, &ex, &claims), &Proof::from_bytes(p.0)).map_err(|_| ())
}
fn s_traits(h: Bytes, ex: Vec<Ex>, claims: Vec<Poly>, t: Vec<FieldElement>) -> Result<(Bytes, bool), ()> {
    let c = constraints(&h, &ex, &claims);
    let t = table_of(c.trace_nrows(), c.trace_ncolumns(), &t);
    let c = Cl { c };
    let p = c.prove(&t).map_err(|_| ())?;
    let ok = c.verify(&p).is_ok();
    Ok((Bytes(p.as_bytes().to_vec()), ok))
}
// ---- components
fn k_gen(rows: usize, cols: usize, ex: Vec<Ex>, w: Vec<FieldElement>) -> Comp { comp(&Gen { rows, cols, ex }, &w) }
fn k_fold(rows: usize, cols: usize, ex: Vec<Ex>, w: Vec<FieldElement>, folds: usize) -> Comp {
    comp(&component::Fold::new(Gen { rows, cols, ex }, folds), &w)
}
fn k_foldup(rows: usize, cols: usize, folds: usize, r: usize, c: usize) -> (usize, usize) {
    component::Fold::new(Gen { rows, cols, ex: vec![] }, folds).map_up(r, c)
}
fn k_horiz(rows: usize, c1: usize, e1: Vec<Ex>, w1: Vec<FieldElement>, c2: usize, e2: Vec<Ex>, w2: Vec<FieldElement>) -> Comp {
    let h = component::Horizontal::new(Gen { rows, cols: c1, ex: e1 }, Gen { rows, cols: c2, ex: e2 });
    assert!(h.left().num_polynomials() == c1 && h.right().num_polynomials() == c2);
    comp(&h, &(w1, w2))
}
fn k_vert(rows: usize, cols: usize, ex: Vec<Ex>, n: usize, w: Vec<FieldElement>) -> Comp {
    let v = component::Vertical::new(Gen { rows, cols, ex }, n);
    assert!(v.size() == n && v.element().cols == cols);
    comp(&v, &w.chunks(rows * cols).map(|c| c.to_vec()).collect())
}
fn k_nest(rows: usize, cols: usize, ex: Vec<Ex>, n: usize, folds: usize, w: Vec<FieldElement>) -> Comp {
    let g = Gen { rows, cols, ex };
    let v = component::Vertical::new(component::Fold::new(g.clone(), folds), n);
    let ws: Vec<Vec<FieldElement>> = w.chunks(rows * cols).map(|c| c.to_vec()).collect();
    let h = component::Horizontal::new(v.clone(), component::Horizontal::new(component::Empty::new(1, rows * n << folds), v));
    comp(&h, &(ws.clone(), ((), ws)))
}
fn k_empty(rows: usize, cols: usize) -> Comp { comp(&component::Empty::new(cols, rows), &()) }
fn k_test(rows: usize, cols: usize, seed: FieldElement, a: FieldElement, b: FieldElement) -> Comp {
    comp(&component::Test::new(rows, cols, &seed), &(a, b))
}
fn k_test_e2e(rows: usize, cols: usize, seed: FieldElement, a: FieldElement, b: FieldElement, wrong: FieldElement) -> Result<(bool, bool, bool), ()> {
    let t = component::Test::new(rows, cols, &seed);
    let w = (a, b);
    let ok = t.check(&w).is_ok();
    let p = t.prove(&w).map_err(|_| ())?;
    Ok((ok, t.verify(&t.claim(&w), &p).is_ok(), t.verify(&wrong, &p).is_ok()))
}
// ---- mmap vector
fn mm_u64(cap: usize, s: String) -> Vec<Vec<u64>> { mmap_script(cap, &s, &|x| x, &|x| *x) }
fn mm_u8(cap: usize, s: String) -> Vec<Vec<u64>> { mmap_script(cap, &s, &|x| x as u8, &|x| *x as u64) }
fn mm_string(cap: usize, s: String) -> Vec<Vec<u64>> { mmap_script(cap, &s, &|x| x.to_string(), &|x| x.parse().unwrap_or(999_999)) }
fn mm_drop(cap: usize, s: String) -> (Vec<Vec<u64>>, u64, u64) {
    LIVE.with(|l| *l.borrow_mut() = (1, BTreeSet::new(), 0));
    let o = mmap_script(cap, &s, &dr, &|x| if *x.h == x.v ^ 77 { x.v } else { 999_999 });
    LIVE.with(|l| { let l = l.borrow(); (o, l.1.len() as u64, l.2) })
}
fn mm_big(cap: usize) -> usize { let v: MmapVec<U256> = MmapVec::with_capacity(cap); v.len() }
fn mm_zero(n: usize) -> Vec<u64> { let v: MmapVec<u64> = unsafe { MmapVec::zero_initialized(n) }; v.to_vec() }
// ---- literal macros
fn lm_hex(s: String) -> String { tokens(&|t| zkp_macros_lib::hex(t), &s) }
fn lm_u256h(s: String) -> String { tokens(&|t| zkp_macros_lib::u256h(t), &s) }
fn lm_fe(s: String) -> String { tokens(&|t| zkp_macros_lib::field_element(t), &s) }
fn lm_decl() -> (Vec<U256>, Vec<FieldElement>, Vec<Bytes>) {
    use zkp_macros_decl::{field_element, hex, u256h};
    (vec![u256h!("00"), u256h!("0123456789abcdef"), u256h!("f123456789abcdef0fedcba9876543210011223344556677ffeeddccbbaa9988")],
     vec![field_element!("00"), field_element!("01"), field_element!("0400000000000008800000000000000000000000000000000000000000000001"), field_element!("03dbc3ea1d1cd1d3e3a1d1e9f1b1a1c1d1e1f101112131415161718191a1b1c1")],
     vec![Bytes(hex!("00ff10").to_vec()), Bytes(hex!("").to_vec())])
}
}
