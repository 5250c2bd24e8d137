out=[]
def o(name,args,ret,body): out.append("fn %s(%s) -> %s { %s }"%(name,args,ret,body))
for pre,T in (("f_","FieldElement"),("s_","ScalarFieldElement")):
    ab="a: %s, b: %s"%(T,T)
    for nm,op in (("add","+"),("sub","-"),("mul","*"),("div","/")):
        o(pre+nm+"_rr",ab,T,"&a %s &b"%op); o(pre+nm+"_rv",ab,T,"&a %s b"%op)
        o(pre+nm+"_vr",ab,T,"a %s &b"%op); o(pre+nm+"_vv",ab,T,"a %s b"%op)
        o(pre+nm+"_ar",ab,T,"a %s= &b; a"%op); o(pre+nm+"_av",ab,T,"a %s= b; a"%op)
    for tr,nm in (("AddInline","add"),("SubInline","sub"),("MulInline","mul")):
        o(pre+nm+"_i1",ab,T,"%s::%s_inline(&a, &b)"%(tr,nm)); o(pre+nm+"_i2",ab,T,"%s::%s_assign_inline(&mut a, &b); a"%(tr,nm))
        o(pre+nm+"_i3",ab,T,"%s::%s(&a, &b)"%(tr,nm)); o(pre+nm+"_i4",ab,T,"%s::%s_assign(&mut a, &b); a"%(tr,nm))
    a="a: "+T
    o(pre+"neg_r",a,T,"-&a"); o(pre+"neg_v",a,T,"-a"); o(pre+"neg_i1",a,T,"a.neg_inline()"); o(pre+"neg_i2",a,T,"a.neg_assign_inline(); a"); o(pre+"neg_i4",a,T,"NegInline::neg_assign(&mut a); a")
    o(pre+"sq",a,T,"a.square()"); o(pre+"sq_i1",a,T,"a.square_inline()"); o(pre+"sq_i2",a,T,"a.square_assign_inline(); a"); o(pre+"sq_i4",a,T,"a.square_assign(); a")
    o(pre+"dbl",a,T,"a.double()"); o(pre+"tpl",a,T,"a.triple()")
    o(pre+"zero","",T,"%s::zero()"%T); o(pre+"one","",T,"%s::one()"%T); o(pre+"default","",T,"%s::default()"%T)
    o(pre+"is_zero",a,"bool","a.is_zero()"); o(pre+"is_one",a,"bool","a.is_one()")
    o(pre+"eq",ab,"bool","a == b"); o(pre+"ne",ab,"bool","a != b"); o(pre+"clone",a,T,"a.clone()")
    v="v: Vec<%s>"%T
    o(pre+"sum",v,T,"v.into_iter().sum()"); o(pre+"sumr",v,T,"v.iter().sum()")
    o(pre+"prod",v,T,"v.into_iter().product()"); o(pre+"prodr",v,T,"v.iter().product()")
    o(pre+"inv",a,"Option<%s>"%T,"(&a).inv()")
    o(pre+"pow_u",a+", e: usize",T,"(&a).pow(e)"); o(pre+"pow_ur",a+", e: usize",T,"(&a).pow(&e)")
    o(pre+"pow_i",a+", e: isize","Option<%s>"%T,"(&a).pow(e)")
    o(pre+"pow_256",a+", e: U256",T,"(&a).pow(&e)")
    o(pre+"batch",v,"Vec<%s>"%T,"invert_batch(&v)")
    o(pre+"batch_sd","v: Vec<%s>, d: Vec<%s>"%(T,T),"Vec<%s>"%T,"invert_batch_src_dst(&v, &mut d); d")
    o(pre+"root","n: usize","Option<%s>"%T,"<%s as Root<usize>>::root(n)"%T); o(pre+"root_256","n: U256","Option<%s>"%T,"<%s as Root<&U256>>::root(&n)"%T)
    o(pre+"is_qr",a,"bool","a.is_quadratic_residue()"); o(pre+"sqrt",a,"Option<%s>"%T,"a.square_root()")
    o(pre+"gen","",T,"%s::generator()"%T); o(pre+"order","","U256","%s::order()"%T); o(pre+"modulus","","U256","%s::modulus()"%T)
    for t in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split():
        o(pre+"from_"+t,"a: "+t,T,"%s::from(a)"%T)
    o(pre+"from_u256","a: U256",T,"%s::from(a)"%T); o(pre+"from_uint","a: U256",T,"%s::from_uint(&a)"%T); o(pre+"from_red","a: U256",T,"%s::from_uint_reduce(&a)"%T)
    o(pre+"to_uint",a,"U256","a.to_uint()"); o(pre+"into_r",a,"U256","U256::from(&a)"); o(pre+"into_v",a,"U256","U256::from(a)")
    o(pre+"as_mont",a,"U256","a.as_montgomery().clone()"); o(pre+"from_mont","a: U256",T,"%s::from_montgomery(a)"%T)
    for t in "u8 u32 u64 u128 usize i8 i32 i64 i128 isize".split():
        o(pre+"to_"+t,a,"Option<%s>"%t,"a.to_%s()"%t)
    o(pre+"serde",a,"(String, %s)"%T,"let s = serde_json::to_string(&a).unwrap(); let b = serde_json::from_str(&s).unwrap(); (s, b)")
    o(pre+"gs",("base: %s, step: %s, n: usize"%(T,T)),"Vec<%s>"%T,"geometric_series(&base, &step).take(n).collect()")
    o(pre+"gs_at",("base: %s, step: %s, n: usize"%(T,T)),T,"geometric_series(&base, &step).at(n)")
    o(pre+"gs_skip",("base: %s, step: %s, n: usize, k: usize"%(T,T)),"Vec<%s>"%T,"geometric_series(&base, &step).take(n).skip(k).collect()")
    o(pre+"gs_step",("base: %s, step: %s, n: usize, k: usize"%(T,T)),"Vec<%s>"%T,"geometric_series(&base, &step).take(n).step_by(k).collect()")
    o(pre+"gs_hint",("base: %s, step: %s, n: usize, k: usize"%(T,T)),"(usize, Option<usize>)","let mut g = geometric_series(&base, &step).take(n); for _ in 0..k { let _ = g.next(); } g.size_hint()")
    o(pre+"gs_nth",("base: %s, step: %s, n: usize, k: usize"%(T,T)),"Option<%s>"%T,"geometric_series(&base, &step).take(n).nth(k)")
T="FieldElement"; V="Vec<FieldElement>"
o("from_uint_const","a: U256",T,"FieldElement::from_uint_const(&a)")
o("roots","n: usize",V,"root_series::<FieldElement>(n).collect()")
for nm in ("fft","ifft"):
    o(nm,"v: "+V,V,"v.%s(); v"%nm)
    o(nm+"_cof","v: %s, c: %s"%(V,T),V,"v.%s_cofactor(&c); v"%nm)
o("fft_root","v: %s, c: %s"%(V,T),V,"v.fft_root(&c); v")
o("clone_shifted","d: %s, v: %s, c: %s"%(V,V,T),V,"d.clone_shifted(&v, &c); d")
o("permute_index","n: usize, i: usize","usize","fft::permute_index(n, i)")
o("permute","v: Vec<u64>","Vec<u64>","fft::permute(&mut v); v")
o("transpose","v: Vec<u64>, n: usize, s: usize","Vec<u64>","fft::transpose_square_stretch(&mut v, n, s); v")
o("radix_sqrt","v: %s, c: %s"%(V,T),V,"fft::radix_sqrt(&mut v, &c); v")
o("fft_rec","v: %s, c: %s"%(V,T),V,"let t = fft::get_twiddles(&c, v.len()); fft::fft_vec_recursive(&mut v, &t, 0, 1, 1); v")
o("fft_vec","v: %s, c: %s, off: usize, count: usize, stride: usize"%(V,T),V,"let t = fft::get_twiddles(&c, v.len() / stride); fft::fft_vec_recursive(&mut v, &t, off, count, stride); v")
o("twiddles","c: %s, n: usize"%T,V,"fft::get_twiddles(&c, n)")
for r in ("radix_4","radix_8"):
    o(r,"v: %s, c: %s"%(V,T),V,"let t = fft::get_twiddles(&c, v.len()); fft::small::%s(&mut v, &t, 0, 1); v"%r)
o("radix_2","v: %s"%V,V,"fft::small::radix_2(&mut v, 0, 1); v")
for pre,A in (("a_","Affine"),("j_","Jacobian")):
    ab="p: %s, q: %s"%(A,A)
    for nm,op in (("add","+"),("sub","-")):
        o(pre+nm+"_rr",ab,A,"&p %s &q"%op); o(pre+nm+"_rv",ab,A,"&p %s q"%op); o(pre+nm+"_vr",ab,A,"p %s &q"%op); o(pre+nm+"_vv",ab,A,"p %s q"%op); o(pre+nm+"_ar",ab,A,"p %s= &q; p"%op)
    o(pre+"neg","p: "+A,A,"-&p"); o(pre+"neg_a","p: "+A,A,"p.neg_assign(); p"); o(pre+"dbl","p: "+A,A,"p.double()"); o(pre+"dbl_a","p: "+A,A,"p.double_assign(); p")
    o(pre+"on_curve","p: "+A,"bool","p.is_on_curve()"); o(pre+"eq",ab,"bool","p == q"); o(pre+"zero","",A,A+"::ZERO"); o(pre+"default","",A,A+"::default()")
    pk="p: %s, k: ScalarFieldElement"%A
    o(pre+"mul_rr",pk,A,"&p * &k"); o(pre+"mul_rv",pk,A,"&p * k"); o(pre+"mul_vr",pk,A,"p * &k"); o(pre+"mul_vv",pk,A,"p * k"); o(pre+"mul_ar",pk,A,"p *= &k; p"); o(pre+"mul_av",pk,A,"p *= k; p")
J="Jacobian"
o("ja_add_r","p: Jacobian, q: Affine",J,"&p + &q"); o("ja_add_a","p: Jacobian, q: Affine",J,"p += &q; p"); o("ja_sub_a","p: Jacobian, q: Affine",J,"p -= &q; p")
o("a_to_j","p: Affine",J,"Jacobian::from(p)"); o("ar_to_j","p: Affine",J,"Jacobian::from(&p)"); o("j_to_a","p: Jacobian","Affine","Affine::from(&p)")
o("a_x","p: Affine","Option<FieldElement>","p.x().cloned()"); o("a_y","p: Affine","Option<FieldElement>","p.y().cloned()")
o("a_coords","p: Affine","Option<(FieldElement, FieldElement)>","p.as_coordinates().map(|(x, y)| (x.clone(), y.clone()))"); o("a_into","p: Affine","Option<(FieldElement, FieldElement)>","p.into_coordinates()")
o("w_mul","p: Affine, k: ScalarFieldElement",J,"mul(&p, &k)")
o("w_dmul","p: Affine, k: ScalarFieldElement, q: Affine, l: ScalarFieldElement",J,"double_mul(&p, &k, &q, &l)")
o("w_table","p: Affine, n: usize","Vec<Affine>","let mut t = vec![Affine::ZERO; n]; window_table_affine(&p, &mut t); t")
o("w_base","p: Affine, k: ScalarFieldElement",J,"let mut t = vec![Affine::ZERO; 32]; window_table_affine(&p, &mut t); base_mul(&t, &k)")
o("w_dbase","p: Affine, k: ScalarFieldElement, q: Affine, l: ScalarFieldElement",J,"let mut t = vec![Affine::ZERO; 32]; window_table_affine(&p, &mut t); double_base_mul(&t, &k, &q, &l)")
o("generator","","Affine","zkp_elliptic_curve::GENERATOR"); o("beta","","FieldElement","zkp_elliptic_curve::BETA")
S="ScalarFieldElement"
o("ec_pub","k: "+S,"Affine","PublicKey::from(&PrivateKey::from(k)).as_affine().clone()")
o("ec_pub_u","k: U256","Affine","PublicKey::from(&PrivateKey::from(k)).as_affine().clone()")
o("ec_sign","k: %s, d: %s"%(S,S),"(%s, %s)"%(S,S),"let s = PrivateKey::from(k).sign(&d); (s.r().clone(), s.w().clone())")
o("ec_verify","p: Affine, d: %s, r: %s, w: %s"%(S,S,S),"bool","PublicKey::from(p).verify(&d, &Signature::new(r, w))")
o("ec_rt","k: %s, d: %s"%(S,S),"bool","let sk = PrivateKey::from(k); PublicKey::from(&sk).verify(&d, &sk.sign(&d))")
head='''//! Entry points over zkp-primefield, zkp-elliptic-curve and
//! zkp-elliptic-curve-crypto (one per API function or calling form).
//! Field elements are read and printed in Montgomery form (the stored word),
//! so that the harness itself uses no conversion of the code under test.
#![allow(unused_imports)]
#[path = "../../support/support.rs"]
#[macro_use]
pub mod support;
use num_traits::ToPrimitive;
use support::{Arg, Ret};
use zkp_elliptic_curve::{base_mul, double_base_mul, double_mul, mul, window_table_affine, Affine, Jacobian, ScalarFieldElement};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_primefield::{
    fft, geometric_series::{geometric_series, root_series}, invert_batch, invert_batch_src_dst, Fft, FieldElement, Parameters, PrimeField, Root, SquareRoot,
};
use zkp_u256::{AddInline, Inv, MulInline, NegInline, One, Pow, SquareInline, SubInline, Zero, U256};

impl Arg for U256 {
    fn parse(s: &str) -> Self {
        let s = format!("{:0>64}", s);
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_str_radix(&s[64 - 16 * (i + 1)..64 - 16 * i], 16).unwrap();
        }
        U256::from_limbs(l)
    }
}
impl Ret for U256 {
    fn show(&self) -> String {
        let l = self.as_limbs();
        format!("0x{:x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0])
    }
}
impl<P: Parameters<UInt = U256>> Arg for PrimeField<P> {
    fn parse(s: &str) -> Self { PrimeField { uint: U256::parse(s), _parameters: std::marker::PhantomData } }
}
impl<P: Parameters<UInt = U256>> Ret for PrimeField<P> {
    fn show(&self) -> String { format!("{}{}", if P::M64 == !0 { "f" } else { "s" }, self.uint.show()) }
}
impl Arg for Affine {
    fn parse(s: &str) -> Self {
        if s == "inf" { return Affine::Zero; }
        let v: Vec<&str> = s.split('/').collect();
        Affine::Point { x: Arg::parse(v[0]), y: Arg::parse(v[1]) }
    }
}
impl Ret for Affine {
    fn show(&self) -> String {
        match self { Affine::Zero => "None".into(), Affine::Point { x, y } => format!("({},{})", x.show(), y.show()) }
    }
}
impl Arg for Jacobian {
    fn parse(s: &str) -> Self {
        let v: Vec<&str> = s.split('/').collect();
        Jacobian { x: Arg::parse(v[0]), y: Arg::parse(v[1]), z: Arg::parse(v[2]) }
    }
}
impl Ret for Jacobian {
    fn show(&self) -> String { format!("({},{},{})", self.x.show(), self.y.show(), self.z.show()) }
}

ops! {
'''
open('/verif/ops/field/src/lib.rs','w').write(head+"\n".join(out)+"\n}\n")
