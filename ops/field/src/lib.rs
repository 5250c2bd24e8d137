//! Entry points over zkp-primefield, zkp-elliptic-curve and
//! zkp-elliptic-curve-crypto (one per API function or calling form).
//! Field elements are read and printed in Montgomery form (the stored word),
//! so that the harness itself uses no conversion of the code under test.
#![allow(unused_imports)]
#[path = "../../support/support.rs"]
#[macro_use]
pub mod support;
use num_traits::ToPrimitive;
use support::{Arg, Ret};
use zkp_elliptic_curve::{base_mul, double_base_mul, double_mul, mul, window_table_affine, Affine, Jacobian, ScalarFieldElement};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_primefield::{
    fft, geometric_series::{geometric_series, root_series}, invert_batch, invert_batch_src_dst, Fft, FieldElement, Parameters, PrimeField, Root, SquareRoot,
};
use zkp_u256::{AddInline, Inv, MulInline, NegInline, One, Pow, SquareInline, SubInline, Zero, U256};

impl Arg for U256 {
    fn parse(s: &str) -> Self {
        let s = format!("{:0>64}", s);
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_str_radix(&s[64 - 16 * (i + 1)..64 - 16 * i], 16).unwrap();
        }
        U256::from_limbs(l)
    }
}
impl Ret for U256 {
    fn show(&self) -> String {
        let l = self.as_limbs();
        format!("0x{:x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0])
    }
}
impl<P: Parameters<UInt = U256>> Arg for PrimeField<P> {
    fn parse(s: &str) -> Self { PrimeField { uint: U256::parse(s), _parameters: std::marker::PhantomData } }
}
impl<P: Parameters<UInt = U256>> Ret for PrimeField<P> {
    fn show(&self) -> String { format!("{}{}", if P::M64 == !0 { "f" } else { "s" }, self.uint.show()) }
}
impl Arg for Affine {
    fn parse(s: &str) -> Self {
        if s == "inf" { return Affine::Zero; }
        let v: Vec<&str> = s.split('/').collect();
        Affine::Point { x: Arg::parse(v[0]), y: Arg::parse(v[1]) }
    }
}
impl Ret for Affine {
    fn show(&self) -> String {
        match self { Affine::Zero => "None".into(), Affine::Point { x, y } => format!("({},{})", x.show(), y.show()) }
    }
}
impl Arg for Jacobian {
    fn parse(s: &str) -> Self {
        let v: Vec<&str> = s.split('/').collect();
        Jacobian { x: Arg::parse(v[0]), y: Arg::parse(v[1]), z: Arg::parse(v[2]) }
    }
}
impl Ret for Jacobian {
    fn show(&self) -> String { format!("({},{},{})", self.x.show(), self.y.show(), self.z.show()) }
}

ops! {
fn f_add_rr(a: FieldElement, b: FieldElement) -> FieldElement { &a + &b }
fn f_add_rv(a: FieldElement, b: FieldElement) -> FieldElement { &a + b }
fn f_add_vr(a: FieldElement, b: FieldElement) -> FieldElement { a + &b }
fn f_add_vv(a: FieldElement, b: FieldElement) -> FieldElement { a + b }
fn f_add_ar(a: FieldElement, b: FieldElement) -> FieldElement { a += &b; a }
fn f_add_av(a: FieldElement, b: FieldElement) -> FieldElement { a += b; a }
fn f_sub_rr(a: FieldElement, b: FieldElement) -> FieldElement { &a - &b }
fn f_sub_rv(a: FieldElement, b: FieldElement) -> FieldElement { &a - b }
fn f_sub_vr(a: FieldElement, b: FieldElement) -> FieldElement { a - &b }
fn f_sub_vv(a: FieldElement, b: FieldElement) -> FieldElement { a - b }
fn f_sub_ar(a: FieldElement, b: FieldElement) -> FieldElement { a -= &b; a }
fn f_sub_av(a: FieldElement, b: FieldElement) -> FieldElement { a -= b; a }
fn f_mul_rr(a: FieldElement, b: FieldElement) -> FieldElement { &a * &b }
fn f_mul_rv(a: FieldElement, b: FieldElement) -> FieldElement { &a * b }
fn f_mul_vr(a: FieldElement, b: FieldElement) -> FieldElement { a * &b }
fn f_mul_vv(a: FieldElement, b: FieldElement) -> FieldElement { a * b }
fn f_mul_ar(a: FieldElement, b: FieldElement) -> FieldElement { a *= &b; a }
fn f_mul_av(a: FieldElement, b: FieldElement) -> FieldElement { a *= b; a }
fn f_div_rr(a: FieldElement, b: FieldElement) -> FieldElement { &a / &b }
fn f_div_rv(a: FieldElement, b: FieldElement) -> FieldElement { &a / b }
fn f_div_vr(a: FieldElement, b: FieldElement) -> FieldElement { a / &b }
fn f_div_vv(a: FieldElement, b: FieldElement) -> FieldElement { a / b }
fn f_div_ar(a: FieldElement, b: FieldElement) -> FieldElement { a /= &b; a }
fn f_div_av(a: FieldElement, b: FieldElement) -> FieldElement { a /= b; a }
fn f_add_i1(a: FieldElement, b: FieldElement) -> FieldElement { AddInline::add_inline(&a, &b) }
fn f_add_i2(a: FieldElement, b: FieldElement) -> FieldElement { AddInline::add_assign_inline(&mut a, &b); a }
fn f_add_i3(a: FieldElement, b: FieldElement) -> FieldElement { AddInline::add(&a, &b) }
fn f_add_i4(a: FieldElement, b: FieldElement) -> FieldElement { AddInline::add_assign(&mut a, &b); a }
fn f_sub_i1(a: FieldElement, b: FieldElement) -> FieldElement { SubInline::sub_inline(&a, &b) }
fn f_sub_i2(a: FieldElement, b: FieldElement) -> FieldElement { SubInline::sub_assign_inline(&mut a, &b); a }
fn f_sub_i3(a: FieldElement, b: FieldElement) -> FieldElement { SubInline::sub(&a, &b) }
fn f_sub_i4(a: FieldElement, b: FieldElement) -> FieldElement { SubInline::sub_assign(&mut a, &b); a }
fn f_mul_i1(a: FieldElement, b: FieldElement) -> FieldElement { MulInline::mul_inline(&a, &b) }
fn f_mul_i2(a: FieldElement, b: FieldElement) -> FieldElement { MulInline::mul_assign_inline(&mut a, &b); a }
fn f_mul_i3(a: FieldElement, b: FieldElement) -> FieldElement { MulInline::mul(&a, &b) }
fn f_mul_i4(a: FieldElement, b: FieldElement) -> FieldElement { MulInline::mul_assign(&mut a, &b); a }
fn f_neg_r(a: FieldElement) -> FieldElement { -&a }
fn f_neg_v(a: FieldElement) -> FieldElement { -a }
fn f_neg_i1(a: FieldElement) -> FieldElement { a.neg_inline() }
fn f_neg_i2(a: FieldElement) -> FieldElement { a.neg_assign_inline(); a }
fn f_neg_i4(a: FieldElement) -> FieldElement { NegInline::neg_assign(&mut a); a }
fn f_sq(a: FieldElement) -> FieldElement { a.square() }
fn f_sq_i1(a: FieldElement) -> FieldElement { a.square_inline() }
fn f_sq_i2(a: FieldElement) -> FieldElement { a.square_assign_inline(); a }
fn f_sq_i4(a: FieldElement) -> FieldElement { a.square_assign(); a }
fn f_dbl(a: FieldElement) -> FieldElement { a.double() }
fn f_tpl(a: FieldElement) -> FieldElement { a.triple() }
fn f_zero() -> FieldElement { FieldElement::zero() }
fn f_one() -> FieldElement { FieldElement::one() }
fn f_default() -> FieldElement { FieldElement::default() }
fn f_is_zero(a: FieldElement) -> bool { a.is_zero() }
fn f_is_one(a: FieldElement) -> bool { a.is_one() }
fn f_eq(a: FieldElement, b: FieldElement) -> bool { a == b }
fn f_ne(a: FieldElement, b: FieldElement) -> bool { a != b }
fn f_clone(a: FieldElement) -> FieldElement { a.clone() }
fn f_sum(v: Vec<FieldElement>) -> FieldElement { v.into_iter().sum() }
fn f_sumr(v: Vec<FieldElement>) -> FieldElement { v.iter().sum() }
fn f_prod(v: Vec<FieldElement>) -> FieldElement { v.into_iter().product() }
fn f_prodr(v: Vec<FieldElement>) -> FieldElement { v.iter().product() }
fn f_inv(a: FieldElement) -> Option<FieldElement> { (&a).inv() }
fn f_pow_u(a: FieldElement, e: usize) -> FieldElement { (&a).pow(e) }
fn f_pow_ur(a: FieldElement, e: usize) -> FieldElement { (&a).pow(&e) }
fn f_pow_i(a: FieldElement, e: isize) -> Option<FieldElement> { (&a).pow(e) }
fn f_pow_256(a: FieldElement, e: U256) -> FieldElement { (&a).pow(&e) }
fn f_batch(v: Vec<FieldElement>) -> Vec<FieldElement> { invert_batch(&v) }
fn f_batch_sd(v: Vec<FieldElement>, d: Vec<FieldElement>) -> Vec<FieldElement> { invert_batch_src_dst(&v, &mut d); d }
fn f_root(n: usize) -> Option<FieldElement> { <FieldElement as Root<usize>>::root(n) }
fn f_root_256(n: U256) -> Option<FieldElement> { <FieldElement as Root<&U256>>::root(&n) }
fn f_is_qr(a: FieldElement) -> bool { a.is_quadratic_residue() }
fn f_sqrt(a: FieldElement) -> Option<FieldElement> { a.square_root() }
fn f_gen() -> FieldElement { FieldElement::generator() }
fn f_order() -> U256 { FieldElement::order() }
fn f_modulus() -> U256 { FieldElement::modulus() }
fn f_from_u8(a: u8) -> FieldElement { FieldElement::from(a) }
fn f_from_u16(a: u16) -> FieldElement { FieldElement::from(a) }
fn f_from_u32(a: u32) -> FieldElement { FieldElement::from(a) }
fn f_from_u64(a: u64) -> FieldElement { FieldElement::from(a) }
fn f_from_u128(a: u128) -> FieldElement { FieldElement::from(a) }
fn f_from_usize(a: usize) -> FieldElement { FieldElement::from(a) }
fn f_from_i8(a: i8) -> FieldElement { FieldElement::from(a) }
fn f_from_i16(a: i16) -> FieldElement { FieldElement::from(a) }
fn f_from_i32(a: i32) -> FieldElement { FieldElement::from(a) }
fn f_from_i64(a: i64) -> FieldElement { FieldElement::from(a) }
fn f_from_i128(a: i128) -> FieldElement { FieldElement::from(a) }
fn f_from_isize(a: isize) -> FieldElement { FieldElement::from(a) }
fn f_from_u256(a: U256) -> FieldElement { FieldElement::from(a) }
fn f_from_uint(a: U256) -> FieldElement { FieldElement::from_uint(&a) }
fn f_from_red(a: U256) -> FieldElement { FieldElement::from_uint_reduce(&a) }
fn f_to_uint(a: FieldElement) -> U256 { a.to_uint() }
fn f_into_r(a: FieldElement) -> U256 { U256::from(&a) }
fn f_into_v(a: FieldElement) -> U256 { U256::from(a) }
fn f_as_mont(a: FieldElement) -> U256 { a.as_montgomery().clone() }
fn f_from_mont(a: U256) -> FieldElement { FieldElement::from_montgomery(a) }
fn f_to_u8(a: FieldElement) -> Option<u8> { a.to_u8() }
fn f_to_u32(a: FieldElement) -> Option<u32> { a.to_u32() }
fn f_to_u64(a: FieldElement) -> Option<u64> { a.to_u64() }
fn f_to_u128(a: FieldElement) -> Option<u128> { a.to_u128() }
fn f_to_usize(a: FieldElement) -> Option<usize> { a.to_usize() }
fn f_to_i8(a: FieldElement) -> Option<i8> { a.to_i8() }
fn f_to_i32(a: FieldElement) -> Option<i32> { a.to_i32() }
fn f_to_i64(a: FieldElement) -> Option<i64> { a.to_i64() }
fn f_to_i128(a: FieldElement) -> Option<i128> { a.to_i128() }
fn f_to_isize(a: FieldElement) -> Option<isize> { a.to_isize() }
fn f_serde(a: FieldElement) -> (String, FieldElement) { let s = serde_json::to_string(&a).unwrap(); let b = serde_json::from_str(&s).unwrap(); (s, b) }
fn f_gs(base: FieldElement, step: FieldElement, n: usize) -> Vec<FieldElement> { geometric_series(&base, &step).take(n).collect() }
fn f_gs_at(base: FieldElement, step: FieldElement, n: usize) -> FieldElement { geometric_series(&base, &step).at(n) }
fn f_gs_skip(base: FieldElement, step: FieldElement, n: usize, k: usize) -> Vec<FieldElement> { geometric_series(&base, &step).take(n).skip(k).collect() }
fn f_gs_step(base: FieldElement, step: FieldElement, n: usize, k: usize) -> Vec<FieldElement> { geometric_series(&base, &step).take(n).step_by(k).collect() }
fn f_gs_hint(base: FieldElement, step: FieldElement, n: usize, k: usize) -> (usize, Option<usize>) { let mut g = geometric_series(&base, &step).take(n); for _ in 0..k { let _ = g.next(); } g.size_hint() }
fn f_gs_any(base: FieldElement, step: FieldElement, n: usize, skip: usize, by: usize) -> (usize, Option<FieldElement>, Option<FieldElement>) { let mut g = geometric_series(&base, &step).take(n).skip(skip).step_by(by); let h = g.size_hint().0; (h, g.next(), g.next()) }
fn f_gs_at_take(base: FieldElement, step: FieldElement, n: usize, i: usize) -> FieldElement { geometric_series(&base, &step).take(n).at(i) }
fn f_gs_nth(base: FieldElement, step: FieldElement, n: usize, k: usize) -> Option<FieldElement> { geometric_series(&base, &step).take(n).nth(k) }
fn s_add_rr(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { &a + &b }
fn s_add_rv(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { &a + b }
fn s_add_vr(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a + &b }
fn s_add_vv(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a + b }
fn s_add_ar(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a += &b; a }
fn s_add_av(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a += b; a }
fn s_sub_rr(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { &a - &b }
fn s_sub_rv(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { &a - b }
fn s_sub_vr(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a - &b }
fn s_sub_vv(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a - b }
fn s_sub_ar(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a -= &b; a }
fn s_sub_av(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a -= b; a }
fn s_mul_rr(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { &a * &b }
fn s_mul_rv(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { &a * b }
fn s_mul_vr(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a * &b }
fn s_mul_vv(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a * b }
fn s_mul_ar(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a *= &b; a }
fn s_mul_av(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a *= b; a }
fn s_div_rr(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { &a / &b }
fn s_div_rv(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { &a / b }
fn s_div_vr(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a / &b }
fn s_div_vv(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a / b }
fn s_div_ar(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a /= &b; a }
fn s_div_av(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { a /= b; a }
fn s_add_i1(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { AddInline::add_inline(&a, &b) }
fn s_add_i2(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { AddInline::add_assign_inline(&mut a, &b); a }
fn s_add_i3(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { AddInline::add(&a, &b) }
fn s_add_i4(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { AddInline::add_assign(&mut a, &b); a }
fn s_sub_i1(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { SubInline::sub_inline(&a, &b) }
fn s_sub_i2(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { SubInline::sub_assign_inline(&mut a, &b); a }
fn s_sub_i3(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { SubInline::sub(&a, &b) }
fn s_sub_i4(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { SubInline::sub_assign(&mut a, &b); a }
fn s_mul_i1(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { MulInline::mul_inline(&a, &b) }
fn s_mul_i2(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { MulInline::mul_assign_inline(&mut a, &b); a }
fn s_mul_i3(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { MulInline::mul(&a, &b) }
fn s_mul_i4(a: ScalarFieldElement, b: ScalarFieldElement) -> ScalarFieldElement { MulInline::mul_assign(&mut a, &b); a }
fn s_neg_r(a: ScalarFieldElement) -> ScalarFieldElement { -&a }
fn s_neg_v(a: ScalarFieldElement) -> ScalarFieldElement { -a }
fn s_neg_i1(a: ScalarFieldElement) -> ScalarFieldElement { a.neg_inline() }
fn s_neg_i2(a: ScalarFieldElement) -> ScalarFieldElement { a.neg_assign_inline(); a }
fn s_neg_i4(a: ScalarFieldElement) -> ScalarFieldElement { NegInline::neg_assign(&mut a); a }
fn s_sq(a: ScalarFieldElement) -> ScalarFieldElement { a.square() }
fn s_sq_i1(a: ScalarFieldElement) -> ScalarFieldElement { a.square_inline() }
fn s_sq_i2(a: ScalarFieldElement) -> ScalarFieldElement { a.square_assign_inline(); a }
fn s_sq_i4(a: ScalarFieldElement) -> ScalarFieldElement { a.square_assign(); a }
fn s_dbl(a: ScalarFieldElement) -> ScalarFieldElement { a.double() }
fn s_tpl(a: ScalarFieldElement) -> ScalarFieldElement { a.triple() }
fn s_zero() -> ScalarFieldElement { ScalarFieldElement::zero() }
fn s_one() -> ScalarFieldElement { ScalarFieldElement::one() }
fn s_default() -> ScalarFieldElement { ScalarFieldElement::default() }
fn s_is_zero(a: ScalarFieldElement) -> bool { a.is_zero() }
fn s_is_one(a: ScalarFieldElement) -> bool { a.is_one() }
fn s_eq(a: ScalarFieldElement, b: ScalarFieldElement) -> bool { a == b }
fn s_ne(a: ScalarFieldElement, b: ScalarFieldElement) -> bool { a != b }
fn s_clone(a: ScalarFieldElement) -> ScalarFieldElement { a.clone() }
fn s_sum(v: Vec<ScalarFieldElement>) -> ScalarFieldElement { v.into_iter().sum() }
fn s_sumr(v: Vec<ScalarFieldElement>) -> ScalarFieldElement { v.iter().sum() }
fn s_prod(v: Vec<ScalarFieldElement>) -> ScalarFieldElement { v.into_iter().product() }
fn s_prodr(v: Vec<ScalarFieldElement>) -> ScalarFieldElement { v.iter().product() }
fn s_inv(a: ScalarFieldElement) -> Option<ScalarFieldElement> { (&a).inv() }
fn s_pow_u(a: ScalarFieldElement, e: usize) -> ScalarFieldElement { (&a).pow(e) }
fn s_pow_ur(a: ScalarFieldElement, e: usize) -> ScalarFieldElement { (&a).pow(&e) }
fn s_pow_i(a: ScalarFieldElement, e: isize) -> Option<ScalarFieldElement> { (&a).pow(e) }
fn s_pow_256(a: ScalarFieldElement, e: U256) -> ScalarFieldElement { (&a).pow(&e) }
fn s_batch(v: Vec<ScalarFieldElement>) -> Vec<ScalarFieldElement> { invert_batch(&v) }
fn s_batch_sd(v: Vec<ScalarFieldElement>, d: Vec<ScalarFieldElement>) -> Vec<ScalarFieldElement> { invert_batch_src_dst(&v, &mut d); d }
fn s_root(n: usize) -> Option<ScalarFieldElement> { <ScalarFieldElement as Root<usize>>::root(n) }
fn s_root_256(n: U256) -> Option<ScalarFieldElement> { <ScalarFieldElement as Root<&U256>>::root(&n) }
fn s_is_qr(a: ScalarFieldElement) -> bool { a.is_quadratic_residue() }
fn s_sqrt(a: ScalarFieldElement) -> Option<ScalarFieldElement> { a.square_root() }
fn s_gen() -> ScalarFieldElement { ScalarFieldElement::generator() }
fn s_order() -> U256 { ScalarFieldElement::order() }
fn s_modulus() -> U256 { ScalarFieldElement::modulus() }
fn s_from_u8(a: u8) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_u16(a: u16) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_u32(a: u32) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_u64(a: u64) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_u128(a: u128) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_usize(a: usize) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_i8(a: i8) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_i16(a: i16) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_i32(a: i32) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_i64(a: i64) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_i128(a: i128) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_isize(a: isize) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_u256(a: U256) -> ScalarFieldElement { ScalarFieldElement::from(a) }
fn s_from_uint(a: U256) -> ScalarFieldElement { ScalarFieldElement::from_uint(&a) }
fn s_from_red(a: U256) -> ScalarFieldElement { ScalarFieldElement::from_uint_reduce(&a) }
fn s_to_uint(a: ScalarFieldElement) -> U256 { a.to_uint() }
fn s_into_r(a: ScalarFieldElement) -> U256 { U256::from(&a) }
fn s_into_v(a: ScalarFieldElement) -> U256 { U256::from(a) }
fn s_as_mont(a: ScalarFieldElement) -> U256 { a.as_montgomery().clone() }
fn s_from_mont(a: U256) -> ScalarFieldElement { ScalarFieldElement::from_montgomery(a) }
fn s_to_u8(a: ScalarFieldElement) -> Option<u8> { a.to_u8() }
fn s_to_u32(a: ScalarFieldElement) -> Option<u32> { a.to_u32() }
fn s_to_u64(a: ScalarFieldElement) -> Option<u64> { a.to_u64() }
fn s_to_u128(a: ScalarFieldElement) -> Option<u128> { a.to_u128() }
fn s_to_usize(a: ScalarFieldElement) -> Option<usize> { a.to_usize() }
fn s_to_i8(a: ScalarFieldElement) -> Option<i8> { a.to_i8() }
fn s_to_i32(a: ScalarFieldElement) -> Option<i32> { a.to_i32() }
fn s_to_i64(a: ScalarFieldElement) -> Option<i64> { a.to_i64() }
fn s_to_i128(a: ScalarFieldElement) -> Option<i128> { a.to_i128() }
fn s_to_isize(a: ScalarFieldElement) -> Option<isize> { a.to_isize() }
fn s_serde(a: ScalarFieldElement) -> (String, ScalarFieldElement) { let s = serde_json::to_string(&a).unwrap(); let b = serde_json::from_str(&s).unwrap(); (s, b) }
fn s_gs(base: ScalarFieldElement, step: ScalarFieldElement, n: usize) -> Vec<ScalarFieldElement> { geometric_series(&base, &step).take(n).collect() }
fn s_gs_at(base: ScalarFieldElement, step: ScalarFieldElement, n: usize) -> ScalarFieldElement { geometric_series(&base, &step).at(n) }
fn s_gs_skip(base: ScalarFieldElement, step: ScalarFieldElement, n: usize, k: usize) -> Vec<ScalarFieldElement> { geometric_series(&base, &step).take(n).skip(k).collect() }
fn s_gs_step(base: ScalarFieldElement, step: ScalarFieldElement, n: usize, k: usize) -> Vec<ScalarFieldElement> { geometric_series(&base, &step).take(n).step_by(k).collect() }
fn s_gs_hint(base: ScalarFieldElement, step: ScalarFieldElement, n: usize, k: usize) -> (usize, Option<usize>) { let mut g = geometric_series(&base, &step).take(n); for _ in 0..k { let _ = g.next(); } g.size_hint() }
fn s_gs_any(base: ScalarFieldElement, step: ScalarFieldElement, n: usize, skip: usize, by: usize) -> (usize, Option<ScalarFieldElement>, Option<ScalarFieldElement>) { let mut g = geometric_series(&base, &step).take(n).skip(skip).step_by(by); let h = g.size_hint().0; (h, g.next(), g.next()) }
fn s_gs_at_take(base: ScalarFieldElement, step: ScalarFieldElement, n: usize, i: usize) -> ScalarFieldElement { geometric_series(&base, &step).take(n).at(i) }
fn s_gs_nth(base: ScalarFieldElement, step: ScalarFieldElement, n: usize, k: usize) -> Option<ScalarFieldElement> { geometric_series(&base, &step).take(n).nth(k) }
fn from_uint_const(a: U256) -> FieldElement { FieldElement::from_uint_const(&a) }
fn roots(n: usize) -> Vec<FieldElement> { root_series::<FieldElement>(n).collect() }
fn fft(v: Vec<FieldElement>) -> Vec<FieldElement> { v.fft(); v }
fn fft_cof(v: Vec<FieldElement>, c: FieldElement) -> Vec<FieldElement> { v.fft_cofactor(&c); v }
fn ifft(v: Vec<FieldElement>) -> Vec<FieldElement> { v.ifft(); v }
fn ifft_cof(v: Vec<FieldElement>, c: FieldElement) -> Vec<FieldElement> { v.ifft_cofactor(&c); v }
fn fft_root(v: Vec<FieldElement>, c: FieldElement) -> Vec<FieldElement> { v.fft_root(&c); v }
fn clone_shifted(d: Vec<FieldElement>, v: Vec<FieldElement>, c: FieldElement) -> Vec<FieldElement> { d.clone_shifted(&v, &c); d }
fn permute_index(n: usize, i: usize) -> usize { fft::permute_index(n, i) }
fn permute(v: Vec<u64>) -> Vec<u64> { fft::permute(&mut v); v }
fn transpose(v: Vec<u64>, n: usize, s: usize) -> Vec<u64> { fft::transpose_square_stretch(&mut v, n, s); v }
fn radix_sqrt(v: Vec<FieldElement>, c: FieldElement) -> Vec<FieldElement> { fft::radix_sqrt(&mut v, &c); v }
fn fft_rec(v: Vec<FieldElement>, c: FieldElement) -> Vec<FieldElement> { let t = fft::get_twiddles(&c, v.len()); fft::fft_vec_recursive(&mut v, &t, 0, 1, 1); v }
fn fft_vec(v: Vec<FieldElement>, c: FieldElement, off: usize, count: usize, stride: usize) -> Vec<FieldElement> { let t = fft::get_twiddles(&c, v.len() / stride); fft::fft_vec_recursive(&mut v, &t, off, count, stride); v }
fn twiddles(c: FieldElement, n: usize) -> Vec<FieldElement> { fft::get_twiddles(&c, n) }
fn radix_4(v: Vec<FieldElement>, c: FieldElement) -> Vec<FieldElement> { let t = fft::get_twiddles(&c, v.len()); fft::small::radix_4(&mut v, &t, 0, 1); v }
fn radix_8(v: Vec<FieldElement>, c: FieldElement) -> Vec<FieldElement> { let t = fft::get_twiddles(&c, v.len()); fft::small::radix_8(&mut v, &t, 0, 1); v }
fn radix_2(v: Vec<FieldElement>) -> Vec<FieldElement> { fft::small::radix_2(&mut v, 0, 1); v }
fn a_add_rr(p: Affine, q: Affine) -> Affine { &p + &q }
fn a_add_rv(p: Affine, q: Affine) -> Affine { &p + q }
fn a_add_vr(p: Affine, q: Affine) -> Affine { p + &q }
fn a_add_vv(p: Affine, q: Affine) -> Affine { p + q }
fn a_add_ar(p: Affine, q: Affine) -> Affine { p += &q; p }
fn a_sub_rr(p: Affine, q: Affine) -> Affine { &p - &q }
fn a_sub_rv(p: Affine, q: Affine) -> Affine { &p - q }
fn a_sub_vr(p: Affine, q: Affine) -> Affine { p - &q }
fn a_sub_vv(p: Affine, q: Affine) -> Affine { p - q }
fn a_sub_ar(p: Affine, q: Affine) -> Affine { p -= &q; p }
fn a_neg(p: Affine) -> Affine { -&p }
fn a_neg_a(p: Affine) -> Affine { p.neg_assign(); p }
fn a_dbl(p: Affine) -> Affine { p.double() }
fn a_dbl_a(p: Affine) -> Affine { p.double_assign(); p }
fn a_on_curve(p: Affine) -> bool { p.is_on_curve() }
fn a_eq(p: Affine, q: Affine) -> bool { p == q }
fn a_zero() -> Affine { Affine::ZERO }
fn a_default() -> Affine { Affine::default() }
fn a_mul_rr(p: Affine, k: ScalarFieldElement) -> Affine { &p * &k }
fn a_mul_rv(p: Affine, k: ScalarFieldElement) -> Affine { &p * k }
fn a_mul_vr(p: Affine, k: ScalarFieldElement) -> Affine { p * &k }
fn a_mul_vv(p: Affine, k: ScalarFieldElement) -> Affine { p * k }
fn a_mul_ar(p: Affine, k: ScalarFieldElement) -> Affine { p *= &k; p }
fn a_mul_av(p: Affine, k: ScalarFieldElement) -> Affine { p *= k; p }
fn j_add_rr(p: Jacobian, q: Jacobian) -> Jacobian { &p + &q }
fn j_add_rv(p: Jacobian, q: Jacobian) -> Jacobian { &p + q }
fn j_add_vr(p: Jacobian, q: Jacobian) -> Jacobian { p + &q }
fn j_add_vv(p: Jacobian, q: Jacobian) -> Jacobian { p + q }
fn j_add_ar(p: Jacobian, q: Jacobian) -> Jacobian { p += &q; p }
fn j_sub_rr(p: Jacobian, q: Jacobian) -> Jacobian { &p - &q }
fn j_sub_rv(p: Jacobian, q: Jacobian) -> Jacobian { &p - q }
fn j_sub_vr(p: Jacobian, q: Jacobian) -> Jacobian { p - &q }
fn j_sub_vv(p: Jacobian, q: Jacobian) -> Jacobian { p - q }
fn j_sub_ar(p: Jacobian, q: Jacobian) -> Jacobian { p -= &q; p }
fn j_neg(p: Jacobian) -> Jacobian { -&p }
fn j_neg_a(p: Jacobian) -> Jacobian { p.neg_assign(); p }
fn j_dbl(p: Jacobian) -> Jacobian { p.double() }
fn j_dbl_a(p: Jacobian) -> Jacobian { p.double_assign(); p }
fn j_on_curve(p: Jacobian) -> bool { p.is_on_curve() }
fn j_eq(p: Jacobian, q: Jacobian) -> bool { p == q }
fn j_zero() -> Jacobian { Jacobian::ZERO }
fn j_default() -> Jacobian { Jacobian::default() }
fn j_mul_rr(p: Jacobian, k: ScalarFieldElement) -> Jacobian { &p * &k }
fn j_mul_rv(p: Jacobian, k: ScalarFieldElement) -> Jacobian { &p * k }
fn j_mul_vr(p: Jacobian, k: ScalarFieldElement) -> Jacobian { p * &k }
fn j_mul_vv(p: Jacobian, k: ScalarFieldElement) -> Jacobian { p * k }
fn j_mul_ar(p: Jacobian, k: ScalarFieldElement) -> Jacobian { p *= &k; p }
fn j_mul_av(p: Jacobian, k: ScalarFieldElement) -> Jacobian { p *= k; p }
fn ja_add_r(p: Jacobian, q: Affine) -> Jacobian { &p + &q }
fn ja_add_a(p: Jacobian, q: Affine) -> Jacobian { p += &q; p }
fn ja_sub_a(p: Jacobian, q: Affine) -> Jacobian { p -= &q; p }
fn a_to_j(p: Affine) -> Jacobian { Jacobian::from(p) }
fn ar_to_j(p: Affine) -> Jacobian { Jacobian::from(&p) }
fn j_to_a(p: Jacobian) -> Affine { Affine::from(&p) }
fn a_x(p: Affine) -> Option<FieldElement> { p.x().cloned() }
fn a_y(p: Affine) -> Option<FieldElement> { p.y().cloned() }
fn a_coords(p: Affine) -> Option<(FieldElement, FieldElement)> { p.as_coordinates().map(|(x, y)| (x.clone(), y.clone())) }
fn a_into(p: Affine) -> Option<(FieldElement, FieldElement)> { p.into_coordinates() }
fn w_mul(p: Affine, k: ScalarFieldElement) -> Jacobian { mul(&p, &k) }
fn w_dmul(p: Affine, k: ScalarFieldElement, q: Affine, l: ScalarFieldElement) -> Jacobian { double_mul(&p, &k, &q, &l) }
fn w_table(p: Affine, n: usize) -> Vec<Affine> { let mut t = vec![Affine::ZERO; n]; window_table_affine(&p, &mut t); t }
fn w_base(p: Affine, k: ScalarFieldElement) -> Jacobian { let mut t = vec![Affine::ZERO; 32]; window_table_affine(&p, &mut t); base_mul(&t, &k) }
fn w_dbase(p: Affine, k: ScalarFieldElement, q: Affine, l: ScalarFieldElement) -> Jacobian { let mut t = vec![Affine::ZERO; 32]; window_table_affine(&p, &mut t); double_base_mul(&t, &k, &q, &l) }
fn generator() -> Affine { zkp_elliptic_curve::GENERATOR }
fn beta() -> FieldElement { zkp_elliptic_curve::BETA }
fn ec_pub(k: ScalarFieldElement) -> Affine { PublicKey::from(&PrivateKey::from(k)).as_affine().clone() }
fn ec_pub_u(k: U256) -> Affine { PublicKey::from(&PrivateKey::from(k)).as_affine().clone() }
fn ec_sign(k: ScalarFieldElement, d: ScalarFieldElement) -> (ScalarFieldElement, ScalarFieldElement) { let s = PrivateKey::from(k).sign(&d); (s.r().clone(), s.w().clone()) }
fn ec_verify(p: Affine, d: ScalarFieldElement, r: ScalarFieldElement, w: ScalarFieldElement) -> bool { PublicKey::from(p).verify(&d, &Signature::new(r, w)) }
fn ec_rt(k: ScalarFieldElement, d: ScalarFieldElement) -> bool { let sk = PrivateKey::from(k); PublicKey::from(&sk).verify(&d, &sk.sign(&d)) }
}
