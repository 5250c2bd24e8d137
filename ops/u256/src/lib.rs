//! Entry points over zkp-u256 (one per API function or calling form).
#[path = "../../support/support.rs"]
#[macro_use]
pub mod support;
use num_traits::{FromPrimitive, Inv, MulAdd, MulAddAssign, Pow, ToPrimitive, One, Zero, Bounded};
use std::cmp::Ordering;
use support::{Arg, Ret};
use zkp_macros_decl::u256h;
use zkp_u256::*;

impl Arg for U256 {
    fn parse(s: &str) -> Self {
        let s = format!("{:0>64}", s);
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_str_radix(&s[64 - 16 * (i + 1)..64 - 16 * i], 16).unwrap();
        }
        U256::from_limbs(l)
    }
}
impl Ret for U256 {
    fn show(&self) -> String {
        let l = self.as_limbs();
        format!("0x{:x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0])
    }
}

/// StarkWare prime: the Proth-specialised path
#[derive(PartialEq, Clone)]
pub struct PP;
impl MontgomeryParameters for PP {
    type UInt = U256;
    const M64: u64 = 0xffff_ffff_ffff_ffff;
    const MODULUS: U256 = u256h!("0800000000000011000000000000000000000000000000000000000000000001");
    const R1: U256 = u256h!("07fffffffffffdf0ffffffffffffffffffffffffffffffffffffffffffffffe1");
    const R2: U256 = u256h!("07ffd4ab5e008810ffffffffff6f800000000001330ffffffffffd737e000401");
    const R3: U256 = u256h!("038e5f79873c0a6df47d84f8363000187545706677ffcc06cc7177d1406df18e");
}
/// a prime whose low limbs are not 1,0,0: the generic path (StarkWare curve order)
#[derive(PartialEq, Clone)]
pub struct PG;
impl MontgomeryParameters for PG {
    type UInt = U256;
    const M64: u64 = 0xbb6b3c4ce8bde631;
    const MODULUS: U256 = u256h!("0800000000000010ffffffffffffffffb781126dcae7b2321e66a241adc64d2f");
    const R1: U256 = u256h!("07fffffffffffdf10000000000000008c75ec4b46df16bee51925a0bf4fca74f");
    const R2: U256 = u256h!("07d9e57c2333766ebaf0ab4cf78bbabb509cf64d14ce60b96021b3f1ea1c688d");
    const R3: U256 = u256h!("01b2ba88ca1fe18a1f0d9dedfedfda501da2136eb8b3f20e81147668fddd0429");
}

ops! {
// ---- U01
fn add_vr(a: U256, b: U256) -> U256 { a + &b }
fn add_vv(a: U256, b: U256) -> U256 { a + b }
fn add_rr(a: U256, b: U256) -> U256 { &a + &b }
fn add_rv(a: U256, b: U256) -> U256 { &a + b }
fn add_ar(a: U256, b: U256) -> U256 { a += &b; a }
fn add_av(a: U256, b: U256) -> U256 { a += b; a }
fn add_inl(a: U256, b: U256) -> U256 { AddInline::add(&a, &b) }
fn add_inla(a: U256, b: U256) -> U256 { AddInline::add_assign(&mut a, &b); a }
fn add_full(a: U256, b: U256) -> (U256, u64) { let (r, c) = AddFullInline::add_full(&a, &b); (r, c as u64) }
fn add_fulla(a: U256, b: U256) -> (U256, u64) { let c = AddFullInline::add_full_assign(&mut a, &b); (a, c as u64) }
fn sub_vr(a: U256, b: U256) -> U256 { a - &b }
fn sub_vv(a: U256, b: U256) -> U256 { a - b }
fn sub_rr(a: U256, b: U256) -> U256 { &a - &b }
fn sub_rv(a: U256, b: U256) -> U256 { &a - b }
fn sub_ar(a: U256, b: U256) -> U256 { a -= &b; a }
fn sub_av(a: U256, b: U256) -> U256 { a -= b; a }
fn sub_inl(a: U256, b: U256) -> U256 { SubInline::sub(&a, &b) }
fn sub_inla(a: U256, b: U256) -> U256 { SubInline::sub_assign(&mut a, &b); a }
fn sub_full(a: U256, b: U256) -> (U256, u64) { let (r, c) = SubFullInline::sub_full(&a, &b); (r, c as u64) }
fn sub_fulla(a: U256, b: U256) -> (U256, u64) { let c = SubFullInline::sub_full_assign(&mut a, &b); (a, c as u64) }
fn sub_from(a: U256, b: U256) -> U256 { SubFromInline::sub_from_assign(&mut a, &b); a }
fn sub_from_full(a: U256, b: U256) -> (U256, u64) { let c = SubFromFullInline::sub_from_full_assign(&mut a, &b); (a, c as u64) }
fn neg_v(a: U256) -> U256 { -a }
fn neg_r(a: U256) -> U256 { -&a }
fn neg_inl(a: U256) -> U256 { NegInline::neg(&a) }
fn neg_inla(a: U256) -> U256 { NegInline::neg_assign(&mut a); a }
fn lt(a: U256, b: U256) -> bool { a < b }
fn le(a: U256, b: U256) -> bool { a <= b }
fn gt(a: U256, b: U256) -> bool { a > b }
fn ge(a: U256, b: U256) -> bool { a >= b }
fn eq(a: U256, b: U256) -> bool { a == b }
fn ne(a: U256, b: U256) -> bool { a != b }
fn cmp(a: U256, b: U256) -> i8 { match a.cmp(&b) { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
fn pcmp(a: U256, b: U256) -> i8 { match a.partial_cmp(&b) { Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 2 } }
fn max(a: U256, b: U256) -> U256 { a.max(b) }
fn min(a: U256, b: U256) -> U256 { a.min(b) }
fn sum0() -> U256 { let v: [U256; 0] = []; v.iter().cloned().sum() }
fn sum1(a: U256) -> U256 { std::iter::once(a).sum() }
fn sum3(a: U256, b: U256, d: U256) -> U256 { let v = [a, b, d]; v.iter().cloned().sum() }
fn is_zero(a: U256) -> bool { a.is_zero() }
fn is_one(a: U256) -> bool { a.is_one() }
fn consts() -> (U256, U256, U256, U256) { (U256::zero(), U256::one(), U256::min_value(), U256::max_value()) }
fn consts2() -> (U256, U256, U256) { (U256::ZERO, U256::ONE, U256::MAX) }
fn adc_(a: u64, b: u64, d: u64) -> (u64, u64) { adc(a, b, d) }
fn sbb_(a: u64, b: u64, d: u64) -> (u64, u64) { sbb(a, b, d) }
fn mac_(a: u64, b: u64, d: u64, e: u64) -> (u64, u64) { mac(a, b, d, e) }
fn msb_(a: u64, b: u64, d: u64, e: u64) -> (u64, u64) { msb(a, b, d, e) }
fn div_2_1_(a: u64, b: u64, d: u64) -> (u64, u64) { div_2_1(a, b, d) }
// ---- U02
fn shl(a: U256, n: usize) -> U256 { a << n }
fn shl_a(a: U256, n: usize) -> U256 { a <<= n; a }
fn shr(a: U256, n: usize) -> U256 { a >> n }
fn shr_a(a: U256, n: usize) -> U256 { a >>= n; a }
fn not_(a: U256) -> U256 { !a }
fn and_vr(a: U256, b: U256) -> U256 { a & &b }
fn and_vv(a: U256, b: U256) -> U256 { a & b }
fn and_rr(a: U256, b: U256) -> U256 { &a & &b }
fn and_a(a: U256, b: U256) -> U256 { a &= &b; a }
fn or_vr(a: U256, b: U256) -> U256 { a | &b }
fn or_vv(a: U256, b: U256) -> U256 { a | b }
fn or_rr(a: U256, b: U256) -> U256 { &a | &b }
fn or_a(a: U256, b: U256) -> U256 { a |= &b; a }
fn xor_vr(a: U256, b: U256) -> U256 { a ^ &b }
fn xor_vv(a: U256, b: U256) -> U256 { a ^ b }
fn xor_rr(a: U256, b: U256) -> U256 { &a ^ &b }
fn xor_a(a: U256, b: U256) -> U256 { a ^= &b; a }
fn and64(a: U256, b: u64) -> u64 { &a & b }
fn bit(a: U256, i: usize) -> bool { a.bit(i) }
fn count_ones(a: U256) -> usize { a.count_ones() }
fn count_zeros(a: U256) -> usize { a.count_zeros() }
fn leading_zeros(a: U256) -> usize { a.leading_zeros() }
fn trailing_zeros(a: U256) -> usize { a.trailing_zeros() }
fn bits(a: U256) -> usize { a.bits() }
fn msbit(a: U256) -> Option<usize> { a.most_significant_bit() }
fn num_bits() -> usize { U256::num_bits() }
// ---- U03
fn mul_vr(a: U256, b: U256) -> U256 { a * &b }
fn mul_vv(a: U256, b: U256) -> U256 { a * b }
fn mul_rr(a: U256, b: U256) -> U256 { &a * &b }
fn mul_rv(a: U256, b: U256) -> U256 { &a * b }
fn mul_ar(a: U256, b: U256) -> U256 { a *= &b; a }
fn mul_av(a: U256, b: U256) -> U256 { a *= b; a }
fn mul_inl(a: U256, b: U256) -> U256 { MulInline::mul(&a, &b) }
fn mul_inla(a: U256, b: U256) -> U256 { MulInline::mul_assign(&mut a, &b); a }
fn mul_full(a: U256, b: U256) -> (U256, U256) { a.mul_full(&b) }
fn mul_full_inla(a: U256, b: U256) -> (U256, U256) { let h = a.mul_full_assign_inline(&b); (a, h) }
fn square(a: U256) -> U256 { a.square() }
fn square_a(a: U256) -> U256 { a.square_assign(); a }
fn square_full(a: U256) -> (U256, U256) { a.square_full() }
fn square_full_a(a: U256) -> (U256, U256) { let h = a.square_full_assign(); (a, h) }
fn mul64_v(a: U256, b: u64) -> U256 { a * b }
fn mul64_r(a: U256, b: u64) -> U256 { &a * b }
fn mul64_a(a: U256, b: u64) -> U256 { a *= b; a }
fn mul64_rev(a: U256, b: u64) -> U256 { b * a }
fn mul64_revr(a: U256, b: u64) -> U256 { b * &a }
fn mul64_inl(a: U256, b: u64) -> U256 { MulInline::mul(&a, b) }
fn mul64_full(a: U256, b: u64) -> (U256, u64) { a.mul_full(b) }
fn mul64_fulla(a: U256, b: u64) -> (U256, u64) { let h = a.mul_full_assign_inline(b); (a, h) }
fn mulmod(a: U256, b: U256, m: U256) -> U256 { a.mulmod(&b, &m) }
fn pow(a: U256, n: u64) -> U256 { (&a).pow(n) }
fn mul_add(a: U256, b: U256, d: U256) -> U256 { (&a).mul_add(&b, &d) }
fn mul_add_a(a: U256, b: U256, d: U256) -> U256 { a.mul_add_assign(&b, &d); a }
fn prod0() -> U256 { let v: [U256; 0] = []; v.iter().cloned().product() }
fn prod1(a: U256) -> U256 { std::iter::once(a).product() }
fn prod3(a: U256, b: U256, d: U256) -> U256 { let v = [a, b, d]; v.iter().cloned().product() }
// ---- U04
fn div_rem(a: U256, b: U256) -> Option<(U256, U256)> { a.div_rem(&b) }
fn div_rem64(a: U256, b: u64) -> Option<(U256, u64)> { a.div_rem(b) }
fn div_rr(a: U256, b: U256) -> U256 { &a / &b }
fn div_vr(a: U256, b: U256) -> U256 { a / &b }
fn div_vv(a: U256, b: U256) -> U256 { a / b }
fn div_a(a: U256, b: U256) -> U256 { a /= &b; a }
fn rem_rr(a: U256, b: U256) -> U256 { &a % &b }
fn rem_vr(a: U256, b: U256) -> U256 { a % &b }
fn rem_vv(a: U256, b: U256) -> U256 { a % b }
fn rem_a(a: U256, b: U256) -> U256 { a %= &b; a }
// ---- U05
fn gcd(a: U256, b: U256) -> U256 { U256::gcd(&a, &b) }
fn gcd_ext(a: U256, b: U256) -> (U256, U256, U256, bool) { U256::gcd_extended(&a, &b) }
fn inv_mod(a: U256, m: U256) -> Option<U256> { a.inv_mod(&m) }
fn inv256(a: U256) -> Option<U256> { (&a).inv() }
// ---- U06
fn p_reduce1(a: U256) -> U256 { a.reduce_1::<PP>() }
fn p_redc(a: U256, b: U256) -> U256 { U256::redc::<PP>(&a, &b) }
fn p_sqr(a: U256) -> U256 { a.square_redc::<PP>() }
fn p_mul(a: U256, b: U256) -> U256 { a.mul_redc::<PP>(&b) }
fn p_to(a: U256) -> U256 { a.to_montgomery::<PP>() }
fn p_from(a: U256) -> U256 { a.from_montgomery::<PP>() }
fn p_inv(a: U256) -> Option<U256> { a.inv_redc::<PP>() }
fn p_mulmod(a: U256, b: U256) -> U256 { a.mul_mod::<PP>(&b) }
fn p_params() -> (U256, (U256, U256, U256), u64) { (PP::MODULUS, (PP::R1, PP::R2, PP::R3), PP::M64) }
fn g_reduce1(a: U256) -> U256 { a.reduce_1::<PG>() }
fn g_redc(a: U256, b: U256) -> U256 { U256::redc::<PG>(&a, &b) }
fn g_sqr(a: U256) -> U256 { a.square_redc::<PG>() }
fn g_mul(a: U256, b: U256) -> U256 { a.mul_redc::<PG>(&b) }
fn g_to(a: U256) -> U256 { a.to_montgomery::<PG>() }
fn g_from(a: U256) -> U256 { a.from_montgomery::<PG>() }
fn g_inv(a: U256) -> Option<U256> { a.inv_redc::<PG>() }
fn g_mulmod(a: U256, b: U256) -> U256 { a.mul_mod::<PG>(&b) }
fn g_params() -> (U256, (U256, U256, U256), u64) { (PG::MODULUS, (PG::R1, PG::R2, PG::R3), PG::M64) }
fn to_mont_const(x: U256, m: U256, m64: u64, r2: U256) -> U256 { to_montgomery_const(&x, &m, m64, &r2) }
// ---- U07
fn from_be(a: [u8; 32]) -> U256 { U256::from_bytes_be(&a) }
fn to_be(a: U256) -> [u8; 32] { a.to_bytes_be() }
fn from_bool(a: bool) -> U256 { U256::from(a) }
fn from_u8(a: u8) -> U256 { U256::from(a) }
fn from_u16(a: u16) -> U256 { U256::from(a) }
fn from_u32(a: u32) -> U256 { U256::from(a) }
fn from_u64(a: u64) -> U256 { U256::from(a) }
fn from_usize(a: usize) -> U256 { U256::from(a) }
fn from_u128(a: u128) -> U256 { U256::from(a) }
fn from_i8(a: i8) -> U256 { U256::from(a) }
fn from_i16(a: i16) -> U256 { U256::from(a) }
fn from_i32(a: i32) -> U256 { U256::from(a) }
fn from_i64(a: i64) -> U256 { U256::from(a) }
fn from_isize(a: isize) -> U256 { U256::from(a) }
fn from_i128(a: i128) -> U256 { U256::from(a) }
fn fromp_u64(a: u64) -> Option<U256> { <U256 as FromPrimitive>::from_u64(a) }
fn fromp_i64(a: i64) -> Option<U256> { <U256 as FromPrimitive>::from_i64(a) }
fn as_u8(a: U256) -> u8 { a.as_u8() }
fn as_u16(a: U256) -> u16 { a.as_u16() }
fn as_u32(a: U256) -> u32 { a.as_u32() }
fn as_u64(a: U256) -> u64 { a.as_u64() }
fn as_usize(a: U256) -> usize { a.as_usize() }
fn as_u128(a: U256) -> u128 { a.as_u128() }
fn as_i8(a: U256) -> i8 { a.as_i8() }
fn as_i16(a: U256) -> i16 { a.as_i16() }
fn as_i32(a: U256) -> i32 { a.as_i32() }
fn as_i64(a: U256) -> i64 { a.as_i64() }
fn as_isize(a: U256) -> isize { a.as_isize() }
fn as_i128(a: U256) -> i128 { a.as_i128() }
fn to_u128(a: U256) -> Option<u128> { a.to_u128() }
fn to_i128(a: U256) -> Option<i128> { a.to_i128() }
fn to_u64(a: U256) -> Option<u64> { a.to_u64() }
fn to_i64(a: U256) -> Option<i64> { a.to_i64() }
fn to_u32(a: U256) -> Option<u32> { a.to_u32() }
fn to_i32(a: U256) -> Option<i32> { a.to_i32() }
fn to_u8(a: U256) -> Option<u8> { a.to_u8() }
fn to_i8(a: U256) -> Option<i8> { a.to_i8() }
fn to_usize(a: U256) -> Option<usize> { a.to_usize() }
fn from_dec(s: String) -> Result<U256, ()> { U256::from_decimal_str(&s).map_err(|_| ()) }
fn to_dec(a: U256) -> String { a.to_decimal_string() }
fn to_hex(a: U256) -> String { a.to_hex_string() }
fn from_hex(s: String) -> U256 { U256::from_hex_str(&s) }
fn display(a: U256) -> String { format!("{}", a) }
fn debug(a: U256) -> String { format!("{:?}", a) }
fn limb(a: U256, i: usize) -> u64 { a.limb(i) }
fn set_limb(a: U256, i: usize, v: u64) -> U256 { a.set_limb(i, v); a }
fn from_limbs(a: [u64; 4]) -> U256 { U256::from_limbs(a) }
fn as_limbs(a: U256) -> [u64; 4] { *a.as_limbs() }
fn serde_json_rt(a: U256) -> (String, U256) { let s = serde_json::to_string(&a).unwrap(); let b = serde_json::from_str(&s).unwrap(); (s, b) }
fn bincode_rt(a: U256) -> (support::Bytes, U256) { let s = bincode::serialize(&a).unwrap(); let b = bincode::deserialize(&s).unwrap(); (support::Bytes(s), b) }
}
