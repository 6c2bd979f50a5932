//! C11: macro-generated newtypes. Input: `TYPE A B` (TYPE one of i8, i64, i128, f64, ui16, uf64) or `parse TYPE TEXT`.
use crate::util::*;
use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
use prexel::num::checked::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ni8(i8);
impl From<i8> for Ni8 { fn from(v: i8) -> Self { Ni8(v) } }
prexel::impl_checked_num_traits_with_field_and_from_str!(Ni8 => 0, i8);
pub struct Ni64 { value: i64, #[allow(dead_code)] tag: u8 }
impl From<i64> for Ni64 { fn from(value: i64) -> Self { Ni64 { value, tag: 7 } } }
prexel::impl_checked_num_traits_with_field_and_from_str!(Ni64 => value, i64);
pub struct Ni128(i128);
impl From<i128> for Ni128 { fn from(v: i128) -> Self { Ni128(v) } }
prexel::impl_checked_num_traits_with_field_and_from_str!(Ni128 => 0, i128);
pub struct Nf64(f64);
impl From<f64> for Nf64 { fn from(v: f64) -> Self { Nf64(v) } }
impl From<i32> for Nf64 { fn from(v: i32) -> Self { Nf64(v as f64) } }
prexel::impl_checked_num_traits_with_field_and_from_str!(Nf64 => 0, f64);
pub struct Ui16 { v: i16 }
impl From<i16> for Ui16 { fn from(v: i16) -> Self { Ui16 { v } } }
prexel::impl_unchecked_num_traits_with_field_and_from_str!(Ui16 => v, i16);
pub struct Uf64(f64);
impl From<f64> for Uf64 { fn from(v: f64) -> Self { Uf64(v) } }
impl From<i32> for Uf64 { fn from(v: i32) -> Self { Uf64(v as f64) } }
prexel::impl_unchecked_num_traits_with_field_and_from_str!(Uf64 => 0, f64);
// the forms without parsing
pub struct Pi32(i32);
impl From<i32> for Pi32 { fn from(v: i32) -> Self { Pi32(v) } }
prexel::impl_checked_num_traits_with_field!(Pi32 => 0, i32);
pub struct Qi32(i32);
impl From<i32> for Qi32 { fn from(v: i32) -> Self { Qi32(v) } }
prexel::impl_unchecked_num_traits_with_field!(Qi32 => 0, i32);

/// the bit pattern, so that NaN and -0.0 are told apart
trait Bits: Copy { fn bits(self) -> i128; }
macro_rules! bits { ($($t:ty),*) => { $(impl Bits for $t { fn bits(self) -> i128 { self as i128 } })* } }
bits!(i8, i16, i32, i64, i128);
impl Bits for f64 { fn bits(self) -> i128 { if self.is_nan() { -1 } else { self.to_bits() as i128 } } }
fn run<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

macro_rules! common { ($w:ident, $t:ty, $f:tt, $a:expr, $b:expr) => {{
    let (a, b): ($t, $t) = ($a, $b);
    let w = |x: $t| <$w as From<$t>>::from(x);
    let un = |x: $w| x.$f.bits();
    macro_rules! same { ($what:expr, $got:expr, $want:expr) => { let (g, h) = (run(|| $got), run(|| $want)); if g != h { return Err(format!("{} on {:?} and {:?} gives {:?}, the field gives {:?}", $what, a, b, g, h)) } } }
    same!("+", un(w(a) + w(b)), (a + b).bits());
    same!("-", un(w(a) - w(b)), (a - b).bits());
    same!("*", un(w(a) * w(b)), (a * b).bits());
    same!("/", un(w(a) / w(b)), (a / b).bits());
    same!("%", un(w(a) % w(b)), (a % b).bits());
    same!("neg", un(-w(a)), (-a).bits());
    same!("is_zero", w(a).is_zero(), a.is_zero());
    same!("zero", un(<$w as Zero>::zero()), <$t as Zero>::zero().bits());
    same!("one", un(<$w as One>::one()), <$t as One>::one().bits());
    same!("clone", un(w(a).clone()), a.bits());
    same!("==", w(a) == w(b), a == b);
    same!("partial_cmp", w(a).partial_cmp(&w(b)), a.partial_cmp(&b));
    same!("<", w(a) < w(b), a < b);
    same!("to_i64", w(a).to_i64(), a.to_i64());
    same!("to_u64", w(a).to_u64(), a.to_u64());
    same!("to_f64", w(a).to_f64().map(|x| x.bits()), a.to_f64().map(|x| x.bits()));
    same!("display", w(a).to_string(), a.to_string());
    same!("debug", format!("{:?}", w(a)), format!("{:?}", a));
    for n in [a.to_i64(), b.to_i64(), Some(i64::MIN), Some(200)] { if let Some(n) = n { same!(format!("from_i64({})", n), <$w as FromPrimitive>::from_i64(n).map(un), <$t as FromPrimitive>::from_i64(n).map(|x| x.bits())); } }
    for n in [a.to_u64(), b.to_u64(), Some(u64::MAX), Some(200)] { if let Some(n) = n { same!(format!("from_u64({})", n), <$w as FromPrimitive>::from_u64(n).map(un), <$t as FromPrimitive>::from_u64(n).map(|x| x.bits())); } }
    for n in [a.to_f64(), b.to_f64(), Some(f64::NAN), Some(2.5), Some(-1e30)] { if let Some(n) = n { same!(format!("from_f64({})", n), <$w as FromPrimitive>::from_f64(n).map(un), <$t as FromPrimitive>::from_f64(n).map(|x| x.bits())); } }
}} }
macro_rules! chk { ($w:ident, $t:ty, $f:tt, $a:expr, $b:expr) => {{
    let (a, b): ($t, $t) = ($a, $b);
    let w = |x: $t| <$w as From<$t>>::from(x);
    let un = |x: $w| x.$f.bits();
    macro_rules! same { ($what:expr, $got:expr, $want:expr) => { let (g, h) = (run(|| $got), run(|| $want)); if g != h { return Err(format!("{} on {:?} and {:?} gives {:?}, the field gives {:?}", $what, a, b, g, h)) } } }
    same!("checked_add", CheckedAdd::checked_add(&w(a), &w(b)).map(un), CheckedAdd::checked_add(&a, &b).map(|x| x.bits()));
    same!("checked_sub", CheckedSub::checked_sub(&w(a), &w(b)).map(un), CheckedSub::checked_sub(&a, &b).map(|x| x.bits()));
    same!("checked_mul", CheckedMul::checked_mul(&w(a), &w(b)).map(un), CheckedMul::checked_mul(&a, &b).map(|x| x.bits()));
    same!("checked_div", CheckedDiv::checked_div(&w(a), &w(b)).map(un), CheckedDiv::checked_div(&a, &b).map(|x| x.bits()));
    same!("checked_rem", CheckedRem::checked_rem(&w(a), &w(b)).map(un), CheckedRem::checked_rem(&a, &b).map(|x| x.bits()));
    same!("checked_neg", CheckedNeg::checked_neg(&w(a)).map(un), CheckedNeg::checked_neg(&a).map(|x| x.bits()));
}} }
fn arg<T: std::str::FromStr>(s: &str) -> Result<T, String> { s.parse().map_err(|_| format!("not a value: {}", s)) }

pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.splitn(3, ' ').collect();
    if p.len() < 3 { return Err("input".into()) }
    if p[0] == "parse" {
        let t = p[2];
        macro_rules! ps { ($w:ident, $t:ty, $f:tt) => {{
            let (g, h) = (t.parse::<$w>().map(|x| x.$f.bits()).map_err(|e| e.to_string()), t.parse::<$t>().map(|x| x.bits()).map_err(|e| e.to_string()));
            if g != h { return Err(format!("parsing {:?} gives {:?}, the field gives {:?}", t, g, h)) }
        }} }
        match p[1] { "i8" => ps!(Ni8, i8, 0), "i64" => ps!(Ni64, i64, value), "i128" => ps!(Ni128, i128, 0), "f64" => ps!(Nf64, f64, 0), "ui16" => ps!(Ui16, i16, v), _ => ps!(Uf64, f64, 0) }
        return Ok(())
    }
    let (a, b) = (p[1], p[2]);
    match p[0] {
        "i64" => { let (a, b) = (arg::<i64>(a)?, arg::<i64>(b)?); common!(Ni64, i64, value, a, b); chk!(Ni64, i64, value, a, b) }
        "ui16" => { let (a, b) = (arg::<i16>(a)?, arg::<i16>(b)?); common!(Ui16, i16, v, a, b) }
        "i8" => { let (a, b) = (arg::<i8>(a)?, arg::<i8>(b)?); common!(Ni8, i8, 0, a, b); chk!(Ni8, i8, 0, a, b) }
        "i128" => { let (a, b) = (arg::<i128>(a)?, arg::<i128>(b)?); common!(Ni128, i128, 0, a, b); chk!(Ni128, i128, 0, a, b) }
        "f64" => { let (a, b) = (arg::<f64>(a)?, arg::<f64>(b)?); common!(Nf64, f64, 0, a, b); chk!(Nf64, f64, 0, a, b) }
        "uf64" => { let (a, b) = (arg::<f64>(a)?, arg::<f64>(b)?); common!(Uf64, f64, 0, a, b) }
        "pi32" => { let (a, b) = (arg::<i32>(a)?, arg::<i32>(b)?); common!(Pi32, i32, 0, a, b); chk!(Pi32, i32, 0, a, b) }
        _ => { let (a, b) = (arg::<i32>(a)?, arg::<i32>(b)?); common!(Qi32, i32, 0, a, b) }
    }
    Ok(())
}
const FL: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.0, 1e308, -1e308, 5e-324, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 9007199254740993.0, 1e19, -1e19, 0.1];
pub fn search(s: &mut S) {
    let mut iv: Vec<i128> = vec![];
    for k in [7, 15, 31, 63, 127] { let m = if k == 127 { i128::MAX } else { (1i128 << k) - 1 }; for d in 0..3 { iv.push(m - d); iv.push(-m - 1 + d); if k < 127 { iv.push(m + d + 1); } } }
    iv.extend(-5..=5); iv.sort(); iv.dedup();
    for a in -128i128..=127 { for b in -128i128..=127 { if !s.test(format!("i8 {} {}", a, b)) { return } if !s.go() { break } } }
    for t in ["i64", "i128", "ui16", "pi32", "qi32"] {
        let lim = match t { "i64" => i64::MAX as i128, "i128" => i128::MAX, "ui16" => i16::MAX as i128, _ => i32::MAX as i128 };
        let ok: Vec<i128> = iv.iter().copied().filter(|v| *v <= lim && *v >= -lim - 1).collect();
        for a in &ok { for b in &ok { if !s.test(format!("{} {} {}", t, a, b)) { return } } }
    }
    for t in ["f64", "uf64"] { for a in FL { for b in FL { if !s.test(format!("{} {} {}", t, a, b)) { return } } } }
    for t in ["i8", "i64", "i128", "f64", "ui16", "uf64"] { for x in ["0", "7", "-7", "+7", "127", "128", "-128", "-129", "", " 1", "1 ", "1.5", "-0", "nan", "inf", "1e5", "x", "99999999999999999999", "-9223372036854775808", "170141183460469231731687303715884105727"] { if !s.test(format!("parse {} {}", t, x)) { return } } }
    while s.go() {
        let t = *s.rng.pick(&["i64", "i128", "ui16", "pi32", "qi32", "f64", "uf64"]);
        let mut v = || { let r = ((s.rng.next() as u128) << 64 | s.rng.next() as u128) as i128; let r = r >> s.rng.below(127); match t { "i64" => (r as i64).to_string(), "i128" => r.to_string(), "ui16" => (r as i16).to_string(), "pi32" | "qi32" => (r as i32).to_string(), _ => if s.rng.chance(1, 3) { s.rng.pick(FL).to_string() } else { f64::from_bits(s.rng.next()).to_string() } } };
        let (a, b) = (v(), v());
        if !s.test(format!("{} {} {}", t, a, b)) { return }
        s.count("random_pairs", 1);
    }
}
