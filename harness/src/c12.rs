//! C12: powers of the decimal context. Input: `<base>:<exponent>`.
use crate::c20::{random, values};
use crate::util::*;
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use rust_decimal::prelude::*;

thread_local!(static E: std::cell::RefCell<Evaluator<'static, Decimal, DefaultContext<'static, Decimal>>> = std::cell::RefCell::new(Evaluator::with_context(DefaultContext::new_decimal())));
const M96: u128 = 1 << 96;
/// the exact power, where it has a mantissa below 2^96 and at most 28 decimal places
fn exact(b: Decimal, e: u64) -> Option<Decimal> {
    let (m, s) = (b.mantissa(), b.scale() as u64);
    if e as u128 * s as u128 > 28 && m != 0 { return None }
    if m == 0 { return Some(Decimal::ZERO) }
    let mut r: i128 = if m < 0 && e % 2 == 1 { -1 } else { 1 };
    if m.unsigned_abs() > 1 {
        for _ in 0..e { r = r.checked_mul(m.abs())?; if r.unsigned_abs() >= M96 { return None } }
    }
    Some(Decimal::from_i128_with_scale(r, (e * s) as u32))
}
/// ln of the magnitude of the power
fn lnpow(b: Decimal, e: u64) -> f64 {
    let a = b.abs();
    let l = if a > Decimal::new(5, 1) && a < Decimal::TWO { (a - Decimal::ONE).to_f64().unwrap().ln_1p() } else { a.to_f64().unwrap().ln() };
    e as f64 * l
}
fn natural(b: Decimal, e: u64, r: &Option<Decimal>) -> Result<(), String> {
    if e == 0 { return if *r == Some(Decimal::ONE) { Ok(()) } else { Err(format!("exponent 0: {:?}, not 1", r)) } }
    if e == 1 { return if *r == Some(b) { Ok(()) } else { Err(format!("exponent 1: {:?}, not the base", r)) } }
    if let Some(x) = exact(b, e) { return if *r == Some(x) { Ok(()) } else { Err(format!("{:?}, not the repeated product {}", r, x)) } }
    let l = lnpow(b, e);
    let max = (M96 as f64).ln();
    match r {
        None => if l > max - 1e-7 { Ok(()) } else { Err(format!("an error, but the power is representable (about e^{})", l)) },
        Some(x) => {
            if l > max + 1e-7 { return Err(format!("{}, but the power exceeds the range", x)) }
            let want = l.exp() * if b.is_sign_negative() && e % 2 == 1 { -1.0 } else { 1.0 };
            let got = x.to_f64().unwrap();
            if (got - want).abs() <= 1e-7 * want.abs() + if b.abs() < Decimal::ONE { 1e-24 } else { 0.0 } { Ok(()) } else { Err(format!("{}, not about {}", x, want)) }
        }
    }
}
fn judge(b: Decimal, x: Decimal, r: Option<Decimal>) -> Result<(), String> {
    if x.fract().is_zero() {
        return match x.to_i64() {
            None => if r.is_none() { Ok(()) } else { Err(format!("{:?} for an exponent beyond range", r)) },
            Some(i64::MIN) => Ok(()),
            Some(e) if e >= 0 => natural(b, e as u64, &r),
            Some(e) => {
                if b.is_zero() { return if r.is_none() { Ok(()) } else { Err(format!("{:?} for zero to a negative power", r)) } }
                natural(Decimal::ONE / b, e.unsigned_abs(), &r)
            }
        }
    }
    if b.is_zero() {
        return if x.is_sign_negative() { if r.is_none() { Ok(()) } else { Err(format!("{:?} for zero to a negative power", r)) } }
        else if r == Some(Decimal::ZERO) { Ok(()) } else { Err(format!("{:?}, not 0", r)) }
    }
    if b.is_sign_negative() { return if r.is_none() { Ok(()) } else { Err(format!("{:?} for a root of a negative number", r)) } }
    if b == Decimal::ONE { return if r == Some(b) { Ok(()) } else { Err(format!("{:?}, not 1", r)) } }
    Ok(())
}
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<Decimal> = input.split(':').filter_map(crate::c20::dec).collect();
    if p.len() != 2 { return Ok(()) }
    let (b, x) = (p[0], p[1]);
    E.with(|e| {
        let mut e = e.borrow_mut();
        let r = e.context().get_binary_function("^").ok_or("no operator ^")?.call(b, x).ok();
        judge(b, x, r).map_err(|w| format!("{} ^ {}: {}", b, x, w))?;
        e.mut_context().set_variable("b", b).map_err(|e| e.to_string())?;
        e.mut_context().set_variable("x", x).map_err(|e| e.to_string())?;
        let t = e.eval("b ^ x").ok();
        if t != r { return Err(format!("`b ^ x` at b = {}, x = {} evaluates to {:?}, the operator gives {:?}", b, x, t, r)) }
        Ok(())
    })
}
pub fn search(s: &mut S) {
    let v = values();
    let mut es: Vec<Decimal> = (-40..=130).map(Decimal::from).collect();
    for k in [255i64, 256, 257, 511, 512, 1000, 1023, 1024, 1 << 20, (1 << 20) + 1, 1 << 32, 1 << 62, i64::MAX, i64::MAX - 1] { es.push(k.into()); es.push((-k).into()); }
    es.push(i64::MIN.into());
    for t in ["9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "79228162514264337593543950335", "-79228162514264337593543950335", "4294967296", "2.0", "3.00", "-2.000", "0.0", "0.5", "-0.5", "1.5", "-1.5", "2.5", "0.3333333333333333333333333333"] { es.push(t.parse().unwrap()); }
    for b in &v { for x in &es { if !s.go() { return } s.test(format!("{}:{}", b, x)); } }
    s.count("grid", (v.len() * es.len()) as u64);
    // the overflow boundary: the largest base whose e-th power fits, and the next ones
    for e in 2..97u32 {
        let (mut lo, mut hi) = (1u128, M96 - 1);
        while lo < hi { let m = lo + (hi - lo + 1) / 2; if exact(Decimal::from_i128_with_scale(m as i128, 0), e as u64).is_some() { lo = m } else { hi = m - 1 } }
        for d in -2..=2i128 { for sg in [1i128, -1] {
            let m = lo as i128 + d; if m < 1 || m as u128 >= M96 { continue }
            if !s.go() { return }
            for sc in [0u32, 1, 2, 28 / e, 28 / e + 1] { if sc <= 28 { s.test(format!("{}:{}", Decimal::from_i128_with_scale(sg * m, sc), e)); } }
        } }
    }
    for a in &v { for b in &v { if !s.go() { return } s.test(format!("{}:{}", a, b)); } }
    let mut r = 0;
    while s.go() {
        r += 1;
        let b = if s.rng.chance(1, 3) { let m = s.rng.range(-3000, 3000); let c = s.rng.below(8) as u32; Decimal::new(m, c) } else { random(s) };
        let x = match s.rng.below(6) { 0 => random(s), 1 => Decimal::from(s.rng.range(-300, 300)), 2 => { let n = s.rng.below(63) as u32; Decimal::from((s.rng.next() >> 1 >> n) as i64) } _ => Decimal::from(s.rng.range(-12, 40)) };
        s.test(format!("{}:{}", b, x));
    }
    s.count("random", r);
}
