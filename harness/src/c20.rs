//! C20: every operator and function of the decimal context gives a value or an error. Input: `<kind>:<name>:<arg>,<arg>..`
//! with kind f (function), u (unary operator), b (binary operator), or `e:<expression>` for a text.
use crate::util::*;
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use rust_decimal::Decimal;

thread_local!(static C: DefaultContext<'static, Decimal> = DefaultContext::new_decimal());
/// a decimal; `-0` is the negative zero
pub fn dec(x: &str) -> Option<Decimal> { let mut d: Decimal = x.parse().ok()?; if x.starts_with('-') { d.set_sign_negative(true) } Some(d) }
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.splitn(3, ':').collect();
    if p[0] == "e" {
        let e = Evaluator::with_context(DefaultContext::new_decimal());
        let _ = e.eval(&input[2..]);
        return Ok(())
    }
    if p.len() < 3 { return Ok(()) }
    let v: Vec<Decimal> = p[2].split(',').filter_map(dec).collect();
    C.with(|c| match p[0] {
        "f" => { if let Some(f) = c.get_function(p[1]) { let _ = f.call(&v); } }
        "u" => { if let (Some(f), Some(a)) = (c.get_unary_function(p[1]), v.first()) { let _ = f.call(*a); } }
        _ => { if let (Some(f), [a, b, ..]) = (c.get_binary_function(p[1]), &v[..]) { let _ = f.call(*a, *b); } }
    });
    Ok(())
}
pub fn values() -> Vec<Decimal> {
    let mut v: Vec<Decimal> = vec![];
    for t in ["0", "0.000", "1", "2", "3", "4", "5", "6", "7", "10", "20", "27", "28", "30", "45", "60", "89.9999999999", "90", "90.0000000000000000000000001", "180", "270", "360", "0.5", "0.25", "0.75", "0.9", "0.99", "0.9999999999999999999999999999", "1.0000000000000000000000000001", "0.0000000000000000000000000001",
        "0.00000000000000001", "0.0000000000001", "1.5", "2.5", "3.5", "1.0000000000000001", "1.999999999999999999999999999", "2.0000000000000000000000000001", "3.0000000000000000001", "26.5", "27.5", "65", "66", "67", "100", "1000", "1e6", "1e10", "1e14", "1e15", "1e20", "1e25", "1e27", "1e28", "7e28",
        "1.5707963267948966192313216916", "3.1415926535897932384626433833", "6.2831853071795864769252867666", "2.7182818284590452353602874714", "79228162514264337593543950335", "79228162514264337593543950334", "39614081257132168796771975168", "281474976710655", "281474976710656", "7.9228162514264337593543950335", "0.7922816251426433759354395033", "9223372036854775807", "9223372036854775808", "18446744073709551616", "0.1", "0.01", "12.3456789", "9.9999999999999999999999999999", "1234567890.123456789012345678", "1.4142135623730950488016887242", "3.9720354828415177818323744671"] {
        if let Ok(d) = t.parse::<Decimal>().or_else(|_| Decimal::from_scientific(t)) { v.push(d); let mut m = -d; m.set_sign_negative(true); v.push(m); }
    }
    v
}
pub fn random(s: &mut S) -> Decimal {
    let m = s.rng.below(4);
    let bits = s.rng.below(97) as u32;
    let mut x = ((s.rng.next() as u128) << 64 | s.rng.next() as u128) & ((1u128 << 96) - 1);
    x >>= 96 - bits.max(1);
    let scale = match m { 0 => 0, 1 => s.rng.below(5) as u32, _ => s.rng.below(29) as u32 };
    let mut d = Decimal::from_i128_with_scale(x as i128, scale);
    if s.rng.chance(1, 2) { d.set_sign_negative(true) }
    if s.rng.chance(1, 6) { d = d.round_dp(s.rng.below(4) as u32) }
    d
}
pub fn search(s: &mut S) {
    let (fs, us, bs): (Vec<String>, Vec<String>, Vec<String>) = C.with(|c| (c.functions().keys().map(|k| k.to_string()).collect(), c.unary_functions().keys().map(|k| k.to_string()).collect(), c.binary_functions().keys().map(|k| k.to_string()).collect()));
    let v = values();
    for a in &v {
        for f in &fs { if !s.go() { return } s.test(format!("f:{}:{}", f, a)); }
        for f in &us { if !s.go() { return } s.test(format!("u:{}:{}", f, a)); }
    }
    // all pairs, in an order that depends on the seed, with random rounds in between
    let n = v.len() * v.len();
    let (mut k, mut done, mut r) = (s.rng.below(n), 0, 0);
    while s.go() {
        if done < n {
            done += 1;
            k = (k + 7919) % n;
            let (a, b) = (v[k / v.len()], v[k % v.len()]);
            for f in bs.iter() { s.test(format!("b:{}:{},{}", f, a, b)); }
            for f in ["log", "atan", "max", "min", "random", "sum", "product", "avg"] { s.test(format!("f:{}:{},{}", f, a, b)); }
            if done % 5 != 0 { continue }
        }
        r += 1;
        let a = random(s); let b = if s.rng.chance(1, 4) { *s.rng.pick(&v) } else { random(s) };
        for f in &fs { s.test(format!("f:{}:{}", f, a)); }
        for f in &us { s.test(format!("u:{}:{}", f, a)); }
        for f in &bs { s.test(format!("b:{}:{},{}", f, a, b)); s.test(format!("b:{}:{},{}", f, b, a)); }
        let c = random(s);
        for f in ["log", "atan", "max", "min", "random", "sum", "product", "avg"] { s.test(format!("f:{}:{},{}", f, a, b)); s.test(format!("f:{}:{},{},{},{}", f, a, b, c, a)); }
    }
    s.count("pairs", done as u64);
    s.count("random_rounds", r);
}
