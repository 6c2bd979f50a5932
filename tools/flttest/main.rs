//! The laws units/fact.rs trusts about floats, tried on special and random f32 and f64 values. rustc -O main.rs && ./main
macro_rules! laws { ($t:ident, $u:ident, $exp:expr, $bias:expr, $mant:expr, $n:expr, $seed:expr) => {{
    // doublings left before a value >= 1 is infinite
    let room = |a: $t| -> i64 { if a.is_infinite() { 0 } else { 1024 * 64 + $bias - ((a.to_bits() >> $mant) & $exp) as i64 } };
    let mut sp: Vec<$t> = vec![0.0, -0.0, 0.5, 1.0, 1.5, 2.0, 3.0, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, $t::MAX, $t::MIN, $t::MIN_POSITIVE, $t::EPSILON];
    for x in sp.clone() { sp.push($t::from_bits(x.to_bits().wrapping_add(1))); sp.push($t::from_bits(x.to_bits().wrapping_sub(1))); }
    for e in 0..70 { let x = (2.0 as $t).powi(e); sp.push(x); sp.push($t::from_bits(x.to_bits() - 1)); sp.push($t::from_bits(x.to_bits() + 1)); }
    let mut s: u64 = $seed;
    let mut rnd = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    let one = |a: $t| {
        if a - 1.0 >= 1.0 { assert!(a >= 2.0, "{a}"); }
        if a < 0.5 { assert!(!(1.0 - a < 0.5), "{a}"); }
        if a >= 2.0 { assert!(a > 1.0) } if a > 1.0 { assert!(a >= 1.0) }
        assert_eq!(a.partial_cmp(&1.0).map_or(false, |o| o != std::cmp::Ordering::Less), a >= 1.0);
    };
    let two = |a: $t, b: $t| if a >= 1.0 && b >= 1.0 {
        let p = a * b; assert!(p >= 1.0 && room(p) <= room(a), "{a} {b}");
        if b >= 2.0 { assert!(room(p) < room(a) || p == a, "{a} {b}") }
    };
    for &a in &sp { one(a); for &b in &sp { two(a, b) } }
    for k in 0..$n {
        let (mut a, mut b) = ($t::from_bits(rnd() as $u), $t::from_bits((rnd() >> 3) as $u));
        if k % 2 == 0 { a = a.abs(); b = b.abs(); if a < 1.0 { a = 1.0 / a } if b < 1.0 { b = 1.0 / b } }
        if k % 3 == 0 { b = 1.0 + (rnd() % 4096) as $t / 1024.0 }
        one(a); one(b); two(a, b); two(b, a);
    }
}} }
fn main() {
    laws!(f64, u64, 0x7ff, 1023, 52, 5_000_000, 88172645463325252);
    laws!(f32, u32, 0xff, 127, 23, 5_000_000, 1234567890123456789);
    println!("float laws: no deviation");
}
