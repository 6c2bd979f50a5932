//! C09: sum, product, avg, max and min. Input: `<context>:<type>:<function>:<arg>,<arg>..` with context c
//! (checked), u (unchecked), d (decimal), z (complex, real and imaginary parts `re_im`).
use crate::c08::Int;
use crate::util::*;
use num_complex::Complex;
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use rust_decimal::Decimal;
use std::fmt::Debug;

const FNS: &[&str] = &["sum", "product", "avg", "max", "min"];
/// an operation's value, or None when it has none
struct Alg<N> { add: fn(&N, &N) -> Option<N>, mul: fn(&N, &N) -> Option<N>, div_len: fn(&N, usize) -> Option<N>, gt: fn(&N, &N) -> bool, same: fn(&N, &N) -> bool }
enum W<N> { Val(N), Extreme(bool), BadCount, OutOfRange, }
fn want<N: Clone>(f: &str, v: &[N], a: &Alg<N>) -> W<N> {
    let fold = |op: fn(&N, &N) -> Option<N>| -> Option<N> { let mut r = v[0].clone(); for x in &v[1..] { r = op(&r, x)?; } Some(r) };
    match f {
        "max" | "min" => if v.len() < 2 { W::BadCount } else { W::Extreme(f == "max") },
        _ if v.is_empty() => W::BadCount,
        "sum" => fold(a.add).map_or(W::OutOfRange, W::Val),
        "product" => fold(a.mul).map_or(W::OutOfRange, W::Val),
        _ => fold(a.add).and_then(|s| (a.div_len)(&s, v.len())).map_or(W::OutOfRange, W::Val),
    }
}
fn judge<N: Clone + Debug>(what: &str, f: &str, v: &[N], a: &Alg<N>, r: Result<N, String>) -> Result<(), String> {
    let sh = || if v.len() > 12 { format!("{} arguments {:?}..", v.len(), &v[..12]) } else { format!("{:?}", v) };
    match (want(f, v, a), &r) {
        (W::Val(w), Ok(g)) if (a.same)(&w, g) => Ok(()),
        (W::Val(w), _) => Err(format!("{}: {} of {} is {:?} instead of {:?}", what, f, sh(), r, w)),
        (W::BadCount, Err(_)) | (W::OutOfRange, Err(_)) => Ok(()),
        (W::BadCount, Ok(g)) => Err(format!("{}: {} of {} arguments is {:?} instead of an error", what, f, v.len(), g)),
        (W::OutOfRange, Ok(g)) => Err(format!("{}: {} of {} overflows but gives {:?}", what, f, sh(), g)),
        (W::Extreme(max), Ok(g)) => {
            if !v.iter().any(|x| (a.same)(x, g)) { return Err(format!("{}: {} of {} is {:?}, not an argument", what, f, sh(), g)) }
            match v.iter().find(|x| if max { (a.gt)(x, g) } else { (a.gt)(g, x) }) { Some(x) => Err(format!("{}: {} of {} is {:?} but {:?} is an argument", what, f, sh(), g, x)), None => Ok(()) }
        }
        (W::Extreme(_), Err(e)) => Err(format!("{}: {} of {} is the error {}", what, f, sh(), e)),
    }
}
fn ints<T: Int>(ctx: &str, f: &str, args: &str) -> Result<(), String> {
    let v: Vec<T> = args.split(',').filter_map(|x| x.parse().ok()).collect();
    let a = Alg::<T> { add: |a, b| a.add(*b), mul: |a, b| a.mul(*b), div_len: |a, n| T::of(n as u128).and_then(|n| a.div(n)), gt: |a, b| a > b, same: |a, b| a == b };
    if ctx == "u" {
        // the unchecked context may overflow: only what fits is claimed
        if matches!(want(f, &v, &a), W::OutOfRange) { return Ok(()) }
        return T::with_uctx(|c| judge("unchecked", f, &v, &a, c.get_function(f).expect("registered").call(&v).map_err(|e| e.to_string())));
    }
    T::with_ctx(|c| judge("checked", f, &v, &a, c.get_function(f).expect("registered").call(&v).map_err(|e| e.to_string())))
}
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.splitn(4, ':').collect();
    if p.len() < 4 { return Ok(()) }
    let (ctx, ty, f, args) = (p[0], p[1], p[2], p[3]);
    match ctx {
        "d" => {
            let v: Vec<Decimal> = args.split(',').filter_map(|x| x.parse().ok()).collect();
            let a = Alg::<Decimal> { add: |a, b| a.checked_add(*b), mul: |a, b| a.checked_mul(*b), div_len: |a, n| a.checked_div(Decimal::from(n as u64)), gt: |a, b| a > b, same: |a, b| a == b };
            thread_local!(static C: DefaultContext<'static, Decimal> = DefaultContext::new_decimal());
            return C.with(|c| judge("decimal", f, &v, &a, c.get_function(f).expect("registered").call(&v).map_err(|e| e.to_string())));
        }
        "z" => {
            if f == "max" || f == "min" { return Ok(()) }
            type Z = Complex<f64>;
            let v: Vec<Z> = args.split(',').filter_map(|x| { let (r, i) = x.split_once('_')?; Some(Z::new(r.parse().ok()?, i.parse().ok()?)) }).collect();
            let a = Alg::<Z> { add: |a, b| Some(a + b), mul: |a, b| Some(a * b), div_len: |a, n| Some(a / Z::new(n as f64, 0.0)), gt: |_, _| false, same: |a, b| bits(a.re) == bits(b.re) && bits(a.im) == bits(b.im) };
            thread_local!(static C: DefaultContext<'static, Z> = DefaultContext::new_complex());
            return C.with(|c| judge("complex", f, &v, &a, c.get_function(f).expect("registered").call(&v).map_err(|e| e.to_string())));
        }
        _ => {}
    }
    match ty {
        "i8" => ints::<i8>(ctx, f, args), "i16" => ints::<i16>(ctx, f, args), "i32" => ints::<i32>(ctx, f, args), "i64" => ints::<i64>(ctx, f, args), "i128" => ints::<i128>(ctx, f, args), "isize" => ints::<isize>(ctx, f, args),
        "u8" => ints::<u8>(ctx, f, args), "u16" => ints::<u16>(ctx, f, args), "u32" => ints::<u32>(ctx, f, args), "u64" => ints::<u64>(ctx, f, args), "u128" => ints::<u128>(ctx, f, args), "usize" => ints::<usize>(ctx, f, args),
        "f64" => {
            let v: Vec<f64> = args.split(',').filter_map(|x| x.parse().ok()).collect();
            let a = Alg::<f64> { add: |a, b| Some(a + b), mul: |a, b| Some(a * b), div_len: |a, n| Some(a / n as f64), gt: |a, b| a > b, same: |a, b| bits(*a) == bits(*b) };
            thread_local!(static C: (DefaultContext<'static, f64>, DefaultContext<'static, f64>) = (DefaultContext::new_checked(), DefaultContext::new_unchecked()));
            C.with(|(c, u)| judge("f64", f, &v, &a, (if ctx == "u" { u } else { c }).get_function(f).expect("registered").call(&v).map_err(|e| e.to_string())))?;
            // through the evaluator, where the argument count is part of the converted expression
            if ctx == "c" && v.len() <= 40 && v.iter().all(|x| x.is_finite() && *x >= 0.0 && *x < 1e9 && x.fract() == 0.0) {
                let text = format!("{}({})", f, v.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(", "));
                let e: Evaluator<f64> = Evaluator::new();
                return judge(&text, f, &v, &a, e.eval(&text).map_err(|e| e.to_string()));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
fn bits(x: f64) -> u64 { if x.is_nan() { 1 } else { x.to_bits() } }

fn go<T: Int>(s: &mut S, v: &[T]) {
    for f in FNS { for c in ["c", "u"] {
        if !s.go() { return }
        let a: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        s.test(format!("{}:{}:{}:{}", c, T::NAME, f, a.join(",")));
    } }
}
fn lens(s: &mut S) -> usize { match s.rng.below(20) { 0 => 0, 1 => 1, 2..=12 => 2 + s.rng.below(5), 13..=17 => s.rng.below(40), 18 => 120 + s.rng.below(20), _ => 250 + s.rng.below(20) } }
fn rnd<T: Int>(s: &mut S) {
    let n = lens(s);
    let pool = crate::c08::values::<T>();
    let mode = s.rng.below(6);
    let v: Vec<T> = (0..n).map(|_| match mode {
        0 => *s.rng.pick(&pool),
        1 => T::of(s.rng.below(3) as u128).unwrap(),
        2 => T::of(s.rng.below(100) as u128).unwrap(),
        3 => { let x = T::of(s.rng.below(12) as u128).unwrap(); if s.rng.chance(1, 2) { x.neg().unwrap_or(x) } else { x } }
        4 => if s.rng.chance(1, 12) { *s.rng.pick(&pool) } else { T::of(s.rng.below(2) as u128).unwrap() },
        _ => T::wrap(s.rng.next() >> s.rng.below(64), if s.rng.chance(1, 2) { 0 } else { s.rng.next() }),
    }).collect();
    go(s, &v)
}
pub fn search(s: &mut S) {
    // every list of at most three small values, every length with constant arguments
    let sm: Vec<i8> = vec![-128, -64, -3, -1, 0, 1, 2, 5, 64, 127];
    go::<i8>(s, &[]);
    for a in &sm { go::<i8>(s, &[*a]); for b in &sm { go::<i8>(s, &[*a, *b]); for c in &sm { go::<i8>(s, &[*a, *b, *c]); } } }
    for n in 0..300usize { for x in [0i8, 1, -1] { go::<i8>(s, &vec![x; n]) } go::<u8>(s, &vec![(n == 0) as u8; n]); go::<u16>(s, &vec![1; n]); }
    let fs = [0.0, -0.0, 1.0, -1.0, 0.5, 3.0, 7.0, 1e308, -1e308, 1e-320, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE];
    let ds = ["0", "1", "-1", "2", "0.5", "0.1", "3", "79228162514264337593543950335", "-79228162514264337593543950335", "39614081257132168796771975168", "0.0000000000000000000000000001", "7.9228162514264337593543950335", "1e10"];
    for f in FNS {
        for n in 0..4 {
            for k in 0..fs.len().pow(n) { let v: Vec<String> = (0..n).map(|i| fs[k / fs.len().pow(i) % fs.len()].to_string()).collect(); for c in ["c", "u"] { if !s.go() { return } s.test(format!("{}:f64:{}:{}", c, f, v.join(","))); } }
            for k in 0..ds.len().pow(n) { let v: Vec<String> = (0..n).map(|i| ds[k / ds.len().pow(i) % ds.len()].to_string()).collect(); if !s.go() { return } s.test(format!("d:dec:{}:{}", f, v.join(","))); }
        }
    }
    let mut r = 0;
    while s.go() {
        r += 1;
        macro_rules! all { ($($t:ident)*) => { $( rnd::<$t>(s); )* } }
        all!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
        let n = lens(s);
        let whole = s.rng.chance(1, 3);
        let v: Vec<String> = (0..n).map(|_| if whole { s.rng.below(1000).to_string() } else if s.rng.chance(1, 20) { s.rng.pick(&fs).to_string() } else { ((s.rng.next() as i64 as f64) / (1u64 << s.rng.below(64)) as f64).to_string() }).collect();
        for f in FNS { for c in ["c", "u"] { s.test(format!("{}:f64:{}:{}", c, f, v.join(","))); } }
        let v: Vec<String> = (0..n).map(|_| format!("{}{}.{}", if s.rng.chance(1, 2) { "-" } else { "" }, s.rng.next() >> s.rng.below(64), s.rng.below(1000))).collect();
        for f in FNS { s.test(format!("d:dec:{}:{}", f, v.join(","))); }
        let v: Vec<String> = (0..n).map(|_| format!("{}_{}", s.rng.range(-50, 50) as f64 / 8.0, s.rng.range(-50, 50) as f64 / 8.0)).collect();
        for f in FNS { s.test(format!("z:cx:{}:{}", f, v.join(","))); }
    }
    s.count("random_rounds", r);
}
