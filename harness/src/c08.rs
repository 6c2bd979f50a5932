//! C08: integer arithmetic of the checked context. Input: `<type>:<op>:<a>[:<b>]`, e.g. `i8:+:-128:1`.
use crate::util::*;
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use std::fmt::{Debug, Display};

pub trait Int: Copy + PartialEq + PartialOrd + Display + Debug + std::str::FromStr + 'static {
    const NAME: &'static str;
    const LO: Self;
    const HI: Self;
    fn add(self, o: Self) -> Option<Self>;
    fn sub(self, o: Self) -> Option<Self>;
    fn mul(self, o: Self) -> Option<Self>;
    fn div(self, o: Self) -> Option<Self>;
    fn rem(self, o: Self) -> Option<Self>;
    fn neg(self) -> Option<Self>;
    fn of(n: u128) -> Option<Self>;
    fn wrap(n: u64, m: u64) -> Self;
    fn with_ctx<R>(f: impl FnOnce(&DefaultContext<'static, Self>) -> R) -> R;
    fn with_uctx<R>(f: impl FnOnce(&DefaultContext<'static, Self>) -> R) -> R;
    fn eval(text: &str, a: Self, b: Self) -> Result<Self, String>;
}
macro_rules! ints { ($signed:ident: $($t:ident)*) => { $(
    impl Int for $t {
        const NAME: &'static str = stringify!($t);
        const LO: Self = <$t>::MIN;
        const HI: Self = <$t>::MAX;
        fn add(self, o: Self) -> Option<Self> { self.checked_add(o) }
        fn sub(self, o: Self) -> Option<Self> { self.checked_sub(o) }
        fn mul(self, o: Self) -> Option<Self> { self.checked_mul(o) }
        fn div(self, o: Self) -> Option<Self> { self.checked_div(o) }
        fn rem(self, o: Self) -> Option<Self> { self.checked_rem(o) }
        fn neg(self) -> Option<Self> { self.checked_neg() }
        fn of(n: u128) -> Option<Self> { <$t>::try_from(n).ok() }
        fn wrap(n: u64, m: u64) -> Self { (((m as u128) << 64) | n as u128) as $t }
        fn with_ctx<R>(f: impl FnOnce(&DefaultContext<'static, Self>) -> R) -> R {
            thread_local!(static C: DefaultContext<'static, $t> = ctx!($signed checked $t));
            C.with(|c| f(c))
        }
        fn with_uctx<R>(f: impl FnOnce(&DefaultContext<'static, Self>) -> R) -> R {
            thread_local!(static C: DefaultContext<'static, $t> = ctx!($signed unchecked $t));
            C.with(|c| f(c))
        }
        fn eval(text: &str, a: Self, b: Self) -> Result<Self, String> {
            thread_local!(static E: std::cell::RefCell<Evaluator<'static, $t, DefaultContext<'static, $t>>> = std::cell::RefCell::new(Evaluator::with_context(ctx!($signed checked $t))));
            E.with(|e| {
                let mut e = e.borrow_mut();
                e.mut_context().set_variable("x", a).map_err(|e| e.to_string())?;
                e.mut_context().set_variable("y", b).map_err(|e| e.to_string())?;
                e.eval(text).map_err(|e| e.to_string())
            })
        }
    }
)* } }
/// unsigned types have no checked negation, hence no `new_checked`: their context is put together from the same operators
macro_rules! ctx {
    (signed checked $t:ident) => { DefaultContext::<$t>::new_checked() };
    (signed unchecked $t:ident) => { DefaultContext::<$t>::new_unchecked() };
    (checked) => { prexel::ops::checked::Factorial };
    (unchecked) => { prexel::ops::math::Factorial };
    (unsigned $m:ident $t:ident) => {{
        use prexel::ops::{$m as ops, math};
        let mut c = DefaultContext::<$t>::with_config(prexel::context::Config::new());
        c.add_binary_function(ops::AddOperator).unwrap();
        c.add_binary_function(ops::SubOperator).unwrap();
        c.add_binary_function(ops::MulOperator).unwrap();
        c.add_binary_function(ops::DivOperator).unwrap();
        c.add_binary_function(ops::ModOperator).unwrap();
        c.add_unary_function(math::UnaryPlus).unwrap();
        c.add_unary_function(ctx!($m)).unwrap();
        c.add_function(ops::SumFunction).unwrap();
        c.add_function(ops::ProdFunction).unwrap();
        c.add_function(ops::AvgFunction).unwrap();
        c.add_function(math::MaxFunction).unwrap();
        c.add_function(math::MinFunction).unwrap();
        c
    }};
}
ints!(signed: i8 i16 i32 i64 i128 isize);
ints!(unsigned: u8 u16 u32 u64 u128 usize);
/// an operator only signed types have
fn signed_only(op: &str) -> bool { op == "neg" || op == "abs" }

/// what the operation must give: Ok(value), or Err for every kind of error
fn want<T: Int>(op: &str, a: T, b: T) -> Result<T, ()> {
    let zero = T::of(0).unwrap();
    match op {
        "+" => a.add(b).ok_or(()), "-" => a.sub(b).ok_or(()), "*" => a.mul(b).ok_or(()), "/" => a.div(b).ok_or(()), "mod" => a.rem(b).ok_or(()),
        "neg" => a.neg().ok_or(()), "pos" => Ok(a),
        "abs" => if a < zero { a.neg().ok_or(()) } else { Ok(a) },
        "!" => {
            if a < zero { return Err(()) }
            let (one, mut n, mut r) = (T::of(1).unwrap(), T::of(1).unwrap(), T::of(1).unwrap());
            while n < a { n = n.add(one).ok_or(())?; r = r.mul(n).ok_or(())?; }
            Ok(r)
        }
        _ => Err(()),
    }
}
fn one<T: Int>(op: &str, a: T, b: T) -> Result<(), String> {
    if signed_only(op) && T::LO == T::of(0).unwrap() { return Ok(()) }
    let w = want(op, a, b);
    let show = |what: &str, g: Result<T, String>| -> Result<(), String> {
        match (&g, &w) {
            (Ok(x), Ok(y)) if x == y => Ok(()),
            (Err(_), Err(())) => Ok(()),
            _ => Err(format!("{}: {} of {} and {} ({}) is {:?} instead of {}", what, op, a, b, T::NAME, g, match &w { Ok(v) => format!("{}", v), Err(_) => "an error".into() })),
        }
    };
    let r = T::with_ctx(|c| match op {
        "neg" => c.get_unary_function("-").map(|f| f.call(a)),
        "pos" => c.get_unary_function("+").map(|f| f.call(a)),
        "!" => c.get_unary_function("!").map(|f| f.call(a)),
        "abs" => c.get_function("abs").map(|f| f.call(&[a])),
        _ => c.get_binary_function(op).map(|f| f.call(a, b)),
    });
    match r { Some(r) => show("call", r.map_err(|e| e.to_string()))?, None => return Err(format!("`{}` is not in the checked context", op)) }
    let text = match op { "neg" => "-x".to_string(), "pos" => "+x".into(), "!" => "x!".into(), "abs" => "abs(x)".into(), o => format!("x {} y", o) };
    show(&text, T::eval(&text, a, b))
}
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.split(':').collect();
    if p.len() < 3 { return Ok(()) }
    fn go<T: Int>(p: &[&str]) -> Result<(), String> {
        let a = match p[2].parse::<T>() { Ok(a) => a, Err(_) => return Ok(()) };
        let b = p.get(3).and_then(|b| b.parse::<T>().ok()).unwrap_or(a);
        one::<T>(p[1], a, b)
    }
    match p[0] {
        "i8" => go::<i8>(&p), "i16" => go::<i16>(&p), "i32" => go::<i32>(&p), "i64" => go::<i64>(&p), "i128" => go::<i128>(&p), "isize" => go::<isize>(&p),
        "u8" => go::<u8>(&p), "u16" => go::<u16>(&p), "u32" => go::<u32>(&p), "u64" => go::<u64>(&p), "u128" => go::<u128>(&p), "usize" => go::<usize>(&p),
        _ => Ok(()),
    }
}
const BIN: &[&str] = &["+", "-", "*", "/", "mod"];
const UN: &[&str] = &["neg", "pos", "abs", "!"];
pub fn values<T: Int>() -> Vec<T> {
    let mut v = vec![];
    for i in 0..40u128 { if let Some(x) = T::of(i) { v.push(x); if let Some(y) = x.neg() { v.push(y) } if let Some(y) = T::HI.sub(x) { v.push(y) } if let Some(y) = T::LO.add(x) { v.push(y) } } }
    for i in 0..128 { if let Some(x) = T::of(1u128 << i) { v.push(x); if let Some(y) = x.neg() { v.push(y) } if let Some(y) = x.sub(T::of(1).unwrap()) { v.push(y) } } }
    let two = T::of(2).unwrap();
    if let Some(h) = T::HI.div(two) { v.push(h); if let Some(x) = h.add(T::of(1).unwrap()) { v.push(x) } }
    if let Some(h) = T::LO.div(two) { v.push(h); if let Some(x) = h.sub(T::of(1).unwrap()) { v.push(x) } }
    v.dedup();
    v
}
fn run<T: Int>(s: &mut S, exhaustive: bool) {
    let v: Vec<T> = if exhaustive { let mut v = vec![T::LO]; while let Some(x) = v[v.len() - 1].add(T::of(1).unwrap()) { v.push(x) } v } else { values::<T>() };
    for op in UN { for a in &v { if !s.go() { return } s.test(format!("{}:{}:{}", T::NAME, op, a)); } }
    let step = if exhaustive { 1 } else { 3 };
    let mut k = 0;
    for op in BIN { for a in &v { for b in &v { k += 1; if k % step != 0 { continue } if !s.go() { return } s.test(format!("{}:{}:{}:{}", T::NAME, op, a, b)); } } }
    s.count(T::NAME, k as u64);
}
pub fn search(s: &mut S) {
    macro_rules! all { ($($t:ident)*) => { $( run::<$t>(s, false); )* } }
    // small values first in every type
    all!(i16 i32 i64 i128 isize u16 u32 u64 u128 usize);
    run::<u8>(s, true);
    run::<i8>(s, true);
    let mut r = 0;
    while s.go() {
        r += 1;
        macro_rules! rnd { ($($t:ident)*) => { $( for _ in 0..50 { if !s.go() { return } rnd1::<$t>(s); } )* } }
        rnd!(i16 i32 i64 i128 isize u16 u32 u64 u128 usize);
    }
    s.count("random_rounds", r);
}
fn rnd1<T: Int>(s: &mut S) {
    let sh = s.rng.below(64) as u32;
    let (n, m) = (s.rng.next() >> sh, s.rng.next() >> s.rng.below(64));
    let a = T::wrap(n, if s.rng.chance(1, 2) { 0 } else { m });
    let (n, m) = (s.rng.next() >> s.rng.below(64), s.rng.next());
    let b = T::wrap(n, if s.rng.chance(1, 2) { 0 } else { m });
    let op = *s.rng.pick(BIN);
    s.test(format!("{}:{}:{}:{}", T::NAME, op, a, b));
    let op = *s.rng.pick(UN);
    s.test(format!("{}:{}:{}", T::NAME, op, a));
}
