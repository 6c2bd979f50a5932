//! C26: the operators over floats, complex numbers and unchecked integers. Input: `<ctx>|<op>|<x>|<y>` with contexts f (f64 checked), g (f64
//! unchecked), h (f32 checked), k (f32 unchecked), z (complex), j (i64 unchecked), i (i64 checked); `u+`, `u-` the signs, `abs`, `u!`.
//! Numbers are bit patterns in hexadecimal (complex: two, separated by `,`), integers in decimal.
use crate::util::*;
use num_complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use std::fmt::Debug;

type Z = Complex<f64>;
trait Num: Clone + Debug + 'static { fn parse(t: &str) -> Option<Self>; fn same(&self, o: &Self) -> bool; fn near(&self, _: &Self) -> bool { false } }
macro_rules! flt { ($t:ty, $b:ty) => { impl Num for $t {
    fn parse(t: &str) -> Option<Self> { <$b>::from_str_radix(t, 16).ok().map(<$t>::from_bits) }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan() }
    /// a factorial of a fraction: the gamma function to nine digits (f32: five)
    fn near(&self, o: &Self) -> bool { (self - o).abs() <= o.abs() * if std::mem::size_of::<$t>() == 8 { 1e-9 } else { 1e-5 } } } } }
flt!(f64, u64); flt!(f32, u32);
impl Num for i64 { fn parse(t: &str) -> Option<Self> { t.parse().ok() } fn same(&self, o: &Self) -> bool { self == o } }
impl Num for Z {
    fn parse(t: &str) -> Option<Self> { let (a, b) = t.split_once(',')?; Some(Z::new(f64::parse(a)?, f64::parse(b)?)) }
    fn same(&self, o: &Self) -> bool { self.re.same(&o.re) && self.im.same(&o.im) }
}
thread_local!(
    /// whether a rounded result is enough: the factorial of a fraction
    static NEAR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static F: DefaultContext<'static, f64> = DefaultContext::new_checked();
    static G: DefaultContext<'static, f64> = DefaultContext::new_unchecked();
    static H: DefaultContext<'static, f32> = DefaultContext::new_checked();
    static K: DefaultContext<'static, f32> = DefaultContext::new_unchecked();
    static I: DefaultContext<'static, i64> = DefaultContext::new_checked();
    static J: DefaultContext<'static, i64> = DefaultContext::new_unchecked();
    static ZC: DefaultContext<'static, Z> = DefaultContext::new_complex();
);
/// what the context's operator or function gives
fn call<N: Num>(c: &DefaultContext<'static, N>, op: &str, x: N, y: N) -> Result<prexel::Result<N>, String> {
    Ok(match op {
        "u+" | "u-" | "u!" => c.get_unary_function(&op[1..]).ok_or("no such operator")?.call(x),
        "abs" => c.get_function(op).ok_or("no such function")?.call(&[x]),
        _ => c.get_binary_function(op).ok_or("no such operator")?.call(x, y),
    })
}
fn expect<N: Num>(op: &str, got: prexel::Result<N>, want: Option<N>) -> Result<(), String> {
    match (&got, &want) {
        (Ok(a), Some(b)) if a.same(b) => Ok(()),
        (Ok(a), Some(b)) if NEAR.with(|n| n.get()) && a.near(b) => Ok(()),
        (Err(_), None) => Ok(()),
        _ => Err(format!("`{}` gives {:?} instead of {:?}", op, got, want.map(Ok).unwrap_or(Err("an error")))),
    }
}
/// the same through an expression over variables
fn through<N>(c: DefaultContext<'static, N>, op: &str, x: N, y: N, want: Option<N>) -> Result<(), String>
where N: Num + std::str::FromStr {
    let mut c = c;
    c.set_variable("vx", x).map_err(|e| e.to_string())?;
    c.set_variable("vy", y).map_err(|e| e.to_string())?;
    let t = match op { "u+" | "u-" => format!("{} vx", &op[1..]), "u!" => "vx !".to_string(), "abs" => "abs(vx)".to_string(), _ => format!("vx {} vy", op) };
    expect(&t, Evaluator::with_context(c).eval(&t), want)
}
macro_rules! want_flt { ($t:ty, $op:expr, $x:expr, $y:expr) => {{ let (x, y): ($t, $t) = ($x, $y); match $op {
    "+" => Some(x + y), "-" => Some(x - y), "*" => Some(x * y),
    "/" => if y == 0.0 { None } else { Some(x / y) },
    "mod" => if y == 0.0 { None } else { Some(x % y) },
    "^" => Some((x as f64).powf(y as f64) as $t),
    "u+" => Some(x), "u-" => Some(-x),
    "abs" => Some(if x >= 0.0 { x } else { -x }),
    _ if x < 0.0 => None,
    _ if x != x.trunc() => Some(gamma(x as f64 + 1.0) as $t),
    _ => { let mut p = if x < 2.0 { 1.0 } else { x }; let mut n = x - 1.0; while n >= 1.0 { p *= n; n -= 1.0 } Some(p) }
} }} }
fn want_int(op: &str, x: i64, y: i64) -> Option<i64> {
    match op {
        "+" => x.checked_add(y), "-" => x.checked_sub(y), "*" => x.checked_mul(y), "/" => x.checked_div(y), "mod" => x.checked_rem(y),
        "^" => num_traits::FromPrimitive::from_f64((x as f64).powf(y as f64)),
        "u+" => Some(x), "u-" => x.checked_neg(), _ => x.checked_abs(),
    }
}
fn want_z(op: &str, x: Z, y: Z) -> Option<Z> {
    let zero = y.re == 0.0 && y.im == 0.0;
    Some(match op {
        "+" => x + y, "-" => x - y, "*" => x * y,
        "/" => { if zero { return None } x / y }
        "^" if x.re == 0.0 && x.im == 0.0 && zero => Z::new(1.0, 0.0),
        "^" if x.re == 0.0 && x.im == 0.0 && y.re > 0.0 => Z::new(0.0, 0.0),
        "^" => x.powc(y),
        "u+" => x, _ => -x,
    })
}
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.split('|').collect();
    if p.len() != 4 { return Ok(()) }
    let op = p[1];
    macro_rules! run { ($c:expr, $new:expr, $t:ty, $want:expr) => {{
        let (x, y) = match (<$t>::parse(p[2]), <$t>::parse(p[3])) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
        if op == "u!" && !factorial_ok(x.clone().big()) { return Ok(()) }
        NEAR.with(|n| n.set(op == "u!" && x.clone().big().fract() != 0.0));
        let w: Option<$t> = $want(x.clone(), y.clone());
        $c.with(|c| call(c, op, x.clone(), y.clone())).and_then(|g| expect(op, g, w.clone()))?;
        through($new, op, x, y, w)
    }} }
    match p[0] {
        "f" => run!(F, DefaultContext::new_checked(), f64, |x, y| want_flt!(f64, op, x, y)),
        "g" => if op == "abs" { Ok(()) } else { run!(G, DefaultContext::new_unchecked(), f64, |x, y| want_flt!(f64, op, x, y)) },
        "h" => if op == "^" { Ok(()) } else { run!(H, DefaultContext::new_checked(), f32, |x, y| want_flt!(f32, op, x, y)) },
        "k" => if op == "^" || op == "abs" { Ok(()) } else { run!(K, DefaultContext::new_unchecked(), f32, |x, y| want_flt!(f32, op, x, y)) },
        "i" => if op == "u!" { Ok(()) } else { run!(I, DefaultContext::new_checked(), i64, |x, y| want_int(op, x, y)) },
        "j" => {
            if op == "u!" || op == "abs" { return Ok(()) }
            let (x, y) = match (i64::parse(p[2]), i64::parse(p[3])) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
            let w = want_int(op, x, y);
            // overflow may panic there
            if w.is_none() && !(y == 0 && (op == "/" || op == "mod")) && op != "^" { return Ok(()) }
            J.with(|c| call(c, op, x, y)).and_then(|g| expect(op, g, w))
        }
        "z" => {
            if op == "abs" || op == "u!" || op == "mod" { return Ok(()) }
            let (x, y) = match (Z::parse(p[2]), Z::parse(p[3])) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
            let w = want_z(op, x, y);
            ZC.with(|c| call(c, op, x, y)).and_then(|g| expect(op, g, w))?;
            let _ = Config::new();
            through(DefaultContext::new_complex(), op, x, y, w)
        }
        _ => Ok(())
    }
}
trait Big { fn big(self) -> f64; }
impl Big for f64 { fn big(self) -> f64 { self } }
impl Big for f32 { fn big(self) -> f64 { self as f64 } }
impl Big for i64 { fn big(self) -> f64 { self as f64 } }
/// a number whose factorial is not too long to compute
fn factorial_ok(x: f64) -> bool { x < 200.0 }
/// the gamma function for x >= 1: Stirling's series above 30, and the recurrence down to x
fn gamma(x: f64) -> f64 {
    let (mut z, mut d) = (x, 1.0f64);
    while z < 30.0 { d *= z; z += 1.0 }
    let w = 1.0 / (z * z);
    let series = (1.0 / 12.0 - w * (1.0 / 360.0 - w * (1.0 / 1260.0 - w / 1680.0))) / z;
    ((z - 0.5) * z.ln() - z + 0.5 * (2.0 * std::f64::consts::PI).ln() + series).exp() / d
}

const OPS: &[&str] = &["+", "-", "*", "/", "mod", "^", "u+", "u-", "abs", "u!"];
fn specials() -> Vec<f64> {
    vec![0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 7.0, 10.0, -3.5, 0.1, 1e-10, 1e10, 1e16, 9007199254740993.0, 1e300, -1e300, 1e-300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, std::f64::consts::PI, 170.0, 171.0, 20.0, 21.0, 5.0005, 1.0003, 3.000001]
}
fn some(s: &mut S) -> f64 {
    match s.rng.below(4) {
        0 => f64::from_bits(s.rng.next()),
        1 => s.rng.range(-1000, 1000) as f64,
        2 => s.rng.range(-1_000_000, 1_000_000) as f64 / 1000.0,
        _ => { let v = specials(); *s.rng.pick(&v) }
    }
}
fn put(ctx: &str, x: f64, x2: f64) -> String {
    match ctx {
        "h" | "k" => format!("{:x}", (x as f32).to_bits()),
        "i" | "j" => format!("{}", x as i64),
        "z" => format!("{:x},{:x}", x.to_bits(), x2.to_bits()),
        _ => format!("{:x}", x.to_bits()),
    }
}
pub fn search(s: &mut S) {
    let v = specials();
    for ctx in ["f", "g", "h", "k", "z", "i", "j"] { for op in OPS {
        for x in &v { for y in &v {
            if op.len() > 1 && *op != "mod" && *y != v[0] { continue }
            if !s.test(format!("{}|{}|{}|{}", ctx, op, put(ctx, *x, *y), put(ctx, *y, *x))) { return }
            if ctx == "z" && !s.test(format!("{}|{}|{}|{}", ctx, op, put(ctx, *x, 0.0), put(ctx, *y, 0.0))) { return }
            s.count("special", 1);
        } }
        if !s.go() { return }
    } }
    while s.go() {
        let ctx = *s.rng.pick(&["f", "g", "h", "k", "z", "i", "j"]);
        let op = *s.rng.pick(OPS);
        let (a, b, c, d) = (some(s), some(s), some(s), some(s));
        if !s.test(format!("{}|{}|{}|{}", ctx, op, put(ctx, a, b), put(ctx, c, d))) { return }
        s.count("random", 1);
    }
}
