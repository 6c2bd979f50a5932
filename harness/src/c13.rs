//! C13: argument counts of the built-in functions. Input: `<context>:<function>:<arg>,<arg>..` (no argument: empty),
//! contexts f (f64 checked), g (f64 unchecked), i (i64 checked), j (i64 unchecked), d (decimal), z (complex; plain real arguments).
use crate::util::*;
use num_complex::Complex;
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::error::ErrorKind;
use rust_decimal::Decimal;
use std::str::FromStr;

fn allowed(ctx: &str, f: &str, n: usize) -> Option<bool> {
    Some(match f {
        "log" => n == 1 || n == 2,
        "atan" if ctx != "z" => n == 1 || n == 2,
        "random" => n <= 2,
        "max" | "min" => n >= 2,
        "sum" | "product" | "avg" => n >= 1,
        _ if NAMES.contains(&f) => n == 1,
        _ => return None,
    })
}
pub const NAMES: &[&str] = &["abs", "sqrt", "cbrt", "ln", "log", "exp", "floor", "ceil", "trunc", "truncate", "round", "sign", "signum", "to_radians", "to_degrees", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot",
    "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth", "sum", "product", "avg", "max", "min", "random"];
fn run<N: Clone + FromStr>(ctx: &str, c: &DefaultContext<'static, N>, p: &[&str]) -> Result<(), String> {
    let f = match c.get_function(p[1]) { Some(f) => f, None => return Ok(()) };
    let v: Vec<N> = p[2].split(',').filter_map(|x| x.parse().ok()).collect();
    let ok = match allowed(ctx, p[1], v.len()) { Some(x) => x, None => return Ok(()) };
    match f.call(&v) {
        Ok(_) if !ok => Err(format!("{} takes {} arguments in context {} without an error", p[1], v.len(), ctx)),
        Err(e) if matches!(e.kind(), ErrorKind::InvalidArgumentCount) == ok => Err(format!("{} of {} arguments in context {}: the error is {}", p[1], v.len(), ctx, e)),
        _ => Ok(()),
    }
}
thread_local!(
    static F: DefaultContext<'static, f64> = DefaultContext::new_checked();
    static G: DefaultContext<'static, f64> = DefaultContext::new_unchecked();
    static I: DefaultContext<'static, i64> = DefaultContext::new_checked();
    static J: DefaultContext<'static, i64> = DefaultContext::new_unchecked();
    static D: DefaultContext<'static, Decimal> = DefaultContext::new_decimal();
    static Z: DefaultContext<'static, Complex<f64>> = DefaultContext::new_complex();
    static E: Evaluator<'static, f64, DefaultContext<'static, f64>> = Evaluator::with_context(DefaultContext::new_checked());
);
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.splitn(3, ':').collect();
    if p.len() < 3 { return Ok(()) }
    // the unchecked operators may overflow
    if p[0] == "j" && p[1] == "product" && p[2].len() > 14 || p[0] == "j" && p[2].split(',').any(|x| x.len() > 7) { return Ok(()) }
    match p[0] {
        "f" => {
            F.with(|c| run("f", c, &p))?;
            // the same call written as an expression
            let v: Vec<f64> = p[2].split(',').filter_map(|x| x.parse().ok()).collect();
            if v.iter().any(|x| !x.is_finite()) { return Ok(()) }
            let t: Vec<String> = v.iter().map(|x| if x.is_sign_negative() { format!("(0-{})", -x) } else { format!("{}", x) }).collect();
            let text = format!("{}({})", p[1], t.join(","));
            match (allowed("f", p[1], v.len()), E.with(|e| e.eval(&text))) {
                (Some(false), Ok(r)) => Err(format!("`{}` is {} instead of an error", text, r)),
                (Some(true), Err(e)) if matches!(e.kind(), ErrorKind::InvalidArgumentCount) && F.with(|c| c.is_function(p[1])) => Err(format!("`{}`: {}", text, e)),
                _ => Ok(()),
            }
        }
        "g" => G.with(|c| run("g", c, &p)), "i" => I.with(|c| run("i", c, &p)), "j" => J.with(|c| run("j", c, &p)), "d" => D.with(|c| run("d", c, &p)), "z" => Z.with(|c| run("z", c, &p)),
        _ => Ok(()),
    }
}
pub fn search(s: &mut S) {
    let pool = ["1", "0", "2", "3", "90", "7", "100", "5"];
    for k in 0..pool.len() { for n in (0..=12).chain([20, 64, 255, 300]) { for f in NAMES { for c in ["f", "g", "i", "j", "d", "z"] {
        if !s.go() { return }
        let a: Vec<&str> = (0..n).map(|i| pool[(i * k + k) % pool.len()]).collect();
        s.test(format!("{}:{}:{}", c, f, a.join(",")));
    } } } }
    let vals = ["0", "1", "-1", "0.5", "-0.25", "2", "3", "10", "90", "180", "1e3", "-7", "1000000", "9223372036854775807", "-9223372036854775808", "1e300", "inf", "NaN", "0.000000000001", "79228162514264337593543950335"];
    let mut r = 0;
    while s.go() {
        r += 1;
        let c = *s.rng.pick(&["f", "g", "i", "j", "d", "z"]);
        let n = s.rng.below(6);
        let f = *s.rng.pick(NAMES);
        let a: Vec<&str> = (0..n).map(|_| *s.rng.pick(&vals)).collect();
        s.test(format!("{}:{}:{}", c, f, a.join(",")));
    }
    s.count("random_rounds", r);
}
