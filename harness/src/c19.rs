//! C19: defining relations of the trigonometric functions. Input: `<context>:<function>:<arg>[,<arg>]` with contexts f (f64 checked),
//! g (f64 unchecked), i (i64), d (decimal), z (complex, `re_im`).
use crate::util::*;
use num_complex::Complex;
use prexel::context::{Context, DefaultContext};
use rust_decimal::prelude::ToPrimitive;
use rust_decimal::Decimal;

type Z = Complex<f64>;
thread_local!(
    static F: DefaultContext<'static, f64> = DefaultContext::new_checked();
    static G: DefaultContext<'static, f64> = DefaultContext::new_unchecked();
    static I: DefaultContext<'static, i64> = DefaultContext::new_checked();
    static D: DefaultContext<'static, Decimal> = DefaultContext::new_decimal();
    static ZC: DefaultContext<'static, Z> = DefaultContext::new_complex();
);
pub const FNS: &[&str] = &["sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot", "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth"];
/// (base, kind): 0 plain, 1 reciprocal of the base, 2 base of the reciprocal
fn base(f: &str) -> (&'static str, u8) {
    match f {
        "csc" => ("sin", 1), "sec" => ("cos", 1), "cot" => ("tan", 1), "csch" => ("sinh", 1), "sech" => ("cosh", 1), "coth" => ("tanh", 1),
        "acsc" => ("asin", 2), "asec" => ("acos", 2), "acot" => ("atan", 2), "acsch" => ("asinh", 2), "asech" => ("acosh", 2), "acoth" => ("atanh", 2),
        _ => (FNS.iter().find(|x| **x == f).copied().unwrap_or(""), 0),
    }
}
/// what the mathematics says for the functions whose unit is claimed
fn oracle(b: &str, x: f64) -> Option<f64> {
    Some(match b { "sin" => x.to_radians().sin(), "cos" => x.to_radians().cos(), "tan" => x.to_radians().tan(), "asin" => x.asin().to_degrees(), "acos" => x.acos().to_degrees(), "atan" => x.atan().to_degrees(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), _ => return None })
}
fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs())) }
fn circular(b: &str) -> bool { matches!(b, "sin" | "cos" | "tan" | "asin" | "acos" | "atan") }
fn real(ctx: &str, f: &str, call: &dyn Fn(&str, f64) -> Result<f64, String>, x: f64, int: bool) -> Result<(), String> {
    let (b, kind) = base(f);
    if b.is_empty() || !x.is_finite() || x.abs() > 1e9 || (ctx == "d" && kind == 2 && x == 0.0) { return Ok(()) }
    let got = call(f, x);
    let arg = if kind == 2 { 1.0 / x } else { x };
    let bad = |w: &str| Err(format!("context {}: {}({}) is {:?}, but {}", ctx, f, x, got, w));
    let m = match oracle(b, arg) { Some(m) => if kind == 1 { 1.0 / m } else { m },
        None => {   // inverse hyperbolic: the relation only
            if kind != 2 || int || x.abs() < 1e-6 { return Ok(()) }
            match (&got, call(b, arg)) { (Ok(g), Ok(w)) if !close(*g, w) => return bad(&format!("{}(1/x) is {}", b, w)), (Ok(_), Err(e)) => return bad(&format!("{}(1/x) is the error {}", b, e)), (Err(_), Ok(w)) if w.is_finite() => return bad(&format!("{}(1/x) is {}", b, w)), _ => return Ok(()) }
        } };
    if let Ok(g) = &got { if circular(b) && !g.is_finite() { return bad("that is not a finite value") } }
    // too close to a pole or to the rounding of tiny values for a meaningful comparison
    if !m.is_finite() { return match &got { Ok(g) if circular(b) && g.abs() < 1e12 => bad("there is no finite value"), _ => Ok(()) } }
    if m.abs() > 1e6 || (m != 0.0 && m.abs() < 1e-6) || (kind == 1 && (1.0 / m).abs() < 1e-6) { return Ok(()) }
    match &got {
        Ok(g) if int => if (*g - (m - 1e-6).trunc()).abs() < 0.5 || (*g - (m + 1e-6).trunc()).abs() < 0.5 { Ok(()) } else { bad(&format!("the value is {}", m)) },
        Ok(g) => if close(*g, m) { Ok(()) } else { bad(&format!("the value is {}", m)) },
        Err(_) => bad(&format!("the value is {}", m)),
    }
}
fn atan2(ctx: &str, call: &dyn Fn(f64, f64) -> Result<f64, String>, y: f64, x: f64, int: bool) -> Result<(), String> {
    if !x.is_finite() || !y.is_finite() || x.abs() > 1e9 || y.abs() > 1e9 || (x == 0.0 && y == 0.0) { return Ok(()) }
    // half a turn with a negative zero: either sign
    let m = (y + 0.0).atan2(x + 0.0).to_degrees();
    match call(y, x) {
        Ok(g) if close(g, m) || (int && (g - m).abs() <= 1.0 && g.abs() <= m.abs() + 1e-6) => Ok(()),
        r => Err(format!("context {}: atan({}, {}) is {:?} instead of {}", ctx, y, x, r, m)),
    }
}
fn fun<N, C: Context<'static, N>>(c: &C, f: &str, v: &[N]) -> Result<N, String> { c.get_function(f).ok_or_else(|| "not registered".to_string())?.call(v).map_err(|e| e.to_string()) }
fn zclose(a: Z, b: Z) -> bool { (a - b).norm() <= 1e-9 * (1.0 + a.norm().max(b.norm())) }
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.splitn(3, ':').collect();
    if p.len() < 3 { return Ok(()) }
    let f = p[1];
    let a: Vec<&str> = p[2].split(',').collect();
    match p[0] {
        "f" | "g" => {
            let v: Vec<f64> = a.iter().filter_map(|x| x.parse().ok()).collect();
            let go = |c: &DefaultContext<'static, f64>| match v.len() { 1 => real(p[0], f, &|f, x| fun(c, f, &[x]), v[0], false), 2 if f == "atan" => atan2(p[0], &|y, x| fun(c, f, &[y, x]), v[0], v[1], false), _ => Ok(()) };
            if p[0] == "f" { F.with(go) } else { G.with(go) }
        }
        "i" => {
            let v: Vec<i64> = a.iter().filter_map(|x| x.parse().ok()).collect();
            I.with(|c| match v.len() { 1 => real("i", f, &|f, x| fun(c, f, &[x as i64]).map(|n| n as f64), v[0] as f64, true), 2 if f == "atan" => atan2("i", &|y, x| fun(c, f, &[y as i64, x as i64]).map(|n| n as f64), v[0] as f64, v[1] as f64, true), _ => Ok(()) })
        }
        "d" => {
            let v: Vec<Decimal> = a.iter().filter_map(|x| crate::c20::dec(x)).collect();
            let fl = |r: Result<Decimal, String>| r.map(|d| d.to_f64().unwrap_or(f64::NAN));
            D.with(|c| match v.len() {
                1 => {
                    // the relation within the context itself
                    let (b, kind) = base(f);
                    if kind == 1 {
                        let want = fun(c, b, &v).ok().and_then(|m| if m.is_zero() { None } else { Decimal::ONE.checked_div(m) });
                        match (fun(c, f, &v), want) { (Ok(g), Some(w)) if fl(Ok(g - w)).map_or(false, |d| d.abs() <= 1e-9 * (1.0 + w.to_f64().unwrap_or(0.0).abs())) => {} (Err(_), None) => {} (g, w) => return Err(format!("context d: {}({}) is {:?} but 1/{} is {:?}", f, v[0], g, b, w)) }
                    }
                    if kind == 2 {
                        let inv = if v[0].is_zero() { None } else { Decimal::ONE.checked_div(v[0]) };
                        match (fun(c, f, &v), inv.and_then(|x| fun(c, b, &[x]).ok())) { (Ok(g), Some(w)) if fl(Ok(g - w)).map_or(false, |d| d.abs() <= 1e-9 * (1.0 + w.to_f64().unwrap_or(0.0).abs())) => {} (Err(_), None) => {} (g, w) => return Err(format!("context d: {}({}) is {:?} but {}(1/x) is {:?}", f, v[0], g, b, w)) }
                    }
                    let x = v[0].to_f64().unwrap_or(f64::NAN);
                    if !circular(b) || x.abs() > 1e6 || (x != 0.0 && x.abs() < 1e-9) { return Ok(()) }
                    real("d", f, &|f, _| fl(fun(c, f, &v)), x, false)
                }
                2 if f == "atan" => { let (y, x) = (v[0].to_f64().unwrap_or(f64::NAN), v[1].to_f64().unwrap_or(f64::NAN)); atan2("d", &|_, _| fl(fun(c, f, &v)), y, x, false) }
                _ => Ok(()),
            })
        }
        "z" => {
            let x = match a[0].split_once('_').and_then(|(r, i)| Some(Z::new(r.parse().ok()?, i.parse().ok()?))) { Some(x) => x, None => return Ok(()) };
            let (b, kind) = base(f);
            let of = |b: &str, x: Z| match b { "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "asinh" => x.asinh(), "acosh" => x.acosh(), _ => x.atanh() };
            if b.is_empty() { return Ok(()) }
            let w = match kind { 0 => of(b, x), 1 => of(b, x).inv(), _ => of(b, x.inv()) };
            if !(w.re.is_finite() && w.im.is_finite()) { return Ok(()) }
            match ZC.with(|c| fun(c, f, &[x])) { Ok(g) if zclose(g, w) => Ok(()), g => Err(format!("context z: {}({}) is {:?} instead of {}", f, x, g, w)) }
        }
        _ => Ok(()),
    }
}
pub fn search(s: &mut S) {
    let xs = ["0", "1", "-1", "2", "-2", "0.5", "-0.5", "0.3", "0.9", "1.5", "-3", "5", "10", "30", "45", "60", "89", "90", "91", "120", "180", "200", "270", "-90", "-45", "-30", "360", "390", "450", "720", "-1000", "0.25", "0.75", "0.99", "-0.7", "12.5", "100", "3600.5", "123456.75", "0.001", "20"];
    for x in xs { for f in FNS { for c in ["f", "g", "i", "d"] { if !s.go() { return } s.test(format!("{}:{}:{}", c, f, x)); } for y in ["0", "1", "-0.5", "2.5", "-3"] { if !s.go() { return } s.test(format!("z:{}:{}_{}", f, x, y)); } } }
    for y in xs { for x in xs { for c in ["f", "g", "i", "d"] { if !s.go() { return } s.test(format!("{}:atan:{},{}", c, y, x)); } } }
    let mut r = 0;
    while s.go() {
        r += 1;
        let k = s.rng.below(4);
        let num = |s: &mut S| { let m = [2, 100, 1000, 1_000_000][k]; let n = s.rng.range(-m * 1000, m * 1000) as f64 / 1000.0; n };
        let (x, y) = (num(s), num(s));
        let (x, y) = if s.rng.chance(1, 3) { ((x as i64) as f64, (y as i64) as f64) } else { (x, y) };
        for f in FNS { for c in ["f", "g", "d", "i"] { s.test(format!("{}:{}:{}", c, f, x)); } s.test(format!("z:{}:{}_{}", f, x / 100.0, y / 100.0)); }
        for c in ["f", "g", "d", "i"] { s.test(format!("{}:atan:{},{}", c, y, x)); }
    }
    s.count("random_rounds", r);
}
