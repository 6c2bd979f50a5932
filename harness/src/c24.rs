//! C24: what the built-in names mean. Inputs: `table:<ctx>` (exactly the documented names), `<ctx>:<name>:<arg>,..` (a function or
//! operator, called under the name in any spelling; complex arguments `re_im`), `<ctx>:const:<name>`. Contexts f (f64 checked),
//! g (f64 unchecked), i (i64 checked), b (i32 checked), d (decimal), z (complex), y (binary); in upper case: built with a configuration.
use crate::util::*;
use num_complex::Complex;
use prexel::binary::Binary;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::evaluator::Evaluator;
use rust_decimal::prelude::ToPrimitive;
use rust_decimal::Decimal;
use std::str::FromStr;

type Z = Complex<f64>;
fn cfg() -> Config { Config::new().with_implicit_mul(true).with_grouping(Grouping::Parenthesis) }
thread_local!(
    static F: DefaultContext<'static, f64> = DefaultContext::new_checked();
    static F2: DefaultContext<'static, f64> = DefaultContext::with_config_checked(cfg());
    static G: DefaultContext<'static, f64> = DefaultContext::new_unchecked();
    static G2: DefaultContext<'static, f64> = DefaultContext::with_config_unchecked(cfg());
    static I: DefaultContext<'static, i64> = DefaultContext::new_checked();
    static I2: DefaultContext<'static, i64> = DefaultContext::with_config_checked(cfg());
    static B: DefaultContext<'static, i32> = DefaultContext::new_checked();
    static D: DefaultContext<'static, Decimal> = DefaultContext::new_decimal();
    static D2: DefaultContext<'static, Decimal> = DefaultContext::with_config_decimal(cfg());
    static ZC: DefaultContext<'static, Z> = DefaultContext::new_complex();
    static ZC2: DefaultContext<'static, Z> = DefaultContext::with_config_complex(cfg());
    static Y: DefaultContext<'static, Binary> = DefaultContext::new_binary();
    static Y2: DefaultContext<'static, Binary> = DefaultContext::with_config_binary(cfg());
    static E: Evaluator<'static, f64, DefaultContext<'static, f64>> = Evaluator::with_context(DefaultContext::new_checked());
);
const TRIG: &[&str] = crate::c19::FNS;
fn functions(ctx: &str) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = TRIG.to_vec();
    v.extend(match ctx {
        "f" | "i" | "b" => vec!["sum", "product", "avg", "abs", "max", "min", "sqrt", "ln", "log", "exp", "floor", "ceil", "truncate", "round", "sign", "random", "to_radians", "to_degrees"],
        "g" => vec!["sum", "product", "avg", "max", "min", "sqrt", "ln", "log", "exp", "random", "to_radians", "to_degrees"],
        "d" => vec!["sum", "product", "avg", "max", "min", "cbrt", "sqrt", "ln", "log", "exp", "floor", "ceil", "truncate", "round", "random", "to_radians", "to_degrees"],
        "z" => vec!["sum", "product", "avg", "sqrt", "ln", "log", "exp", "random"],
        _ => return vec![],
    });
    v
}
fn binaries(ctx: &str) -> Vec<&'static str> {
    if ctx == "y" { vec!["&", "and", "|", "or", "^", "xor", "==", "eq", "equal", "!=", "ne", "no_equal", ">", "gt", "<", "lt", ">=", "gte", "<=", "lte", ">>", "shr", "<<", "shl"] } else { vec!["+", "-", "*", "/", "^", "mod"] }
}
fn unaries(ctx: &str) -> Vec<&'static str> { match ctx { "y" => vec!["~", "not"], "z" => vec!["+", "-"], _ => vec!["+", "-", "!"] } }
fn consts(ctx: &str) -> Vec<&'static str> { match ctx { "y" => vec![], "z" => vec!["PI", "E", "i"], _ => vec!["PI", "E"] } }
fn same(what: &str, ctx: &str, mut have: Vec<String>, want: Vec<&'static str>) -> Result<(), String> {
    let mut want: Vec<String> = want.iter().map(|x| x.to_lowercase()).collect();
    for x in have.iter_mut() { *x = x.to_lowercase() }
    have.sort(); want.sort(); have.dedup();
    if let Some(x) = want.iter().find(|x| !have.contains(x)) { return Err(format!("context {}: no {} `{}`", ctx, what, x)) }
    if let Some(x) = have.iter().find(|x| !want.contains(x)) { return Err(format!("context {}: a {} `{}` nobody documented", ctx, what, x)) }
    Ok(())
}
fn table<N>(ctx: &str, c: &DefaultContext<'static, N>) -> Result<(), String> {
    let k = ctx.to_lowercase();
    same("function", ctx, c.functions().keys().map(|x| x.to_string()).collect(), functions(&k))?;
    same("binary operator", ctx, c.binary_functions().keys().map(|x| x.to_string()).collect(), binaries(&k))?;
    same("unary operator", ctx, c.unary_functions().keys().map(|x| x.to_string()).collect(), unaries(&k))?;
    same("constant", ctx, c.constants().keys().map(|x| x.to_string()).collect(), consts(&k))?;
    if !c.variables().is_empty() { return Err(format!("context {}: a new context has variables", ctx)) }
    for n in functions(&k) { for s in spellings(n) { if !c.is_function(&s) || c.get_function(&s).is_none() { return Err(format!("context {}: `{}` is not a function", ctx, s)) } } }
    for n in binaries(&k) { for s in spellings(n) { if !c.is_binary_function(&s) || c.get_binary_function(&s).is_none() { return Err(format!("context {}: `{}` is not a binary operator", ctx, s)) } } }
    for n in unaries(&k) { for s in spellings(n) { if !c.is_unary_function(&s) || c.get_unary_function(&s).is_none() { return Err(format!("context {}: `{}` is not a unary operator", ctx, s)) } } }
    for n in consts(&k) { for s in spellings(n) { if !c.is_constant(&s) || c.get_constant(&s).is_none() { return Err(format!("context {}: `{}` is not a constant", ctx, s)) } } }
    Ok(())
}
fn spellings(n: &str) -> Vec<String> {
    let mixed: String = n.char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    vec![n.to_string(), n.to_uppercase(), n.to_lowercase(), mixed]
}
/// the real value a name stands for; None: not decided here
fn oracle(f: &str, v: &[f64]) -> Option<f64> {
    Some(match (f, v) {
        ("sqrt", [x]) => x.sqrt(), ("cbrt", [x]) => x.cbrt(), ("ln", [x]) => x.ln(), ("exp", [x]) => x.exp(), ("log", [x]) => x.log10(), ("log", [x, b]) if *x > 0.0 && *b > 0.0 && (*b - 1.0).abs() > 1e-3 => x.ln() / b.ln(),
        ("floor", [x]) => x.floor(), ("ceil", [x]) => x.ceil(), ("trunc", [x]) | ("truncate", [x]) => x.trunc(), ("round", [x]) => x.round(),
        ("sign", [x]) => x.signum(), ("to_radians", [x]) => x * std::f64::consts::PI / 180.0, ("to_degrees", [x]) => x * 180.0 / std::f64::consts::PI, ("abs", [x]) => x.abs(),
        ("sum", v) if !v.is_empty() => v.iter().sum(), ("product", v) if !v.is_empty() => v.iter().product(), ("avg", v) if !v.is_empty() => v.iter().sum::<f64>() / v.len() as f64,
        ("max", v) if v.len() > 1 => v.iter().cloned().fold(f64::MIN, f64::max), ("min", v) if v.len() > 1 => v.iter().cloned().fold(f64::MAX, f64::min),
        ("+", [a, b]) => a + b, ("-", [a, b]) => a - b, ("*", [a, b]) => a * b, ("/", [a, b]) => a / b, ("mod", [a, b]) => a % b, ("^", [a, b]) => a.powf(*b),
        ("+", [a]) => *a, ("-", [a]) => -a, ("!", [a]) if *a >= 0.0 && *a <= 10.0 && a.fract() == 0.0 => (1..=*a as u64).product::<u64>() as f64,
        _ => return None,
    })
}
fn call<N: Clone>(c: &DefaultContext<'static, N>, name: &str, v: &[N]) -> Option<Result<N, String>> {
    if let (Some(f), true) = (c.get_function(name), true) { return Some(f.call(v).map_err(|e| e.to_string())) }
    match v { [a, b] => c.get_binary_function(name).map(|f| f.call(a.clone(), b.clone()).map_err(|e| e.to_string())), [a] => c.get_unary_function(name).map(|f| f.call(a.clone()).map_err(|e| e.to_string())), _ => None }
}
fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs())) }
fn real<N: Clone>(ctx: &str, c: &DefaultContext<'static, N>, name: &str, a: &[&str], from: fn(&str) -> Option<N>, to: fn(&N) -> f64, int: bool) -> Result<(), String> {
    let k = name.to_lowercase();
    let v: Vec<N> = match a.iter().map(|x| from(x)).collect() { Some(v) => v, None => return Ok(()) };
    let x: Vec<f64> = v.iter().map(|n| to(n)).collect();
    let g = match call(c, name, &v) { Some(g) => g, None => return if functions(&ctx.to_lowercase()).contains(&&k[..]) { Err(format!("context {}: no function `{}`", ctx, name)) } else { Ok(()) } };
    let got = g.as_ref().map(|n| to(n)).map_err(|e| e.clone());
    if k == "random" {
        let (lo, hi) = match x[..] { [] => (0.0, 1.0), [m] if m > 0.0 => (0.0, m), [a, b] if a < b => (a, b), _ => return Ok(()) };
        return match got { Ok(r) if r >= lo && r <= hi => Ok(()), r => Err(format!("context {}: {}({:?}) is {:?}", ctx, name, x, r)) };
    }
    if TRIG.contains(&&k[..]) { return Ok(()) }
    let m = match oracle(&k, &x) { Some(m) => m, None => return Ok(()) };
    // the value may be taken for the integer next to it, and halves round either way
    if ["floor", "ceil", "trunc", "truncate", "round"].contains(&&k[..]) { let d = (x[0] - x[0].round()).abs(); if (d > 0.0 && d < 1e-5) || d == 0.5 { return Ok(()) } }
    if x[0] == 0.0 && k == "sign" || !m.is_finite() || m.abs() > 1e9 || (m != 0.0 && m.abs() < 1e-6) { return Ok(()) }
    if k == "mod" && x.iter().any(|v| v.fract() != 0.0) { return Ok(()) }   // the remainder of a rounded quotient
    let unsupported = ctx.to_lowercase() == "d" && ((k == "^" && x[0] <= 0.0) || (k == "cbrt" && x[0] <= 0.0));
    match got {
        Ok(g) if int && (g - (m - 1e-6).trunc()).abs() < 0.5 || int && (g - (m + 1e-6).trunc()).abs() < 0.5 => Ok(()),
        Ok(g) if !int && close(g, m) => Ok(()),
        Err(_) if unsupported => Ok(()),
        g => Err(format!("context {}: {} of {:?} is {:?} instead of {}", ctx, name, x, g, m)),
    }
}
fn z(s: &str) -> Option<Z> { match s.split_once('_') { Some((r, i)) => Some(Z::new(r.parse().ok()?, i.parse().ok()?)), None => Some(Z::new(s.parse().ok()?, 0.0)) } }
fn complex(ctx: &str, c: &DefaultContext<'static, Z>, name: &str, a: &[&str]) -> Result<(), String> {
    let k = name.to_lowercase();
    let v: Vec<Z> = match a.iter().map(|x| z(x)).collect() { Some(v) => v, None => return Ok(()) };
    let g = match call(c, name, &v) { Some(g) => g, None => return Ok(()) };
    let m = match (&k[..], &v[..]) {
        ("sqrt", [x]) => x.sqrt(), ("ln", [x]) => x.ln(), ("exp", [x]) => x.exp(), ("log", [x]) => x.log(10.0), ("log", [x, b]) if b.im == 0.0 && b.re > 0.0 && b.re != 1.0 => x.log(b.re),
        ("sum", v) if !v.is_empty() => v.iter().sum(), ("product", v) if !v.is_empty() => v.iter().product(), ("avg", v) if !v.is_empty() => v.iter().sum::<Z>() / v.len() as f64,
        ("+", [a, b]) => a + b, ("-", [a, b]) => a - b, ("*", [a, b]) => a * b, ("/", [a, b]) => a / b, ("^", [a, b]) => a.powc(*b), ("+", [a]) => *a, ("-", [a]) => -a,
        ("random", []) => return match g { Ok(r) if r.re >= 0.0 && r.re < 1.0 && r.im >= 0.0 && r.im < 1.0 => Ok(()), r => Err(format!("random() is {:?}", r)) },
        _ => return Ok(()),
    };
    if !(m.re.is_finite() && m.im.is_finite()) || m.norm() > 1e12 { return Ok(()) }
    match g { Ok(g) if (g - m).norm() <= 1e-9 * (1.0 + m.norm()) => Ok(()), g => Err(format!("context {}: {} of {:?} is {:?} instead of {}", ctx, name, v, g, m)) }
}
fn binary(ctx: &str, c: &DefaultContext<'static, Binary>, name: &str, a: &[&str]) -> Result<(), String> {
    let v: Vec<i128> = match a.iter().map(|x| x.parse().ok()).collect() { Some(v) => v, None => return Ok(()) };
    let k = name.to_lowercase();
    let m = match (&k[..], &v[..]) {
        ("&", [a, b]) | ("and", [a, b]) => a & b, ("|", [a, b]) | ("or", [a, b]) => a | b, ("^", [a, b]) | ("xor", [a, b]) => a ^ b,
        ("==", [a, b]) | ("eq", [a, b]) | ("equal", [a, b]) => (a == b) as i128, ("!=", [a, b]) | ("ne", [a, b]) | ("no_equal", [a, b]) => (a != b) as i128,
        (">", [a, b]) | ("gt", [a, b]) => (a > b) as i128, ("<", [a, b]) | ("lt", [a, b]) => (a < b) as i128, (">=", [a, b]) | ("gte", [a, b]) => (a >= b) as i128, ("<=", [a, b]) | ("lte", [a, b]) => (a <= b) as i128,
        (">>", [a, b]) | ("shr", [a, b]) if *b >= 0 && *b < 128 => a >> b, ("<<", [a, b]) | ("shl", [a, b]) if *b >= 0 && *b < 128 => a << b, ("~", [a]) | ("not", [a]) => !a,
        _ => return Ok(()),
    };
    let w: Vec<Binary> = v.iter().map(|x| Binary(*x)).collect();
    match call(c, name, &w) { Some(Ok(g)) if g.0 == m => Ok(()), g => Err(format!("context {}: {} of {:?} is {:?} instead of {}", ctx, name, v, g.map(|r| r.map(|b| b.0)), m)) }
}
fn constant<N: Clone>(ctx: &str, c: &DefaultContext<'static, N>, name: &str, to: fn(&N) -> Z, int: bool) -> Result<(), String> {
    let m = match &name.to_lowercase()[..] { "pi" => Z::new(std::f64::consts::PI, 0.0), "e" => Z::new(std::f64::consts::E, 0.0), "i" if ctx.to_lowercase() == "z" => Z::new(0.0, 1.0), _ => return Ok(()) };
    let m = if int { Z::new(m.re.trunc(), 0.0) } else { m };
    match c.get_constant(name) { Some(g) if (to(g) - m).norm() < 1e-12 => Ok(()), g => Err(format!("context {}: the constant {} is {:?} instead of {}", ctx, name, g.map(to), m)) }
}
pub fn check(input: &str) -> Result<(), String> {
    if let Some(c) = input.strip_prefix("table:") {
        return match c {
            "f" => F.with(|x| table(c, x)), "F" => F2.with(|x| table(c, x)), "g" => G.with(|x| table(c, x)), "G" => G2.with(|x| table(c, x)), "i" => I.with(|x| table(c, x)), "I" => I2.with(|x| table(c, x)), "b" => B.with(|x| table(c, x)),
            "d" => D.with(|x| table(c, x)), "D" => D2.with(|x| table(c, x)), "z" => ZC.with(|x| table(c, x)), "Z" => ZC2.with(|x| table(c, x)), "y" => Y.with(|x| table(c, x)), "Y" => Y2.with(|x| table(c, x)), _ => Ok(()),
        };
    }
    let p: Vec<&str> = input.splitn(3, ':').collect();
    if p.len() < 3 { return Ok(()) }
    let (k, n) = (p[0], p[1]);
    let a: Vec<&str> = p[2].split(',').filter(|x| !x.is_empty()).collect();
    if n == "const" {
        let rf = |x: &f64| Z::new(*x, 0.0);
        let ri = |x: &i64| Z::new(*x as f64, 0.0);
        let rb = |x: &i32| Z::new(*x as f64, 0.0);
        let rd = |x: &Decimal| Z::new(x.to_f64().unwrap_or(f64::NAN), 0.0);
        return match k {
            "f" => F.with(|c| constant(k, c, p[2], rf, false)), "F" => F2.with(|c| constant(k, c, p[2], rf, false)), "g" => G.with(|c| constant(k, c, p[2], rf, false)), "G" => G2.with(|c| constant(k, c, p[2], rf, false)),
            "i" => I.with(|c| constant(k, c, p[2], ri, true)), "I" => I2.with(|c| constant(k, c, p[2], ri, true)), "b" => B.with(|c| constant(k, c, p[2], rb, true)),
            "d" => D.with(|c| constant(k, c, p[2], rd, false)), "D" => D2.with(|c| constant(k, c, p[2], rd, false)),
            "z" => ZC.with(|c| constant(k, c, p[2], |x| *x, false)), "Z" => ZC2.with(|c| constant(k, c, p[2], |x| *x, false)), _ => Ok(()),
        };
    }
    if TRIG.contains(&&n.to_lowercase()[..]) && ["f", "g", "i", "d", "z"].contains(&k) && n.to_lowercase() == n { return crate::c19::check(input) }
    let ff = |s: &str| s.parse::<f64>().ok();
    let fi = |s: &str| s.parse::<i64>().ok();
    let fb = |s: &str| s.parse::<i32>().ok();
    let fd = |s: &str| Decimal::from_str(s).ok();
    let td = |x: &Decimal| x.to_f64().unwrap_or(f64::NAN);
    match k {
        "f" => {
            F.with(|c| real(k, c, n, &a, ff, |x| *x, false))?;
            // the same as an expression
            let w: Vec<f64> = match a.iter().map(|x| x.parse().ok()).collect() { Some(v) => v, None => return Ok(()) };
            if n.to_lowercase() == "random" || !functions("f").contains(&&n.to_lowercase()[..]) || w.iter().any(|x| *x < 0.0 || !x.is_finite()) || a.is_empty() { return Ok(()) }
            let text = format!("{}({})", n, a.join(" , "));
            match (E.with(|e| e.eval(&text)), F.with(|c| call(c, n, &w))) { (Ok(g), Some(Ok(m))) if g == m || g.is_nan() && m.is_nan() => Ok(()), (Err(_), Some(Err(_))) => Ok(()), (g, m) => Err(format!("`{}` is {:?} but the function gives {:?}", text, g.map_err(|e| e.to_string()), m)) }
        }
        "F" => F2.with(|c| real(k, c, n, &a, ff, |x| *x, false)), "g" => G.with(|c| real(k, c, n, &a, ff, |x| *x, false)), "G" => G2.with(|c| real(k, c, n, &a, ff, |x| *x, false)),
        "i" => I.with(|c| real(k, c, n, &a, fi, |x| *x as f64, true)), "I" => I2.with(|c| real(k, c, n, &a, fi, |x| *x as f64, true)), "b" => B.with(|c| real(k, c, n, &a, fb, |x| *x as f64, true)),
        "d" => D.with(|c| real(k, c, n, &a, fd, td, false)), "D" => D2.with(|c| real(k, c, n, &a, fd, td, false)),
        "z" => ZC.with(|c| complex(k, c, n, &a)), "Z" => ZC2.with(|c| complex(k, c, n, &a)), "y" => Y.with(|c| binary(k, c, n, &a)), "Y" => Y2.with(|c| binary(k, c, n, &a)),
        _ => Ok(()),
    }
}
pub fn search(s: &mut S) {
    let all = ["f", "F", "g", "G", "i", "I", "b", "d", "D", "z", "Z", "y", "Y"];
    for c in all { s.test(format!("table:{}", c)); for n in ["PI", "E", "i"] { for t in spellings(n) { s.test(format!("{}:const:{}", c, t)); } } }
    let lists = ["", "1", "2", "9", "100", "7,2", "3,5", "2.25", "0.3", "-2.7", "-1", "6.6", "1.5", "5", "0", "10", "8,2", "4,2,9", "2,3,4,5", "12,10", "6,3", "1,4", "-3,4", "0.5,0.25", "3_4", "1_-2", "3_4,1_2", "2_1,3", "180", "27", "1000", "2,10", "50,7", "3,3"];
    for l in lists { for c in all {
        let k = c.to_lowercase();
        for n in functions(&k).into_iter().chain(binaries(&k)).chain(unaries(&k)) { if !s.go() { return } for t in spellings(n) { s.test(format!("{}:{}:{}", c, t, l)); } }
    } }
    let mut r = 0;
    while s.go() {
        r += 1;
        let c = *s.rng.pick(&all); let k = c.to_lowercase();
        let names: Vec<&str> = functions(&k).into_iter().chain(binaries(&k)).chain(unaries(&k)).collect();
        let n = *s.rng.pick(&names);
        let t = s.rng.pick(&spellings(n)).clone();
        let m = 1 + s.rng.below(4);
        let a: Vec<String> = (0..m).map(|_| if ["i", "b", "y"].contains(&&k[..]) { s.rng.range(-200, 200).to_string() } else if k == "z" { format!("{}_{}", s.rng.range(-500, 500) as f64 / 100.0, s.rng.range(-500, 500) as f64 / 100.0) } else { (s.rng.range(-3000, 3000) as f64 / 100.0).to_string() }).collect();
        s.test(format!("{}:{}:{}", c, t, a.join(",")));
    }
    s.count("random_rounds", r);
}
