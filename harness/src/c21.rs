//! C21: every evaluation ends. Input: `<context>|e|<expression>`, or `<context>|f|<name>|<arg>,<arg>..` for a function,
//! `u`, `b` for a unary or binary operator. An input that has not ended after 8 seconds is reported by the watchdog in util.rs;
//! a panic is not this property's business.
use crate::util::*;
use prexel::binary::binary_number_splitter;
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use std::fmt::Debug;
use std::str::FromStr;

const CTX: [&str; 8] = ["float", "ufloat", "f32", "int", "i8", "decimal", "complex", "binary"];
fn config() -> Config { Config::new().with_grouping(Grouping::Bracket).with_grouping(Grouping::Brace).with_implicit_mul(true) }

fn run<N: FromStr + Clone + Debug>(c: DefaultContext<'static, N>, p: &[&str]) {
    if p[1] == "e" { let _ = Evaluator::with_context(c).eval(p[2]); return }
    if p.len() < 4 { return }
    let v: Vec<N> = p[3].split(',').filter_map(|x| N::from_str(x).ok()).collect();
    match p[1] {
        "f" => { if let Some(f) = c.get_function(p[2]) { let _ = f.call(&v); } }
        "u" => { if let (Some(f), Some(a)) = (c.get_unary_function(p[2]), v.first()) { let _ = f.call(a.clone()); } }
        _ => { if let (Some(f), [a, b, ..]) = (c.get_binary_function(p[2]), &v[..]) { let _ = f.call(a.clone(), b.clone()); } }
    }
}
fn names<N>(c: &DefaultContext<'static, N>) -> Vec<Vec<String>> {
    vec![c.functions().keys().map(|k| k.to_string()).collect(), c.unary_functions().keys().map(|k| k.to_string()).collect(), c.binary_functions().keys().map(|k| k.to_string()).collect()]
}
fn names_of(ctx: &str) -> Vec<Vec<String>> {
    match ctx {
        "float" => names(&DefaultContext::<f64>::new_checked()),
        "ufloat" => names(&DefaultContext::<f64>::new_unchecked()),
        "f32" => names(&DefaultContext::<f32>::new_checked()),
        "int" => names(&DefaultContext::<i128>::new_checked()),
        "i8" => names(&DefaultContext::<i8>::new_checked()),
        "decimal" => names(&DefaultContext::new_decimal()),
        "complex" => names(&DefaultContext::<Complex<f64>>::new_complex()),
        _ => names(&DefaultContext::new_binary()),
    }
}
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.splitn(3, '|').collect();
    if p.len() < 3 { return Ok(()) }
    let mut q: Vec<&str> = vec![p[0], p[1]];
    if p[1] == "e" { q.push(p[2]) } else { q.extend(p[2].rsplitn(2, '|').collect::<Vec<_>>().into_iter().rev()) }
    let _ = std::panic::catch_unwind(|| match q[0] {
        "float" => run(DefaultContext::<f64>::with_config_checked(config()), &q),
        "ufloat" => run(DefaultContext::<f64>::with_config_unchecked(config()), &q),
        "f32" => run(DefaultContext::<f32>::with_config_checked(config()), &q),
        "int" => run(DefaultContext::<i128>::with_config_checked(config()), &q),
        "i8" => run(DefaultContext::<i8>::with_config_checked(config()), &q),
        "decimal" => run(DefaultContext::with_config_decimal(config()), &q),
        "complex" => run(DefaultContext::<Complex<f64>>::with_config_complex(config().with_complex_number(true)), &q),
        _ => {
            if q[1] == "e" {
                let _ = Evaluator::with_context_and_tokenizer(DefaultContext::with_config_binary(config()), Tokenizer::with_splitter(binary_number_splitter())).eval(q[2]);
            } else { run(DefaultContext::with_config_binary(config()), &q) }
        }
    });
    Ok(())
}
const V: [&str; 46] = ["0", "1", "2", "3", "5", "8", "10", "20", "33", "34", "35", "100", "170", "171", "172", "255", "1000", "65536", "4294967296", "9007199254740993", "9223372036854775807", "18446744073709551615", "79228162514264337593543950335",
    "170141183460469231731687303715884105727", "100000000000000000000000000000000000000000000000000", "0.5", "0.25", "0.1", "0.0000001", "0.0000000000000000000000000001", "0.9999999999999999999999999999", "1.0000000000000000000000000001", "1.5", "2.5", "3.7", "25.5", "170.5", "171.9", "89.9999999999", "90", "3.9720354828415177818323744671", "3.1415926535897932384626433833",
    "16777217", "340282346638528859811704183484516925440", "1e300", "inf"];
fn value(s: &mut S, ctx: &str) -> String {
    let neg = if s.rng.chance(1, 4) { "-" } else { "" };
    if ctx == "complex" && s.rng.chance(1, 2) { return format!("{}{}+{}i", neg, s.rng.below(400), s.rng.below(100)) }
    if s.rng.chance(1, 2) { return format!("{}{}", neg, s.rng.pick(&V)) }
    if s.rng.chance(1, 8) && (ctx.contains("float") || ctx == "f32") { return (*s.rng.pick(&["NaN", "-inf", "1e308", "4e-320", "-0"])).to_string() }
    let n = 1 + s.rng.below(30); let mut t: String = (0..n).map(|_| (b'0' + s.rng.below(10) as u8) as char).collect();
    if s.rng.chance(1, 2) && !matches!(ctx, "int" | "i8" | "binary") { let k = s.rng.below(t.len()); t.insert(k, '.'); if t.starts_with('.') { t.insert(0, '0') } }
    format!("{}{}", neg, t)
}
pub fn search(s: &mut S) {
    let ns: Vec<Vec<Vec<String>>> = CTX.iter().map(|c| names_of(c)).collect();
    for (c, n) in CTX.iter().zip(&ns) {
        for v in V {
            for f in &n[0] { if !s.go() { return } s.test(format!("{}|f|{}|{}", c, f, v)); }
            for f in &n[1] { if !s.go() { return } s.test(format!("{}|u|{}|{}", c, f, v)); }
        }
    }
    for t in ["", " ", "(", ")", "()", "((", "))", "2", "2)", "(2", "1,2", ",", "Max(", "Max)", "Max()", "Max(1", "Max(,", "2 +", "+ 2", "!!", "!", "2!!", "- - - 2", "\u{0}", "\u{feff}2", "é", "1.2.3", "..", "b", "b2", "2i", "2ii", "0x", "[(2]", "{", "2(3)", "2PI", "(2)(3)", "$$", "2 $ 3", "2e3", "PI!", "((((((((((2))))))))))"] {
        for c in CTX { if !s.go() { return } s.test(format!("{}|e|{}", c, t)); }
    }
    let (mut r, mut e) = (0, 0);
    while s.go() {
        let k = s.rng.below(CTX.len()); let c = CTX[k]; let n = &ns[k];
        r += 1;
        if s.rng.chance(1, 2) {
            let a: Vec<String> = (0..1 + s.rng.below(4)).map(|_| value(s, c)).collect();
            if !n[0].is_empty() { let f = s.rng.pick(&n[0]).clone(); s.test(format!("{}|f|{}|{}", c, f, a.join(","))); }
            let f = s.rng.pick(&n[1]).clone(); s.test(format!("{}|u|{}|{}", c, f, a[0]));
            let b = value(s, c); let f = s.rng.pick(&n[2]).clone(); s.test(format!("{}|b|{}|{},{}", c, f, a[0], b));
        } else {
            let m = 1 + s.rng.below(14); let mut t = String::new();
            for _ in 0..m {
                match s.rng.below(12) {
                    0 => t.push('('), 1 => t.push(')'), 2 => t.push(','), 3 => t.push(' '),
                    4 | 5 => { let v = value(s, c); t.push_str(v.trim_start_matches('-')) }
                    6 => t.push_str(if n[0].is_empty() { "x" } else { s.rng.pick(&n[0]) }),
                    7 => t.push_str(s.rng.pick(&n[1])),
                    8 | 9 => { t.push(' '); t.push_str(s.rng.pick(&n[2])); t.push(' ') }
                    10 => t.push_str(s.rng.pick(&["PI", "E", "i", "b101", "[", "]", "{", "}", "x", "é", ".", "\t", "\u{130}"])),
                    _ => t.push(char::from_u32(s.rng.below(0x250) as u32).unwrap_or('?')),
                }
            }
            e += 1;
            s.test(format!("{}|e|{}", c, t));
        }
    }
    s.count("rounds", r);
    s.count("texts", e);
}
