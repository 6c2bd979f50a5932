//! C10: the binary context. Input: `OP A B` (decimal i128 values), `lit A` or `read TEXT` (a literal of digits, with or without `b`).
use crate::util::*;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;

const OPS: &[(&str, &[&str])] = &[("~", &["not"]), ("&", &["and"]), ("|", &["or"]), ("^", &["xor"]), ("==", &["eq", "equal"]), ("!=", &["ne", "no_equal"]), (">", &["gt"]), ("<", &["lt"]), (">=", &["gte"]), ("<=", &["lte"]), (">>", &["shr"]), ("<<", &["shl"])];
/// the result bit by bit (two's complement, bit 127 is the sign)
fn bits(v: i128) -> [bool; 128] { let mut o = [false; 128]; for i in 0..128 { o[i] = (v as u128 >> i) & 1 == 1 } o }
fn unbits(b: [bool; 128]) -> i128 { let mut u = 0u128; for i in 0..128 { if b[i] { u |= 1 << i } } u as i128 }
fn want(op: &str, a: i128, b: i128) -> Option<i128> {
    let (x, y) = (bits(a), bits(b));
    let mut r = [false; 128];
    Some(match op {
        "~" => { for i in 0..128 { r[i] = !x[i] } unbits(r) }
        "&" => { for i in 0..128 { r[i] = x[i] && y[i] } unbits(r) }
        "|" => { for i in 0..128 { r[i] = x[i] || y[i] } unbits(r) }
        "^" => { for i in 0..128 { r[i] = x[i] != y[i] } unbits(r) }
        "==" => (a == b) as i128, "!=" => (a != b) as i128, ">" => (a > b) as i128, "<" => (a < b) as i128, ">=" => (a >= b) as i128, "<=" => (a <= b) as i128,
        ">>" => { if !(0..=127).contains(&b) { return None } let s = b as usize; for i in 0..128 { r[i] = if i + s < 128 { x[i + s] } else { x[127] } } unbits(r) }
        "<<" => { if !(0..=127).contains(&b) { return None } let s = b as usize; for i in s..128 { r[i] = x[i - s] } unbits(r) }
        _ => return None,
    })
}
/// the number a text of digits stands for, when it is a non-negative i128
fn value(digits: &str, base: u32) -> Option<i128> {
    let mut v = 0i128;
    for c in digits.chars() { v = v.checked_mul(base as i128)?.checked_add(c.to_digit(base)? as i128)? }
    if digits.is_empty() { None } else { Some(v) }
}
fn evaluator() -> Evaluator<'static, Binary, DefaultContext<'static, Binary>> { Evaluator::with_context_and_tokenizer(DefaultContext::new_binary(), Tokenizer::with_splitter(binary_number_splitter())) }
/// an expression for any value: negative ones as the complement of a literal
fn lit(v: i128) -> String { if v >= 0 { format!("b{}", Binary(v)) } else { format!("(~b{})", Binary(!v)) } }
thread_local! { static EV: Evaluator<'static, Binary, DefaultContext<'static, Binary>> = evaluator(); static CX: DefaultContext<'static, Binary> = DefaultContext::new_binary(); }
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.split(' ').collect();
    let num = |s: &str| s.parse::<i128>().map_err(|e| e.to_string());
    if p[0] == "lit" {
        let a = num(p[1])?;
        let text = format!("b{}", Binary(a));
        let got: Result<Binary, _> = text.parse();
        if got != Ok(Binary(a)) { return Err(format!("{} parses to {:?} not {}", text, got, a)) }
        let d: Result<Binary, _> = a.to_string().parse();
        if d != Ok(Binary(a)) { return Err(format!("{} parses to {:?}", a, d)) }
        let e = EV.with(|e| e.eval(&text)).map_err(|e| e.to_string());
        if e != Ok(Binary(a)) { return Err(format!("{} evaluates to {:?} not {}", text, e, a)) }
        return Ok(())
    }
    if p[0] == "read" {
        let (digits, base) = match p[1].strip_prefix('b') { Some(d) => (d, 2), None => (p[1], 10) };
        let w = value(digits, base);
        let got: Result<Binary, _> = p[1].parse();
        if got.as_ref().ok().map(|b| b.0) != w { return Err(format!("{} parses to {:?}, expected {:?}", p[1], got, w)) }
        let e = EV.with(|e| e.eval(p[1]));
        if e.as_ref().ok().map(|b| b.0) != w { return Err(format!("{} evaluates to {:?}, expected {:?}", p[1], e.map_err(|e| e.to_string()), w)) }
        return Ok(())
    }
    let (a, b) = (num(p[1])?, num(p.get(2).unwrap_or(&"0"))?);
    let w = want(p[0], a, b);
    let (name, aliases) = *OPS.iter().find(|o| o.0 == p[0]).ok_or("unknown operator")?;
    let t = |what: String, got: Result<Binary, prexel::error::Error>| match (&got, w) {
        (Ok(x), Some(y)) if x.0 == y => Ok(()),
        (Err(_), None) => Ok(()),
        _ => Err(format!("{}: {:?}, expected {:?}", what, got.map(|x| x.0).map_err(|e| e.to_string()), w)),
    };
    for n in std::iter::once(&name).chain(aliases.iter()) {
        let got = CX.with(|c| if name == "~" { c.get_unary_function(n).map(|f| f.call(Binary(a))) } else { c.get_binary_function(n).map(|f| f.call(Binary(a), Binary(b))) });
        t(format!("{} called with {} and {}", n, a, b), got.ok_or(format!("{} is not registered", n))?)?;
    }
    let expr = if name == "~" { format!("{}{}", name, lit(a)) } else { format!("{} {} {}", lit(a), name, lit(b)) };
    t(expr.clone(), EV.with(|e| e.eval(&expr)))
}
pub fn search(s: &mut S) {
    let mut vals: Vec<i128> = (-6..=9).collect();
    for i in [7u32, 8, 31, 32, 33, 63, 64, 65, 100, 126] { for d in [-1i128, 0, 1] { vals.push((1i128 << i) + d); vals.push(-(1i128 << i) + d); } }
    vals.extend([i128::MIN, i128::MIN + 1, i128::MAX, i128::MAX - 1, 127, 128, 129, 255, 256, 0x5555_5555_5555_5555_5555_5555_5555_5555, u32::MAX as i128 + 5, u32::MAX as i128 + 1 + 127, u64::MAX as i128 + 1, u64::MAX as i128 + 4]);
    vals.sort(); vals.dedup();
    for &a in &vals { if a >= 0 && !s.test(format!("lit {}", a)) { return } }
    for o in OPS { for n in 0..200i128 { for a in [1, -1, i128::MIN, i128::MAX, 0x1234_5678_9abc_def0_0fed_cba9_8765_4321] { if !s.test(format!("{} {} {}", o.0, a, n)) { return } } } }
    for &a in &vals { for &b in &vals { for o in OPS { if !s.test(format!("{} {} {}", o.0, a, b)) { return } } } }
    for n in (1..=10).chain(60..=68).chain(120..=140) {
        let (one, zero, alt) = ("1".repeat(n), "0".repeat(n - 1), "10".repeat(n / 2));
        for t in [format!("b{}", one), format!("b1{}", zero), format!("b{}1", zero), format!("b{}", alt), format!("b00{}", alt), format!("b0{}", one)] { if !s.test(format!("read {}", t)) { return } }
        if n < 60 { for d in 0..10 { for t in [d.to_string().repeat(4 * n), format!("{}{}", d, zero)] { if !s.test(format!("read {}", t)) { return } } } }
    }
    for t in ["170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "0170141183460469231731687303715884105727"] { if !s.test(format!("read {}", t)) { return } }
    s.count("boundary_values", vals.len() as u64);
    while s.go() {
        let mut v = || { let r = ((s.rng.next() as u128) << 64 | s.rng.next() as u128) as i128; match s.rng.below(4) { 0 => r, 1 => r >> s.rng.below(127), 2 => *s.rng.pick(&vals), _ => s.rng.below(140) as i128 } };
        let (a, b) = (v(), v());
        let o = s.rng.pick(OPS).0;
        if !s.test(format!("{} {} {}", o, a, b)) { return }
        if a >= 0 && !s.test(format!("lit {}", a)) { return }
        let n = 1 + s.rng.below(134) as usize;
        let t: String = std::iter::once('b').chain((0..n).map(|_| if s.rng.below(2) == 0 { '0' } else { '1' })).collect();
        if !s.test(format!("read {}", t)) { return }
        s.count("random_pairs", 1);
    }
}
