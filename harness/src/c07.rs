//! C07: registration histories against a reference model. Input: `<base>;<op>;<op>..` where base is `e` (empty)
//! or `c` (checked f64 context), and an op is `<kind>,<name>,<as>,<alias>..` with kind in c v f u b (registration
//! under the function's own name) F U B (registration under another name); names are indices into POOL (`-`: none).
use crate::util::*;
use prexel::context::{Context, DefaultContext};
use prexel::function::*;
use std::collections::BTreeMap;

const POOL: &[&str] = &["a", "A", "b", "B", "ab", "Ab", "pi", "PI", "+", "-", "sum", "Sum", "max", "k", "\u{212a}", "İ", "i\u{307}", "i", "ß", "ẞ", "π", "Π", "x1", "", " ", "a b", "a\u{7}", " a", "\u{3000}", "mod", "MOD", "e"];
fn fold(s: &str) -> Vec<Vec<char>> { s.chars().map(|c| c.to_lowercase().collect()).collect() }
fn valid(s: &str) -> bool { !s.trim().is_empty() && !s.chars().any(|c| c.is_whitespace() || c.is_control()) }
struct F { name: &'static str, al: Option<Vec<&'static str>>, id: f64 }
impl Function<f64> for F { fn name(&self) -> &str { self.name } fn call(&self, _: &[f64]) -> prexel::Result<f64> { Ok(self.id) } fn aliases(&self) -> Option<&[&str]> { self.al.as_deref() } }
impl UnaryFunction<f64> for F { fn name(&self) -> &str { self.name } fn notation(&self) -> Notation { Notation::Prefix } fn call(&self, _: f64) -> prexel::Result<f64> { Ok(self.id) } fn aliases(&self) -> Option<&[&str]> { self.al.as_deref() } }
impl BinaryFunction<f64> for F {
    fn name(&self) -> &str { self.name }
    fn precedence(&self) -> Precedence { Precedence::LOW }
    fn associativity(&self) -> Associativity { Associativity::Left }
    fn call(&self, _: f64, _: f64) -> prexel::Result<f64> { Ok(self.id) }
    fn aliases(&self) -> Option<&[&str]> { self.al.as_deref() }
}
type K = Vec<Vec<char>>;
#[derive(Default)]
struct Model { v: BTreeMap<String, f64>, c: BTreeMap<K, f64>, f: [BTreeMap<K, f64>; 3] }
const BUILTIN: f64 = -77.0;

fn compare(x: &DefaultContext<f64>, m: &Model, what: &str) -> Result<(), String> {
    for n in POOL {
        let k = fold(n);
        let e = |w: &str, g: Option<f64>, r: Option<f64>| Err(format!("after {}: {} `{}` is {:?} instead of {:?}", what, w, n, g, r));
        let g = x.get_variable(n).copied(); if g != m.v.get(*n).copied() || x.is_variable(n) != g.is_some() { return e("variable", g, m.v.get(*n).copied()) }
        let g = x.get_constant(n).copied(); if g != m.c.get(&k).copied() || x.is_constant(n) != g.is_some() { return e("constant", g, m.c.get(&k).copied()) }
        let id = |r: Option<&f64>, g: Option<f64>| match (r, g) { (Some(&b), Some(_)) if b == BUILTIN => Ok(()), (r, g) if r.copied() == g => Ok(()), (r, g) => Err((g, r.copied())) };
        let g = x.get_function(n).map(|f| if m.f[0].get(&k) == Some(&BUILTIN) { BUILTIN } else { f.call(&[]).unwrap_or(f64::MAX) });
        if let Err((g, r)) = id(m.f[0].get(&k), g) { return e("function", g, r) }
        if x.is_function(n) != g.is_some() { return e("is_function", None, None) }
        let g = x.get_unary_function(n).map(|f| if m.f[1].get(&k) == Some(&BUILTIN) { BUILTIN } else { f.call(1.0).unwrap_or(f64::MAX) });
        if let Err((g, r)) = id(m.f[1].get(&k), g) { return e("unary operator", g, r) }
        if x.is_unary_function(n) != g.is_some() { return e("is_unary_function", None, None) }
        let g = x.get_binary_function(n).map(|f| if m.f[2].get(&k) == Some(&BUILTIN) { BUILTIN } else { f.call(1.0, 1.0).unwrap_or(f64::MAX) });
        if let Err((g, r)) = id(m.f[2].get(&k), g) { return e("binary operator", g, r) }
        if x.is_binary_function(n) != g.is_some() { return e("is_binary_function", None, None) }
        if x.get_variable(n).is_some() && x.get_constant(n).is_some() { return e("both variable and constant", None, None) }
    }
    for v in x.variables().keys() { if x.constants().keys().any(|c| fold(c.as_str()) == fold(v)) { return Err(format!("after {}: `{}` is a variable and a constant", what, v)) } }
    let sizes = [x.variables().len(), x.constants().len(), x.functions().len(), x.unary_functions().len(), x.binary_functions().len()];
    let want = [m.v.len(), m.c.len(), m.f[0].len(), m.f[1].len(), m.f[2].len()];
    if sizes != want { return Err(format!("after {}: {:?} variables, constants, functions, unary and binary operators instead of {:?}", what, sizes, want)) }
    Ok(())
}
fn builtin(x: &DefaultContext<f64>) -> Model {
    let mut m = Model::default();
    for (k, v) in x.constants().iter() { m.c.insert(fold(k.as_str()), *v); }
    for k in x.functions().keys() { m.f[0].insert(fold(k.as_str()), BUILTIN); }
    for k in x.unary_functions().keys() { m.f[1].insert(fold(k.as_str()), BUILTIN); }
    for k in x.binary_functions().keys() { m.f[2].insert(fold(k.as_str()), BUILTIN); }
    m
}
pub fn check(input: &str) -> Result<(), String> {
    let mut parts = input.split(';');
    let base = parts.next().unwrap_or("e");
    let mut x: DefaultContext<f64> = match base { "c" => DefaultContext::new_checked(), "u" => DefaultContext::new_unchecked(), _ => DefaultContext::new() };
    let mut m = builtin(&x);
    compare(&x, &m, "construction")?;
    for (i, op) in parts.enumerate() {
        let a: Vec<&str> = op.split(',').collect();
        if a.len() < 3 { continue }
        let name = |s: &str| s.parse::<usize>().ok().and_then(|i| POOL.get(i).copied());
        let nm = match name(a[1]) { Some(n) => n, None => continue };
        let id = (i + 1) as f64;
        let what = format!("operation {} `{}` (`{}`)", i, op, nm);
        match a[0] {
            "c" => {
                let clash = m.v.keys().any(|v| fold(v) == fold(nm));
                let r = x.add_constant(nm, id);
                if r.is_ok() != (valid(nm) && !clash) { return Err(format!("{}: add_constant gives {:?}", what, r.map_err(|e| e.to_string()))) }
                if r.is_ok() { m.c.insert(fold(nm), id); }
            }
            "v" => {
                let clash = m.c.contains_key(&fold(nm));
                let r = x.set_variable(nm, id);
                if r.is_ok() != (valid(nm) && !clash) { return Err(format!("{}: set_variable gives {:?}", what, r.map_err(|e| e.to_string()))) }
                if let Ok(p) = r {
                    let q = m.v.insert(nm.to_string(), id);
                    if p != q { return Err(format!("{}: the previous value is {:?} instead of {:?}", what, p, q)) }
                }
            }
            k => {
                let al: Vec<&'static str> = a[3..].iter().filter_map(|s| name(s)).collect();
                let al = if a.get(3) == Some(&"-") { None } else { Some(al) };
                let f = F { name: nm, al: al.clone(), id };
                let asn = name(a[2]).unwrap_or(nm);
                let (t, reg) = match k { "f" | "F" => (0, if k == "F" { asn } else { nm }), "u" | "U" => (1, if k == "U" { asn } else { nm }), _ => (2, if k == "B" { asn } else { nm }) };
                let r = match k {
                    "f" => x.add_function(f), "u" => x.add_unary_function(f), "b" => x.add_binary_function(f),
                    "F" => x.add_function_as(f, reg), "U" => x.add_unary_function_as(f, reg), _ => x.add_binary_function_as(f, reg),
                };
                let mut ks: Vec<K> = vec![fold(reg)]; ks.extend(al.unwrap_or_default().iter().map(|s| fold(s)));
                let clash = ks.iter().any(|k| m.f[t].contains_key(k));
                if r.is_ok() != (valid(reg) && !clash) { return Err(format!("{} registered as `{}` with aliases: {:?}, although {}", what, reg, r.map_err(|e| e.to_string()), if clash { "a name is taken" } else { "no name is taken" })) }
                if r.is_ok() { for k in ks { m.f[t].insert(k, id); } }
            }
        }
        compare(&x, &m, &what)?;
    }
    Ok(())
}
fn any_op(r: &mut Rng) -> String {
    let hot = r.below(2) == 0;
    let nm = |r: &mut Rng| if hot { r.below(8) } else { r.below(POOL.len()) };
    let k = *r.pick(&["c", "c", "v", "v", "f", "u", "b", "F", "U", "B"]);
    let mut s = format!("{},{},{}", k, nm(r), nm(r));
    if k == "c" || k == "v" { return s }
    if r.chance(1, 3) { s.push_str(",-"); return s }
    for _ in 0..r.below(4) { let n = nm(r); s.push_str(&format!(",{}", n)) }
    s
}
pub fn search(s: &mut S) {
    // every pair of operations over three spellings of two names
    let mut ops = vec![];
    for k in ["c", "v", "f", "u", "b", "F", "U", "B"] { for n in [0, 1, 2] {
        if k == "c" || k == "v" { ops.push(format!("{},{},0", k, n)) } else { ops.push(format!("{},{},{},-", k, n, (n + 1) % 3)); ops.push(format!("{},{},{},1", k, n, (n + 1) % 3)); ops.push(format!("{},{},{},3,4", k, n, (n + 2) % 3)); ops.push(format!("{},{},{},6,2", k, n, 4)) }
    } }
    for a in &ops { for b in &ops { if !s.test(format!("e;{};{}", a, b)) { return } s.count("exhaustive_pairs", 1); } }
    while s.go() {
        let base = *s.rng.pick(&["e", "e", "e", "c", "u"]);
        let n = if s.rng.chance(1, 30) { 60 } else { 1 + s.rng.below(12) };
        let mut v = vec![base.to_string()];
        for _ in 0..n { let o = any_op(&mut s.rng); v.push(o) }
        if !s.test(v.join(";")) { return }
        s.count("random_histories", 1);
    }
}
