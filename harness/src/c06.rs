//! C06: case-insensitive names. Input: two names as dot-separated hex code points, separated by `|`.
use crate::util::*;
use prexel::context::{Context, DefaultContext};
use prexel::function::*;
use prexel::utils::ignore_case_str::{eq_ignore_case, IgnoreCaseStr};
use prexel::utils::ignore_case_string::IgnoreCaseString;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};

fn dec(s: &str) -> String { s.split('.').filter(|x| !x.is_empty()).filter_map(|x| u32::from_str_radix(x, 16).ok().and_then(char::from_u32)).collect() }
fn enc(s: &str) -> String { s.chars().map(|c| format!("{:x}", c as u32)).collect::<Vec<_>>().join(".") }
fn fold(s: &str) -> Vec<Vec<char>> { s.chars().map(|c| c.to_lowercase().collect()).collect() }
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
/// a hasher that keeps every byte
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
fn rec<T: Hash>(t: &T) -> Vec<u8> { let mut s = Rec::default(); t.hash(&mut s); s.0 }
struct F(String);
impl Function<f64> for F { fn name(&self) -> &str { &self.0 } fn call(&self, _: &[f64]) -> prexel::Result<f64> { Ok(1.0) } }
impl BinaryFunction<f64> for F {
    fn name(&self) -> &str { &self.0 }
    fn precedence(&self) -> Precedence { Precedence::LOW }
    fn associativity(&self) -> Associativity { Associativity::Left }
    fn call(&self, _: f64, _: f64) -> prexel::Result<f64> { Ok(1.0) }
}
impl UnaryFunction<f64> for F { fn name(&self) -> &str { &self.0 } fn notation(&self) -> Notation { Notation::Prefix } fn call(&self, _: f64) -> prexel::Result<f64> { Ok(1.0) } }

fn names(a: &str, b: &str) -> Result<(), String> {
    let (fa, fb) = (fold(a), fold(b));
    let want = fa.cmp(&fb);
    let eq = want == Ordering::Equal;
    let e = |w: &str| Err(format!("{}: {:?} and {:?}", w, a, b));
    if eq_ignore_case(a, b) != eq { return e("eq_ignore_case is wrong") }
    let (x, y) = (IgnoreCaseStr::new(a), IgnoreCaseStr::from(b));
    if (x == y) != eq || (x != y) == eq { return e("IgnoreCaseStr == is wrong") }
    if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) { return e("IgnoreCaseStr order is wrong") }
    if (x < y) != (want == Ordering::Less) || (x <= y) != (want != Ordering::Greater) || (x > y) != (want == Ordering::Greater) || (x >= y) != (want != Ordering::Less) { return e("IgnoreCaseStr < <= > >= is wrong") }
    if std::cmp::max(x, y) != (if want == Ordering::Greater { x } else { y }) { return e("IgnoreCaseStr max is wrong") }
    if eq && (h(&x) != h(&y) || rec(&x) != rec(&y)) { return e("IgnoreCaseStr: equal names hash differently") }
    if x.as_str() != a || x.into_inner() != a || x.to_string() != a || &*x != a { return e("IgnoreCaseStr text is wrong") }
    let (x, y) = (IgnoreCaseString::new(a.to_string()), IgnoreCaseString::from(b));
    if (x == y) != eq || (x != y) == eq { return e("IgnoreCaseString == is wrong") }
    if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) { return e("IgnoreCaseString order is wrong") }
    if (x < y) != (want == Ordering::Less) || (x <= y) != (want != Ordering::Greater) || (x > y) != (want == Ordering::Greater) || (x >= y) != (want != Ordering::Less) { return e("IgnoreCaseString < <= > >= is wrong") }
    if eq && (h(&x) != h(&y) || rec(&x) != rec(&y)) { return e("IgnoreCaseString: equal names hash differently") }
    if x.as_str() != a || &*x != a || y.as_str() != b { return e("IgnoreCaseString text is wrong") }
    let mut s = HashSet::new(); s.insert(x.clone());
    if s.contains(&y) != eq || !s.contains(&x) { return e("HashSet<IgnoreCaseString> lookup is wrong") }
    let mut s = BTreeMap::new(); s.insert(x.clone(), 1);
    if s.contains_key(&y) != eq { return e("BTreeMap<IgnoreCaseString> lookup is wrong") }
    let mut s: HashMap<IgnoreCaseStr, u8> = HashMap::new(); s.insert(IgnoreCaseStr::new(a), 1);
    if s.contains_key(&IgnoreCaseStr::new(b)) != eq { return e("HashMap<IgnoreCaseStr> lookup is wrong") }
    let st = s.hasher().clone();
    let (mut p, mut q) = (st.build_hasher(), st.build_hasher());
    IgnoreCaseStr::new(a).hash(&mut p); IgnoreCaseStr::new(b).hash(&mut q);
    if eq && p.finish() != q.finish() { return e("hash differs under a keyed hasher") }
    Ok(())
}
fn lookups(a: &str, b: &str) -> Result<(), String> {
    let ok = |s: &str| !s.trim().is_empty() && !s.chars().any(|c| c.is_whitespace() || c.is_control());
    if !ok(a) { return Ok(()) }
    let eq = fold(a) == fold(b);
    let e = |w: &str| Err(format!("{}: registered {:?}, looked up {:?}", w, a, b));
    let mut c: DefaultContext<f64> = DefaultContext::new();
    c.add_constant(a, 1.0).map_err(|x| x.to_string())?;
    if c.get_constant(b).is_some() != eq || c.is_constant(b) != eq { return e("constant lookup is wrong") }
    c.add_function(F(a.to_string())).map_err(|x| x.to_string())?;
    if c.get_function(b).is_some() != eq || c.is_function(b) != eq { return e("function lookup is wrong") }
    c.add_binary_function(F(a.to_string())).map_err(|x| x.to_string())?;
    if c.get_binary_function(b).is_some() != eq || c.is_binary_function(b) != eq { return e("binary operator lookup is wrong") }
    c.add_unary_function(F(a.to_string())).map_err(|x| x.to_string())?;
    if c.get_unary_function(b).is_some() != eq || c.is_unary_function(b) != eq { return e("unary operator lookup is wrong") }
    Ok(())
}
pub fn check(input: &str) -> Result<(), String> {
    let mut p = input.splitn(2, '|');
    let (a, b) = (dec(p.next().unwrap_or("")), dec(p.next().unwrap_or("")));
    for (x, y) in [(&a, &b), (&b, &a), (&a, &a)] { names(x, y)?; lookups(x, y)?; }
    Ok(())
}
fn flip(c: char, r: &mut Rng) -> String {
    match r.below(4) { 0 => c.to_string(), 1 => c.to_lowercase().collect(), 2 => c.to_uppercase().collect(), _ => { let u: String = c.to_uppercase().collect(); u.to_lowercase() } }
}
const POOL: &[char] = &['a', 'A', 'b', 'Z', 'z', '_', '[', '`', '@', '{', '0', 'İ', 'i', 'I', 'ı', 'ß', 'ẞ', 'K', 'k', 'ſ', 's', 'Σ', 'σ', 'ς', 'π', 'Π', 'é', 'É', '\u{307}', '√', 'Ω', 'ω', 'Ω', '漢', '𐐀', '𐐨', '\u{1c4}', '\u{1c5}', '\u{1c6}', '\u{212a}', '\u{2126}', 'À', 'à', '+', '-'];
pub fn search(s: &mut S) {
    // short names over a small alphabet, all pairs
    let al = ['a', 'A', 'b', 'İ', 'i', '\u{307}'];
    let mut short = vec![String::new()];
    let mut prev = short.clone();
    for _ in 0..2 { let mut nx = vec![]; for p in &prev { for c in al { nx.push(format!("{}{}", p, c)) } } short.extend(nx.clone()); prev = nx; }
    for a in &short { for b in &short { if !s.test(format!("{}|{}", enc(a), enc(b))) { return } } }
    s.count("pairs_of_short_names", (short.len() * short.len()) as u64);
    // characters with case, against their other spellings
    let mut n = 0;
    for u in 0..=0x10FFFFu32 {
        let c = match char::from_u32(u) { Some(c) => c, None => continue };
        let l: String = c.to_lowercase().collect(); let up: String = c.to_uppercase().collect();
        let own = c.to_string();
        if l == own && up == own { continue }
        for o in [l.clone(), up.clone(), up.to_lowercase()] {
            if !s.test(format!("{:x}|{}", u, enc(&o))) { return }
            if !s.test(format!("78.{:x}.79|58.{}.59", u, enc(&o))) { return }
        }
        n += 1;
    }
    s.count("characters_with_case", n);
    while s.go() {
        let len = if s.rng.chance(1, 20) { s.rng.below(300) } else { s.rng.below(9) };
        let mut a = String::new(); let mut b = String::new();
        for _ in 0..len {
            let c = if s.rng.chance(1, 6) { char::from_u32(s.rng.below(0x2FFF) as u32).unwrap_or('q') } else { *s.rng.pick(POOL) };
            a.push_str(&flip(c, &mut s.rng)); b.push_str(&flip(c, &mut s.rng));
        }
        match s.rng.below(6) { 0 => { b.pop(); } 1 => b.push(*s.rng.pick(POOL)), 2 => { let mut v: Vec<char> = b.chars().collect(); if !v.is_empty() { let i = s.rng.below(v.len()); v[i] = *s.rng.pick(POOL); } b = v.into_iter().collect() } _ => {} }
        if !s.test(format!("{}|{}", enc(&a), enc(&b))) { return }
        s.count("random_pairs", 1);
    }
}
