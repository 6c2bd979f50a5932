//! C23: arithmetic expressions follow the usual order of operations. Input: `<context>|<expression>` with contexts f (f64 checked),
//! g (f64 unchecked), i (i64), j (i128), b (i8), d (decimal), z (complex), and the same letter in upper case for the context built with a configuration.
//! The reference reads the text itself (recursive descent) and applies the context's own operators and functions, called directly.
use crate::util::*;
use num_complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::evaluator::Evaluator;
use rust_decimal::Decimal;
use std::fmt::Debug;

#[derive(Clone, PartialEq, Debug)]
enum T { Num(String), Name(String), Op(char), Open, Close, Comma }
fn tokens(e: &str) -> Option<Vec<T>> {
    let c: Vec<char> = e.chars().collect();
    let (mut i, mut v) = (0, vec![]);
    // neighbouring operator characters are one piece (C04), so they must be written apart
    if c.windows(2).any(|w| w.iter().all(|x| "+-*/^!,.".contains(*x))) { return None }
    while i < c.len() {
        let s = i;
        match c[i] {
            ' ' => i += 1,
            '0'..='9' => { while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') { i += 1 } v.push(T::Num(c[s..i].iter().collect())) }
            'a'..='z' | 'A'..='Z' => { while i < c.len() && c[i].is_ascii_alphanumeric() { i += 1 } v.push(T::Name(c[s..i].iter().collect())) }
            '+' | '-' | '*' | '/' | '^' | '!' => { v.push(T::Op(c[i])); i += 1 }
            '(' => { v.push(T::Open); i += 1 }
            ')' => { v.push(T::Close); i += 1 }
            ',' => { v.push(T::Comma); i += 1 }
            _ => return None,
        }
    }
    Some(v)
}
/// None: not an expression this property speaks about
enum R<N> { Val(N), Bad }
struct P<'c, N> { t: Vec<T>, i: usize, c: &'c DefaultContext<'static, N>, num: fn(&str) -> Option<N> }
impl<'c, N: Clone + Debug> P<'c, N> {
    fn bin(&self, o: &str, a: R<N>, b: R<N>) -> Option<R<N>> {
        let f = self.c.get_binary_function(o)?;
        Some(match (a, b) { (R::Val(a), R::Val(b)) => match f.call(a, b) { Ok(v) => R::Val(v), Err(_) => R::Bad }, _ => R::Bad })
    }
    fn un(&self, o: char, a: R<N>) -> Option<R<N>> {
        let f = self.c.get_unary_function(&o.to_string())?;
        Some(match a { R::Val(a) => match f.call(a) { Ok(v) => R::Val(v), Err(_) => R::Bad }, _ => R::Bad })
    }
    fn op(&self) -> Option<char> { match self.t.get(self.i) { Some(T::Op(c)) => Some(*c), Some(T::Name(n)) if n.eq_ignore_ascii_case("mod") => Some('%'), _ => None } }
    fn sum(&mut self) -> Option<R<N>> {
        let mut a = self.product()?;
        while let Some(o) = self.op() { if !"+-".contains(o) { break } self.i += 1; let b = self.product()?; a = self.bin(&o.to_string(), a, b)?; }
        Some(a)
    }
    fn product(&mut self) -> Option<R<N>> {
        let mut a = self.power()?;
        while let Some(o) = self.op() { if !"*/%".contains(o) { break } self.i += 1; let b = self.power()?; a = self.bin(&if o == '%' { "mod".to_string() } else { o.to_string() }, a, b)?; }
        Some(a)
    }
    fn power(&mut self) -> Option<R<N>> {
        let a = self.signed()?;
        if self.op() == Some('^') { self.i += 1; let b = self.power()?; return self.bin("^", a, b) }
        Some(a)
    }
    fn signed(&mut self) -> Option<R<N>> {
        let mut signs = vec![];
        while let Some(o) = self.op() { if !"+-".contains(o) { break } signs.push(o); self.i += 1 }
        let (mut a, atom) = self.primary()?;
        while self.op() == Some('!') {
            if atom && !signs.is_empty() { return None }
            self.i += 1; a = self.un('!', a)?;
        }
        for o in signs.iter().rev() { a = self.un(*o, a)? }
        Some(a)
    }
    fn primary(&mut self) -> Option<(R<N>, bool)> {
        let t = self.t.get(self.i)?.clone();
        self.i += 1;
        match t {
            T::Num(n) => Some((R::Val((self.num)(&n)?), true)),
            T::Open => { let a = self.sum()?; if self.t.get(self.i) != Some(&T::Close) { return None } self.i += 1; Some((a, false)) }
            T::Name(n) => {
                if let Some(v) = self.c.get_variable(&n) { return Some((R::Val(v.clone()), true)) }
                if let Some(v) = self.c.get_constant(&n) { return Some((R::Val(v.clone()), true)) }
                if self.c.get_binary_function(&n).is_some() { return None }
                let f = self.c.get_function(&n)?.clone();
                if self.t.get(self.i) != Some(&T::Open) { return None }
                self.i += 1;
                let (mut v, mut bad) = (vec![], false);
                if self.t.get(self.i) == Some(&T::Close) { self.i += 1 } else {
                    loop {
                        match self.sum()? { R::Val(x) => v.push(x), R::Bad => bad = true }
                        let s = self.t.get(self.i)?.clone(); self.i += 1;
                        match s { T::Comma => {} T::Close => break, _ => return None }
                    }
                }
                Some((if bad { R::Bad } else { match f.call(&v) { Ok(x) => R::Val(x), Err(_) => R::Bad } }, false))
            }
            _ => None,
        }
    }
}
fn run<N: Clone + Debug + std::str::FromStr>(c: DefaultContext<'static, N>, num: fn(&str) -> Option<N>, e: &str) -> Result<(), String> {
    let t = match tokens(e) { Some(t) => t, None => return Ok(()) };
    if e.to_ascii_lowercase().contains("random") { return Ok(()) }
    for n in ["+", "-", "*", "/", "mod", "^"] { if c.get_binary_function(n).is_none() { return Err(format!("the context has no operator {}", n)) } }
    for n in ["+", "-"] { if c.get_unary_function(n).is_none() { return Err(format!("the context has no sign {}", n)) } }
    let n = t.len();
    let mut p = P { t, i: 0, c: &c, num };
    let want = match p.sum() { Some(w) if p.i == n => w, _ => return Ok(()) };
    let ev = Evaluator::with_context(c.clone());
    match (ev.eval(e), want) {
        (Ok(v), R::Val(w)) if format!("{:?}", v) == format!("{:?}", w) => Ok(()),
        (Err(_), R::Bad) => Ok(()),
        (g, R::Val(w)) => Err(format!("`{}` gives {:?} instead of {:?}", e, g.map_err(|e| e.to_string()), w)),
        (g, R::Bad) => Err(format!("`{}` gives {:?} instead of an error", e, g.map_err(|e| e.to_string()))),
    }
}
type Z = Complex<f64>;
fn cfg() -> Config { Config::new().with_grouping(Grouping::Bracket).with_custom_function_call(true) }
fn with<N: Clone>(mut c: DefaultContext<'static, N>, v: &[(&str, Option<N>)]) -> DefaultContext<'static, N> { for (n, x) in v { if let Some(x) = x { let _ = c.set_variable(n, x.clone()); } } c }
pub fn check(input: &str) -> Result<(), String> {
    let (k, e) = match input.split_once('|') { Some(p) => p, None => return Ok(()) };
    macro_rules! go { ($new:expr, $cfg:expr, $low:expr, $t:ty, $lit:expr) => {{
        let lit: fn(&str) -> Option<$t> = $lit;
        run(with(if k == $low { $new } else { $cfg }, &[("x", lit("3")), ("y", lit("2"))]), lit, e) }} }
    match k {
        "f" | "F" => go!(DefaultContext::<f64>::new_checked(), DefaultContext::<f64>::with_config_checked(cfg()), "f", f64, |s| s.parse().ok()),
        "g" | "G" => go!(DefaultContext::<f64>::new_unchecked(), DefaultContext::<f64>::with_config_unchecked(cfg()), "g", f64, |s| s.parse().ok()),
        "i" | "I" => go!(DefaultContext::<i64>::new_checked(), DefaultContext::<i64>::with_config_checked(cfg()), "i", i64, |s| s.parse().ok()),
        "j" | "J" => go!(DefaultContext::<i128>::new_checked(), DefaultContext::<i128>::with_config_checked(cfg()), "j", i128, |s| s.parse().ok()),
        "b" | "B" => go!(DefaultContext::<i8>::new_checked(), DefaultContext::<i8>::with_config_checked(cfg()), "b", i8, |s| s.parse().ok()),
        "d" | "D" => go!(DefaultContext::<Decimal>::new_decimal(), DefaultContext::<Decimal>::with_config_decimal(cfg()), "d", Decimal, |s| s.parse().ok()),
        "z" | "Z" => go!(DefaultContext::<Z>::new_complex(), DefaultContext::<Z>::with_config_complex(cfg()), "z", Z, |s| s.parse::<f64>().ok().map(|r| Complex::new(r, 0.0))),
        _ => Ok(()),
    }
}
const CTX: &[&str] = &["f", "g", "i", "j", "b", "d", "z", "F", "G", "I", "D", "Z"];
const OPS: &[&str] = &["+", "-", "*", "/", "mod", "^"];
struct G { spaced: u8, int: bool, out: String }
impl G {
    fn put(&mut self, s: &mut S, w: &str) {
        // names are kept apart from what precedes and follows them
        let near = match (self.out.chars().last(), w.chars().next()) { (Some(a), Some(b)) => ((a.is_ascii_alphanumeric() || a == '.' || a == ')') && b.is_ascii_alphanumeric()) || ("+-*/^!,".contains(a) && "+-*/^!,".contains(b)), _ => false };
        if !self.out.is_empty() && !self.out.ends_with(' ') && (near || self.spaced == 1 || (self.spaced == 2 && s.rng.chance(1, 2))) { self.out.push(' ') }
        self.out.push_str(w);
    }
    fn sum(&mut self, s: &mut S, d: usize) { let n = self.many(s, d); for i in 0..n { if i > 0 { let o = *s.rng.pick(&["+", "-"]); self.put(s, o) } self.product(s, d) } }
    fn product(&mut self, s: &mut S, d: usize) { let n = self.many(s, d); for i in 0..n { if i > 0 { let o = *s.rng.pick(&["*", "/", "mod", "*", "/", "MOD"]); self.put(s, o) } self.power(s, d) } }
    fn power(&mut self, s: &mut S, d: usize) { let n = if s.rng.chance(1, 4) { 1 + self.many(s, d).min(3) } else { 1 }; for i in 0..n { if i > 0 { self.put(s, "^") } self.signed(s, d) } }
    fn many(&self, s: &mut S, d: usize) -> usize { if d == 0 { 1 } else { [1, 1, 2, 2, 3, 4][s.rng.below(6)] } }
    fn signed(&mut self, s: &mut S, d: usize) {
        let n = if s.rng.chance(1, 4) { 1 + s.rng.below(2) } else { 0 };
        for _ in 0..n { let o = *s.rng.pick(&["-", "-", "+"]); self.put(s, o) }
        if d > 0 && s.rng.chance(1, 4) {
            self.put(s, "("); self.sum(s, d - 1); self.put(s, ")");
        } else if d > 0 && s.rng.chance(1, 6) {
            let f = *s.rng.pick(&["sum", "prod", "sqrt", "max", "Sum", "exp"]);
            self.put(s, f); self.out.push('(');
            let k = if f == "sqrt" || f == "exp" { 1 } else { 2 + s.rng.below(2) };
            for i in 0..k { if i > 0 { self.put(s, ",") } self.sum(s, d - 1) }
            self.put(s, ")");
        } else if s.rng.chance(1, 5) { let w = *s.rng.pick(&["x", "y", "PI", "e"]); self.put(s, w) }
        else {
            let bang = n == 0 && s.rng.chance(1, 8);
            let w = if !self.int && s.rng.chance(1, 8) && !bang { s.rng.pick(&["1.5", "0.5", "2.25", "10.0"]).to_string() } else { { let m = if s.rng.chance(1, 3) { 30 } else { 6 }; s.rng.below(m) }.to_string() };
            self.put(s, &w);
            if bang { self.put(s, "!") }
        }
    }
}
pub fn search(s: &mut S) {
    let vals: &[&[&str]] = &[&["8", "3", "2", "5"], &["2", "3", "2", "1"], &["7", "4", "3", "2"], &["100", "7", "5", "3"], &["1", "2", "3", "4"]];
    for c in CTX {
        for v in vals {
            for a in OPS { for b in OPS {
                s.test(format!("{}|{} {} {} {} {}", c, v[0], a, v[1], b, v[2]));
                s.test(format!("{}|-{} {} {} {} -{}", c, v[0], a, v[1], b, v[2]));
                s.test(format!("{}|-({} {} {}) {} (-{})", c, v[0], a, v[1], b, v[2]));
                s.test(format!("{}|{} {} ({} {} {})", c, v[0], a, v[1], b, v[2]));
                s.test(format!("{}|{} {} 3! {} -x", c, v[0], a, b));
                if !s.go() { return }
                for o in OPS { s.test(format!("{}|{} {} {} {} {} {} {}", c, v[0], a, v[1], b, v[2], o, v[3])); }
            } }
        }
    }
    s.count("systematic", 1);
    while s.go() {
        let c = *s.rng.pick(CTX);
        let mut g = G { spaced: s.rng.below(3) as u8, int: "ijbIJB".contains(c), out: String::new() };
        let d = s.rng.below(4);
        g.sum(s, d);
        if g.out.len() < 2000 { let t = format!("{}|{}", c, g.out); s.count(&format!("context {}", c), 1); s.test(t); }
    }
}
