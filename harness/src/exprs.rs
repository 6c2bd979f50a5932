//! Symbolic contexts, token encoding and expression trees (executable twin of units/eval_c01.inc).
use crate::util::Rng;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::error::{Error, ErrorKind};
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::token::Token;

/// a number that is its own derivation: applying `f` to `a`, `b` gives `f(a,b)`
#[derive(Clone, Debug, PartialEq)]
pub struct Sym(pub String);
impl std::str::FromStr for Sym {
    type Err = ();
    fn from_str(s: &str) -> Result<Sym, ()> { if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) { Ok(Sym(s.to_string())) } else { Err(()) } }
}
pub type Tok = Token<Sym>;

pub struct SBin { pub name: &'static str, pub prec: u32, pub left: bool }
/// Equal precedences with both associativities, neighbouring and far apart precedences.
pub const BINS: &[SBin] = &[
    SBin { name: "+", prec: 1, left: true }, SBin { name: "-", prec: 1, left: true },
    SBin { name: "*", prec: 2, left: true }, SBin { name: "/", prec: 2, left: true },
    SBin { name: "^", prec: 3, left: false }, SBin { name: "=", prec: 0, left: false },
    SBin { name: "#", prec: 1, left: false }, SBin { name: "&", prec: 4, left: true },
    SBin { name: "|", prec: u32::MAX, left: false }, SBin { name: "mod", prec: 2, left: true },
    SBin { name: "**", prec: 3, left: true },
];
/// (name, prefix); `-` and `+` are binary too, and so is `#`
pub const UNS: &[(&str, bool)] = &[("-", true), ("+", true), ("~", true), ("!", false), ("%", false), ("#", false)];
pub const FUNS: &[&str] = &["f", "max", "Nil", "bad"];
pub const VARS: &[&str] = &["x", "y", "X"];
pub const CONS: &[&str] = &["PI", "ten"];
pub fn sbin(n: &str) -> Option<&'static SBin> { BINS.iter().find(|b| b.name.eq_ignore_ascii_case(n)) }
pub fn sun(n: &str) -> Option<bool> { UNS.iter().find(|u| u.0.eq_ignore_ascii_case(n)).map(|u| u.1) }

struct B(&'static SBin);
impl BinaryFunction<Sym> for B {
    fn name(&self) -> &str { self.0.name }
    fn precedence(&self) -> Precedence { Precedence(self.0.prec) }
    fn associativity(&self) -> Associativity { if self.0.left { Associativity::Left } else { Associativity::Right } }
    fn call(&self, l: Sym, r: Sym) -> prexel::Result<Sym> {
        r_bin(self.0.name, &l, &r).ok_or_else(|| Error::from(ErrorKind::Overflow))
    }
}
struct U(&'static str, bool);
impl UnaryFunction<Sym> for U {
    fn name(&self) -> &str { self.0 }
    fn notation(&self) -> Notation { if self.1 { Notation::Prefix } else { Notation::Postfix } }
    fn call(&self, v: Sym) -> prexel::Result<Sym> { r_un(self.0, &v).ok_or_else(|| Error::from(ErrorKind::Overflow)) }
}
struct F(&'static str);
impl Function<Sym> for F {
    fn name(&self) -> &str { self.0 }
    fn call(&self, a: &[Sym]) -> prexel::Result<Sym> { r_fun(self.0, a).ok_or_else(|| Error::from(ErrorKind::InvalidArgumentCount)) }
}
// what the context's functions compute (errors included)
pub fn r_bin(n: &str, l: &Sym, r: &Sym) -> Option<Sym> { if n == "/" && r.0 == "0" { None } else { Some(Sym(format!("({}{}{})", l.0, n, r.0))) } }
pub fn r_un(n: &str, v: &Sym) -> Option<Sym> { if n == "~" && v.0 == "0" { None } else { Some(Sym(format!("{}[{}]", n, v.0))) } }
pub fn r_fun(n: &str, a: &[Sym]) -> Option<Sym> {
    if n == "bad" && a.len() == 1 { return None }
    Some(Sym(format!("{}({})", n, a.iter().map(|s| s.0.as_str()).collect::<Vec<_>>().join(","))))
}
pub fn r_var(n: &str) -> Option<Sym> { if VARS.contains(&n) { Some(Sym(format!("var_{}", n))) } else { None } }
pub fn r_con(n: &str) -> Option<Sym> { CONS.iter().find(|c| c.eq_ignore_ascii_case(n)).map(|c| Sym(format!("con_{}", c))) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cfg { pub imul: bool, pub custom: bool }
impl Cfg {
    pub fn all() -> [Cfg; 4] { [Cfg { imul: false, custom: false }, Cfg { imul: true, custom: false }, Cfg { imul: false, custom: true }, Cfg { imul: true, custom: true }] }
    pub fn enc(&self) -> String { format!("{}{}", if self.imul { "i" } else { "-" }, if self.custom { "c" } else { "-" }) }
    pub fn dec(s: &str) -> Cfg { Cfg { imul: s.contains('i'), custom: s.contains('c') } }
}
thread_local!(static CTX: [DefaultContext<'static, Sym>; 4] = [mk(Cfg::all()[0]), mk(Cfg::all()[1]), mk(Cfg::all()[2]), mk(Cfg::all()[3])]);
pub fn with_ctx<T>(c: Cfg, f: impl FnOnce(&DefaultContext<'static, Sym>) -> T) -> T {
    CTX.with(|x| f(&x[Cfg::all().iter().position(|a| *a == c).unwrap()]))
}
pub fn mk(c: Cfg) -> DefaultContext<'static, Sym> {
    let mut cfg = Config::new().with_implicit_mul(c.imul).with_custom_function_call(c.custom);
    cfg = cfg.with_grouping(Grouping::Bracket).with_grouping(Grouping::Brace);
    let mut x = DefaultContext::with_config(cfg);
    for b in BINS { x.add_binary_function(B(b)).unwrap() }
    for u in UNS { x.add_unary_function(U(u.0, u.1)).unwrap() }
    for f in FUNS { x.add_function(F(f)).unwrap() }
    for v in VARS { x.set_variable(v, r_var(v).unwrap()).unwrap(); }
    for v in CONS { x.add_constant(v, r_con(v).unwrap()).unwrap() }
    x
}

pub fn enc_tok(t: &Tok) -> String {
    match t {
        Token::Number(n) => format!("n:{}", n.0), Token::Variable(s) => format!("v:{}", s), Token::Constant(s) => format!("c:{}", s),
        Token::Function(s) => format!("f:{}", s), Token::BinaryOperator(s) => format!("b:{}", s), Token::UnaryOperator(s) => format!("u:{}", s),
        Token::ArgCount(n) => format!("a:{}", n), Token::GroupingOpen(c) => format!("o:{}", c), Token::GroupingClose(c) => format!("e:{}", c),
        Token::Unknown(s) => format!("k:{}", s), Token::Comma => ",:".to_string(),
    }
}
pub fn dec_tok(s: &str) -> Tok {
    let (k, v) = s.split_at(s.find(':').unwrap()); let v = v[1..].to_string();
    match k {
        "n" => Token::Number(Sym(v)), "v" => Token::Variable(v), "c" => Token::Constant(v), "f" => Token::Function(v), "b" => Token::BinaryOperator(v),
        "u" => Token::UnaryOperator(v), "a" => Token::ArgCount(v.parse().unwrap()), "o" => Token::GroupingOpen(v.chars().next().unwrap()),
        "e" => Token::GroupingClose(v.chars().next().unwrap()), "k" => Token::Unknown(v), "," => Token::Comma, _ => panic!("bad token"),
    }
}
pub fn enc_toks(t: &[Tok]) -> String { t.iter().map(enc_tok).collect::<Vec<_>>().join(" ") }
/// "cfg|tok tok .."
pub fn dec_input(s: &str) -> (Cfg, Vec<Tok>) {
    let (c, t) = s.split_at(s.find('|').unwrap());
    (Cfg::dec(c), t[1..].split(' ').filter(|x| !x.is_empty()).map(dec_tok).collect())
}

#[derive(Clone, Debug)]
pub enum E {
    Atom(Tok), Paren(char, char, Box<E>), Call(String, char, char, Vec<E>),
    Pre(String, Box<E>), Post(String, Box<E>), Bin(String, Box<E>, Box<E>), Juxt(Box<E>, Box<E>),
}
/// the closing symbol of the pair the character belongs to
pub fn close_of(o: char) -> char { match o { '(' | ')' => ')', '[' | ']' => ']', '{' | '}' => '}', _ => '?' } }
pub fn bin(n: &str) -> Tok { Token::BinaryOperator(n.to_string()) }
pub fn un(n: &str) -> Tok { Token::UnaryOperator(n.to_string()) }
pub fn fun(n: &str) -> Tok { Token::Function(n.to_string()) }
impl E {
    pub fn flat(&self, out: &mut Vec<Tok>) {
        match self {
            E::Atom(a) => out.push(a.clone()),
            E::Paren(o, c, x) => { out.push(Token::GroupingOpen(*o)); x.flat(out); out.push(Token::GroupingClose(*c)) }
            E::Call(f, o, c, a) => {
                out.push(fun(f)); out.push(Token::GroupingOpen(*o));
                for (i, x) in a.iter().enumerate() { if i > 0 { out.push(Token::Comma) } x.flat(out) }
                out.push(Token::GroupingClose(*c))
            }
            E::Pre(u, x) => { out.push(un(u)); x.flat(out) }
            E::Post(u, x) => { x.flat(out); out.push(un(u)) }
            E::Bin(o, l, r) => { l.flat(out); out.push(bin(o)); r.flat(out) }
            E::Juxt(l, r) => { l.flat(out); r.flat(out) }
        }
    }
    pub fn toks(&self) -> Vec<Tok> { let mut v = vec![]; self.flat(&mut v); v }
    pub fn post(&self, out: &mut Vec<Tok>) {
        match self {
            E::Atom(a) => out.push(a.clone()),
            E::Paren(_, _, x) => x.post(out),
            E::Call(f, _, _, a) => { for x in a { x.post(out) } out.push(Token::ArgCount(a.len())); out.push(fun(f)) }
            E::Pre(u, x) | E::Post(u, x) => { x.post(out); out.push(un(u)) }
            E::Bin(o, l, r) => { l.post(out); r.post(out); out.push(bin(o)) }
            E::Juxt(l, r) => { l.post(out); r.post(out); out.push(bin("*")) }
        }
    }
    /// value of the tree, None = error
    pub fn den(&self) -> Option<Sym> {
        match self {
            E::Atom(Token::Number(n)) => Some(n.clone()), E::Atom(Token::Variable(s)) => r_var(s), E::Atom(Token::Constant(s)) => r_con(s),
            E::Atom(_) => None,
            E::Paren(_, _, x) => x.den(),
            E::Call(f, _, _, a) => { let v: Option<Vec<Sym>> = a.iter().map(|x| x.den()).collect(); let n = FUNS.iter().find(|g| g.eq_ignore_ascii_case(f))?; r_fun(n, &v?) }
            E::Pre(u, x) | E::Post(u, x) => { sun(u)?; r_un(u, &x.den()?) }
            E::Bin(o, l, r) => { let n = sbin(o)?.name; r_bin(n, &l.den()?, &r.den()?) }
            E::Juxt(l, r) => r_bin("*", &l.den()?, &r.den()?),
        }
    }
    pub fn is_atom(&self) -> bool { matches!(self, E::Atom(_)) }
    pub fn closed(&self) -> bool { match self { E::Pre(_, x) => x.is_atom(), E::Bin(..) | E::Juxt(..) => false, _ => true } }
    fn first(&self) -> Tok {
        match self {
            E::Atom(a) => a.clone(), E::Paren(o, ..) => Token::GroupingOpen(*o), E::Call(f, ..) => fun(f), E::Pre(u, _) => un(u),
            E::Post(_, x) => x.first(), E::Bin(_, l, _) | E::Juxt(l, _) => l.first(),
        }
    }
    fn last(&self) -> Tok {
        match self {
            E::Atom(a) => a.clone(), E::Paren(_, c, _) | E::Call(_, _, c, _) => Token::GroupingClose(*c), E::Pre(_, x) => x.last(),
            E::Post(u, _) => un(u), E::Bin(_, _, r) | E::Juxt(_, r) => r.last(),
        }
    }
    /// pending operators of the right edge, as (None = prefix operator, Some = binary operator)
    fn spine_yields(&self, b: &SBin) -> bool {
        match self {
            E::Pre(_, x) => x.is_atom() || x.spine_yields(b),
            E::Bin(o, _, r) => pops_bin(sbin(o).unwrap(), b) && r.spine_yields(b),
            E::Juxt(_, r) => pops_bin(sbin("*").unwrap(), b) && r.spine_yields(b),
            _ => true,
        }
    }
    /// nothing on the left edge is captured by the pending operator (None = prefix operator)
    fn under(&self, top: Option<&SBin>) -> bool {
        match self {
            E::Atom(_) => top.is_some(),
            E::Post(_, x) => x.under(top),
            E::Bin(o, l, _) => match top { Some(t) => sbin(o).map_or(false, |b| !pops_bin(t, b)) && l.under(top), None => false },
            E::Juxt(l, _) => l.under(top),
            _ => true,
        }
    }
    pub fn wf(&self, c: Cfg) -> bool {
        match self {
            E::Atom(a) => matches!(a, Token::Number(_) | Token::Variable(_) | Token::Constant(_)),
            E::Paren(o, k, x) => close_of(*o) == *k && x.wf(c),
            E::Call(_, o, k, a) => close_of(*o) == *k && (c.custom || *o == '(') && a.iter().all(|x| x.wf(c)),
            E::Pre(u, x) => sun(u) == Some(true) && x.wf(c) && (x.is_atom() || x.under(None)),
            E::Post(u, x) => sun(u) == Some(false) && x.wf(c) && x.closed(),
            E::Bin(o, l, r) => match sbin(o) { None => false, Some(b) => l.wf(c) && r.wf(c) && l.spine_yields(b) && r.under(Some(b)) },
            E::Juxt(l, r) => l.wf(c) && r.wf(c) && l.closed() && juxt(c, &l.last(), &r.first()) && r.under(sbin("*")),
        }
    }
    pub fn enc(&self, out: &mut String) {
        if !out.is_empty() { out.push(' ') }
        match self {
            E::Atom(a) => out.push_str(&enc_tok(a)),
            E::Paren(o, c, x) => { out.push_str(&format!("G:{}{}", o, c)); x.enc(out) }
            E::Call(f, o, c, a) => { out.push_str(&format!("F:{}{}{}:{}", o, c, a.len(), f)); for x in a { x.enc(out) } }
            E::Pre(u, x) => { out.push_str(&format!("P:{}", u)); x.enc(out) }
            E::Post(u, x) => { out.push_str(&format!("Q:{}", u)); x.enc(out) }
            E::Bin(o, l, r) => { out.push_str(&format!("B:{}", o)); l.enc(out); r.enc(out) }
            E::Juxt(l, r) => { out.push_str("J:"); l.enc(out); r.enc(out) }
        }
    }
    pub fn dec(it: &mut dyn Iterator<Item = &str>) -> E {
        let w = it.next().expect("truncated tree");
        let (k, v) = w.split_at(w.find(':').unwrap()); let v = &v[1..];
        match k {
            "G" => { let mut c = v.chars(); let o = c.next().unwrap(); let e = c.next().unwrap(); E::Paren(o, e, Box::new(E::dec(it))) }
            "F" => {
                let (h, f) = v.split_at(v.find(':').unwrap()); let mut c = h.chars(); let o = c.next().unwrap(); let e = c.next().unwrap();
                let n: usize = c.as_str().parse().unwrap();
                E::Call(f[1..].to_string(), o, e, (0..n).map(|_| E::dec(it)).collect())
            }
            "P" => E::Pre(v.to_string(), Box::new(E::dec(it))),
            "Q" => E::Post(v.to_string(), Box::new(E::dec(it))),
            "B" => { let l = E::dec(it); let r = E::dec(it); E::Bin(v.to_string(), Box::new(l), Box::new(r)) }
            "J" => { let l = E::dec(it); let r = E::dec(it); E::Juxt(Box::new(l), Box::new(r)) }
            _ => E::Atom(dec_tok(w)),
        }
    }
}
fn pops_bin(top: &SBin, b: &SBin) -> bool { top.prec > b.prec || (top.prec == b.prec && top.left) }
pub fn juxt(c: Cfg, t: &Tok, n: &Tok) -> bool {
    use Token::*;
    c.imul && match t {
        Number(_) => matches!(n, Function(_) | Constant(_) | Variable(_) | GroupingOpen(_)),
        GroupingClose(_) => matches!(n, Number(_) | Variable(_) | Constant(_) | Function(_) | GroupingOpen(_)),
        _ => false,
    }
}
pub fn atom(r: &mut Rng) -> Tok {
    match r.below(6) {
        0 => Token::Variable(r.pick(VARS).to_string()), 1 => Token::Constant(r.pick(CONS).to_string()),
        _ => Token::Number(Sym(r.below(10).to_string())),
    }
}
/// a random tree of about `n` nodes, parenthesized where it must be
pub fn gen(r: &mut Rng, c: Cfg, n: usize) -> E {
    let e = if n <= 1 { if r.chance(1, 12) { call(r, c, 0, 0) } else { E::Atom(atom(r)) } } else {
        match r.below(if c.imul { 11 } else { 9 }) {
            0 => { let o = *r.pick(&['(', '[', '{']); E::Paren(o, close_of(o), Box::new(gen(r, c, n - 1))) }
            1 | 2 => { let k = r.below(5); call(r, c, k, n - 1) }
            3 => E::Pre(r.pick(UNS).0.to_string(), Box::new(gen(r, c, n - 1))),
            4 => E::Post(r.pick(UNS).0.to_string(), Box::new(gen(r, c, n - 1))),
            5..=8 => {
                let k = 1 + r.below(n - 1);
                E::Bin(r.pick(BINS).name.to_string(), Box::new(gen(r, c, k)), Box::new(gen(r, c, n - k)))
            }
            _ => { let k = 1 + r.below(n - 1); E::Juxt(Box::new(gen(r, c, k)), Box::new(gen(r, c, n - k))) }
        }
    };
    fix(r, c, e)
}
fn call(r: &mut Rng, c: Cfg, k: usize, n: usize) -> E {
    let o = if c.custom { *r.pick(&['(', '(', '[', '{']) } else { '(' };
    let a = (0..k).map(|_| gen(r, c, (n / k.max(1)).max(1))).collect();
    E::Call(r.pick(FUNS).to_string(), o, close_of(o), a)
}
fn par(r: &mut Rng, x: Box<E>) -> Box<E> { let o = *r.pick(&['(', '(', '(', '[', '{']); Box::new(E::Paren(o, close_of(o), x)) }
fn fix(r: &mut Rng, c: Cfg, e: E) -> E {
    if top_wf(&e, c) { return e }
    match e {
        E::Pre(_, x) => { let u = ["-", "+", "~"][r.below(3)].to_string(); let e = E::Pre(u.clone(), x); if top_wf(&e, c) { return e } match e { E::Pre(u, x) => E::Pre(u, par(r, x)), e => e } }
        E::Post(_, x) => { let u = ["!", "%", "#"][r.below(3)].to_string(); let e = E::Post(u, x); if top_wf(&e, c) { return e } match e { E::Post(u, x) => E::Post(u, par(r, x)), e => e } }
        E::Bin(o, l, r0) => {
            let b = sbin(&o).unwrap();
            let l = if l.spine_yields(b) { l } else { par(r, l) };
            let r0 = if r0.under(Some(b)) { r0 } else { par(r, r0) };
            E::Bin(o, l, r0)
        }
        E::Juxt(l, r0) => {
            for (a, b) in [(false, true), (true, false), (true, true)] {
                let (mut l, mut r0) = (l.clone(), r0.clone());
                if a { l = par(r, l) }
                if b { r0 = par(r, r0) }
                let e = E::Juxt(l, r0);
                if top_wf(&e, c) { return e }
            }
            E::Bin("*".to_string(), par(r, l), par(r, r0))
        }
        e => e,
    }
}
/// wf of the root, children assumed wf
fn top_wf(e: &E, c: Cfg) -> bool {
    match e {
        E::Pre(u, x) => sun(u) == Some(true) && (x.is_atom() || x.under(None)),
        E::Post(u, x) => sun(u) == Some(false) && x.closed(),
        E::Bin(o, l, r) => { let b = sbin(o).unwrap(); l.spine_yields(b) && r.under(Some(b)) }
        E::Juxt(l, r) => l.closed() && juxt(c, &l.last(), &r.first()) && r.under(sbin("*")),
        _ => true,
    }
}
