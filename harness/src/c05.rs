//! C05: tokenizing. Input: `<context>:<p|t>:<pieces or text, code points in hex; pieces separated by '/'>`.
use crate::c04::{dec, enc, random_text};
use crate::exprs::Sym;
use crate::util::*;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::error::{Error, ErrorKind};
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::{DefaultSplitter, Splitter};
use std::fmt::Debug;
use std::rc::Rc;
use std::str::FromStr;

struct Pieces(Vec<String>);
impl Splitter for Pieces { fn split_into_tokens(&self, _: &str) -> Vec<String> { self.0.clone() } }

/// a context with chosen names, some of them under several kinds at once
struct Cx { config: Config, un: Vec<(&'static str, Rc<dyn UnaryFunction<Sym>>)>, bin: Vec<(&'static str, Rc<dyn BinaryFunction<Sym>>)>, fun: Vec<(&'static str, Rc<dyn Function<Sym>>)>, var: Vec<(&'static str, Sym)>, con: Vec<(&'static str, Sym)> }
struct O(&'static str, bool);
impl UnaryFunction<Sym> for O { fn name(&self) -> &str { self.0 } fn notation(&self) -> Notation { if self.1 { Notation::Prefix } else { Notation::Postfix } } fn call(&self, v: Sym) -> prexel::Result<Sym> { Ok(v) } }
impl BinaryFunction<Sym> for O { fn name(&self) -> &str { self.0 } fn precedence(&self) -> Precedence { Precedence(1) } fn associativity(&self) -> Associativity { Associativity::Left } fn call(&self, v: Sym, _: Sym) -> prexel::Result<Sym> { Ok(v) } }
impl Function<Sym> for O { fn name(&self) -> &str { self.0 } fn call(&self, _: &[Sym]) -> prexel::Result<Sym> { Ok(Sym("0".into())) } }
const PRE: &[&str] = &["-", "+", "~", "not", "√", "--", "n", "'", "v4", "@"];
const POST: &[&str] = &["!", "!!", "%", "°", "p", "deg", "!$", "f5"];
const BIN: &[&str] = &["-", "+", "*", "!=", "mod", "×", "x", "%", "**", "c5", "@"];
const FUN: &[&str] = &["f", "sin", "c2", "v3", "f5", "*", ")", "~~"];
const VAR: &[&str] = &["y", "yy", "v1", "v2", "v3", "v4", ",", "é"];
const CON: &[&str] = &["PI", "k", "v1", "c2", "c5", "(", "77"];
impl Cx {
    fn new(complex: bool) -> Cx {
        let o = |n: &&'static str, p: bool| O(n, p);
        Cx {
            config: Config::default().with_complex_number(complex),
            un: PRE.iter().map(|n| (*n, Rc::new(o(n, true)) as Rc<dyn UnaryFunction<Sym>>)).chain(POST.iter().map(|n| (*n, Rc::new(o(n, false)) as Rc<dyn UnaryFunction<Sym>>))).collect(),
            bin: BIN.iter().map(|n| (*n, Rc::new(o(n, true)) as Rc<dyn BinaryFunction<Sym>>)).collect(),
            fun: FUN.iter().map(|n| (*n, Rc::new(o(n, true)) as Rc<dyn Function<Sym>>)).collect(),
            var: VAR.iter().map(|n| (*n, Sym("v".into()))).collect(),
            con: CON.iter().map(|n| (*n, Sym("c".into()))).collect(),
        }
    }
    fn simple(complex: bool) -> Cx {
        let mut c = Cx::new(complex);
        c.fun.retain(|f| f.0 != "*" && f.0 != ")"); c.var.retain(|v| v.0 != ","); c.con.retain(|v| v.0 != "(");
        c
    }
}
fn no<T>() -> prexel::Result<T> { Err(Error::from(ErrorKind::Unknown)) }
impl Context<'static, Sym> for Cx {
    fn config(&self) -> &Config { &self.config }
    fn add_function<F: Function<Sym> + 'static>(&mut self, _: F) -> prexel::Result<()> { no() }
    fn add_unary_function<F: UnaryFunction<Sym> + 'static>(&mut self, _: F) -> prexel::Result<()> { no() }
    fn add_binary_function<F: BinaryFunction<Sym> + 'static>(&mut self, _: F) -> prexel::Result<()> { no() }
    fn add_constant(&mut self, _: &str, _: Sym) -> prexel::Result<()> { no() }
    fn set_variable(&mut self, _: &str, _: Sym) -> prexel::Result<Option<Sym>> { no() }
    fn get_variable(&self, n: &str) -> Option<&Sym> { self.var.iter().find(|x| x.0 == n).map(|x| &x.1) }
    fn get_constant(&self, n: &str) -> Option<&Sym> { self.con.iter().find(|x| x.0 == n).map(|x| &x.1) }
    fn get_function(&self, n: &str) -> Option<&Rc<dyn Function<Sym> + 'static>> { self.fun.iter().find(|x| x.0 == n).map(|x| &x.1) }
    fn get_unary_function(&self, n: &str) -> Option<&Rc<dyn UnaryFunction<Sym> + 'static>> { self.un.iter().find(|x| x.0 == n).map(|x| &x.1) }
    fn get_binary_function(&self, n: &str) -> Option<&Rc<dyn BinaryFunction<Sym> + 'static>> { self.bin.iter().find(|x| x.0 == n).map(|x| &x.1) }
}

/// the classification rule; Err for a rejected text
fn reference<'a, N: FromStr + Debug, C: Context<'a, N>>(cx: &C, p: &[String]) -> Result<Vec<String>, ()> {
    let num = |s: &str| N::from_str(s).ok();
    let operand = |s: &str| num(s).is_some() || cx.get_variable(s).is_some() || cx.get_constant(s).is_some();
    let one = |s: &str| { let mut i = s.chars(); match (i.next(), i.next()) { (Some(c), None) => Some(c), _ => None } };
    let closing = |s: &str| matches!(one(s), Some(')') | Some(']') | Some('}'));
    let is_op = |s: &str| cx.get_unary_function(s).is_some() || cx.get_binary_function(s).is_some();
    let postfix_only = |s: &str| cx.get_unary_function(s).map_or(false, |u| u.notation() == Notation::Postfix) && cx.get_binary_function(s).is_none();
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        let s = &p[i];
        let prev = if i > 0 { Some(p[i - 1].as_str()) } else { None };
        let last = i + 1 == p.len();
        if let Some(n) = num(s) {
            if cx.config().complex_number && !last && p[i + 1] == "i" {
                out.push(format!("N {:?}", num(&format!("{}i", s)).ok_or(())?)); i += 1;
            } else { out.push(format!("N {:?}", n)) }
        }
        else if cx.get_variable(s).is_some() { out.push(format!("V {}", s)) }
        else if cx.get_constant(s).is_some() { out.push(format!("C {}", s)) }
        else if cx.get_function(s).is_some() { out.push(format!("F {}", s)) }
        else if is_op(s) {
            let unary = match cx.get_unary_function(s).map(|u| u.notation()) {
                None => false,
                Some(Notation::Postfix) => prev.map_or(false, |q| closing(q) || operand(q)),
                Some(Notation::Prefix) => !last && match prev {
                    None => true,
                    Some(q) => !closing(q) && !operand(q) && !postfix_only(q) && (is_op(q) || one(q).map_or(true, |c| c.is_ascii_punctuation())),
                },
            };
            if unary { out.push(format!("U {}", s)) }
            else if last || prev.is_none() { return Err(()) }
            else { out.push(format!("B {}", s)) }
        }
        else if s == "," { out.push(",".into()) }
        else if s == " " { }
        else { match one(s) {
            Some(c @ ('(' | '[' | '{')) => out.push(format!("O {}", c)),
            Some(c @ (')' | ']' | '}')) => out.push(format!("K {}", c)),
            _ => out.push(format!("? {}", s)),
        } }
        i += 1;
    }
    Ok(out)
}
fn show<N: Debug>(t: &Token<N>) -> String {
    match t {
        Token::Number(n) => format!("N {:?}", n), Token::Variable(s) => format!("V {}", s), Token::Constant(s) => format!("C {}", s), Token::Function(s) => format!("F {}", s),
        Token::UnaryOperator(s) => format!("U {}", s), Token::BinaryOperator(s) => format!("B {}", s), Token::Comma => ",".into(),
        Token::GroupingOpen(c) => format!("O {}", c), Token::GroupingClose(c) => format!("K {}", c), Token::Unknown(s) => format!("? {}", s), Token::ArgCount(n) => format!("A {}", n),
    }
}
fn cmp<'a, N: FromStr + Debug + 'a, C: Context<'a, N>>(cx: &C, p: &[String], text: &str, got: prexel::Result<Vec<Token<N>>>) -> Result<(), String> {
    let blank = text.chars().all(|c| c.is_whitespace());
    let want = if blank { Err(()) } else { reference(cx, p) };
    let got = got.map(|t| t.iter().map(show).collect::<Vec<_>>());
    match (&want, &got) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("{:?} (pieces {:?}) becomes {:?}, expected {:?}", text, p, got.map_err(|_| "error"), want.map_err(|_| "error"))),
    }
}
fn in_cx<'a, N: FromStr + Debug + 'a, C: Context<'a, N> + 'a>(cx: C, mode: &str, body: &str, binary: bool) -> Result<(), String> {
    if mode == "p" {
        let p: Vec<String> = body.split('/').filter(|x| !x.is_empty()).map(dec).collect();
        let t: Tokenizer<N, C, Pieces> = Tokenizer::with_splitter(Pieces(p.clone()));
        cmp(&cx, &p, "pieces", t.tokenize(&cx, "pieces"))
    } else {
        let text = dec(body);
        let p = if binary { binary_number_splitter().split_into_tokens(&text) } else { DefaultSplitter::default().split_into_tokens(&text) };
        if binary { let t: Tokenizer<N, C> = Tokenizer::with_splitter(binary_number_splitter()); cmp(&cx, &p, &text, t.tokenize(&cx, &text)) }
        else { let t: Tokenizer<N, C> = Tokenizer::new(); cmp(&cx, &p, &text, t.tokenize(&cx, &text)) }
    }
}
pub fn check(input: &str) -> Result<(), String> {
    let mut it = input.splitn(3, ':');
    let (k, mode, body) = (it.next().unwrap_or("0"), it.next().unwrap_or("t"), it.next().unwrap_or(""));
    match k {
        "0" => in_cx::<Sym, _>(Cx::simple(false), mode, body, false),
        "1" => in_cx::<Sym, _>(Cx::new(true), mode, body, false),
        "2" => in_cx::<f64, _>(DefaultContext::new_unchecked(), mode, body, false),
        "3" => in_cx::<i64, _>({ let mut c = DefaultContext::new_checked(); c.set_variable("y", 2i64).unwrap(); c }, mode, body, false),
        "4" => in_cx::<Complex<f64>, _>(DefaultContext::new_complex(), mode, body, false),
        "5" => in_cx::<Binary, _>(DefaultContext::new_binary(), mode, body, true),
        _ => in_cx::<Decimal, _>(DefaultContext::new_decimal(), mode, body, false),
    }
}
pub fn search(s: &mut S) {
    const W: &[&str] = &["1", "23", "i", "-", "+", "~", "not", "--", "!", "!!", "!=", "%", "*", "mod", "x", "×", "√", "f", "sin", "y", "PI", "(", ")", "[", "}", ",", " ", "q", "foo", "#", "n", "p",
        "v1", "v2", "v3", "v4", "c2", "c5", "f5", "~~", "77", "k", "°", "é", "@", "2.5", "deg", "'", "$$", "本", "", "  ", "i2", "1i", "I"];
    for a in W { for b in W { for k in 0..2 {
        let p = [*a, *b];
        if !s.test(format!("{}:p:{}", k, p.iter().map(|x| enc(x)).collect::<Vec<_>>().join("/"))) { return }
        for c in W {
            if !s.test(format!("{}:p:{}", k, [*a, *b, *c].iter().map(|x| enc(x)).collect::<Vec<_>>().join("/"))) { return }
        }
    } } if !s.go() { return } }
    s.count("all_triples_of_pieces", (W.len() * W.len() * W.len()) as u64);
    const R: &[&str] = &["1", "2.5", "10", "i", "-", "+", "*", "/", "^", "mod", "!", "not", "and", "b101", "b12", "x", "y", "PI", "e", "sin", "max", "(", ")", "[", "]", "{", "}", ",", " ", "<<", ">=", "==", "é", "$", "\u{a0}", "1.5.2", "++", "Sin", "pi", "K"];
    while s.go() {
        let t = match s.rng.below(4) {
            0 => random_text(&mut s.rng, 30),
            _ => { let n = s.rng.below(14); let mut t = String::new(); for _ in 0..n { let p = *s.rng.pick(if s.rng.0 & 1 == 0 { R } else { W }); t.push_str(p); if s.rng.chance(1, 4) { t.push(' ') } } t }
        };
        let k = s.rng.below(7);
        if !s.test(format!("{}:t:{}", k, enc(&t))) { return }
        s.count("random_texts", 1);
        let n = s.rng.below(9);
        let p: Vec<String> = (0..n).map(|_| enc(*s.rng.pick(W))).collect();
        let k = s.rng.below(7);
        if !s.test(format!("{}:p:{}", k, p.join("/"))) { return }
        s.count("random_piece_sequences", 1);
    }
}
