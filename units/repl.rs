// Verus unit: the command line app (C22): eval/src/main.rs, eval_expr.rs, repl/mod.rs, repl/repl.rs.
#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use std::collections::HashSet;
use std::ops::{ControlFlow, Index};
verus! {
//@ include splitter.inc

// ---------------------------------------------------------------- std (trusted)
pub assume_specification<T, A: core::alloc::Allocator>[Vec::<T, A>::capacity](v: &Vec<T, A>) -> (r: usize) ensures r >= v@.len();
/// `str::trim`
pub open spec fn s_trim(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s_ws(s[0]) { s_trim(s.drop_first()) } else if s_ws(s.last()) { s_trim(s.drop_last()) } else { s }
}
/// `str::split(c)`: the texts between the occurrences of c
pub open spec fn s_split_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![s] } else {
        let r = s_split_at(s.drop_last(), c);
        if s.last() == c { r.push(Seq::empty()) } else { r.update(r.len() - 1, r.last().push(s.last())) }
    }
}
#[verifier::external_body]
pub fn v_trim(s: &str) -> (r: &str) ensures r@ == s_trim(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_split_trim(s: &str, c: char) -> (r: Vec<String>)
    ensures r@.len() == s_split_at(s@, c).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == s_trim(s_split_at(s@, c)[k]),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_pop(s: &mut String) -> (r: Option<char>) ensures final(s)@ == (if old(s)@.len() > 0 { old(s)@.drop_last() } else { old(s)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn v_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn v_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn v_clear(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn v_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
/// `buf.drain(..).collect::<String>()`
#[verifier::external_body]
pub fn v_take(s: &mut String) -> (r: String) ensures r@ == old(s)@, final(s)@ == Seq::<char>::empty() { unimplemented!() }

// ---------------------------------------------------------------- number types, contexts and the evaluator, by their contracts
pub trait Num: Sized {}
#[verifier::external_body] pub struct Error { _p: () }
#[verifier::external_body] #[verifier::accept_recursive_types(N)] pub struct ParseError<N> { _p: core::marker::PhantomData<N> }
/// `N::from_str`: the result is determined by the text
pub uninterp spec fn s_parse<N>(s: Seq<char>) -> Option<N>;
#[verifier::external_body]
pub fn v_parse<N>(s: &str) -> (r: core::result::Result<N, ParseError<N>>)
    ensures match r { Ok(v) => s_parse::<N>(s@) == Some(v), Err(_) => s_parse::<N>(s@) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_zero<N>() -> (r: N) ensures r == s_zero::<N>() { unimplemented!() }
pub uninterp spec fn s_zero<N>() -> N;
/// what a context and a tokenizer are made of, variables aside
pub enum Kind { Decimal, Checked, Unchecked, Complex, Binary }
#[verifier::external_body] pub struct Config { _p: () }
impl Config {
    pub uninterp spec fn implicit(&self) -> bool;
    pub uninterp spec fn complex(&self) -> bool;
    #[verifier::external_body]
    pub fn with_complex_number(self, b: bool) -> (r: Config) ensures r.implicit() == self.implicit(), r.complex() == b { unimplemented!() }
    #[verifier::external_body]
    pub fn with_implicit_mul(self, b: bool) -> (r: Config) ensures r.complex() == self.complex(), r.implicit() == b { unimplemented!() }
}
impl Config {
    #[verifier::external_body]
    pub fn new() -> (r: Config) ensures !r.implicit(), !r.complex() { unimplemented!() }
}
/// the app's configuration: multiplication may be implicit
pub open spec fn s_config(c: Config) -> bool { c.implicit() && !c.complex() }
pub struct Mutex;
impl Mutex { pub fn new(c: Config) -> (r: Config) ensures r == c { c } }
/// what CONFIG starts with; nothing else writes it
//@ extract eval/src/eval_expr.rs | static CONFIG / closure Lazy::new
//@ hdr fn v_config_init() -> Config
//@ ret r
//@ spec
    ensures s_config(r)
//@ end
#[verifier::external_body]
pub fn v_config() -> (r: Config) ensures s_config(r) { unimplemented!() }
pub struct Base { pub kind: Kind, pub implicit: bool, pub complex: bool }
pub open spec fn base_of(kind: Kind, c: Config) -> Base { Base { kind, implicit: c.implicit(), complex: c.complex() } }
/// a variable's key: the name, letter case aside (C06)
pub uninterp spec fn s_key(name: Seq<char>) -> Seq<char>;
pub type Vars<N> = Map<Seq<char>, N>;
#[verifier::external_body] #[verifier::accept_recursive_types(N)]
pub struct DefaultContext<'a, N> { _p: core::marker::PhantomData<&'a N> }
#[verifier::external_body] pub struct Decimal { _p: () }
#[verifier::external_body] #[verifier::accept_recursive_types(N)] pub struct Complex<N> { _p: core::marker::PhantomData<N> }
#[verifier::external_body] pub struct Binary { _p: () }
pub open spec fn s_can_set(b: Base, name: Seq<char>) -> bool { s_valid_name(name) && !s_taken(b, s_key(name)) }
/// C07: the name is a variable name, and it is not taken by something other than a variable
pub uninterp spec fn s_valid_name(name: Seq<char>) -> bool;
pub uninterp spec fn s_taken(b: Base, key: Seq<char>) -> bool;
impl<'a, N> DefaultContext<'a, N> {
    pub uninterp spec fn base(&self) -> Base;
    pub uninterp spec fn vars(&self) -> Vars<N>;
    /// C07's contract of set_variable
    #[verifier::external_body]
    pub fn set_variable(&mut self, name: &str, value: N) -> (r: core::result::Result<Option<N>, Error>)
        ensures final(self).base() == old(self).base(), r is Ok <==> s_can_set(old(self).base(), name@),
            final(self).vars() == (if r is Ok { old(self).vars().insert(s_key(name@), value) } else { old(self).vars() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_config_unchecked(c: Config) -> (r: DefaultContext<'a, N>) ensures r.base() == base_of(Kind::Unchecked, c), r.vars() == Map::<Seq<char>, N>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_config_checked(c: Config) -> (r: DefaultContext<'a, N>) ensures r.base() == base_of(Kind::Checked, c), r.vars() == Map::<Seq<char>, N>::empty() { unimplemented!() }
}
impl<'a> DefaultContext<'a, Decimal> {
    #[verifier::external_body]
    pub fn with_config_decimal(c: Config) -> (r: DefaultContext<'a, Decimal>) ensures r.base() == base_of(Kind::Decimal, c), r.vars() == Map::<Seq<char>, Decimal>::empty() { unimplemented!() }
}
impl<'a> DefaultContext<'a, Complex<f64>> {
    #[verifier::external_body]
    pub fn with_config_complex(c: Config) -> (r: DefaultContext<'a, Complex<f64>>) ensures r.base() == base_of(Kind::Complex, c), r.vars() == Map::<Seq<char>, Complex<f64>>::empty() { unimplemented!() }
}
impl<'a> DefaultContext<'a, Binary> {
    #[verifier::external_body]
    pub fn with_config_binary(c: Config) -> (r: DefaultContext<'a, Binary>) ensures r.base() == base_of(Kind::Binary, c), r.vars() == Map::<Seq<char>, Binary>::empty() { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(N)]
pub struct Tokenizer<'a, N> { _p: core::marker::PhantomData<&'a N> }
/// how the rules split a text
pub open spec fn splitf<'a>(rules: Seq<Box<dyn SplitRule + 'a>>) -> spec_fn(Seq<char>) -> Seq<Seq<char>> { |t: Seq<char>| pieces(rules, t) }
impl<'a, N> Tokenizer<'a, N> {
    pub uninterp spec fn rules(&self) -> Seq<Box<dyn SplitRule + 'a>>;
    /// how the tokenizer splits a text
    pub uninterp spec fn split(&self) -> spec_fn(Seq<char>) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn with_splitter(s: DefaultSplitter<'a>) -> (r: Tokenizer<'a, N>)
        requires cont_ok(s.rules@),
        ensures r.split() == splitf(s.rules@), r.rules() == s.rules@,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_binary_number_splitter<'a>() -> (r: DefaultSplitter<'a>) ensures cont_ok(r.rules@), splitf(r.rules@) == lib_split(true) { unimplemented!() }
/// the splitting of the library's default tokenizer, and of the one for binary numbers (C04)
pub uninterp spec fn s_lib_split(binary: bool, t: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn lib_split(binary: bool) -> spec_fn(Seq<char>) -> Seq<Seq<char>> { |t: Seq<char>| s_lib_split(binary, t) }
/// the library's value of a text, split this way, in this context (C01, C03, C05); None for an error
pub uninterp spec fn s_eval<N>(b: Base, vars: Vars<N>, split: spec_fn(Seq<char>) -> Seq<Seq<char>>, text: Seq<char>) -> Option<N>;
#[verifier::external_body] #[verifier::accept_recursive_types(N)]
pub struct Evaluator<'a, N> { _p: core::marker::PhantomData<&'a N> }
impl<'a, N> Evaluator<'a, N> {
    pub uninterp spec fn base(&self) -> Base;
    pub uninterp spec fn vars(&self) -> Vars<N>;
    pub uninterp spec fn split(&self) -> spec_fn(Seq<char>) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn with_context(c: DefaultContext<'a, N>) -> (r: Evaluator<'a, N>) ensures r.base() == c.base(), r.vars() == c.vars(), r.split() == lib_split(false) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_context_and_tokenizer(c: DefaultContext<'a, N>, t: Tokenizer<'a, N>) -> (r: Evaluator<'a, N>) ensures r.base() == c.base(), r.vars() == c.vars(), r.split() == t.split() { unimplemented!() }
    #[verifier::external_body]
    pub fn eval(&self, text: &str) -> (r: core::result::Result<N, Error>)
        ensures match r { Ok(v) => s_eval(self.base(), self.vars(), self.split(), text@) == Some(v), Err(_) => s_eval(self.base(), self.vars(), self.split(), text@) is None }
    { unimplemented!() }
    /// `self.mut_context().set_variable(name, value)`
    #[verifier::external_body]
    pub fn v_set_variable(&mut self, name: &str, value: N) -> (r: core::result::Result<Option<N>, Error>)
        ensures final(self).base() == old(self).base(), final(self).split() == old(self).split(), r is Ok <==> s_can_set(old(self).base(), name@),
            final(self).vars() == (if r is Ok { old(self).vars().insert(s_key(name@), value) } else { old(self).vars() }),
    { unimplemented!() }
}
/// `result.map(|v| v.to_string())`
pub uninterp spec fn s_text<N>(v: N) -> Seq<char>;
#[verifier::external_body]
pub fn v_text<N>(r: core::result::Result<N, Error>) -> (q: core::result::Result<String, Error>)
    ensures match r { Ok(v) => (q matches Ok(t) && t@ == s_text(v)), Err(_) => q is Err }
{ unimplemented!() }

// ---------------------------------------------------------------- the number types
//@ extract eval/src/main.rs | enum EvalType
//@ end
/// the derived ones
impl Clone for EvalType { #[verifier::external_body] fn clone(&self) -> (r: EvalType) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for EvalType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &EvalType) -> bool { *self == *o } }
impl PartialEq for EvalType { #[verifier::external_body] fn eq(&self, o: &EvalType) -> (r: bool) { unimplemented!() } }
pub open spec fn s_type(s: Seq<char>) -> Option<EvalType> {
    if s == "decimal"@ { Some(EvalType::Decimal) } else if s == "float"@ { Some(EvalType::Float) } else if s == "integer"@ { Some(EvalType::Integer) }
    else if s == "complex"@ { Some(EvalType::Complex) } else if s == "binary"@ { Some(EvalType::Binary) } else { None }
}
#[verifier::external_body]
pub fn v_unknown_type() -> String { unimplemented!() }
impl EvalType {
//@ extract eval/src/main.rs | impl FromStr for EvalType / fn from_str
//@ ret r
//@ rewrite Self::Err ==> String
//@ rewrite -> Result< ==> -> core::result::Result<
//@ rewrite "decimal" => ==> _ if v_eq(s, "decimal") =>
//@ rewrite "float" => ==> _ if v_eq(s, "float") =>
//@ rewrite "integer" => ==> _ if v_eq(s, "integer") =>
//@ rewrite "complex" => ==> _ if v_eq(s, "complex") =>
//@ rewrite "binary" => ==> _ if v_eq(s, "binary") =>
//@ rewrite format!($a) ==> v_unknown_type()
//@ spec
        ensures match r { Ok(t) => s_type(s@) == Some(t), Err(_) => s_type(s@) is None }
//@ start
        proof { reveal_strlit("decimal"); reveal_strlit("float"); reveal_strlit("integer"); reveal_strlit("complex"); reveal_strlit("binary");
            assert("decimal"@[0] == 'd' && "float"@[0] == 'f' && "integer"@[0] == 'i' && "complex"@[0] == 'c' && "binary"@[0] == 'b'); }
//@ end
}
pub open spec fn s_kind(t: EvalType) -> Kind {
    match t { EvalType::Decimal => Kind::Decimal, EvalType::Float => Kind::Unchecked, EvalType::Integer => Kind::Checked, EvalType::Complex => Kind::Complex, EvalType::Binary => Kind::Binary }
}
/// the context of a number type: the app's configuration, with complex numbers for the complex type
pub open spec fn s_base(t: EvalType) -> Base {
    Base { kind: s_kind(t), implicit: true, complex: t is Complex }
}

// ---------------------------------------------------------------- the eval command
pub open spec fn evals_to<N>(r: core::result::Result<String, Error>, t: EvalType, binary: bool, text: Seq<char>) -> bool {
    match s_eval::<N>(s_base(t), Map::<Seq<char>, N>::empty(), lib_split(binary), text) { Some(v) => (r matches Ok(q) && q@ == s_text(v)), None => r is Err }
}
//@ rewrite prexel::Result<String> ==> core::result::Result<String, Error>
//@ rewrite CONFIG.lock().unwrap().clone() ==> v_config()
//@ rewrite evaluator.eval($a).map(|$v| $w.to_string()) ==> v_text(evaluator.eval($a))
//@ rewrite binary_number_splitter() ==> v_binary_number_splitter()
//@ repeat FN N T B | decimal Decimal Decimal false | float f64 Float false | integer i128 Integer false | complex Complex<f64> Complex false | binary Binary Binary true
//@ extract eval/src/eval_expr.rs | fn eval_@FN@
//@ ret r
//@ spec
    ensures evals_to::<@N@>(r, EvalType::@T@, @B@, expr@)
//@ end
//@ endrepeat
//@ extract eval/src/eval_expr.rs | struct EvalExpr
//@ rewrite v_raw_type : ==> pub v_raw_type :
//@ end
impl EvalExpr {
//@ extract eval/src/eval_expr.rs | impl EvalExpr / fn new
//@ ret r
//@ spec
        ensures r.v_raw_type == v_raw_type
//@ end
    /// C22: the eval command gives the library's value in the requested number type
//@ extract eval/src/eval_expr.rs | impl EvalExpr / fn eval
//@ ret r
//@ spec
        ensures match self.v_raw_type {
            EvalType::Decimal => evals_to::<Decimal>(r, self.v_raw_type, false, expr@),
            EvalType::Float => evals_to::<f64>(r, self.v_raw_type, false, expr@),
            EvalType::Integer => evals_to::<i128>(r, self.v_raw_type, false, expr@),
            EvalType::Complex => evals_to::<Complex<f64>>(r, self.v_raw_type, false, expr@),
            EvalType::Binary => evals_to::<Binary>(r, self.v_raw_type, true, expr@),
        }
//@ end
}
//@ include repl_line.inc
//@ include repl_keys.inc
//@ include repl_app.inc
fn main() {}
} // verus!
