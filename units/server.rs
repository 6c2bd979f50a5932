// Verus unit: prexel-server/src/models/mod.rs, services/evaluator.rs and the eval endpoint (C16).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {

//@ rewrite . to_string ( ) ==> . v_text ( )
//@ rewrite format ! ( "{}" , $a ) ==> $a . v_text ( )
//@ rewrite crate::Result ==> Result

// ---------------------------------------------------------------- texts
/// std::fmt::Display, as far as to_string() is concerned: a text determined by the value
pub trait VText { spec fn text(&self) -> Seq<char>; fn v_text(&self) -> (r: String) ensures r@ == self.text(); }
impl VText for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl VText for &str { open spec fn text(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl VText for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
//@ repeat T | f64 | i128
impl VText for @T@ { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
//@ endrepeat
//@ repeat T | Decimal | Complex | Binary0 | ParseErr | Error
#[verifier::external_body]
pub struct @T@ { _p: () }
impl VText for @T@ { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
//@ endrepeat
//@ extract prexel/src/binary/mod.rs | struct Binary
//@ end
impl VText for Binary { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }

// ---------------------------------------------------------------- the server's data
//@ extract prexel-server/src/models/mod.rs | type EvalResult
//@ end
//@ extract prexel-server/src/models/mod.rs | enum Variable
//@ end
#[derive(Clone, Copy)]
//@ extract prexel-server/src/models/mod.rs | enum NumberType
//@ end
/// std's HashMap<String, Variable> with its iteration order
#[verifier::external_body]
pub struct VarMap { _p: () }
impl VarMap {
    pub uninterp spec fn order(&self) -> Seq<(Seq<char>, Variable)>;
    #[verifier::external_body]
    pub fn v_entries<'t>(&'t self) -> (r: Vec<(&'t String, &'t Variable)>)
        ensures r@.len() == self.order().len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self.order()[i] == (r@[i].0@, *r@[i].1),
    { unimplemented!() }
}
//@ extract prexel-server/src/models/mod.rs | struct EvalExpression
//@ rewrite HashMap < String , Variable > ==> VarMap
//@ end
//@ extract prexel-server/src/models/mod.rs | struct EvaluatedExpression
//@ end
impl EvaluatedExpression {
    pub closed spec fn sres(&self) -> Option<Seq<char>> { match self.result { Some(t) => Some(t@), None => None } }
    pub closed spec fn serr(&self) -> Option<Seq<char>> { match self.error { Some(t) => Some(t@), None => None } }
    /// exactly one of result and error, and it is the outcome
    pub open spec fn carries(&self, o: Outcome) -> bool {
        match o { Ok(t) => self.sres() == Some(t) && self.serr() is None, Err(t) => self.serr() == Some(t) && self.sres() is None }
    }
//@ extract prexel-server/src/models/mod.rs | impl EvaluatedExpression / fn with_error
//@ ret r
//@ spec
        ensures r.carries(Err(error@)),
//@ end
//@ extract prexel-server/src/models/mod.rs | impl From<EvalResult> for EvaluatedExpression / fn from
//@ ret r
//@ spec
        ensures r.carries(out_of(result)),
//@ end
}
impl VText for Variable { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }

/// the outcome of an evaluation: the text of the value, or of the error
pub type Outcome = Result<Seq<char>, Seq<char>>;
pub open spec fn out_of(r: EvalResult) -> Outcome { match r { Ok(t) => Ok(t@), Err(t) => Err(t@) } }

// ---------------------------------------------------------------- the evaluator library, as symbols per number type
pub trait VNumber: Sized + VText { spec fn s_parse(s: Seq<char>) -> Result<Self, ParseErr>; }
//@ repeat T N | Decimal decimal | f64 f64 | i128 i128 | Complex complex
impl VNumber for @T@ { uninterp spec fn s_parse(s: Seq<char>) -> Result<@T@, ParseErr>; }
#[verifier::external_body]
pub fn v_parse_@N@(s: &str) -> (r: Result<@T@, ParseErr>) ensures r == <@T@ as VNumber>::s_parse(s@) { unimplemented!() }
//@ endrepeat
impl VNumber for Binary { open spec fn s_parse(s: Seq<char>) -> Result<Binary, ParseErr> { match <i128 as VNumber>::s_parse(s) { Ok(v) => Ok(Binary(v)), Err(e) => Err(e) } } }

#[derive(Clone, Copy)]
pub enum Grouping { Parenthesis, Bracket, Brace }
#[verifier::external_body]
pub struct Config { _p: () }
pub uninterp spec fn s_config() -> Config;
#[verifier::external_body]
pub fn v_config() -> (r: Config) ensures r == s_config() { unimplemented!() }
impl Config {
    pub uninterp spec fn s_complex(self, b: bool) -> Config;
    #[verifier::external_body]
    pub fn with_complex_number(self, b: bool) -> (r: Config) ensures r == self.s_complex(b) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
pub struct DefaultContext<N> { _p: core::marker::PhantomData<N> }
pub uninterp spec fn s_built<N>(kind: int, c: Config) -> DefaultContext<N>;
impl<N> DefaultContext<N> {
    #[verifier::external_body]
    pub fn with_config_checked(c: Config) -> (r: DefaultContext<N>) ensures r == s_built::<N>(0, c) { unimplemented!() }
    /// the context after the assignment, and its outcome
    pub uninterp spec fn s_set(self, name: Seq<char>, v: N) -> (DefaultContext<N>, Result<Option<N>, Error>);
    #[verifier::external_body]
    pub fn set_variable(&mut self, name: &str, v: N) -> (r: Result<Option<N>, Error>)
        ensures (*final(self), r) == old(self).s_set(name@, v),
    { unimplemented!() }
}
//@ repeat T F K | Decimal with_config_decimal 1 | Complex with_config_complex 2 | Binary with_config_binary 3
impl DefaultContext<@T@> {
    #[verifier::external_body]
    pub fn @F@(c: Config) -> (r: DefaultContext<@T@>) ensures r == s_built::<@T@>(@K@, c) { unimplemented!() }
}
//@ endrepeat
#[verifier::external_body]
pub struct DefaultSplitter { _p: () }
pub uninterp spec fn s_binary_splitter() -> DefaultSplitter;
#[verifier::external_body]
pub fn binary_number_splitter() -> (r: DefaultSplitter) ensures r == s_binary_splitter() { unimplemented!() }
#[verifier::external_body]
pub struct Tokenizer { _p: () }
impl Tokenizer {
    pub uninterp spec fn s_with(s: DefaultSplitter) -> Tokenizer;
    pub uninterp spec fn s_default() -> Tokenizer;
    #[verifier::external_body]
    pub fn with_splitter(s: DefaultSplitter) -> (r: Tokenizer) ensures r == Tokenizer::s_with(s) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
pub struct Evaluator<N> { _p: core::marker::PhantomData<N> }
/// what the evaluator library makes of a text, for a number type, a context and a tokenizer
pub uninterp spec fn s_eval<N>(c: DefaultContext<N>, t: Tokenizer, text: Seq<char>) -> Result<N, Error>;
impl<N> Evaluator<N> {
    pub uninterp spec fn ctx(&self) -> DefaultContext<N>;
    pub uninterp spec fn tok(&self) -> Tokenizer;
    #[verifier::external_body]
    pub fn with_context(c: DefaultContext<N>) -> (r: Evaluator<N>) ensures r.ctx() == c, r.tok() == Tokenizer::s_default() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_context_and_tokenizer(c: DefaultContext<N>, t: Tokenizer) -> (r: Evaluator<N>) ensures r.ctx() == c, r.tok() == t { unimplemented!() }
    #[verifier::external_body]
    pub fn eval(&self, s: &str) -> (r: Result<N, Error>) ensures r == s_eval::<N>(self.ctx(), self.tok(), s@) { unimplemented!() }
}

// ---------------------------------------------------------------- what a request evaluates to
/// the context after the first `k` variables, or the text of the first error
pub open spec fn s_vars<N: VNumber>(c: DefaultContext<N>, es: Seq<(Seq<char>, Variable)>, k: int) -> Result<DefaultContext<N>, Seq<char>>
    decreases k
{
    if k <= 0 { Ok(c) } else {
        match s_vars::<N>(c, es, k - 1) {
            Err(e) => Err(e),
            Ok(d) => match N::s_parse(es[k - 1].1.text()) {
                Err(e) => Err(e.text()),
                Ok(v) => match d.s_set(es[k - 1].0, v).1 { Err(e) => Err(e.text()), Ok(_) => Ok(d.s_set(es[k - 1].0, v).0) },
            },
        }
    }
}
pub proof fn lemma_vars_err<N: VNumber>(c: DefaultContext<N>, es: Seq<(Seq<char>, Variable)>, k: int, n: int)
    requires 0 <= k <= n, s_vars::<N>(c, es, k) is Err,
    ensures s_vars::<N>(c, es, n) == s_vars::<N>(c, es, k),
    decreases n,
{ if k < n { lemma_vars_err::<N>(c, es, k, n - 1); } }
/// the outcome in number type N
pub open spec fn s_outcome<N: VNumber>(c: DefaultContext<N>, t: Tokenizer, e: EvalExpression) -> Outcome {
    match (match e.variables { Some(m) => s_vars::<N>(c, m.order(), m.order().len() as int), None => Ok(c) }) {
        Err(x) => Err(x),
        Ok(d) => match s_eval::<N>(d, t, e.expression@) { Ok(v) => Ok(v.text()), Err(x) => Err(x.text()) },
    }
}
pub open spec fn s_evaluated(e: EvalExpression) -> Outcome {
    match (match e.v_raw_type { Some(t) => t, None => NumberType::Decimal }) {
        NumberType::Decimal => s_outcome::<Decimal>(s_built(1, s_config()), Tokenizer::s_default(), e),
        NumberType::Float => s_outcome::<f64>(s_built(0, s_config()), Tokenizer::s_default(), e),
        NumberType::Integer => s_outcome::<i128>(s_built(0, s_config()), Tokenizer::s_default(), e),
        NumberType::Complex => s_outcome::<Complex>(s_built(2, s_config().s_complex(true)), Tokenizer::s_default(), e),
        NumberType::Binary => s_outcome::<Binary>(s_built(3, s_config()), Tokenizer::s_with(s_binary_splitter()), e),
    }
}

// ---------------------------------------------------------------- services/evaluator.rs
//@ repeat F T K C TK | eval_decimal_expression Decimal 1 s_config() Tokenizer::s_default() | eval_float_expression f64 0 s_config() Tokenizer::s_default() | eval_complex_expression Complex 2 s_config().s_complex(true) Tokenizer::s_default() | eval_integer_expression i128 0 s_config() Tokenizer::s_default() | eval_binary_expression Binary 3 s_config() Tokenizer::s_with(s_binary_splitter())
//@ extract prexel-server/src/services/evaluator.rs | fn @F@
//@ rewrite CONFIG . clone ( ) ==> v_config ( )
//@ rewrite Decimal :: from_str ( $$a ) ==> v_parse_decimal ( $$a )
//@ rewrite f64 :: from_str ( $$a ) ==> v_parse_f64 ( $$a )
//@ rewrite i128 :: from_str ( $$a ) ==> v_parse_i128 ( $$a )
//@ rewrite complex :: Complex :: < f64 > :: from_str ( $$a ) ==> v_parse_complex ( $$a )
//@ rewrite for ( $a , $b ) in variables { ==> let v_es = variables . v_entries ( ) ; let mut v_i : usize = 0 ; while v_i < v_es . len ( ) { let ( $a , $b ) = v_es [ v_i ] ; v_i += 1 ;
//@ rewrite method map_err
//@ ret r
//@ spec
        ensures out_of(r) == s_outcome::<@T@>(s_built::<@T@>(@K@, @C@), @TK@, expression),
//@ loop 0
        invariant
            0 <= v_i <= v_es@.len(), expression.variables == Some(*variables), v_es@.len() == variables.order().len(),
            forall|i: int| #![trigger v_es@[i]] 0 <= i < v_es@.len() ==> variables.order()[i] == (v_es@[i].0@, *v_es@[i].1),
            s_vars::<@T@>(s_built::<@T@>(@K@, @C@), variables.order(), v_i as int) == Ok::<DefaultContext<@T@>, Seq<char>>(context),
        decreases v_es@.len() - v_i,
//@ loop 0 start
        proof {
            let es = variables.order(); let c0 = s_built::<@T@>(@K@, @C@);
            assert(es[v_i as int] == (v_es@[v_i as int].0@, *v_es@[v_i as int].1));
            if s_vars::<@T@>(c0, es, v_i + 1) is Err { lemma_vars_err::<@T@>(c0, es, v_i + 1, es.len() as int); }
        }
//@ end
//@ endrepeat
//@ extract prexel-server/src/services/evaluator.rs | fn eval_expression
//@ ret r
//@ spec
        ensures out_of(r) == s_evaluated(expression),
//@ end

// ---------------------------------------------------------------- endpoints/mod.rs: what is sent for an evaluation
#[verifier::external_body]
pub struct HttpRequest { _p: () }
#[verifier::external_body]
pub struct Bytes { _p: () }
#[verifier::external_body]
pub struct Deserializer { _p: () }
#[verifier::external_body]
pub struct PathError { _p: () }
impl PathError {
    #[verifier::external_body]
    pub fn v_path(&self) -> String { unimplemented!() }
}
pub uninterp spec fn s_only(r: HttpRequest) -> bool;
pub uninterp spec fn s_utf8(b: Bytes) -> Option<Seq<char>>;
pub uninterp spec fn s_request(text: Seq<char>) -> Option<EvalExpression>;
impl Deserializer {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn v_from_str(s: &str) -> (r: Deserializer) ensures r.text() == s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn v_deserialize(d: &mut Deserializer) -> (r: Result<EvalExpression, PathError>)
    ensures r == match s_request(old(d).text()) { Some(e) => Ok::<EvalExpression, PathError>(e), None => Err(r->Err_0) },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_utf8(b: Bytes) -> (r: Result<String, ()>)
    ensures r is Ok <==> s_utf8(b) is Some, r matches Ok(s) ==> Some(s@) == s_utf8(b),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_only_result(r: &HttpRequest) -> (b: bool) ensures b == s_only(*r) { unimplemented!() }
#[verifier::external_body]
pub fn v_string() -> String { unimplemented!() }
pub enum Body { Json(EvaluatedExpression), Text(Seq<char>) }
#[verifier::external_body]
pub struct HttpResponse { _p: () }
pub struct Builder { pub status: Ghost<int> }
impl HttpResponse {
    pub uninterp spec fn status(&self) -> int;
    pub uninterp spec fn sbody(&self) -> Body;
    pub fn Ok() -> (r: Builder) ensures r.status@ == 200 { Builder { status: Ghost(200) } }
    pub fn BadRequest() -> (r: Builder) ensures r.status@ == 400 { Builder { status: Ghost(400) } }
}
impl Builder {
    #[verifier::external_body]
    pub fn json(self, v: EvaluatedExpression) -> (r: HttpResponse) ensures r.status() == self.status@, r.sbody() == Body::Json(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn body(self, t: String) -> (r: HttpResponse) ensures r.status() == self.status@, r.sbody() == Body::Text(t@) { unimplemented!() }
}
pub type ApiResponse = Result<HttpResponse, HttpResponse>;
/// what the response must carry for an outcome
pub open spec fn carried(h: HttpResponse, o: Outcome, only: bool) -> bool {
    match h.sbody() { Body::Json(e) => e.carries(o) && !(only && o is Ok), Body::Text(t) => only && o == Ok::<Seq<char>, Seq<char>>(t) }
}
//@ extract prexel-server/src/endpoints/mod.rs | fn eval
//@ rewrite pub async fn ==> pub fn
//@ rewrite web :: Bytes ==> Bytes
//@ rewrite String :: from_utf8 ( body . to_vec ( ) ) ==> v_utf8 ( body )
//@ rewrite & mut serde_json :: Deserializer :: from_str ( $$a ) ==> & mut Deserializer :: v_from_str ( $$a )
//@ rewrite serde_path_to_error :: deserialize ( $$a ) ==> v_deserialize ( $$a )
//@ rewrite err . path ( ) ==> err . v_path ( )
//@ rewrite match path . as_str ( ) { $$a } ==> v_string ( )
//@ rewrite services :: eval_expression ==> eval_expression
//@ rewrite let query = Query :: < EvalParams > :: from_query ( req . query_string ( ) ) . ok ( ) ; ==>
//@ rewrite query . and_then ( | q | q . only_result ) . unwrap_or ( false ) ==> v_only_result ( & req )
//@ ret r
//@ spec
        ensures
            match (match s_utf8(body) { Some(t) => s_request(t), None => None }) {
                Some(e) => r matches Ok(h) && h.status() == 200 && carried(h, s_evaluated(e), s_only(req)),
                None => r matches Ok(h) && h.status() == 400 && (h.sbody() matches Body::Json(x) && x.sres() is None && x.serr() is Some),
            },
//@ end

/// C16 over the contracts: exactly one of result and error, with the outcome's text
pub fn theorem_c16(e: EvalExpression)
{
    let r = eval_expression(e);
    let x = EvaluatedExpression::from(r);
    assert((x.sres() is Some) != (x.serr() is Some));
    assert(x.sres() is Some <==> s_evaluated(e) is Ok);
    assert(e.v_raw_type is None ==> s_evaluated(e) == s_evaluated(EvalExpression { v_raw_type: Some(NumberType::Decimal), ..e }));
}
fn main() {}
} // verus!
