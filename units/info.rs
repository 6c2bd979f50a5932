// Verus unit: prexel-server/src/services/info.rs and the three listing endpoints (C25).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {

//@ rewrite . to_string ( ) ==> . v_text ( )
//@ rewrite DefaultContext < '_ , N > ==> DefaultContext < N >
//@ rewrite N : Display ==> N : VText
//@ rewrite Complex < f64 > ==> Complex

// ---------------------------------------------------------------- texts
/// std::fmt::Display, as far as to_string() is concerned: a text determined by the value
pub trait VText { spec fn text(&self) -> Seq<char>; fn v_text(&self) -> (r: String) ensures r@ == self.text(); }
impl VText for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl VText for &str { open spec fn text(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl VText for i128 { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl VText for f64 { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
//@ repeat T | Decimal | Complex | Binary | IgnoreCaseString
#[verifier::external_body]
pub struct @T@ { _p: () }
impl VText for @T@ { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
//@ endrepeat

// ---------------------------------------------------------------- the evaluator library's context, as far as listings read it
/// what a registered operator or function tells about itself
pub struct SDoc { pub aliases: Seq<Seq<char>>, pub about: Option<Seq<char>> }
#[verifier::external_body]
pub struct FnObj { _p: () }
pub open spec fn s_opt(o: Option<&str>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
#[verifier::external_body]
pub struct Aliases<'t> { _p: core::marker::PhantomData<&'t ()> }
impl FnObj {
    pub uninterp spec fn doc(&self) -> SDoc;
    #[verifier::external_body]
    pub fn description(&self) -> (r: Option<&str>) ensures s_opt(r) == self.doc().about { unimplemented!() }
    /// the aliases as owned texts, none when there are none
    #[verifier::external_body]
    pub fn v_aliases(&self) -> (r: Vec<String>)
        ensures r@.len() == self.doc().aliases.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i]@ == self.doc().aliases[i],
    { unimplemented!() }
}
/// std's HashMap from names, with its iteration order
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Map<V> { _p: core::marker::PhantomData<V> }
impl<V> Map<V> {
    pub uninterp spec fn order(&self) -> Seq<(Seq<char>, V)>;
    #[verifier::external_body]
    pub fn v_entries<'t>(&'t self) -> (r: Vec<(&'t IgnoreCaseString, &'t V)>)
        ensures r@.len() == self.order().len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self.order()[i] == (r@[i].0.text(), *r@[i].1),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
pub struct DefaultContext<N> { _p: core::marker::PhantomData<N> }
impl<N> DefaultContext<N> {
    pub uninterp spec fn s_functions(&self) -> Map<FnObj>;
    pub uninterp spec fn s_binary(&self) -> Map<FnObj>;
    pub uninterp spec fn s_unary(&self) -> Map<FnObj>;
    pub uninterp spec fn s_constants(&self) -> Map<N>;
    #[verifier::external_body]
    pub fn functions(&self) -> (r: &Map<FnObj>) ensures *r == self.s_functions() { unimplemented!() }
    #[verifier::external_body]
    pub fn binary_functions(&self) -> (r: &Map<FnObj>) ensures *r == self.s_binary() { unimplemented!() }
    #[verifier::external_body]
    pub fn unary_functions(&self) -> (r: &Map<FnObj>) ensures *r == self.s_unary() { unimplemented!() }
    #[verifier::external_body]
    pub fn constants(&self) -> (r: &Map<N>) ensures *r == self.s_constants() { unimplemented!() }
}
/// the library's context of a kind: 0 checked, 1 decimal, 2 complex, 3 binary, 4 unchecked
pub uninterp spec fn s_new<N>(kind: int) -> DefaultContext<N>;
impl<N> DefaultContext<N> {
    #[verifier::external_body]
    pub fn new_checked() -> (r: DefaultContext<N>) ensures r == s_new::<N>(0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_unchecked() -> (r: DefaultContext<N>) ensures r == s_new::<N>(4) { unimplemented!() }
}
//@ repeat T F K | Decimal new_decimal 1 | Complex new_complex 2 | Binary new_binary 3
impl DefaultContext<@T@> {
    #[verifier::external_body]
    pub fn @F@() -> (r: DefaultContext<@T@>) ensures r == s_new::<@T@>(@K@) { unimplemented!() }
}
//@ endrepeat

// ---------------------------------------------------------------- services/info.rs
//@ extract prexel-server/src/services/info.rs | struct FnInfo
//@ end
//@ extract prexel-server/src/services/info.rs | struct VarInfo
//@ end
pub struct SFn { pub name: Seq<char>, pub aliases: Seq<Seq<char>>, pub about: Option<Seq<char>> }
impl FnInfo {
    pub closed spec fn is(&self, e: SFn) -> bool {
        self.name@ == e.name && self.aliases@.len() == e.aliases.len() && (forall|i: int| #![trigger self.aliases@[i]] 0 <= i < self.aliases@.len() ==> self.aliases@[i]@ == e.aliases[i])
        && match self.description { Some(t) => e.about == Some(t@), None => e.about is None }
    }
}
impl VarInfo {
    pub closed spec fn is(&self, e: (Seq<char>, Seq<char>)) -> bool { self.name@ == e.0 && self.value@ == e.1 }
}
/// one entry per name of the table
pub open spec fn s_fns(m: Map<FnObj>) -> Seq<SFn> { m.order().map_values(|e: (Seq<char>, FnObj)| SFn { name: e.0, aliases: e.1.doc().aliases, about: e.1.doc().about }) }
pub open spec fn s_vals<N: VText>(m: Map<N>) -> Seq<(Seq<char>, Seq<char>)> { m.order().map_values(|e: (Seq<char>, N)| (e.0, e.1.text())) }
pub open spec fn lists(v: Seq<FnInfo>, es: Seq<SFn>) -> bool { v.len() == es.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].is(es[i]) }
pub open spec fn lists_vals(v: Seq<VarInfo>, es: Seq<(Seq<char>, Seq<char>)>) -> bool { v.len() == es.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].is(es[i]) }

//@ rewrite f . aliases ( ) . map ( | v | v . iter ( ) . map ( | s | s . v_text ( ) ) . collect ( ) ) . unwrap_or_default ( ) ==> f . v_aliases ( )

//@ extract prexel-server/src/services/info.rs | fn get_operators
//@ rewrite context . $m ( ) . iter ( ) . map ( | ( $a , $b ) | $$x ) . chain ( context . $n ( ) . iter ( ) . map ( | ( $c , $d ) | $$y ) ) . collect ( ) ==> { let v_es = context . $m ( ) . v_entries ( ) ; let mut v_out = Vec :: < FnInfo > :: new ( ) ; let mut v_i : usize = 0 ; while v_i < v_es . len ( ) { let ( $a , $b ) = v_es [ v_i ] ; v_i += 1 ; v_out . push ( $$x ) ; } let v_fs = context . $n ( ) . v_entries ( ) ; let mut v_j : usize = 0 ; while v_j < v_fs . len ( ) { let ( $c , $d ) = v_fs [ v_j ] ; v_j += 1 ; v_out . push ( $$y ) ; } v_out }
//@ rewrite method map
//@ rename svc_operators
//@ ret r
//@ spec
        ensures lists(r@, s_fns(context.s_binary()) + s_fns(context.s_unary())),
//@ loop 0
        invariant
            0 <= v_i <= v_es@.len(), v_es@.len() == context.s_binary().order().len(), v_out@.len() == v_i,
            forall|i: int| #![trigger v_es@[i]] 0 <= i < v_es@.len() ==> context.s_binary().order()[i] == (v_es@[i].0.text(), *v_es@[i].1),
            forall|i: int| #![trigger v_out@[i]] 0 <= i < v_i ==> v_out@[i].is(s_fns(context.s_binary())[i]),
        decreases v_es@.len() - v_i,
//@ loop 0 start
        proof { if v_i < v_es@.len() { assert(context.s_binary().order()[v_i as int] == (v_es@[v_i as int].0.text(), *v_es@[v_i as int].1)); } }
//@ loop 1
        invariant
            0 <= v_j <= v_fs@.len(), v_fs@.len() == context.s_unary().order().len(), v_out@.len() == context.s_binary().order().len() + v_j,
            forall|i: int| #![trigger v_fs@[i]] 0 <= i < v_fs@.len() ==> context.s_unary().order()[i] == (v_fs@[i].0.text(), *v_fs@[i].1),
            forall|i: int| #![trigger v_out@[i]] 0 <= i < v_out@.len() ==> v_out@[i].is((s_fns(context.s_binary()) + s_fns(context.s_unary()))[i]),
        decreases v_fs@.len() - v_j,
//@ loop 1 start
        proof { if v_j < v_fs@.len() { assert(context.s_unary().order()[v_j as int] == (v_fs@[v_j as int].0.text(), *v_fs@[v_j as int].1)); } }
//@ end
//@ extract prexel-server/src/services/info.rs | fn get_functions
//@ rewrite context . $m ( ) . iter ( ) . map ( | ( $a , $b ) | $$x ) . collect ( ) ==> { let v_es = context . $m ( ) . v_entries ( ) ; let mut v_out = Vec :: < FnInfo > :: new ( ) ; let mut v_i : usize = 0 ; while v_i < v_es . len ( ) { let ( $a , $b ) = v_es [ v_i ] ; v_i += 1 ; v_out . push ( $$x ) ; } v_out }
//@ rewrite method map
//@ rename svc_functions
//@ ret r
//@ spec
        ensures lists(r@, s_fns(context.s_functions())),
//@ loop 0
        invariant
            0 <= v_i <= v_es@.len(), v_es@.len() == context.s_functions().order().len(), v_out@.len() == v_i,
            forall|i: int| #![trigger v_es@[i]] 0 <= i < v_es@.len() ==> context.s_functions().order()[i] == (v_es@[i].0.text(), *v_es@[i].1),
            forall|i: int| #![trigger v_out@[i]] 0 <= i < v_i ==> v_out@[i].is(s_fns(context.s_functions())[i]),
        decreases v_es@.len() - v_i,
//@ loop 0 start
        proof { if v_i < v_es@.len() { assert(context.s_functions().order()[v_i as int] == (v_es@[v_i as int].0.text(), *v_es@[v_i as int].1)); } }
//@ end
//@ extract prexel-server/src/services/info.rs | fn get_constants
//@ rewrite context . $m ( ) . iter ( ) . map ( | ( $a , $b ) | $$x ) . collect ( ) ==> { let v_es = context . $m ( ) . v_entries ( ) ; let mut v_out = Vec :: < VarInfo > :: new ( ) ; let mut v_i : usize = 0 ; while v_i < v_es . len ( ) { let ( $a , $b ) = v_es [ v_i ] ; v_i += 1 ; v_out . push ( $$x ) ; } v_out }
//@ rename svc_constants
//@ ret r
//@ spec
        ensures lists_vals(r@, s_vals(context.s_constants())),
//@ loop 0
        invariant
            0 <= v_i <= v_es@.len(), v_es@.len() == context.s_constants().order().len(), v_out@.len() == v_i,
            forall|i: int| #![trigger v_es@[i]] 0 <= i < v_es@.len() ==> context.s_constants().order()[i] == (v_es@[i].0.text(), *v_es@[i].1),
            forall|i: int| #![trigger v_out@[i]] 0 <= i < v_i ==> v_out@[i].is(s_vals(context.s_constants())[i]),
        decreases v_es@.len() - v_i,
//@ loop 0 start
        proof { if v_i < v_es@.len() { assert(context.s_constants().order()[v_i as int] == (v_es@[v_i as int].0.text(), *v_es@[v_i as int].1)); } }
//@ end

// ---------------------------------------------------------------- endpoints/mod.rs: the listing endpoints
#[derive(Clone, Copy)]
//@ extract prexel-server/src/models/mod.rs | enum NumberType
//@ end
#[verifier::external_body]
pub struct HttpRequest { _p: () }
/// the request's type parameter, if it has a valid one
pub uninterp spec fn s_asked(r: HttpRequest) -> Option<NumberType>;
#[verifier::external_body]
pub fn v_asked(r: &HttpRequest) -> (b: Option<NumberType>) ensures b == s_asked(*r) { unimplemented!() }
pub enum Body { Fns(Seq<FnInfo>), Vals(Seq<VarInfo>) }
pub trait VJson { spec fn json(&self) -> Body; }
impl VJson for Vec<FnInfo> { open spec fn json(&self) -> Body { Body::Fns(self@) } }
impl VJson for Vec<VarInfo> { open spec fn json(&self) -> Body { Body::Vals(self@) } }
#[verifier::external_body]
pub struct HttpResponse { _p: () }
pub struct Builder { pub status: Ghost<int> }
impl HttpResponse {
    pub uninterp spec fn status(&self) -> int;
    pub uninterp spec fn sbody(&self) -> Body;
    pub fn Ok() -> (r: Builder) ensures r.status@ == 200 { Builder { status: Ghost(200) } }
    pub fn BadRequest() -> (r: Builder) ensures r.status@ == 400 { Builder { status: Ghost(400) } }
}
impl Builder {
    #[verifier::external_body]
    pub fn json<T: VJson>(self, v: T) -> (r: HttpResponse) ensures r.status() == self.status@, r.sbody() == v.json() { unimplemented!() }
}
pub struct HttpError {}
pub type ApiResponse = Result<HttpResponse, HttpError>;
pub open spec fn sent_fns(r: ApiResponse, es: Seq<SFn>) -> bool { r matches Ok(h) && h.status() == 200 && (h.sbody() matches Body::Fns(v) && lists(v, es)) }
pub open spec fn sent_vals(r: ApiResponse, es: Seq<(Seq<char>, Seq<char>)>) -> bool { r matches Ok(h) && h.status() == 200 && (h.sbody() matches Body::Vals(v) && lists_vals(v, es)) }
/// the type listed: the one asked for, or decimal
pub open spec fn s_type(r: HttpRequest) -> NumberType { match s_asked(r) { Some(t) => t, None => NumberType::Decimal } }
pub open spec fn s_ops_of<N>(c: DefaultContext<N>) -> Seq<SFn> { s_fns(c.s_binary()) + s_fns(c.s_unary()) }

//@ rewrite pub async fn ==> pub fn
//@ rewrite Result < impl Responder > ==> ApiResponse
//@ rewrite let query = Query :: < GetFunctions > :: from_query ( req . query_string ( ) ) . ok ( ) ; ==>
//@ rewrite query . and_then ( | q | q . r#type ) ==> v_asked ( & req )
//@ rewrite services :: get_operators ==> svc_operators
//@ rewrite services :: get_functions ==> svc_functions
//@ rewrite services :: get_constants ==> svc_constants
//@ repeat F SENT WHAT POST | get_operators sent_fns s_ops_of( ) | get_functions sent_fns s_fns( .s_functions()) | get_constants sent_vals s_vals( .s_constants())
//@ extract prexel-server/src/endpoints/mod.rs | fn @F@
//@ ret r
//@ spec
        ensures
            // of the context that evaluation of that type uses (C16)
            match s_type(req) {
                NumberType::Decimal => @SENT@(r, @WHAT@s_new::<Decimal>(1)@POST@),
                NumberType::Float => @SENT@(r, @WHAT@s_new::<f64>(0)@POST@),
                NumberType::Integer => @SENT@(r, @WHAT@s_new::<i128>(0)@POST@),
                NumberType::Complex => @SENT@(r, @WHAT@s_new::<Complex>(2)@POST@),
                NumberType::Binary => @SENT@(r, @WHAT@s_new::<Binary>(3)@POST@),
            },
//@ end
//@ endrepeat

/// C25 over the contracts: what is listed is named as in the context's table, and every name of the table is listed
pub open spec fn s_named(v: FnInfo, n: Seq<char>) -> bool { exists|e: SFn| #![trigger v.is(e)] e.name == n && v.is(e) }
pub proof fn theorem_c25_functions(v: Seq<FnInfo>, m: Map<FnObj>)
    requires lists(v, s_fns(m)),
    ensures
        v.len() == m.order().len(),
        forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> s_named(v[i], m.order()[i].0),
{
    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies s_named(v[i], m.order()[i].0) by { assert(v[i].is(s_fns(m)[i])); assert(s_fns(m)[i].name == m.order()[i].0); }
}
pub proof fn theorem_c25_operators<N>(v: Seq<FnInfo>, c: DefaultContext<N>)
    requires lists(v, s_ops_of(c)),
    ensures
        v.len() == c.s_binary().order().len() + c.s_unary().order().len(),
        forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> s_named(v[i], if i < c.s_binary().order().len() { c.s_binary().order()[i].0 } else { c.s_unary().order()[i - c.s_binary().order().len()].0 }),
{
    let k = c.s_binary().order().len() as int;
    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies s_named(v[i], if i < k { c.s_binary().order()[i].0 } else { c.s_unary().order()[i - k].0 }) by {
        assert(v[i].is(s_ops_of(c)[i]));
        if i < k { assert(s_ops_of(c)[i] == s_fns(c.s_binary())[i]); } else { assert(s_ops_of(c)[i] == s_fns(c.s_unary())[i - k]); }
    }
}
fn main() {}
} // verus!
