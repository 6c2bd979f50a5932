// ---------------------------------------------------------------- trusted prelude (dependencies)
#[derive(Clone, Copy)]
//@ extract prexel/src/error.rs | enum ErrorKind
//@ end
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: () }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn new<E>(kind: ErrorKind, error: E) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
    #[verifier::external_body]
    pub fn from_kind(kind: ErrorKind) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub fn v_fmt() -> String { unimplemented!() }
#[verifier::external_body]
pub fn v_string_of_star() -> (r: String) ensures r@ == seq!['*'] { unimplemented!() }

/// `slice.iter().enumerate().peekable()` (verified replacement for the std adapters)
pub struct PeekEnum<'s, T> { pub s: &'s [T], pub pos: usize }
impl<'s, T> PeekEnum<'s, T> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    pub fn next(&mut self) -> (r: Option<(usize, &'s T)>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).s == old(self).s,
            r is None <==> old(self).pos == old(self).s@.len(),
            r is None ==> final(self).pos == old(self).pos,
            r matches Some(p) ==> p.0 == old(self).pos && *p.1 == old(self).s@[p.0 as int] && final(self).pos == p.0 + 1 && p.0 < old(self).s@.len(),
    {
        if self.pos < self.s.len() { let r = (self.pos, &self.s[self.pos]); self.pos = self.pos + 1; Some(r) } else { None }
    }
    pub fn peek(&mut self) -> (r: Option<(usize, &'s T)>)
        requires old(self).wf(),
        ensures *final(self) == *old(self),
            r is None <==> old(self).pos == old(self).s@.len(),
            r matches Some(p) ==> p.0 == old(self).pos && *p.1 == old(self).s@[p.0 as int] && p.0 < old(self).s@.len(),
    {
        if self.pos < self.s.len() { Some((self.pos, &self.s[self.pos])) } else { None }
    }
}
pub fn v_peek_enumerate<'s, T>(s: &'s [T]) -> (r: PeekEnum<'s, T>)
    ensures r.s == s, r.pos == 0, r.wf(),
{ PeekEnum { s, pos: 0 } }

// ---------------------------------------------------------------- operator descriptors
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
//@ extract prexel/src/function.rs | enum Associativity
//@ end
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
//@ extract prexel/src/function.rs | enum Notation
//@ end
#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd)]
//@ extract prexel/src/function.rs | struct Precedence
//@ end
impl PartialOrdSpecImpl for Precedence {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Precedence) -> Option<core::cmp::Ordering> {
        if self.0 < o.0 { Some(core::cmp::Ordering::Less) }
        else if self.0 > o.0 { Some(core::cmp::Ordering::Greater) }
        else { Some(core::cmp::Ordering::Equal) }
    }
}
impl PartialEqSpecImpl for Precedence {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Precedence) -> bool { self.0 == o.0 }
}
impl PartialEqSpecImpl for Associativity {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Associativity) -> bool { *self == *o }
}
impl PartialEqSpecImpl for Notation {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Notation) -> bool { *self == *o }
}

pub open spec fn res_is<N>(r: Result<N>, v: Option<N>) -> bool {
    match r { Ok(x) => v == Some(x), Err(_) => v is None }
}
/// Contract assumed of user-supplied functions: the result is determined by the arguments.
pub trait Function<N> {
    spec fn s_name(&self) -> Seq<char>;
    spec fn s_aliases(&self) -> Option<Seq<Seq<char>>>;
//@ extract prexel/src/function.rs | trait Function / fn name
//@ ret r
//@ spec
        ensures r@ == self.s_name()
//@ end
    fn aliases(&self) -> (r: Option<&[&str]>)
        ensures match r { Some(a) => self.s_aliases() == Some(a@.map_values(|s: &str| s@)), None => self.s_aliases() is None };
    spec fn s_call(&self, args: Seq<N>) -> Option<N>;
//@ extract prexel/src/function.rs | trait Function / fn call
//@ ret r
//@ spec
        ensures res_is(r, self.s_call(args@))
//@ end
}
pub trait BinaryFunction<N> {
    spec fn s_name(&self) -> Seq<char>;
    spec fn s_aliases(&self) -> Option<Seq<Seq<char>>>;
//@ extract prexel/src/function.rs | trait BinaryFunction / fn name
//@ ret r
//@ spec
        ensures r@ == self.s_name()
//@ end
    fn aliases(&self) -> (r: Option<&[&str]>)
        ensures match r { Some(a) => self.s_aliases() == Some(a@.map_values(|s: &str| s@)), None => self.s_aliases() is None };
    spec fn s_prec(&self) -> Precedence;
    spec fn s_assoc(&self) -> Associativity;
    spec fn s_call(&self, a: N, b: N) -> Option<N>;
//@ extract prexel/src/function.rs | trait BinaryFunction / fn precedence
//@ ret r
//@ spec
        ensures r == self.s_prec()
//@ end
//@ extract prexel/src/function.rs | trait BinaryFunction / fn associativity
//@ ret r
//@ spec
        ensures r == self.s_assoc()
//@ end
//@ extract prexel/src/function.rs | trait BinaryFunction / fn call
//@ ret r
//@ spec
        ensures res_is(r, self.s_call(left, right))
//@ end
}
pub trait UnaryFunction<N> {
    spec fn s_name(&self) -> Seq<char>;
    spec fn s_aliases(&self) -> Option<Seq<Seq<char>>>;
//@ extract prexel/src/function.rs | trait UnaryFunction / fn name
//@ ret r
//@ spec
        ensures r@ == self.s_name()
//@ end
    fn aliases(&self) -> (r: Option<&[&str]>)
        ensures match r { Some(a) => self.s_aliases() == Some(a@.map_values(|s: &str| s@)), None => self.s_aliases() is None };
    spec fn s_notation(&self) -> Notation;
    spec fn s_call(&self, a: N) -> Option<N>;
//@ extract prexel/src/function.rs | trait UnaryFunction / fn notation
//@ ret r
//@ spec
        ensures r == self.s_notation()
//@ end
//@ extract prexel/src/function.rs | trait UnaryFunction / fn call
//@ ret r
//@ spec
        ensures res_is(r, self.s_call(value))
//@ end
}

//@ include grouping.inc
// ---------------------------------------------------------------- context (contract of every implementation; DefaultContext: C07)
#[verifier::reject_recursive_types(N)]
pub struct SUn<N> { pub prefix: bool, pub f: spec_fn(N) -> Option<N> }
#[verifier::reject_recursive_types(N)]
pub struct SBin<N> { pub prec: u32, pub left: bool, pub f: spec_fn(N, N) -> Option<N> }
#[verifier::reject_recursive_types(N)]
pub struct Cx<N> {
    pub un: spec_fn(Seq<char>) -> Option<SUn<N>>,
    pub bin: spec_fn(Seq<char>) -> Option<SBin<N>>,
    pub fun: spec_fn(Seq<char>) -> Option<spec_fn(Seq<N>) -> Option<N>>,
    pub var: spec_fn(Seq<char>) -> Option<N>,
    pub con: spec_fn(Seq<char>) -> Option<N>,
    pub imul: bool,
    pub custom: bool,
    pub complex: bool,
}
pub trait Context<'a, N> {
    spec fn cx(&self) -> Cx<N>;
//@ extract prexel/src/context.rs | trait Context / fn config
//@ ret r
//@ spec
        ensures r.implicit_mul == self.cx().imul, r.custom_function_call == self.cx().custom, r.complex_number == self.cx().complex
//@ end
//@ extract prexel/src/context.rs | trait Context / fn get_variable
//@ ret r
//@ spec
        ensures match r { Some(n) => (self.cx().var)(name@) == Some(*n), None => (self.cx().var)(name@) is None }
//@ end
//@ extract prexel/src/context.rs | trait Context / fn get_constant
//@ ret r
//@ spec
        ensures match r { Some(n) => (self.cx().con)(name@) == Some(*n), None => (self.cx().con)(name@) is None }
//@ end
//@ extract prexel/src/context.rs | trait Context / fn get_function
//@ ret r
//@ spec
        ensures match r {
            Some(g) => (self.cx().fun)(name@) matches Some(f) && forall|a: Seq<N>| #[trigger] f(a) == g.s_call(a),
            None => (self.cx().fun)(name@) is None }
//@ end
//@ extract prexel/src/context.rs | trait Context / fn get_unary_function
//@ ret r
//@ spec
        ensures match r {
            Some(g) => (self.cx().un)(name@) matches Some(u) && u.prefix == (g.s_notation() == Notation::Prefix)
                && forall|a: N| #[trigger] (u.f)(a) == g.s_call(a),
            None => (self.cx().un)(name@) is None }
//@ end
//@ extract prexel/src/context.rs | trait Context / fn get_binary_function
//@ ret r
//@ spec
        ensures match r {
            Some(g) => (self.cx().bin)(name@) matches Some(b) && b.prec == g.s_prec().0 && b.left == (g.s_assoc() == Associativity::Left)
                && forall|x: N, y: N| #[trigger] (b.f)(x, y) == g.s_call(x, y),
            None => (self.cx().bin)(name@) is None }
//@ end
//@ extract prexel/src/context.rs | trait Context / fn is_variable
//@ ret r
//@ spec
        ensures r == ((self.cx().var)(name@) is Some)
//@ end
//@ extract prexel/src/context.rs | trait Context / fn is_constant
//@ ret r
//@ spec
        ensures r == ((self.cx().con)(name@) is Some)
//@ end
//@ extract prexel/src/context.rs | trait Context / fn is_function
//@ ret r
//@ spec
        ensures r == ((self.cx().fun)(name@) is Some)
//@ end
//@ extract prexel/src/context.rs | trait Context / fn is_unary_function
//@ ret r
//@ spec
        ensures r == ((self.cx().un)(name@) is Some)
//@ end
//@ extract prexel/src/context.rs | trait Context / fn is_binary_function
//@ ret r
//@ spec
        ensures r == ((self.cx().bin)(name@) is Some)
//@ end
}

// ---------------------------------------------------------------- tokens
//@ extract prexel/src/token.rs | enum Token
//@ end
use Token::*;
pub enum STok<N> {
    Num(N), Var(Seq<char>), Con(Seq<char>), Fun(Seq<char>), Bin(Seq<char>), Un(Seq<char>),
    Arg(nat), Open(char), Close(char), Unk(Seq<char>), Comma,
}
pub open spec fn tv<N>(t: Token<N>) -> STok<N> {
    match t {
        Token::Number(n) => STok::Num(n), Token::Variable(s) => STok::Var(s@), Token::Constant(s) => STok::Con(s@),
        Token::Function(s) => STok::Fun(s@), Token::BinaryOperator(s) => STok::Bin(s@), Token::UnaryOperator(s) => STok::Un(s@),
        Token::ArgCount(n) => STok::Arg(n as nat), Token::GroupingOpen(c) => STok::Open(c), Token::GroupingClose(c) => STok::Close(c),
        Token::Unknown(s) => STok::Unk(s@), Token::Comma => STok::Comma,
    }
}
pub open spec fn tvs<N>(s: Seq<Token<N>>) -> Seq<STok<N>> { s.map_values(|t: Token<N>| tv(t)) }
/// `N::clone` returns an equal value (explicit precondition of everything below)
pub open spec fn clone_ok<N: Clone>() -> bool { forall|a: N, b: N| #[trigger] call_ensures(N::clone, (&a,), b) ==> a == b }
pub open spec fn tok_clone_ok<N: Clone>() -> bool { forall|a: Token<N>, b: Token<N>| #[trigger] call_ensures(Token::<N>::clone, (&a,), b) ==> tv(a) == tv(b) }
impl<N: Clone> Clone for Token<N> {
    // derived in the source; the derive is trusted to clone field by field
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures clone_ok::<N>() ==> tv(r) == tv(*self),
    { unimplemented!() }
}
impl<N> Token<N> {
//@ extract prexel/src/token.rs | impl Token<N> / fn is_number
//@ ret r
//@ spec
        ensures r == (tv(*self) is Num)
//@ end
//@ extract prexel/src/token.rs | impl Token<N> / fn is_function
//@ ret r
//@ spec
        ensures r == (tv(*self) is Fun)
//@ end
//@ extract prexel/src/token.rs | impl Token<N> / fn is_unary_operator
//@ ret r
//@ spec
        ensures r == (tv(*self) is Un)
//@ end
//@ extract prexel/src/token.rs | impl Token<N> / fn is_grouping_open
//@ ret r
//@ spec
        ensures r == (tv(*self) is Open)
//@ end
//@ extract prexel/src/token.rs | impl Token<N> / fn is_grouping_close
//@ ret r
//@ spec
        ensures r == (tv(*self) is Close)
//@ end
//@ extract prexel/src/token.rs | impl Token<N> / fn is_comma
//@ ret r
//@ spec
        ensures r == (tv(*self) is Comma)
//@ end
//@ extract prexel/src/token.rs | impl Token<N> / fn contains_symbol
//@ ret r
//@ spec
        ensures r == (tv(*self) == STok::<N>::Open(name) || tv(*self) == STok::<N>::Close(name))
//@ end
}
