// ---------------------------------------------------------------- C23: precedence levels (prexel/src/function.rs)
impl Precedence {
//@ extract prexel/src/function.rs | impl Precedence / fn from
//@ ret r
//@ spec
        ensures r.0 == value
//@ end
//@ repeat N | VERY_LOW | LOW | MEDIUM | HIGH | VERY_HIGH
//@ extract prexel/src/function.rs | impl Precedence / const @N@
//@ rewrite pub const @N@ : Precedence = Precedence :: from ( $v ) ; ==> pub open spec fn s_@N@ ( ) -> Precedence { Precedence ( $v ) }
//@ end
//@ extract prexel/src/function.rs | impl Precedence / const @N@
//@ rewrite pub const @N@ : Precedence = Precedence :: from ( $v ) ; ==> pub exec const @N@ : Precedence ensures Self :: @N@ == Precedence :: s_@N@ ( ) { Precedence :: from ( $v ) }
//@ end
//@ endrepeat
}
/// unsizing keeps what the operator is
pub broadcast axiom fn ax_dyn_bin<'a, N, F: BinaryFunction<N> + 'a>(f: F)
    ensures (#[trigger] dyn_bin::<'a, N, F>(f)).s_prec() == f.s_prec(), dyn_bin::<'a, N, F>(f).s_assoc() == f.s_assoc();
pub broadcast axiom fn ax_dyn_un<'a, N, F: UnaryFunction<N> + 'a>(f: F)
    ensures (#[trigger] dyn_un::<'a, N, F>(f)).s_notation() == f.s_notation();
// ---------------------------------------------------------------- the operators
// (their `call` is the subject of C08, C09, C12 and C20; here it is a symbol)
pub trait CheckedNum: Sized {}
pub trait UncheckedNum: Sized {}
pub trait Float: Sized {}
pub uninterp spec fn s_op1<N, F>(f: F, a: N) -> Option<N>;
pub uninterp spec fn s_op2<N, F>(f: F, a: N, b: N) -> Option<N>;
pub mod ops { use super::*;
pub mod math { use super::*;
//@ repeat STRUCT NAME PREC ASSOC | PowOperator ^ HIGH Right
pub struct @STRUCT@;
impl<N> BinaryFunction<N> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { Precedence::s_@PREC@() }
    open spec fn s_assoc(&self) -> Associativity { Associativity::@ASSOC@ }
    open spec fn s_call(&self, a: N, b: N) -> Option<N> { s_op2(*self, a, b) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, left: N, right: N) -> Result<N> { unimplemented!() }
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl BinaryFunction<N> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl BinaryFunction<N> for @STRUCT@ / fn precedence
//@ ret r
//@ end
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl BinaryFunction<N> for @STRUCT@ / fn associativity
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat STRUCT NAME NOT | UnaryPlus + Prefix | Factorial ! Postfix
pub struct @STRUCT@;
impl<N> UnaryFunction<N> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_notation(&self) -> Notation { Notation::@NOT@ }
    open spec fn s_call(&self, a: N) -> Option<N> { s_op1(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, value: N) -> Result<N> { unimplemented!() }
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl UnaryFunction<N> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl UnaryFunction<N> for @STRUCT@ / fn notation
//@ ret r
//@ end
}
//@ endrepeat
}
pub mod checked { use super::*;
//@ repeat STRUCT NAME PREC ASSOC | AddOperator + LOW Left | SubOperator - LOW Left | MulOperator * MEDIUM Left | DivOperator / MEDIUM Left | ModOperator mod MEDIUM Left
pub struct @STRUCT@;
impl<N> BinaryFunction<N> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { Precedence::s_@PREC@() }
    open spec fn s_assoc(&self) -> Associativity { Associativity::@ASSOC@ }
    open spec fn s_call(&self, a: N, b: N) -> Option<N> { s_op2(*self, a, b) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, left: N, right: N) -> Result<N> { unimplemented!() }
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for @STRUCT@ / fn precedence
//@ ret r
//@ end
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for @STRUCT@ / fn associativity
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat STRUCT NAME NOT | UnaryMinus - Prefix | Factorial ! Postfix
pub struct @STRUCT@;
impl<N> UnaryFunction<N> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_notation(&self) -> Notation { Notation::@NOT@ }
    open spec fn s_call(&self, a: N) -> Option<N> { s_op1(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, value: N) -> Result<N> { unimplemented!() }
//@ extract prexel/src/ops/checked.rs | impl UnaryFunction<N> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/ops/checked.rs | impl UnaryFunction<N> for @STRUCT@ / fn notation
//@ ret r
//@ end
}
//@ endrepeat
}
pub mod unchecked { use super::*;
//@ repeat STRUCT NAME PREC ASSOC | AddOperator + LOW Left | SubOperator - LOW Left | MulOperator * MEDIUM Left | DivOperator / MEDIUM Left | ModOperator mod MEDIUM Left
pub struct @STRUCT@;
impl<N> BinaryFunction<N> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { Precedence::s_@PREC@() }
    open spec fn s_assoc(&self) -> Associativity { Associativity::@ASSOC@ }
    open spec fn s_call(&self, a: N, b: N) -> Option<N> { s_op2(*self, a, b) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, left: N, right: N) -> Result<N> { unimplemented!() }
//@ extract prexel/src/ops/unchecked.rs | impl BinaryFunction<N> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/ops/unchecked.rs | impl BinaryFunction<N> for @STRUCT@ / fn precedence
//@ ret r
//@ end
//@ extract prexel/src/ops/unchecked.rs | impl BinaryFunction<N> for @STRUCT@ / fn associativity
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat STRUCT NAME NOT | UnaryMinus - Prefix
pub struct @STRUCT@;
impl<N> UnaryFunction<N> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_notation(&self) -> Notation { Notation::@NOT@ }
    open spec fn s_call(&self, a: N) -> Option<N> { s_op1(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, value: N) -> Result<N> { unimplemented!() }
//@ extract prexel/src/ops/unchecked.rs | impl UnaryFunction<N> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/ops/unchecked.rs | impl UnaryFunction<N> for @STRUCT@ / fn notation
//@ ret r
//@ end
}
//@ endrepeat
}
}
#[verifier::external_body]
pub struct Decimal { p: () }
pub mod decimal { use super::*;
pub mod ops { use super::*;
//@ repeat STRUCT NAME PREC ASSOC | AddOperator + LOW Left | SubOperator - LOW Left | MulOperator * MEDIUM Left | DivOperator / MEDIUM Left | ModOperator mod MEDIUM Left | PowOperator ^ HIGH Right
pub struct @STRUCT@;
impl BinaryFunction<Decimal> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { Precedence::s_@PREC@() }
    open spec fn s_assoc(&self) -> Associativity { Associativity::@ASSOC@ }
    open spec fn s_call(&self, a: Decimal, b: Decimal) -> Option<Decimal> { s_op2(*self, a, b) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> { unimplemented!() }
//@ extract prexel/src/decimal/mod.rs | mod math_ops / impl BinaryFunction<Decimal> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/decimal/mod.rs | mod math_ops / impl BinaryFunction<Decimal> for @STRUCT@ / fn precedence
//@ ret r
//@ end
//@ extract prexel/src/decimal/mod.rs | mod math_ops / impl BinaryFunction<Decimal> for @STRUCT@ / fn associativity
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat STRUCT NAME NOT | UnaryMinus - Prefix | Factorial ! Postfix
pub struct @STRUCT@;
impl UnaryFunction<Decimal> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_notation(&self) -> Notation { Notation::@NOT@ }
    open spec fn s_call(&self, a: Decimal) -> Option<Decimal> { s_op1(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, value: Decimal) -> Result<Decimal> { unimplemented!() }
//@ extract prexel/src/decimal/mod.rs | mod math_ops / impl UnaryFunction<Decimal> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/decimal/mod.rs | mod math_ops / impl UnaryFunction<Decimal> for @STRUCT@ / fn notation
//@ ret r
//@ end
}
//@ endrepeat
}
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Complex<T> { p: core::marker::PhantomData<T> }
pub mod complex { use super::*;
pub mod ops { use super::*;
//@ repeat STRUCT NAME PREC ASSOC | PowOperator ^ HIGH Right
pub struct @STRUCT@;
impl<T> BinaryFunction<Complex<T>> for @STRUCT@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { Precedence::s_@PREC@() }
    open spec fn s_assoc(&self) -> Associativity { Associativity::@ASSOC@ }
    open spec fn s_call(&self, a: Complex<T>, b: Complex<T>) -> Option<Complex<T>> { s_op2(*self, a, b) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> { unimplemented!() }
//@ extract prexel/src/complex/mod.rs | mod ops / impl BinaryFunction<Complex<T>> for @STRUCT@ / fn name
//@ ret r
//@ end
//@ extract prexel/src/complex/mod.rs | mod ops / impl BinaryFunction<Complex<T>> for @STRUCT@ / fn precedence
//@ ret r
//@ end
//@ extract prexel/src/complex/mod.rs | mod ops / impl BinaryFunction<Complex<T>> for @STRUCT@ / fn associativity
//@ ret r
//@ end
}
//@ endrepeat
}
}
// ---------------------------------------------------------------- the contexts
pub proof fn lemma_names()
    ensures
        forall|n: Seq<char>| #[trigger] names(n, None) == ISet::<Seq<Seq<char>>>::empty().insert(lo(n)),
        "+"@ == seq!['+'], "-"@ == seq!['-'], "*"@ == seq!['*'], "/"@ == seq!['/'], "^"@ == seq!['^'], "!"@ == seq!['!'], "mod"@ == seq!['m', 'o', 'd'],
        s_valid("+"@), s_valid("-"@), s_valid("*"@), s_valid("/"@), s_valid("^"@), s_valid("!"@), s_valid("mod"@),
        lo("+"@)[0][0] == '+', lo("-"@)[0][0] == '-', lo("*"@)[0][0] == '*', lo("/"@)[0][0] == '/', lo("^"@)[0][0] == '^', lo("!"@)[0][0] == '!', lo("mod"@)[0][0] == 'm',
        forall|o: Seq<char>| #[trigger] is_mod(o) ==> lo(o) == lo("mod"@),
{
    reveal_strlit("+"); reveal_strlit("-"); reveal_strlit("*"); reveal_strlit("/"); reveal_strlit("^"); reveal_strlit("!"); reveal_strlit("mod");
    assert forall|n: Seq<char>| #[trigger] names(n, None) == ISet::<Seq<Seq<char>>>::empty().insert(lo(n)) by { assert(names(n, None) =~= ISet::<Seq<Seq<char>>>::empty().insert(lo(n))); }
    assert("+"@ =~= seq!['+']); assert("-"@ =~= seq!['-']); assert("*"@ =~= seq!['*']); assert("/"@ =~= seq!['/']); assert("^"@ =~= seq!['^']); assert("!"@ =~= seq!['!']); assert("mod"@ =~= seq!['m', 'o', 'd']);
    lemma_lo("+"@); lemma_lo("-"@); lemma_lo("*"@); lemma_lo("/"@); lemma_lo("^"@); lemma_lo("!"@); lemma_lo("mod"@);
    assert forall|o: Seq<char>| #[trigger] is_mod(o) implies lo(o) == lo("mod"@) by { lemma_lo(o); assert(lo(o) =~= lo("mod"@)); }
}
//@ rewrite context . add_function ( $$a ) . unwrap ( ) ; ==>
//@ rewrite context . add_constant ( $$a ) . unwrap ( ) ; ==>
pub mod ctx_checked { use super::*; use super::ops::math::*;
impl<'a, N: CheckedNum> DefaultContext<'a, N> {
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn with_config_checked
//@ ret r
//@ spec
        ensures usual(r.cx())
//@ start
        broadcast use ax_dyn_bin, ax_dyn_un;
        proof { lemma_names(); }
//@ end
}
}
pub mod ctx_unchecked { use super::*; use super::ops::math::*;
impl<'a, N: UncheckedNum> DefaultContext<'a, N> {
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn with_config_unchecked
//@ ret r
//@ spec
        ensures usual(r.cx())
//@ start
        broadcast use ax_dyn_bin, ax_dyn_un;
        proof { lemma_names(); }
//@ end
}
}
pub mod ctx_decimal { use super::*; use super::decimal::ops::*; use super::ops::math::UnaryPlus;
impl<'a> DefaultContext<'a, Decimal> {
//@ extract prexel/src/decimal/mod.rs | mod context / impl DefaultContext<'a,Decimal> / fn with_config_decimal
//@ ret r
//@ spec
        ensures usual(r.cx())
//@ start
        broadcast use ax_dyn_bin, ax_dyn_un;
        proof { lemma_names(); }
//@ end
}
}
pub mod ctx_complex { use super::*; use super::complex::ops::PowOperator; use super::ops::unchecked::*; use super::ops::math::UnaryPlus;
impl<'a, T: Float> DefaultContext<'a, Complex<T>> {
//@ extract prexel/src/complex/mod.rs | mod context / impl DefaultContext<'a,Complex<T>> / fn with_config_complex
//@ ret r
//@ spec
        ensures usual(r.cx())
//@ start
        broadcast use ax_dyn_bin, ax_dyn_un;
        proof { lemma_names(); }
//@ end
}
}
